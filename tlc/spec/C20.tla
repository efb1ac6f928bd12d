-------------------------------- MODULE C20 --------------------------------
(***************************************************************************)
(* Outline atomics of AArch64.  The trace gives the machine words of every *)
(* routine; they are executed by A64 on a core, one instruction per step,  *)
(* while another core stores to the operand and the monitor is lost for no *)
(* reason, whenever they like (a bounded number of times).  Every routine  *)
(* is run with and without the large system extension on a lattice of      *)
(* operand values, with garbage in the unused parts of the registers.      *)
(*                                                                         *)
(* Record:  a64 name op size acquire release entry flagaddress > words     *)
(* op: 0 cas 1 swp 2 ldadd 3 ldclr 4 ldeor 5 ldset                         *)
(***************************************************************************)
EXTENDS A64, TraceIO, FiniteSets, TLC

CONSTANTS MaxWrites, MaxLost, Lattice

VARIABLES fn, run, c, g, writes, lost, bad
vars == <<fn, run, c, g, writes, lost, bad>>

Args(i) == Rec(i)[3]
Words(i) == Rec(i)[4]
Op(i) == Args(i)[1]
Size(i) == Args(i)[2]
NeedsAcquire(i) == Args(i)[3] = 1
NeedsRelease(i) == Args(i)[4] = 1
Entry(i) == Args(i)[5]

\* ------------------------------------------------------------ operand values
\* distinct in every byte, with carries and sign bits
Pattern(k, n) == CASE k = 0 -> [i \in 1..n |-> 16 * i - 1]
                   [] k = 1 -> [i \in 1..n |-> 255]
                   [] k = 2 -> [i \in 1..n |-> IF i = n THEN 128 ELSE 0]
                   [] k = 3 -> [i \in 1..n |-> IF i = 1 THEN 1 ELSE 0]
                   [] k = 4 -> [i \in 1..n |-> 255 - 14 * i]
                   [] k = 6 -> [i \in 1..n |-> IF i = n THEN (16 * i) % 256 ELSE 16 * i - 1]     \* 0 but for the top byte
                   [] k = 7 -> [i \in 1..n |-> IF i = 1 THEN 240 ELSE 16 * i - 1]              \* 0 but for the low byte
                   [] OTHER -> [i \in 1..n |-> 0]
Offset(n) == CASE n = 1 -> 13 [] n = 2 -> 14 [] n = 4 -> 12 [] n = 8 -> 8 [] OTHER -> 16
Around == [i \in 1..32 |-> 200 - i]
\* a register holding b, garbage above
Dirty(b) == [i \in 1..8 |-> IF i <= Len(b) THEN b[i] ELSE 165]
Garbage == [i \in 1..8 |-> 90]

\* a run: <<memory value, first operand, second operand, lse flag>>
Runs(i) == IF Op(i) = 0 THEN {<<m, e, d, l>> : m \in Lattice, e \in Lattice, d \in {4}, l \in {0, 1}}
           ELSE {<<m, v, 0, l>> : m \in Lattice, v \in Lattice, l \in {0, 1}}

Pointer(n) == FromInt(Base + Offset(n), 8)
Start(i, r) ==
  LET n == Size(i)
      a == Pattern(r[2], n)  b == Pattern(r[3], n)
      regs == CASE Op(i) = 0 /\ n = 16 -> <<SubSeq(a, 1, 8), SubSeq(a, 9, 16), SubSeq(b, 1, 8), SubSeq(b, 9, 16), Pointer(n)>>
                [] Op(i) = 0 -> <<Dirty(a), Dirty(b), Pointer(n)>>
                [] OTHER -> <<Dirty(a), Pointer(n)>>
  IN [pc |-> Entry(i), r |-> [k \in 1..18 |-> IF k <= Len(regs) THEN regs[k] ELSE Garbage],
      f |-> <<FALSE, TRUE, FALSE, TRUE>>, mem |-> Poke(Around, Offset(n), Pattern(r[1], n)), mon |-> <<>>,
      flag |-> r[4], flagat |-> Args(i)[6]]

\* ------------------------------------------------------------ what the routine must do
First == Pattern(run[2], Size(fn))
Second == Pattern(run[3], Size(fn))
Result(x) == CASE Op(fn) = 0 -> IF x = First THEN Second ELSE x
               [] Op(fn) = 1 -> First
               [] Op(fn) = 2 -> AddB(x, First, 0)
               [] Op(fn) = 3 -> AndB(x, NotB(First))
               [] Op(fn) = 4 -> XorB(x, First)
               [] OTHER -> OrB(x, First)
Now(core) == Peek(core, Offset(Size(fn)), Size(fn))

(* g: done, ok, stored (value before the routine's own store, or none),    *)
(* seen (values the operand had), acq (the last load of it was an acquire  *)
(* or a fence followed), rel (the store was a release or a fence preceded),*)
(* fence (a full fence has been executed).                                 *)
Ghost0 == [done |-> FALSE, ok |-> TRUE, stored |-> <<>>, seen |-> {}, acq |-> FALSE, rel |-> FALSE, fence |-> FALSE,
           steps |-> 0]
Wrong == [g EXCEPT !.ok = FALSE, !.done = TRUE]
Stored(new, acquire, release) ==
  IF g.stored # <<>> \/ (Op(fn) = 0 /\ Now(c) # First) \/ new # Poke(c.mem, Offset(Size(fn)), Result(Now(c)))
  THEN Wrong
  ELSE [g EXCEPT !.stored = Now(c), !.rel = release \/ g.fence, !.acq = acquire]
Returned ==
  LET n == Size(fn)
      answer == IF n = 16 THEN c.r[1] \o c.r[2] ELSE c.r[1]
      is(x) == answer = Widen(x, IF n = 16 THEN 16 ELSE 8)
      fine == /\ IF g.stored # <<>> THEN is(g.stored) ELSE \E x \in g.seen : Result(x) = x /\ is(x)
              /\ NeedsAcquire(fn) => g.acq
              /\ NeedsRelease(fn) /\ g.stored # <<>> => g.rel
  IN IF fine THEN [g EXCEPT !.done = TRUE] ELSE Wrong
RECURSIVE Judge(_)
Judge(eff) ==
  CASE eff[1] = "none" -> g
    [] eff[1] = "load" -> [g EXCEPT !.acq = eff[4]]
    [] eff[1] = "rmw" -> Stored(eff[6], eff[4], eff[5])
    [] eff[1] = "store" -> Stored(eff[5], g.acq, eff[4])
    [] eff[1] = "fence" -> IF eff[2] = 3 THEN [g EXCEPT !.fence = TRUE, !.acq = TRUE]
                           ELSE IF eff[2] = 1 THEN [g EXCEPT !.acq = TRUE] ELSE g
    [] eff[1] = "lse" -> IF c.flag = 0 THEN Wrong ELSE Judge(eff[2])
    [] eff[1] = "ret" -> Returned
    [] OTHER -> Wrong

\* ------------------------------------------------------------ behaviour
Init == /\ fn \in 1..NumRecs
        /\ run = <<>> /\ c = <<>> /\ g = Ghost0 /\ writes = 0 /\ lost = 0 /\ bad = {}

Choose == /\ run = <<>>
          /\ \E r \in Runs(fn) : /\ run' = r
                                 /\ c' = Start(fn, r)
                                 /\ g' = [Ghost0 EXCEPT !.seen = {Pattern(r[1], Size(fn))}]
          /\ UNCHANGED <<fn, writes, lost, bad>>

Index == (c.pc - Entry(fn)) \div 4 + 1
Step == /\ run # <<>> /\ ~g.done
        /\ IF Index \notin 1..Len(Words(fn)) \/ g.steps > 60
           THEN g' = Wrong /\ c' = c /\ bad' = {fn}
           ELSE LET o == Exec(c, Words(fn)[Index])
                    g1 == Judge(o[2])
                IN /\ c' = o[1]
                   /\ g' = [g1 EXCEPT !.steps = @ + 1]
                   /\ bad' = IF o[2] = <<"unknown">> THEN {0 - fn} ELSE IF g1.ok THEN {} ELSE {fn}
        /\ UNCHANGED <<fn, run, writes, lost>>

\* another core stores to the operand: a value of its own, or the one the routine expects
Interfere == /\ run # <<>> /\ ~g.done /\ writes < MaxWrites
             /\ \E v \in {Pattern(5, Size(fn)), First} :
                  /\ c' = [c EXCEPT !.mem = Poke(@, Offset(Size(fn)), v), !.mon = <<>>]
                  /\ g' = [g EXCEPT !.seen = @ \cup {v}]
             /\ writes' = writes + 1
             /\ UNCHANGED <<fn, run, lost, bad>>
Lose == /\ run # <<>> /\ ~g.done /\ lost < MaxLost /\ c.mon # <<>>
        /\ c' = [c EXCEPT !.mon = <<>>]
        /\ lost' = lost + 1
        /\ UNCHANGED <<fn, run, g, writes, bad>>

Next == Choose \/ Step \/ Interfere \/ Lose
Conformance == bad = {}
=============================================================================
