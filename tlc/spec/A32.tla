-------------------------------- MODULE A32 --------------------------------
(***************************************************************************)
(* The part of the ARM and Thumb instruction sets that small integer       *)
(* routines are made of: decoding of machine words and their execution,    *)
(* and procedure calls as the ARM procedure call standard defines them.    *)
(*                                                                         *)
(* A state: [pc, r (r0..r14), f (flags <<N, Z, C, V>>), mem, out].         *)
(*   r     a tuple; r[k + 1] is register k                                 *)
(*   mem   the words of the stack, a function from their addresses         *)
(*   out   "" while running, "ret" after returning to the caller,          *)
(*         "unknown", or what went wrong                                   *)
(* Code is a function from halfword numbers (Thumb) or word numbers (ARM)  *)
(* to machine words, from address 0.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, IntArith

Fld(w, lo, n) == Shift(w, -lo) % 2^n
W32(x) == x % 2^32
SignExt(x, n) == IF x >= 2^(n-1) THEN x - 2^n ELSE x
RA == 4096                        \* where the caller continues

SP == 13  LR == 14
\* the program counter reads as the address of the instruction plus 8 or 4
Rd(s, k, thumb) == IF k = 15 THEN s.pc + (IF thumb THEN 4 ELSE 8) ELSE s.r[k + 1]
Fail(s, why) == [s EXCEPT !.out = why]
Go(s, addr, thumb) ==             \* branch to an address, whose lowest bit selects the instruction set
  IF addr = RA + (IF thumb THEN 1 ELSE 0) THEN [s EXCEPT !.out = "ret"]
  ELSE IF addr % 2 # (IF thumb THEN 1 ELSE 0) THEN Fail(s, "instruction set")
  ELSE [s EXCEPT !.pc = addr - (addr % 2)]
Step(s, thumb) == [s EXCEPT !.pc = @ + (IF thumb THEN 2 ELSE 4)]
\* writing a register as the result of an instruction; the program counter moves on
Wr(s, k, v, thumb) == IF k = 15 THEN Go(s, v, thumb) ELSE Step([s EXCEPT !.r[k + 1] = v], thumb)

\* ------------------------------------------------------------- arithmetic
NZ(x, c, v) == <<x >= 2^31, x = 0, c, v>>
AddC(a, b, c) == LET u == a + b + c
                     g == AsSigned(32, a) + AsSigned(32, b) + c
                     x == W32(u)
                 IN [v |-> x, f |-> NZ(x, u >= 2^32, AsSigned(32, x) # g)]
SubC(a, b, c) == AddC(a, 2^32 - 1 - b, c)
B2(c) == IF c THEN 1 ELSE 0
Not32(x) == 2^32 - 1 - x
\* shifts: value and carry; kind 0 lsl, 1 lsr, 2 asr, 3 ror
ShiftC(kind, x, n, c) ==
  IF n = 0 THEN [v |-> x, c |-> c]
  ELSE CASE kind = 0 -> [v |-> W32(Shift(x, n)), c |-> n <= 32 /\ Fld(Shift(x, n), 32, 1) = 1]
         [] kind = 1 -> [v |-> Shift(x, -n), c |-> Fld(x, n - 1, 1) = 1]
         [] kind = 2 -> LET m == IF n > 32 THEN 32 ELSE n
                        IN [v |-> W32(AsSigned(32, x) \div 2^m), c |-> ((AsSigned(32, x) \div 2^(m-1)) % 2) = 1]
         [] OTHER -> LET m == n % 32
                         y == IF m = 0 THEN x ELSE BitOr(Shift(x, -m), W32(Shift(x, 32 - m)))
                     IN [v |-> y, c |-> y >= 2^31]
\* data processing: 0 and 1 eor 2 sub 3 rsb 4 add 5 adc 6 sbc 7 rsc 8 tst 9 teq 10 cmp 11 cmn 12 orr 13 mov 14 bic 15 mvn
Alu(op, a, b, sc, f) ==
  LET logic(x) == [v |-> x, f |-> NZ(x, sc, f[4])]
  IN CASE op \in {0, 8} -> logic(BitAnd(a, b))
       [] op \in {1, 9} -> logic(BitXor(a, b))
       [] op \in {2, 10} -> SubC(a, b, 1)
       [] op = 3 -> SubC(b, a, 1)
       [] op \in {4, 11} -> AddC(a, b, 0)
       [] op = 5 -> AddC(a, b, B2(f[3]))
       [] op = 6 -> SubC(a, b, B2(f[3]))
       [] op = 7 -> SubC(b, a, B2(f[3]))
       [] op = 12 -> logic(BitOr(a, b))
       [] op = 13 -> logic(b)
       [] op = 14 -> logic(BitAnd(a, Not32(b)))
       [] OTHER -> logic(Not32(b))
Tests(op) == op \in 8..11
Holds(k, f) ==
  LET base == CASE k \div 2 = 0 -> f[2]
                [] k \div 2 = 1 -> f[3]
                [] k \div 2 = 2 -> f[1]
                [] k \div 2 = 3 -> f[4]
                [] k \div 2 = 4 -> f[3] /\ ~f[2]
                [] k \div 2 = 5 -> f[1] = f[4]
                [] k \div 2 = 6 -> (f[1] = f[4]) /\ ~f[2]
                [] OTHER -> TRUE
  IN IF k % 2 = 1 /\ k < 14 THEN ~base ELSE base

\* ----------------------------------------------------------------- memory
Has(s, a) == a \in DOMAIN s.mem
Load(s, k, a, wb, base, thumb) ==     \* wb: new value of the base register, applied first
  IF ~Has(s, a) THEN Fail(s, "load")
  ELSE Wr(IF base = 16 THEN s ELSE [s EXCEPT !.r[base + 1] = wb], k, s.mem[a], thumb)
Store(s, k, a, wb, base, thumb) ==
  IF ~Has(s, a) THEN Fail(s, "store")
  ELSE Step([s EXCEPT !.mem[a] = Rd(s, k, thumb), !.r = IF base = 16 THEN @ ELSE [@ EXCEPT ![base + 1] = wb]], thumb)
RECURSIVE Many(_, _, _, _, _, _)
\* transfers the registers of the list from number k on, starting at address a
Many(s, list, k, a, load, thumb) ==
  IF k = 16 THEN s
  ELSE IF Fld(list, k, 1) = 0 THEN Many(s, list, k + 1, a, load, thumb)
  ELSE IF ~Has(s, a) THEN Fail(s, "block transfer")
  ELSE IF k = 15 THEN IF load THEN Go(s, s.mem[a], thumb) ELSE Fail(s, "unknown")
  ELSE Many(IF load THEN [s EXCEPT !.r[k + 1] = s.mem[a]] ELSE [s EXCEPT !.mem[a] = s.r[k + 1]], list, k + 1, a + 4, load, thumb)
RECURSIVE Ones(_)
Ones(x) == IF x = 0 THEN 0 ELSE (x % 2) + Ones(x \div 2)
\* load or store multiple; up, before as in the encoding
Block(s, base, list, load, up, before, wb, thumb) ==
  LET n == Ones(list)
      b == s.r[base + 1]
      low == IF up THEN (IF before THEN b + 4 ELSE b) ELSE (IF before THEN b - 4 * n ELSE b - 4 * n + 4)
      new == IF up THEN b + 4 * n ELSE b - 4 * n
      t == Many(s, list, 0, low, load, thumb)
      u == IF wb /\ ~(load /\ Fld(list, base, 1) = 1) /\ t.out \in {"", "ret"} THEN [t EXCEPT !.r[base + 1] = new] ELSE t
  IN IF u.out = "" /\ u.pc = s.pc THEN Step(u, thumb) ELSE u

\* -------------------------------------------------------------- ARM state
DecodeImm(w) == LET rot == 2 * Fld(w, 8, 4) IN ShiftC(3, w % 256, rot, FALSE)
ExecArm(s, w) ==
  LET cond == Fld(w, 28, 4)
      rn == Fld(w, 16, 4)
      rd == Fld(w, 12, 4)
      top == Fld(w, 25, 3)
  IN IF cond = 15 THEN Fail(s, "unknown")
     ELSE IF ~Holds(cond, s.f) THEN Step(s, FALSE)
     ELSE CASE Fld(w, 4, 24) = 1245169 /\ Fld(w, 0, 4) # 15 ->     \* bx: 012fff1
                 Go(s, Rd(s, Fld(w, 0, 4), FALSE), FALSE)
            [] Fld(w, 22, 6) = 0 /\ Fld(w, 4, 4) = 9 ->            \* mul, mla
                 LET p == W32(s.r[Fld(w, 0, 4) + 1] * s.r[Fld(w, 8, 4) + 1] + (IF Fld(w, 21, 1) = 1 THEN s.r[rd + 1] ELSE 0))
                     t == [s EXCEPT !.r[rn + 1] = p]
                 IN IF 15 \in {rn, Fld(w, 0, 4), Fld(w, 8, 4)} THEN Fail(s, "unknown")
                    ELSE Step(IF Fld(w, 20, 1) = 1 THEN [t EXCEPT !.f = NZ(p, s.f[3], s.f[4])] ELSE t, FALSE)
            [] top \in {0, 1} /\ ~(top = 0 /\ Fld(w, 4, 1) = 1 /\ Fld(w, 7, 1) = 1)
                              /\ ~(Fld(w, 23, 2) = 2 /\ Fld(w, 20, 1) = 0) ->
                 LET op == Fld(w, 21, 4)
                     o2 == IF top = 1 THEN LET d == DecodeImm(w) IN [v |-> d.v, c |-> IF Fld(w, 8, 4) = 0 THEN s.f[3] ELSE d.c]
                           ELSE IF Fld(w, 4, 1) = 1
                           THEN ShiftC(Fld(w, 5, 2), Rd(s, Fld(w, 0, 4), FALSE), Rd(s, Fld(w, 8, 4), FALSE) % 256, s.f[3])
                           ELSE LET n == Fld(w, 7, 5)
                                    k == Fld(w, 5, 2)
                                    m == IF n = 0 /\ k \in {1, 2} THEN 32 ELSE n
                                IN ShiftC(k, Rd(s, Fld(w, 0, 4), FALSE), m, s.f[3])
                     x == Alu(op, Rd(s, rn, FALSE), o2.v, o2.c, s.f)
                     t == IF Fld(w, 20, 1) = 1 THEN [s EXCEPT !.f = x.f] ELSE s
                 IN IF top = 0 /\ Fld(w, 4, 1) = 0 /\ Fld(w, 5, 2) = 3 /\ Fld(w, 7, 5) = 0 THEN Fail(s, "unknown")   \* rrx
                    ELSE IF Fld(w, 20, 1) = 1 /\ rd = 15 THEN Fail(s, "unknown")
                    ELSE IF Tests(op) THEN Step(t, FALSE) ELSE Wr(t, rd, x.v, FALSE)
            [] top = 2 /\ Fld(w, 22, 1) = 0 ->                     \* ldr, str with immediate offset
                 LET off == IF Fld(w, 23, 1) = 1 THEN Fld(w, 0, 12) ELSE -Fld(w, 0, 12)
                     b == Rd(s, rn, FALSE)
                     pre == Fld(w, 24, 1) = 1
                     a == IF pre THEN b + off ELSE b
                     base == IF ~pre \/ Fld(w, 21, 1) = 1 THEN rn ELSE 16
                 IN IF rn = 15 THEN Fail(s, "unknown")
                    ELSE IF Fld(w, 20, 1) = 1 THEN Load(s, rd, a, W32(b + off), base, FALSE) ELSE Store(s, rd, a, W32(b + off), base, FALSE)
            [] top = 4 /\ Fld(w, 22, 1) = 0 /\ rn # 15 ->
                 Block(s, rn, Fld(w, 0, 16), Fld(w, 20, 1) = 1, Fld(w, 23, 1) = 1, Fld(w, 24, 1) = 1, Fld(w, 21, 1) = 1, FALSE)
            [] top = 5 ->
                 LET to == s.pc + 8 + 4 * SignExt(Fld(w, 0, 24), 24)
                 IN [s EXCEPT !.pc = to, !.r[LR + 1] = IF Fld(w, 24, 1) = 1 THEN s.pc + 4 ELSE @]
            [] OTHER -> Fail(s, "unknown")

\* ------------------------------------------------------------ Thumb state
\* w is the halfword, w2 the one after it
ExecThumb(s, w, w2) ==
  LET lo(k) == Fld(w, k, 3)
      r(k) == s.r[k + 1]
      set(k, x) == Step([s EXCEPT !.r[k + 1] = x.v, !.f = x.f], TRUE)
      flags(x) == Step([s EXCEPT !.f = x.f], TRUE)
      sh(k, x) == set(k, [v |-> x.v, f |-> NZ(x.v, x.c, s.f[4])])
      top5 == Fld(w, 11, 5)
  IN CASE top5 \in {0, 1, 2} ->
            LET n == Fld(w, 6, 5) IN sh(lo(0), ShiftC(top5, r(lo(3)), IF n = 0 /\ top5 > 0 THEN 32 ELSE n, s.f[3]))
       [] top5 = 3 ->
            LET b == IF Fld(w, 10, 1) = 1 THEN lo(6) ELSE r(lo(6))
            IN set(lo(0), IF Fld(w, 9, 1) = 1 THEN SubC(r(lo(3)), b, 1) ELSE AddC(r(lo(3)), b, 0))
       [] top5 = 4 -> set(lo(8), [v |-> w % 256, f |-> NZ(w % 256, s.f[3], s.f[4])])
       [] top5 = 5 -> flags(SubC(r(lo(8)), w % 256, 1))
       [] top5 = 6 -> set(lo(8), AddC(r(lo(8)), w % 256, 0))
       [] top5 = 7 -> set(lo(8), SubC(r(lo(8)), w % 256, 1))
       [] Fld(w, 10, 6) = 16 ->
            LET k == Fld(w, 6, 4)  d == lo(0)  a == r(d)  b == r(lo(3))
                x(op) == Alu(op, a, b, s.f[3], s.f)
            IN CASE k \in {0, 1, 5, 6, 12, 14, 15} -> set(d, x(k))
                 [] k \in {8, 10, 11} -> flags(x(k))
                 [] k \in {2, 3, 4} -> sh(d, ShiftC(k - 2, a, b % 256, s.f[3]))
                 [] k = 7 -> sh(d, ShiftC(3, a, b % 256, s.f[3]))
                 [] k = 9 -> set(d, SubC(0, b, 1))
                 [] OTHER -> LET p == W32(a * b) IN set(d, [v |-> p, f |-> NZ(p, s.f[3], s.f[4])])
       [] Fld(w, 10, 6) = 17 ->
            LET d == lo(0) + 8 * Fld(w, 7, 1)
                m == Fld(w, 3, 4)
            IN CASE Fld(w, 8, 2) = 0 -> IF d = 15 THEN Fail(s, "unknown") ELSE Wr(s, d, W32(Rd(s, d, TRUE) + Rd(s, m, TRUE)), TRUE)
                 [] Fld(w, 8, 2) = 1 -> flags(SubC(Rd(s, d, TRUE), Rd(s, m, TRUE), 1))
                 [] Fld(w, 8, 2) = 2 -> IF d = 15 THEN Go(s, BitOr(Rd(s, m, TRUE), 1), TRUE) ELSE Wr(s, d, Rd(s, m, TRUE), TRUE)
                 [] Fld(w, 7, 1) = 0 -> Go(s, Rd(s, m, TRUE), TRUE)
                 [] OTHER -> Fail(s, "unknown")
       [] top5 \in {12, 13} ->
            LET a == W32(r(lo(3)) + 4 * Fld(w, 6, 5))
            IN IF top5 = 13 THEN Load(s, lo(0), a, 0, 16, TRUE) ELSE Store(s, lo(0), a, 0, 16, TRUE)
       [] top5 \in {18, 19} ->
            LET a == r(SP) + 4 * (w % 256)
            IN IF top5 = 19 THEN Load(s, lo(8), a, 0, 16, TRUE) ELSE Store(s, lo(8), a, 0, 16, TRUE)
       [] top5 = 21 -> Wr(s, lo(8), W32(r(SP) + 4 * (w % 256)), TRUE)
       [] Fld(w, 8, 8) = 176 ->
            LET n == 4 * (w % 128) IN Wr(s, SP, IF Fld(w, 7, 1) = 1 THEN r(SP) - n ELSE r(SP) + n, TRUE)
       [] Fld(w, 9, 7) \in {90, 94} ->
            LET load == Fld(w, 11, 1) = 1
                list == (w % 256) + Fld(w, 8, 1) * (IF load THEN 32768 ELSE 16384)
            IN Block(s, SP, list, load, load, ~load, TRUE, TRUE)
       [] top5 \in {24, 25} -> Block(s, lo(8), w % 256, top5 = 25, TRUE, FALSE, TRUE, TRUE)
       [] Fld(w, 12, 4) = 13 /\ Fld(w, 8, 4) < 14 ->
            IF Holds(Fld(w, 8, 4), s.f) THEN [s EXCEPT !.pc = @ + 4 + 2 * SignExt(w % 256, 8)] ELSE Step(s, TRUE)
       [] top5 = 28 -> [s EXCEPT !.pc = @ + 4 + 2 * SignExt(w % 2048, 11)]
       [] top5 = 30 /\ Fld(w2, 14, 2) = 3 /\ Fld(w2, 12, 1) = 1 ->          \* bl
            LET S == Fld(w, 10, 1)
                I(j) == IF j = S THEN 1 ELSE 0
                off == (w2 % 2048) + 2^11 * Fld(w, 0, 10) + 2^21 * I(Fld(w2, 11, 1)) + 2^22 * I(Fld(w2, 13, 1)) + 2^23 * S
            IN [s EXCEPT !.pc = @ + 4 + 2 * SignExt(off, 24), !.r[LR + 1] = s.pc + 5]
       [] Fld(w, 8, 8) = 191 /\ w % 16 = 0 -> Step(s, TRUE)                 \* nop and hints
       [] OTHER -> Fail(s, "unknown")

\* ------------------------------------------------------------------ calls
\* The callee is marked by an undefined instruction whose number selects it.
Callee(w, thumb) == IF thumb THEN (IF Fld(w, 8, 8) = 222 THEN w % 256 ELSE 0)
                    ELSE IF Fld(w, 20, 12) = 3711 /\ Fld(w, 4, 4) = 15 THEN Fld(w, 8, 12) * 16 + (w % 16) ELSE 0
\* [signed, width, results]: q quotient, r remainder, b quotient with remainder through a pointer
Sigs == << <<FALSE, 32, "b">>, <<FALSE, 64, "b">>, <<TRUE, 32, "b">>, <<TRUE, 64, "b">>, <<FALSE, 32, "q">>, <<TRUE, 32, "q">>,
           <<FALSE, 32, "r">>, <<TRUE, 32, "r">>, <<FALSE, 64, "q">>, <<TRUE, 64, "q">>, <<FALSE, 64, "r">>, <<TRUE, 64, "r">> >>
Junk(k) == 2^31 + 631612837 + 17 * k                 \* 0xa5a5a5a5 and up
\* What a function of that signature may do: results in r0 and r1, everything else a call may change changed.
Call(s, k, thumb) ==
  LET g == Sigs[k]
      sgn == g[1]
      w == g[2]
      x(i) == s.r[i + 1]
      n == Val(sgn, w, IF w = 32 THEN x(0) ELSE x(0) + 2^32 * x(1))
      d == Val(sgn, w, IF w = 32 THEN x(1) ELSE x(2) + 2^32 * x(3))
      sp == x(SP)
      ptr == IF w = 32 THEN x(2) ELSE IF Has(s, sp) THEN s.mem[sp] ELSE 1
      q == Wrap(w, TDiv(n, d))
      rem == Wrap(w, TRem(n, d))
      res == IF g[3] = "r" THEN rem ELSE q
      below == [a \in DOMAIN s.mem |-> IF a < sp THEN Junk(a) ELSE s.mem[a]]
      mem2 == IF g[3] # "b" THEN below
              ELSE [a \in DOMAIN s.mem |-> IF a = ptr THEN rem % 2^32
                                           ELSE IF w = 64 /\ a = ptr + 4 THEN Shift(rem, -32) ELSE below[a]]
      \* the arguments on the stack belong to the callee
      mem3 == IF w = 64 /\ g[3] = "b" /\ ptr # sp /\ ptr + 4 # sp THEN [mem2 EXCEPT ![sp] = Junk(99)] ELSE mem2
      regs == [i \in 1..15 |-> CASE i = 1 -> res % 2^32
                                 [] i = 2 /\ w = 64 -> Shift(res, -32)
                                 [] i \in {2, 3, 4, 13, 15} -> Junk(i)
                                 [] OTHER -> s.r[i]]
      back == [s EXCEPT !.r = regs, !.mem = mem3, !.f = <<FALSE, FALSE, TRUE, TRUE>>]
  IN CASE sp % 8 # 0 -> Fail(s, "stack alignment at call")
       [] d = 0 -> Fail(s, "divisor")
       [] g[3] = "b" /\ (ptr % (w \div 8) # 0 \/ ptr < sp \/ ~Has(s, ptr) \/ (w = 64 /\ ~Has(s, ptr + 4))) -> Fail(s, "pointer")
       [] OTHER -> Go(back, s.r[LR + 1], thumb)

RECURSIVE Run(_, _, _, _)
Run(s, code, thumb, fuel) ==
  IF s.out # "" THEN s
  ELSE IF fuel = 0 THEN Fail(s, "does not end")
  ELSE LET i == IF thumb THEN (s.pc \div 2) + 1 ELSE (s.pc \div 4) + 1
       IN IF i \notin 1..Len(code) THEN Fail(s, "leaves the code")
          ELSE LET k == Callee(code[i], thumb)
               IN Run(IF k > 0 THEN (IF k <= Len(Sigs) THEN Call(s, k, thumb) ELSE Fail(s, "unknown"))
                      ELSE IF thumb THEN ExecThumb(s, code[i], IF i < Len(code) THEN code[i + 1] ELSE 0)
                      ELSE ExecArm(s, code[i]), code, thumb, fuel - 1)

\* ------------------------------------------------------ what callers see
SP0 == 32768                       \* the stack pointer on entry
Frame == {SP0 - 128 + 4 * k : k \in 0..31}
Caller == {SP0 + 4 * k : k \in 0..15}
Start(args, thumb) ==
  [pc |-> 0, r |-> [i \in 1..15 |-> IF i <= Len(args) THEN args[i] ELSE IF i = SP + 1 THEN SP0
                                      ELSE IF i = LR + 1 THEN RA + (IF thumb THEN 1 ELSE 0) ELSE 268435456 + 4369 * i],
   f |-> <<TRUE, FALSE, FALSE, TRUE>>, mem |-> [a \in Frame \cup Caller |-> 536870912 + 257 * a], out |-> ""]
\* __aeabi_{u,}idivmod return quotient and remainder in r0 and r1, the 64-bit ones in r0:r1 and r2:r3
DivMod(code, thumb, sgn, w, a, b) ==
  LET args == IF w = 32 THEN <<a, b>> ELSE <<a % 2^32, Shift(a, -32), b % 2^32, Shift(b, -32)>>
      s == Start(args, thumb)
      e == Run(s, code, thumb, 200)
      x(i) == e.r[i + 1]
      q == IF w = 32 THEN x(0) ELSE x(0) + 2^32 * x(1)
      m == IF w = 32 THEN x(1) ELSE x(2) + 2^32 * x(3)
  IN IF e.out # "ret" THEN e.out
     ELSE IF ~IsDivRem(sgn, w, a, b, q, m) THEN "result"
     ELSE IF \E i \in 4..11 : x(i) # s.r[i + 1] THEN "saved register"
     ELSE IF x(SP) # SP0 THEN "stack pointer"
     ELSE IF \E c \in Caller : e.mem[c] # s.mem[c] THEN "caller's frame"
     ELSE "ok"
=============================================================================
