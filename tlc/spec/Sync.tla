------------------------------- MODULE Sync -------------------------------
(***************************************************************************)
(* The legacy atomic (sync) operations on one aligned word of memory.      *)
(* A machine state is the word plus, for every thread, the call it is in.  *)
(* Events change the state; an event the specification does not allow      *)
(* leads to the state Wrong.  A call is allowed exactly when it is one     *)
(* atomic step on its own bytes somewhere between its beginning and end:   *)
(*   - it stores at most once, and then the operation's result, computed   *)
(*     at the operand's width and signedness, from the bytes that are in   *)
(*     memory at that moment; all other bytes of the word stay;            *)
(*   - it returns the old or the new value of that step;                   *)
(*   - it may leave the store out only when the operation does not change  *)
(*     a value the operand had during the call.                            *)
(* An update that has returned is a full barrier: where the machine's      *)
(* conditional store does not include one, barriers surround it.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bits

\* operations, as numbered by the harness
ADD_O == 0   ADD_N == 1   SUB_O == 2   SUB_N == 3   AND_O == 4   AND_N == 5   OR_O == 6    OR_N == 7
XOR_O == 8   XOR_N == 9   NAND_O == 10 NAND_N == 11 MAX_O == 12  UMAX_O == 13 MIN_O == 14  UMIN_O == 15
SWAP_O == 16 CAS_O == 17  BARRIER_OP == 18
ReturnsNew(op) == op \in {ADD_N, SUB_N, AND_N, OR_N, XOR_N, NAND_N}

\* events
LOAD == 1  WRITE == 2  BARRIER == 3  CALL == 6  RET == 7  FAIL == 9  PANIC == 10

\* a call: <<thread, operation, size, offset, a, b>>; the word is little-endian
Width(c) == 8 * c[3]
Modulus(c) == 2 ^ Width(c)
Place(c) == 2 ^ (8 * c[4])
Operand(word, c) == (word \div Place(c)) % Modulus(c)
Insert(word, c, v) == word - Operand(word, c) * Place(c) + v * Place(c)
AsSigned(x, c) == IF 2 * x >= Modulus(c) THEN x - Modulus(c) ELSE x

Result(x, c) ==
  LET a == c[5] % Modulus(c)  op == c[2]  m == Modulus(c)
  IN CASE op \in {ADD_O, ADD_N} -> (x + a) % m
       [] op \in {SUB_O, SUB_N} -> (x + m - a) % m
       [] op \in {AND_O, AND_N} -> BitAnd(x, a)
       [] op \in {OR_O, OR_N} -> BitOr(x, a)
       [] op \in {XOR_O, XOR_N} -> BitXor(x, a)
       [] op \in {NAND_O, NAND_N} -> m - 1 - BitAnd(x, a)
       [] op = UMAX_O -> IF x > a THEN x ELSE a
       [] op = UMIN_O -> IF x < a THEN x ELSE a
       [] op = MAX_O -> IF AsSigned(x, c) > AsSigned(a, c) THEN x ELSE a
       [] op = MIN_O -> IF AsSigned(x, c) < AsSigned(a, c) THEN x ELSE a
       [] op = SWAP_O -> a
       [] op = CAS_O -> IF x = a THEN c[6] % m ELSE x
Answer(x, c) == IF ReturnsNew(c[2]) THEN Result(x, c) ELSE x

(* A thread's part of the state:                                           *)
(*   call    number of the current call, 0 outside                         *)
(*   stored  the operand's value before the call's own store, -1 if none   *)
(*   seen    values the operand had since the call began                   *)
(*   fence   0 no barrier yet; 1 barrier; 2 store after a barrier;         *)
(*           3 store without a barrier before; 4 barrier after 2           *)
Idle == [call |-> 0, stored |-> 0 - 1, seen |-> {}, fence |-> 0]
Start(word, threads) == [ok |-> TRUE, word |-> word, th |-> [t \in threads |-> Idle]]
Wrong(s) == [s EXCEPT !.ok = FALSE]

(* `helper`: the conditional store of this machine is itself a full        *)
(* barrier (the kernel's helper is; store-exclusive is not).               *)
Begin(s, calls, t, k) ==
  IF s.th[t].call # 0 \/ k \notin 1..Len(calls) THEN Wrong(s)
  ELSE IF calls[k][1] # t THEN Wrong(s)
  ELSE [s EXCEPT !.th[t] = [Idle EXCEPT !.call = k,
                            !.seen = IF calls[k][2] = BARRIER_OP THEN {} ELSE {Operand(s.word, calls[k])}]]

Store(s, calls, t, w) ==
  IF s.th[t].call = 0 THEN Wrong(s)
  ELSE LET me == s.th[t]  c == calls[me.call]
       IN IF c[2] = BARRIER_OP \/ me.stored # 0 - 1 THEN Wrong(s)
          ELSE LET x == Operand(s.word, c)
               IN IF (c[2] = CAS_O /\ x # c[5] % Modulus(c)) \/ w # Insert(s.word, c, Result(x, c)) THEN Wrong(s)
                  ELSE [s EXCEPT !.word = w,
                                 !.th = [u \in DOMAIN s.th |->
                                   IF u = t THEN [me EXCEPT !.stored = x, !.fence = IF @ = 1 THEN 2 ELSE 3]
                                   ELSE IF s.th[u].call = 0 \/ s.th[u].stored # 0 - 1 \/ calls[s.th[u].call][2] = BARRIER_OP
                                        THEN s.th[u]
                                   ELSE [s.th[u] EXCEPT !.seen = @ \cup {Operand(w, calls[s.th[u].call])}]]]

Fence(s, t) == [s EXCEPT !.th[t].fence = IF @ = 0 THEN 1 ELSE IF @ = 2 THEN 4 ELSE @]

Finish(s, calls, t, v, helper) ==
  IF s.th[t].call = 0 THEN Wrong(s)
  ELSE LET me == s.th[t]  c == calls[me.call]
           fine == IF c[2] = BARRIER_OP THEN me.fence = 1
                   ELSE IF me.stored # 0 - 1
                        THEN v = Answer(me.stored, c) /\ (helper \/ me.fence = 4)
                   ELSE \E x \in me.seen : Result(x, c) = x /\ v = Answer(x, c)
       IN IF fine THEN [s EXCEPT !.th[t] = Idle] ELSE Wrong(s)

Event(s, calls, kind, t, v, helper) ==
  IF ~s.ok THEN s
  ELSE CASE kind \in {LOAD, FAIL} -> s
         [] kind = WRITE -> Store(s, calls, t, v)
         [] kind = BARRIER -> Fence(s, t)
         [] kind = CALL -> Begin(s, calls, t, v + 1)
         [] kind = RET -> Finish(s, calls, t, v, helper)
         [] OTHER -> Wrong(s)

\* at the end every call has returned and memory is what the events made it
Complete(s, word) == s.ok /\ s.word = word /\ \A t \in DOMAIN s.th : s.th[t].call = 0
=============================================================================
