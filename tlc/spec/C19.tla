-------------------------------- MODULE C19 --------------------------------
(* 32-bit ARM __sync functions run under a scheduler.  A record:           *)
(*   sync machine word finalword others n (thread op size off a b)^n       *)
(*        > (kind thread value)^m                                          *)
(* machine arm: the kernel's compare-exchange helper; thumb: exclusive     *)
(* loads and stores.  others = 1: no byte outside the word has changed.    *)
EXTENDS Replay, Sync

RECURSIVE Fold(_, _, _, _, _)
Fold(s, calls, o, i, helper) ==
  IF i > Len(o) THEN s
  ELSE Fold(Event(s, calls, o[i], o[i+1], o[i+2], helper), calls, o, i + 3, helper)

Threads == 0..2
ConformsC19(r) ==
  LET a == r[3]  o == r[4]
      calls == [k \in 1..a[4] |-> SubSeq(a, 6 * k - 1, 6 * k + 4)]
      returned == Cardinality({i \in 0..(Len(o) \div 3 - 1) : o[3*i+1] = RET})
  IN /\ r[1] = "sync"
     /\ a[3] = 1
     /\ returned = a[4]
     /\ Complete(Fold(Start(a[1], Threads), calls, o, 1, r[2] = "arm"), a[2])
=============================================================================
