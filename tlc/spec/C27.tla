-------------------------------- MODULE C27 --------------------------------
(* Feature detection run under a scheduler on simulated processors:        *)
(*   detect memory cpu^10 n (thread what x y z)^n > (kind thread value)^m  *)
EXTENDS Replay, Detect
RECURSIVE Fold(_, _, _, _, _)
Fold(s, c, calls, o, i) ==
  IF i > Len(o) THEN s ELSE Fold(Event(s, c, calls, o[i], o[i+1], o[i+2]), c, calls, o, i + 3)
ConformsC27(r) ==
  LET a == r[3]  o == r[4]
      calls == [k \in 1..a[11] |-> SubSeq(a, 5 * k + 7, 5 * k + 11)]
      end == Fold(Start(0..2), SubSeq(a, 1, 10), calls, o, 1)
  IN r[1] = "detect" /\ end.ok /\ end.returned = a[11]
=============================================================================
