-------------------------------- MODULE C25 --------------------------------
(***************************************************************************)
(* The same call through every route that leads to a function.             *)
(* Record: route:w1..wk name/routes arg^n > (result^k)^m                   *)
(* one group of k results per route, in the order in which the routes are  *)
(* named; a width of 0 marks an integer result.  The groups form a single  *)
(* class: equal bits, all NaNs counting as one value.                      *)
(***************************************************************************)
EXTENDS Replay, IEEE, Sequences

\* the class of a result
Class(w, x) == IF w # 0 /\ IsNaN(Fmt(w), x) THEN -1 ELSE x
ConformsC25(r) ==
  LET ws == r[6]
      k == Len(ws)
      m == Len(r[4]) \div k
      group(i) == [j \in 1..k |-> Class(ws[j], r[4][(i - 1) * k + j])]
  IN /\ m >= 2
     /\ Len(r[4]) = m * k
     /\ Cardinality({group(i) : i \in 1..m}) = 1
=============================================================================
