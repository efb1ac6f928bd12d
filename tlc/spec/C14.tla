-------------------------------- MODULE C14 ---------------------------------
(***************************************************************************)
(* Exponentials, logarithms and powers within their tolerance.             *)
(* Records: exp:w x > r, ..., pow:w x y > r                                *)
(***************************************************************************)
EXTENDS Replay, Elem

Bound14(fn) == IF fn = "exp10" THEN 6 ELSE 1
ConformsC14(r) ==
  LET f == Fmt(r[6][1]) IN
  IF r[1] = "pow" THEN PowOk(f, 1, r[3][1], r[3][2], r[4][1])
  ELSE Elem1(r[1], f, Bound14(r[1]), r[3][1], r[4][1])
=============================================================================
