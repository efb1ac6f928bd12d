-------------------------------- MODULE C08 --------------------------------
(* Rounding to an integral value.   Records: op:width  a > r               *)
EXTENDS Replay, IEEE
Dir(op) == CASE op = "ceil" -> "U" [] op = "floor" -> "D" [] op = "trunc" -> "Z"
             [] op = "round" -> "A" [] op \in {"roundeven", "rint"} -> "N"
ConformsC08(r) == LET f == Fmt(r[6][1]) IN Same(f, Integral(f, Dir(r[1]), r[3][1]), r[4][1])
=============================================================================
