-------------------------------- MODULE C06 --------------------------------
(* Conversions between integers and floats.                                *)
(* Records: i2f:bits:signed:width  i > r    and   f2i:width:bits:signed a > i *)
EXTENDS Replay, IEEE
AsInt(sgn, w, b) == IF sgn = 1 /\ b >= 2^(w-1) THEN b - 2^w ELSE b
Lo(sgn, w) == IF sgn = 1 THEN -(2^(w-1)) ELSE 0
Hi(sgn, w) == IF sgn = 1 THEN 2^(w-1) - 1 ELSE 2^w - 1
ConformsC06(r) ==
  LET p == r[6] IN
  CASE r[1] = "i2f" -> r[4][1] = IntToFloat(Fmt(p[3]), AsInt(p[2], p[1], r[3][1]))
    [] r[1] = "f2i" -> AsInt(p[3], p[2], r[4][1]) = FloatToInt(Fmt(p[1]), Lo(p[3], p[2]), Hi(p[3], p[2]), r[3][1])
=============================================================================
