-------------------------------- MODULE C09 --------------------------------
(* Fused multiply-add.   Records: fma:width  x y z > r                     *)
EXTENDS Replay, IEEE
ConformsC09(r) == LET f == Fmt(r[6][1]) IN Same(f, Fma(f, r[3][1], r[3][2], r[3][3]), r[4][1])
=============================================================================
