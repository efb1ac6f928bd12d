-------------------------------- MODULE C13 --------------------------------
(* Minimum and maximum families, fdim, fabs, copysign.                     *)
EXTENDS Replay, Exact
ConformsC13(r) ==
  LET f == Fmt(r[6][1])
      a == r[3][1]
      b == r[3][2]
      x == r[4][1]
  IN CASE r[1] = "fmin" -> MinNumOk(f, FALSE, a, b, x)
       [] r[1] = "fmax" -> MinNumOk(f, TRUE, a, b, x)
       [] r[1] = "fminimum" -> Same(f, Minimum(f, FALSE, a, b), x)
       [] r[1] = "fmaximum" -> Same(f, Minimum(f, TRUE, a, b), x)
       [] r[1] = "fminimum_num" -> Same(f, MinimumNum(f, FALSE, a, b), x)
       [] r[1] = "fmaximum_num" -> Same(f, MinimumNum(f, TRUE, a, b), x)
       [] r[1] = "fdim" -> Same(f, Fdim(f, a, b), x)
       [] r[1] = "fabs" -> x = Fabs(f, a)
       [] r[1] = "copysign" -> x = Copysign(f, a, b)
=============================================================================
