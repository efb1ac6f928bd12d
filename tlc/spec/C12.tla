-------------------------------- MODULE C12 --------------------------------
(* Scaling, decomposition, neighbours.                                     *)
EXTENDS Replay, Exact
ConformsC12(r) ==
  LET f == Fmt(r[6][1])
      a == r[3][1]
      x == r[4][1]
  IN CASE r[1] \in {"scalbn", "ldexp"} -> Same(f, Scalbn(f, a, Signed32(r[3][2])), x)
       [] r[1] = "frexp" -> IsFrexp(f, a, x, Signed32(r[4][2]))
       [] r[1] = "modf" -> IsModf(f, a, x, r[4][2])
       [] r[1] = "ilogb" -> IlogbOk(f, a, Signed32(x))
       [] r[1] = "nextafter" -> Same(f, Nextafter(f, a, r[3][2]), x)
=============================================================================
