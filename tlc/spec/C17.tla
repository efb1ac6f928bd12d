-------------------------------- MODULE C17 ---------------------------------
(***************************************************************************)
(* Special values, symmetries and exact cases of the math functions.       *)
(* Records:                                                                *)
(*   fn:w args > r        an elementary or special function; judged where  *)
(*                        Annex F prescribes the value                     *)
(*   same:w law args > a b    two calls whose results must be the same     *)
(*   neg:w, negz:w            ... the negative of each other (negz: any    *)
(*                            zero matches any zero)                       *)
(*   exp2n:w n > r, log2p:w n > r, exp10n:w n > r, gamman:w n > r          *)
(***************************************************************************)
EXTENDS Replay, Laws


ConformsC17(r) ==
  LET f == Fmt(r[6][1])
      fn == r[1]
      x == r[3][1]
      v == r[4][1]
  IN CASE fn = "same" -> Alike(f, v, r[4][2])
       [] fn = "neg"  -> NegOf(f, v, r[4][2])
       [] fn = "negz" -> NegOf(f, v, r[4][2]) \/ (IsZero(f, v) /\ IsZero(f, r[4][2]))
       [] fn = "exp2n"  -> v = Exp2Int(f, Signed32(x))
       [] fn = "log2p"  -> v = Whole(f, Signed32(x))
       [] fn = "exp10n" -> v = Whole(f, 10^x)
       [] fn = "gamman" -> v = Whole(f, Factorial(x - 1))
       [] fn = "pow"    -> Special(f, PowAnnex(f, x, r[3][2]), v)
       [] fn = "atan2"  -> LET q == Atan2Annex(f, x, r[3][2])
                           IN q = NONE \/ Atan2Special(f, q, SignOf(f, x), v)
       [] fn = "sincos" -> /\ Special(f, Annex1("sin", f, x), v)
                           /\ Special(f, Annex1("cos", f, x), r[4][2])
       [] fn \in {"jn", "yn"} -> BesselAnnex(f, fn = "yn", Signed32(x), r[3][2], v)
       [] fn = "lgamma_r" -> Special(f, Annex1("lgamma", f, x), v) /\ GammaSign(f, x, Signed32(r[4][2]))
       [] fn = "atan" /\ IsInf(f, x) -> Atan2Special(f, 2, SignOf(f, x), v)
       [] OTHER -> Special(f, Annex1(fn, f, x), v)
=============================================================================
