-------------------------------- MODULE C34 --------------------------------
(***************************************************************************)
(* The multiple-precision reference: every operation of the properties on  *)
(* integers, floats and functions, but with the correctly rounded result   *)
(* where those allow a tolerance.                                          *)
(***************************************************************************)
EXTENDS C01, C02, C03, C04, C05, C06, C08, C09, C10, C11, C12, C13, C14, C15, C16

Special0(fn, f, x, r) ==
  LET s == Annex1(fn, f, x)
  IN IF s # NONE THEN Same(f, s, r) ELSE Near(f, 0, SpecialR(fn, SSig(f, x), Expo(f, x)), r)

\* a Bessel function at a finite positive or negative argument
Bessel0(f, isY, n, x, r) == Bessel(f, f.p - 1, isY, n, x, r)

\* (the reference has one NaN: signs and payloads of NaNs are not represented)
ConformsC34(r) ==
  LET o == r[1]
      f == Fmt(r[6][1])
      a == r[3][1]
      b == r[3][2]
      x == r[4][1]
  IN CASE o \in {"conv", "fabs"} /\ IsNaN(f, a) -> IF o = "conv" THEN IsNaN(Fmt(r[6][2]), x) ELSE IsNaN(f, x)
       [] o = "copysign" /\ (IsNaN(f, a) \/ IsNaN(f, b)) -> IF IsNaN(f, a) THEN IsNaN(f, x) ELSE Mag(f, x) = Mag(f, a)
       [] o \in DOMAIN DivOps -> ConformsC01(r)
       [] o \in DOMAIN ArithOps -> ConformsC02(r)
       [] o \in {"add", "sub", "mul", "div"} -> ConformsC03(r)
       [] o \in {"eq", "ne", "lt", "le", "gt", "ge", "unord"} -> ConformsC04(r)
       [] o = "conv" -> ConformsC05(r)
       [] o \in {"f2i", "i2f"} -> ConformsC06(r)
       [] o \in {"ceil", "floor", "rint", "round", "roundeven", "trunc"} -> ConformsC08(r)
       [] o = "fma" -> ConformsC09(r)
       [] o \in {"sqrt", "cbrt"} -> ConformsC10(r)
       [] o = "hypot" -> Same(f, Hypot(f, a, b), x)
       [] o \in {"fmod", "remainder", "remquo"} -> ConformsC11(r)
       [] o \in {"scalbn", "ldexp", "frexp", "modf", "ilogb"} -> ConformsC12(r)
       [] o \in {"fmin", "fmax", "fminimum", "fmaximum", "fminimum_num", "fmaximum_num", "fdim", "fabs", "copysign"} -> ConformsC13(r)
       [] o = "pow" -> PowOk(f, 0, a, b, x)
       [] o = "atan2" -> Atan2Ok(f, 0, a, b, x)
       [] o = "sincos" -> Elem1("sin", f, 0, a, x) /\ Elem1("cos", f, 0, a, r[4][2])
       [] o \in {"erf", "erfc", "tgamma", "lgamma"} -> Special0(o, f, a, x)
       [] o = "lgamma_r" -> Special0("lgamma", f, a, x) /\ SignOk(f, a, Signed32(r[4][2]))
       [] o = "j0" -> Bessel0(f, FALSE, 0, a, x)
       [] o = "j1" -> Bessel0(f, FALSE, 1, a, x)
       [] o = "y0" -> Bessel0(f, TRUE, 0, a, x)
       [] o = "y1" -> Bessel0(f, TRUE, 1, a, x)
       [] o = "jn" -> Bessel0(f, FALSE, Signed32(a), b, x)
       [] o = "yn" -> Bessel0(f, TRUE, Signed32(a), b, x)
       [] OTHER -> Elem1(o, f, 0, a, x)
=============================================================================
