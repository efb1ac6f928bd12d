------------------------------- MODULE Annex --------------------------------
(***************************************************************************)
(* The values C Annex F (and IEEE 754, clause 9.2) prescribes at zeros,    *)
(* infinities, NaNs, poles and outside the domain.  NONE: nothing special, *)
(* the real function decides.                                              *)
(***************************************************************************)
EXTENDS IEEE

NONE == -2
Whole(f, x) == RoundInt(f, "N", x, 0, 0)
Less(f, a, b) == Ord(f, a) < Ord(f, b)           \* of non-NaN data
IsIntegral(f, a) == Integral(f, "Z", a) = a      \* of finite data
IsOddInt(f, a) == /\ IsIntegral(f, a)
                  /\ LET e == Expo(f, a) IN
                     IF e > 0 THEN FALSE ELSE (Sig(f, a) \div 2^(-e)) % 2 = 1

Annex1(fn, f, x) ==
  LET s == SignOf(f, x)
      z == IsZero(f, x)
      i == IsInf(f, x)
      one == One(f)
      m1  == Neg(f, one)
  IN
  IF IsNaN(f, x) THEN NaN ELSE
  CASE fn \in {"exp", "exp2", "exp10"} ->
         IF z THEN one ELSE IF i THEN (IF s = 1 THEN Zero(f, 0) ELSE x) ELSE NONE
    [] fn = "expm1" -> IF z THEN x ELSE IF i THEN (IF s = 1 THEN m1 ELSE x) ELSE NONE
    [] fn \in {"log", "log2", "log10"} ->
         IF z THEN Inf(f, 1) ELSE IF s = 1 THEN NaN ELSE IF i THEN x ELSE IF x = one THEN Zero(f, 0) ELSE NONE
    [] fn = "log1p" ->
         IF z THEN x ELSE IF x = m1 THEN Inf(f, 1) ELSE IF Less(f, x, m1) THEN NaN ELSE IF i THEN x ELSE NONE
    [] fn \in {"sin", "tan"} -> IF z THEN x ELSE IF i THEN NaN ELSE NONE
    [] fn = "cos" -> IF z THEN one ELSE IF i THEN NaN ELSE NONE
    [] fn = "asin" -> IF z THEN x ELSE IF Mag(f, x) > one THEN NaN ELSE NONE
    [] fn = "acos" -> IF x = one THEN Zero(f, 0) ELSE IF Mag(f, x) > one THEN NaN ELSE NONE
    [] fn = "atan" -> IF z THEN x ELSE NONE
    [] fn \in {"sinh", "asinh"} -> IF z \/ i THEN x ELSE NONE
    [] fn = "cosh" -> IF z THEN one ELSE IF i THEN Inf(f, 0) ELSE NONE
    [] fn = "tanh" -> IF z THEN x ELSE IF i THEN Signed(f, s, one) ELSE NONE
    [] fn = "acosh" -> IF x = one THEN Zero(f, 0) ELSE IF Less(f, x, one) THEN NaN ELSE IF i THEN x ELSE NONE
    [] fn = "atanh" -> IF z THEN x ELSE IF Mag(f, x) = one THEN Inf(f, s) ELSE IF Mag(f, x) > one THEN NaN ELSE NONE
    [] fn = "erf" -> IF z THEN x ELSE IF i THEN Signed(f, s, one) ELSE NONE
    [] fn = "erfc" -> IF z THEN one ELSE IF i THEN (IF s = 1 THEN Whole(f, 2) ELSE Zero(f, 0)) ELSE NONE
    [] fn = "tgamma" -> IF z THEN Inf(f, s) ELSE IF i THEN (IF s = 1 THEN NaN ELSE x)
                        ELSE IF s = 1 /\ IsIntegral(f, x) THEN NaN ELSE NONE
    [] fn = "lgamma" -> IF z \/ i \/ (s = 1 /\ IsIntegral(f, x)) THEN Inf(f, 0)
                        ELSE IF x = one \/ x = Whole(f, 2) THEN Zero(f, 0) ELSE NONE
    [] fn = "j0" -> IF z THEN one ELSE IF i THEN Zero(f, 0) ELSE NONE
    [] fn = "j1" -> IF z THEN x ELSE NONE
    [] fn \in {"y0", "y1"} -> IF z THEN Inf(f, 1) ELSE IF s = 1 THEN NaN ELSE IF i THEN Zero(f, 0) ELSE NONE
    [] fn = "cbrt" -> IF z \/ i THEN x ELSE NONE
    [] fn = "sqrt" -> IF z THEN x ELSE IF s = 1 THEN NaN ELSE IF i THEN x ELSE NONE

PowAnnex(f, x, y) ==
  LET one == One(f)
      sx == SignOf(f, x)   sy == SignOf(f, y)
      yodd == IsFin(f, y) /\ IsOddInt(f, y)
      so == IF sx = 1 /\ yodd THEN 1 ELSE 0          \* sign of the result for infinite or zero x
  IN
  CASE IsZero(f, y) \/ x = one -> one
    [] IsNaN(f, x) \/ IsNaN(f, y) -> NaN
    [] IsInf(f, y) -> IF Mag(f, x) = one THEN one
                      ELSE IF (Mag(f, x) > one) = (sy = 0) THEN Inf(f, 0) ELSE Zero(f, 0)
    [] IsZero(f, x) -> IF sy = 1 THEN Inf(f, so) ELSE Zero(f, so)
    [] IsInf(f, x) -> IF sy = 1 THEN Zero(f, so) ELSE Inf(f, so)
    [] sx = 1 /\ ~IsIntegral(f, y) -> NaN
    [] Mag(f, x) = one -> Signed(f, so, one)
    [] OTHER -> NONE

\* atan2 at zeros and infinities: a multiple of pi/4 given as <<sign, quarters>>, or NONE
Atan2Annex(f, y, x) ==
  LET sx == SignOf(f, x) IN
  CASE IsNaN(f, x) \/ IsNaN(f, y) -> NaN
    [] IsZero(f, y) -> IF sx = 1 THEN 4 ELSE 0
    [] IsZero(f, x) -> 2
    [] IsInf(f, y) -> IF IsInf(f, x) THEN (IF sx = 1 THEN 3 ELSE 1) ELSE 2
    [] IsInf(f, x) -> IF sx = 1 THEN 4 ELSE 0
    [] OTHER -> NONE
=============================================================================
