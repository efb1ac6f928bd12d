-------------------------------- MODULE Elem --------------------------------
(***************************************************************************)
(* The elementary functions by name: value, tolerance, special cases.      *)
(***************************************************************************)
EXTENDS Real, Annex

Value(fn, X, q) ==
  CASE fn = "exp" -> ExpR(X, q)
    [] fn = "exp2" -> Exp2R(X, q)
    [] fn = "exp10" -> Exp10R(X, q)
    [] fn = "expm1" -> Expm1R(X, q)
    [] fn = "log" -> LogR(X, q)
    [] fn = "log2" -> Log2R(X, q)
    [] fn = "log10" -> Log10R(X, q)
    [] fn = "log1p" -> Log1pR(X, q)
    [] fn = "sin" -> Odd(SinP, X, q)
    [] fn = "cos" -> CosP(Abs(X), q)
    [] fn = "tan" -> Odd(TanP, X, q)
    [] fn = "asin" -> Odd(AsinP, X, q)
    [] fn = "acos" -> AcosR(X, q)
    [] fn = "atan" -> Odd(AtanP, X, q)
    [] fn = "sinh" -> Odd(SinhP, X, q)
    [] fn = "cosh" -> CoshP(Abs(X), q)
    [] fn = "tanh" -> Odd(TanhP, X, q)
    [] fn = "asinh" -> Odd(AsinhP, X, q)
    [] fn = "acosh" -> AcoshP(X, q)
    [] fn = "atanh" -> Odd(AtanhP, X, q)

Elem1(fn, f, k, x, r) ==
  LET s == Annex1(fn, f, x)
  IN IF s # NONE THEN Same(f, s, r)
     ELSE IF fn = "atan" /\ IsInf(f, x) THEN Near(f, k, Signed2(SignOf(f, x), Encl(PIH)), r)
     ELSE Near(f, k, Value(fn, SSig(f, x), Expo(f, x)), r)

PowOk(f, k, x, y, r) ==
  LET s == PowAnnex(f, x, y)
  IN IF s # NONE THEN Same(f, s, r)
     ELSE Near(f, k, Signed2(IF SignOf(f, x) = 1 /\ IsOddInt(f, y) THEN 1 ELSE 0,
                             PowP(Sig(f, x), Expo(f, x), SSig(f, y), Expo(f, y))), r)

Atan2Ok(f, k, y, x, r) ==
  LET s == Atan2Annex(f, y, x)
      sy == SignOf(f, y)
  IN CASE s = NaN -> IsNaN(f, r)
       [] s = 0 -> r = Zero(f, sy)
       [] s > 0 -> LET v == (PI * s) \div 4 IN Near(f, k, Signed2(sy, Encl(v)), r)
       [] OTHER -> Near(f, k, Atan2R(SSig(f, y), Expo(f, y), SSig(f, x), Expo(f, x)), r)
=============================================================================
