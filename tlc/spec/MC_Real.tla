------------------------------ MODULE MC_Real -------------------------------
(***************************************************************************)
(* The enclosures of modules Real and Special satisfy the identities that  *)
(* characterise the functions.  One step of the model picks a rational     *)
(* point; the invariants must hold there.                                  *)
(***************************************************************************)
EXTENDS Special

CONSTANTS NumMax, Exps          \* points n * 2^q, n in 1..NumMax, q in Exps
ExpsQ == {-60, -12, -4, -2, 0, 3, 30}
ExpsT == {-90, -40, -12, -7, -4, -3, -2, -1, 0, 1, 3, 10, 30, 90}

Mid(e) == Sh(e[1] + e[2], e[3] + W - 1)                 \* middle of an enclosure, fixed point
Narrow(e) == e[1] <= e[2] /\ (e[2] - e[1]) * 2^80 <= Max(Abs(e[1]), Abs(e[2])) + 2^80
Eq(a, b, sl) == Abs(a - b) * 2^sl <= Max(ONE, Max(Abs(a), Abs(b)))

ExpLog(n, q) ==
  LET X == n  Mg == Mag2(n, q)  x == Fx(n, q) IN
  Mg <= 7 =>
  LET e == ExpR(X, q) IN /\ Narrow(e) /\ (x # ONE => Narrow(LogR(X, q)))
                         /\ Eq(Mid(LogR(e[1], e[3])), x, 90)                         \* ln(e^x) = x
                         /\ Eq(MulF(Mid(ExpR(X, q)), Mid(ExpR(-X, q))), ONE, 60)       \* e^x e^-x = 1
                         /\ Eq(Mid(Expm1R(X, q)) + ONE, Mid(e), 90)
                         /\ Eq(Mid(Exp2R(X, q)), Mid(ExpE(MulF(x, LN2))), 90)
                         /\ Eq(Mid(Exp10R(X, q)), Mid(ExpE(MulF(x, LN10))), 90)
Logs(n, q) ==
  LET X == n  Mg == Mag2(n, q)  x == Fx(n, q) IN
  /\ Eq(Mid(Log2R(2 * X, q)), Mid(Log2R(X, q)) + ONE, 90)
  /\ Eq(Mid(Log10R(10 * X, q)), Mid(Log10R(X, q)) + ONE, 90)
  /\ Eq(Mid(Log1pR(X, q)), Ln(x + ONE, -W), 90)
  /\ Eq(LN10, Ln(10, 0), 200)
Trig(n, q) ==
  LET X == n  Mg == Mag2(n, q)  x == Fx(n, q) IN
  LET s == Mid(SinP(X, q)) c == Mid(CosP(X, q)) IN
  /\ Narrow(SinP(X, q)) /\ Narrow(CosP(X, q))
  /\ Eq(MulF(s, s) + MulF(c, c), ONE, 90)                                            \* sin^2 + cos^2 = 1
  /\ Eq(Mid(SinP(2 * X, q)), 2 * MulF(s, c), 90)                                     \* double angle
  /\ Eq(MulF(Mid(TanP(X, q)), c), s, 100)
Inverse(n, q) ==
  LET X == n  Mg == Mag2(n, q)  x == Fx(n, q) IN
  /\ Mg <= 0 => /\ Eq(Mid(AsinP(X, q)) + Mid(AcosR(X, q)), PIH, 90)
                /\ LET a == AsinP(X, q) IN Eq(Mid(SinP(a[1], a[3])), x, 100)
                /\ LET a == AtanhP(X, q) IN x < ONE => Eq(Mid(TanhP(a[1], a[3])), x, 100)
  /\ LET a == AtanP(X, q) IN Mg <= 40 => Eq(Mid(TanP(a[1], a[3])), x, 60)
  /\ Eq(Mid(AtanP(X, q)) + Mid(AtanP(2^40 \div X, -40 - q)), PIH, 20)
  /\ Eq(Mid(Atan2R(X, q, -1, 0)) + Mid(AtanP(X, q)), PI, 90)
Hyper(n, q) ==
  LET X == n  Mg == Mag2(n, q)  x == Fx(n, q) IN
  Mg <= 5 =>
  LET s == Mid(SinhP(X, q)) c == Mid(CoshP(X, q)) IN
  /\ Eq(MulF(c, c), ONE + MulF(s, s), 90)
  /\ Eq(MulF(Mid(TanhP(X, q)), c), s, 90)
  /\ LET a == SinhP(X, q) IN Eq(Mid(AsinhP(a[1], a[3])), x, 90)
  /\ x > ONE => LET a == AcoshP(X, q) IN Eq(Mid(CoshP(a[1], a[3])), x, 90)
Power(n, q) ==
  LET X == n  Mg == Mag2(n, q)  x == Fx(n, q) IN
  Mg <= 6 /\ x # ONE =>
  /\ Eq(Mid(PowP(X, q, 3, 0)), MulF(x, MulF(x, x)), 90)
  /\ Eq(MulF(Mid(PowP(X, q, 1, -1)), Mid(PowP(X, q, 1, -1))), x, 90)
  /\ Eq(MulF(Mid(PowP(X, q, -2, 0)), MulF(x, x)), ONE, 100)
ErrorFn(n, q) ==
  LET X == n  Mg == Mag2(n, q)  x == Fx(n, q) IN
  Mg <= 3 =>
  /\ Narrow(ErfP(X, q)) /\ Narrow(ErfcR(X, q))
  /\ Eq(Mid(ErfP(X, q)) + Mid(ErfcR(X, q)), ONE, 90)
  \* the two ways of computing erfc agree where they meet (x = 9)
  /\ n = 1 => LET a == ErfcP(9, 0)
                  b == ONE - ErfFix(9 * ONE)
              IN Abs(Sh(a[1], a[3] + W) - b) * 2^60 <= b
Gam(n, q) ==
  LET X == n  Mg == Mag2(n, q)  x == Fx(n, q) IN
  Mg <= 6 =>
  /\ Narrow(TgammaR(X, q))
  /\ q <= 0 => Eq(LnGam(X + 2^(-q), q), LnGam(X, q) + Ln(X, q), 90)                   \* G(x+1) = x G(x)
  /\ (q < 0 /\ n % 2 = 1) => Eq(LnGam(X, q) + LnGam(2^(-q) - X, q), Ln(PI, -W) - Ln(SinPi(X, q), -W), 90)
  /\ n <= 20 => Eq(Mid(TgammaR(n + 1, 0)), Fact(n) * ONE, 100)
Bess(n, q) ==
  LET X == n  Mg == Mag2(n, q)  x == Fx(n, q) IN
  LET J(m) == LET v == JV(X, q, m) IN Sh(v[1], v[2] + W)
      Y(m) == LET v == YV(X, q, m) IN Sh(v[1], v[2] + W)
  IN /\ Eq(MulF(x, MulF(J(1), Y(0)) - MulF(J(0), Y(1))), TwoOverPi(ONE), 90)           \* Wronskian
     /\ (Small(X, q) \/ x > 2 * ONE) => Eq(MulF(x, J(0) + J(2)), 2 * J(1), 80)
     /\ Small(X, q) => Eq(MulF(x, J(4) + J(6)), 10 * J(5), 80)
\* series and asymptotic expansion agree where they meet
Meet(n, q) ==
  LET X == n  Mg == Mag2(n, q)  x == Fx(n, q) IN
  n = 1 =>
  LET H(m) == Hankel(127, -1, m) IN
  /\ Eq(JSeries(Fx(127, -1), 0)[1], H(0)[1], 90)
  /\ Eq(Y0Series(Fx(127, -1)), H(0)[2], 90)
  /\ Eq(Y1Series(Fx(127, -1)), H(1)[2], 90)

Law(k, n, q) == CASE k = "ExpLog" -> ExpLog(n, q)
                  [] k = "Logs" -> Logs(n, q)
                  [] k = "Trig" -> Trig(n, q)
                  [] k = "Inverse" -> Inverse(n, q)
                  [] k = "Hyper" -> Hyper(n, q)
                  [] k = "Power" -> Power(n, q)
                  [] k = "ErrorFn" -> ErrorFn(n, q)
                  [] k = "Gam" -> Gam(n, q)
                  [] k = "Bess" -> Bess(n, q)
                  [] k = "Meet" -> Meet(n, q)
VARIABLES n, q, ready, broken
vars == <<n, q, ready, broken>>
Init == n = 0 /\ q = 0 /\ ready = FALSE /\ broken = {}
Next == \/ /\ n = 0
           /\ n' \in 1..NumMax
           /\ UNCHANGED <<q, ready, broken>>
        \/ /\ n > 0 /\ ~ready
           /\ ready' = TRUE
           /\ \E e \in Exps :
              /\ q' = e
              /\ broken' = {k \in {"ExpLog", "Logs", "Trig", "Inverse", "Hyper", "Power", "ErrorFn", "Gam", "Bess", "Meet"} : ~Law(k, n, e)}
           /\ UNCHANGED n
Laws == broken = {}
=============================================================================
