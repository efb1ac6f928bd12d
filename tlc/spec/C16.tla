-------------------------------- MODULE C16 ---------------------------------
(***************************************************************************)
(* Error, gamma and Bessel functions within their tolerance.               *)
(* Records: erf:w x > r, ..., lgamma_r:w x > r sign, jn:w n x > r          *)
(***************************************************************************)
EXTENDS Replay, Special, Annex

Tol(fn, f) == CASE fn = "erf" -> 1
                [] fn = "erfc" -> 4
                [] fn = "tgamma" -> IF f.w = 32 THEN 1 ELSE 20
                [] fn = "lgamma" -> 4
SpecialR(fn, X, q) == CASE fn = "erf" -> Odd(ErfP, X, q)
                   [] fn = "erfc" -> ErfcR(X, q)
                   [] fn = "tgamma" -> TgammaR(X, q)
                   [] fn = "lgamma" -> LgammaR(X, q)

\* Next to the zeros and poles of lgamma on the negative axis nothing is promised.
IllCond(f, X, q) ==
  /\ X < 0
  /\ LET x == Fx(-X, q)
         fr == x % ONE
         v == LnGam(X, q)
     IN /\ x > 2 * ONE
        /\ x < IF f.w = 32 THEN (209 * ONE) \div 16 ELSE 32 * ONE
        /\ Abs(v) < ONE \/ 50 * fr < ONE \/ 50 * (ONE - fr) < ONE
Real1(fn, f, k, x, r) ==
  LET s == Annex1(fn, f, x)
      X == SSig(f, x)  q == Expo(f, x)
  IN IF s # NONE THEN Same(f, s, r)
     ELSE (fn = "lgamma" /\ Mag2(X, q) < 10 /\ Mag2(X, q) > 0 /\ IllCond(f, X, q)) \/ Near(f, k, SpecialR(fn, X, q), r)
\* the sign of the gamma function is reported where it has one
SignOk(f, x, sg) ==
  LET X == SSig(f, x)  q == Expo(f, x)
  IN CASE IsNaN(f, x) \/ IsInf(f, x) -> TRUE
       [] IsZero(f, x) -> sg = IF SignOf(f, x) = 1 THEN -1 ELSE 1
       [] SignOf(f, x) = 1 /\ IsIntegral(f, x) -> TRUE
       [] OTHER -> sg = IF GamNeg(X, q) THEN -1 ELSE 1

\* v * 2^q up to 2^-k of the larger of itself and amp, and a few units of the smallest datum
Close(f, k, v, q, amp, r) ==
  LET a  == IF q <= -W THEN amp * 2^(-W - q) ELSE Sh(amp, -W - q)
      t  == Max(Abs(v), a) \div 2^k + 1
      u  == IF q <= f.qmin THEN 4 * 2^(f.qmin - q) ELSE 4
  IN /\ ~IsNaN(f, r)
     /\ RndS(f, v - t - u, q) <= Ord(f, r)
     /\ Ord(f, r) <= RndS(f, v + t + u, q)
Bessel(f, k, isY, n, x, r) ==
  LET X == Sig(f, x)  q == Expo(f, x)
      m == Abs(n)
      neg == m % 2 = 1 /\ (n < 0) # (~isY /\ SignOf(f, x) = 1)
      v == IF isY THEN YV(X, q, m) ELSE JV(X, q, m)
      amp == IF Mag2(X, q) > 0 /\ Fx(X, q) > m * ONE THEN Ampl(X, q) ELSE IF m = 0 THEN ONE ELSE 0
  IN CASE IsNaN(f, x) -> IsNaN(f, r)
       [] IsZero(f, x) -> IF isY THEN IsInf(f, r) ELSE IF m = 0 THEN r = One(f) ELSE IsZero(f, r)
       [] isY /\ SignOf(f, x) = 1 -> IsNaN(f, r)
       [] OTHER -> \/ Close(f, k, IF neg THEN -v[1] ELSE v[1], v[2], amp, r)
                   \* the recurrence for Y may overflow one step early: within a tenth of the limit
                   \/ /\ isY /\ m > 1 /\ IsInf(f, r)
                      /\ LET w == v[1] + v[1] \div 9
                         IN Close(f, k, IF neg THEN -w ELSE w, v[2], amp, r)

ConformsC16(r) ==
  LET f == Fmt(r[6][1])
      k01 == IF f.w = 32 THEN 20 ELSE 49
      kn  == IF f.w = 32 THEN 17 ELSE 45
      fn == r[1]
  IN CASE fn = "lgamma_r" -> Real1("lgamma", f, 4, r[3][1], r[4][1]) /\ SignOk(f, r[3][1], Signed32(r[4][2]))
       [] fn = "j0" -> Bessel(f, k01, FALSE, 0, r[3][1], r[4][1])
       [] fn = "j1" -> Bessel(f, k01, FALSE, 1, r[3][1], r[4][1])
       [] fn = "y0" -> Bessel(f, k01, TRUE, 0, r[3][1], r[4][1])
       [] fn = "y1" -> Bessel(f, k01, TRUE, 1, r[3][1], r[4][1])
       [] fn = "jn" -> Bessel(f, kn, FALSE, Signed32(r[3][1]), r[3][2], r[4][1])
       [] fn = "yn" -> Bessel(f, kn, TRUE, Signed32(r[3][1]), r[3][2], r[4][1])
       [] OTHER -> Real1(fn, f, Tol(fn, f), r[3][1], r[4][1])
=============================================================================
