------------------------------ MODULE Special -------------------------------
(***************************************************************************)
(* Enclosures of the error function, the gamma function and the Bessel     *)
(* functions, on top of module Real.                                       *)
(***************************************************************************)
EXTENDS Real, Sequences

(*************************** Error function ********************************)
SQRTPI == ISqrt(PI * ONE)
TWOSP  == DivF(2 * ONE, SQRTPI)                         \* 2/sqrt(pi)
\* sum of t_n, t_0 = x, t_n = t_(n-1) * 2x^2/(2n+1)
RECURSIVE ErfH(_, _, _)
ErfH(x2, n, t) == IF t = 0 THEN 0 ELSE t + ErfH(x2, n + 1, (2 * x2 * t) \div (ONE * (2*n + 3)))
ErfFix(x) ==                                            \* 0 < x < 9, fixed point
  LET x2 == MulF(x, x)
      e == ExpE(-x2)
  IN Sh(MulF(MulF(TWOSP, ErfH(x2, 0, x)), e[1]), e[3] + W)
EUS == 2^40                                             \* slack of the sums above
ErfP(X, q) ==
  IF Mag2(X, q) < -60 THEN LET v == X * TWOSP IN <<v - v \div 2^100 - 1, v + v \div 2^100 + 1, q - W>>
  ELSE IF Mag2(X, q) > 3 THEN Below(1, 0)
  ELSE LET v == ErfFix(Fx(X, q)) IN <<v - EUS, v + EUS, -W>>
\* 1 - 1/(2x^2) + 3/(2x^2)^2 - ...; alternating, so within its last term, which is below 2^-100 for x >= 9
RECURSIVE ErfcH(_, _, _)
ErfcH(y, n, t) == IF n = 61 THEN 0 ELSE t + ErfcH(y, n + 1, -((t * ONE * (2*n + 1)) \div y))
ErfcP(X, q) ==                                          \* x > 0
  IF Mag2(X, q) < -60 THEN Below(1, 0)
  ELSE IF Mag2(X, q) > 6 THEN Tiny
  ELSE LET x == Fx(X, q) IN
       IF x < 9 * ONE THEN LET v == ONE - ErfFix(x) IN <<v - EUS, v + EUS, -W>>
       ELSE LET x2 == MulF(x, x)
                s == DivF(ErfcH(2 * x2, 0, ONE), MulF(x, SQRTPI))
                e == ExpE(-x2)
                v == MulF(e[1], s)
            IN <<v - v \div 2^88, v + v \div 2^88, e[3]>>
ErfcR(X, q) == IF X > 0 THEN ErfcP(X, q)
               ELSE LET e == ErfP(-X, q)
                        lo == Sh(e[1], e[3] + W)
                        hi == Sh(e[2], e[3] + W) + 1
                    IN <<ONE + lo - 1, ONE + hi + 1, -W>>

(*************************** Gamma function ********************************)
\* The zigzag (Euler up/down) numbers by the boustrophedon; the odd ones give the Bernoulli numbers.
RECURSIVE ZRow(_, _, _)
ZRow(prev, i, acc) == IF i = 0 THEN acc ELSE ZRow(prev, i - 1, Append(acc, acc[Len(acc)] + prev[i]))
RECURSIVE Zigs(_, _, _)
Zigs(n, row, acc) == IF n = 0 THEN acc
                     ELSE LET r == ZRow(row, Len(row), <<0>>) IN Zigs(n - 1, r, Append(acc, r[Len(r)]))
NB == 32
ZIG == Zigs(2 * NB, <<1>>, <<>>)                        \* ZIG[n] = E_n
\* B_2k as a fixed-point number
BERN == [k \in 1..NB |-> LET v == (2 * k * ZIG[2*k - 1] * ONE) \div (4^k * (4^k - 1))
                         IN IF k % 2 = 1 THEN v ELSE -v]
LN2PIH == Ln(2 * PI, -W) \div 2                         \* ln(2 pi)/2

RECURSIVE StirH(_, _, _)
StirH(w2, k, t) ==                                      \* sum of B_2k/(2k(2k-1)) z^(1-2k), t = z^(1-2k)
  IF k > 30 \/ t = 0 THEN 0
  ELSE (BERN[k] * t) \div (ONE * (2*k) * (2*k - 1)) + StirH(w2, k + 1, MulF(t, w2))
Stirling(z) ==                                          \* ln Gamma(z), z >= 60, fixed point
  LET w == (ONE * ONE) \div z
  IN MulF(z - ONE \div 2, Ln(z, -W)) - z + LN2PIH + StirH(MulF(w, w), 1, w)
RECURSIVE Rising(_, _, _)
Rising(x, n, p) == IF n = 0 THEN p ELSE Rising(x + ONE, n - 1, MulF(p, x))
\* ln Gamma(x), x > 0
LnGamP(X, q) ==
  IF Mag2(X, q) < -100 THEN -Ln(X, q)
  ELSE LET x == Fx(X, q) IN
       IF Mag2(X, q) > 6 THEN Stirling(x)
       ELSE Stirling(x + 60 * ONE) - Ln(Rising(x + ONE, 59, ONE), -W) - Ln(X, q)
\* |sin(pi x)| for a non-integral x > 0
SinPi(X, q) ==
  LET fr == Fx(X, q) % ONE
      r  == Min(fr, ONE - fr)
  IN IF 4 * r <= ONE THEN SinFix(MulF(PI, r)) ELSE CosFix(MulF(PI, ONE \div 2 - r))
FloorOf(X, q) == Sh(X, q)
\* ln |Gamma(x)|, x not a pole
LnGam(X, q) ==
  IF X > 0 THEN LnGamP(X, q)
  ELSE IF Mag2(X, q) < -100 THEN -Ln(-X, q)
  ELSE LET s == Min(q, 0)                               \* 1 - x exactly
       IN Ln(PI, -W) - Ln(SinPi(-X, q), -W) - LnGamP(2^(-s) - X * 2^(q - s), s)
GamNeg(X, q) == X < 0 /\ FloorOf(X, q) % 2 = 1          \* Gamma(x) < 0
GamSlack(X, q) == EUS * 2^Max(0, Mag2(X, q))
LgammaR(X, q) == LET v == LnGam(X, q) IN <<v - GamSlack(X, q), v + GamSlack(X, q), -W>>
TgammaR(X, q) ==
  LET e == IF Mag2(X, q) < -100 THEN LET n == 2^400 \div Abs(X) IN <<n - n \div 2^90, n + n \div 2^90, -400 - q>>
           ELSE IF Mag2(X, q) > 9 THEN (IF X > 0 THEN Huge ELSE Tiny)
           ELSE LET t == ExpE(LnGam(X, q)) IN <<t[1] - t[1] \div 2^150, t[2] + t[2] \div 2^150, t[3]>>
  IN IF GamNeg(X, q) THEN NegE(e) ELSE e

(************************** Bessel functions *******************************)
\* J_n and Y_n at a fixed-point x > 0.  A value is <<v, q>>: v * 2^q, where v is right to about 2^-100 of the
\* larger of itself and the amplitude of the function.
RECURSIVE JSer(_, _, _, _)
JSer(y, n, k, t) == IF t = 0 THEN 0 ELSE t + JSer(y, n, k + 1, -((y * t) \div (ONE * (k + 1) * (n + k + 1))))
\* sum (-1)^k (x^2/4)^k n!/(k!(n+k)!)
JSum(x, n) == JSer(MulF(x, x) \div 4, n, 0, ONE)

RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
JSeries(x, n) ==                                        \* x <= 100
  LET s == JSum(x, n)
  IN IF n = 0 THEN <<s, -W>> ELSE <<(x^n * s) \div (Fact(n) * 2^n), -(W * (n + 1))>>

\* Euler's constant (Brent and McMillan)
RECURSIVE GamA(_, _, _, _)
GamA(k, t, h, m) ==                                     \* sum over k of (n^k/k!)^2 * H_k, n = 64
  IF t = 0 THEN 0 ELSE MulF(t, h) + GamA(k + 1, (t * m) \div ((k + 1) * (k + 1)), h + ONE \div (k + 1), m)
RECURSIVE GamB(_, _, _)
GamB(k, t, m) == IF t = 0 THEN 0 ELSE t + GamB(k + 1, (t * m) \div ((k + 1) * (k + 1)), m)
EULER == DivF(GamA(0, ONE, 0, 4096), GamB(0, ONE, 4096)) - 6 * LN2

\* Y0 and Y1 by their logarithmic series, x <= 60
RECURSIVE Y0Ser(_, _, _, _)
Y0Ser(y, k, t, h) ==                                    \* -sum H_k t_k, t_k = (-y)^k/k!^2
  IF t = 0 THEN 0
  ELSE LET h2 == h + ONE \div k IN -MulF(t, h2) + Y0Ser(y, k + 1, -((y * t) \div (ONE * (k + 1) * (k + 1))), h2)
TwoOverPi(v) == DivF(2 * v, PI)
LnHalf(x) == Ln(x, -W - 1)
Y0Series(x) ==
  LET y == MulF(x, x) \div 4
  IN TwoOverPi(MulF(LnHalf(x) + EULER, JSum(x, 0)) + Y0Ser(y, 1, -y, 0))
RECURSIVE Y1Ser(_, _, _, _)
Y1Ser(y, k, t, h) ==                                    \* sum t_k (H_k + H_(k+1)), t_k = (-y)^k/(k!(k+1)!)
  IF t = 0 THEN 0
  ELSE LET h2 == h + ONE \div (k + 1)
       IN MulF(t, h + h2) + Y1Ser(y, k + 1, -((y * t) \div (ONE * (k + 1) * (k + 2))), h2)
Y1Series(x) ==
  LET y == MulF(x, x) \div 4
      a == TwoOverPi(MulF(LnHalf(x) + EULER, MulF(x \div 2, JSum(x, 1))))
      b == MulF(x \div 2, Y1Ser(y, 0, ONE, 0))
  IN a - DivF(b, PI) - DivF(TwoOverPi(ONE), x)

\* Hankel's expansion, x >= 60, n = 0 or 1: <<J_n, Y_n>>
RECURSIVE Hank(_, _, _, _, _, _)
Hank(mu, x8, k, t, P, Q) ==                             \* t = a_k / x^k
  IF k = 100 \/ t = 0 THEN <<P, Q>>
  ELSE LET P2 == IF k % 2 = 0 THEN (IF k % 4 = 0 THEN P + t ELSE P - t) ELSE P
           Q2 == IF k % 2 = 1 THEN (IF k % 4 = 1 THEN Q + t ELSE Q - t) ELSE Q
           u  == (t * (mu - (2*k + 1) * (2*k + 1)) * ONE) \div (x8 * (k + 1))
       IN Hank(mu, x8, k + 1, u, P2, Q2)
Hankel(X, q, n) ==
  LET x  == Fx(X, q)
      h  == Hank(4 * n * n, 8 * x, 0, ONE, 0, 0)
      t  == Reduce(X, q)
      s0 == SinQ(t[1], t[2])            c0 == SinQ((t[1] + 1) % 4, t[2])
      \* chi = x - pi/4 - n pi/2; cos and sin of it times sqrt 2
      c  == IF n = 0 THEN c0 + s0 ELSE s0 - c0
      s  == IF n = 0 THEN s0 - c0 ELSE -(s0 + c0)
      a  == ISqrt((ONE * ONE * ONE) \div MulF(PI, x))   \* sqrt(1/(pi x))
  IN <<MulF(a, MulF(h[1], c) - MulF(h[2], s)), MulF(a, MulF(h[1], s) + MulF(h[2], c))>>

Small(X, q) == Mag2(X, q) <= 6                          \* x < 64
J01(X, q, n) == Hankel(X, q, n)[1]
Y0V(X, q) == IF Small(X, q) THEN Y0Series(Fx(X, q)) ELSE Hankel(X, q, 0)[2]
Y1V(X, q) == IF Small(X, q) THEN Y1Series(Fx(X, q)) ELSE Hankel(X, q, 1)[2]
\* f_(n+1) = (2n/x) f_n - f_(n-1)
RECURSIVE Up(_, _, _, _, _)
Up(x, m, n, a, b) == IF m = n THEN b ELSE Up(x, m + 1, n, b, (2 * m * b * ONE) \div x - a)
VeryTiny(X, q) == Mag2(X, q) < -100
JV(X, q, n) ==                                          \* n <= x unless x is small
  IF VeryTiny(X, q) /\ n = 0 THEN <<ONE, -W>>
  ELSE IF VeryTiny(X, q) /\ n = 1 THEN <<X * ONE, q - 1 - W>>
  ELSE IF VeryTiny(X, q) THEN <<(X^n * ONE) \div Fact(n), n * (q - 1) - W>>
  ELSE IF Small(X, q) THEN JSeries(Fx(X, q), n)
  ELSE IF n <= 1 THEN <<J01(X, q, n), -W>>
  ELSE <<Up(Fx(X, q), 1, n, J01(X, q, 0), J01(X, q, 1)), -W>>
YV(X, q, n) ==                                          \* x not tiny for n > 1
  IF VeryTiny(X, q) /\ n = 0 THEN <<TwoOverPi(Ln(X, q - 1) + EULER), -W>>
  ELSE IF VeryTiny(X, q) THEN <<-((TwoOverPi(ONE) * ONE) \div X), -q - 2 * W>>
  ELSE <<IF n = 0 THEN Y0V(X, q) ELSE IF n = 1 THEN Y1V(X, q)
         ELSE Up(Fx(X, q), 1, n, Y0V(X, q), Y1V(X, q)), -W>>
\* sqrt(2/(pi x)), the amplitude in the oscillating region; at most 1
Ampl(X, q) == IF Mag2(X, q) <= 0 THEN ONE ELSE Min(ONE, ISqrt((2 * ONE * ONE * ONE) \div MulF(PI, Fx(X, q))))
=============================================================================
