-------------------------------- MODULE Real --------------------------------
(***************************************************************************)
(* Enclosures of real elementary functions by integer arithmetic.          *)
(*                                                                         *)
(* A fixed-point number is an integer in units of 2^-W.  Every kernel      *)
(* below truncates after each step; with the argument bounds stated, its   *)
(* result is off by far less than EU units.  An enclosure <<lo, hi, q>>    *)
(* stands for the real interval [lo * 2^q, hi * 2^q].                      *)
(***************************************************************************)
EXTENDS IEEE

W   == 256
ONE == 2^W
EU  == 2^24

Sh(x, k) == IF k >= 0 THEN x * 2^k ELSE x \div 2^(-k)      \* floor(x * 2^k)
Fx(x, q) == Sh(x, q + W)
MulF(a, b) == (a * b) \div ONE
DivF(a, b) == (a * ONE) \div b

Encl(v) == <<v - EU, v + EU, -W>>
Exactly(x, q) == <<x, x, q>>
NegE(e) == <<-e[2], -e[1], e[3]>>
Signed2(s, e) == IF s = 1 THEN NegE(e) ELSE e
\* x * 2^q (1 + t), -2^-100 <= t <= 0, resp. 0 <= t <= 2^-100; x > 0
Below(x, q) == <<x * 2^100 - x, x * 2^100, q - 100>>
Above(x, q) == <<x * 2^100, x * 2^100 + x, q - 100>>

(***************************** Constants ***********************************)
RECURSIVE AtInv(_, _, _, _, _)          \* sum of +-1/((2k+1) n^(2k+1)), unit one
AtInv(one, n, alt, k, p) ==
  IF p = 0 THEN 0
  ELSE (IF alt /\ k % 2 = 1 THEN -(p \div (2*k + 1)) ELSE p \div (2*k + 1)) + AtInv(one, n, alt, k + 1, p \div (n*n))
ArcTanInv(one, n)  == AtInv(one, n, TRUE, 0, one \div n)
ArcTanhInv(one, n) == AtInv(one, n, FALSE, 0, one \div n)

PB   == 1600
PIL  == LET o == 2^(PB + 32) IN (16 * ArcTanInv(o, 5) - 4 * ArcTanInv(o, 239)) \div 2^32        \* pi * 2^PB
PI   == PIL \div 2^(PB - W)
PIH  == PIL \div 2^(PB + 1 - W)
LN2  == LET o == 2^(W + 32) IN (18 * ArcTanhInv(o, 26) - 2 * ArcTanhInv(o, 4801) + 8 * ArcTanhInv(o, 8749)) \div 2^32
LN10 == LET o == 2^(W + 32)                   \* 3 ln 2 + 2 atanh(1/9)
        IN 3 * LN2 + (2 * ArcTanhInv(o, 9)) \div 2^32

(****************************** Kernels ************************************)
RECURSIVE ExpH(_, _, _), SqH(_, _)
ExpH(r, k, t) == IF k = 0 THEN t ELSE ExpH(r, k - 1, ONE + (r * t) \div (k * ONE))
SqH(j, t) == IF j = 0 THEN t ELSE SqH(j - 1, MulF(t, t))
ExpFix(r) == SqH(6, ExpH(r \div 64, 32, ONE))                       \* |r| <= 1

RECURSIVE LogH(_, _, _)
LogH(z2, k, t) == IF k < 0 THEN t ELSE LogH(z2, k - 1, ONE \div (2*k + 1) + MulF(z2, t))
LogFix(m) ==                                                        \* 0.7 <= m <= 1.42
  LET z == DivF(m - ONE, m + ONE)
      z2 == MulF(z, z)
  IN 2 * MulF(z, LogH(z2, 52, 0))

RECURSIVE SinH_(_, _, _), CosH_(_, _, _)
SinH_(r2, k, t) == IF k = 0 THEN t ELSE SinH_(r2, k - 1, ONE - (r2 * t) \div (ONE * (2*k) * (2*k + 1)))
CosH_(r2, k, t) == IF k = 0 THEN t ELSE CosH_(r2, k - 1, ONE - (r2 * t) \div (ONE * (2*k - 1) * (2*k)))
SinFix(r) == MulF(r, SinH_(MulF(r, r), 28, ONE))                    \* |r| <= 0.8
CosFix(r) == CosH_(MulF(r, r), 28, ONE)

SqrtF(v) == ISqrt(v * ONE)
RECURSIVE AtanH_(_, _, _), Halve(_, _)
AtanH_(z2, k, t) == IF k < 0 THEN t ELSE AtanH_(z2, k - 1, ONE \div (2*k + 1) - MulF(z2, t))
Halve(j, z) == IF j = 0 THEN z ELSE Halve(j - 1, DivF(z, ONE + SqrtF(ONE + MulF(z, z))))
AtanUnit(z) ==                                                      \* 0 <= z <= 1
  LET y == Halve(3, z) IN 8 * MulF(y, AtanH_(MulF(y, y), 40, 0))
\* angle of the point (x, y), both positive integers in the same unit
AtanQ(y, x) == IF y <= x THEN AtanUnit((y * ONE) \div x) ELSE PIH - AtanUnit((x * ONE) \div y)

\* natural logarithm of X * 2^q, X > 0, as a fixed-point number
Ln(X, q) ==
  LET L == BitLen(X)
      big == X * X > 2^(2*L - 1)                 \* X/2^L > 1/sqrt(2)
      e == IF big THEN L ELSE L - 1
  IN LogFix(Sh(X, W - e)) + (e + q) * LN2
\* e^v for a fixed-point v of moderate size
ExpE(v) ==
  LET k == (v + LN2 \div 2) \div LN2
      M == ExpFix(v - k * LN2)
  IN <<M - EU, M + EU, k - W>>
Pow2E(v) ==                                      \* 2^v
  LET k == (v + ONE \div 2) \div ONE
      M == ExpFix(MulF(v - k * ONE, LN2))
  IN <<M - EU, M + EU, k - W>>

(************************** Acceptance *************************************)
RndS(f, x, q) ==                                 \* rounded, as an ordinal
  IF x = 0 THEN 0
  ELSE LET top == BitLen(Abs(x)) + q
           a == IF top > f.bias + 3 THEN f.inf ELSE IF top < f.qmin - 3 THEN 0 ELSE RN(f, 0, Abs(x), 1, q)
       IN IF x < 0 THEN -a ELSE a
Near(f, k, e, r) ==
  /\ ~IsNaN(f, r)
  /\ RndS(f, e[1], e[3]) - k <= Ord(f, r)
  /\ Ord(f, r) <= RndS(f, e[2], e[3]) + k
  /\ e[1] > 0 => SignOf(f, r) = 0
  /\ e[2] < 0 => SignOf(f, r) = 1

(*********** Functions of X * 2^q (X # 0, possibly negative) ***************)
Huge == <<1, 1, 40000>>
Tiny == <<1, 2, -40000>>
Mag2(X, q) == BitLen(Abs(X)) + q                 \* |x| < 2^Mag2, >= 2^(Mag2-1)

ExpR(X, q) == IF Mag2(X, q) > 15 THEN (IF X > 0 THEN Huge ELSE Tiny)
              ELSE IF Mag2(X, q) < -120 THEN (IF X > 0 THEN Above(1, 0) ELSE Below(1, 0))
              ELSE ExpE(Fx(X, q))
Exp2R(X, q) == IF Mag2(X, q) > 15 THEN (IF X > 0 THEN Huge ELSE Tiny)
               ELSE IF Mag2(X, q) < -120 THEN (IF X > 0 THEN Above(1, 0) ELSE Below(1, 0))
               ELSE Pow2E(Fx(X, q))
Exp10R(X, q) == IF Mag2(X, q) > 14 THEN (IF X > 0 THEN Huge ELSE Tiny)
                ELSE IF Mag2(X, q) < -120 THEN (IF X > 0 THEN Above(1, 0) ELSE Below(1, 0))
                ELSE ExpE(MulF(Fx(X, q), LN10))
Minus1(e) == <<e[1] - 2^(-e[3]), e[2] - 2^(-e[3]), e[3]>>         \* e[3] <= 0
Expm1R(X, q) ==
  IF Mag2(X, q) < -102 THEN (IF X > 0 THEN Above(X, q) ELSE NegE(Below(-X, q)))
  ELSE IF X < 0 /\ Mag2(X, q) > 8 THEN <<-ONE, 1 - ONE, -W>>
  ELSE IF X > 0 /\ Mag2(X, q) > 7 THEN ExpR(X, q)
  ELSE Minus1(ExpE(Fx(X, q)))
LogR(X, q) == Encl(Ln(X, q))
Log2R(X, q) == Encl(DivF(Ln(X, q), LN2))
Log10R(X, q) == Encl(DivF(Ln(X, q), LN10))
Log1pR(X, q) ==
  IF Mag2(X, q) < -102 THEN (IF X > 0 THEN Below(X, q) ELSE NegE(Above(-X, q)))
  ELSE LET s == Min(q, 0) IN Encl(Ln(X * 2^(q - s) + 2^(-s), s))

TwoExps(X, q) == <<ExpE(Fx(X, q)), ExpE(Fx(-X, q))>>
\* (a + s*b)/2 for two enclosures, s = 1 or -1
HalfSum(a, b, s) ==
  LET e == Min(a[3], b[3])
      A(i) == a[i] * 2^(a[3] - e)
      B(i) == b[i] * 2^(b[3] - e)
  IN IF s = 1 THEN <<A(1) + B(1), A(2) + B(2), e - 1>> ELSE <<A(1) - B(2), A(2) - B(1), e - 1>>
Halved(e) == <<e[1], e[2], e[3] - 1>>
\* An odd function from its values at positive arguments.
Odd(F(_, _), X, q) == IF X < 0 THEN NegE(F(-X, q)) ELSE F(X, q)

SinhP(X, q) ==
  IF Mag2(X, q) < -52 THEN Above(X, q)
  ELSE IF Mag2(X, q) > 8 THEN Halved(ExpR(X, q))
  ELSE LET t == TwoExps(X, q) IN HalfSum(t[1], t[2], -1)
CoshP(X, q) ==
  IF Mag2(X, q) < -52 THEN Above(1, 0)
  ELSE IF Mag2(X, q) > 8 THEN Halved(ExpR(X, q))
  ELSE LET t == TwoExps(X, q) IN HalfSum(t[1], t[2], 1)
TanhP(X, q) ==
  IF Mag2(X, q) < -52 THEN Below(X, q)
  ELSE IF Mag2(X, q) > 6 THEN Below(1, 0)
  ELSE LET e == ExpE(-2 * Fx(X, q))                \* (1-e)/(1+e), e < 1
           v == Sh(e[1], e[3] + W)
       IN Encl(DivF(ONE - v, ONE + v))
\* x + sqrt(x^2 + s) in units of 2^-(W+300)
AsinhP(X, q) ==
  IF Mag2(X, q) < -52 THEN Below(X, q)
  ELSE IF Mag2(X, q) > 160 THEN Encl(Ln(X, q + 1))
  ELSE LET x == Fx(X, q) IN Encl(Ln(x + ISqrt(x * x + ONE * ONE), -W))
AcoshP(X, q) ==                                    \* x > 1
  IF Mag2(X, q) > 160 THEN Encl(Ln(X, q + 1))
  ELSE LET x == Fx(X, q) IN Encl(Ln(x + ISqrt(x * x - ONE * ONE), -W))
AtanhP(X, q) ==                                    \* x < 1
  IF Mag2(X, q) < -52 THEN Above(X, q)
  ELSE LET x == Fx(X, q) IN Encl((Ln(ONE + x, -W) - Ln(ONE - x, -W)) \div 2)

(* Reduction modulo pi/2: x = n * pi/2 + r, |r| <= pi/4.  Enough bits of    *)
(* pi are used for r to be correct to W bits after the point.               *)
Reduce(X, q) ==
  LET S == W + 44 + Max(0, Mag2(X, q))
      h == PIL \div 2^(PB + 1 - S)
      x == Sh(X, q + S)
      n == (2 * x + h) \div (2 * h)
      r == x - n * h
  IN <<n % 4, r \div 2^(S - W)>>
SinQ(n, r) == CASE n = 0 -> SinFix(r) [] n = 1 -> CosFix(r) [] n = 2 -> -SinFix(r) [] n = 3 -> -CosFix(r)
SinP(X, q) == IF Mag2(X, q) < -52 THEN Below(X, q)
              ELSE LET t == Reduce(X, q) IN Encl(SinQ(t[1], t[2]))
CosP(X, q) == IF Mag2(X, q) < -52 THEN Below(1, 0)
              ELSE LET t == Reduce(X, q) IN Encl(SinQ((t[1] + 1) % 4, t[2]))
TanP(X, q) == IF Mag2(X, q) < -52 THEN Above(X, q)
              ELSE LET t == Reduce(X, q)
                       s == SinFix(t[2])
                       c == CosFix(t[2])
                       \* the quotient is correct to 128 bits
                       v == IF t[1] % 2 = 0 THEN DivF(s, c) ELSE DivF(-c, s)
                       er == Abs(v) \div 2^128 + EU
                   IN <<v - er, v + er, -W>>

AtanP(X, q) ==
  IF Mag2(X, q) < -52 THEN Below(X, q)
  ELSE IF Mag2(X, q) > 200 THEN Encl(PIH)
  ELSE IF q >= 0 THEN Encl(AtanQ(X * 2^q, 1)) ELSE Encl(AtanQ(X, 2^(-q)))
AsinP(X, q) ==                                     \* 0 < x <= 1
  IF Mag2(X, q) < -52 THEN Above(X, q)
  ELSE LET x == Fx(X, q) IN IF x = ONE THEN Encl(PIH) ELSE Encl(AtanQ(x, ISqrt(ONE * ONE - x * x)))
AcosR(X, q) ==                                     \* -1 < x < 1
  IF Mag2(X, q) < -200 THEN Encl(PIH)
  ELSE LET x == Fx(X, q) IN Encl(2 * AtanQ(ISqrt((ONE - x) * ONE), ISqrt((ONE + x) * ONE)))
\* y / x > 0 tiny: the angle is the quotient
Atan2P(Y, p, X, q) ==                              \* both positive
  LET d == Mag2(Y, p) - Mag2(X, q)
  IN IF d < -52 THEN LET n == (Y * 2^400) \div X IN <<n - n \div 2^100, n + 1, p - q - 400>>
     ELSE IF d > 300 THEN <<PIH - EU, PIH + EU, -W>>
     ELSE LET m == Min(p, q) IN Encl(AtanQ(Y * 2^(p - m), X * 2^(q - m)))
\* x < 0: pi minus the angle of (|x|, y)
Atan2R(Y, p, X, q) ==
  LET a == IF Mag2(Abs(Y), p) - Mag2(Abs(X), q) < -300 /\ X < 0 THEN <<0, 1, -W>>
           ELSE Atan2P(Abs(Y), p, Abs(X), q)
      e == IF X > 0 THEN a
           ELSE LET lo == Sh(a[1], a[3] + W) hi == Sh(a[2], a[3] + W) + 1 IN <<PI - hi - EU, PI - lo + EU, -W>>
  IN IF Y < 0 THEN NegE(e) ELSE e

(* x^y for x > 0, x # 1, y # 0.  The logarithm is needed to many more bits  *)
(* than the result when y is large.                                         *)
PowP(X, q, Y, p) ==
  LET my == Mag2(Y, p)
      L  == DivF(Ln(X, q), LN2)
  IN IF my > 80 THEN (IF (L > 0) = (Y > 0) THEN Huge ELSE Tiny)
     ELSE IF my < -180 THEN (IF (L > 0) = (Y > 0) THEN Above(1, 0) ELSE Below(1, 0))
     ELSE LET P == Sh(L * Y, p)                    \* y * log2(x)
          IN IF P > 20000 * ONE THEN Huge
             ELSE IF P < -20000 * ONE THEN Tiny
             ELSE LET k == (P + ONE \div 2) \div ONE
                      M == ExpFix(MulF(P - k * ONE, LN2))
                      e == EU * (1 + 2^Max(0, my))
                  IN <<M - e, M + e, k - W>>
=============================================================================
