------------------------------- MODULE Exact -------------------------------
(***************************************************************************)
(* The exactly specified functions of a math library, on top of IEEE:      *)
(* remainders, scaling, decomposition, minimum/maximum, roots.             *)
(***************************************************************************)
EXTENDS IEEE

(****************************** Roots **************************************)
\* sqrt(n * 2^q) rounded to nearest even (never a tie beyond the sticky bit).
SqrtDy(f, n, q) ==
  IF n = 0 THEN Zero(f, 0)
  ELSE LET need == Max(0, 2 * (f.p + 3) - BitLen(n))
           k == IF (q - need) % 2 = 0 THEN need ELSE need + 1
           m == n * 2^k
           r == ISqrt(m)
           st == IF r * r = m THEN 0 ELSE 1
       IN RN(f, 0, 2 * r + st, 1, (q - k) \div 2 - 1)

Hypot(f, a, b) ==
  CASE IsInf(f, a) \/ IsInf(f, b) -> Inf(f, 0)
    [] IsNaN(f, a) \/ IsNaN(f, b) -> NaN
    [] OTHER -> LET x == Sig(f, a) * Sig(f, a)
                    y == Sig(f, b) * Sig(f, b)
                    z == DySum(x, 2 * Expo(f, a), y, 2 * Expo(f, b))
                IN SqrtDy(f, z[1], z[2])

\* Cube root, stated by its inverse: the datum r >= 0 is the correctly rounded cube root of a > 0 iff
\* a lies between the cubes of the midpoints around r.  Cube roots of data are never ties.
Cube(x) == x * x * x
DyLt(x, q, y, r) == LET e == Min(q, r) IN x * 2^(q - e) < y * 2^(r - e)
DyLe(x, q, y, r) == ~DyLt(y, r, x, q)
IsCbrtMag(f, a, r) ==
  LET S == Sig(f, r)
      E == Expo(f, r)
      lo == IF S = f.hid /\ E > f.qmin THEN <<4 * S - 1, E - 2>> ELSE <<2 * S - 1, E - 1>>
      hi == <<2 * S + 1, E - 1>>
  IN /\ DyLe(Cube(lo[1]), 3 * lo[2], Sig(f, a), Expo(f, a))
     /\ DyLe(Sig(f, a), Expo(f, a), Cube(hi[1]), 3 * hi[2])
IsCbrt(f, a, r) ==
  CASE IsNaN(f, a) -> IsNaN(f, r)
    [] IsInf(f, a) \/ IsZero(f, a) -> r = a
    [] OTHER -> /\ IsFin(f, r) /\ ~IsZero(f, r)
                /\ SignOf(f, r) = SignOf(f, a)
                /\ IsCbrtMag(f, Mag(f, a), Mag(f, r))

(**************************** Remainders ***********************************)
\* x = X*2^e, y = Y*2^e with common e; quotient rounded by mode "Z" or "N".
Aligned(f, a, b) == LET e == Min(Expo(f, a), Expo(f, b))
                    IN <<Sig(f, a) * 2^(Expo(f, a) - e), Sig(f, b) * 2^(Expo(f, b) - e), e>>
QuoNearest(X, Y) == LET q == X \div Y
                        r == X - q * Y
                    IN IF 2 * r > Y \/ (2 * r = Y /\ q % 2 = 1) THEN q + 1 ELSE q
RemDomain(f, a, b) == ~IsNaN(f, a) /\ ~IsNaN(f, b) /\ ~IsInf(f, a) /\ ~IsZero(f, b)
\* magnitude of the quotient
RemQuo(f, near, a, b) ==
  IF IsInf(f, b) THEN 0
  ELSE LET z == Aligned(f, a, b) IN IF near THEN QuoNearest(z[1], z[2]) ELSE z[1] \div z[2]
Rem(f, near, a, b) ==
  IF ~RemDomain(f, a, b) THEN NaN
  ELSE IF IsInf(f, b) \/ IsZero(f, a) THEN a
  ELSE LET z == Aligned(f, a, b)
           q == RemQuo(f, near, a, b)
           r == z[1] - q * z[2]                          \* |x| - q*|y|
           s == SignOf(f, a)
       IN IF r = 0 THEN Zero(f, s)
          ELSE RoundInt(f, "N", IF s = 1 THEN -r ELSE r, z[3], 0)
Fmod(f, a, b) == Rem(f, FALSE, a, b)
Remainder(f, a, b) == Rem(f, TRUE, a, b)

(******************** Scaling and decomposition ****************************)
\* Beyond this every scaled non-zero value is far outside the format.
ScaleLimit(f) == 4 * (f.bias + f.p)
Scalbn(f, a, n) ==
  CASE IsNaN(f, a) -> NaN
    [] IsInf(f, a) \/ IsZero(f, a) -> a
    [] OTHER -> LET m == IF n > ScaleLimit(f) THEN ScaleLimit(f) ELSE IF n < -ScaleLimit(f) THEN -ScaleLimit(f) ELSE n
                IN RN(f, SignOf(f, a), Sig(f, a), 1, Expo(f, a) + m)
\* floor(log2|a|) of a finite non-zero datum
Ilogb(f, a) == BitLen(Sig(f, a)) - 1 + Expo(f, a)
IsFrexp(f, a, m, e) ==
  CASE IsNaN(f, a) -> IsNaN(f, m)
    [] IsInf(f, a) -> m = a
    [] IsZero(f, a) -> m = a /\ e = 0
    [] OTHER -> /\ Ilogb(f, m) = -1                                   \* 1/2 <= |m| < 1
                /\ IsFin(f, m)
                /\ e = Ilogb(f, a) + 1
                /\ SignOf(f, m) = SignOf(f, a)
                /\ LET k == Min(Expo(f, m) + e, Expo(f, a))           \* m * 2^e = a
                   IN Sig(f, m) * 2^(Expo(f, m) + e - k) = Sig(f, a) * 2^(Expo(f, a) - k)
IsModf(f, a, frac, int) ==
  CASE IsNaN(f, a) -> IsNaN(f, frac) /\ IsNaN(f, int)
    [] IsInf(f, a) -> int = a /\ frac = Zero(f, SignOf(f, a))
    [] OTHER -> /\ int = Integral(f, "Z", a)
                /\ LET z == DySum(SSig(f, a), Expo(f, a), -SSig(f, int), Expo(f, int))
                   IN frac = RoundInt(f, "N", z[1], z[2], SignOf(f, a))
INT_MAX == 2^31 - 1
INT_MIN == -(2^31)
IlogbOk(f, a, r) == CASE IsNaN(f, a) -> r \in {INT_MIN, INT_MAX}
                      [] IsInf(f, a) -> r = INT_MAX
                      [] IsZero(f, a) -> r \in {INT_MIN, -INT_MAX}
                      [] OTHER -> r = Ilogb(f, a)
\* The datum after a in the order, towards b.
Nextafter(f, a, b) ==
  CASE IsNaN(f, a) \/ IsNaN(f, b) -> NaN
    [] Ord(f, a) = Ord(f, b) -> b
    [] OTHER -> LET up == Ord(f, b) > Ord(f, a)
                    o == Ord(f, a) + (IF up THEN 1 ELSE -1)
                IN IF o > 0 THEN o ELSE IF o < 0 THEN f.sign - o
                   ELSE Zero(f, SignOf(f, a))            \* stepping onto zero keeps the sign of a

(*********************** Minimum, maximum, ... *****************************)
\* A total key that puts -0 below +0.
Key(f, a) == IF SignOf(f, a) = 1 THEN -Mag(f, a) - 1 ELSE Mag(f, a)
Pick(f, max, a, b) == IF (Key(f, a) > Key(f, b)) = max THEN a ELSE b
\* fmin/fmax: either zero may be returned for zeros of different sign.
MinNumOk(f, max, a, b, r) ==
  CASE IsNaN(f, a) /\ IsNaN(f, b) -> IsNaN(f, r)
    [] IsNaN(f, a) -> r = b
    [] IsNaN(f, b) -> r = a
    [] Ord(f, a) = Ord(f, b) -> r \in {a, b}
    [] OTHER -> r = Pick(f, max, a, b)
Minimum(f, max, a, b) == IF IsNaN(f, a) \/ IsNaN(f, b) THEN NaN ELSE Pick(f, max, a, b)
MinimumNum(f, max, a, b) ==
  CASE IsNaN(f, a) /\ IsNaN(f, b) -> NaN
    [] IsNaN(f, a) -> b
    [] IsNaN(f, b) -> a
    [] OTHER -> Pick(f, max, a, b)
Fdim(f, a, b) == CASE IsNaN(f, a) \/ IsNaN(f, b) -> NaN
                   [] Ord(f, a) <= Ord(f, b) -> Zero(f, 0)
                   [] OTHER -> Sub(f, a, b)
Fabs(f, a) == Mag(f, a)
Copysign(f, a, b) == Signed(f, SignOf(f, b), Mag(f, a))
=============================================================================
