-------------------------------- MODULE IEEE --------------------------------
(***************************************************************************)
(* IEEE 754 binary floating point, parametric in the format, as exact      *)
(* integer arithmetic.  A format f has exponent width f.ew and precision   *)
(* f.p (including the hidden bit).  Data are bit patterns (naturals below  *)
(* 2^f.w).  Operations return a bit pattern, or NaN (= -1) which stands    *)
(* for "any NaN".                                                          *)
(***************************************************************************)
EXTENDS Integers, Bits

MkFmt(ew, p) == [ew |-> ew, p |-> p, w |-> ew + p,
                 bias |-> 2^(ew-1) - 1,
                 qmin |-> 2 - (2^(ew-1) - 1) - p,     \* exponent of the smallest subnormal
                 hid  |-> 2^(p-1),
                 sign |-> 2^(ew+p-1),
                 sat  |-> 2^ew - 1,
                 inf  |-> (2^ew - 1) * 2^(p-1)]

F16  == MkFmt(5, 11)
F32  == MkFmt(8, 24)
F64  == MkFmt(11, 53)
F128 == MkFmt(15, 113)
Fmt(w) == CASE w = 64 -> F64 [] w = 32 -> F32 [] w = 16 -> F16 [] w = 128 -> F128

NaN == -1

Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b

(***************************** Decoding ************************************)
SignOf(f, b) == b \div f.sign
Mag(f, b)    == b % f.sign
IsNaN(f, b)  == Mag(f, b) > f.inf
IsInf(f, b)  == Mag(f, b) = f.inf
IsFin(f, b)  == Mag(f, b) < f.inf
IsZero(f, b) == Mag(f, b) = 0
IsSub(f, b)  == Mag(f, b) < f.hid
\* A finite datum is (-1)^SignOf * Sig * 2^Expo.
Expo(f, b) == LET e == Mag(f, b) \div f.hid IN f.qmin + (IF e = 0 THEN 0 ELSE e - 1)
Sig(f, b)  == LET m == Mag(f, b) IN IF m < f.hid THEN m ELSE (m % f.hid) + f.hid
SSig(f, b) == IF SignOf(f, b) = 1 THEN -Sig(f, b) ELSE Sig(f, b)      \* signed significand

Signed(f, s, mag) == s * f.sign + mag
Inf(f, s)  == Signed(f, s, f.inf)
Zero(f, s) == Signed(f, s, 0)
MaxFin(f, s) == Signed(f, s, f.inf - 1)
Neg(f, b) == IF SignOf(f, b) = 1 THEN b - f.sign ELSE b + f.sign
One(f) == f.bias * f.hid

Same(f, expected, got) == IF expected = NaN THEN IsNaN(f, got) ELSE expected = got

(**************************** Rounding *************************************)
(* Round the positive rational (n/d) * 2^q with sign s.  Modes: "N" nearest *)
(* even, "Z" toward zero, "U" toward +infinity, "D" toward -infinity, "A"   *)
(* nearest, ties away.  The result and whether it is inexact.               *)
RoundX(f, mode, s, n, d, q) ==
  IF n = 0 THEN [bits |-> Zero(f, s), inexact |-> FALSE, tiny |-> FALSE]
  ELSE
  LET L  == BitLen(n) - BitLen(d) - 1 + q       \* 2^L <= value < 2^(L+2) roughly: value in (2^L, 2^(L+2))
      t0 == Max(f.qmin, L - (f.p - 1))
      Quo(t) == IF q >= t THEN (n * 2^(q - t)) \div d ELSE n \div (d * 2^(t - q))
      t  == IF Quo(t0) >= 2 * f.hid THEN t0 + 1 ELSE t0
      Q  == Quo(t)
      D  == IF q >= t THEN d ELSE d * 2^(t - q)
      N  == IF q >= t THEN n * 2^(q - t) ELSE n
      R  == N - Q * D
      up == CASE mode = "N" -> 2 * R > D \/ (2 * R = D /\ Q % 2 = 1)
              [] mode = "A" -> 2 * R >= D
              [] mode = "Z" -> FALSE
              [] mode = "U" -> R > 0 /\ s = 0
              [] mode = "D" -> R > 0 /\ s = 1
      b  == (t - f.qmin) * f.hid + Q + (IF up THEN 1 ELSE 0)
      o  == b >= f.inf
      toinf == mode \in {"N", "A"} \/ (mode = "U" /\ s = 0) \/ (mode = "D" /\ s = 1)
  IN [bits |-> Signed(f, s, IF o THEN (IF toinf THEN f.inf ELSE f.inf - 1) ELSE b),
      inexact |-> R # 0 \/ o,
      tiny |-> Q < f.hid]

RoundRat(f, mode, s, n, d, q) == RoundX(f, mode, s, n, d, q).bits
\* x * 2^q for an integer x of either sign; a zero gets sign zs.
RoundInt(f, mode, x, q, zs) ==
  IF x = 0 THEN Zero(f, zs)
  ELSE RoundRat(f, mode, IF x < 0 THEN 1 ELSE 0, Abs(x), 1, q)
RN(f, s, n, d, q) == RoundRat(f, "N", s, n, d, q)

(**************************** Arithmetic ***********************************)
XorSign(f, a, b) == IF SignOf(f, a) = SignOf(f, b) THEN 0 ELSE 1

\* Exact sum of two dyadics <<x, q>> (signed x).
DySum(x, q, y, r) == LET e == Min(q, r) IN <<x * 2^(q - e) + y * 2^(r - e), e>>

Add(f, a, b) ==
  CASE IsNaN(f, a) \/ IsNaN(f, b) -> NaN
    [] IsInf(f, a) /\ IsInf(f, b) -> IF a = b THEN a ELSE NaN
    [] IsInf(f, a) -> a
    [] IsInf(f, b) -> b
    [] OTHER ->
        LET z == DySum(SSig(f, a), Expo(f, a), SSig(f, b), Expo(f, b))
        IN RoundInt(f, "N", z[1], z[2], IF SignOf(f, a) = 1 /\ SignOf(f, b) = 1
                                           /\ IsZero(f, a) /\ IsZero(f, b) THEN 1 ELSE 0)
Sub(f, a, b) == IF IsNaN(f, a) \/ IsNaN(f, b) THEN NaN ELSE Add(f, a, Neg(f, b))

Mul(f, a, b) ==
  LET s == XorSign(f, a, b) IN
  CASE IsNaN(f, a) \/ IsNaN(f, b) -> NaN
    [] IsInf(f, a) -> IF IsZero(f, b) THEN NaN ELSE Inf(f, s)
    [] IsInf(f, b) -> IF IsZero(f, a) THEN NaN ELSE Inf(f, s)
    [] OTHER -> RN(f, s, Sig(f, a) * Sig(f, b), 1, Expo(f, a) + Expo(f, b))

Div(f, a, b) ==
  LET s == XorSign(f, a, b) IN
  CASE IsNaN(f, a) \/ IsNaN(f, b) -> NaN
    [] IsInf(f, a) -> IF IsInf(f, b) THEN NaN ELSE Inf(f, s)
    [] IsInf(f, b) -> Zero(f, s)
    [] IsZero(f, b) -> IF IsZero(f, a) THEN NaN ELSE Inf(f, s)
    [] OTHER -> RN(f, s, Sig(f, a), Sig(f, b), Expo(f, a) - Expo(f, b))

\* a*b + c, exact then rounded in the given mode.
FmaX(f, mode, a, b, c) ==
  LET s == XorSign(f, a, b)
      prodInf == IsInf(f, a) \/ IsInf(f, b)
      R(x) == [bits |-> x, inexact |-> FALSE, tiny |-> FALSE]
  IN
  CASE IsNaN(f, a) \/ IsNaN(f, b) \/ IsNaN(f, c) -> R(NaN)
    [] (IsInf(f, a) /\ IsZero(f, b)) \/ (IsZero(f, a) /\ IsInf(f, b)) -> R(NaN)
    [] prodInf -> R(IF IsInf(f, c) /\ SignOf(f, c) # s THEN NaN ELSE Inf(f, s))
    [] IsInf(f, c) -> R(c)
    [] OTHER ->
        LET pr == Sig(f, a) * Sig(f, b)
            z  == DySum(IF s = 1 THEN -pr ELSE pr, Expo(f, a) + Expo(f, b), SSig(f, c), Expo(f, c))
        IN IF z[1] = 0
           THEN \* exact zero: a signed zero only if both terms have that sign
                IF pr = 0 /\ IsZero(f, c) /\ s = SignOf(f, c) THEN R(Zero(f, s))
                ELSE R(Zero(f, IF mode = "D" THEN 1 ELSE 0))
           ELSE RoundX(f, mode, IF z[1] < 0 THEN 1 ELSE 0, Abs(z[1]), 1, z[2])
Fma(f, a, b, c) == FmaX(f, "N", a, b, c).bits

\* Square root: integer square root with enough extra bits and a sticky bit.
Sqrt(f, a) ==
  CASE IsNaN(f, a) -> NaN
    [] IsZero(f, a) -> a
    [] SignOf(f, a) = 1 -> NaN
    [] IsInf(f, a) -> a
    [] OTHER ->
        LET k  == 2 * (f.p + 2) + (IF Expo(f, a) % 2 = 0 THEN 0 ELSE 1)
            n  == Sig(f, a) * 2^k                    \* a = n * 2^(e-k), e-k even
            r  == ISqrt(n)
            st == IF r * r = n THEN 0 ELSE 1
        IN RN(f, 0, 2 * r + st, 1, (Expo(f, a) - k) \div 2 - 1)

(*************************** Comparison ************************************)
\* An order-preserving integer image of the non-NaN data (both zeros to 0).
Ord(f, b) == IF SignOf(f, b) = 1 THEN -Mag(f, b) ELSE Mag(f, b)
Unordered(f, a, b) == IsNaN(f, a) \/ IsNaN(f, b)

(*************************** Conversions ***********************************)
Convert(f, g, a) ==                         \* from format f to format g
  CASE IsNaN(f, a) -> NaN
    [] IsInf(f, a) -> Inf(g, SignOf(f, a))
    [] OTHER -> RN(g, SignOf(f, a), Sig(f, a), 1, Expo(f, a))

IntToFloat(f, x) == RoundInt(f, "N", x, 0, 0)

\* Truncation toward zero of a finite datum.
TruncInt(f, a) == LET m == Shift(Sig(f, a), Expo(f, a)) IN IF SignOf(f, a) = 1 THEN -m ELSE m
FloatToInt(f, lo, hi, a) ==
  CASE IsNaN(f, a) -> 0
    [] IsInf(f, a) -> IF SignOf(f, a) = 1 THEN lo ELSE hi
    [] OTHER -> IF Expo(f, a) > 200 /\ ~IsZero(f, a) THEN (IF SignOf(f, a) = 1 THEN lo ELSE hi)
                ELSE LET t == TruncInt(f, a) IN IF t < lo THEN lo ELSE IF t > hi THEN hi ELSE t

(********************** Rounding to an integral value **********************)
\* dir: "U" ceil, "D" floor, "Z" trunc, "A" round half away, "N" round half even
Integral(f, dir, a) ==
  IF IsNaN(f, a) THEN NaN
  ELSE IF IsInf(f, a) \/ Expo(f, a) >= 0 THEN a
  ELSE
  LET k == -Expo(f, a)
      s == SignOf(f, a)
      m == Sig(f, a)
      kk == Min(k, f.p + 2)                  \* below 1/4 everything is alike
      u == 2^kk
      mm == IF k > kk THEN (IF m = 0 THEN 0 ELSE 1) ELSE m
      q == mm \div u
      r == mm % u
      up == CASE dir = "Z" -> FALSE
              [] dir = "U" -> r > 0 /\ s = 0
              [] dir = "D" -> r > 0 /\ s = 1
              [] dir = "A" -> 2 * r >= u
              [] dir = "N" -> 2 * r > u \/ (2 * r = u /\ q % 2 = 1)
  IN RN(f, s, IF up THEN q + 1 ELSE q, 1, 0)
=============================================================================
