------------------------------ MODULE MC_IEEE ------------------------------
(***************************************************************************)
(* Exhaustive check of the IEEE module on small formats against the        *)
(* definition: the result of an operation is the datum closest to the      *)
(* exact real result (ties to the even significand), where infinity takes  *)
(* the place of the first value beyond the largest finite one; directed    *)
(* modes return the closest datum on the required side.                    *)
(***************************************************************************)
EXTENDS IEEE, TLC

CONSTANTS EW, P, WithFma
f == MkFmt(EW, P)
All == 0..(2 * f.sign - 1)
\* Magnitude of a datum in units of the smallest subnormal; infinity is one step above MaxFin.
V(m) == LET e == m \div f.hid IN IF e = 0 THEN m ELSE ((m % f.hid) + f.hid) * 2^(e - 1)
Mags == 0..f.inf
SV(b) == IF SignOf(f, b) = 1 THEN -V(Mag(f, b)) ELSE V(Mag(f, b))

\* magnitude m is the correct rounding of the positive rational n/d (in units of the smallest subnormal)
Nearest(m, n, d) ==
  /\ m \in Mags
  /\ \A c \in Mags : LET dm == Abs(V(m) * d - n)
                         dc == Abs(V(c) * d - n)
                     IN c = m \/ dm < dc \/ (dm = dc /\ m % 2 = 0)
NearestAway(m, n, d) ==
  /\ m \in Mags
  /\ \A c \in Mags : LET dm == Abs(V(m) * d - n)
                         dc == Abs(V(c) * d - n)
                     IN c = m \/ dm < dc \/ (dm = dc /\ m > c)
Below(m, n, d) == /\ m \in Mags \ {f.inf} /\ V(m) * d <= n /\ \A c \in Mags \ {f.inf} : V(c) * d <= n => c <= m
Above(m, n, d) == /\ m \in Mags /\ (m = f.inf \/ V(m) * d >= n) /\ \A c \in Mags : V(c) * d >= n => m <= c

Correct(mode, s, m, n, d) ==
  CASE mode = "N" -> Nearest(m, n, d)
    [] mode = "A" -> NearestAway(m, n, d)
    [] mode = "Z" \/ (mode = "U" /\ s = 1) \/ (mode = "D" /\ s = 0) -> Below(m, n, d)
    [] OTHER -> Above(m, n, d)

\* A result r for the exact value n/d (n of either sign, not zero), in units of the smallest subnormal.
Rounded(r, mode, n, d) ==
  LET s == IF n < 0 THEN 1 ELSE 0
  IN r # NaN /\ SignOf(f, r) = s /\ Correct(mode, s, Mag(f, r), Abs(n), d)

VARIABLES a, b, c, chosen
vars == <<a, b, c, chosen>>
Init == a \in All /\ b = 0 /\ c = 0 /\ chosen = FALSE
Next == /\ ~chosen /\ chosen' = TRUE
        /\ b' \in All /\ c' \in (IF WithFma THEN All ELSE {0}) /\ UNCHANGED a
Spec == Init /\ [][Next]_vars

AllFin == IsFin(f, a) /\ IsFin(f, b)
Q == 2^(-f.qmin)                      \* 1 in units of the smallest subnormal

AddOk == AllFin =>
  LET x == SV(a) + SV(b)
      r == Add(f, a, b)
  IN IF x # 0 THEN Rounded(r, "N", x, 1)
     ELSE r = IF SignOf(f, a) = 1 /\ SignOf(f, b) = 1 THEN Zero(f, 1) ELSE Zero(f, 0)
SubOk == AllFin /\ SV(a) # SV(b) => Rounded(Sub(f, a, b), "N", SV(a) - SV(b), 1)
MulOk == AllFin =>
  LET x == SV(a) * SV(b) IN
  IF x # 0 THEN Rounded(Mul(f, a, b), "N", x, Q) ELSE Mul(f, a, b) = Zero(f, XorSign(f, a, b))
DivOk == AllFin /\ SV(b) # 0 =>
  IF SV(a) # 0 THEN Rounded(Div(f, a, b), "N", (IF SV(b) < 0 THEN -1 ELSE 1) * SV(a) * Q, Abs(SV(b)))
  ELSE Div(f, a, b) = Zero(f, XorSign(f, a, b))
FmaOk == (AllFin /\ IsFin(f, c)) =>
  LET x == SV(a) * SV(b) + SV(c) * Q IN
  x # 0 => \A m \in {"N", "Z", "U", "D", "A"} :
             LET r == FmaX(f, m, a, b, c) IN
             /\ Rounded(r.bits, m, x, Q)
             /\ r.inexact = (IsInf(f, r.bits) \/ SV(r.bits) * Q # x)
\* r = sqrt(a) iff r's neighbours' midpoints squared enclose a
SqrtOk == (IsFin(f, a) /\ SignOf(f, a) = 0 /\ a # 0) =>
  LET r == Sqrt(f, a)
      x == 4 * V(a) * Q                                   \* (2*v)^2 in units^2
      lo == V(r) + V(r - 1)
      hi == V(r) + V(r + 1)
  IN /\ IsFin(f, r) /\ r > 0
     /\ lo * lo <= x /\ x <= hi * hi
     /\ (lo * lo = x => r % 2 = 0) /\ (hi * hi = x => r % 2 = 0)
SpecialOk ==
  /\ (IsNaN(f, a) \/ IsNaN(f, b)) => \A r \in {Add(f, a, b), Sub(f, a, b), Mul(f, a, b), Div(f, a, b)} : r = NaN
  /\ (IsInf(f, a) /\ IsFin(f, b)) => Add(f, a, b) = a /\ Sub(f, a, b) = a
  /\ (IsInf(f, a) /\ IsZero(f, b)) => Mul(f, a, b) = NaN
  /\ Add(f, a, b) = Add(f, b, a) /\ Mul(f, a, b) = Mul(f, b, a)
  /\ \A x \in {a, b} : (~IsNaN(f, x)) => Add(f, x, Zero(f, 1)) = x /\ Mul(f, x, One(f)) = x /\ Div(f, x, One(f)) = x
OrdOk == (~Unordered(f, a, b) /\ AllFin) => ((Ord(f, a) < Ord(f, b)) <=> (SV(a) < SV(b)))

\* conversion to a narrower and to a wider format and back
g == MkFmt(EW + 1, P + 3)
ConvOk == ~IsNaN(f, a) => Convert(g, f, Convert(f, g, a)) = a

IntegralOk == IsFin(f, a) => \A m \in {"N", "Z", "U", "D", "A"} :
  LET r == Integral(f, m, a)
      x == SV(a)
      I == SV(r)
      h == Abs(I - x)
  IN /\ I % Q = 0 /\ SignOf(f, r) = SignOf(f, a)
     /\ CASE m = "Z" -> Abs(I) <= Abs(x) /\ h < Q
          [] m = "U" -> I >= x /\ h < Q
          [] m = "D" -> I <= x /\ h < Q
          [] m = "A" -> 2 * h < Q \/ (2 * h = Q /\ Abs(I) > Abs(x))
          [] m = "N" -> 2 * h < Q \/ (2 * h = Q /\ (I \div Q) % 2 = 0)
ToIntOk == IsFin(f, a) =>
  LET t == FloatToInt(f, -5, 6, a) x == SV(a) IN
  IF x <= -5 * Q THEN t = -5 ELSE IF x >= 6 * Q THEN t = 6
  ELSE Abs(t * Q) <= Abs(x) /\ Abs(x) - Abs(t * Q) < Q /\ (t * x >= 0)
=============================================================================
