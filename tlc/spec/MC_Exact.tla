------------------------------ MODULE MC_Exact ------------------------------
(***************************************************************************)
(* Exhaustive check of Exact on a small format against the mathematical    *)
(* definitions, phrased differently from the definitions in Exact.         *)
(***************************************************************************)
EXTENDS Exact, TLC
CONSTANTS EW, P
f == MkFmt(EW, P)
All == 0..(2 * f.sign - 1)
V(m) == LET e == m \div f.hid IN IF e = 0 THEN m ELSE ((m % f.hid) + f.hid) * 2^(e - 1)
SV(b) == IF SignOf(f, b) = 1 THEN -V(Mag(f, b)) ELSE V(Mag(f, b))
Q == 2^(-f.qmin)
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

VARIABLES a, b, chosen
vars == <<a, b, chosen>>
Init == a \in All /\ b = 0 /\ chosen = FALSE
Next == ~chosen /\ chosen' = TRUE /\ b' \in All /\ UNCHANGED a
AllFin == IsFin(f, a) /\ IsFin(f, b)
FiniteMags == 0..(f.inf - 1)

RemOk == (AllFin /\ ~IsZero(f, b)) =>
  LET m == Fmod(f, a, b)
      r == Remainder(f, a, b)
      n == RemQuo(f, TRUE, a, b)
      Y == Abs(SV(b))
  IN /\ m # NaN /\ r # NaN
     /\ (SV(a) - SV(m)) % Y = 0 /\ Abs(SV(m)) < Y /\ SignOf(f, m) = SignOf(f, a)
     /\ (SV(a) - SV(r)) % Y = 0 /\ 2 * Abs(SV(r)) <= Y
     /\ (SV(r) = 0 => SignOf(f, r) = SignOf(f, a))
     /\ (2 * Abs(SV(r)) = Y => (((Abs(SV(a)) - Sgn(SV(a)) * SV(r)) \div Y) % 2 = 0))
     /\ n * Y = Abs(SV(a)) - Sgn(SV(a)) * SV(r)
HypotOk == AllFin /\ ~(IsZero(f, a) /\ IsZero(f, b)) =>
  LET h == Hypot(f, a, b)
      x == 4 * (SV(a) * SV(a) + SV(b) * SV(b))
  IN IF IsInf(f, h) THEN LET t == V(f.inf - 1) + V(f.inf) IN t * t <= x
     ELSE /\ (h > 0 => (V(h) + V(h - 1)) * (V(h) + V(h - 1)) <= x)
          /\ x <= (V(h) + V(h + 1)) * (V(h) + V(h + 1))
\* exactly one datum is the cube root, and it is the nearest one
CbrtOk == (~chosen /\ IsFin(f, a) /\ SignOf(f, a) = 0 /\ ~IsZero(f, a)) =>
  LET S == {r \in FiniteMags : r > 0 /\ IsCbrt(f, a, r)}
      N(r) == Abs(2 * Cube(V(r)) - 2 * V(a) * Q * Q)      \* only used to order candidates coarsely
  IN /\ \E r \in S : TRUE
     /\ \A r \in S : \A s \in S : r = s
     /\ \A r \in S : /\ Cube(V(r) + V(r - 1)) <= 8 * V(a) * Q * Q
                     /\ 8 * V(a) * Q * Q <= Cube(V(r) + V(r + 1))
ScaleOk == ~chosen /\ IsFin(f, a) /\ ~IsZero(f, a) =>
  \A n \in -12..12 :
    LET r == Scalbn(f, a, n)
        p == IF n >= 0 THEN Mul(f, a, RN(f, 0, 1, 1, Min(n, f.bias))) ELSE Scalbn(f, a, n)
    IN /\ SignOf(f, r) = SignOf(f, a)
       /\ (n >= 0 /\ n <= f.bias) => r = p
       /\ n < 0 => LET e == V(Mag(f, a))              \* |a| = e, r nearest to e / 2^-n
                       R == V(Mag(f, r))
                   IN \A c \in FiniteMags : Abs(R * 2^(-n) - e) <= Abs(V(c) * 2^(-n) - e)
NextOk == (~IsNaN(f, a) /\ ~IsNaN(f, b)) =>
  LET r == Nextafter(f, a, b) IN
  IF Ord(f, a) = Ord(f, b) THEN r = b
  ELSE IF Ord(f, a) < Ord(f, b)
       THEN /\ Ord(f, r) > Ord(f, a) /\ \A c \in All : (~IsNaN(f, c) /\ Ord(f, c) > Ord(f, a)) => Ord(f, r) <= Ord(f, c)
       ELSE /\ Ord(f, r) < Ord(f, a) /\ \A c \in All : (~IsNaN(f, c) /\ Ord(f, c) < Ord(f, a)) => Ord(f, r) >= Ord(f, c)
DecomposeOk == (~chosen /\ IsFin(f, a)) =>
  /\ \E i \in All : \E fr \in All : IsModf(f, a, fr, i) /\ SV(i) % Q = 0 /\ SV(i) + SV(fr) = SV(a) /\ Abs(SV(fr)) < Q
  /\ ~IsZero(f, a) => LET e == Ilogb(f, a) IN IF e >= 0 THEN Q * 2^e <= V(Mag(f, a)) /\ V(Mag(f, a)) < Q * 2^(e + 1)
                                              ELSE Q <= V(Mag(f, a)) * 2^(-e) /\ V(Mag(f, a)) * 2^(-e) < 2 * Q
MinMaxOk ==
  /\ AllFin => SV(Minimum(f, FALSE, a, b)) = Min(SV(a), SV(b)) /\ SV(Minimum(f, TRUE, a, b)) = Max(SV(a), SV(b))
  /\ Minimum(f, TRUE, a, b) = Minimum(f, TRUE, b, a) \/ a = b
  /\ (SV(a) = SV(b) /\ IsZero(f, a) /\ IsZero(f, b) /\ a # b) => Minimum(f, TRUE, a, b) = 0 /\ Minimum(f, FALSE, a, b) = f.sign
  /\ AllFin => (SV(Fdim(f, a, b)) >= 0)
=============================================================================
