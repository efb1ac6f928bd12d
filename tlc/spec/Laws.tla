-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* Symmetry laws and exact cases of the math functions, and the form of    *)
(* the special cases shared by the checks of single calls.                 *)
(***************************************************************************)
EXTENDS Annex

\* the same datum (any NaN like any NaN)
Alike(f, a, b) == a = b \/ (IsNaN(f, a) /\ IsNaN(f, b))
\* b is the negative of a (any NaN of any NaN)
NegOf(f, a, b) == IF IsNaN(f, a) THEN IsNaN(f, b) ELSE b = Neg(f, a)

\* a prescribed value, or none
Special(f, s, r) == s = NONE \/ Same(f, s, r)

Exp2Int(f, n) == RN(f, 0, 1, 1, IF n > 4 * f.bias THEN 4 * f.bias ELSE IF n < -4 * f.bias THEN -4 * f.bias ELSE n)

RECURSIVE Factorial(_)
Factorial(n) == IF n <= 1 THEN 1 ELSE n * Factorial(n - 1)

\* q quarters of pi, up to two units in the last place
PI60 == (3 * 2^30 + 152033954) * 2^30 + 140128397    \* floor(pi * 2^60)
Atan2Special(f, q, s, r) ==
  IF q = NaN THEN IsNaN(f, r)
  ELSE IF q = 0 THEN r = Zero(f, s)
  ELSE LET v == RN(f, s, PI60 * q, 1, -62)
       IN /\ ~IsNaN(f, r)
          /\ Ord(f, r) - Ord(f, v) \in -2..2

\* the special cases of Bessel functions of integer order
BesselAnnex(f, isY, n, x, r) ==
  LET m == IF n < 0 THEN -n ELSE n IN
  CASE IsNaN(f, x) -> IsNaN(f, r)
    [] isY /\ SignOf(f, x) = 1 /\ ~IsZero(f, x) -> IsNaN(f, r)
    [] IsZero(f, x) -> IF isY THEN IsInf(f, r) ELSE IF m = 0 THEN r = One(f) ELSE IsZero(f, r)
    [] IsInf(f, x) -> IsZero(f, r)
    [] OTHER -> TRUE

\* the sign of gamma where it is certain without knowing its value
GammaSign(f, x, sg) ==
  CASE IsNaN(f, x) \/ IsInf(f, x) -> TRUE
    [] IsZero(f, x) -> sg = IF SignOf(f, x) = 1 THEN -1 ELSE 1
    [] SignOf(f, x) = 0 -> sg = 1
    [] OTHER -> sg \in {-1, 0, 1}
=============================================================================
