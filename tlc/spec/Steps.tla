------------------------------- MODULE Steps --------------------------------
(***************************************************************************)
(* Steps between neighbouring floats, acceptance of a result within a      *)
(* tolerance, and evenly spaced places.                                    *)
(***************************************************************************)
EXTENDS IEEE, Integers, Sequences
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b

(******************************** Steps ************************************)
\* n steps up (d = 1) or down (d = -1) from x; the zeros are one place, and
\* one that is stepped onto keeps the sign of where the steps began
StepOk(f, x, n, d, r) ==
  IF IsNaN(f, x) \/ n = 0 THEN r = x
  ELSE LET t == Ord(f, x) + d * n
           c == IF t > f.inf THEN f.inf ELSE IF t < -f.inf THEN -f.inf ELSE t
       IN /\ ~IsNaN(f, r) /\ Ord(f, r) = c
          /\ c = 0 => SignOf(f, r) = SignOf(f, x)

QNaN(f, s) == Signed(f, s, f.inf + f.hid \div 2)
NaNAt(f, i) ==          \* quiet, largest, smallest signalling, largest signalling
  CASE i = 0 -> QNaN(f, 0)
    [] i = 1 -> QNaN(f, 1)
    [] i = 2 -> Signed(f, 0, f.sign - 1)
    [] i = 3 -> Signed(f, 0, f.inf + 1)
    [] i = 4 -> Signed(f, 0, f.inf + f.hid \div 2 - 1)
    [] i = 5 -> Signed(f, 1, f.sign - 1)
    [] i = 6 -> Signed(f, 1, f.inf + 1)
    [] i = 7 -> Signed(f, 1, f.inf + f.hid \div 2 - 1)

(****************************** Acceptance *********************************)
\* mode: basis 0 arbitrary precision, 1 C library, 2 none; generator 3 an explicit list
AnyNaN(m) == m % 3 = 0 \/ (m % 3 = 1 /\ m \div 3 # 3)
Accepts(f, a, e, ulp, m) ==
  IF IsNaN(f, a) /\ IsNaN(f, e) THEN AnyNaN(m) \/ a = e
  ELSE /\ ~IsNaN(f, a) /\ ~IsNaN(f, e)
       /\ SignOf(f, a) = SignOf(f, e)
       /\ IsInf(f, a) <=> IsInf(f, e)
       /\ Abs(Ord(f, a) - Ord(f, e)) <= ulp

(***************************** Even spacing ********************************)
\* between: places from start to end; n steps asked for
Spacing(between, n) == Most(1, between \div (n - 1))
SpacedOk(between, n, said, made, k, at) ==
  LET last == Least(n - 1, between)
  IN /\ said = last + 1 /\ made = said
     /\ at = Least(k, last) * Spacing(between, n)
     /\ at <= between
=============================================================================
