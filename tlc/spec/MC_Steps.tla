------------------------------ MODULE MC_Steps ------------------------------
(***************************************************************************)
(* On a small format: many steps are single steps repeated, the distance   *)
(* is the number of steps between, and acceptance follows from both.       *)
(***************************************************************************)
EXTENDS Steps, TLC
CONSTANTS EW, P
f == MkFmt(EW, P)
All == 0..(2 * f.sign - 1)
Reals == {x \in All : ~IsNaN(f, x)}
\* one step, by the order of the values alone: the least that is greater, the greatest that is less
V(m) == LET e == m \div f.hid IN IF e = 0 THEN m ELSE ((m % f.hid) + f.hid) * 2^(e - 1)
SV(b) == IF SignOf(f, b) = 1 THEN -V(Mag(f, b)) ELSE V(Mag(f, b))
Up(x) == {y \in Reals : SV(y) > SV(x) /\ \A z \in Reals : SV(z) > SV(x) => SV(z) >= SV(y)}
Down(x) == {y \in Reals : SV(y) < SV(x) /\ \A z \in Reals : SV(z) < SV(x) => SV(z) <= SV(y)}
Pick(x, s) == IF s = {} THEN x ELSE CHOOSE y \in s : SV(y) = 0 => SignOf(f, y) = SignOf(f, x)
UpOf == [x \in Reals |-> Pick(x, Up(x))]
DownOf == [x \in Reals |-> Pick(x, Down(x))]
RECURSIVE Walk(_, _, _)
Walk(x, k, d) == IF k = 0 THEN x ELSE LET y == Walk(x, k - 1, d) IN IF d = 1 THEN UpOf[y] ELSE DownOf[y]

VARIABLES a, n, chosen
Init == a \in All /\ n = 0 /\ chosen = FALSE
Next == ~chosen /\ chosen' = TRUE /\ n' \in 0..(2 * f.inf + 2) /\ UNCHANGED a

StepsOk == \A d \in {1, -1} :
  IF IsNaN(f, a) THEN StepOk(f, a, n, d, a)
  ELSE LET r == Walk(a, n, d) IN \A y \in All : StepOk(f, a, n, d, y) <=> y = r
Near(x, t) == LET w == {SV(Walk(x, k, d)) : k \in 0..t, d \in {1, -1}} IN {y \in Reals : SV(y) \in w}
AcceptOk == chosen =>
  /\ ~IsNaN(f, a) => \A m \in {0, 8} :
       LET s == Near(a, n % 4) IN
       \A y \in All : Accepts(f, y, a, n % 4, m) <=> (y \in s /\ SignOf(f, y) = SignOf(f, a) /\ (IsInf(f, y) <=> IsInf(f, a)))
  /\ IsNaN(f, a) => \A m \in 0..11 : \A y \in All :
       Accepts(f, y, a, n % 4, m) <=> (IsNaN(f, y) /\ (y = a \/ m % 3 = 0 \/ (m % 3 = 1 /\ m < 9)))
\* evenly spaced places stay between the ends, differ, and are all of them if there are few
SpreadOk == chosen => \A m \in 2..9 :
  LET at(k) == CHOOSE v \in 0..n : SpacedOk(n, m, Least(m - 1, n) + 1, Least(m - 1, n) + 1, k, v)
      s == {at(k) : k \in 0..Least(m - 1, n)}
  IN /\ \E k \in 0..8 : k = Least(m - 1, n)
     /\ s \subseteq 0..n
     /\ \A k, j \in 0..Least(m - 1, n) : k < j => at(k) < at(j)
     /\ n < m => s = 0..n
     /\ \A v \in s : v <= n
     /\ n - at(Least(m - 1, n)) < m - 1 \/ n = 0
NaNsOk == ~chosen =>
  /\ \A i \in 0..7 : IsNaN(f, NaNAt(f, i))
  /\ (IsNaN(f, a) /\ P > 2) =>
       LET q == Mag(f, a) >= f.inf + (f.hid \div 2)
           s == SignOf(f, a)
       IN IF q THEN Mag(f, a) >= Mag(f, NaNAt(f, s)) /\ Mag(f, a) <= Mag(f, NaNAt(f, 2 + 3 * s))
          ELSE Mag(f, a) >= Mag(f, NaNAt(f, 3 + 3 * s)) /\ Mag(f, a) <= Mag(f, NaNAt(f, 4 + 3 * s))
=============================================================================
