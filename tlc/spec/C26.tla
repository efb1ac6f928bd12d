-------------------------------- MODULE C26 --------------------------------
(***************************************************************************)
(* Status flags returned with the result.  Records: op:w args > bits flags *)
(* Flags: 1 invalid, 2 division by zero, 4 overflow, 8 underflow,          *)
(* 16 inexact.                                                             *)
(***************************************************************************)
EXTENDS Replay, Exact
Has(st, k) == (st \div k) % 2 = 1
Bit(c, k) == IF c THEN k ELSE 0
RoundStatus(f, mode, a, x, st) ==
  LET e == Integral(f, mode, a)
  IN /\ Same(f, e, x)
     /\ st = Bit(~IsNaN(f, a) /\ e # a, 16)
\* A NaN operand may be reported or not.
SqrtStatus(f, a, x, st) ==
  /\ Same(f, Sqrt(f, a), x)
  /\ ~IsNaN(f, a) => Has(st, 1) = (Sqrt(f, a) = NaN)
  /\ ~Has(st, 2) /\ ~Has(st, 4) /\ ~Has(st, 8)
\* Few flags are produced here; those that are have to be true.
FmaStatus(f, a, b, c, x, st) ==
  LET e == FmaX(f, "N", a, b, c)
      fin == IsFin(f, a) /\ IsFin(f, b) /\ IsFin(f, c)
  IN /\ Same(f, e.bits, x)
     /\ Has(st, 1) => e.bits = NaN
     /\ ~Has(st, 2)
     /\ Has(st, 4) => fin /\ IsInf(f, e.bits)
     /\ Has(st, 8) => e.inexact /\ e.tiny
     /\ Has(st, 16) => e.inexact
ConformsC26(r) ==
  LET f == Fmt(r[6][1])
      a == r[3][1]
      x == r[4][1]
      st == r[4][2]
  IN CASE r[1] = "ceil" -> RoundStatus(f, "U", a, x, st)
       [] r[1] = "floor" -> RoundStatus(f, "D", a, x, st)
       [] r[1] = "trunc" -> RoundStatus(f, "Z", a, x, st)
       [] r[1] = "rint" -> RoundStatus(f, "N", a, x, st)
       [] r[1] = "sqrt" -> SqrtStatus(f, a, x, st)
       [] r[1] \in {"fma", "fmaw"} -> FmaStatus(f, a, r[3][2], r[3][3], x, st)
=============================================================================
