------------------------------ MODULE MC_Laws -------------------------------
(***************************************************************************)
(* The tables of special values (Annex) are consistent: with the symmetry  *)
(* laws, with each other as inverse functions, and with IEEE arithmetic.   *)
(* Every datum and every pair of data of a small format.                   *)
(***************************************************************************)
EXTENDS Laws, Exact, TLC
CONSTANTS EW, P
f == MkFmt(EW, P)
All == 0..(2 * f.sign - 1)

OddFns  == {"sin", "tan", "asin", "atan", "sinh", "asinh", "tanh", "atanh", "erf", "cbrt", "expm1no"} \ {"expm1no"}
EvenFns == {"cos", "cosh", "j0"}
Fns == OddFns \union EvenFns \union {"exp", "exp2", "exp10", "expm1", "log", "log2", "log10", "log1p", "acos", "acosh",
        "erfc", "tgamma", "lgamma", "j1", "y0", "y1", "sqrt"}
Inverse == {<<"exp", "log">>, <<"exp2", "log2">>, <<"exp10", "log10">>, <<"expm1", "log1p">>, <<"sinh", "asinh">>,
            <<"tanh", "atanh">>, <<"sin", "asin">>, <<"tan", "atan">>, <<"cosh", "acosh">>}

VARIABLES a, b, chosen, broken
vars == <<a, b, chosen, broken>>

S(fn, x) == Annex1(fn, f, x)
Def(v) == v # NONE
Norm(v) == IF v >= 0 /\ IsNaN(f, v) THEN NaN ELSE v

Laws1(x) ==
  { fn \in Fns : ~(S(fn, x) \in All \union {NaN, NONE}) }
  \union { fn \in Fns : IsNaN(f, x) /\ S(fn, x) # NaN }
  \union { fn \in OddFns : ~IsNaN(f, x) /\ Norm(S(fn, Neg(f, x))) #
             (IF S(fn, x) \in {NaN, NONE} THEN S(fn, x) ELSE Neg(f, S(fn, x))) }
  \union { fn \in EvenFns : ~IsNaN(f, x) /\ S(fn, Neg(f, x)) # S(fn, x) }
  \* a prescribed finite value is undone by the inverse function
  \union { p[1] : p \in { q \in Inverse : LET v == S(q[1], x) IN
             /\ v \notin {NaN, NONE} /\ q[1] # "cosh" /\ q[1] # "tan"
             /\ LET u == S(q[2], v) IN u # NONE /\ Ord(f, u) # Ord(f, x) /\ ~(IsZero(f, x) /\ IsZero(f, u)) } }
  \union (IF /\ Def(S("expm1", x)) /\ S("exp", x) # NONE
             /\ ~IsZero(f, x) /\ Norm(Sub(f, IF S("exp", x) = NaN THEN f.inf + 1 ELSE S("exp", x), One(f))) # S("expm1", x)
          THEN {"expm1 = exp - 1"} ELSE {})
  \union (IF /\ Def(S("erf", x)) /\ S("erfc", x) # NONE /\ S("erf", x) # NaN
             /\ Sub(f, One(f), S("erf", x)) # S("erfc", x)
          THEN {"erfc = 1 - erf"} ELSE {})
  \union (IF /\ Def(S("log1p", x)) /\ ~IsZero(f, x) /\ ~IsNaN(f, x)
             /\ LET y == Add(f, One(f), x)
                IN y \in All /\ Def(S("log", y)) /\ y # One(f) /\ IsIntegral(f, y) /\ S("log", y) # S("log1p", x)
          THEN {"log1p = log(1 + x)"} ELSE {})
  \union (IF Norm(S("sqrt", x)) # NONE /\ Norm(S("sqrt", x)) # Norm(Sqrt(f, x)) THEN {"sqrt"} ELSE {})

Two == Whole(f, 2)
Pw(x, y) == Norm(PowAnnex(f, x, y))
In(v) == IF v = NaN THEN f.inf + 1 ELSE v
Laws2(x, y) ==
  LET p == Pw(x, y)
      q == Atan2Annex(f, x, y)
      fin == ~IsNaN(f, x) /\ ~IsNaN(f, y)
  IN
  \* small integer powers are products
     (IF Pw(x, One(f)) \notin {NONE, Norm(x)} THEN {"x^1"} ELSE {})
  \union (IF Pw(x, Two) # NONE /\ Pw(x, Two) # Norm(Mul(f, x, x)) THEN {"x^2"} ELSE {})
  \union (IF Pw(x, Neg(f, One(f))) # NONE /\ Pw(x, Neg(f, One(f))) # Norm(Div(f, One(f), x)) THEN {"x^-1"} ELSE {})
  \* x^-y = 1/x^y
  \union (IF p # NONE /\ fin /\ Pw(x, Neg(f, y)) # Norm(Div(f, One(f), In(p))) THEN {"x^-y"} ELSE {})
  \* (1/x)^y = 1/x^y at zeros and infinities
  \union (IF p # NONE /\ fin /\ (IsZero(f, x) \/ IsInf(f, x)) /\ Pw(Div(f, One(f), x), y) # Norm(Div(f, One(f), In(p)))
          THEN {"(1/x)^y"} ELSE {})
  \* (-x)^y = +-x^y for integers y
  \union (IF p # NONE /\ fin /\ IsFin(f, y) /\ IsIntegral(f, y) /\ ~IsZero(f, y)
             /\ Pw(Neg(f, x), y) \notin {NONE, Norm(IF p = NaN THEN NaN ELSE IF IsOddInt(f, y) THEN Neg(f, p) ELSE p)}
          THEN {"(-x)^y"} ELSE {})
  \* the angle: reflections
  \union (IF fin /\ q # NONE /\ Atan2Annex(f, Neg(f, x), y) # q THEN {"atan2(-y, x)"} ELSE {})
  \union (IF fin /\ q # NONE /\ ~(IsZero(f, x) /\ IsZero(f, y)) /\ Atan2Annex(f, x, Neg(f, y)) # 4 - q THEN {"atan2(y, -x)"} ELSE {})
  \union (IF fin /\ q # NONE /\ SignOf(f, y) = 0 /\ SignOf(f, x) = 0 /\ ~(IsZero(f, x) /\ IsZero(f, y))
             /\ Atan2Annex(f, y, x) # 2 - q THEN {"atan2(x, y)"} ELSE {})

Init == a \in All /\ b = 0 /\ chosen = FALSE /\ broken = {}
Next == /\ ~chosen
        /\ chosen' = TRUE
        /\ b' \in All
        /\ broken' = Laws2(a, b') \union (IF b' = 0 THEN Laws1(a) ELSE {})
        /\ UNCHANGED a
NoLawBroken == broken = {}
=============================================================================
