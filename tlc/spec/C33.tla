-------------------------------- MODULE C33 --------------------------------
(***************************************************************************)
(* What results are measured with: steps between neighbouring floats,      *)
(* acceptance of a result within a tolerance, evenly spaced inputs, and    *)
(* the inputs that are generated for each argument of each function.       *)
(***************************************************************************)
EXTENDS Replay, Steps
S33(w, s, x) == IF s = 1 /\ x >= 2^(w - 1) THEN x - 2^w ELSE x
Bool33(b) == IF b THEN 1 ELSE 0

(************************* Inputs of a function ****************************)
\* first and last place of the region a function is defined on, poles aside
Has(s, names) == \E i \in 1..Len(names) : s = names[i]
Region(f, fn) ==
  LET one == Ord(f, One(f)) IN
  CASE Has(fn, <<"sqrtf16/0", "sqrtf/0", "sqrt/0", "sqrtf128/0">>) -> <<0, f.inf>>
    [] Has(fn, <<"logf/0", "log/0">>) -> <<1, f.inf>>
    [] Has(fn, <<"log1pf/0", "log1p/0">>) -> <<1 - one, f.inf>>
    [] Has(fn, <<"acoshf/0", "acosh/0">>) -> <<one, f.inf>>
    [] Has(fn, <<"asinf/0", "asin/0">>) -> <<-one, one>>
    [] Has(fn, <<"atanhf/0", "atanh/0">>) -> <<1 - one, one - 1>>
    [] OTHER -> <<-f.inf, f.inf>>

Rising(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
In(s, x) == \E i \in 1..Len(s) : s[i] = x
\* the places every list of edge cases has, and as many neighbours of each as of the others
Edges(f, lo, hi) ==
  LET one == One(f) IN
  <<Zero(f, 0), Zero(f, 1), one, Neg(f, one), one + 1, one - 1, Neg(f, one) + 1, Neg(f, one) - 1,
    1, f.sign + 1, Inf(f, 0), Inf(f, 1), MaxFin(f, 0), MaxFin(f, 1),
    f.hid, f.hid - 1, f.hid + 1, Neg(f, f.hid), Neg(f, f.hid - 1), Neg(f, f.hid + 1)>>
Poles(f, fn) ==
  IF Has(fn, <<"tgammaf/0", "tgamma/0">>) THEN [i \in 1..8 |-> RN(f, 1, i, 1, 0)] ELSE <<>>
EdgeFOk(f, fn, a, s) ==
  LET lo == Ord(f, a[1])
      hi == Ord(f, a[2])
  IN /\ a[3] = Len(s)
     /\ Rising(s)
     /\ <<lo, hi>> = Region(f, fn)
     /\ In(s, a[1]) /\ In(s, a[2])
     \* and the values next to it outside the region
     /\ lo > -f.inf => \E i \in 1..Len(s) : ~IsNaN(f, s[i]) /\ Ord(f, s[i]) = lo - 1
     /\ hi < f.inf => \E i \in 1..Len(s) : ~IsNaN(f, s[i]) /\ Ord(f, s[i]) = hi + 1
     /\ \A i \in 1..8 : In(s, NaNAt(f, i - 1))
     /\ LET e == Edges(f, lo, hi) IN \A i \in 1..Len(e) : In(s, e[i])
     /\ LET p == Poles(f, fn) IN \A i \in 1..Len(p) : In(s, p[i]) /\ In(s, p[i] - 1) /\ In(s, p[i] + 1)

SpacedFOk(f, fn, a, s) ==
  LET lo == Ord(f, a[1])
      hi == Ord(f, a[2])
      n == a[3]
      d == Spacing(hi - lo, n)
  IN /\ <<lo, hi>> = Region(f, fn)
     /\ a[4] = Least(n - 1, hi - lo) + 1 /\ Len(s) = a[4]
     /\ \A i \in 1..Len(s) : Ord(f, s[i]) = lo + (i - 1) * d
     /\ hi - Ord(f, s[Len(s)]) < n

\* lim = 0: any value; otherwise amounts of a shift of that many bits
Lo33(w, s) == IF s = 1 THEN -(2^(w - 1)) ELSE 0
Hi33(w, s) == IF s = 1 THEN 2^(w - 1) - 1 ELSE 2^w - 1
Top(w, s, lim) == IF lim = 0 THEN Hi33(w, s) ELSE lim - 1
\* scaling: exponents of the largest, the least normal and the least value, and the distances between them
Scaled(fn) == CASE fn = "scalbnf16/1" -> 16
                [] Has(fn, <<"scalbnf/1", "ldexpf/1">>) -> 32
                [] Has(fn, <<"scalbn/1", "ldexp/1">>) -> 64
                [] fn = "scalbnf128/1" -> 128
                [] OTHER -> 0
ScaleEdges(f) ==
  LET b == f.bias
      m == f.p - 1
  IN <<b, 1 - b, 1 - b - m, b + m - 1, 2 * b - 1, 1 - 2 * b, 2 * b + m - 1, 1 - 2 * b - m>>
EdgeIOk(w, s, fn, a, v) ==
  LET x == [i \in 1..Len(v) |-> S33(w, s, v[i])]
      hi == Top(w, s, a[1])
      lo == Lo33(w, s)
  IN /\ a[2] = Len(v)
     /\ Rising(x)
     /\ x[1] = lo /\ x[Len(x)] = hi
     /\ In(x, 0) /\ In(x, 1) /\ In(x, hi - 1) /\ In(x, lo + 1)
     /\ s = 1 => In(x, -1)
     /\ Scaled(fn) # 0 => LET e == ScaleEdges(Fmt(Scaled(fn))) IN \A i \in 1..Len(e) : In(x, e[i]) /\ In(x, e[i] - 1) /\ In(x, e[i] + 1)
SpacedIOk(w, s, a, v) ==
  LET x == [i \in 1..Len(v) |-> S33(w, s, v[i])]
      hi == Top(w, s, a[1])
      lo == Lo33(w, s)
      n == a[2]
      d == Spacing(hi - lo, n)
  IN /\ a[3] = Least(n - 1, hi - lo) + 1 /\ Len(v) = a[3]
     /\ \A i \in 1..Len(x) : x[i] = lo + (i - 1) * d
     /\ hi - x[Len(x)] < n
RandomIOk(w, s, a, v) ==
  /\ a[3] = a[2] /\ Len(v) = a[2]
  /\ \A i \in 1..Len(v) : LET x == S33(w, s, v[i]) IN x >= Lo33(w, s) /\ x <= Top(w, s, a[1])
  /\ \E i, j \in 1..Len(v) : v[i] # v[j]

(****************************** Tolerances *********************************)
\* what the accuracy properties grant
Exactly == <<"add", "sub", "mul", "div", "ceil", "floor", "trunc", "round", "roundeven", "rint", "fabs", "copysign", "fdim",
             "fma", "fmax", "fmaximum", "fmaximum_num", "fmin", "fminimum", "fminimum_num", "fmod", "frexp", "ftoi_", "itof",
             "extend_", "narrow", "ldexp", "scalbn", "modf", "nextafter", "remainder", "remquo", "sqrt", "cbrt">>
Granted(w, fn) ==
  CASE Has(fn, Exactly) -> 0
    [] fn = "hypot" -> IF w = 64 THEN 0 ELSE 1
    [] Has(fn, <<"acos", "asin", "atan", "cos", "cosh", "erf", "exp", "exp2", "expm1", "log", "log10", "log1p", "log2", "pow",
                 "sin", "sincos", "tan">>) -> 1
    [] Has(fn, <<"asinh", "atan2", "atanh", "sinh", "tanh">>) -> 2
    [] Has(fn, <<"acosh", "erfc", "lgamma", "lgamma_r">>) -> 4
    [] fn = "exp10" -> 6
    [] fn = "tgamma" -> IF w = 64 THEN 20 ELSE 1
    [] fn = "powi" -> IF w = 64 THEN 500000 ELSE 1000
    [] Has(fn, <<"j0", "j1", "jn", "y0", "y1", "yn">>) -> 8000000

ConformsC33(r) ==
  LET f == Fmt(r[6][1])
      a == r[3]
      x == r[4]
      w == r[6][1]
      s == IF Len(r[6]) > 1 THEN r[6][2] ELSE 0
  IN CASE r[1] = "nextup" -> StepOk(f, a[1], 1, 1, x[1])
       [] r[1] = "nextdown" -> StepOk(f, a[1], 1, -1, x[1])
       [] r[1] = "nup" -> StepOk(f, a[1], a[2], 1, x[1])
       [] r[1] = "ndown" -> StepOk(f, a[1], a[2], -1, x[1])
       [] r[1] = "nan" -> x[1] = NaNAt(f, a[1] % 8)
       [] r[1] = "validate" -> x[1] = Bool33(Accepts(f, a[1], a[2], a[3], a[4]))
       [] r[1] = "validint" -> x[1] = Bool33(a[1] = a[2])
       [] r[1] = "validpair" -> x[1] = Bool33(Accepts(f, a[1], a[2], 3, 0) /\ a[3] = a[4])
       [] r[1] = "logspace" -> SpacedOk(Ord(f, a[2]) - Ord(f, a[1]), a[3], x[1], x[2], a[4], Ord(f, x[3]) - Ord(f, a[1]))
       [] r[1] = "linear" -> LET v == [i \in 1..2 |-> S33(w, s, a[i])]
                             IN SpacedOk(v[2] - v[1], a[3], x[1], x[2], a[4], S33(w, s, x[3]) - v[1])
       [] r[1] = "tolerance" -> x[1] <= Granted(w, r[2])
       [] r[1] = "edgef" -> EdgeFOk(f, r[2], a, x)
       [] r[1] = "spacedf" -> SpacedFOk(f, r[2], a, x)
       [] r[1] = "edgei" -> EdgeIOk(w, s, r[2], a, x)
       [] r[1] = "spacedi" -> SpacedIOk(w, s, a, x)
       [] r[1] = "randomi" -> RandomIOk(w, s, a, x)
       [] r[1] = "random" -> x[1] = a[2] /\ a[2] >= 1 /\ a[2] <= a[1] /\ x[2] = 1 /\ 2 * x[3] >= x[1]
=============================================================================
