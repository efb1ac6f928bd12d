-------------------------------- MODULE C32 --------------------------------
(***************************************************************************)
(* The building blocks: fields and classes of floats, fixed-width integers *)
(* and casts between them, and the status register.                        *)
(***************************************************************************)
EXTENDS Replay, Real, Bits

Two(w, s, x) == IF s = 1 /\ x >= 2^(w - 1) THEN x - 2^w ELSE x      \* value of a word
Word(w, x) == x % 2^w
Bool(b) == IF b THEN 1 ELSE 0
Lo(w, s) == IF s = 1 THEN -(2^(w - 1)) ELSE 0
Hi(w, s) == IF s = 1 THEN 2^(w - 1) - 1 ELSE 2^w - 1
Fits(w, s, x) == x >= Lo(w, s) /\ x <= Hi(w, s)
Bit(x, i) == (x \div 2^i) % 2

(******************************** Floats ***********************************)
QBit(f) == f.hid \div 2
IsQ(f, b) == IsNaN(f, b) /\ BitAnd(b, QBit(f)) # 0
\* pi rounded: W fractional bits of pi are known, far more than any precision
PiOf(f, q) == RN(f, 0, 2 * PIL + 1, 1, -PB - 1 + q)

FConst(f, i) ==
  CASE i = 0 -> Zero(f, 0) [] i = 1 -> Zero(f, 1)
    [] i = 2 -> One(f)     [] i = 3 -> Neg(f, One(f))
    [] i = 4 -> Inf(f, 0)  [] i = 5 -> Inf(f, 1)
    [] i = 6 -> MaxFin(f, 0) [] i = 7 -> MaxFin(f, 1)
    [] i = 12 -> RN(f, 0, 1, 1, 1 - f.p)
    [] i = 13 -> PiOf(f, 0) [] i = 14 -> Neg(f, PiOf(f, 0)) [] i = 15 -> PiOf(f, -1)
    [] i = 16 -> f.hid     [] i = 17 -> 1
    [] i = 18 -> f.w       [] i = 19 -> f.p - 1
    [] i = 20 -> f.ew      [] i = 21 -> f.sat
    [] i = 22 -> f.bias    [] i = 23 -> f.bias
    [] i = 24 -> Word(32, 1 - f.bias)
    [] i = 25 -> Word(32, f.qmin)
    [] i = 26 -> f.sign    [] i = 27 -> f.hid - 1
    [] i = 28 -> f.inf     [] i = 29 -> f.hid
    [] i = 30 -> QBit(f)
FConstOk(f, i, x) ==
  CASE i = 8  -> IsQ(f, x) /\ SignOf(f, x) = 0
    [] i = 9  -> IsNaN(f, x) /\ ~IsQ(f, x) /\ SignOf(f, x) = 0
    [] i = 10 -> IsQ(f, x) /\ SignOf(f, x) = 1
    [] i = 11 -> IsNaN(f, x) /\ ~IsQ(f, x) /\ SignOf(f, x) = 1
    [] OTHER  -> x = FConst(f, i)

ExpField(f, b) == Mag(f, b) \div f.hid
FClassOk(f, b, r) ==
  LET c == r[1] IN
  /\ Bit(c, 0) = Bool(IsNaN(f, b))
  /\ Bit(c, 1) = Bool(IsQ(f, b))
  /\ Bit(c, 2) = Bool(IsNaN(f, b) /\ ~IsQ(f, b))
  /\ Bit(c, 3) = Bool(IsInf(f, b))
  /\ Bit(c, 4) = SignOf(f, b)
  /\ Bit(c, 5) = 1 - SignOf(f, b)
  /\ ~IsZero(f, b) => Bit(c, 6) = Bool(IsSub(f, b))     \* zero counts as either
  /\ r[2] = ExpField(f, b)
  /\ r[3] = Word(32, ExpField(f, b) - f.bias)

NormalizeOk(f, m, r) ==        \* m * 2^(1 - .) = r[2] * 2^(e - .): same value, leading bit in the hidden position
  LET e == Two(32, 1, r[1]) IN e <= 1 /\ r[2] = m * 2^(1 - e) /\ BitLen(r[2]) = f.p

(****************************** Status *************************************)
\* the register after the changes coded in h, from the lowest pair of bits up
Flags == <<"none", "invalid", "divzero", "overflow", "underflow", "inexact">>
RECURSIVE After(_, _, _)
After(st, h, k) ==
  IF k = 0 THEN st
  ELSE LET fl == IF h % 2 = 0 THEN "underflow" ELSE "inexact"
       IN After(IF Bit(h, 1) = 1 THEN st \cup {fl} ELSE st \ {fl}, h \div 4, k - 1)
Initial(i) == {Flags[i + 1]} \ {"none"}
StatusOk(i, h, c) ==
  LET st == After(Initial(i), h, 8) IN
  /\ Bit(c, 0) = Bool("underflow" \in st)
  /\ Bit(c, 1) = Bool("overflow" \in st)
  /\ Bit(c, 2) = Bool("inexact" \in st)
  /\ Bit(c, 3) = Bool(st = Initial(i))
  /\ Bit(c, 4) = Bool(st = {})

(******************************* Integers **********************************)
RECURSIVE Ones(_)
Ones(x) == IF x = 0 THEN 0 ELSE (x % 2) + Ones(x \div 2)
IConst(w, s, i) == CASE i = 0 -> 0 [] i = 1 -> 1 [] i = 2 -> Word(w, Lo(w, s)) [] i = 3 -> Word(w, Hi(w, s))
                     [] i = 4 -> w [] i = 5 -> s

IntOk(o, w, s, a, r) ==
  LET x == Two(w, s, a[1])
      y == Two(w, s, a[2])
      k == a[2] % w
      Exact(v)   == r[1] = Word(w, v)
      Checked(v) == IF Fits(w, s, v) THEN r[1] = 1 /\ r[2] = Word(w, v) ELSE r[1] = 0
      Over(v)    == r[1] = Word(w, v) /\ r[2] = Bool(~Fits(w, s, v))
  IN CASE o = "iconst" -> r[1] = IConst(w, s, a[1])
       [] o = "isign"  -> r[1] = a[1] /\ r[2] = a[1] /\ r[3] = a[1]
       [] o = "ibool"  -> r[1] = a[1]
       [] o = "izero"  -> r[1] = Bool(a[1] = 0)
       [] o = "icadd"  -> Checked(x + y)
       [] o = "icsub"  -> Checked(x - y)
       [] o = "ioadd"  -> Over(x + y)
       [] o = "iosub"  -> Over(x - y)
       [] o = "icarry" -> Over(x + y + a[3])
       [] o = "iborrow" -> Over(x - y - a[3])
       [] o = "iwneg"  -> Exact(-x)
       [] o = "iwadd"  -> Exact(x + y)
       [] o = "iwsub"  -> Exact(x - y)
       [] o = "iwmul"  -> Exact(x * y)
       [] o = "iwshl"  -> Exact(x * 2^k)
       [] o = "iwshr"  -> Exact(x \div 2^k)
       [] o = "ilshr"  -> Exact(a[1] \div 2^k)
       [] o = "irotl"  -> r[1] = Word(w, a[1] * 2^k) + (a[1] \div 2^(w - k))
       [] o = "icount" -> /\ r[1] = w - BitLen(a[1])
                          /\ r[2] = (IF a[1] = 0 THEN w ELSE TrailingZeros(a[1]))
                          /\ r[3] = Ones(a[1])
       [] o = "ilog2"  -> r[1] = BitLen(a[1]) - 1
       [] o = "iabsdiff" -> r[1] = Abs(x - y)
       [] o \in {"iabs", "iuabs"} -> r[1] = Abs(x)

(***************************************************************************)
ConformsC32(r) ==
  LET o == r[1]
      a == r[3]
      x == r[4]
      P == r[6]
      f == Fmt(P[1])
      g == Fmt(P[2])
  IN CASE o = "fconst" -> FConstOk(f, a[1], x[1])
       [] o = "fclass" -> FClassOk(f, a[1], x)
       [] o = "fbits"  -> x[1] = a[1] /\ x[2] = a[1] /\ x[3] = a[1] % f.hid
       [] o = "frombits" -> x[1] = a[1]
       [] o = "fromparts" -> x[1] = Signed(f, a[1], (a[2] % 2^f.ew) * f.hid + (a[3] % f.hid))
       [] o = "feq" -> /\ Bit(x[1], 0) = Bool(a[1] = a[2])
                       /\ Bit(x[1], 1) = Bool(a[1] = a[2] \/ (IsNaN(f, a[1]) /\ IsNaN(f, a[2])))
       [] o = "fabs" -> x[1] = Mag(f, a[1])
       [] o = "copysign" -> x[1] = Signed(f, SignOf(f, a[2]), Mag(f, a[1]))
       [] o = "signum" -> x[1] = IF IsNaN(f, a[1]) THEN a[1] ELSE Signed(f, SignOf(f, a[1]), One(f))
       [] o = "canon" -> Same(f, IF IsNaN(f, a[1]) THEN NaN ELSE a[1], x[1])
       [] o = "fma" -> Same(f, Fma(f, a[1], a[2], a[3]), x[1])
       [] o = "normalize" -> NormalizeOk(f, a[1], x)
       [] o = "conv" -> Same(g, Convert(f, g, a[1]), x[1]) /\ SignOf(f, a[1]) = SignOf(g, x[1])
       [] o \in {"cast", "castx"} -> LET v == Word(P[3], Two(P[1], P[2], a[1])) IN x[1] = v /\ x[2] = v
       [] o = "fcast" -> LET v == IntToFloat(g, Two(P[1], 1, a[1])) IN x[1] = v /\ x[2] = v
       [] o = "divceil" -> x[1] = (a[1] + a[2] - 1) \div a[2]
       [] o = "ushr" -> x[1] = IF a[2] >= 64 THEN 0 ELSE a[1] \div 2^a[2]
       [] o = "udiv" -> LET p == Two(P[1], 1, a[1])
                            q == Two(P[1], 1, a[2])
                            m == Abs(p) \div Abs(q)
                        IN x[1] = Word(P[1], IF (p < 0) = (q < 0) THEN m ELSE -m)
       [] o = "status" -> StatusOk(a[1], a[2], x[1])
       [] o = "status0" -> /\ Bit(x[1], 0) = Bool(a[1] = 4) /\ Bit(x[1], 1) = Bool(a[1] = 3)
                           /\ Bit(x[1], 2) = Bool(a[1] = 5) /\ Bit(x[1], 3) = Bool(a[1] = 0)
       [] OTHER -> IntOk(o, P[1], P[2], a, x)
=============================================================================
