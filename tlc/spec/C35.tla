-------------------------------- MODULE C35 --------------------------------
(***************************************************************************)
(* Calls of the routines written in Hexagon assembly, executed on the      *)
(* specification of the processor.  HexCode is made from the assembly.     *)
(*                                                                         *)
(* Records: kind:parameters name entry arguments > 0                       *)
(*   idiv:width:signed:what a b     quotient, remainder (1) or both (2)    *)
(*   df:rounding:operation a b c    double precision                       *)
(*   sf:rounding:operation a b      single precision                       *)
(*   copy:kind to from n            bytes (0, 1) or words (2)              *)
(*   save:lo:hi:down                registers stored below the frame       *)
(*   restore:lo:hi:down:tail        and loaded, the frame dropped          *)
(*   cache start end (instruction address)*    what __clear_cache did      *)
(*   qd:operation a b, ld:operation ma ea mb eb    scaled fractions        *)
(***************************************************************************)
EXTENDS Execute, Hexagon, HexCode, Exact

(************************* Calling *****************************************)
Fill(k) == (k * 40503 + 12289) * 69069 % W32                 \* what registers and memory hold before the call
Stack(words) == MemBase + 4 * words - 128                     \* lies in the last words of the memory
Before(entry, rm, words) ==
  [r |-> [k \in 1..32 |-> CASE k = 30 -> Stack(words) [] k = 31 -> Stack(words) + 16 [] k = 32 -> ReturnAddress [] OTHER -> Fill(k)],
   p |-> <<255, 0, 255, 0>>, usr |-> rm * 2^22, l0 |-> <<1, 7>>, l1 |-> <<1, 9>>,
   m |-> [k \in 1..words |-> Fill(k + 100)], pc |-> entry, out |-> ""]
Arg(s, k, v) == [s EXCEPT !.r[k + 1] = v]
ArgD(s, k, v) == [s EXCEPT !.r[k + 1] = Lo(v), !.r[k + 2] = Hi(v)]
Fuel == 4000

\* what a routine must leave alone: saved registers, stack, mode of rounding
Saved == {17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 30, 31}
MemoryKept(s, t, from) == \A k \in Slot(from)..Len(s.m) : s.m[k] = t.m[k]
Kept(s, t) == /\ \A k \in Saved : s.r[k] = t.r[k]
              /\ Mode(s) = Mode(t)
Finish(t, ok) == IF t.out = "ret" THEN (IF ok THEN "ok" ELSE "wrong result") ELSE t.out
Plain(s, t, ok) == Finish(t, Kept(s, t) /\ MemoryKept(s, t, s.r[30]) /\ ok)

(************************* Integer division ********************************)
TruncDiv(a, b) == IF (a < 0) = (b < 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))
TruncRem(a, b) == a - b * TruncDiv(a, b)
IDiv(entry, w, signed, what, a0, b0) ==
  LET a == IF signed = 1 THEN SExt(a0, w) ELSE a0
      b == IF signed = 1 THEN SExt(b0, w) ELSE b0
      s0 == Before(entry, 0, 64)
      s == IF w = 32 THEN Arg(Arg(s0, 0, a0), 1, b0) ELSE ArgD(ArgD(s0, 0, a0), 2, b0)
      t == Run(s, Code, Fuel)
      x == IF w = 32 THEN t.r[1] ELSE Pr(t, 0)
      y == IF w = 32 THEN t.r[2] ELSE Pr(t, 2)
      q == TruncDiv(a, b) % 2^w
      r == TruncRem(a, b) % 2^w
  IN Plain(s, t, CASE what = 0 -> x = q [] what = 1 -> x = r [] OTHER -> x = q /\ y = r)

(************************* Floating point **********************************)
ModeName(rm) == CASE rm = 0 -> "N" [] rm = 1 -> "Z" [] rm = 2 -> "D" [] OTHER -> "U"
MulM(f, mode, a, b) ==
  LET s == XorSign(f, a, b) IN
  CASE IsNaN(f, a) \/ IsNaN(f, b) -> NaN
    [] IsInf(f, a) \/ IsInf(f, b) -> IF IsZero(f, a) \/ IsZero(f, b) THEN NaN ELSE Inf(f, s)
    [] IsZero(f, a) \/ IsZero(f, b) -> Zero(f, s)
    [] OTHER -> RoundRat(f, mode, s, Sig(f, a) * Sig(f, b), 1, Expo(f, a) + Expo(f, b))
DivM(f, mode, a, b) ==
  LET s == XorSign(f, a, b) IN
  CASE IsNaN(f, a) \/ IsNaN(f, b) -> NaN
    [] IsInf(f, a) -> IF IsInf(f, b) THEN NaN ELSE Inf(f, s)
    [] IsInf(f, b) -> Zero(f, s)
    [] IsZero(f, b) -> IF IsZero(f, a) THEN NaN ELSE Inf(f, s)
    [] IsZero(f, a) -> Zero(f, s)
    [] OTHER -> RoundRat(f, mode, s, Sig(f, a), Sig(f, b), Expo(f, a) - Expo(f, b))
\* the root truncated to 2 p bits with what is left kept in the last one
SqrtM(f, mode, a) ==
  IF mode = "N" \/ ~IsFin(f, a) \/ SignOf(f, a) = 1 \/ IsZero(f, a) THEN Sqrt(f, a)
  ELSE LET q == Expo(f, a)
           k == 2 * f.p + (IF (q % 2) = 0 THEN 0 ELSE 1)
           n == Shift(Sig(f, a), k)
           r == ISqrt(n)
           st == IF r * r = n THEN 0 ELSE 1
       IN RoundRat(f, mode, 0, 2 * r + st, 1, ((q - k) \div 2) - 1)
\* of a number and a NaN the number; the smaller zero is the negative one
MinMax(f, max, a, b) ==
  CASE IsNaN(f, a) /\ IsNaN(f, b) -> NaN
    [] IsNaN(f, a) -> b
    [] IsNaN(f, b) -> a
    [] IsZero(f, a) /\ IsZero(f, b) -> IF (SignOf(f, a) = 1) = (SignOf(f, b) = 1) THEN a ELSE Zero(f, IF max THEN 0 ELSE 1)
    [] OTHER -> IF (Ord(f, a) < Ord(f, b)) # max THEN a ELSE b
\* 0 sum, 1 difference, 2 product, 3 quotient, 4 a * b + c, 5 root, 6 smaller, 7 larger
FpWants(f, m, o, a, b, c) ==
  CASE o = 0 -> FmaX(f, m, a, One(f), b).bits
    [] o = 1 -> IF IsNaN(f, b) THEN NaN ELSE FmaX(f, m, a, One(f), Neg(f, b)).bits
    [] o = 2 -> MulM(f, m, a, b)
    [] o = 3 -> DivM(f, m, a, b)
    [] o = 4 -> FmaX(f, m, a, b, c).bits
    [] o = 5 -> SqrtM(f, m, a)
    [] o = 6 -> MinMax(f, FALSE, a, b)
    [] o = 7 -> MinMax(f, TRUE, a, b)
DoubleOp(entry, rm, o, v) ==
  LET s0 == Before(entry, rm, 96)
      b == IF Len(v) > 1 THEN v[2] ELSE Fill(7)
      c == IF Len(v) > 2 THEN v[3] ELSE Fill(8)
      s == ArgD(ArgD(ArgD(s0, 0, v[1]), 2, b), 4, c)
      t == Run(s, Code, Fuel)
  IN Plain(s, t, Same(F64, FpWants(F64, ModeName(rm), o, v[1], b, c), Pr(t, 0)))
SingleOp(entry, rm, o, v) ==
  LET s0 == Before(entry, rm, 96)
      b == IF Len(v) > 1 THEN v[2] ELSE Fill(7)
      s == Arg(Arg(s0, 0, v[1]), 1, b)
      t == Run(s, Code, Fuel)
  IN Plain(s, t, Same(F32, FpWants(F32, ModeName(rm), o, v[1], b, 0), t.r[1]))

(************************* Copies ******************************************)
Copy(entry, kind, to, from, n) ==
  LET bytes == IF kind = 2 THEN 4 * n ELSE n
      s0 == Before(entry, 0, ((IF to > from THEN to ELSE from) + bytes + 160) \div 4)
      s == Arg(Arg(Arg(s0, 0, MemBase + to), 1, MemBase + from), 2, n)
      t == Run(s, Code, Fuel)
      Want(k) == IF k > to \div 4 /\ k <= (to + bytes) \div 4 THEN s.m[k - (to \div 4) + (from \div 4)] ELSE s.m[k]
  IN IF kind = 0 /\ (to % 8 # 0 \/ from % 8 # 0)
     THEN IF t.out = "memcpy" THEN (IF \A k \in {1, 2, 3, 32} \cup Saved : t.r[k] = s.r[k] THEN "ok" ELSE "memcpy called with other arguments")
          ELSE IF t.out = "ret" THEN "no copy" ELSE t.out
     ELSE Finish(t, /\ Kept(s, t)
                    /\ \A k \in 1..Len(s.m) : t.m[k] = Want(k)
                    /\ kind # 2 => t.r[1] = s.r[1])

(************************* Register save and restore ***********************)
\* r17:16 next to the frame pointer and the others below it, or, downwards, r27:26 first
Place(fp, k, lo, down) == IF down = 1 THEN fp - 8 * (((26 - k) \div 2) + 1) ELSE fp - 8 * (((k - lo) \div 2) + 1)
Pairs(lo, hi) == {k \in 16..26 : k % 2 = 0 /\ k >= lo /\ k < hi}
Passed == {1, 2, 3, 4, 5, 6}
SaveRegs(entry, lo, hi, down) ==
  LET s0 == Before(entry, 0, 64)
      fp == MemBase + 128
      s == [s0 EXCEPT !.r[31] = fp, !.r[30] = fp - 64]
      t == Run(s, Code, Fuel)
      in == {Slot(Place(fp, k, lo, down)) : k \in Pairs(lo, hi)}
  IN Finish(t, /\ \A k \in Passed \cup Saved \cup {32} : t.r[k] = s.r[k]
               /\ \A k \in Pairs(lo, hi) : Double(t, Place(fp, k, lo, down)) = Pr(s, k)
               /\ \A x \in 1..Len(s.m) : x \in in \/ (x - 1) \in in \/ t.m[x] = s.m[x])
RestoreRegs(entry, lo, hi, down, tail) ==
  LET s0 == Before(entry, 0, 64)
      fp == MemBase + 128
      s == [s0 EXCEPT !.r[31] = fp, !.r[30] = fp - 64,
                      !.r[32] = IF tail = 1 THEN ReturnAddress ELSE Fill(1),
                      !.m[Slot(fp) + 1] = IF tail = 1 THEN Fill(2) ELSE ReturnAddress]
      t == Run(s, Code, Fuel)
  IN Finish(t, /\ \A k \in Passed : t.r[k] = s.r[k]
               /\ \A k \in {x \in 16..26 : x % 2 = 0} : Pr(t, k) = IF k \in Pairs(lo, hi) THEN Double(s, Place(fp, k, lo, down)) ELSE Pr(s, k)
               /\ t.r[30] = fp + 8 /\ t.r[31] = Word(s, fp) /\ t.r[32] = Word(s, fp + 4)
               /\ t.m = s.m)

(************************* Scaled fractions ********************************)
\* A fraction (64 bits, the binary point after the sign) times a power of two.  qd: the exponent takes the place of the
\* fraction's last 16 bits; ld: it follows in memory.  Results agree with the exact ones up to the last places.
QMan(x) == S64(x - (x % 65536))
QExp(x) == SExt(x, 16)
\* |m 2^e - x 2^q| <= 2^b1 + 2^b2, for exact x 2^q
Near(m, e, x, q, b1, b2) ==
  LET z == Min(Min(e, q), Min(b1, b2))
  IN Abs(m * 2^(e - z) - x * 2^(q - z)) <= 2^(b1 - z) + 2^(b2 - z)
Normal(m, low) == m = 0 \/ (m >= 2^62 \/ m <= -(2^62) + low)
ExactOf(o, ma, ea, mb, eb) ==
  CASE o = 2 -> <<ma * mb, ea + eb - 126>>
    [] ma = 0 -> <<IF o = 1 THEN -mb ELSE mb, eb - 63>>
    [] mb = 0 -> <<ma, ea - 63>>
    [] OTHER -> DySum(ma, ea - 63, IF o = 1 THEN -mb ELSE mb, eb - 63)
Fraction(o, ma, ea, mb, eb, m, e, low) ==
  LET x == ExactOf(o, ma, ea, mb, eb)
      top == IF o = 2 THEN ea + eb ELSE IF ma = 0 THEN eb ELSE IF mb = 0 THEN ea ELSE Max(ea, eb)
  IN IF x[1] = 0 THEN m = 0
     ELSE IF m = 0 THEN Abs(x[1]) * 2^(x[2] - Min(x[2], top - 62)) <= 2^(top - 56 - Min(x[2], top - 62))
     ELSE Normal(m, 2^low) /\ Near(m, e - 63, x[1], x[2], top - 60, e - 63 + low)
Qd(entry, o, v) ==
  LET s0 == Before(entry, 0, 64)
      s == IF o = 4 THEN Arg(s0, 0, v[1]) ELSE IF o = 3 THEN ArgD(s0, 0, v[1]) ELSE ArgD(ArgD(s0, 0, v[1]), 2, v[2])
      t == Run(s, Code, Fuel)
      z == Pr(t, 0)
      f == t.r[1]
  IN Plain(s, t,
       CASE o = 3 -> \* to single precision, within one unit in the last place; too small gives zero
                     IF QExp(v[1]) < -126 THEN f = 0
                     ELSE IF QExp(v[1]) = -126 THEN Mag(F32, f) <= F32.hid              \* the value is subnormal
                     ELSE /\ IsFin(F32, f)
                          /\ Near(SSig(F32, f), Expo(F32, f), QMan(v[1]), QExp(v[1]) - 63, QExp(v[1]) - 24, QExp(v[1]) - 48)
         [] o = 4 -> \* from single precision: exact
                     IF IsZero(F32, v[1]) THEN z % 65536 = 32769 /\ QMan(z) = 0
                     ELSE QMan(z) * 2^200 = SSig(F32, v[1]) * 2^(263 + Expo(F32, v[1]) - QExp(z))
         [] OTHER -> Fraction(o, QMan(v[1]), QExp(v[1]), QMan(v[2]), QExp(v[2]), QMan(z), QExp(z), 17))
Ld(entry, o, v) ==
  LET s0 == Before(entry, 0, 64)
      sp == MemBase + 64
      at == Slot(sp)
      s == Arg([s0 EXCEPT !.r[30] = sp,
                          !.m = [k \in DOMAIN s0.m |-> CASE k = at -> Lo(v[1]) [] k = at + 1 -> Hi(v[1]) [] k = at + 2 -> v[2]
                                                         [] k = at + 4 -> Lo(v[3]) [] k = at + 5 -> Hi(v[3]) [] k = at + 6 -> v[4]
                                                         [] OTHER -> s0.m[k]]], 0, MemBase + 160)
      t == Run(s, Code, Fuel)
      to == Slot(MemBase + 160)
  IN Finish(t, /\ Kept(s, t)
               /\ \A k \in at..Len(s.m) : k \in to..(to + 2) \/ t.m[k] = s.m[k]
               /\ Fraction(o, S64(v[1]), S32(v[2]), S64(v[3]), S32(v[4]), S64(Double(t, MemBase + 160)), S32(t.m[to + 2]), 2))

(************************* Caches ******************************************)
\* Every line with a byte of start..end-1 is written back from the data cache (1, 4), afterwards dropped from the
\* instruction cache (2), and a synchronisation (3) comes after all of that.
CacheLine == 32
Clear(v) ==
  LET n == (Len(v) - 2) \div 2
      Kind(k) == v[2 * k + 1]
      first == v[1] \div CacheLine
      LineOf(k) == v[2 * k + 2] \div CacheLine - first
      lines == IF v[2] > v[1] THEN 0..((v[2] - 1) \div CacheLine - first) ELSE {}
  IN IF \E k \in 1..n : Kind(k) = 0 THEN "stopped, or another instruction"
     ELSE IF \A l \in lines : \E d \in 1..n : /\ Kind(d) \in {1, 4} /\ LineOf(d) = l
                                             /\ \E i \in (d + 1)..n : /\ Kind(i) = 2 /\ LineOf(i) = l
                                                                      /\ \E y \in (i + 1)..n : Kind(y) = 3
          THEN "ok" ELSE "a line is left out"

OutcomeC35(r) ==
  LET op == r[1]
      n == r[6]
      e == r[3][1]
      v == Tail(r[3])
  IN CASE op = "idiv" -> IDiv(e, n[1], n[2], n[3], v[1], v[2])
       [] op = "df" -> DoubleOp(e, n[1], n[2], v)
       [] op = "sf" -> SingleOp(e, n[1], n[2], v)
       [] op = "copy" -> Copy(e, n[1], v[1], v[2], v[3])
       [] op = "save" -> SaveRegs(e, n[1], n[2], n[3])
       [] op = "restore" -> RestoreRegs(e, n[1], n[2], n[3], n[4])
       [] op = "qd" -> Qd(e, n[1], v)
       [] op = "ld" -> Ld(e, n[1], v)
       [] op = "cache" -> Clear(v)
       [] OTHER -> "no such kind"
=============================================================================
