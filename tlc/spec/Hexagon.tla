------------------------------ MODULE Hexagon ------------------------------
(***************************************************************************)
(* The part of the Hexagon instruction set the run-time routines use.      *)
(* Code is a sequence of packets; the instructions of a packet read the    *)
(* registers as they were before it and write together.  A predicate       *)
(* written more than once in a packet is the conjunction of what is        *)
(* written; ".new" refers to what the packet itself produces.              *)
(*                                                                         *)
(* packet: [i |-> instructions, e |-> loops ending here (1, 2 or 3),       *)
(*          w |-> for each predicate the instructions that compute it]     *)
(* instruction: [k |-> kind, t |-> text with operands abstracted,          *)
(*          a |-> operands, g |-> <<>> or <<predicate, negated, new>>]     *)
(* Operands in the text: D pair, R register, P predicate, N register       *)
(* produced in the packet (operand: the instruction), # immediate,         *)
(* @ packet.                                                               *)
(* state: [r, p, usr, l0, l1 (<<first packet, count>>), m (words of        *)
(*         memory)        , pc, out]                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, IEEE

W32 == 2^32
W64 == 2^64
Lo(x) == x % W32
Hi(x) == x \div W32
S32(x) == IF x >= 2^31 THEN x - W32 ELSE x
S64(x) == IF x >= 2^63 THEN x - W64 ELSE x
SExt(x, n) == LET y == x % 2^n IN IF n > 0 /\ y >= 2^(n - 1) THEN y - 2^n ELSE y
Amount(x) == SExt(x, 7)                       \* of a shift by a register, either direction
Shl(x, n) == Shift(x, n)                      \* floors: arithmetic for negative x
Bit(x, n) == Shift(x, -n) % 2
Lead0(x, n) == n - BitLen(x)
LeadB(x, n) == IF x >= 2^(n - 1) THEN Lead0(2^n - 1 - x, n) ELSE Lead0(x, n)
Put0(x, y, w, o) == LET f == Shift(2^w - 1, o) IN (x - BitAnd(x, f)) + Shift(y % 2^w, o)      \* insert
Sat32(x) == IF x > 2^31 - 1 THEN 2^31 - 1 ELSE IF x < -(2^31) THEN -(2^31) ELSE x
Halves(F(_, _), x, y) ==
  LET h(v, k) == SExt(Shift(v, -16 * k), 16)
      z(k) == Shift(F(h(x, k), h(y, k)) % 65536, 16 * k)
  IN z(0) + z(1) + z(2) + z(3)

(************************* Floating point **********************************)
Mode(s) == CASE Bit(s.usr, 22) + 2 * Bit(s.usr, 23) = 0 -> "N" [] Bit(s.usr, 22) + 2 * Bit(s.usr, 23) = 1 -> "Z"
             [] Bit(s.usr, 22) + 2 * Bit(s.usr, 23) = 2 -> "D" [] OTHER -> "U"
AllOnes(f) == 2^f.w - 1
Datum(f, x) == IF x = NaN THEN AllOnes(f) ELSE x
Class(f, b) == CASE IsNaN(f, b) -> 16 [] IsInf(f, b) -> 8 [] IsZero(f, b) -> 1 [] IsSub(f, b) -> 4 [] OTHER -> 2
InClass(f, b, set) == BitAnd(Class(f, b), set) # 0
ConvertM(f, g, mode, a) == CASE IsNaN(f, a) -> NaN [] IsInf(f, a) -> Inf(g, SignOf(f, a))
                             [] OTHER -> RoundRat(g, mode, SignOf(f, a), Sig(f, a), 1, Expo(f, a))
FExp(b) == Shift(b, -23) % 256
Scale(b, n) == IF IsZero(F32, b) THEN b ELSE RoundRat(F32, "N", SignOf(F32, b), Sig(F32, b), 1, Expo(F32, b) + n)
\* (a * b + c) * 2^n, rounded once; a zero c is kept when the product is a true zero
FmaScaled(mode, a, b, c, n) ==
  LET zp == (IsZero(F32, a) /\ ~IsInf(F32, b) /\ ~IsNaN(F32, b)) \/ (IsZero(F32, b) /\ ~IsInf(F32, a) /\ ~IsNaN(F32, a))
      special == ~(IsFin(F32, a) /\ IsFin(F32, b) /\ IsFin(F32, c))
  IN IF zp /\ IsZero(F32, c) THEN c
     ELSE IF special THEN FmaX(F32, mode, a, b, c).bits
     ELSE LET pr == Sig(F32, a) * Sig(F32, b)
              z == DySum(IF XorSign(F32, a, b) = 1 THEN -pr ELSE pr, Expo(F32, a) + Expo(F32, b), SSig(F32, c), Expo(F32, c))
          IN RoundInt(F32, mode, z[1], z[2] + n, IF mode = "D" THEN 1 ELSE 0)
\* the variants for libraries: to nearest, an overflow stops at the largest finite number, infinity minus infinity is zero
FmaLib(a, b, c) ==
  LET in == IsInf(F32, a) \/ IsInf(F32, b) \/ IsInf(F32, c)
      clash == IsInf(F32, c) /\ (IsInf(F32, a) \/ IsInf(F32, b)) /\ XorSign(F32, a, b) # SignOf(F32, c)
      x == Datum(F32, FmaScaled("N", a, b, c, 0))
  IN IF clash THEN 0 ELSE IF IsInf(F32, x) /\ ~in THEN x - 1 ELSE x
\* Reciprocal and reciprocal square root: operands brought into range, what is left to scale, and a first approximation
\* that is good to eight bits.
RecipPrep(n, d) ==
  LET s == XorSign(F32, n, d)
      one == One(F32)
      R(a, b, q, e) == [n |-> a, d |-> b, q |-> q, p |-> e]
      bad == R(AllOnes(F32), AllOnes(F32), AllOnes(F32), 0)
      ne == FExp(n)
      de == FExp(d)
      diff == ne - de + 127
      seed(b) == LET i == Shift(b, -16) % 128
                     t == IF i = 127 THEN 0 ELSE IF i = 112 THEN 17 ELSE (262144 + (2 * i + 257)) \div (2 * (2 * i + 257)) - 256
                 IN Signed(F32, SignOf(F32, b), (253 - FExp(b)) * 2^23 + t * 2^15 + 1)
      G(kn, kd, e) == R(Scale(n, kn), Scale(d, kd), seed(Scale(d, kd)), e)
  IN CASE IsNaN(F32, n) \/ IsNaN(F32, d) -> bad
       [] (IsInf(F32, n) /\ IsInf(F32, d)) \/ (IsZero(F32, n) /\ IsZero(F32, d)) -> bad
       [] IsZero(F32, d) \/ IsInf(F32, n) -> R(Inf(F32, s), one, one, 0)
       [] IsInf(F32, d) \/ IsZero(F32, n) -> R(Zero(F32, s), one, one, 0)
       [] diff <= 23 -> G(64, -64, 128)
       [] diff > 254 - 24 -> G(-32, 32, 64)
       [] ne <= 25 -> G(64, 64, 0)
       [] de <= 1 -> G(32, 32, 0)
       [] de > 252 -> G(-32, -32, 0)
       [] OTHER -> G(0, 0, 0)
InvSqrtPrep(x) ==
  LET R(a, q, e) == [x |-> a, q |-> q, p |-> e]
      seed(b) == LET i == Shift(b, -17) % 128
                     \* (2 - odd) * (1 + (i + 1/2) / 64) = num / 128, and 256 * 2 / sqrt(that) to the nearest integer
                     num == IF i < 64 THEN 2 * (128 + 2 * i + 1) ELSE 128 + 2 * (i - 64) + 1
                     root == (ISqrt(((2^20 * 128) \div num)) + 1) \div 2
                     t == root - 256
                 IN (126 - ((FExp(b) - 127) \div 2)) * 2^23 + t * 2^15
  IN CASE IsNaN(F32, x) -> R(AllOnes(F32), AllOnes(F32), 0)
       [] SignOf(F32, x) = 1 /\ ~IsZero(F32, x) -> R(AllOnes(F32), AllOnes(F32), 0)
       [] IsInf(F32, x) -> R(Inf(F32, 1), Inf(F32, 1), 0)
       [] IsZero(F32, x) -> R(x, One(F32), 0)
       [] FExp(x) <= 24 -> R(Scale(x, 64), seed(Scale(x, 64)), 224)
       [] OTHER -> R(x, seed(x), 0)

(************************* Memory ******************************************)
\* a stretch of memory, by words, in which the data and the stack lie
MemBase == 2^28
Slot(a) == ((a - MemBase) \div 4) + 1
Word(s, a) == s.m[Slot(a)]
Has(s, a) == a % 4 = 0 /\ a >= MemBase /\ Slot(a) <= Len(s.m)
HasD(s, a) == a % 8 = 0 /\ a >= MemBase /\ Slot(a) + 1 <= Len(s.m)
Double(s, a) == Word(s, a) + W32 * Word(s, a + 4)

(************************* Values computed *********************************)
Rg(s, x) == s.r[x + 1]
Pr(s, x) == s.r[x + 1] + W32 * s.r[x + 2]
Fail == -1
Unknown == 2^200                              \* no instruction computes a value of this size
NoAccess == -(2^200)

DVal(s, t, a) ==
  LET R(k) == s.r[a[k] + 1]
      D(k) == s.r[a[k] + 1] + W32 * s.r[a[k] + 2]
      SD(k) == S64(D(k))
      v == CASE t = "D = combine(R,R)" -> W32 * R(2) + R(3)
             [] t = "D = combine(#,#)" -> W32 * (a[2] % W32) + (a[3] % W32)
             [] t = "D = combine(R,#)" -> W32 * R(2) + (a[3] % W32)
             [] t = "D = combine(#,R)" -> W32 * (a[2] % W32) + R(3)
             [] t = "D = add(D,D)" -> D(2) + D(3)
             [] t = "D = sub(D,D)" -> D(2) - D(3)
             [] t = "D = neg(D)" -> -D(2)
             [] t = "D = abs(D)" -> Abs(SD(2))
             [] t = "D = and(D,D)" -> BitAnd(D(2), D(3))
             [] t = "D = or(D,D)" -> BitOr(D(2), D(3))
             [] t = "D = xor(D,D)" -> BitXor(D(2), D(3))
             [] t = "D = mpyu(R,R)" -> R(2) * R(3)
             [] t = "D += mpyu(R,R)" -> D(1) + R(2) * R(3)
             [] t = "D -= mpyu(R,R)" -> D(1) - R(2) * R(3)
             [] t = "D = mpy(R,R)" -> S32(R(2)) * S32(R(3))
             [] t = "D += mpy(R,R)" -> D(1) + S32(R(2)) * S32(R(3))
             [] t = "D = extractu(D,#,#)" -> Shift(D(2), -a[4]) % 2^(a[3])
             [] t = "D = extractu(D,D)" -> Shift(D(2), -Amount(Lo(D(3)))) % 2^(Hi(D(3)) % 64)
             [] t = "D = extract(D,D)" -> SExt(Shift(D(2), -Amount(Lo(D(3)))), Hi(D(3)) % 64)
             [] t = "D = insert(D,#,#)" -> Put0(D(1), D(2), a[3], a[4])
             [] t = "D = vmux(P,D,D)" -> IF s.p[a[2] + 1] = 255 THEN D(3) ELSE D(4)
             [] t = "D = lsr(D,#)" -> Shift(D(2), -a[3])
             [] t = "D = asr(D,#)" -> Shift(SD(2), -a[3])
             [] t = "D = asl(D,#)" -> Shift(D(2), a[3])
             [] t = "D = asl(D,R)" -> Shl(SD(2), Amount(R(3)))
             [] t = "D = asr(D,R)" -> Shl(SD(2), -Amount(R(3)))
             [] t = "D = lsl(D,R)" -> Shl(D(2), Amount(R(3)))
             [] t = "D = lsr(D,R)" -> Shl(D(2), -Amount(R(3)))
             [] t = "D += lsr(D,#)" -> D(1) + Shift(D(2), -a[3])
             [] t = "D -= lsr(D,#)" -> D(1) - Shift(D(2), -a[3])
             [] t = "D += asl(D,#)" -> D(1) + Shift(D(2), a[3])
             [] t = "D -= asl(D,#)" -> D(1) - Shift(D(2), a[3])
             [] t = "D += asr(D,#)" -> D(1) + Shift(SD(2), -a[3])
             [] t = "D += lsr(D,R)" -> D(1) + Shl(D(2), -Amount(R(3)))
             [] t = "D ^= asl(D,#)" -> BitXor(D(1), Shift(D(2), a[3]) % W64)
             [] t = "D |= asl(D,R)" -> BitOr(D(1), Shl(SD(2), Amount(R(3))) % W64)
             [] t = "D |= lsl(D,R)" -> BitOr(D(1), Shl(D(2), Amount(R(3))) % W64)
             [] t = "D |= lsr(D,R)" -> BitOr(D(1), Shl(D(2), -Amount(R(3))) % W64)
             [] t = "D = vlslw(D,R)" -> W32 * (Shl(Hi(D(2)), Amount(R(3))) % W32) + (Shl(Lo(D(2)), Amount(R(3))) % W32)
             [] t = "D = vlsrw(D,#)" -> W32 * Shift(Hi(D(2)), -a[3]) + Shift(Lo(D(2)), -a[3])
             [] t = "D = vabsdiffh(D,D)" -> LET F(x, y) == Abs(x - y) IN Halves(F, D(2), D(3))
             [] t = "D = extract(D,#,#)" -> SExt(Shift(D(2), -a[4]), a[3])
             [] t = "D = insert(D,D)" -> Put0(D(1), D(2), Hi(D(3)) % 64, Lo(D(3)) % 64)
             [] t = "D = not(D)" -> W64 - 1 - D(2)
             [] t = "D = and(D,~D)" -> BitAnd(D(2), W64 - 1 - D(3))
             [] t = "D = or(D,~D)" -> BitOr(D(2), W64 - 1 - D(3))
             [] t = "D = min(D,D)" -> Min(SD(2), SD(3))
             [] t = "D = max(D,D)" -> Max(SD(2), SD(3))
             [] t = "D = minu(D,D)" -> Min(D(2), D(3))
             [] t = "D = maxu(D,D)" -> Max(D(2), D(3))
             [] t = "D = sxtw(R)" -> S32(R(2))
             [] t = "D -= mpy(R,R)" -> D(1) - S32(R(2)) * S32(R(3))
             [] t = "D -= asr(D,#)" -> D(1) - Shift(SD(2), -a[3])
             [] t = "D += asl(D,R)" -> D(1) + Shl(SD(2), Amount(R(3)))
             [] t = "D -= asl(D,R)" -> D(1) - Shl(SD(2), Amount(R(3)))
             [] t = "D -= lsr(D,R)" -> D(1) - Shl(D(2), -Amount(R(3)))
             [] t = "D |= asl(D,#)" -> BitOr(D(1), Shift(D(2), a[3]) % W64)
             [] t = "D |= lsr(D,#)" -> BitOr(D(1), Shift(D(2), -a[3]))
             [] t = "D &= asl(D,#)" -> BitAnd(D(1), Shift(D(2), a[3]) % W64)
             [] t = "D &= lsr(D,#)" -> BitAnd(D(1), Shift(D(2), -a[3]))
             [] t = "D ^= lsr(D,#)" -> BitXor(D(1), Shift(D(2), -a[3]))
             [] t = "D ^= xor(D,D)" -> BitXor(D(1), BitXor(D(2), D(3)))
             [] t = "D = vlsrw(D,R)" -> W32 * (Shl(Hi(D(2)), -Amount(R(3))) % W32) + (Shl(Lo(D(2)), -Amount(R(3))) % W32)
             [] t = "D = vaslw(D,#)" -> W32 * (Shift(Hi(D(2)), a[3]) % W32) + (Shift(Lo(D(2)), a[3]) % W32)
             [] t = "D = vaddw(D,D)" -> W32 * ((Hi(D(2)) + Hi(D(3))) % W32) + ((Lo(D(2)) + Lo(D(3))) % W32)
             [] t = "D = vsubw(D,D)" -> W32 * ((Hi(D(2)) - Hi(D(3))) % W32) + ((Lo(D(2)) - Lo(D(3))) % W32)
             [] t = "D = convert_d2df(D)" -> RoundInt(F64, Mode(s), SD(2), 0, 0)
             [] t = "D = convert_ud2df(D)" -> RoundInt(F64, Mode(s), D(2), 0, 0)
             [] t = "D = convert_sf2df(R)" -> Datum(F64, Convert(F32, F64, R(2)))
             [] t = "D = memd(R+#)" -> LET x == (R(2) + a[3]) % W32 IN IF HasD(s, x) THEN Double(s, x) ELSE NoAccess
             [] t = "D = memd(R++#)" -> IF HasD(s, R(2)) THEN Double(s, R(2)) ELSE NoAccess
             [] OTHER -> Unknown
  IN IF v = Unknown THEN Fail ELSE IF v = NoAccess THEN Fail - 1 ELSE v % W64

RVal(s, t, a) ==
  LET R(k) == s.r[a[k] + 1]
      D(k) == s.r[a[k] + 1] + W32 * s.r[a[k] + 2]
      SR(k) == S32(R(k))
      v == CASE t = "R = #" -> a[2]
             [] t = "R = R" -> R(2)
             [] t = "R = add(R,#)" -> R(2) + a[3]
             [] t = "R = add(R,R)" -> R(2) + R(3)
             [] t = "R = sub(R,R)" -> R(2) - R(3)
             [] t = "R = sub(#,R)" -> a[2] - R(3)
             [] t = "R = sub(R,R):sat" -> Sat32(SR(2) - SR(3))
             [] t = "R = or(R,R)" -> BitOr(R(2), R(3))
             [] t = "R = and(R,R)" -> BitAnd(R(2), R(3))
             [] t = "R = xor(R,R)" -> BitXor(R(2), R(3))
             [] t = "R = or(R,#)" -> BitOr(R(2), a[3] % W32)
             [] t = "R = and(R,#)" -> BitAnd(R(2), a[3] % W32)
             [] t = "R = extractu(R,#,#)" -> Shift(R(2), -a[4]) % 2^(a[3])
             [] t = "R = extract(R,#,#)" -> SExt(Shift(R(2), -a[4]), a[3])
             [] t = "R = insert(R,#,#)" -> Put0(R(1), R(2), a[3], a[4])
             [] t = "R += asl(R,#)" -> R(1) + Shift(R(2), a[3])
             [] t = "R -= asl(R,#)" -> R(1) - Shift(R(2), a[3])
             [] t = "R &= asl(R,#)" -> BitAnd(R(1), Shift(R(2), a[3]) % W32)
             [] t = "R ^= asl(R,#)" -> BitXor(R(1), Shift(R(2), a[3]) % W32)
             [] t = "R ^= lsr(R,#)" -> BitXor(R(1), Shift(R(2), -a[3]))
             [] t = "R += lsr(R,#)" -> R(1) + Shift(R(2), -a[3])
             [] t = "R += add(R,#)" -> R(1) + R(2) + a[3]
             [] t = "R -= add(R,#)" -> R(1) - (R(2) + a[3])
             [] t = "R += add(R,R)" -> R(1) + R(2) + R(3)
             [] t = "R = min(R,R)" -> Min(SR(2), SR(3))
             [] t = "R = minu(R,R)" -> Min(R(2), R(3))
             [] t = "R = abs(R)" -> Abs(SR(2))
             [] t = "R = abs(R):sat" -> Sat32(Abs(SR(2)))
             [] t = "R = asl(R,#)" -> Shift(R(2), a[3])
             [] t = "R = asr(R,#)" -> Shift(SR(2), -a[3])
             [] t = "R = lsr(R,#)" -> Shift(R(2), -a[3])
             [] t = "R = asl(R,R)" -> Shl(SR(2), Amount(R(3)))
             [] t = "R = lsl(R,R)" -> Shl(R(2), Amount(R(3)))
             [] t = "R = mux(P,#,#)" -> IF s.p[a[2] + 1] % 2 = 1 THEN a[3] ELSE a[4]
             [] t = "R = cl0(R)" -> Lead0(R(2), 32)
             [] t = "R = cl0(D)" -> Lead0(D(2), 64)
             [] t = "R = clb(D)" -> LeadB(D(2), 64)
             [] t = "R = add(clb(D),#)" -> LeadB(D(2), 64) + a[3]
             [] t = "R = setbit(R,#)" -> BitOr(R(2), 2^(a[3]))
             [] t = "R = togglebit(R,#)" -> BitXor(R(2), 2^(a[3]))
             [] t = "R = sxth(R)" -> SExt(R(2), 16)
             [] t = "R = zxth(R)" -> R(2) % 65536
             [] t = "R.h = #" -> (R(1) % 65536) + 65536 * (a[2] % 65536)
             [] t = "R.l = #" -> R(1) - (R(1) % 65536) + (a[2] % 65536)
             [] t = "R = neg(R)" -> -R(2)
             [] t = "R = not(R)" -> W32 - 1 - R(2)
             [] t = "R = sub(R,#)" -> R(2) - a[3]
             [] t = "R = and(R,~R)" -> BitAnd(R(2), W32 - 1 - R(3))
             [] t = "R = or(R,~R)" -> BitOr(R(2), W32 - 1 - R(3))
             [] t = "R = max(R,R)" -> Max(SR(2), SR(3))
             [] t = "R = maxu(R,R)" -> Max(R(2), R(3))
             [] t = "R = asr(R,R)" -> Shl(SR(2), -Amount(R(3)))
             [] t = "R = lsr(R,R)" -> Shl(R(2), -Amount(R(3)))
             [] t = "R = mpyi(R,R)" -> R(2) * R(3)
             [] t = "R = mpyi(R,#)" -> R(2) * a[3]
             [] t = "R += mpyi(R,R)" -> R(1) + R(2) * R(3)
             [] t = "R += mpyi(R,#)" -> R(1) + R(2) * a[3]
             [] t = "R -= mpyi(R,R)" -> R(1) - R(2) * R(3)
             [] t = "R = mpyu(R,R)" -> (R(2) * R(3)) \div W32
             [] t = "R = mux(P,R,R)" -> IF s.p[a[2] + 1] % 2 = 1 THEN R(3) ELSE R(4)
             [] t = "R = mux(P,R,#)" -> IF s.p[a[2] + 1] % 2 = 1 THEN R(3) ELSE a[4]
             [] t = "R = mux(P,#,R)" -> IF s.p[a[2] + 1] % 2 = 1 THEN a[3] ELSE R(4)
             [] t = "R = clrbit(R,#)" -> R(2) - BitAnd(R(2), 2^(a[3]))
             [] t = "R = clb(R)" -> LeadB(R(2), 32)
             [] t = "R = cl1(R)" -> Lead0(W32 - 1 - R(2), 32)
             [] t = "R = sxtb(R)" -> SExt(R(2), 8)
             [] t = "R = zxtb(R)" -> R(2) % 256
             [] t = "R -= lsr(R,#)" -> R(1) - Shift(R(2), -a[3])
             [] t = "R += asr(R,#)" -> R(1) + Shift(SR(2), -a[3])
             [] t = "R -= asr(R,#)" -> R(1) - Shift(SR(2), -a[3])
             [] t = "R |= asl(R,#)" -> BitOr(R(1), Shift(R(2), a[3]) % W32)
             [] t = "R |= lsr(R,#)" -> BitOr(R(1), Shift(R(2), -a[3]))
             [] t = "R &= lsr(R,#)" -> BitAnd(R(1), Shift(R(2), -a[3]))
             [] t = "R |= and(R,R)" -> BitOr(R(1), BitAnd(R(2), R(3)))
             [] t = "R |= and(R,#)" -> BitOr(R(1), BitAnd(R(2), a[3] % W32))
             [] t = "R |= or(R,#)" -> BitOr(R(1), BitOr(R(2), a[3] % W32))
             [] t = "R &= and(R,R)" -> BitAnd(R(1), BitAnd(R(2), R(3)))
             [] t = "R ^= xor(R,R)" -> BitXor(R(1), BitXor(R(2), R(3)))
             [] t = "R = add(R,add(R,#))" -> R(2) + R(3) + a[4]
             [] t = "R = add(R,sub(#,R))" -> R(2) + a[3] - R(4)
             [] t = "R = P" -> s.p[a[2] + 1]
             [] t = "R = usr" -> s.usr
             [] t = "R += sfmpy(R,R):lib" -> FmaLib(R(2), R(3), R(1))
             [] t = "R -= sfmpy(R,R):lib" -> FmaLib(BitXor(R(2), 2^31), R(3), R(1))
             [] t = "R += sfmpy(R,R,P):scale" -> Datum(F32, FmaScaled(Mode(s), R(2), R(3), R(1), SExt(s.p[a[4] + 1], 8)))
             [] t = "R = sffixupd(R,R)" -> RecipPrep(R(2), R(3)).d
             [] t = "R = sffixupn(R,R)" -> RecipPrep(R(2), R(3)).n
             [] t = "R = sffixupr(R)" -> InvSqrtPrep(R(2)).x
             [] t = "R = convert_df2sf(D)" -> Datum(F32, ConvertM(F64, F32, Mode(s), D(2)))
             [] t = "R = memw(R+#)" -> LET x == (R(2) + a[3]) % W32 IN IF Has(s, x) THEN Word(s, x) ELSE NoAccess
             [] t = "R = memw(R++#)" -> IF Has(s, R(2)) THEN Word(s, R(2)) ELSE NoAccess
             [] OTHER -> Unknown
  IN IF v = Unknown THEN Fail ELSE IF v = NoAccess THEN Fail - 1 ELSE v % W32

\* predicates: TRUE, FALSE; unknown instructions are found by Known
PVal(s, t, a) ==
  LET R(k) == s.r[a[k] + 1]
      D(k) == s.r[a[k] + 1] + W32 * s.r[a[k] + 2]
      B(k) == s.p[a[k] + 1] % 2 = 1
  IN CASE t = "P = cmp.eq(R,#)" -> R(2) = a[3] % W32
       [] t = "P = cmp.eq(R,R)" -> R(2) = R(3)
       [] t = "P = cmp.eq(D,D)" -> D(2) = D(3)
       [] t = "P = cmp.gt(R,#)" -> S32(R(2)) > a[3]
       [] t = "P = cmp.gt(R,R)" -> S32(R(2)) > S32(R(3))
       [] t = "P = cmp.gtu(R,#)" -> R(2) > a[3] % W32
       [] t = "P = cmp.gtu(R,R)" -> R(2) > R(3)
       [] t = "P = cmp.gtu(D,D)" -> D(2) > D(3)
       [] t = "P = !cmp.eq(R,#)" -> R(2) # a[3] % W32
       [] t = "P = !cmp.eq(R,R)" -> R(2) # R(3)
       [] t = "P = !cmp.gt(R,#)" -> ~(S32(R(2)) > a[3])
       [] t = "P = !cmp.gt(R,R)" -> ~(S32(R(2)) > S32(R(3)))
       [] t = "P = !cmp.gtu(R,R)" -> ~(R(2) > R(3))
       [] t = "P = bitsclr(R,#)" -> BitAnd(R(2), a[3]) = 0
       [] t = "P = bitsclr(R,R)" -> BitAnd(R(2), R(3)) = 0
       [] t = "P = bitsset(R,R)" -> BitAnd(R(2), R(3)) = R(3)
       [] t = "P = tstbit(R,#)" -> Bit(R(2), a[3]) = 1
       [] t = "P = dfclass(D,#)" -> InClass(F64, D(2), a[3])
       [] t = "P = sfclass(R,#)" -> InClass(F32, R(2), a[3])
       [] t = "P = dfcmp.eq(D,D)" -> ~Unordered(F64, D(2), D(3)) /\ Ord(F64, D(2)) = Ord(F64, D(3))
       [] t = "P = dfcmp.gt(D,D)" -> ~Unordered(F64, D(2), D(3)) /\ Ord(F64, D(2)) > Ord(F64, D(3))
       [] t = "P = dfcmp.uo(D,D)" -> Unordered(F64, D(2), D(3))
       [] t = "P = !cmp.gtu(R,#)" -> ~(R(2) > a[3] % W32)
       [] t = "P = !bitsclr(R,#)" -> BitAnd(R(2), a[3]) # 0
       [] t = "P = !bitsclr(R,R)" -> BitAnd(R(2), R(3)) # 0
       [] t = "P = !bitsset(R,R)" -> BitAnd(R(2), R(3)) # R(3)
       [] t = "P = !tstbit(R,#)" -> Bit(R(2), a[3]) = 0
       [] t = "P = cmp.gt(D,D)" -> S64(D(2)) > S64(D(3))
       [] t = "P = dfcmp.ge(D,D)" -> ~Unordered(F64, D(2), D(3)) /\ Ord(F64, D(2)) >= Ord(F64, D(3))
       [] t = "P = or(P,P)" -> B(2) \/ B(3)
       [] t = "P = not(P)" -> ~B(2)
       [] t = "P = and(P,!P)" -> B(2) /\ ~B(3)
       [] t = "P = or(P,!P)" -> B(2) \/ ~B(3)
       [] t = "P = and(P,P)" -> B(2) /\ B(3)
       [] t = "P = xor(P,P)" -> B(2) # B(3)
       [] OTHER -> FALSE
PKnown == {"P = cmp.eq(R,#)", "P = cmp.eq(R,R)", "P = cmp.eq(D,D)", "P = cmp.gt(R,#)", "P = cmp.gt(R,R)", "P = cmp.gtu(R,#)",
           "P = cmp.gtu(R,R)", "P = cmp.gtu(D,D)", "P = !cmp.eq(R,#)", "P = !cmp.eq(R,R)", "P = !cmp.gt(R,#)",
           "P = !cmp.gt(R,R)", "P = !cmp.gtu(R,R)", "P = bitsclr(R,#)", "P = bitsclr(R,R)", "P = bitsset(R,R)",
           "P = tstbit(R,#)", "P = dfclass(D,#)", "P = sfclass(R,#)", "P = dfcmp.eq(D,D)", "P = dfcmp.gt(D,D)",
           "P = dfcmp.uo(D,D)", "P = and(P,P)", "P = xor(P,P)", "P = !cmp.gtu(R,#)", "P = !bitsclr(R,#)", "P = !bitsclr(R,R)",
           "P = !bitsset(R,R)", "P = !tstbit(R,#)", "P = cmp.gt(D,D)", "P = dfcmp.ge(D,D)", "P = or(P,P)", "P = not(P)",
           "P = and(P,!P)", "P = or(P,!P)"}

(************************* Effects *****************************************)
\* <<"r", register, value>>, <<"p", predicate, value>>, <<"m", address, word>>, <<"j", packet>>, <<"l0"|"l1", packet, count>>,
\* <<"usr", value>>, <<"out", why>>.  A jump through r31 as the caller left it returns.
ReturnAddress == 64 * 2^20
Into(d, v) == IF v < 0 THEN <<<<"out", IF v = Fail THEN "unknown" ELSE "bad access">>>> ELSE <<<<"r", d, v>>>>
IntoD(d, v) == IF v < 0 THEN <<<<"out", IF v = Fail THEN "unknown" ELSE "bad access">>>>
               ELSE <<<<"r", d, Lo(v)>>, <<"r", d + 1, Hi(v)>>>>
ToAddr(x) == IF x = ReturnAddress THEN <<"out", "ret">> ELSE <<"out", "wild jump">>
Stores(s, x, v) == IF HasD(s, x) THEN <<<<"m", x, Lo(v)>>, <<"m", x + 4, Hi(v)>>>> ELSE <<<<"out", "bad access">>>>
StoreW(s, x, v) == IF Has(s, x) THEN <<<<"m", x, v>>>> ELSE <<<<"out", "bad access">>>>
Pop(s) == LET fp == s.r[31] IN                                       \* deallocframe
  IF HasD(s, fp) THEN <<<<"r", 30, Word(s, fp)>>, <<"r", 31, Word(s, fp + 4)>>, <<"r", 29, (fp + 8) % W32>>>>
  ELSE <<<<"out", "bad access">>>>

Effects(s, pk, i) ==
  LET t == i.t
      a == i.a
      R(k) == s.r[a[k] + 1]
      D(k) == s.r[a[k] + 1] + W32 * s.r[a[k] + 2]
      Made(k) == LET j == pk.i[a[k]] IN RVal(s, j.t, j.a)
  IN CASE i.k = "D" -> IntoD(a[1], DVal(s, t, a)) \o
                       (IF t = "D = memd(R++#)" THEN <<<<"r", a[2], (R(2) + a[3]) % W32>>>> ELSE <<>>)
       [] i.k = "R" -> Into(a[1], RVal(s, t, a)) \o
                       (IF t = "R = memw(R++#)" THEN <<<<"r", a[2], (R(2) + a[3]) % W32>>>> ELSE <<>>)
       [] i.k = "P" -> IF t \in PKnown THEN <<<<"p", a[1], IF PVal(s, t, a) THEN 255 ELSE 0>>>> ELSE <<<<"out", "unknown">>>>
       [] t = "nop" -> <<>>
       [] t = "jump @" -> <<<<"j", a[1]>>>>
       [] t = "jumpr R" -> <<ToAddr(R(1))>>
       [] t = "if (cmp.eq(N,#)) jump @" -> IF Made(1) = a[2] % W32 THEN <<<<"j", a[3]>>>> ELSE <<>>
       [] t = "if (!cmp.eq(N,#)) jump @" -> IF Made(1) # a[2] % W32 THEN <<<<"j", a[3]>>>> ELSE <<>>
       [] t = "if (cmp.gt(N,#)) jump @" -> IF S32(Made(1)) > a[2] THEN <<<<"j", a[3]>>>> ELSE <<>>
       [] t = "if (!cmp.gt(N,#)) jump @" -> IF S32(Made(1)) > a[2] THEN <<>> ELSE <<<<"j", a[3]>>>>
       [] t = "if (cmp.gtu(N,#)) jump @" -> IF Made(1) > a[2] THEN <<<<"j", a[3]>>>> ELSE <<>>
       [] t = "if (!cmp.gtu(N,#)) jump @" -> IF Made(1) > a[2] THEN <<>> ELSE <<<<"j", a[3]>>>>
       [] t = "if (cmp.eq(N,R)) jump @" -> IF Made(1) = R(2) THEN <<<<"j", a[3]>>>> ELSE <<>>
       [] t = "if (!cmp.eq(N,R)) jump @" -> IF Made(1) # R(2) THEN <<<<"j", a[3]>>>> ELSE <<>>
       [] t = "D = add(D,D,P):carry" ->
            LET v == D(2) + D(3) + (s.p[a[4] + 1] % 2) IN IntoD(a[1], v % W64) \o <<<<"p", a[4], IF v >= W64 THEN 255 ELSE 0>>>>
       [] t = "D = sub(D,D,P):carry" ->
            LET v == D(2) + (W64 - 1 - D(3)) + (s.p[a[4] + 1] % 2)
            IN IntoD(a[1], v % W64) \o <<<<"p", a[4], IF v >= W64 THEN 255 ELSE 0>>>>
       [] t = "R,P = sfrecipa(R,R)" -> LET z == RecipPrep(R(3), R(4)) IN <<<<"r", a[1], z.q>>, <<"p", a[2], z.p>>>>
       [] t = "R,P = sfinvsqrta(R)" -> LET z == InvSqrtPrep(R(3)) IN <<<<"r", a[1], z.q>>, <<"p", a[2], z.p>>>>
       [] t = "usr = R" -> <<<<"usr", R(1)>>>>
       [] t = "loop0(@,R)" -> <<<<"l0", a[1], R(2)>>>>
       [] t = "loop0(@,#)" -> <<<<"l0", a[1], a[2]>>>>
       [] t = "loop1(@,R)" -> <<<<"l1", a[1], R(2)>>>>
       [] t = "loop1(@,#)" -> <<<<"l1", a[1], a[2]>>>>
       [] t = "l2fetch(R,R)" -> <<>>
       [] t = "memd(R+#) = D" -> Stores(s, (R(1) + a[2]) % W32, D(3))
       [] t = "memd(R++#) = D" -> Stores(s, R(1), D(3)) \o <<<<"r", a[1], (R(1) + a[2]) % W32>>>>
       [] t = "memw(R+#) = R" -> StoreW(s, (R(1) + a[2]) % W32, R(3))
       [] t = "memw(R++#) = R" -> StoreW(s, R(1), R(3)) \o <<<<"r", a[1], (R(1) + a[2]) % W32>>>>
       [] t = "memw(R++#) = N" -> (IF Made(3) < 0 THEN <<<<"out", "bad access">>>> ELSE StoreW(s, R(1), Made(3)))
                                  \o <<<<"r", a[1], (R(1) + a[2]) % W32>>>>
       [] t = "memw(R+#) = N" -> IF Made(3) < 0 THEN <<<<"out", "bad access">>>> ELSE StoreW(s, (R(1) + a[2]) % W32, Made(3))
       [] t = "memw(R+#) = #" -> StoreW(s, (R(1) + a[2]) % W32, a[3] % W32)
       [] t = "allocframe(#)" -> LET x == (s.r[30] - 8) % W32
                                 IN Stores(s, x, s.r[31] + W32 * s.r[32]) \o <<<<"r", 30, x>>, <<"r", 29, (x - a[1]) % W32>>>>
       [] t = "deallocframe" -> Pop(s)
       [] t = "dealloc_return" -> Pop(s) \o (IF HasD(s, s.r[31]) THEN <<ToAddr(Word(s, s.r[31] + 4))>> ELSE <<>>)
       [] OTHER -> <<<<"out", "unknown">>>>

RECURSIVE All(_, _, _, _)
All(s, pk, np, k) ==
  IF k > Len(pk.i) THEN <<>>
  ELSE LET i == pk.i[k]
           go == IF i.g = <<>> THEN TRUE
                 ELSE LET b == (IF i.g[3] = 1 THEN np[i.g[1] + 1] ELSE s.p[i.g[1] + 1]) % 2 IN b # i.g[2]
       IN (IF go THEN Effects(s, pk, i) ELSE <<>>) \o All(s, pk, np, k + 1)

\* the first jump taken counts; "out" ends the run when the packet is done
RECURSIVE Apply(_, _, _, _)
Apply(s, es, k, seen) ==
  IF k > Len(es) THEN s
  ELSE LET e == es[k]
           c == e[1]
       IN IF c = "r" THEN Apply([s EXCEPT !.r[e[2] + 1] = e[3]], es, k + 1, seen)
          ELSE IF c = "p" THEN
            IF e[2] \in seen THEN Apply([s EXCEPT !.p[e[2] + 1] = BitAnd(@, e[3])], es, k + 1, seen)
            ELSE Apply([s EXCEPT !.p[e[2] + 1] = e[3]], es, k + 1, seen \cup {e[2]})
          ELSE IF c = "m" THEN Apply([s EXCEPT !.m[Slot(e[2])] = e[3]], es, k + 1, seen)
          ELSE IF c = "j" THEN IF 9 \in seen THEN Apply(s, es, k + 1, seen)
                               ELSE Apply([s EXCEPT !.pc = e[2]], es, k + 1, seen \cup {9})
          ELSE IF c = "l0" THEN Apply([s EXCEPT !.l0 = <<e[2], e[3]>>], es, k + 1, seen)
          ELSE IF c = "l1" THEN Apply([s EXCEPT !.l1 = <<e[2], e[3]>>], es, k + 1, seen)
          ELSE IF c = "usr" THEN Apply([s EXCEPT !.usr = e[2]], es, k + 1, seen)
          ELSE IF 9 \in seen /\ e[2] = "ret" THEN Apply(s, es, k + 1, seen)
          ELSE Apply([s EXCEPT !.out = IF @ \in {"", "ret"} THEN e[2] ELSE @], es, k + 1, seen \cup {9})

Packet(s, pk) ==
  LET np == [x \in 1..4 |-> IF pk.w[x] = <<>> THEN s.p[x]
                            ELSE IF \A y \in 1..Len(pk.w[x]) : LET j == pk.i[pk.w[x][y]] IN PVal(s, j.t, j.a) THEN 255 ELSE 0]
      es == All(s, pk, np, 1)
      n == Apply([s EXCEPT !.pc = @ + 1], es, 1, {})
      jumped == n.pc # s.pc + 1
      e0 == pk.e % 2 = 1
      e1 == pk.e >= 2
  IN IF jumped \/ n.out # "" THEN n
     ELSE IF e0 /\ n.l0[2] > 1 THEN [n EXCEPT !.pc = n.l0[1], !.l0[2] = @ - 1]
     ELSE IF e1 /\ n.l1[2] > 1 THEN [n EXCEPT !.pc = n.l1[1], !.l1[2] = @ - 1]
     ELSE n

RECURSIVE Run(_, _, _)
Run(s, code, fuel) ==
  IF s.out # "" THEN s
  ELSE IF fuel = 0 THEN [s EXCEPT !.out = "does not end"]
  ELSE IF s.pc = Len(code) + 1 THEN [s EXCEPT !.out = "memcpy"]       \* stands after the code
  ELSE IF s.pc \notin 1..Len(code) THEN [s EXCEPT !.out = "leaves the code"]
  ELSE Run(Packet(s, code[s.pc]), code, fuel - 1)
=============================================================================
