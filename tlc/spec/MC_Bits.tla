------------------------------- MODULE MC_Bits -------------------------------
\* The natively evaluated operators of Bits agree with their TLA+ definitions.
EXTENDS Bits, TLC
VARIABLE x
Big == {2^31 - 1, 2^31, 2^31 + 1, 2^53 - 1, 2^64 - 1, 2^64, 2^64 + 2^33 + 5, 2^113 + 7, 2^128 - 1, 2^127}
Dom == (0..300) \cup Big
Init == x \in Dom
Next == UNCHANGED x
Agree ==
  /\ BitLen(x) = BitLenDef(x)
  /\ x > 0 => TrailingZeros(x) = TrailingZerosDef(x)
  /\ \A y \in (0..40) \cup Big : /\ BitAnd(x, y) = BitAndDef(x, y)
                                  /\ BitOr(x, y) = BitOrDef(x, y)
                                  /\ BitXor(x, y) = BitXorDef(x, y)
  /\ x <= 300 => ISqrt(x) = ISqrtDef(x)
  /\ LET r == ISqrt(x) IN r * r <= x /\ (r + 1) * (r + 1) > x
  /\ \A k \in -70..70 : Shift(x, k) = ShiftDef(x, k) /\ Shift(-x, k) = ShiftDef(-x, k)
  /\ \A k \in 0..70 : Pow2(k) = 2^k
=============================================================================
