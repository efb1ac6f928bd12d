-------------------------------- MODULE Bits --------------------------------
(***************************************************************************)
(* Bit-level functions on naturals.  TLC evaluates the operators below by  *)
(* the Java class tlc2.module.Bits; the *Def operators are their plain     *)
(* TLA+ definitions and MC_Bits checks that both agree.                    *)
(***************************************************************************)
EXTENDS Integers

RECURSIVE BitLenDef(_)
BitLenDef(x) == IF x = 0 THEN 0 ELSE 1 + BitLenDef(x \div 2)
BitLen(x) == BitLenDef(x)

RECURSIVE TrailingZerosDef(_)
TrailingZerosDef(x) == IF x % 2 = 1 THEN 0 ELSE 1 + TrailingZerosDef(x \div 2)
TrailingZeros(x) == TrailingZerosDef(x)         \* x > 0

RECURSIVE BitAndDef(_, _)
BitAndDef(x, y) == IF x = 0 \/ y = 0 THEN 0
                   ELSE (x % 2) * (y % 2) + 2 * BitAndDef(x \div 2, y \div 2)
BitAnd(x, y) == BitAndDef(x, y)
RECURSIVE BitOrDef(_, _)
BitOrDef(x, y) == IF x = 0 THEN y ELSE IF y = 0 THEN x
                  ELSE (IF x % 2 = 1 \/ y % 2 = 1 THEN 1 ELSE 0) + 2 * BitOrDef(x \div 2, y \div 2)
BitOr(x, y) == BitOrDef(x, y)
RECURSIVE BitXorDef(_, _)
BitXorDef(x, y) == IF x = 0 THEN y ELSE IF y = 0 THEN x
                   ELSE ((x + y) % 2) + 2 * BitXorDef(x \div 2, y \div 2)
BitXor(x, y) == BitXorDef(x, y)

ISqrtDef(x) == CHOOSE r \in 0..x : r * r <= x /\ (r + 1) * (r + 1) > x
ISqrt(x) == ISqrtDef(x)

Signed32(x) == IF x >= 2^31 THEN x - 2^32 ELSE x
Pow2(k) == 2^k
ShiftDef(x, k) == IF k >= 0 THEN x * 2^k ELSE x \div 2^(-k)
Shift(x, k) == ShiftDef(x, k)
=============================================================================
