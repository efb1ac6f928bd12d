// Java side of Bits.tla (same functions as the TLA+ definitions there, evaluated natively).
package tlc2.module;

import java.math.BigInteger;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.Value;

public class Bits {
    public static Value BitLen(IntValue x) {
        return IntValue.gen(x.isSmall() ? 32 - Integer.numberOfLeadingZeros(x.val) : x.toBig().bitLength());
    }
    public static Value TrailingZeros(IntValue x) { return IntValue.gen(x.toBig().getLowestSetBit()); }
    public static Value BitAnd(IntValue x, IntValue y) { return IntValue.gen(x.toBig().and(y.toBig())); }
    public static Value BitOr(IntValue x, IntValue y) { return IntValue.gen(x.toBig().or(y.toBig())); }
    public static Value BitXor(IntValue x, IntValue y) { return IntValue.gen(x.toBig().xor(y.toBig())); }
    public static Value ISqrt(IntValue x) { return IntValue.gen(x.toBig().sqrt()); }
    public static Value Pow2(IntValue k) { return IntValue.powerOfTwo(k.intExact()); }
    /** x * 2^k for k >= 0, floor(x / 2^-k) for k < 0. */
    public static Value Shift(IntValue x, IntValue k) {
        int n = k.intExact();
        if (n >= 0) {
            if (x.isSmall() && n < 31) return IntValue.gen((long) x.val << n);
            return IntValue.gen(x.toBig().shiftLeft(n));
        }
        if (x.isSmall()) return IntValue.gen(n <= -32 ? (x.val < 0 ? -1 : 0) : x.val >> -n);
        return IntValue.gen(x.toBig().shiftRight(-n));
    }
}
