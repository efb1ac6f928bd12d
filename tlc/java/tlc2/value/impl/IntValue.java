// Replacement for TLC's IntValue: TLA+ integers are unbounded mathematical integers, so are these.
// Values that fit in 32 bits keep the representation (and speed) of the original class; all others
// carry a BigInteger.  Placed before tla2tools.jar on the class path.
package tlc2.value.impl;

import java.io.IOException;
import java.math.BigInteger;
import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.Values;
import util.Assert;

public class IntValue extends Value {
    private static final int LO = -64, HI = 1024;
    private static final IntValue[] cache = new IntValue[HI - LO + 1];
    private static final IntValue[] pow2 = new IntValue[40000];
    public static final IntValue ValNegOne, ValOne, ValZero;
    static {
        for (int i = LO; i <= HI; i++) cache[i - LO] = new IntValue(i);
        ValNegOne = gen(-1);
        ValOne = gen(1);
        ValZero = gen(0);
    }

    public final int val;
    /** null exactly when the value fits in an int. */
    private final BigInteger big;

    private IntValue(int v) { this.val = v; this.big = null; }
    private IntValue(BigInteger b) {
        this.val = b.signum() < 0 ? Integer.MIN_VALUE : Integer.MAX_VALUE;
        this.big = b;
    }

    public static IntValue gen(int v) {
        if (v >= LO && v <= HI && cache[v - LO] != null) return cache[v - LO];
        return new IntValue(v);
    }
    public static IntValue gen(long v) {
        return (int) v == v ? gen((int) v) : new IntValue(BigInteger.valueOf(v));
    }
    public static IntValue gen(BigInteger b) {
        return b.bitLength() <= 31 ? gen(b.intValue()) : new IntValue(b);
    }
    /** 2^k, cached. */
    public static IntValue powerOfTwo(int k) {
        if (k < pow2.length) {
            IntValue v = pow2[k];
            if (v == null) { v = gen(BigInteger.ONE.shiftLeft(k)); pow2[k] = v; }
            return v;
        }
        return gen(BigInteger.ONE.shiftLeft(k));
    }

    public final boolean isSmall() { return big == null; }
    public final BigInteger toBig() { return big == null ? BigInteger.valueOf(val) : big; }
    public final int signum() { return big == null ? Integer.signum(val) : big.signum(); }
    /** The value as an int; an error when it does not fit. */
    public final int intExact() {
        if (big != null) Assert.fail("integer too large for this use: " + big);
        return val;
    }

    public static final int nbits(int tmp) {
        int n = 0;
        while (tmp != 0 && tmp != -1) { n++; tmp >>= 1; }
        return n + 1;
    }
    public static IntValue sum(IntValue a, IntValue b) {
        if (a.big == null && b.big == null) return gen((long) a.val + (long) b.val);
        return gen(a.toBig().add(b.toBig()));
    }

    public final byte getKind() { return INTVALUE; }
    public final int nbits() { return big == null ? nbits(val) : big.bitLength() + 1; }

    public final int cmp(IntValue o) {
        if (big == null && o.big == null) return Integer.compare(val, o.val);
        if (big == null) return -o.big.signum();
        if (o.big == null) return big.signum();
        return big.compareTo(o.big);
    }
    public final int compareTo(Object obj) {
        if (obj instanceof IntValue) return cmp((IntValue) obj);
        if (!(obj instanceof ModelValue))
            Assert.fail("Attempted to compare integer " + Values.ppr(this.toString())
                + " with non-integer:\n" + Values.ppr(obj.toString()), getSource());
        return ((ModelValue) obj).modelValueCompareTo(this);
    }
    public final boolean equals(Object obj) {
        if (obj instanceof IntValue) {
            IntValue o = (IntValue) obj;
            if (big == null || o.big == null) return big == o.big && val == o.val;
            return big.equals(o.big);
        }
        if (!(obj instanceof ModelValue))
            Assert.fail("Attempted to check equality of integer " + Values.ppr(this.toString())
                + " with non-integer:\n" + Values.ppr(obj.toString()), getSource());
        return ((ModelValue) obj).modelValueEquals(this);
    }
    public final boolean member(Value elem) {
        Assert.fail("Attempted to check if the value:\n" + Values.ppr(elem.toString())
            + "\nis an element of the integer " + Values.ppr(this.toString()), getSource());
        return false;
    }
    public final boolean isFinite() {
        Assert.fail("Attempted to check if the integer " + Values.ppr(this.toString())
            + " is a finite set.", getSource());
        return false;
    }
    public final Value takeExcept(ValueExcept ex) {
        if (ex.idx < ex.path.length)
            Assert.fail("Attempted to appy EXCEPT construct to the integer " + this, getSource());
        return ex.value;
    }
    public final Value takeExcept(ValueExcept[] exs) {
        if (exs.length != 0)
            Assert.fail("Attempted to apply EXCEPT construct to the integer " + this, getSource());
        return this;
    }
    public final int size() {
        Assert.fail("Attempted to compute the number of elements in the integer " + this, getSource());
        return 0;
    }
    public boolean mutates() { return false; }
    public final boolean isNormalized() { return true; }
    public final Value normalize() { return this; }
    public final boolean isDefined() { return true; }
    public final IValue deepCopy() { return this; }
    public void write(IValueOutputStream vos) throws IOException {
        if (big != null) throw new IOException("big integers are not kept in stored states");
        vos.writeByte(INTVALUE);
        vos.writeInt(val);
    }
    public final long fingerPrint(long fp) {
        fp = FP64.Extend(fp, INTVALUE);
        if (big == null) return FP64.Extend(fp, val);
        byte[] b = big.toByteArray();
        fp = FP64.Extend(fp, b.length);
        return FP64.Extend(fp, b, 0, b.length);
    }
    public final IValue permute(IMVPerm perm) { return this; }
    public final StringBuffer toString(StringBuffer sb, int offset, boolean ignored) {
        return big == null ? sb.append(val) : sb.append(big.toString());
    }
    public static Value narrowToIntValue(long v) { return gen(v); }
}
