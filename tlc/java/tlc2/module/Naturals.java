// Replacement for TLC's Naturals module override, on unbounded integers.
package tlc2.module;

import java.math.BigInteger;
import tla2sany.semantic.ExprNode;
import tlc2.tool.EvalException;
import tlc2.tool.impl.TLARegistry;
import tlc2.value.IBoolValue;
import tlc2.value.ValueConstants;
import tlc2.value.Values;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.IntervalValue;
import tlc2.value.impl.ModelValue;
import tlc2.value.impl.UserObj;
import tlc2.value.impl.UserValue;
import tlc2.value.impl.Value;

public class Naturals extends UserObj implements ValueConstants {
    public static final long serialVersionUID = 20160822L;
    private static Value SetNat;
    static {
        TLARegistry.put("Plus", "+");
        TLARegistry.put("Minus", "-");
        TLARegistry.put("Times", "*");
        TLARegistry.put("LT", "<");
        TLARegistry.put("LE", "\\leq");
        TLARegistry.put("GT", ">");
        TLARegistry.put("GEQ", "\\geq");
        TLARegistry.put("DotDot", "..");
        TLARegistry.put("Divide", "\\div");
        TLARegistry.put("Mod", "%");
        TLARegistry.put("Expt", "^");
        SetNat = new UserValue(new Naturals());
    }

    static IntValue num(Value v, String pos, String op) {
        if (v instanceof IntValue) return (IntValue) v;
        throw new EvalException(2266, new String[] { pos, op, "integer", Values.ppr(v.toString()) });
    }
    static BoolValue bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value Nat() { return SetNat; }
    public static IntValue Plus(IntValue x, IntValue y) {
        if (x.isSmall() && y.isSmall()) return IntValue.gen((long) x.val + y.val);
        return IntValue.gen(x.toBig().add(y.toBig()));
    }
    public static IntValue Minus(IntValue x, IntValue y) {
        if (x.isSmall() && y.isSmall()) return IntValue.gen((long) x.val - y.val);
        return IntValue.gen(x.toBig().subtract(y.toBig()));
    }
    public static IntValue Times(IntValue x, IntValue y) {
        if (x.isSmall() && y.isSmall()) return IntValue.gen((long) x.val * y.val);
        return IntValue.gen(x.toBig().multiply(y.toBig()));
    }
    public static IBoolValue LT(Value x, Value y) { return bool(num(x, "first", "<").cmp(num(y, "second", "<")) < 0); }
    public static IBoolValue LE(Value x, Value y) { return bool(num(x, "first", "<=").cmp(num(y, "second", "<=")) <= 0); }
    public static IBoolValue GT(Value x, Value y) { return bool(num(x, "first", ">").cmp(num(y, "second", ">")) > 0); }
    public static IBoolValue GEQ(Value x, Value y) { return bool(num(x, "first", ">=").cmp(num(y, "second", ">=")) >= 0); }
    public static IntervalValue DotDot(IntValue x, IntValue y) { return new IntervalValue(x.intExact(), y.intExact()); }

    /** Floor division, as the Integers module defines \div. */
    public static IntValue Divide(IntValue x, IntValue y) {
        if (y.signum() == 0) throw new EvalException(2179);
        if (x.isSmall() && y.isSmall()) return IntValue.gen(Math.floorDiv((long) x.val, (long) y.val));
        BigInteger b = y.toBig();
        if (y.signum() > 0 && b.bitCount() == 1) return IntValue.gen(x.toBig().shiftRight(b.bitLength() - 1));
        BigInteger[] qr = x.toBig().divideAndRemainder(b);
        return IntValue.gen(qr[1].signum() != 0 && (qr[1].signum() != b.signum()) ? qr[0].subtract(BigInteger.ONE) : qr[0]);
    }
    public static IntValue Mod(IntValue x, IntValue y) {
        if (y.signum() <= 0)
            throw new EvalException(2169, new String[] { "second", "%", "positive number", y.toString() });
        if (x.isSmall() && y.isSmall()) return IntValue.gen(Math.floorMod(x.val, y.val));
        return IntValue.gen(x.toBig().mod(y.toBig()));
    }
    public static IntValue Expt(IntValue x, IntValue y) {
        if (y.signum() < 0)
            throw new EvalException(2169, new String[] { "second", "^", "natural number", y.toString() });
        int n = y.intExact();
        if (n == 0) {
            if (x.signum() == 0) throw new EvalException(2180);
            return IntValue.ValOne;
        }
        if (x.isSmall() && x.val == 2) return IntValue.powerOfTwo(n);
        return IntValue.gen(x.toBig().pow(n));
    }

    public final int compareTo(Value s) {
        if (s instanceof UserValue) {
            if (((UserValue) s).userObj instanceof Naturals) return 0;
            if (((UserValue) s).userObj instanceof Integers) return -1;
        }
        if (s instanceof ModelValue) return 1;
        throw new EvalException(2155, new String[] { "Nat", Values.ppr(s.toString()) });
    }
    public final boolean member(Value v) {
        if (v instanceof IntValue) return ((IntValue) v).signum() >= 0;
        if (v instanceof ModelValue) return ((ModelValue) v).modelValueMember(this);
        throw new EvalException(2158, new String[] { Values.ppr(v.toString()), "Nat" });
    }
    public final boolean isFinite() { return false; }
    public final StringBuffer toString(StringBuffer sb, int offset, boolean swallow) { return sb.append("Nat"); }
    public String getNonEnumerableErrorMsg(ExprNode n) { return "TLC cannot enumerate the set Nat: " + n; }
}
