// Replacement for TLC's Integers module override, on unbounded integers.
package tlc2.module;

import tla2sany.semantic.ExprNode;
import tlc2.tool.EvalException;
import tlc2.tool.impl.TLARegistry;
import tlc2.value.IBoolValue;
import tlc2.value.ValueConstants;
import tlc2.value.Values;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.IntervalValue;
import tlc2.value.impl.ModelValue;
import tlc2.value.impl.UserObj;
import tlc2.value.impl.UserValue;
import tlc2.value.impl.Value;

public class Integers extends UserObj implements ValueConstants {
    public static final long serialVersionUID = 20160822L;
    private static final Value SetInt;
    static {
        TLARegistry.put("Plus", "+");
        TLARegistry.put("Minus", "-");
        TLARegistry.put("Times", "*");
        TLARegistry.put("LT", "<");
        TLARegistry.put("LE", "\\leq");
        TLARegistry.put("GT", ">");
        TLARegistry.put("GEQ", "\\geq");
        TLARegistry.put("DotDot", "..");
        TLARegistry.put("Neg", "-.");
        TLARegistry.put("Divide", "\\div");
        TLARegistry.put("Mod", "%");
        TLARegistry.put("Expt", "^");
        SetInt = new UserValue(new Integers());
    }

    public static Value Int() { return SetInt; }
    public static Value Nat() { return Naturals.Nat(); }
    public static IntValue Plus(IntValue x, IntValue y) { return Naturals.Plus(x, y); }
    public static IntValue Minus(IntValue x, IntValue y) { return Naturals.Minus(x, y); }
    public static IntValue Times(IntValue x, IntValue y) { return Naturals.Times(x, y); }
    public static IBoolValue LT(Value x, Value y) { return Naturals.LT(x, y); }
    public static IBoolValue LE(Value x, Value y) { return Naturals.LE(x, y); }
    public static BoolValue GT(Value x, Value y) { return (BoolValue) Naturals.GT(x, y); }
    public static IBoolValue GEQ(Value x, Value y) { return Naturals.GEQ(x, y); }
    public static IntervalValue DotDot(IntValue x, IntValue y) { return Naturals.DotDot(x, y); }
    public static IntValue Neg(IntValue x) {
        return x.isSmall() ? IntValue.gen(-(long) x.val) : IntValue.gen(x.toBig().negate());
    }
    public static IntValue Divide(IntValue x, IntValue y) { return Naturals.Divide(x, y); }
    public static IntValue Mod(IntValue x, IntValue y) { return Naturals.Mod(x, y); }
    public static IntValue Expt(IntValue x, IntValue y) { return Naturals.Expt(x, y); }

    public final int compareTo(Value s) {
        if (s instanceof UserValue) {
            if (((UserValue) s).userObj instanceof Integers) return 0;
            if (((UserValue) s).userObj instanceof Naturals) return 1;
        }
        if (s instanceof ModelValue) return 1;
        throw new EvalException(2155, new String[] { "Int", Values.ppr(s.toString()) });
    }
    public final boolean member(Value v) {
        if (v instanceof IntValue) return true;
        if (v instanceof ModelValue) return ((ModelValue) v).modelValueMember(this);
        throw new EvalException(2158, new String[] { Values.ppr(v.toString()), "Int" });
    }
    public final boolean isFinite() { return false; }
    public final StringBuffer toString(StringBuffer sb, int offset, boolean swallow) { return sb.append("Int"); }
    public String getNonEnumerableErrorMsg(ExprNode n) { return "TLC cannot enumerate the set Int: " + n; }
}
