// Java side of TraceIO.tla: reads the trace recorded from the implementation.
// One record per line:  op config arg arg ... > res res ...
// The operation may carry decimal parameters:  op:32:64.
// A token is a hexadecimal natural number, "-" followed by one, "b:" followed by the hex bytes of
// a byte string (a tuple of numbers in TLA+), or "!" followed by a word naming how the call failed.
package tlc2.module;

import java.io.IOException;
import java.math.BigInteger;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.List;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import util.UniqueString;

public class TraceIO {
    private static List<String> lines;
    private static int chunk = Integer.getInteger("trace.chunk", 64);

    private static synchronized List<String> load() {
        if (lines == null) {
            try {
                lines = Files.readAllLines(Paths.get(System.getProperty("trace.file")));
            } catch (IOException e) {
                throw new RuntimeException("cannot read trace: " + e);
            }
        }
        return lines;
    }
    private static List<String> get() { return lines != null ? lines : load(); }

    private static Value tok(String t) {
        char c = t.charAt(0);
        if (c == '!') return new StringValue(UniqueString.uniqueStringOf(t.substring(1)));
        if (c == 'b' && t.length() > 1 && t.charAt(1) == ':') {
            int n = (t.length() - 2) / 2;
            Value[] v = new Value[n];
            for (int i = 0; i < n; i++)
                v[i] = IntValue.gen(Integer.parseInt(t.substring(2 + 2 * i, 4 + 2 * i), 16));
            return new TupleValue(v);
        }
        if (t.length() <= 15) return IntValue.gen(Long.parseLong(t, 16));
        if (t.length() > 64 && c != '-') {
            byte[] b = new byte[(t.length() + 1) / 2];
            int off = t.length() % 2 == 0 ? 0 : 1;
            for (int i = 0; i < t.length(); i++) {
                int d = Character.digit(t.charAt(i), 16), k = i + off;
                b[k / 2] |= (byte) (k % 2 == 0 ? d << 4 : d);
            }
            return IntValue.gen(new BigInteger(1, b));
        }
        return IntValue.gen(new BigInteger(t, 16));
    }
    private static Value str(String s) { return new StringValue(UniqueString.uniqueStringOf(s)); }

    public static Value NumRecs() { return IntValue.gen(get().size()); }
    public static Value ChunkSize() { return IntValue.gen(chunk); }
    // TLC may evaluate the same record many times in a row
    private static final ThreadLocal<Object[]> last = ThreadLocal.withInitial(() -> new Object[2]);
    public static Value Rec(IntValue iv) {
        Object[] l = last.get();
        if (l[0] == null || (Integer) l[0] != iv.val) {
            l[1] = parse(iv);
            l[0] = iv.val;
        }
        return (Value) l[1];
    }
    private static Value parse(IntValue iv) {
        String[] p = get().get(iv.val - 1).split(" ");
        int k = 2;
        while (!p[k].equals(">")) k++;
        Value[] a = new Value[k - 2], r = new Value[p.length - k - 1];
        for (int i = 0; i < a.length; i++) a[i] = tok(p[2 + i]);
        String outcome = "ok";
        for (int i = 0; i < r.length; i++) {
            if (p[k + 1 + i].charAt(0) == '!') outcome = p[k + 1 + i].substring(1);
            r[i] = tok(p[k + 1 + i]);
        }
        String[] o = p[0].split(":");
        Value[] q = new Value[o.length - 1];
        for (int i = 0; i < q.length; i++) q[i] = IntValue.gen(Integer.parseInt(o[i + 1]));
        return new TupleValue(new Value[] { str(o[0]), str(p[1]), new TupleValue(a), new TupleValue(r), str(outcome),
                                            new TupleValue(q) });
    }
}
