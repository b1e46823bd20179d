import tlc2.value.impl.*;
import java.io.ByteArrayOutputStream;
import java.nio.ByteBuffer;
import java.nio.charset.CharacterCodingException;
import java.nio.charset.CodingErrorAction;
import java.nio.charset.StandardCharsets;
import java.util.ArrayList;
import java.util.Base64;

/**
 * Fast versions of operators that module Bytes defines in TLA+. The thorough checks also judge
 * a sample of their traces without this class, i.e. with the TLA+ definitions, and compare.
 */
public class Bytes {
    static int[] i(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        int[] r = new int[t.elems.length];
        for (int k = 0; k < r.length; k++) r[k] = ((IntValue) t.elems[k]).val;
        return r;
    }
    static Value v(int[] a, int from, int to) {
        Value[] e = new Value[to - from];
        for (int k = from; k < to; k++) e[k - from] = IntValue.gen(a[k]);
        return new TupleValue(e);
    }
    static int one(Value c) { return ((IntValue) c).val; }

    public static Value Has(Value s, Value c) {
        int x = one(c);
        for (int y : i(s)) if (x == y) return BoolValue.ValTrue;
        return BoolValue.ValFalse;
    }
    public static Value IndexOf(Value s, Value c) {
        int x = one(c);
        int[] a = i(s);
        for (int k = 0; k < a.length; k++) if (a[k] == x) return IntValue.gen(k + 1);
        return IntValue.gen(0);
    }
    public static Value Split(Value s, Value c) {
        int x = one(c);
        int[] a = i(s);
        ArrayList<Value> r = new ArrayList<>();
        int from = 0;
        for (int k = 0; k < a.length; k++)
            if (a[k] == x) { r.add(v(a, from, k)); from = k + 1; }
        r.add(v(a, from, a.length));
        return new TupleValue(r.toArray(new Value[0]));
    }
    public static Value Cat(Value ss) {
        TupleValue t = (TupleValue) ss.toTuple();
        ArrayList<Value> r = new ArrayList<>();
        for (Value s : t.elems)
            for (Value e : ((TupleValue) s.toTuple()).elems) r.add(e);
        return new TupleValue(r.toArray(new Value[0]));
    }
    /** of valid UTF-8 */
    public static Value Chars(Value s) {
        int[] c = new String(Prim.b(s), StandardCharsets.UTF_8).codePoints().toArray();
        return v(c, 0, c.length);
    }
    public static Value Join(Value ss, Value c) {
        TupleValue t = (TupleValue) ss.toTuple();
        ArrayList<Value> r = new ArrayList<>();
        for (int k = 0; k < t.elems.length; k++) {
            if (k > 0) r.add(c);
            for (Value e : ((TupleValue) t.elems[k].toTuple()).elems) r.add(e);
        }
        return new TupleValue(r.toArray(new Value[0]));
    }
    public static Value IsUtf8(Value s) {
        try {
            StandardCharsets.UTF_8.newDecoder().onMalformedInput(CodingErrorAction.REPORT)
                .onUnmappableCharacter(CodingErrorAction.REPORT).decode(ByteBuffer.wrap(Prim.b(s)));
            return BoolValue.ValTrue;
        } catch (CharacterCodingException e) {
            return BoolValue.ValFalse;
        }
    }
    static byte[] dec(byte[] b) {
        if (b.length % 4 != 0) return null;
        try {
            byte[] r = Base64.getDecoder().decode(b);
            // only the canonical encoding
            return java.util.Arrays.equals(Base64.getEncoder().encode(r), b) ? r : null;
        } catch (IllegalArgumentException e) {
            return null;
        }
    }
    public static Value IsB64(Value s) { return dec(Prim.b(s)) != null ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value UnB64(Value s) {
        byte[] r = dec(Prim.b(s));
        // like the definition, a function of anything, but only used on canonical base64
        return Prim.v(r == null ? new byte[0] : r);
    }
    public static Value ToB64(Value m) { return Prim.v(Base64.getEncoder().encode(Prim.b(m))); }

    static String latin(byte[] b) { return new String(b, StandardCharsets.ISO_8859_1); }
    public static Value Leaks(Value text, Value secret) {
        byte[] x = Prim.b(secret);
        String t = latin(Prim.b(text)).replaceAll("[\\t\\n\\r ]", "");
        for (int k = 0; k + 6 <= x.length; k++) {
            byte[] w = java.util.Arrays.copyOfRange(x, k, k + 6);
            StringBuilder dec = new StringBuilder(), hex = new StringBuilder(), list = new StringBuilder();
            for (byte c : w) {
                dec.append(dec.length() > 0 ? "," : "").append(c & 255);
                list.append(list.length() > 0 ? "," : "").append(String.format("%02x", c & 255));
                hex.append(String.format("%02x", c & 255));
            }
            for (String f : new String[] {latin(w), dec.toString(), hex.toString(), hex.toString().toUpperCase(), list.toString(),
                                          list.toString().toUpperCase(), latin(Base64.getEncoder().encode(w))})
                if (t.contains(f)) return BoolValue.ValTrue;
        }
        return BoolValue.ValFalse;
    }
}
