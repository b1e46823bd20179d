import tlc2.value.impl.*;
import java.security.MessageDigest;
import java.util.Arrays;
import java.util.concurrent.ConcurrentHashMap;

/** Java definitions of the operators of module Prim: literals and cryptographic primitives. */
public class Prim {
    public static byte[] b(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        byte[] r = new byte[t.elems.length];
        for (int i = 0; i < r.length; i++) {
            int x = ((IntValue) t.elems[i]).val;
            if (x < 0 || x > 255) throw new RuntimeException("not a byte: " + x);
            r[i] = (byte) x;
        }
        return r;
    }
    public static Value v(byte[] r) {
        Value[] e = new Value[r.length];
        for (int i = 0; i < r.length; i++) e[i] = IntValue.gen(r[i] & 255);
        return new TupleValue(e);
    }
    static String s(Value v) { return ((StringValue) v).val.toString(); }

    public static Value B(Value str) throws Exception { return v(s(str).getBytes("UTF-8")); }
    public static Value Str(Value b) throws Exception { return new StringValue(new String(b(b), "UTF-8")); }

    static MessageDigest md(String alg) throws Exception {
        return MessageDigest.getInstance(alg.equals("1") ? "SHA-1" : "SHA-" + alg);
    }
    public static Value Hash(Value alg, Value m) throws Exception { return v(md(s(alg)).digest(b(m))); }

    /** HMAC with the padded key already absorbed */
    static final class Mac {
        final MessageDigest in, out;
        Mac(String alg, byte[] k) throws Exception {
            int block = alg.equals("512") ? 128 : 64;
            if (k.length > block) k = md(alg).digest(k);
            byte[] i = new byte[block], o = new byte[block];
            Arrays.fill(i, (byte) 0x36);
            Arrays.fill(o, (byte) 0x5c);
            for (int j = 0; j < k.length; j++) { i[j] ^= k[j]; o[j] ^= k[j]; }
            in = md(alg); in.update(i);
            out = md(alg); out.update(o);
        }
        byte[] mac(byte[] m) throws Exception {
            MessageDigest i = (MessageDigest) in.clone(), o = (MessageDigest) out.clone();
            return o.digest(i.digest(m));
        }
    }
    public static Value Hmac(Value alg, Value k, Value m) throws Exception {
        return v(new Mac(s(alg), b(k)).mac(b(m)));
    }
    static final ConcurrentHashMap<String, byte[]> HI = new ConcurrentHashMap<>();
    public static Value Hi(Value alg, Value pw, Value salt, Value iter) throws Exception {
        byte[] p = b(pw), sa = b(salt);
        int n = ((IntValue) iter).val;
        String key = s(alg) + Arrays.toString(p) + Arrays.toString(sa) + n;
        byte[] r = HI.get(key);
        if (r == null) {
            Mac mac = new Mac(s(alg), p);
            byte[] first = Arrays.copyOf(sa, sa.length + 4);
            first[sa.length + 3] = 1;
            byte[] u = mac.mac(first);
            r = u.clone();
            for (int i = 1; i < n; i++) {
                u = mac.mac(u);
                for (int j = 0; j < r.length; j++) r[j] ^= u[j];
            }
            HI.put(key, r);
        }
        return v(r);
    }
    public static Value Xor(Value x, Value y) {
        byte[] a = b(x), c = b(y);
        if (a.length != c.length) throw new RuntimeException("Xor of different lengths");
        for (int i = 0; i < a.length; i++) a[i] ^= c[i];
        return v(a);
    }
}
