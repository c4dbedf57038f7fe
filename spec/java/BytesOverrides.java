import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.security.MessageDigest;
import javax.crypto.Mac;
import javax.crypto.spec.SecretKeySpec;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

public class BytesOverrides implements ITLCOverrides {
    @Override
    public Class[] get() { return new Class[] { BytesOverrides.class }; }

    static final char[] HEX = "0123456789abcdef".toCharArray();
    static final long BASE = 946684800000L;

    static int nib(char c) {
        if (c >= '0' && c <= '9') return c - '0';
        if (c >= 'a' && c <= 'f') return c - 'a' + 10;
        throw new RuntimeException("not a lower-case hex digit: " + c);
    }
    static byte[] unhex(String s) {
        byte[] out = new byte[s.length() / 2];
        for (int i = 0; i < out.length; i++)
            out[i] = (byte) ((nib(s.charAt(2 * i)) << 4) | nib(s.charAt(2 * i + 1)));
        return out;
    }
    static String hex(byte[] b) {
        char[] out = new char[b.length * 2];
        for (int i = 0; i < b.length; i++) {
            out[2 * i] = HEX[(b[i] >> 4) & 15];
            out[2 * i + 1] = HEX[b[i] & 15];
        }
        return new String(out);
    }
    static String str(Value v) { return ((StringValue) v).val.toString(); }
    static StringValue sv(String s) { return new StringValue(s); }
    static StringValue num(long v, int bytes) {
        char[] out = new char[2 * bytes];
        for (int i = 2 * bytes - 1; i >= 0; i--) { out[i] = HEX[(int) (v & 15)]; v >>>= 4; }
        return new StringValue(new String(out));
    }
    static long in(Value v) { return ((IntValue) v).val; }

    @TLAPlusOperator(identifier = "Sha", module = "Bytes", warn = false)
    public static Value sha(Value h) throws Exception {
        return sv(hex(MessageDigest.getInstance("SHA-256").digest(unhex(str(h)))));
    }
    @TLAPlusOperator(identifier = "Hmac", module = "Bytes", warn = false)
    public static Value hmac(Value k, Value h) throws Exception {
        Mac m = Mac.getInstance("HmacSHA256");
        m.init(new SecretKeySpec(unhex(str(k)), "HmacSHA256"));
        return sv(hex(m.doFinal(unhex(str(h)))));
    }
    @TLAPlusOperator(identifier = "U8", module = "Bytes", warn = false)
    public static Value u8(Value n) { return num(in(n), 1); }
    @TLAPlusOperator(identifier = "U16", module = "Bytes", warn = false)
    public static Value u16(Value n) { return num(in(n), 2); }
    @TLAPlusOperator(identifier = "U32", module = "Bytes", warn = false)
    public static Value u32(Value n) { return num(in(n), 4); }
    @TLAPlusOperator(identifier = "U64", module = "Bytes", warn = false)
    public static Value u64(Value n) { return num(in(n), 8); }
    @TLAPlusOperator(identifier = "TsHex", module = "Bytes", warn = false)
    public static Value ts(Value n) { return num(BASE + in(n), 8); }
    @TLAPlusOperator(identifier = "BitOf", module = "Bytes", warn = false)
    public static Value bit(Value h, Value i) {
        int k = (int) in(i);
        return IntValue.gen((nib(str(h).charAt(k / 4)) >> (3 - k % 4)) & 1);
    }
    @TLAPlusOperator(identifier = "HexLess", module = "Bytes", warn = false)
    public static Value less(Value a, Value b) {
        return str(a).compareTo(str(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    @TLAPlusOperator(identifier = "Ascii", module = "Bytes", warn = false)
    public static Value ascii(Value s) { return sv(hex(str(s).getBytes(StandardCharsets.US_ASCII))); }

    static long u(Value v) { return Long.parseUnsignedLong(str(v), 16); }
    @TLAPlusOperator(identifier = "BAdd", module = "Big", warn = false)
    public static Value badd(Value a, Value b) { return num(u(a) + u(b), 8); }
    @TLAPlusOperator(identifier = "BSub", module = "Big", warn = false)
    public static Value bsub(Value a, Value b) { return num(u(a) - u(b), 8); }
    @TLAPlusOperator(identifier = "BPow", module = "Big", warn = false)
    public static Value bpow(Value k) { return num(1L << in(k), 8); }
    @TLAPlusOperator(identifier = "BLog", module = "Big", warn = false)
    public static Value blog(Value a) { return IntValue.gen(63 - Long.numberOfLeadingZeros(u(a))); }

    // Arithmetic modulo a number of up to 64 bytes; results have 32 bytes.
    static BigInteger n(Value v) { String s = str(v); return s.isEmpty() ? BigInteger.ZERO : new BigInteger(s, 16); }
    static StringValue n32(BigInteger x) {
        String s = x.toString(16);
        return sv("0".repeat(64 - s.length()) + s);
    }
    @TLAPlusOperator(identifier = "Sha512", module = "Suites", warn = false)
    public static Value sha512(Value h) throws Exception {
        return sv(hex(MessageDigest.getInstance("SHA-512").digest(unhex(str(h)))));
    }
    @TLAPlusOperator(identifier = "NRed", module = "Suites", warn = false)
    public static Value nred(Value a, Value m) { return n32(n(a).mod(n(m))); }
    @TLAPlusOperator(identifier = "NAdd", module = "Suites", warn = false)
    public static Value nadd(Value a, Value b, Value m) { return n32(n(a).add(n(b)).mod(n(m))); }
    @TLAPlusOperator(identifier = "NSub", module = "Suites", warn = false)
    public static Value nsub(Value a, Value b, Value m) { return n32(n(a).subtract(n(b)).mod(n(m))); }
    @TLAPlusOperator(identifier = "NMul", module = "Suites", warn = false)
    public static Value nmul(Value a, Value b, Value m) { return n32(n(a).multiply(n(b)).mod(n(m))); }
    @TLAPlusOperator(identifier = "NInv", module = "Suites", warn = false)
    public static Value ninv(Value a, Value m) { return n32(n(a).modInverse(n(m))); }
    @TLAPlusOperator(identifier = "NPow", module = "Suites", warn = false)
    public static Value npow(Value a, Value e, Value m) { return n32(n(a).modPow(n(e), n(m))); }
    @TLAPlusOperator(identifier = "RevBytes", module = "Suites", warn = false)
    public static Value rev(Value a) {
        byte[] b = unhex(str(a));
        byte[] o = new byte[b.length];
        for (int i = 0; i < b.length; i++) o[i] = b[b.length - 1 - i];
        return sv(hex(o));
    }

    // Multiples of points (Suites defines them by PMulDef and EMulDef).
    static final BigInteger PP = new BigInteger("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", 16);
    static final BigInteger EP = BigInteger.TWO.pow(255).subtract(BigInteger.valueOf(19));
    static final BigInteger ED = new BigInteger("52036cee2b6ffe738cc740797779e89800700a4d4141d8ab75eb4dca135978a3", 16);
    static BigInteger[] pt(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems;
        return e.length == 0 ? null : new BigInteger[] { n(e[0]), n(e[1]) };
    }
    static Value pt(BigInteger[] p) {
        return p == null ? new TupleValue(new Value[0]) : new TupleValue(new Value[] { n32(p[0]), n32(p[1]) });
    }
    static BigInteger m(BigInteger a, BigInteger b, BigInteger p) { return a.multiply(b).mod(p); }
    // Jacobian coordinates; null at infinity.
    static BigInteger[] pdbl(BigInteger[] p) {
        if (p == null || p[1].signum() == 0) return null;
        BigInteger d = m(p[2], p[2], PP), g = m(p[1], p[1], PP), b = m(p[0], g, PP);
        BigInteger a = m(p[0].subtract(d), p[0].add(d), PP).multiply(BigInteger.valueOf(3)).mod(PP);
        BigInteger x = m(a, a, PP).subtract(b.shiftLeft(3)).mod(PP);
        BigInteger z = m(p[1], p[2], PP).shiftLeft(1).mod(PP);
        BigInteger y = m(a, b.shiftLeft(2).subtract(x), PP).subtract(m(g, g, PP).shiftLeft(3)).mod(PP);
        return new BigInteger[] { x, y, z };
    }
    static BigInteger[] padd(BigInteger[] p, BigInteger[] q) {    // q affine
        if (q == null) return p;
        if (p == null) return new BigInteger[] { q[0], q[1], BigInteger.ONE };
        BigInteger zz = m(p[2], p[2], PP), u = m(q[0], zz, PP), s = m(q[1], m(zz, p[2], PP), PP);
        BigInteger h = u.subtract(p[0]).mod(PP), r = s.subtract(p[1]).mod(PP);
        if (h.signum() == 0) return r.signum() == 0 ? pdbl(p) : null;
        BigInteger hh = m(h, h, PP), hhh = m(h, hh, PP), v = m(p[0], hh, PP);
        BigInteger x = m(r, r, PP).subtract(hhh).subtract(v.shiftLeft(1)).mod(PP);
        BigInteger y = m(r, v.subtract(x), PP).subtract(m(p[1], hhh, PP)).mod(PP);
        return new BigInteger[] { x, y, m(p[2], h, PP) };
    }
    static BigInteger[] paff(BigInteger[] p) {
        if (p == null) return null;
        BigInteger i = p[2].modInverse(PP), ii = m(i, i, PP);
        return new BigInteger[] { m(p[0], ii, PP), m(p[1], m(i, ii, PP), PP) };
    }
    // Extended coordinates x, y, z, t.
    static BigInteger[] eadd(BigInteger[] p, BigInteger[] q) {
        BigInteger a = m(p[0], q[0], EP), b = m(p[1], q[1], EP), c = m(m(p[3], ED, EP), q[3], EP), d = m(p[2], q[2], EP);
        BigInteger e = m(p[0].add(p[1]), q[0].add(q[1]), EP).subtract(a).subtract(b);
        BigInteger f = d.subtract(c), g = d.add(c), h = b.add(a);
        return new BigInteger[] { m(e, f, EP), m(g, h, EP), m(f, g, EP), m(e, h, EP) };
    }
    @TLAPlusOperator(identifier = "PMul", module = "Suites", warn = false)
    public static Value pmul(Value k, Value p) {
        BigInteger s = n(k);
        BigInteger[] P = pt(p), r = null;
        for (int i = s.bitLength() - 1; i >= 0; i--) {
            r = pdbl(r);
            if (s.testBit(i)) r = padd(r, P);
        }
        return pt(paff(r));
    }
    @TLAPlusOperator(identifier = "EMul", module = "Suites", warn = false)
    public static Value emul(Value k, Value p) {
        BigInteger s = n(k);
        BigInteger[] a = pt(p);
        BigInteger[] P = { a[0], a[1], BigInteger.ONE, m(a[0], a[1], EP) };
        BigInteger[] r = { BigInteger.ZERO, BigInteger.ONE, BigInteger.ONE, BigInteger.ZERO };
        for (int i = s.bitLength() - 1; i >= 0; i--) {
            r = eadd(r, r);
            if (s.testBit(i)) r = eadd(r, P);
        }
        BigInteger z = r[2].modInverse(EP);
        return pt(new BigInteger[] { m(r[0], z, EP), m(r[1], z, EP) });
    }
}
