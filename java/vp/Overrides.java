package vp;

import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.security.*;
import java.security.spec.*;
import java.util.*;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/**
 * Java realisations of the primitive operators declared in Prim.tla:
 * text/byte conversions, two hash functions and Ed25519. Nothing here knows anything about
 * transactions, wallets or explorers; every rule is written in TLA+ on top of these.
 */
public class Overrides implements ITLCOverrides {
    @Override
    public Class[] get() { return new Class[] { Overrides.class }; }

    // ---- conversions -------------------------------------------------------
    private static final IntValue[] BYTE = new IntValue[256];
    static { for (int i = 0; i < 256; i++) BYTE[i] = IntValue.gen(i); }

    static byte[] bytes(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        byte[] b = new byte[t.elems.length];
        for (int i = 0; i < b.length; i++) b[i] = (byte) ((IntValue) t.elems[i]).val;
        return b;
    }
    static TupleValue tuple(byte[] b) {
        Value[] e = new Value[b.length];
        for (int i = 0; i < b.length; i++) e[i] = BYTE[b[i] & 255];
        return new TupleValue(e);
    }
    static String str(Value v) { return ((StringValue) v).val.toString(); }

    static int digit(char c) { return c < 128 ? Character.digit(c, 16) : -1; }
    static byte[] unhex(String s) {
        if (s.length() % 2 != 0) return null;
        byte[] b = new byte[s.length() / 2];
        for (int i = 0; i < b.length; i++) {
            int h = digit(s.charAt(2 * i)), l = digit(s.charAt(2 * i + 1));
            if (h < 0 || l < 0) return null;
            b[i] = (byte) (16 * h + l);
        }
        return b;
    }

    @TLAPlusOperator(identifier = "IsHex", module = "Prim", warn = false)
    public static Value isHex(final Value v) {
        return v instanceof StringValue && unhex(str(v)) != null ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    @TLAPlusOperator(identifier = "Hex", module = "Prim", warn = false)
    public static Value hex(final StringValue v) {
        byte[] b = unhex(str(v));
        if (b == null) throw new RuntimeException("Hex: not hexadecimal: " + str(v));
        return tuple(b);
    }
    @TLAPlusOperator(identifier = "ToHex", module = "Prim", warn = false)
    public static Value toHex(final Value v) {
        StringBuilder s = new StringBuilder();
        for (byte x : bytes(v)) s.append(String.format("%02x", x & 255));
        return new StringValue(s.toString());
    }
    @TLAPlusOperator(identifier = "Utf8", module = "Prim", warn = false)
    public static Value utf8(final StringValue v) { return tuple(str(v).getBytes(StandardCharsets.UTF_8)); }
    @TLAPlusOperator(identifier = "StrOf", module = "Prim", warn = false)
    public static Value strOf(final Value v) { return new StringValue(new String(bytes(v), StandardCharsets.UTF_8)); }
    @TLAPlusOperator(identifier = "IsDec", module = "Prim", warn = false)
    public static Value isDec(final Value v) {
        return v instanceof StringValue && str(v).matches("[0-9]+") ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    @TLAPlusOperator(identifier = "Dec", module = "Prim", warn = false)
    public static Value dec(final StringValue v) { return nat(new BigInteger(str(v))); }
    @TLAPlusOperator(identifier = "ToDec", module = "Prim", warn = false)
    public static Value toDec(final Value v) {
        byte[] b = bytes(v);
        byte[] r = new byte[b.length + 1];
        for (int i = 0; i < b.length; i++) r[b.length - i] = b[i];
        return new StringValue(new BigInteger(r).toString());
    }
    static TupleValue nat(BigInteger n) {
        if (n.signum() < 0) throw new RuntimeException("Dec: negative");
        if (n.signum() == 0) return new TupleValue(new Value[0]);
        byte[] be = n.toByteArray();
        int off = be[0] == 0 ? 1 : 0;
        byte[] le = new byte[be.length - off];
        for (int i = 0; i < le.length; i++) le[i] = be[be.length - 1 - i];
        return tuple(le);
    }
    @TLAPlusOperator(identifier = "Base64", module = "Prim", warn = false)
    public static Value base64(final StringValue v) { return tuple(Base64.getDecoder().decode(str(v))); }
    @TLAPlusOperator(identifier = "IsBase64", module = "Prim", warn = false)
    public static Value isBase64(final Value v) {
        if (!(v instanceof StringValue)) return BoolValue.ValFalse;
        try { return Base64.getEncoder().encodeToString(Base64.getDecoder().decode(str(v))).equals(str(v)) ? BoolValue.ValTrue : BoolValue.ValFalse; }
        catch (IllegalArgumentException e) { return BoolValue.ValFalse; }
    }
    @TLAPlusOperator(identifier = "ToBase64", module = "Prim", warn = false)
    public static Value toBase64(final Value v) { return new StringValue(Base64.getEncoder().encodeToString(bytes(v))); }
    @TLAPlusOperator(identifier = "Cat", module = "Prim", warn = false)
    public static Value cat(final Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        int n = 0;
        TupleValue[] p = new TupleValue[t.elems.length];
        for (int i = 0; i < p.length; i++) { p[i] = (TupleValue) t.elems[i].toTuple(); n += p[i].elems.length; }
        Value[] r = new Value[n];
        int k = 0;
        for (TupleValue x : p) { System.arraycopy(x.elems, 0, r, k, x.elems.length); k += x.elems.length; }
        return new TupleValue(r);
    }

    // ---- hashes ------------------------------------------------------------
    @TLAPlusOperator(identifier = "Sha256", module = "Prim", warn = false)
    public static Value sha256(final Value v) throws Exception {
        return tuple(MessageDigest.getInstance("SHA-256").digest(bytes(v)));
    }
    @TLAPlusOperator(identifier = "Blake", module = "Prim", warn = false)
    public static Value blake(final Value v) { return tuple(blake2b(bytes(v), 32)); }

    private static final long[] IV = {
        0x6a09e667f3bcc908L, 0xbb67ae8584caa73bL, 0x3c6ef372fe94f82bL, 0xa54ff53a5f1d36f1L,
        0x510e527fade682d1L, 0x9b05688c2b3e6c1fL, 0x1f83d9abfb41bd6bL, 0x5be0cd19137e2179L };
    private static final int[][] SIGMA = {
        {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}, {14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},
        {11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4}, {7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},
        {9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13}, {2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},
        {12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11}, {13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},
        {6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5}, {10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0} };
    static byte[] blake2b(byte[] in, int outlen) {
        long[] h = IV.clone();
        h[0] ^= 0x01010000L ^ outlen;
        int off = 0;
        while (true) {
            int n = Math.min(128, in.length - off);
            boolean last = off + n >= in.length;
            byte[] blk = new byte[128];
            System.arraycopy(in, off, blk, 0, n);
            off += n;
            long[] m = new long[16];
            for (int i = 0; i < 16; i++) for (int j = 7; j >= 0; j--) m[i] = (m[i] << 8) | (blk[8 * i + j] & 255L);
            long[] v = new long[16];
            System.arraycopy(h, 0, v, 0, 8);
            System.arraycopy(IV, 0, v, 8, 8);
            v[12] ^= off;
            if (last) v[14] = ~v[14];
            for (int r = 0; r < 12; r++) {
                int[] s = SIGMA[r % 10];
                g(v, 0, 4, 8, 12, m[s[0]], m[s[1]]); g(v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
                g(v, 2, 6, 10, 14, m[s[4]], m[s[5]]); g(v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
                g(v, 0, 5, 10, 15, m[s[8]], m[s[9]]); g(v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
                g(v, 2, 7, 8, 13, m[s[12]], m[s[13]]); g(v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
            }
            for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
            if (last) break;
        }
        byte[] out = new byte[outlen];
        for (int i = 0; i < outlen; i++) out[i] = (byte) (h[i / 8] >>> (8 * (i % 8)));
        return out;
    }
    private static void g(long[] v, int a, int b, int c, int d, long x, long y) {
        v[a] += v[b] + x; v[d] = Long.rotateRight(v[d] ^ v[a], 32);
        v[c] += v[d]; v[b] = Long.rotateRight(v[b] ^ v[c], 24);
        v[a] += v[b] + y; v[d] = Long.rotateRight(v[d] ^ v[a], 16);
        v[c] += v[d]; v[b] = Long.rotateRight(v[b] ^ v[c], 63);
    }

    // ---- Ed25519 -----------------------------------------------------------
    @TLAPlusOperator(identifier = "EdVerify", module = "Prim", warn = false)
    public static Value edVerify(final Value pk, final Value msg, final Value sig) {
        byte[] k = bytes(pk), s = bytes(sig);
        if (k.length != 32 || s.length != 64) return BoolValue.ValFalse;
        try {
            boolean odd = (k[31] & 0x80) != 0;
            byte[] be = new byte[33];
            for (int i = 0; i < 32; i++) be[32 - i] = k[i];
            be[1] &= 0x7f;
            PublicKey p = KeyFactory.getInstance("Ed25519").generatePublic(
                new EdECPublicKeySpec(NamedParameterSpec.ED25519, new EdECPoint(odd, new BigInteger(be))));
            Signature v = Signature.getInstance("Ed25519");
            v.initVerify(p);
            v.update(bytes(msg));
            return v.verify(s) ? BoolValue.ValTrue : BoolValue.ValFalse;
        } catch (GeneralSecurityException | RuntimeException e) {
            return BoolValue.ValFalse;
        }
    }
    @TLAPlusOperator(identifier = "EdPublic", module = "Prim", warn = false)
    public static Value edPublic(final Value seed) throws Exception {
        final byte[] sd = bytes(seed);
        KeyPairGenerator g = KeyPairGenerator.getInstance("Ed25519");
        g.initialize(NamedParameterSpec.ED25519, new SecureRandom() {
            @Override public void nextBytes(byte[] b) { System.arraycopy(sd, 0, b, 0, b.length); }
        });
        byte[] x = g.generateKeyPair().getPublic().getEncoded();
        return tuple(Arrays.copyOfRange(x, x.length - 32, x.length));
    }
}
