package verif;

import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Evaluation overrides for BigNat.tla (digits base 2^15, little endian). */
public class Overrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() { return new Class[] { Overrides.class }; }

    static final int SH = 15;

    static BigInteger big(Value v) {
        if (v instanceof TupleValue) return bigOf(((TupleValue) v).elems);
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("BigNat: not a sequence: " + v);
        return bigOf(((TupleValue) t).elems);
    }
    static BigInteger bigOf(Value[] e) {
        int n = e.length;
        byte[] out = new byte[(n * SH) / 8 + 2];
        int L = out.length;
        int acc = 0, nb = 0, pos = L - 1;
        for (int i = 0; i < n; i++) {
            acc |= ((IntValue) e[i]).val << nb;
            nb += SH;
            while (nb >= 8) { out[pos--] = (byte) acc; acc >>>= 8; nb -= 8; }
        }
        if (nb > 0 && pos >= 0) out[pos] = (byte) acc;
        return new BigInteger(1, out);
    }
    static TupleValue val(BigInteger b) {
        if (b.signum() < 0) throw new RuntimeException("BigNat: negative");
        int n = (b.bitLength() + SH - 1) / SH;
        Value[] e = new Value[n];
        byte[] by = b.toByteArray();
        int acc = 0, nb = 0, pos = by.length - 1;
        for (int i = 0; i < n; i++) {
            while (nb < SH && pos >= 0) { acc |= (by[pos--] & 0xff) << nb; nb += 8; }
            e[i] = IntValue.gen(acc & 0x7fff);
            acc >>>= SH; nb -= SH;
        }
        return new TupleValue(e);
    }
    static int[] ints(Value v) {
        TupleValue t = (TupleValue) (v instanceof TupleValue ? v : v.toTuple());
        int[] r = new int[t.elems.length];
        for (int i = 0; i < r.length; i++) r[i] = ((IntValue) t.elems[i]).val;
        return r;
    }
    static TupleValue tup(int[] a) {
        Value[] e = new Value[a.length];
        for (int i = 0; i < a.length; i++) e[i] = IntValue.gen(a[i]);
        return new TupleValue(e);
    }

    @TLAPlusOperator(identifier = "Add", module = "BigNat", warn = false)
    public static Value add(Value a, Value b) { return val(big(a).add(big(b))); }
    @TLAPlusOperator(identifier = "Sub", module = "BigNat", warn = false)
    public static Value sub(Value a, Value b) { return val(big(a).subtract(big(b))); }
    @TLAPlusOperator(identifier = "Mul", module = "BigNat", warn = false)
    public static Value mul(Value a, Value b) { return val(big(a).multiply(big(b))); }
    @TLAPlusOperator(identifier = "Div", module = "BigNat", warn = false)
    public static Value div(Value a, Value b) { return val(big(a).divide(big(b))); }
    @TLAPlusOperator(identifier = "Mod", module = "BigNat", warn = false)
    public static Value mod(Value a, Value b) { return val(big(a).mod(big(b))); }
    @TLAPlusOperator(identifier = "Cmp", module = "BigNat", warn = false)
    public static Value cmp(Value a, Value b) { return IntValue.gen(big(a).compareTo(big(b)) + 1); }
    @TLAPlusOperator(identifier = "PowMod", module = "BigNat", warn = false)
    public static Value powMod(Value a, Value e, Value m) { return val(big(a).modPow(big(e), big(m))); }
    @TLAPlusOperator(identifier = "AddMod", module = "BigNat", warn = false)
    public static Value addMod(Value a, Value b, Value m) { return val(big(a).add(big(b)).mod(big(m))); }
    @TLAPlusOperator(identifier = "SubMod", module = "BigNat", warn = false)
    public static Value subMod(Value a, Value b, Value m) { BigInteger M = big(m); return val(big(a).add(M).subtract(big(b)).mod(M)); }
    @TLAPlusOperator(identifier = "MulMod", module = "BigNat", warn = false)
    public static Value mulMod(Value a, Value b, Value m) { return val(big(a).multiply(big(b)).mod(big(m))); }
    @TLAPlusOperator(identifier = "BitLen", module = "BigNat", warn = false)
    public static Value bitLen(Value a) { return IntValue.gen(big(a).bitLength()); }
    @TLAPlusOperator(identifier = "FromBytes", module = "BigNat", warn = false)
    public static Value fromBytes(Value a) {
        int[] x = ints(a); byte[] b = new byte[x.length];
        for (int i = 0; i < x.length; i++) { if (x[i] < 0 || x[i] > 255) throw new RuntimeException("FromBytes: " + x[i]); b[i] = (byte) x[i]; }
        return val(new BigInteger(1, b));
    }
    @TLAPlusOperator(identifier = "ToBytes", module = "BigNat", warn = false)
    public static Value toBytes(Value a, IntValue n) {
        byte[] by = big(a).toByteArray();
        int[] r = new int[n.val];
        for (int i = 0; i < n.val; i++) { int p = by.length - 1 - i; r[n.val - 1 - i] = p >= 0 ? by[p] & 0xff : 0; }
        return tup(r);
    }
    @TLAPlusOperator(identifier = "ToBits", module = "BigNat", warn = false)
    public static Value toBits(Value a, IntValue n) {
        BigInteger x = big(a); int[] r = new int[n.val];
        for (int i = 0; i < n.val; i++) r[i] = x.testBit(i) ? 1 : 0;
        return tup(r);
    }
    @TLAPlusOperator(identifier = "FromBits", module = "BigNat", warn = false)
    public static Value fromBits(Value a) {
        int[] x = ints(a); BigInteger r = BigInteger.ZERO;
        byte[] by = new byte[x.length / 8 + 1];
        for (int i = 0; i < x.length; i++) {
            if (x[i] != 0 && x[i] != 1) throw new RuntimeException("FromBits: " + x[i]);
            if (x[i] == 1) by[by.length - 1 - i / 8] |= (byte) (1 << (i % 8));
        }
        return val(new BigInteger(1, by));
    }

    // ---- Words.tla: 16-bit limbs, least significant first ----
    @TLAPlusOperator(identifier = "WXor", module = "Words", warn = false)
    public static Value wxor(Value a, Value b) { int[] x = ints(a), y = ints(b), r = new int[x.length]; for (int i = 0; i < r.length; i++) r[i] = x[i] ^ y[i]; return tup(r); }
    @TLAPlusOperator(identifier = "WAnd", module = "Words", warn = false)
    public static Value wand(Value a, Value b) { int[] x = ints(a), y = ints(b), r = new int[x.length]; for (int i = 0; i < r.length; i++) r[i] = x[i] & y[i]; return tup(r); }
    @TLAPlusOperator(identifier = "WNot", module = "Words", warn = false)
    public static Value wnot(Value a) { int[] x = ints(a), r = new int[x.length]; for (int i = 0; i < r.length; i++) r[i] = 65535 - x[i]; return tup(r); }
    @TLAPlusOperator(identifier = "WAdd", module = "Words", warn = false)
    public static Value wadd(Value a, Value b) { int[] x = ints(a), y = ints(b), r = new int[x.length]; int c = 0; for (int i = 0; i < r.length; i++) { int s = x[i] + y[i] + c; r[i] = s & 65535; c = s >>> 16; } return tup(r); }
    static long lng(int[] x) { long v = 0; for (int i = x.length - 1; i >= 0; i--) v = (v << 16) | x[i]; return v; }
    static Value unl(long v, int n) { int[] r = new int[n]; for (int i = 0; i < n; i++) { r[i] = (int) (v & 65535); v >>>= 16; } return tup(r); }
    @TLAPlusOperator(identifier = "WRotl", module = "Words", warn = false)
    public static Value wrotl(Value a, IntValue s) {
        int[] x = ints(a); long v = lng(x); int w = 16 * x.length, r = s.val % w;
        if (r == 0) return unl(v, x.length);
        return unl((v << r) | (v >>> (w - r)), x.length);
    }
    @TLAPlusOperator(identifier = "WShr", module = "Words", warn = false)
    public static Value wshr(Value a, IntValue s) { int[] x = ints(a); return unl(s.val >= 64 ? 0 : lng(x) >>> s.val, x.length); }

    // ---- Keccak.tla: the permutation ----
    static final long[] RC = new long[24];
    static final int[] ROT = new int[25];
    static {
        int r = 1;
        for (int i = 0; i < 24; i++) {
            for (int j = 0; j < 7; j++) {
                if ((r & 1) != 0) RC[i] ^= 1L << ((1 << j) - 1);
                r = (r << 1) ^ ((r >> 7) * 0x171);
            }
        }
        int x = 1, y = 0;
        for (int t = 0; t < 24; t++) { ROT[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64; int ny = (2 * x + 3 * y) % 5; x = y; y = ny; }
    }
    @TLAPlusOperator(identifier = "KeccakF", module = "Keccak", warn = false)
    public static Value keccakF(Value v) {
        Value[] e = ((TupleValue) (v instanceof TupleValue ? v : v.toTuple())).elems;
        long[] a = new long[25], b = new long[25], c = new long[5];
        for (int i = 0; i < 25; i++) a[i] = lng(ints(e[i]));
        for (int r = 0; r < 24; r++) {
            for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
            for (int i = 0; i < 25; i++) a[i] ^= c[(i % 5 + 4) % 5] ^ Long.rotateLeft(c[(i % 5 + 1) % 5], 1);
            for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) b[y + 5 * ((2 * x + 3 * y) % 5)] = Long.rotateLeft(a[x + 5 * y], ROT[x + 5 * y]);
            for (int i = 0; i < 25; i++) { int y5 = i - i % 5, x = i % 5; a[i] = b[i] ^ (~b[y5 + (x + 1) % 5] & b[y5 + (x + 2) % 5]); }
            a[0] ^= RC[r];
        }
        Value[] o = new Value[25];
        for (int i = 0; i < 25; i++) o[i] = unl(a[i], 4);
        return new TupleValue(o);
    }
    // ---- Sha2.tla: the compression functions (h: words, w: sixteen message words, k: round constants) ----
    static long[] words(Value v) {
        Value[] e = ((TupleValue) (v instanceof TupleValue ? v : v.toTuple())).elems;
        long[] r = new long[e.length];
        for (int i = 0; i < r.length; i++) r[i] = lng(ints(e[i]));
        return r;
    }
    @TLAPlusOperator(identifier = "Compress512", module = "Sha2", warn = false)
    public static Value compress512(Value H, Value M, Value K) {
        long[] h = words(H), m = words(M), k = words(K), w = new long[80];
        System.arraycopy(m, 0, w, 0, 16);
        for (int i = 16; i < 80; i++) {
            long s0 = Long.rotateRight(w[i-15], 1) ^ Long.rotateRight(w[i-15], 8) ^ (w[i-15] >>> 7);
            long s1 = Long.rotateRight(w[i-2], 19) ^ Long.rotateRight(w[i-2], 61) ^ (w[i-2] >>> 6);
            w[i] = w[i-16] + s0 + w[i-7] + s1;
        }
        long a=h[0],b=h[1],c=h[2],d=h[3],e=h[4],f=h[5],g=h[6],hh=h[7];
        for (int i = 0; i < 80; i++) {
            long t1 = hh + (Long.rotateRight(e,14)^Long.rotateRight(e,18)^Long.rotateRight(e,41)) + ((e&f)^(~e&g)) + k[i] + w[i];
            long t2 = (Long.rotateRight(a,28)^Long.rotateRight(a,34)^Long.rotateRight(a,39)) + ((a&b)^(a&c)^(b&c));
            hh=g; g=f; f=e; e=d+t1; d=c; c=b; b=a; a=t1+t2;
        }
        long[] o = {h[0]+a,h[1]+b,h[2]+c,h[3]+d,h[4]+e,h[5]+f,h[6]+g,h[7]+hh};
        Value[] r = new Value[8];
        for (int i = 0; i < 8; i++) r[i] = unl(o[i], 4);
        return new TupleValue(r);
    }
    @TLAPlusOperator(identifier = "Compress256", module = "Sha2", warn = false)
    public static Value compress256(Value H, Value M, Value K) {
        long[] H0 = words(H), m = words(M), k = words(K);
        int[] h = new int[8], w = new int[64];
        for (int i = 0; i < 8; i++) h[i] = (int) H0[i];
        for (int i = 0; i < 16; i++) w[i] = (int) m[i];
        for (int i = 16; i < 64; i++) {
            int s0 = Integer.rotateRight(w[i-15], 7) ^ Integer.rotateRight(w[i-15], 18) ^ (w[i-15] >>> 3);
            int s1 = Integer.rotateRight(w[i-2], 17) ^ Integer.rotateRight(w[i-2], 19) ^ (w[i-2] >>> 10);
            w[i] = w[i-16] + s0 + w[i-7] + s1;
        }
        int a=h[0],b=h[1],c=h[2],d=h[3],e=h[4],f=h[5],g=h[6],hh=h[7];
        for (int i = 0; i < 64; i++) {
            int t1 = hh + (Integer.rotateRight(e,6)^Integer.rotateRight(e,11)^Integer.rotateRight(e,25)) + ((e&f)^(~e&g)) + (int) k[i] + w[i];
            int t2 = (Integer.rotateRight(a,2)^Integer.rotateRight(a,13)^Integer.rotateRight(a,22)) + ((a&b)^(a&c)^(b&c));
            hh=g; g=f; f=e; e=d+t1; d=c; c=b; b=a; a=t1+t2;
        }
        int[] o = {h[0]+a,h[1]+b,h[2]+c,h[3]+d,h[4]+e,h[5]+f,h[6]+g,h[7]+hh};
        Value[] r = new Value[8];
        for (int i = 0; i < 8; i++) r[i] = unl(o[i] & 0xffffffffL, 2);
        return new TupleValue(r);
    }

    // ---- Poseidon.tla ----
    static final BigInteger PBN = new BigInteger("21888242871839275222246405745257275088548364400416034343698204186575808495617");
    static final int[] PRP = {56, 57, 56, 60, 60, 63, 64, 63, 60, 66, 60, 65, 70, 60, 64, 68};
    static final class Grain {
        final boolean[] g = new boolean[80]; int at = 0;
        Grain(int t) {
            StringBuilder b = new StringBuilder();
            int[][] f = {{1, 2}, {0, 4}, {254, 12}, {t, 12}, {8, 10}, {PRP[t - 2], 10}};
            for (int[] q : f) for (int i = q[1] - 1; i >= 0; i--) b.append((q[0] >> i) & 1);
            while (b.length() < 80) b.append(1);
            for (int i = 0; i < 80; i++) g[i] = b.charAt(i) == '1';
            for (int i = 0; i < 160; i++) step();
        }
        boolean k(int i) { return g[(at + i) % 80]; }
        boolean step() { boolean n = k(62) ^ k(51) ^ k(38) ^ k(23) ^ k(13) ^ k(0); g[at] = n; at = (at + 1) % 80; return n; }
        BigInteger draw(boolean again) {
            while (true) {
                BigInteger x = BigInteger.ZERO;
                for (int i = 0; i < 254; ) { boolean a = step(), b = step(); if (a) { x = x.shiftLeft(1); if (b) x = x.setBit(0); i++; } }
                if (!again || x.compareTo(PBN) < 0) return x.mod(PBN);
            }
        }
    }
    static final BigInteger[][] PC = new BigInteger[18][];
    static final BigInteger[][][] PM = new BigInteger[18][][];
    static synchronized void params(int t) {
        if (PC[t] != null) return;
        Grain g = new Grain(t);
        BigInteger[] c = new BigInteger[(8 + PRP[t - 2]) * t], d = new BigInteger[2 * t];
        for (int i = 0; i < c.length; i++) c[i] = g.draw(true);
        for (int i = 0; i < d.length; i++) d[i] = g.draw(false);
        PM[t] = new BigInteger[t][t];
        for (int i = 0; i < t; i++) for (int j = 0; j < t; j++) PM[t][i][j] = d[i].add(d[t + j]).modInverse(PBN);
        PC[t] = c;
    }
    @TLAPlusOperator(identifier = "PoseidonHash", module = "Poseidon", warn = false)
    public static Value poseidonHash(Value xs) {
        Value[] e = ((TupleValue) (xs instanceof TupleValue ? xs : xs.toTuple())).elems;
        int t = e.length + 1; params(t);
        BigInteger[] s = new BigInteger[t], q = new BigInteger[t];
        s[0] = BigInteger.ZERO;
        for (int i = 1; i < t; i++) s[i] = big(e[i - 1]);
        BigInteger five = BigInteger.valueOf(5);
        for (int r = 0; r < 8 + PRP[t - 2]; r++) {
            boolean full = r < 4 || r >= 4 + PRP[t - 2];
            for (int i = 0; i < t; i++) { q[i] = s[i].add(PC[t][r * t + i]).mod(PBN); if (full || i == 0) q[i] = q[i].modPow(five, PBN); }
            for (int i = 0; i < t; i++) { BigInteger a = BigInteger.ZERO; for (int j = 0; j < t; j++) a = a.add(PM[t][i][j].multiply(q[j])); s[i] = a.mod(PBN); }
        }
        return val(s[0]);
    }

    // ---- extension fields: polynomials of degree below n with w^n = r ----
    static BigInteger[] poly(Value v) {
        TupleValue t = (TupleValue) (v instanceof TupleValue ? v : v.toTuple());
        BigInteger[] a = new BigInteger[t.elems.length];
        for (int i = 0; i < a.length; i++) a[i] = big(t.elems[i]);
        return a;
    }
    static Value unpoly(BigInteger[] a) {
        Value[] e = new Value[a.length];
        for (int i = 0; i < e.length; i++) e[i] = val(a[i]);
        return new TupleValue(e);
    }
    static BigInteger[] pmul(BigInteger p, BigInteger[] r, BigInteger[] a, BigInteger[] b) {
        int n = r.length;
        BigInteger[] t = new BigInteger[2 * n - 1];
        java.util.Arrays.fill(t, BigInteger.ZERO);
        for (int i = 0; i < n; i++) if (a[i].signum() != 0)
            for (int j = 0; j < n; j++) if (b[j].signum() != 0) t[i + j] = t[i + j].add(a[i].multiply(b[j]));
        for (int k = 2 * n - 2; k >= n; k--) {
            BigInteger c = t[k].mod(p);
            if (c.signum() != 0) for (int j = 0; j < n; j++) if (r[j].signum() != 0) t[k - n + j] = t[k - n + j].add(c.multiply(r[j]));
        }
        BigInteger[] o = new BigInteger[n];
        for (int i = 0; i < n; i++) o[i] = t[i].mod(p);
        return o;
    }
    @TLAPlusOperator(identifier = "PolyMul", module = "ExtField", warn = false)
    public static Value polyMul(Value p, Value r, Value a, Value b) { return unpoly(pmul(big(p), poly(r), poly(a), poly(b))); }
    @TLAPlusOperator(identifier = "PolyPow", module = "ExtField", warn = false)
    public static Value polyPow(Value vp, Value vr, Value va, Value ve) {
        BigInteger p = big(vp), e = big(ve);
        BigInteger[] r = poly(vr), a = poly(va), o = new BigInteger[r.length];
        for (int i = 0; i < o.length; i++) { o[i] = i == 0 ? BigInteger.ONE : BigInteger.ZERO; a[i] = a[i].mod(p); }
        for (int i = e.bitLength() - 1; i >= 0; i--) {
            o = pmul(p, r, o, o);
            if (e.testBit(i)) o = pmul(p, r, o, a);
        }
        return unpoly(o);
    }
    static int deg(BigInteger[] a) { int d = a.length - 1; while (d >= 0 && a[d].signum() == 0) d--; return d; }
    @TLAPlusOperator(identifier = "PolyInv", module = "ExtField", warn = false)
    public static Value polyInv(Value vp, Value vr, Value va) {
        BigInteger p = big(vp);
        BigInteger[] r = poly(vr), a = poly(va);
        int n = r.length;
        BigInteger[] r0 = new BigInteger[n + 1], r1 = new BigInteger[n + 1], t0 = new BigInteger[n + 1], t1 = new BigInteger[n + 1];
        for (int i = 0; i <= n; i++) {
            r0[i] = i == n ? BigInteger.ONE : r[i].negate().mod(p);
            r1[i] = i == n ? BigInteger.ZERO : a[i].mod(p);
            t0[i] = BigInteger.ZERO;
            t1[i] = i == 0 ? BigInteger.ONE : BigInteger.ZERO;
        }
        if (deg(r1) < 0) return va;
        while (deg(r1) > 0) {            // r_k = t_k a modulo the polynomial
            int d1 = deg(r1);
            BigInteger iv = r1[d1].modInverse(p);
            for (int d0 = deg(r0); d0 >= d1; d0 = deg(r0)) {
                BigInteger c = r0[d0].multiply(iv).mod(p);
                int s = d0 - d1;
                for (int j = 0; j <= d1; j++) r0[j + s] = r0[j + s].subtract(c.multiply(r1[j])).mod(p);
                for (int j = 0; j + s <= n; j++) t0[j + s] = t0[j + s].subtract(c.multiply(t1[j])).mod(p);
            }
            BigInteger[] x = r0; r0 = r1; r1 = x;
            x = t0; t0 = t1; t1 = x;
        }
        BigInteger iv = r1[0].modInverse(p);
        BigInteger[] o = new BigInteger[n];
        for (int i = 0; i < n; i++) o[i] = t1[i].multiply(iv).mod(p);
        return unpoly(o);
    }
}
