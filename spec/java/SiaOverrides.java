import java.math.BigInteger;
import java.security.MessageDigest;
import java.util.Arrays;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.FcnLambdaValue;
import tlc2.value.impl.FcnRcdValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Interpretations for the uninterpreted cryptographic operators of module Crypto (BLAKE2b-256, SHA-256 and
 * Ed25519, all written here from their standards, independently of the crates the implementation uses), and faster
 * evaluation of a few operators of module Bytes that also have a TLA+ definition.
 * Byte strings are strings of hex digits.
 */
public class SiaOverrides implements ITLCOverrides {
  @Override
  @SuppressWarnings("rawtypes")
  public Class[] get() { return new Class[] {SiaOverrides.class}; }

  static String str(Value v) { return ((StringValue) v).val.toString(); }

  static byte[] unhex(String s) {
    byte[] b = new byte[s.length() / 2];
    for (int i = 0; i < b.length; i++)
      b[i] = (byte) (Character.digit(s.charAt(2 * i), 16) << 4 | Character.digit(s.charAt(2 * i + 1), 16));
    return b;
  }

  static final char[] HX = "0123456789abcdef".toCharArray();

  static String hex(byte[] b) {
    char[] c = new char[2 * b.length];
    for (int i = 0; i < b.length; i++) { c[2 * i] = HX[b[i] >> 4 & 15]; c[2 * i + 1] = HX[b[i] & 15]; }
    return new String(c);
  }

  // ---- Bytes (these have TLA+ definitions too) ----
  @TLAPlusOperator(identifier = "Same", module = "Bytes", warn = false)
  public static Value same(final Value a, final Value b) {
    try {
      return a.equals(b) ? BoolValue.ValTrue : BoolValue.ValFalse;
    } catch (tlc2.tool.EvalException | util.Assert.TLCRuntimeException e) {
      return BoolValue.ValFalse;   // not comparable
    }
  }

  @TLAPlusOperator(identifier = "Cat", module = "Bytes", warn = false)
  public static Value cat(final Value seq) {
    TupleValue t = (TupleValue) seq.toTuple();
    StringBuilder sb = new StringBuilder();
    for (Value v : t.elems) sb.append(str(v));
    return new StringValue(sb.toString());
  }

  @TLAPlusOperator(identifier = "Rev", module = "Bytes", warn = false)
  public static Value rev(final Value v) {
    String s = str(v);
    StringBuilder sb = new StringBuilder(s.length());
    for (int i = s.length() - 2; i >= 0; i -= 2) sb.append(s, i, i + 2);
    return new StringValue(sb.toString());
  }

  @TLAPlusOperator(identifier = "IsUtf8", module = "Bytes", warn = false)
  public static Value isUtf8(final Value v) {
    try {
      java.nio.charset.StandardCharsets.UTF_8.newDecoder().decode(java.nio.ByteBuffer.wrap(unhex(str(v))));
      return BoolValue.ValTrue;
    } catch (java.nio.charset.CharacterCodingException e) {
      return BoolValue.ValFalse;
    }
  }

  @TLAPlusOperator(identifier = "ByteSeq", module = "Bytes", warn = false)
  public static Value byteSeq(final Value v) {
    byte[] b = unhex(str(v));
    Value[] r = new Value[b.length];
    for (int i = 0; i < b.length; i++) r[i] = IntValue.gen(b[i] & 255);
    return new TupleValue(r);
  }

  @TLAPlusOperator(identifier = "AsciiHex", module = "Bytes", warn = false)
  public static Value asciiHex(final Value v) {
    String s = str(v);
    StringBuilder sb = new StringBuilder(s.length() * 2);
    for (int i = 0; i < s.length(); i++) { char c = s.charAt(i); sb.append(HX[c >> 4 & 15]).append(HX[c & 15]); }
    return new StringValue(sb.toString());
  }

  // ---- Cases: the value itself, but evaluated to the last part ----
  static Value concrete(Value v) {
    if (v instanceof FcnLambdaValue) {
      Value t = ((FcnLambdaValue) v).toTuple();
      v = t != null ? t : ((FcnLambdaValue) v).toFcnRcd();
    }
    if (v instanceof FcnRcdValue) {
      Value t = ((FcnRcdValue) v).toTuple();
      if (t != null) v = t;
      else {
        Value r = ((FcnRcdValue) v).toRcd();
        if (r != null) v = r;
      }
    }
    if (v instanceof TupleValue) {
      Value[] e = ((TupleValue) v).elems;
      for (int i = 0; i < e.length; i++) e[i] = concrete(e[i]);
    } else if (v instanceof RecordValue) {
      Value[] e = ((RecordValue) v).values;
      for (int i = 0; i < e.length; i++) e[i] = concrete(e[i]);
    }
    return v;
  }

  @TLAPlusOperator(identifier = "Now", module = "Bytes", warn = false)
  public static Value now(final Value v) { return concrete(v); }

  // ---- Crypto ----
  @TLAPlusOperator(identifier = "Blake2b", module = "Crypto", warn = false)
  public static Value blake(final Value v) { return new StringValue(hex(blake2b256(unhex(str(v))))); }

  @TLAPlusOperator(identifier = "Sha256", module = "Crypto", warn = false)
  public static Value sha256(final Value v) throws Exception {
    return new StringValue(hex(MessageDigest.getInstance("SHA-256").digest(unhex(str(v)))));
  }

  @TLAPlusOperator(identifier = "EdPublic", module = "Crypto", warn = false)
  public static Value edPublic(final Value seed) throws Exception { return new StringValue(hex(Ed.pub(unhex(str(seed))))); }

  @TLAPlusOperator(identifier = "EdSign", module = "Crypto", warn = false)
  public static Value edSign(final Value seed, final Value msg) throws Exception {
    return new StringValue(hex(Ed.sign(unhex(str(seed)), unhex(str(msg)))));
  }

  @TLAPlusOperator(identifier = "EdVerify", module = "Crypto", warn = false)
  public static Value edVerify(final Value pk, final Value msg, final Value sig) throws Exception {
    return Ed.verify(unhex(str(pk)), unhex(str(msg)), unhex(str(sig))) ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  @TLAPlusOperator(identifier = "EdSmallOrder", module = "Crypto", warn = false)
  public static Value edSmallOrder(final Value pk) {
    BigInteger[] a = Ed.decode(unhex(str(pk)));
    if (a == null) return BoolValue.ValFalse;
    return Arrays.equals(Ed.encode(Ed.mul(BigInteger.valueOf(8), a)), Ed.encode(Ed.ID)) ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  // RFC 7693
  static final long[] IV = {0x6a09e667f3bcc908L, 0xbb67ae8584caa73bL, 0x3c6ef372fe94f82bL, 0xa54ff53a5f1d36f1L,
      0x510e527fade682d1L, 0x9b05688c2b3e6c1fL, 0x1f83d9abfb41bd6bL, 0x5be0cd19137e2179L};
  static final byte[][] SIGMA = {{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
      {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3}, {11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
      {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8}, {9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
      {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9}, {12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
      {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10}, {6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
      {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0}};

  static void g(long[] v, int a, int b, int c, int d, long x, long y) {
    v[a] += v[b] + x; v[d] = Long.rotateRight(v[d] ^ v[a], 32);
    v[c] += v[d];     v[b] = Long.rotateRight(v[b] ^ v[c], 24);
    v[a] += v[b] + y; v[d] = Long.rotateRight(v[d] ^ v[a], 16);
    v[c] += v[d];     v[b] = Long.rotateRight(v[b] ^ v[c], 63);
  }

  static byte[] blake2b256(byte[] in) {
    long[] h = IV.clone();
    h[0] ^= 0x01010000 ^ 32;
    long t = 0;
    int off = 0;
    byte[] blk = new byte[128];
    do {
      int n = Math.min(128, in.length - off);
      Arrays.fill(blk, (byte) 0);
      System.arraycopy(in, off, blk, 0, n);
      off += n;
      t += n;
      long[] v = new long[16], m = new long[16];
      System.arraycopy(h, 0, v, 0, 8);
      System.arraycopy(IV, 0, v, 8, 8);
      v[12] ^= t;
      if (off == in.length) v[14] = ~v[14];
      for (int i = 0; i < 16; i++) for (int j = 7; j >= 0; j--) m[i] = m[i] << 8 | blk[8 * i + j] & 255;
      for (int r = 0; r < 12; r++) {
        byte[] s = SIGMA[r % 10];
        g(v, 0, 4, 8, 12, m[s[0]], m[s[1]]); g(v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
        g(v, 2, 6, 10, 14, m[s[4]], m[s[5]]); g(v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
        g(v, 0, 5, 10, 15, m[s[8]], m[s[9]]); g(v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
        g(v, 2, 7, 8, 13, m[s[12]], m[s[13]]); g(v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
      }
      for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
    } while (off < in.length);
    byte[] out = new byte[32];
    for (int i = 0; i < 32; i++) out[i] = (byte) (h[i / 8] >>> 8 * (i % 8));
    return out;
  }

  /** RFC 8032 Ed25519 over BigInteger, with the cofactorless verification rule (R = [S]B - [k]A, S canonical). */
  static final class Ed {
    static final BigInteger P = BigInteger.ONE.shiftLeft(255).subtract(BigInteger.valueOf(19));
    static final BigInteger L = BigInteger.ONE.shiftLeft(252).add(new BigInteger("27742317777372353535851937790883648493"));
    static final BigInteger D = BigInteger.valueOf(-121665).multiply(BigInteger.valueOf(121666).modInverse(P)).mod(P);
    static final BigInteger I = BigInteger.TWO.modPow(P.subtract(BigInteger.ONE).shiftRight(2), P);
    static final BigInteger[] B = decode(unhex("5866666666666666666666666666666666666666666666666666666666666666"));
    static final BigInteger[] ID = {BigInteger.ZERO, BigInteger.ONE, BigInteger.ONE, BigInteger.ZERO};

    static BigInteger le(byte[] b) {
      byte[] r = new byte[b.length + 1];
      for (int i = 0; i < b.length; i++) r[r.length - 1 - i] = b[i];
      return new BigInteger(r);
    }

    static byte[] le32(BigInteger x) {
      byte[] r = new byte[32];
      byte[] b = x.toByteArray();
      for (int i = 0; i < 32 && i < b.length; i++) r[i] = b[b.length - 1 - i];
      return r;
    }

    /** point decompression; null if not on the curve (y is reduced, x = 0 with sign bit is accepted, as the library does) */
    static BigInteger[] decode(byte[] b) {
      byte[] c = b.clone();
      boolean sign = (c[31] & 128) != 0;
      c[31] &= 127;
      BigInteger y = le(c).mod(P), y2 = y.multiply(y).mod(P);
      BigInteger u = y2.subtract(BigInteger.ONE).mod(P), v = D.multiply(y2).add(BigInteger.ONE).mod(P);
      BigInteger x2 = u.multiply(v.modInverse(P)).mod(P);
      BigInteger x = x2.modPow(P.add(BigInteger.valueOf(3)).shiftRight(3), P);
      if (!x.multiply(x).mod(P).equals(x2)) x = x.multiply(I).mod(P);
      if (!x.multiply(x).mod(P).equals(x2)) return null;
      if (x.testBit(0) != sign) x = P.subtract(x).mod(P);
      return new BigInteger[] {x, y, BigInteger.ONE, x.multiply(y).mod(P)};
    }

    static byte[] encode(BigInteger[] p) {
      BigInteger zi = p[2].modInverse(P), x = p[0].multiply(zi).mod(P), y = p[1].multiply(zi).mod(P);
      byte[] r = le32(y);
      if (x.testBit(0)) r[31] |= (byte) 128;
      return r;
    }

    static BigInteger[] add(BigInteger[] p, BigInteger[] q) {
      BigInteger a = p[1].subtract(p[0]).multiply(q[1].subtract(q[0])).mod(P);
      BigInteger b = p[1].add(p[0]).multiply(q[1].add(q[0])).mod(P);
      BigInteger c = p[3].multiply(q[3]).mod(P).multiply(D).shiftLeft(1).mod(P);
      BigInteger d = p[2].multiply(q[2]).shiftLeft(1).mod(P);
      BigInteger e = b.subtract(a), f = d.subtract(c), g = d.add(c), h = b.add(a);
      return new BigInteger[] {e.multiply(f).mod(P), g.multiply(h).mod(P), f.multiply(g).mod(P), e.multiply(h).mod(P)};
    }

    static BigInteger[] mul(BigInteger k, BigInteger[] p) {
      BigInteger[] r = ID;
      for (int i = k.bitLength() - 1; i >= 0; i--) { r = add(r, r); if (k.testBit(i)) r = add(r, p); }
      return r;
    }

    static byte[] sha(byte[]... parts) throws Exception {
      MessageDigest md = MessageDigest.getInstance("SHA-512");
      for (byte[] x : parts) md.update(x);
      return md.digest();
    }

    static BigInteger scalar(byte[] h) {
      byte[] a = Arrays.copyOf(h, 32);
      a[0] &= (byte) 248; a[31] &= 127; a[31] |= 64;
      return le(a);
    }

    static byte[] pub(byte[] seed) throws Exception { return encode(mul(scalar(sha(seed)), B)); }

    static byte[] sign(byte[] seed, byte[] m) throws Exception {
      byte[] h = sha(seed);
      BigInteger a = scalar(h);
      byte[] A = encode(mul(a, B));
      BigInteger r = le(sha(Arrays.copyOfRange(h, 32, 64), m)).mod(L);
      byte[] R = encode(mul(r, B));
      BigInteger k = le(sha(R, A, m)).mod(L);
      byte[] out = Arrays.copyOf(R, 64);
      System.arraycopy(le32(r.add(k.multiply(a)).mod(L)), 0, out, 32, 32);
      return out;
    }

    static boolean verify(byte[] pk, byte[] m, byte[] sig) throws Exception {
      if (pk.length != 32 || sig.length != 64) return false;
      BigInteger[] A = decode(pk);
      if (A == null) return false;
      byte[] R = Arrays.copyOf(sig, 32);
      BigInteger s = le(Arrays.copyOfRange(sig, 32, 64));
      if (s.compareTo(L) >= 0) return false;
      BigInteger k = le(sha(R, pk, m)).mod(L);
      BigInteger[] nA = {P.subtract(A[0]).mod(P), A[1], A[2], P.subtract(A[3]).mod(P)};
      return Arrays.equals(encode(add(mul(s, B), mul(k, nA))), R);
    }
  }
}
