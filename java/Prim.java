import java.util.HashMap;
import tlc2.value.impl.*;
import util.UniqueString;

/** Overrides for module Prim (spec/Prim.tla), loaded by TLC by name. */
public class Prim {
  private static final String HEX = "0123456789abcdef";

  private static String s(Value v) { return ((StringValue) v).val.toString(); }
  private static int n(Value v) { return ((IntValue) v).val; }
  private static Value str(String x) { return new StringValue(x); }

  static byte[] bytes(String x) {
    byte[] b = new byte[x.length() / 2];
    for (int i = 0; i < b.length; i++)
      b[i] = (byte) ((Character.digit(x.charAt(2 * i), 16) << 4)
                    | Character.digit(x.charAt(2 * i + 1), 16));
    return b;
  }

  static String hex(byte[] b) {
    StringBuilder o = new StringBuilder(2 * b.length);
    for (byte c : b) { o.append(HEX.charAt((c >> 4) & 15)); o.append(HEX.charAt(c & 15)); }
    return o.toString();
  }

  public static Value BLen(Value x) { return IntValue.gen(s(x).length() / 2); }

  public static Value Sub(Value x, Value i, Value k) {
    int a = n(i), b = n(k);
    return str(b <= 0 ? "" : s(x).substring(2 * a, 2 * (a + b)));
  }

  private static int byteAt(String x, int i) {
    return (Character.digit(x.charAt(2 * i), 16) << 4) | Character.digit(x.charAt(2 * i + 1), 16);
  }
  private static int bit(String x, int i) { return (byteAt(x, i >> 3) >> (7 - (i & 7))) & 1; }

  public static Value ByteAt(Value x, Value i) { return IntValue.gen(byteAt(s(x), n(i))); }
  public static Value RdU16(Value x, Value i) {
    return IntValue.gen(byteAt(s(x), n(i)) | (byteAt(s(x), n(i) + 1) << 8));
  }
  private static String u8(int v) { return "" + HEX.charAt((v >> 4) & 15) + HEX.charAt(v & 15); }
  public static Value U8(Value v) { return str(u8(n(v))); }
  public static Value U16(Value v) { return str(u8(n(v) & 255) + u8((n(v) >> 8) & 255)); }
  public static Value Bit(Value x, Value i) { return IntValue.gen(bit(s(x), n(i))); }

  public static Value Lcp(Value x, Value y) {
    String a = s(x), b = s(y);
    int m = 4 * Math.min(a.length(), b.length()), c = 0;
    int i = 0;
    while (i < a.length() && i < b.length() && a.charAt(i) == b.charAt(i)) i++;
    c = 4 * (i & ~1);
    while (c < m && bit(a, c) == bit(b, c)) c++;
    return IntValue.gen(c);
  }

  public static Value Pack(Value x, Value sv, Value nv) {
    String a = s(x);
    int st = n(sv), len = n(nv);
    byte[] o = new byte[(len + 7) / 8];
    for (int i = 0; i < len; i++)
      o[i >> 3] |= bit(a, st + i) << (7 - (i & 7));
    return str(hex(o));
  }

  public static Value BitSeq(Value x, Value sv, Value nv) {
    String a = s(x);
    int st = n(sv), len = n(nv);
    Value[] o = new Value[len];
    for (int i = 0; i < len; i++)
      o[i] = IntValue.gen(bit(a, st + i));
    return new TupleValue(o);
  }

  public static Value Rep(Value x, Value k) { return str(s(x).repeat(n(k))); }

  /* BLAKE2b */
  private static final long[] IV = {
    0x6a09e667f3bcc908L, 0xbb67ae8584caa73bL, 0x3c6ef372fe94f82bL, 0xa54ff53a5f1d36f1L,
    0x510e527fade682d1L, 0x9b05688c2b3e6c1fL, 0x1f83d9abfb41bd6bL, 0x5be0cd19137e2179L };
  private static final int[][] SG = {
    { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15 },
    { 14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3 },
    { 11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4 },
    { 7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8 },
    { 9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13 },
    { 2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9 },
    { 12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11 },
    { 13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10 },
    { 6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5 },
    { 10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0 } };

  private static long g1(long w, int c) { return Long.rotateRight(w, c); }

  private static void g(long[] v, int a, int b, int c, int d, long x, long y) {
    v[a] += v[b] + x; v[d] = g1(v[d] ^ v[a], 32);
    v[c] += v[d];     v[b] = g1(v[b] ^ v[c], 24);
    v[a] += v[b] + y; v[d] = g1(v[d] ^ v[a], 16);
    v[c] += v[d];     v[b] = g1(v[b] ^ v[c], 63);
  }

  /** One block: m holds its words, t the bytes so far. */
  private static void compress(long[] h, long[] m, long[] v, long t, boolean last) {
    System.arraycopy(h, 0, v, 0, 8);
    System.arraycopy(IV, 0, v, 8, 8);
    v[12] ^= t;
    if (last) v[14] = ~v[14];
    for (int r = 0; r < 12; r++) {
      int[] q = SG[r % 10];
      g(v, 0, 4, 8, 12, m[q[0]], m[q[1]]);   g(v, 1, 5, 9, 13, m[q[2]], m[q[3]]);
      g(v, 2, 6, 10, 14, m[q[4]], m[q[5]]);  g(v, 3, 7, 11, 15, m[q[6]], m[q[7]]);
      g(v, 0, 5, 10, 15, m[q[8]], m[q[9]]);  g(v, 1, 6, 11, 12, m[q[10]], m[q[11]]);
      g(v, 2, 7, 8, 13, m[q[12]], m[q[13]]); g(v, 3, 4, 9, 14, m[q[14]], m[q[15]]);
    }
    for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
  }

  private static byte[] digest(long[] h, int outlen) {
    byte[] o = new byte[outlen];
    for (int i = 0; i < outlen; i++) o[i] = (byte) (h[i >> 3] >> (8 * (i & 7)));
    return o;
  }

  static byte[] blake2b(byte[] in, byte[] key, int outlen) {
    byte[] data = in;
    if (key.length > 0) {
      data = new byte[128 + in.length];
      System.arraycopy(key, 0, data, 0, key.length);
      System.arraycopy(in, 0, data, 128, in.length);
    }
    long[] h = IV.clone(), m = new long[16], v = new long[16];
    h[0] ^= 0x01010000L ^ ((long) key.length << 8) ^ outlen;
    int blocks = data.length == 0 ? 1 : (data.length + 127) / 128;
    for (int k = 0; k < blocks; k++) {
      boolean last = k == blocks - 1;
      java.util.Arrays.fill(m, 0);
      for (int i = 0; i < 128; i++) {
        int p = 128 * k + i;
        if (p < data.length) m[i >> 3] |= (data[p] & 255L) << (8 * (i & 7));
      }
      compress(h, m, v, last ? data.length : 128L * (k + 1), last);
    }
    return digest(h, outlen);
  }

  private static final int PERIOD = 1028096;      /* a multiple of 128 */

  public static Value HLong(Value hi, Value lo) {
    long len = 65536L * n(hi) + n(lo);
    long[] words = new long[PERIOD / 8];
    for (int i = 0; i < PERIOD; i++)
      words[i >> 3] |= ((i * 31 + i / 256 * 7) & 255L) << (8 * (i & 7));
    long[] h = IV.clone(), m = new long[16], v = new long[16];
    h[0] ^= 0x01010000L ^ 32;
    long blocks = len == 0 ? 1 : (len + 127) / 128;
    for (long k = 0; k < blocks; k++) {
      boolean last = k == blocks - 1;
      System.arraycopy(words, (int) (16 * (k % (PERIOD / 128))), m, 0, 16);
      if (last) {
        int left = (int) (len - 128 * k);
        for (int i = left; i < 128; i++) m[i >> 3] &= ~(255L << (8 * (i & 7)));
      }
      compress(h, m, v, last ? len : 128 * (k + 1), last);
    }
    return str(hex(digest(h, 32)));
  }

  private static final HashMap<String, Value> memo = new HashMap<>();

  public static Value H(Value x) {
    String k = s(x);
    synchronized (memo) {
      Value r = memo.get(k);
      if (r == null) {
        r = str(hex(blake2b(bytes(k), new byte[0], 32)));
        if (memo.size() > 400000) memo.clear();
        memo.put(k, r);
      }
      return r;
    }
  }

  public static Value HKeyed20(Value x, Value k) {
    return str(hex(blake2b(bytes(s(x)), bytes(s(k)), 20)));
  }
}
