import java.math.BigInteger;
import tlc2.value.impl.*;

/** Evaluates the operators of module BigRing; the definitions are in BigRingRef.tla. */
public class BigRing {
  private static int w(int k) { return (k + 3) / 4; }
  private static int i(Value v) { return ((IntValue) v).val; }
  private static String s(Value v) { return ((StringValue) v).val.toString(); }
  private static StringValue str(String s) { return new StringValue(s); }
  private static BigInteger el(String x, int w, int n) {
    if (w <= 15) { return BigInteger.valueOf(Long.parseLong(x.substring(n * w, (n + 1) * w), 16)); }
    return new BigInteger(x.substring(n * w, (n + 1) * w), 16);
  }
  private static void put(StringBuilder b, BigInteger x, int k) {
    String h = x.mod(BigInteger.ONE.shiftLeft(k)).toString(16);
    for (int n = h.length(); n < w(k); n++) b.append('0');
    b.append(h);
  }
  private static void same(String x, String y) {
    if (x.length() != y.length()) throw new RuntimeException("vectors of different length");
  }
  public static Value VLen(Value k, Value x) { return IntValue.gen(s(x).length() / w(i(k))); }
  public static Value VAt(Value k, Value x, Value n) {
    int w = w(i(k)); int m = i(n) - 1;
    return str(s(x).substring(m * w, (m + 1) * w));
  }
  private interface Op { BigInteger f(BigInteger a, BigInteger b); }
  private static Value each(Value k, Value x, Value y, Op op) {
    int kk = i(k), w = w(kk); String a = s(x), b = s(y); same(a, b);
    StringBuilder o = new StringBuilder(a.length());
    for (int n = 0; n < a.length() / w; n++) put(o, op.f(el(a, w, n), el(b, w, n)), kk);
    return str(o.toString());
  }
  public static Value VAdd(Value k, Value x, Value y) { return each(k, x, y, BigInteger::add); }
  public static Value VSub(Value k, Value x, Value y) { return each(k, x, y, BigInteger::subtract); }
  public static Value VMul(Value k, Value x, Value y) { return each(k, x, y, BigInteger::multiply); }
  public static Value VScale(Value k, Value x, Value c) {
    int kk = i(k), w = w(kk); String a = s(x); BigInteger m = new BigInteger(s(c), 16);
    StringBuilder o = new StringBuilder(a.length());
    for (int n = 0; n < a.length() / w; n++) put(o, el(a, w, n).multiply(m), kk);
    return str(o.toString());
  }
  public static Value VDot(Value k, Value x, Value y) {
    int kk = i(k), w = w(kk); String a = s(x), b = s(y); same(a, b);
    BigInteger sum = BigInteger.ZERO;
    for (int n = 0; n < a.length() / w; n++) sum = sum.add(el(a, w, n).multiply(el(b, w, n)));
    StringBuilder o = new StringBuilder(); put(o, sum, kk);
    return str(o.toString());
  }
  public static Value VMsb(Value k, Value x) {
    int kk = i(k), w = w(kk); String a = s(x); StringBuilder o = new StringBuilder();
    for (int n = 0; n < a.length() / w; n++) o.append(el(a, w, n).testBit(kk - 1) ? '1' : '0');
    return str(o.toString());
  }
  public static Value VTrunc(Value k, Value m, Value x) {
    int kk = i(k), mm = i(m), w = w(kk); String a = s(x); StringBuilder o = new StringBuilder();
    for (int n = 0; n < a.length() / w; n++) put(o, el(a, w, n), mm);
    return str(o.toString());
  }
  private static int d(char c) { return Character.digit(c, 16); }
  public static Value BXor(Value x, Value y) {
    String a = s(x), b = s(y); same(a, b); StringBuilder o = new StringBuilder(a.length());
    for (int n = 0; n < a.length(); n++) o.append(Character.forDigit(d(a.charAt(n)) ^ d(b.charAt(n)), 16));
    return str(o.toString());
  }
  public static Value BAnd(Value x, Value y) {
    String a = s(x), b = s(y); same(a, b); StringBuilder o = new StringBuilder(a.length());
    for (int n = 0; n < a.length(); n++) o.append(Character.forDigit(d(a.charAt(n)) & d(b.charAt(n)), 16));
    return str(o.toString());
  }
  public static Value Ones(Value x) {
    String a = s(x); int c = 0;
    for (int n = 0; n < a.length(); n++) c += Integer.bitCount(d(a.charAt(n)));
    return IntValue.gen(c);
  }
  public static Value AnyOne(Value x) {
    String a = s(x);
    for (int n = 0; n < a.length(); n++) if (a.charAt(n) != '0') return str("1");
    return str("0");
  }
  public static Value OfNat(Value k, Value n) {
    StringBuilder o = new StringBuilder(); put(o, BigInteger.valueOf(i(n)), i(k));
    return str(o.toString());
  }
  public static Value Expand(Value k, Value x) {
    int w = w(i(k)); String a = s(x); StringBuilder o = new StringBuilder();
    for (int n = 0; n < a.length() * 4; n++) {
      int c = 2 * (n / 8) + (n % 8 < 4 ? 1 : 0);
      for (int j = 1; j < w; j++) o.append('0');
      o.append(((d(a.charAt(c)) >> (n % 4)) & 1) == 1 ? '1' : '0');
    }
    return str(o.toString());
  }
  public static Value Cols(Value e, Value x) {
    int w = 2 * i(e); String a = s(x); int[] c = new int[4 * w];
    for (int n = 0; n < a.length() / w; n++)
      for (int j = 0; j < w; j++) {
        int g = d(a.charAt(n * w + j));
        for (int b = 0; b < 4; b++) c[4 * j + b] += (g >> b) & 1;
      }
    Value[] v = new Value[c.length];
    for (int n = 0; n < c.length; n++) v[n] = IntValue.gen(c[n]);
    return new TupleValue(v);
  }
}
