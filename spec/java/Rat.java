import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC overrides of the operators of Rat.tla with unbounded integers. */
public class Rat {
  static final BigInteger MIN = BigInteger.valueOf(Integer.MIN_VALUE), MAX = BigInteger.valueOf(Integer.MAX_VALUE);
  static BigInteger big(Value v) {
    if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
    if (v instanceof StringValue) return new BigInteger(((StringValue) v).val.toString());
    throw new RuntimeException("Rat: not an integer: " + v);
  }
  static Value val(BigInteger b) {
    if (b.compareTo(MIN) > 0 && b.compareTo(MAX) <= 0) return IntValue.gen(b.intValue());
    return new StringValue(b.toString());
  }
  static Value[] el(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("Rat: not a tuple: " + v);
    return t.elems;
  }
  static BigInteger n(Value a) { return big(el(a)[0]); }
  static BigInteger d(Value a) { return big(el(a)[1]); }
  static boolean small(Value[] a) { return a[0] instanceof IntValue && a[1] instanceof IntValue; }
  static long ln(Value[] a) { return ((IntValue) a[0]).val; }
  static long ld(Value[] a) { return ((IntValue) a[1]).val; }
  static Value mk(BigInteger n, BigInteger d) {
    if (d.signum() == 0) throw new RuntimeException("Rat: division by zero");
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    BigInteger g = n.gcd(d);
    if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
    return new TupleValue(val(n), val(d));
  }
  static long gcd(long a, long b) { a = Math.abs(a); b = Math.abs(b); while (b != 0) { long t = a % b; a = b; b = t; } return a; }
  static Value mkl(long n, long d) {
    if (d == 0) throw new RuntimeException("Rat: division by zero");
    if (d < 0) { n = -n; d = -d; }
    if (d != 1) { long g = gcd(n, d); if (g != 1) { n /= g; d /= g; } }
    if (n > Integer.MIN_VALUE && n <= Integer.MAX_VALUE && d <= Integer.MAX_VALUE)
      return new TupleValue(IntValue.gen((int) n), IntValue.gen((int) d));
    return new TupleValue(val(BigInteger.valueOf(n)), val(BigInteger.valueOf(d)));
  }
  // |n|,|d| < 2^31: products < 2^62, sums of two < 2^63
  public static Value RMake(Value n, Value d) { return mk(big(n), big(d)); }
  public static Value RInt(Value n) { return new TupleValue(n, IntValue.gen(1)); }
  public static Value RNeg(Value a) { Value[] x = el(a); return new TupleValue(val(big(x[0]).negate()), x[1]); }
  public static Value RAdd(Value a, Value b) {
    Value[] x = el(a), y = el(b);
    if (small(x) && small(y)) {
      if (ld(x) == 1 && ld(y) == 1) return mkl(ln(x) + ln(y), 1);
      return mkl(ln(x) * ld(y) + ln(y) * ld(x), ld(x) * ld(y));
    }
    return mk(n(a).multiply(d(b)).add(n(b).multiply(d(a))), d(a).multiply(d(b)));
  }
  public static Value RSub(Value a, Value b) { return RAdd(a, RNeg(b)); }
  public static Value RMul(Value a, Value b) {
    Value[] x = el(a), y = el(b);
    if (small(x) && small(y)) return mkl(ln(x) * ln(y), ld(x) * ld(y));
    return mk(n(a).multiply(n(b)), d(a).multiply(d(b)));
  }
  public static Value RDiv(Value a, Value b) {
    Value[] x = el(a), y = el(b);
    if (small(x) && small(y)) return mkl(ln(x) * ld(y), ld(x) * ln(y));
    return mk(n(a).multiply(d(b)), d(a).multiply(n(b)));
  }
  static int cmp(Value a, Value b) { return n(a).multiply(d(b)).compareTo(n(b).multiply(d(a))); }
  public static Value RLe(Value a, Value b) { return cmp(a, b) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RLt(Value a, Value b) { return cmp(a, b) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value REq(Value a, Value b) { return cmp(a, b) == 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RSign(Value a) { return IntValue.gen(n(a).signum()); }
  public static Value RPow2(Value n) {
    int k = ((IntValue) n).val;
    BigInteger p = BigInteger.ONE.shiftLeft(Math.abs(k));
    return k >= 0 ? mk(p, BigInteger.ONE) : mk(BigInteger.ONE, p);
  }
  public static Value RSum(Value s) {
    Value r = mkl(0, 1);
    for (Value v : el(s)) r = RAdd(r, v);
    return r;
  }
  public static Value RDot(Value s, Value t) {
    Value[] x = el(s), y = el(t);
    if (x.length != y.length) throw new RuntimeException("RDot: lengths " + x.length + " and " + y.length);
    Value r = mkl(0, 1);
    for (int i = 0; i < x.length; i++) r = RAdd(r, RMul(x[i], y[i]));
    return r;
  }
  public static Value RIsSquare(Value a) {
    BigInteger n = n(a), d = d(a);
    if (n.signum() < 0) return BoolValue.ValFalse;
    BigInteger p = n.sqrt(), q = d.sqrt();
    return p.multiply(p).equals(n) && q.multiply(q).equals(d) ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value RSqrt(Value a) {
    BigInteger n = n(a), d = d(a), p = n.sqrt(), q = d.sqrt();
    if (!p.multiply(p).equals(n) || !q.multiply(q).equals(d)) throw new RuntimeException("RSqrt: not a square: " + a);
    return mk(p, q);
  }
}
