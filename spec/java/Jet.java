import tlc2.value.impl.*;

/** TLC overrides of the operators of Jet.tla (see Rat.java). */
public class Jet {
  static final Value ZERO = new TupleValue(IntValue.gen(0), IntValue.gen(1));
  static boolean z(Value v) { Value[] e = Rat.el(v); return e[0] instanceof IntValue && ((IntValue) e[0]).val == 0; }
  static Value mul(Value a, Value b) { return z(a) || z(b) ? ZERO : Rat.RMul(a, b); }
  static Value add(Value a, Value b) { return z(a) ? b : z(b) ? a : Rat.RAdd(a, b); }
  static Value t(Value a, Value b, Value c, Value d) { return new TupleValue(new Value[] {a, b, c, d}); }
  public static Value JAdd(Value x, Value y) {
    Value[] a = Rat.el(x), b = Rat.el(y);
    return t(add(a[0], b[0]), add(a[1], b[1]), add(a[2], b[2]), add(a[3], b[3]));
  }
  public static Value JMul(Value x, Value y) {
    Value[] a = Rat.el(x), b = Rat.el(y);
    return t(mul(a[0], b[0]), add(mul(a[1], b[0]), mul(a[0], b[1])), add(mul(a[2], b[0]), mul(a[0], b[2])),
             add(add(mul(a[3], b[0]), mul(a[0], b[3])), add(mul(a[1], b[2]), mul(a[2], b[1]))));
  }
  public static Value JSum(Value s) {
    Value r = t(ZERO, ZERO, ZERO, ZERO);
    for (Value v : Rat.el(s)) r = JAdd(r, v);
    return r;
  }
  public static Value JDot(Value s, Value u) {
    Value[] x = Rat.el(s), y = Rat.el(u);
    if (x.length != y.length) throw new RuntimeException("JDot: lengths " + x.length + " and " + y.length);
    Value r = t(ZERO, ZERO, ZERO, ZERO);
    for (int i = 0; i < x.length; i++) r = JAdd(r, JMul(x[i], y[i]));
    return r;
  }
}
