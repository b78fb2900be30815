import tlc2.value.impl.*;
import tlc2.value.IValue;

/**
 * TLC operator overrides for module Real64: IEEE-754 binary64 arithmetic.
 * A double is the TLA+ tuple <<hi, lo>> of its two 32-bit halves.
 * All methods are pure (safe for several TLC workers).
 */
public class Real64 {
  static double d(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
    return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
  }
  static Value r(double x) {
    long b = Double.doubleToLongBits(x);
    return new TupleValue(new Value[] {IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
  }
  static Value[] el(Value s) { return ((TupleValue) s.toTuple()).elems; }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static int i(Value v) { return ((IntValue) v).val; }

  public static Value RAdd(Value x, Value y) { return r(d(x) + d(y)); }
  public static Value RSub(Value x, Value y) { return r(d(x) - d(y)); }
  public static Value RMul(Value x, Value y) { return r(d(x) * d(y)); }
  public static Value RDiv(Value x, Value y) { return r(d(x) / d(y)); }
  public static Value RNeg(Value x) { return r(-d(x)); }
  public static Value RAbs(Value x) { return r(Math.abs(d(x))); }
  public static Value RExp(Value x) { return r(StrictMath.exp(d(x))); }
  public static Value RExpm1(Value x) { return r(StrictMath.expm1(d(x))); }
  public static Value RLn(Value x) { return r(StrictMath.log(d(x))); }
  public static Value RLog10(Value x) { return r(StrictMath.log10(d(x))); }
  public static Value RSqrt(Value x) { return r(StrictMath.sqrt(d(x))); }
  public static Value RCos(Value x) { return r(StrictMath.cos(d(x))); }
  public static Value RAcos(Value x) { return r(StrictMath.acos(d(x))); }
  public static Value RAtan2(Value y, Value x) { return r(StrictMath.atan2(d(y), d(x))); }
  public static Value RSin(Value x) { return r(StrictMath.sin(d(x))); }
  public static Value RPowI(Value x, Value n) { return r(StrictMath.pow(d(x), i(n))); }
  public static Value RFrac(Value n, Value m) { return r((double) i(n) / (double) i(m)); }
  public static Value RPi() { return r(Math.PI); }
  public static Value RInf() { return r(Double.POSITIVE_INFINITY); }
  public static Value RSum(Value s) {
    double x = 0;
    for (Value v : el(s)) x += d(v);
    return r(x);
  }
  public static Value RDot(Value s, Value t) {
    double x = 0;
    Value[] a = el(s), c = el(t);
    for (int k = 0; k < a.length; k++) x += d(a[k]) * d(c[k]);
    return r(x);
  }
  public static Value RLt(Value x, Value y) { return b(d(x) < d(y)); }
  public static Value RLe(Value x, Value y) { return b(d(x) <= d(y)); }
  public static Value REq(Value x, Value y) { return b(d(x) == d(y)); }
  public static Value RIsNaN(Value x) { return b(Double.isNaN(d(x))); }
  public static Value RIsFinite(Value x) { return b(Double.isFinite(d(x))); }
  public static Value RStr(Value x) { return new StringValue(Double.toString(d(x))); }
  /** the same sequence, with all its elements evaluated once and for all */
  public static Value Eager(Value s) {
    Value t = s.toTuple();
    for (Value v : ((TupleValue) t).elems) v.initialize();
    return t;
  }
  /** the same function, with all its values evaluated once and for all */
  public static Value EagerF(Value f) {
    Value g = f.toFcnRcd();
    return g == null ? f : g;
  }
  /** deterministic pseudo-random number in 0 .. n-1 from a tuple of integers (splitmix64) */
  public static Value RHash(Value key, Value n) {
    long z = 0x9E3779B97F4A7C15L;
    for (Value v : el(key)) {
      z += 0x9E3779B97F4A7C15L * (i(v) + 0x632BE5ABL);
      z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
      z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL;
      z = z ^ (z >>> 31);
    }
    return IntValue.gen((int) Long.remainderUnsigned(z, i(n)));
  }
}
