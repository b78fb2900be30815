import tlc2.value.impl.*;

/** TLC override for module Quad: the same sum as its TLA+ definition, faster. */
public class Quad {
  public static Value LegendreSum(Value c, Value x) {
    return Real64.r(sum(doubles(c), Real64.d(x)));
  }
  static double[] doubles(Value s) {
    Value[] e = Real64.el(s);
    double[] c = new double[e.length];
    for (int k = 0; k < c.length; k++) c[k] = Real64.d(e[k]);
    return c;
  }
  static double sum(double[] c, double z) {
    double p = 0, q = 1, s = 0;
    for (int k = 0; k < c.length; k++) {
      s += c[k] * q;
      double t = ((2 * k + 1) * z * q - k * p) / (k + 1);
      p = q;
      q = t;
    }
    return s;
  }
}
