import tlc2.value.impl.*;

/** TLC override for module FirstOrder: the same sum as PhiSumDef, faster. */
public class FirstOrder {
  static double[][][] groups(Value g) {
    Value[] e = Real64.el(g);
    double[][][] r = new double[e.length][][];
    for (int k = 0; k < r.length; k++) {
      RecordValue x = (RecordValue) e[k].toRcd();
      r[k] = new double[][] {
        Quad.doubles(x.select(new StringValue("a"))), Quad.doubles(x.select(new StringValue("c")))};
    }
    return r;
  }
  static double expand(double[][][] g, double x, double y, double z) {
    double s = 0;
    for (double[][] e : g) s += Quad.sum(e[1], e[0][0] * x + e[0][1] * y + e[0][2] * z);
    return s;
  }
  public static Value PhiSum(Value gv, Value gs, Value v, Value s, Value cf, Value sf) {
    double[][][] a = groups(gv), b = groups(gs);
    double[] x = Quad.doubles(v), y = Quad.doubles(s), c = Quad.doubles(cf), d = Quad.doubles(sf);
    double r = 0;
    for (int k = 0; k < c.length; k++)
      r += expand(a, x[0], x[1] * c[k], x[2] * d[k]) * expand(b, y[0], y[1] * c[k], y[2] * d[k]);
    return Real64.r(r);
  }
}
