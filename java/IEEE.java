// TLC module override for spec/IEEE.tla: IEEE-754 binary64 arithmetic on
// values that the specifications treat as opaque.  A double is a TLA+ string of
// 16 lower-case hex digits (its bit pattern); a vector is a sequence of them.
import tlc2.value.impl.*;
import java.util.*;

public class IEEE {
  static final char[] HEX = "0123456789abcdef".toCharArray();
  static double d(Value v) {
    String s = ((StringValue) v).val.toString();
    return Double.longBitsToDouble(Long.parseUnsignedLong(s, 16));
  }
  static Value h(double x) {
    long b = Double.doubleToRawLongBits(x);
    char[] c = new char[16];
    for (int i = 15; i >= 0; i--) { c[i] = HEX[(int) (b & 15)]; b >>>= 4; }
    return new StringValue(new String(c));
  }
  static int n(Value v) { return ((IntValue) v).val; }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static double[] v(Value x) {
    Value t = (Value) x.toTuple();
    if (t == null) throw new RuntimeException("IEEE: not a sequence: " + x);
    Value[] e = ((TupleValue) t).elems;
    double[] r = new double[e.length];
    for (int i = 0; i < r.length; i++) r[i] = d(e[i]);
    return r;
  }
  static double[][] m(Value x) {
    Value[] e = ((TupleValue) x.toTuple()).elems;
    double[][] r = new double[e.length][];
    for (int i = 0; i < r.length; i++) r[i] = v(e[i]);
    return r;
  }
  static Value hv(double[] x) {
    Value[] e = new Value[x.length];
    for (int i = 0; i < x.length; i++) e[i] = h(x[i]);
    return new TupleValue(e);
  }
  static void same(double[] a, double[] c) {
    if (a.length != c.length) throw new RuntimeException("IEEE: lengths differ " + a.length + " " + c.length);
  }

  // ---- scalars
  public static Value DAdd(Value a, Value c) { return h(d(a) + d(c)); }
  public static Value DSub(Value a, Value c) { return h(d(a) - d(c)); }
  public static Value DMul(Value a, Value c) { return h(d(a) * d(c)); }
  public static Value DDiv(Value a, Value c) { return h(d(a) / d(c)); }
  public static Value DNeg(Value a) { return h(-d(a)); }
  public static Value DAbs(Value a) { return h(Math.abs(d(a))); }
  public static Value DSqrt(Value a) { return h(Math.sqrt(d(a))); }
  public static Value DPow(Value a, Value c) { return h(Math.pow(d(a), d(c))); }
  public static Value DExp(Value a) { return h(Math.exp(d(a))); }
  public static Value DLog(Value a) { return h(Math.log(d(a))); }
  public static Value DSin(Value a) { return h(Math.sin(d(a))); }
  public static Value DCos(Value a) { return h(Math.cos(d(a))); }
  public static Value DMin(Value a, Value c) { return h(Math.min(d(a), d(c))); }
  public static Value DMax(Value a, Value c) { return h(Math.max(d(a), d(c))); }
  public static Value DInt(Value i) { return h((double) n(i)); }
  public static Value DRat(Value p, Value q) { return h((double) n(p) / (double) n(q)); }
  public static Value DDec(Value s) { return h(Double.parseDouble(((StringValue) s).val.toString())); }
  public static Value DShow(Value a) { return new StringValue(Double.toString(d(a))); }
  public static Value DLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value DLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value DEq(Value a, Value c) { return b(d(a) == d(c)); }
  public static Value DIsNaN(Value a) { return b(Double.isNaN(d(a))); }
  public static Value DIsFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  static boolean same1(double x, double y) {
    return (Double.isNaN(x) && Double.isNaN(y)) || Double.doubleToRawLongBits(x) == Double.doubleToRawLongBits(y);
  }
  public static Value DSame(Value a, Value c) { return b(same1(d(a), d(c))); }
  static boolean close1(double x, double y, double rel, double abs) {
    if (x == y) return true;
    if (Double.isNaN(x) || Double.isNaN(y) || Double.isInfinite(x) || Double.isInfinite(y)) return false;
    return Math.abs(x - y) <= Math.max(abs, rel * Math.max(Math.abs(x), Math.abs(y)));
  }
  public static Value DClose(Value a, Value c, Value rel, Value abs) {
    return b(close1(d(a), d(c), d(rel), d(abs)));
  }

  // ---- vectors
  public static Value VAdd(Value a, Value c) { double[] x = v(a), y = v(c); same(x, y); double[] r = new double[x.length]; for (int i = 0; i < r.length; i++) r[i] = x[i] + y[i]; return hv(r); }
  public static Value VSub(Value a, Value c) { double[] x = v(a), y = v(c); same(x, y); double[] r = new double[x.length]; for (int i = 0; i < r.length; i++) r[i] = x[i] - y[i]; return hv(r); }
  public static Value VMul(Value a, Value c) { double[] x = v(a), y = v(c); same(x, y); double[] r = new double[x.length]; for (int i = 0; i < r.length; i++) r[i] = x[i] * y[i]; return hv(r); }
  public static Value VDiv(Value a, Value c) { double[] x = v(a), y = v(c); same(x, y); double[] r = new double[x.length]; for (int i = 0; i < r.length; i++) r[i] = x[i] / y[i]; return hv(r); }
  public static Value VScale(Value s, Value a) { double[] x = v(a); double k = d(s); double[] r = new double[x.length]; for (int i = 0; i < r.length; i++) r[i] = k * x[i]; return hv(r); }
  public static Value VAxpy(Value s, Value a, Value c) { double[] x = v(a), y = v(c); same(x, y); double k = d(s); double[] r = new double[x.length]; for (int i = 0; i < r.length; i++) r[i] = k * x[i] + y[i]; return hv(r); }
  public static Value VDot(Value a, Value c) { double[] x = v(a), y = v(c); same(x, y); double s = 0; for (int i = 0; i < x.length; i++) s += x[i] * y[i]; return h(s); }
  public static Value VSum(Value a) { double s = 0; for (double x : v(a)) s += x; return h(s); }
  static double nrm2(double[] x) { double m = 0; for (double e : x) { if (Double.isNaN(e)) return Double.NaN; m = Math.max(m, Math.abs(e)); } if (m == 0 || Double.isInfinite(m)) return m; double s = 0; for (double e : x) s += (e / m) * (e / m); return m * Math.sqrt(s); }
  static double ninf(double[] x) { double m = 0; for (double e : x) { if (Double.isNaN(e)) return Double.NaN; m = Math.max(m, Math.abs(e)); } return m; }
  public static Value VNorm(Value a) { return h(nrm2(v(a))); }
  public static Value VNormInf(Value a) { return h(ninf(v(a))); }
  public static Value VConst(Value k, Value s) { double[] r = new double[n(k)]; Arrays.fill(r, d(s)); return hv(r); }
  public static Value VSame(Value a, Value c) {
    double[] x = v(a), y = v(c); if (x.length != y.length) return b(false);
    for (int i = 0; i < x.length; i++) if (!same1(x[i], y[i])) return b(false);
    return b(true);
  }
  public static Value VEq(Value a, Value c) {
    double[] x = v(a), y = v(c); if (x.length != y.length) return b(false);
    for (int i = 0; i < x.length; i++) if (!(x[i] == y[i])) return b(false);
    return b(true);
  }
  public static Value VFinite(Value a) { for (double x : v(a)) if (Double.isNaN(x) || Double.isInfinite(x)) return b(false); return b(true); }
  // normwise closeness: ||x-y||_inf <= max(abs, rel*max(||x||,||y||)), lengths equal
  public static Value VClose(Value a, Value c, Value rel, Value abs) {
    double[] x = v(a), y = v(c); if (x.length != y.length) return b(false);
    double e = 0;
    for (int i = 0; i < x.length; i++) {
      if (x[i] == y[i]) continue;
      double q = Math.abs(x[i] - y[i]);
      if (Double.isNaN(q) || Double.isInfinite(q)) return b(false);
      e = Math.max(e, q);
    }
    if (e == 0) return b(true);
    return b(e <= Math.max(d(abs), d(rel) * Math.max(ninf(x), ninf(y))));
  }
  // ---- matrices: sequences of rows
  public static Value MatVec(Value A, Value x0) { double[][] a = m(A); double[] x = v(x0); double[] r = new double[a.length]; for (int i = 0; i < a.length; i++) { same(a[i], x); double s = 0; for (int j = 0; j < x.length; j++) s += a[i][j] * x[j]; r[i] = s; } return hv(r); }
  public static Value MatTVec(Value A, Value x0) { double[][] a = m(A); double[] x = v(x0); int c = a.length == 0 ? 0 : a[0].length; double[] r = new double[c]; for (int i = 0; i < a.length; i++) for (int j = 0; j < c; j++) r[j] += a[i][j] * x[i]; return hv(r); }
}
