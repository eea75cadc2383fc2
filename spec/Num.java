// TLC module override for Num.tla: IEEE double arithmetic on decimal strings.
import tlc2.value.impl.*;

public class Num {
  static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    String s = ((StringValue) v).val.toString();
    return Double.parseDouble(s);
  }
  static Value r(double x) { return new StringValue(Double.toString(x)); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] seq(Value s) {
    Value t = s.toTuple();
    if (t == null) throw new RuntimeException("Num: not a sequence: " + s);
    return ((TupleValue) t).elems;
  }
  public static Value NAdd(Value a, Value b) { return r(d(a) + d(b)); }
  public static Value NSub(Value a, Value b) { return r(d(a) - d(b)); }
  public static Value NMul(Value a, Value b) { return r(d(a) * d(b)); }
  public static Value NDiv(Value a, Value b) { return r(d(a) / d(b)); }
  public static Value NPow(Value a, Value b) { return r(StrictMath.pow(d(a), d(b))); }
  public static Value NLog2(Value a) {
    double x = d(a);
    // exact for powers of two
    if (x > 0 && !Double.isInfinite(x)) {
      int e = Math.getExponent(x);
      if (e >= Double.MIN_EXPONENT) {
        double m = x / Math.scalb(1.0, e);
        // m in [1,2): keep accuracy near 1
        return r(e + StrictMath.log(m) / StrictMath.log(2.0));
      }
    }
    return r(StrictMath.log(x) / StrictMath.log(2.0));
  }
  public static Value NLn(Value a) { return r(StrictMath.log(d(a))); }
  public static Value NExp(Value a) { return r(StrictMath.exp(d(a))); }
  public static Value NSqrt(Value a) { return r(StrictMath.sqrt(d(a))); }
  public static Value NCos(Value a) { return r(StrictMath.cos(d(a))); }
  public static Value NSin(Value a) { return r(StrictMath.sin(d(a))); }
  public static Value NLeq(Value a, Value b) { return b(d(a) <= d(b)); }
  public static Value NLt(Value a, Value b) { return b(d(a) < d(b)); }
  public static Value NEq(Value a, Value b) { return b(d(a) == d(b)); }
  public static Value NNorm(Value a) { return r(d(a)); }
  public static Value NFloor(Value a) {
    double x = Math.floor(d(a));
    if (!(Math.abs(x) < 2.0e9)) throw new RuntimeException("NFloor out of range: " + x);
    return IntValue.gen((int) x);
  }
  public static Value NSum(Value s) {
    // Neumaier compensated: closer to the exact sum than any order of plain additions
    double sum = 0, c = 0;
    for (Value e : seq(s)) {
      double x = d(e), t = sum + x;
      if (Double.isInfinite(t) || Double.isNaN(t)) { c = 0; }
      else if (Math.abs(sum) >= Math.abs(x)) c += (sum - t) + x;
      else c += (x - t) + sum;
      sum = t;
    }
    return r(sum + c);
  }
  public static Value NDot(Value s, Value t) {
    Value[] a = seq(s), b = seq(t);
    double x = 0;
    for (int i = 0; i < a.length; i++) x += d(a[i]) * d(b[i]);
    return r(x);
  }
  public static Value NMaxSeq(Value s) {
    Value[] a = seq(s);
    double x = d(a[0]);
    for (Value e : a) { double y = d(e); if (y > x) x = y; }
    return r(x);
  }
  public static Value NValid(Value s) {
    Value[] a = seq(s);
    int n = 0;
    for (Value e : a) if (!Double.isNaN(d(e))) n++;
    Value[] o = new Value[n];
    n = 0;
    for (Value e : a) if (!Double.isNaN(d(e))) o[n++] = e;
    return new TupleValue(o);
  }

  interface F { double f(double x); }
  static Value map(Value s, F f) {
    Value[] a = seq(s);
    Value[] o = new Value[a.length];
    for (int i = 0; i < a.length; i++) o[i] = r(f.f(d(a[i])));
    return new TupleValue(o);
  }
  public static Value NAbsSeq(Value s) { return map(s, Math::abs); }
  public static Value NPowSeq(Value s, Value q) { final double e = d(q); return map(s, x -> StrictMath.pow(x, e)); }
  public static Value NLog2Seq(Value s) {
    Value[] a = seq(s);
    Value[] o = new Value[a.length];
    for (int i = 0; i < a.length; i++) o[i] = NLog2(a[i]);
    return new TupleValue(o);
  }
  public static Value NLnSeq(Value s) { return map(s, StrictMath::log); }
  public static Value NScaleSeq(Value s, Value c) { final double e = d(c); return map(s, x -> x * e); }
  public static Value NShiftSeq(Value s, Value c) { final double e = d(c); return map(s, x -> x + e); }
  public static Value NMulSeq(Value s, Value t) {
    Value[] a = seq(s), b = seq(t);
    if (a.length != b.length) throw new RuntimeException("NMulSeq: lengths differ");
    Value[] o = new Value[a.length];
    for (int i = 0; i < a.length; i++) o[i] = r(d(a[i]) * d(b[i]));
    return new TupleValue(o);
  }
  public static Value NStride(Value s, Value from, Value step) {
    Value[] a = seq(s);
    int f = ((IntValue) from).val - 1, k = ((IntValue) step).val;
    int n = f < a.length ? (a.length - 1 - f) / k + 1 : 0;
    Value[] o = new Value[n];
    for (int i = 0; i < n; i++) o[i] = a[f + i * k];
    return new TupleValue(o);
  }
  public static Value NCumSum(Value s) {
    Value[] a = seq(s);
    Value[] o = new Value[a.length];
    double x = 0;
    for (int i = 0; i < a.length; i++) { x += d(a[i]); o[i] = r(x); }
    return new TupleValue(o);
  }

  // Overrides of operators that Num.tla also defines in TLA+ (same meaning, only faster).
  public static Value IsNaN(Value a) {
    if (a instanceof IntValue) return BoolValue.ValFalse;
    return b(((StringValue) a).val.toString().equals("NaN"));
  }
  public static Value NAbs(Value a) { return r(Math.abs(d(a))); }
  public static Value NMag(Value s) {
    double m = 0;
    for (Value e : seq(s)) { double y = Math.abs(d(e)); if (y > m) m = y; }
    return r(m);
  }
  static boolean near(double x, double y, double sc, double tol) {
    if (Double.isNaN(x) || Double.isNaN(y)) return Double.isNaN(x) && Double.isNaN(y);
    if (x == y) return true;
    if (Double.isInfinite(x) || Double.isInfinite(y)) return false;
    return Math.abs(x - y) <= tol * (Math.abs(sc) + Math.abs(x) + Math.abs(y));
  }
  public static Value NNearTol(Value a, Value c, Value sc, Value tol) { return b(near(d(a), d(c), d(sc), d(tol))); }
}
