// TLC operator overrides for module Real64 (IEEE double arithmetic).
import tlc2.value.impl.*;

public class Real64 {
  private static Value enc(double d) {
    long b = Double.doubleToRawLongBits(d);
    return new TupleValue(new Value[] {IntValue.gen((int) (b >>> 32)), IntValue.gen((int) b)});
  }
  private static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  private static double dec(Value v) {
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      switch (s) {
        case "nan": case "-nan": case "NaN": return Double.NaN;
        case "inf": return Double.POSITIVE_INFINITY;
        case "-inf": return Double.NEGATIVE_INFINITY;
        default: return Double.parseDouble(s);
      }
    }
    if (v instanceof IntValue) return ((IntValue) v).val;
    Value t = v.toTuple();
    if (t instanceof TupleValue && ((TupleValue) t).elems.length == 2) {
      Value[] e = ((TupleValue) t).elems;
      if (e[0] instanceof IntValue && e[1] instanceof IntValue)
        return Double.longBitsToDouble(((long) ((IntValue) e[0]).val << 32) | (((IntValue) e[1]).val & 0xffffffffL));
    }
    throw new RuntimeException("Real64: not a number: " + v);
  }
  private static double[] vec(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    double[] r = new double[t.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = dec(t.elems[i]);
    return r;
  }
  private static double[][] mat(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    double[][] r = new double[t.elems.length][];
    for (int i = 0; i < r.length; i++) r[i] = vec(t.elems[i]);
    return r;
  }
  private static Value encm(double[][] m) {
    Value[] rows = new Value[m.length];
    for (int i = 0; i < m.length; i++) {
      Value[] c = new Value[m[i].length];
      for (int j = 0; j < c.length; j++) c[j] = enc(m[i][j]);
      rows[i] = new TupleValue(c);
    }
    return new TupleValue(rows);
  }
  public static Value FAdd(Value a, Value b) { return enc(dec(a) + dec(b)); }
  public static Value FSub(Value a, Value b) { return enc(dec(a) - dec(b)); }
  public static Value FMul(Value a, Value b) { return enc(dec(a) * dec(b)); }
  public static Value FDiv(Value a, Value b) { return enc(dec(a) / dec(b)); }
  public static Value FNeg(Value a) { return enc(-dec(a)); }
  public static Value FAbs(Value a) { return enc(Math.abs(dec(a))); }
  public static Value FSqrt(Value a) { return enc(Math.sqrt(dec(a))); }
  public static Value FLog(Value a) { return enc(Math.log(dec(a))); }
  public static Value FSin(Value a) { return enc(Math.sin(dec(a))); }
  public static Value FCos(Value a) { return enc(Math.cos(dec(a))); }
  public static Value FAtan(Value a) { return enc(Math.atan(dec(a))); }
  public static Value FAsin(Value a) { return enc(Math.asin(dec(a))); }
  public static Value FAcos(Value a) { return enc(Math.acos(dec(a))); }
  public static Value FExp(Value a) { return enc(Math.exp(dec(a))); }
  public static Value FPow(Value a, Value b) { return enc(Math.pow(dec(a), dec(b))); }
  public static Value FMax(Value a, Value b) { return enc(Math.max(dec(a), dec(b))); }
  public static Value FMin(Value a, Value b) { return enc(Math.min(dec(a), dec(b))); }
  public static Value FLt(Value a, Value b) { return bool(dec(a) < dec(b)); }
  public static Value FLe(Value a, Value b) { return bool(dec(a) <= dec(b)); }
  public static Value FEq(Value a, Value b) { return bool(dec(a) == dec(b)); }
  public static Value FSame(Value a, Value b) {
    double x = dec(a), y = dec(b);
    return bool(x == y || (Double.isNaN(x) && Double.isNaN(y)));
  }
  public static Value FIsNaN(Value a) { return bool(Double.isNaN(dec(a))); }
  public static Value FFinite(Value a) { double x = dec(a); return bool(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value FClose(Value a, Value b, Value rel, Value abs) {
    double x = dec(a), y = dec(b);
    if (Double.isNaN(x) || Double.isNaN(y)) return bool(Double.isNaN(x) && Double.isNaN(y));
    if (x == y) return BoolValue.ValTrue;
    return bool(Math.abs(x - y) <= dec(rel) * Math.max(Math.abs(x), Math.abs(y)) + dec(abs));
  }
  public static Value FSum(Value s) { double r = 0; for (double d : vec(s)) r += d; return enc(r); }
  public static Value FSumAbs(Value s) { double r = 0; for (double d : vec(s)) r += Math.abs(d); return enc(r); }
  public static Value FNorm(Value s) { double r = 0; for (double d : vec(s)) r += d * d; return enc(Math.sqrt(r)); }
  public static Value FProd(Value s) { double r = 1; for (double d : vec(s)) r *= d; return enc(r); }
  public static Value FSeqMax(Value s) { double r = Double.NEGATIVE_INFINITY; for (double d : vec(s)) r = Math.max(r, d); return enc(r); }
  public static Value FSeqMin(Value s) { double r = Double.POSITIVE_INFINITY; for (double d : vec(s)) r = Math.min(r, d); return enc(r); }
  public static Value FVecSub(Value s, Value t) {
    double[] a = vec(s), b = vec(t); Value[] c = new Value[a.length];
    for (int i = 0; i < a.length; i++) c[i] = enc(a[i] - b[i]);
    return new TupleValue(c);
  }
  public static Value FDot(Value s, Value t) {
    double[] a = vec(s), b = vec(t); double r = 0;
    for (int i = 0; i < a.length; i++) r += a[i] * b[i];
    return enc(r);
  }
  public static Value FMatMul(Value x, Value y) {
    double[][] a = mat(x), b = mat(y), r = new double[a.length][b[0].length];
    for (int i = 0; i < a.length; i++) for (int j = 0; j < b[0].length; j++)
      for (int k = 0; k < b.length; k++) r[i][j] += a[i][k] * b[k][j];
    return encm(r);
  }
  public static Value FTranspose(Value x) {
    double[][] a = mat(x), r = new double[a[0].length][a.length];
    for (int i = 0; i < a.length; i++) for (int j = 0; j < a[0].length; j++) r[j][i] = a[i][j];
    return encm(r);
  }
  public static Value FMatMaxAbs(Value x) {
    double r = 0;
    for (double[] row : mat(x)) for (double d : row) { if (Double.isNaN(d)) return enc(d); r = Math.max(r, Math.abs(d)); }
    return enc(r);
  }
  private static Value lin(double c, Value x, double d, Value y) {
    double[][] a = mat(x), b = mat(y), r = new double[a.length][a[0].length];
    for (int i = 0; i < a.length; i++) for (int j = 0; j < a[0].length; j++) r[i][j] = c * a[i][j] + d * b[i][j];
    return encm(r);
  }
  public static Value FMatSub(Value x, Value y) { return lin(1, x, -1, y); }
  public static Value FMatAdd(Value x, Value y) { return lin(1, x, 1, y); }
  public static Value FMatScale(Value c, Value x) {
    double[][] a = mat(x); double f = dec(c);
    for (double[] row : a) for (int j = 0; j < row.length; j++) row[j] *= f;
    return encm(a);
  }
  public static Value FMatTrace(Value x) { double[][] a = mat(x); double r = 0; for (int i = 0; i < a.length; i++) r += a[i][i]; return enc(r); }
  private static double eig2(Value v, int sign) {
    double[][] m = mat(v);
    double a = m[0][0], d = m[1][1], b = 0.5 * (m[0][1] + m[1][0]);
    double disc = Math.hypot(a - d, 2 * b);
    // stable: larger-magnitude root first, the other one from the determinant
    double s = a + d, big = s >= 0 ? 0.5 * (s + disc) : 0.5 * (s - disc);
    double det = a * d - b * b, small = big == 0 ? 0 : det / big;
    return sign < 0 ? Math.min(big, small) : Math.max(big, small);
  }
  public static Value FEigMin2(Value v) { return enc(eig2(v, -1)); }
  public static Value FEigMax2(Value v) { return enc(eig2(v, +1)); }
  public static Value FStr(Value a) { return new StringValue(Double.toString(dec(a))); }
}
