// TLC module override for spec/FloatMath.tla: IEEE-754 binary64 arithmetic.
//
// A real number is a TLA+ value of one of three shapes
//   <<hi, lo>>   the two 32-bit halves of a binary64 number (the normal form),
//   n            an integer (TLC IntValue),
//   "1.25e3"     a decimal literal.
// Every operator accepts any of the three and returns the normal form.
import com.google.gson.*;
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import tlc2.value.impl.*;
import util.UniqueString;

public class FloatMath {
  static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
    TupleValue t = tup(v);
    if (t.elems.length != 2 || !(t.elems[0] instanceof IntValue) || !(t.elems[1] instanceof IntValue))
      throw new RuntimeException("FloatMath: not a number: " + v);
    long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val & 0xffffffffL;
    return Double.longBitsToDouble((hi << 32) | lo);
  }
  static double parse(String s) {
    if (s.equals("inf")) return Double.POSITIVE_INFINITY;
    if (s.equals("-inf")) return Double.NEGATIVE_INFINITY;
    if (s.equals("nan")) return Double.NaN;
    return Double.parseDouble(s);
  }
  static TupleValue tup(Value v) {
    if (v instanceof TupleValue) return (TupleValue) v;
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("FloatMath: not a number or sequence: " + v);
    return (TupleValue) t;
  }
  static TupleValue w(double x) {
    if (x == 0.0) x = 0.0; // no negative zero
    long b = Double.doubleToLongBits(x);
    return new TupleValue(new Value[] {IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
  }
  static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value F(Value a) { return w(d(a)); }
  public static Value FAdd(Value a, Value b) { return w(d(a) + d(b)); }
  public static Value FSub(Value a, Value b) { return w(d(a) - d(b)); }
  public static Value FMul(Value a, Value b) { return w(d(a) * d(b)); }
  public static Value FDiv(Value a, Value b) { return w(d(a) / d(b)); }
  public static Value FNeg(Value a) { return w(-d(a)); }
  public static Value FAbs(Value a) { return w(Math.abs(d(a))); }
  public static Value FSqrt(Value a) { return w(Math.sqrt(d(a))); }
  public static Value FSqr(Value a) { return w(d(a) * d(a)); }
  public static Value FExp(Value a) { return w(Math.exp(d(a))); }
  public static Value FLn(Value a) { return w(Math.log(d(a))); }
  public static Value FLog10(Value a) { return w(Math.log10(d(a))); }
  public static Value FPow(Value a, Value b) { return w(Math.pow(d(a), d(b))); }
  public static Value FSin(Value a) { return w(Math.sin(d(a))); }
  public static Value FCos(Value a) { return w(Math.cos(d(a))); }
  public static Value FTan(Value a) { return w(Math.tan(d(a))); }
  public static Value FAsin(Value a) { return w(Math.asin(d(a))); }
  public static Value FAcos(Value a) { return w(Math.acos(d(a))); }
  public static Value FAtan(Value a) { return w(Math.atan(d(a))); }
  public static Value FAtan2(Value a, Value b) { return w(Math.atan2(d(a), d(b))); }
  public static Value FFloor(Value a) { return w(Math.floor(d(a))); }
  public static Value FRint(Value a) { return w(Math.rint(d(a))); }
  public static Value FMod(Value a, Value b) { double x = d(a), y = d(b); return w(x - y * Math.floor(x / y)); }
  public static Value FMin(Value a, Value b) { return w(Math.min(d(a), d(b))); }
  public static Value FMax(Value a, Value b) { return w(Math.max(d(a), d(b))); }
  public static Value FLt(Value a, Value b2) { return b(d(a) < d(b2)); }
  public static Value FLe(Value a, Value b2) { return b(d(a) <= d(b2)); }
  public static Value FEq(Value a, Value b2) { return b(d(a) == d(b2)); }
  public static Value FIsFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value FIsNaN(Value a) { return b(Double.isNaN(d(a))); }
  public static Value FToInt(Value a) { return IntValue.gen((int) Math.rint(d(a))); }
  public static Value FToStr(Value a) { return new StringValue(Double.toString(d(a))); }
  // nearest binary32 number
  public static Value FSingle(Value a) { return w((double) (float) d(a)); }
  // |a - b| <= abs + rel * max(|a|,|b|); equal infinities are near, NaN is near nothing
  static boolean near(double x, double y, double abs, double rel) {
    if (Double.isNaN(x) || Double.isNaN(y)) return false;
    if (x == y) return true;
    if (Double.isInfinite(x) || Double.isInfinite(y)) return false;
    return Math.abs(x - y) <= abs + rel * Math.max(Math.abs(x), Math.abs(y));
  }
  public static Value FNear(Value a, Value b2, Value abs, Value rel) { return b(near(d(a), d(b2), d(abs), d(rel))); }
  // sequences of numbers
  public static Value FSum(Value s) { double r = 0; for (Value v : tup(s).elems) r += d(v); return w(r); }
  public static Value FMaxSeq(Value s) { double r = Double.NEGATIVE_INFINITY; for (Value v : tup(s).elems) r = Math.max(r, d(v)); return w(r); }
  public static Value FMinSeq(Value s) { double r = Double.POSITIVE_INFINITY; for (Value v : tup(s).elems) r = Math.min(r, d(v)); return w(r); }
  public static Value FDot(Value s, Value t) {
    Value[] x = tup(s).elems, y = tup(t).elems;
    if (x.length != y.length) throw new RuntimeException("FDot: lengths differ");
    double r = 0; for (int i = 0; i < x.length; i++) r += d(x[i]) * d(y[i]); return w(r);
  }
  // sum over a sequence of 2-vectors (complex numbers)
  public static Value CSum(Value s) {
    double re = 0, im = 0;
    for (Value v : tup(s).elems) { Value[] c = tup(v).elems; re += d(c[0]); im += d(c[1]); }
    return new TupleValue(new Value[] {w(re), w(im)});
  }
  // sum over all innermost pairs of a nested sequence of complex numbers
  static void csum(Value a, double[] r) {
    Value[] e = tup(a).elems;
    if (e.length == 2 && isNum(e[0]) && isNum(e[1])) { r[0] += d(e[0]); r[1] += d(e[1]); return; }
    for (Value v : e) csum(v, r);
  }
  public static Value CSumAll(Value s) { double[] r = new double[2]; csum(s, r); return new TupleValue(new Value[] {w(r[0]), w(r[1])}); }
  public static Value CMul(Value a, Value b2) {
    Value[] x = tup(a).elems, y = tup(b2).elems;
    double a1 = d(x[0]), a2 = d(x[1]), b1 = d(y[0]), bb = d(y[1]);
    return new TupleValue(new Value[] {w(a1 * b1 - a2 * bb), w(a1 * bb + a2 * b1)});
  }
  // JSON null (comparing a sequence with a string is an error in TLC)
  public static Value FIsNull(Value a) { return b(a instanceof StringValue && ((StringValue) a).val.toString().equals("null")); }
  // e^(j a)
  public static Value CExpI(Value a) { double x = d(a); return new TupleValue(new Value[] {w(Math.cos(x)), w(Math.sin(x))}); }
  // sum over i of s[i]*t[i] of two sequences of complex numbers (no conjugation)
  public static Value CDot(Value s, Value t) {
    Value[] x = tup(s).elems, y = tup(t).elems;
    if (x.length != y.length) throw new RuntimeException("CDot: lengths differ");
    double re = 0, im = 0;
    for (int i = 0; i < x.length; i++) {
      Value[] p = tup(x[i]).elems, q = tup(y[i]).elems;
      double a1 = d(p[0]), a2 = d(p[1]), b1 = d(q[0]), b2 = d(q[1]);
      re += a1 * b1 - a2 * b2; im += a1 * b2 + a2 * b1;
    }
    return new TupleValue(new Value[] {w(re), w(im)});
  }
  // Bessel function of the first kind and order one, (1/pi) int_0^pi cos(u - x sin u) du by the
  // trapezoidal rule, which converges exponentially for the periodic integrand
  public static Value FBesselJ1(Value a) {
    double x = d(a), r = 0; int n = 64 + 4 * (int) Math.abs(x);
    for (int i = 0; i <= n; i++) {
      double u = Math.PI * i / n;
      r += Math.cos(u - x * Math.sin(u)) * (i == 0 || i == n ? 0.5 : 1);
    }
    return w(r / n);
  }
  // indices of a sequence of numbers, stably sorted ascending
  public static Value FArgSort(Value s) {
    Value[] x = tup(s).elems; final double[] v = new double[x.length]; Integer[] ix = new Integer[x.length];
    for (int i = 0; i < x.length; i++) { v[i] = d(x[i]); ix[i] = i; }
    Arrays.sort(ix, (p, q) -> Double.compare(v[p], v[q]));
    Value[] r = new Value[x.length]; for (int i = 0; i < x.length; i++) r[i] = IntValue.gen(ix[i] + 1);
    return new TupleValue(r);
  }
  static boolean isNum(Value v) {
    if (v instanceof IntValue || v instanceof StringValue) return true;
    if (v instanceof TupleValue) {
      Value[] e = ((TupleValue) v).elems;
      return e.length == 2 && e[0] instanceof IntValue && e[1] instanceof IntValue;
    }
    return false;
  }
  // nested sequences of the same shape, near leaf by leaf
  static boolean deep(Value a, Value b2, double abs, double rel) {
    if (isNum(a) && isNum(b2)) return near(d(a), d(b2), abs, rel);
    if (isNum(a) || isNum(b2)) return false;
    Value[] x = tup(a).elems, y = tup(b2).elems;
    if (x.length != y.length) return false;
    for (int i = 0; i < x.length; i++) if (!deep(x[i], y[i], abs, rel)) return false;
    return true;
  }
  public static Value FNearAll(Value a, Value b2, Value abs, Value rel) { return b(deep(a, b2, d(abs), d(rel))); }
  static boolean fin(Value a) {
    if (isNum(a)) { double x = d(a); return !Double.isNaN(x) && !Double.isInfinite(x); }
    for (Value v : tup(a).elems) if (!fin(v)) return false;
    return true;
  }
  public static Value FAllFinite(Value a) { return b(fin(a)); }
  static void flat(Value a, ArrayList<Value> out) {
    if (isNum(a)) out.add(a); else for (Value v : tup(a).elems) flat(v, out);
  }
  public static Value FFlatten(Value a) { ArrayList<Value> l = new ArrayList<>(); flat(a, l); return new TupleValue(l.toArray(new Value[0])); }

  // JSON: integers without '.', 'e' become TLC integers, all other numbers binary64;
  // the strings "inf", "-inf", "nan" become binary64 as well.
  static Value conv(JsonElement e) {
    if (e.isJsonNull()) return new StringValue("null");
    if (e.isJsonArray()) {
      JsonArray a = e.getAsJsonArray(); Value[] r = new Value[a.size()];
      for (int i = 0; i < r.length; i++) r[i] = conv(a.get(i));
      return new TupleValue(r);
    }
    if (e.isJsonObject()) {
      JsonObject o = e.getAsJsonObject(); int n = o.size(), i = 0;
      UniqueString[] k = new UniqueString[n]; Value[] v = new Value[n];
      for (Map.Entry<String, JsonElement> m : o.entrySet()) { k[i] = UniqueString.of(m.getKey()); v[i++] = conv(m.getValue()); }
      return new RecordValue(k, v, false);
    }
    JsonPrimitive p = e.getAsJsonPrimitive();
    if (p.isBoolean()) return b(p.getAsBoolean());
    String s = p.getAsString();
    if (p.isString()) {
      if (s.equals("inf") || s.equals("-inf") || s.equals("nan")) return w(parse(s));
      return new StringValue(s);
    }
    if (s.indexOf('.') < 0 && s.indexOf('e') < 0 && s.indexOf('E') < 0) {
      long l = Long.parseLong(s);
      if (l >= Integer.MIN_VALUE && l <= Integer.MAX_VALUE) return IntValue.gen((int) l);
    }
    return w(Double.parseDouble(s));
  }
  public static Value FLoadJson(Value path) throws IOException {
    String s = new String(Files.readAllBytes(Paths.get(((StringValue) path).val.toString())), StandardCharsets.UTF_8);
    return conv(JsonParser.parseString(s));
  }
  public static Value FLoadNdJson(Value path) throws IOException {
    ArrayList<Value> r = new ArrayList<>();
    try (BufferedReader in = Files.newBufferedReader(Paths.get(((StringValue) path).val.toString()), StandardCharsets.UTF_8)) {
      for (String l; (l = in.readLine()) != null; ) if (!l.isEmpty()) r.add(conv(JsonParser.parseString(l)));
    }
    return new TupleValue(r.toArray(new Value[0]));
  }
}
