// TLC module override for spec/Rat.tla: exact rational arithmetic on BigInteger.
// A rational is a RatValue, an IntValue, or a StringValue token:
//   "n/d"  exact rational,   "n" integer,   decimal/exponent form = the IEEE double it denotes,
//   "nan" "inf" "-inf" = non-finite (arithmetic on them yields "nan"; comparisons are FALSE).
import java.io.*;
import java.math.*;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.*;
import tlc2.value.impl.*;
import util.*;

public class Rat {
  static final BigInteger Z = BigInteger.ZERO, ONE = BigInteger.ONE;

  public static final class R extends Value {
    final BigInteger n, d;      // d > 0, lowest terms lazily; d == 0 means NaN / inf
    String s;
    R(BigInteger n, BigInteger d) {
      if (d.signum() == 0) { this.n = Z; this.d = Z; return; }
      if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      BigInteger g = n.gcd(d);
      if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
      this.n = n; this.d = d;
    }
    R(BigInteger n) { this.n = n; this.d = ONE; }
    boolean nan() { return d.signum() == 0; }
    String str() {
      if (s == null) s = nan() ? "nan" : d.equals(ONE) ? n.toString() : n + "/" + d;
      return s;
    }
    StringValue sv() { return new StringValue(str()); }
    public byte getKind() { return USERVALUE; }
    public int compareTo(Object o) {
      try { return str().compareTo(rat((Value) o).str()); }
      catch (RuntimeException e) { return 1; }
    }
    public boolean equals(Object o) {
      if (o == this) return true;
      if (!(o instanceof R) && !(o instanceof StringValue) && !(o instanceof IntValue)) return false;
      R r; try { r = rat((Value) o); } catch (RuntimeException e) { return false; }
      return n.equals(r.n) && d.equals(r.d);
    }
    public boolean member(Value v) { return false; }
    public boolean isFinite() { return true; }
    public Value takeExcept(ValueExcept e) {
      if (e.idx < e.path.length) throw new RuntimeException("EXCEPT inside a rational");
      return e.value;
    }
    public Value takeExcept(ValueExcept[] e) { throw new RuntimeException("EXCEPT on a rational"); }
    public int size() { return 1; }
    public boolean isNormalized() { return true; }
    public Value normalize() { return this; }
    public void deepNormalize() {}
    public boolean isDefined() { return true; }
    public IValue deepCopy() { return this; }
    public boolean mutates() { return false; }
    public boolean assignable(Value v) { return v instanceof R && equals(v); }
    public long fingerPrint(long fp) { return sv().fingerPrint(fp); }
    public IValue permute(IMVPerm p) { return this; }
    public void write(IValueOutputStream v) throws IOException { sv().write(v); }
    public StringBuffer toString(StringBuffer sb, int off, boolean sw) {
      return sb.append('"').append(str()).append('"');
    }
  }

  static final R NAN = new R(Z, Z), R0 = new R(Z), R1 = new R(ONE);
  static final ConcurrentHashMap<UniqueString, R> cache = new ConcurrentHashMap<>();

  static R parse(String t) {
    int k = t.indexOf('/');
    if (k > 0) return new R(new BigInteger(t.substring(0, k)), new BigInteger(t.substring(k + 1)));
    if (t.equals("nan") || t.equals("inf") || t.equals("-inf")) return NAN;
    boolean dec = false;
    for (int i = 0; i < t.length(); i++) { char c = t.charAt(i); if (c == '.' || c == 'e') dec = true; }
    if (!dec) return new R(new BigInteger(t));
    BigDecimal b = new BigDecimal(Double.parseDouble(t));      // exact value of the double
    if (b.scale() > 0) return new R(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
    return new R(b.toBigIntegerExact());
  }
  static R rat(Value v) {
    if (v instanceof R) return (R) v;
    if (v instanceof IntValue) return new R(BigInteger.valueOf(((IntValue) v).val));
    if (v instanceof StringValue) {
      UniqueString u = ((StringValue) v).val;
      R r = cache.get(u);
      if (r == null) { r = parse(u.toString()); cache.put(u, r); }
      return r;
    }
    throw new RuntimeException("not a rational: " + v);
  }
  static Value[] seq(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    Value t = v.toTuple();
    if (t instanceof TupleValue) return ((TupleValue) t).elems;
    throw new RuntimeException("not a sequence: " + v);
  }
  static BoolValue bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  static R add(R a, R b) {
    if (a.nan() || b.nan()) return NAN;
    if (a.d.equals(b.d)) return a.d.equals(ONE) ? new R(a.n.add(b.n)) : new R(a.n.add(b.n), a.d);
    return new R(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
  }
  static R neg(R a) { return a.nan() ? a : new R(a.n.negate(), a.d); }
  static R mul(R a, R b) {
    if (a.nan() || b.nan()) return NAN;
    if (a.n.signum() == 0 || b.n.signum() == 0) return R0;
    return new R(a.n.multiply(b.n), a.d.multiply(b.d));
  }
  static R div(R a, R b) {
    if (a.nan() || b.nan() || b.n.signum() == 0) return NAN;
    return new R(a.n.multiply(b.d), a.d.multiply(b.n));
  }
  static int cmp(R a, R b) { return a.n.multiply(b.d).compareTo(b.n.multiply(a.d)); }
  static R abs(R a) { return a.n.signum() < 0 ? neg(a) : a; }

  public static Value RNum(Value a) { return rat(a); }
  public static Value RStr(Value a) { return rat(a).sv(); }
  public static Value RFinite(Value a) { return bool(!rat(a).nan()); }
  public static Value RAdd(Value a, Value b) { return add(rat(a), rat(b)); }
  public static Value RSub(Value a, Value b) { return add(rat(a), neg(rat(b))); }
  public static Value RMul(Value a, Value b) { return mul(rat(a), rat(b)); }
  public static Value RDiv(Value a, Value b) { return div(rat(a), rat(b)); }
  public static Value RNeg(Value a) { return neg(rat(a)); }
  public static Value RAbs(Value a) { return abs(rat(a)); }
  public static Value REq(Value a, Value b) { R x = rat(a), y = rat(b); return bool(!x.nan() && !y.nan() && cmp(x, y) == 0); }
  public static Value RLt(Value a, Value b) { R x = rat(a), y = rat(b); return bool(!x.nan() && !y.nan() && cmp(x, y) < 0); }
  public static Value RLe(Value a, Value b) { R x = rat(a), y = rat(b); return bool(!x.nan() && !y.nan() && cmp(x, y) <= 0); }
  public static Value RMax(Value a, Value b) { R x = rat(a), y = rat(b); return x.nan() || y.nan() ? NAN : cmp(x, y) >= 0 ? x : y; }
  public static Value RMin(Value a, Value b) { R x = rat(a), y = rat(b); return x.nan() || y.nan() ? NAN : cmp(x, y) <= 0 ? x : y; }
  public static Value RFloor(Value a) {
    R x = rat(a);
    BigInteger[] q = x.n.divideAndRemainder(x.d);
    BigInteger f = x.n.signum() < 0 && q[1].signum() != 0 ? q[0].subtract(ONE) : q[0];
    return new R(f);
  }

  // ---- bulk forms (each has its one-line definition in Rat.tla) ----
  static R dotg(Value[] c, Value[] x, int start, int stride) {
    // common accumulation without intermediate gcds
    BigInteger n = Z, d = ONE;
    for (int i = 0; i < c.length; i++) {
      R a = rat(c[i]), b = rat(x[start + i * stride]);
      if (a.nan() || b.nan()) return NAN;
      if (a.n.signum() == 0 || b.n.signum() == 0) continue;
      BigInteger pn = a.n.multiply(b.n), pd = a.d.multiply(b.d);
      if (pd.equals(d)) n = n.add(pn);
      else {
        BigInteger g = d.gcd(pd), m = pd.divide(g);
        n = n.multiply(m).add(pn.multiply(d.divide(g)));
        d = d.multiply(m);
      }
    }
    return new R(n, d);
  }
  public static Value RDot(Value c, Value x) { return dotg(seq(c), seq(x), 0, 1); }
  public static Value RGather(Value c, Value x, Value start, Value stride) {
    return dotg(seq(c), seq(x), ((IntValue) start).val - 1, ((IntValue) stride).val);
  }
  public static Value RSum(Value x) { R s = R0; for (Value v : seq(x)) s = add(s, rat(v)); return s; }
  public static Value RMaxAbs(Value x) {
    R m = R0;
    for (Value v : seq(x)) { R r = abs(rat(v)); if (r.nan()) return NAN; if (cmp(r, m) > 0) m = r; }
    return m;
  }
  static boolean close(R a, R b, R tol) {
    if (a.nan() || b.nan() || tol.nan()) return false;
    return cmp(abs(add(a, neg(b))), tol) <= 0;
  }
  public static Value RClose(Value a, Value b, Value tol) { return bool(close(rat(a), rat(b), rat(tol))); }
  public static Value RMismatch(Value a, Value b, Value tol) {
    Value[] x = seq(a), y = seq(b); R t = rat(tol);
    if (x.length != y.length) return IntValue.gen(-1);
    for (int i = 0; i < x.length; i++) if (!close(rat(x[i]), rat(y[i]), t)) return IntValue.gen(i + 1);
    return IntValue.gen(0);
  }
  public static Value RAllFinite(Value x) { for (Value v : seq(x)) if (rat(v).nan()) return BoolValue.ValFalse; return BoolValue.ValTrue; }

  // ---- output of verdicts / generated behaviours ----
  static PrintWriter out;
  public static synchronized Value Emit(Value v) throws IOException {
    if (out == null) out = new PrintWriter(new FileWriter(System.getProperty("emit", "/dev/stdout")));
    out.println(v instanceof StringValue ? ((StringValue) v).val.toString() : v.toString());
    out.flush();
    return BoolValue.ValTrue;
  }
}
