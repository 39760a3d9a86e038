import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.util.concurrent.ConcurrentHashMap;

import tla2sany.semantic.ExprOrOpArgNode;
import tlc2.overrides.Evaluation;
import tlc2.overrides.TLAPlusOperator;
import tlc2.tool.TLCState;
import tlc2.tool.coverage.CostModel;
import tlc2.tool.impl.Tool;
import tlc2.util.Context;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * TLC implementation of the operators declared in Reals.tla.
 *
 * A real is the TLA+ string "p/q" (or "p") of an exact rational, or one of
 * "nan", "inf", "-inf".  Exact values whose denominators outgrow 400 bits are
 * rounded to 256 significant bits: TLC's integers are 32 bits wide, and the
 * specification needs arithmetic that is visibly better than the doubles it
 * judges.
 */
public class Reals {
  static final int MAXBITS = 400, KEEP = 256;
  static final MathContext MC = new MathContext(60);

  static final class Num {
    final BigInteger n, d; // d > 0
    final int special; // 0 finite, 1 +inf, -1 -inf, 2 nan
    Num(BigInteger n, BigInteger d) {
      if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      if (d.signum() == 0) { this.n = n; this.d = d; this.special = n.signum() == 0 ? 2 : n.signum(); return; }
      if (!d.equals(BigInteger.ONE)) {
        BigInteger g = n.gcd(d);
        if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
        if (d.bitLength() > MAXBITS && n.signum() != 0) {
          // keep KEEP significant bits: n/d ~ m * 2^-s
          int s = KEEP - n.bitLength() + d.bitLength();
          if (s > 0) {
            BigInteger m = n.shiftLeft(s).divide(d);
            int tz = m.signum() == 0 ? s : Math.min(s, m.getLowestSetBit());
            n = m.shiftRight(tz);
            d = BigInteger.ONE.shiftLeft(s - tz);
          } else {
            n = n.divide(d);
            d = BigInteger.ONE;
          }
        }
      }
      this.n = n; this.d = d; this.special = 0;
    }
    Num(int special) { this.n = BigInteger.ZERO; this.d = BigInteger.ONE; this.special = special; }
    boolean fin() { return special == 0; }
    double dbl() {
      switch (special) {
        case 1: return Double.POSITIVE_INFINITY;
        case -1: return Double.NEGATIVE_INFINITY;
        case 2: return Double.NaN;
      }
      if (d.equals(BigInteger.ONE)) return n.doubleValue();
      return new BigDecimal(n).divide(new BigDecimal(d), MC).doubleValue();
    }
    public String toString() {
      switch (special) {
        case 1: return "inf";
        case -1: return "-inf";
        case 2: return "nan";
      }
      return d.equals(BigInteger.ONE) ? n.toString() : n.toString() + "/" + d.toString();
    }
    int cmp(Num o) {
      if (fin() && o.fin()) return d.equals(o.d) ? n.compareTo(o.n) : n.multiply(o.d).compareTo(o.n.multiply(d));
      double a = special == 0 ? 0 : special, b = o.special == 0 ? 0 : o.special;
      return Double.compare(a, b);
    }
    boolean nan() { return special == 2; }
  }
  static final Num NAN = new Num(2), PINF = new Num(1), NINF = new Num(-1), ZERO = new Num(BigInteger.ZERO, BigInteger.ONE), ONE = new Num(BigInteger.ONE, BigInteger.ONE);

  static final ConcurrentHashMap<String, Num> cache = new ConcurrentHashMap<>();

  static Num get(Value v) {
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      Num r = cache.get(s);
      if (r != null) return r;
      r = parse(s);
      if (cache.size() > 400000) cache.clear();
      cache.put(s, r);
      return r;
    }
    if (v instanceof IntValue) return new Num(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
    throw new RuntimeException("Reals: not a real number: " + v);
  }
  static Num parse(String s) {
    if (s.equals("nan")) return NAN;
    if (s.equals("inf")) return PINF;
    if (s.equals("-inf")) return NINF;
    int k = s.indexOf('/');
    if (k < 0) return new Num(new BigInteger(s), BigInteger.ONE);
    return new Num(new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)));
  }
  static Value put(Num n) {
    String s = n.toString();
    if (cache.size() <= 400000) cache.put(s, n);
    return new StringValue(s);
  }
  static Num of(double x) {
    if (Double.isNaN(x)) return NAN;
    if (Double.isInfinite(x)) return x > 0 ? PINF : NINF;
    BigDecimal b = new BigDecimal(x);
    if (b.scale() <= 0) return new Num(b.toBigIntegerExact(), BigInteger.ONE);
    return new Num(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
  }
  static Num add(Num a, Num b) {
    if (a.fin() && b.fin()) {
      if (a.d.equals(b.d)) return new Num(a.n.add(b.n), a.d);
      return new Num(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
    }
    return of(a.dbl() + b.dbl());
  }
  static Num neg(Num a) {
    if (a.fin()) return new Num(a.n.negate(), a.d);
    return a.special == 2 ? NAN : a.special == 1 ? NINF : PINF;
  }
  static Num mul(Num a, Num b) {
    if (a.fin() && b.fin()) return new Num(a.n.multiply(b.n), a.d.multiply(b.d));
    return of(a.dbl() * b.dbl());
  }
  static Num div(Num a, Num b) {
    if (a.fin() && b.fin() && b.n.signum() != 0) return new Num(a.n.multiply(b.d), a.d.multiply(b.n));
    return of(a.dbl() / b.dbl());
  }
  static Num abs(Num a) { return a.fin() ? new Num(a.n.abs(), a.d) : a.special == -1 ? PINF : a; }

  static TupleValue tup(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("Reals: not a sequence: " + v);
    return (TupleValue) t;
  }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  @TLAPlusOperator(identifier = "RInt", module = "Reals", warn = false)
  public static Value rInt(Value a) { return put(get(a)); }
  @TLAPlusOperator(identifier = "RAdd", module = "Reals", warn = false)
  public static Value rAdd(Value a, Value b) { return put(add(get(a), get(b))); }
  @TLAPlusOperator(identifier = "RSub", module = "Reals", warn = false)
  public static Value rSub(Value a, Value b) { return put(add(get(a), neg(get(b)))); }
  @TLAPlusOperator(identifier = "RMul", module = "Reals", warn = false)
  public static Value rMul(Value a, Value b) { return put(mul(get(a), get(b))); }
  @TLAPlusOperator(identifier = "RDiv", module = "Reals", warn = false)
  public static Value rDiv(Value a, Value b) { return put(div(get(a), get(b))); }
  @TLAPlusOperator(identifier = "RNeg", module = "Reals", warn = false)
  public static Value rNeg(Value a) { return put(neg(get(a))); }
  @TLAPlusOperator(identifier = "RAbs", module = "Reals", warn = false)
  public static Value rAbs(Value a) { return put(abs(get(a))); }
  @TLAPlusOperator(identifier = "RLe", module = "Reals", warn = false)
  public static Value rLe(Value a, Value b) { Num x = get(a), y = get(b); return bool(!x.nan() && !y.nan() && x.cmp(y) <= 0); }
  @TLAPlusOperator(identifier = "RLt", module = "Reals", warn = false)
  public static Value rLt(Value a, Value b) { Num x = get(a), y = get(b); return bool(!x.nan() && !y.nan() && x.cmp(y) < 0); }
  @TLAPlusOperator(identifier = "REq", module = "Reals", warn = false)
  public static Value rEq(Value a, Value b) { Num x = get(a), y = get(b); return bool(!x.nan() && !y.nan() && x.cmp(y) == 0); }
  @TLAPlusOperator(identifier = "RFinite", module = "Reals", warn = false)
  public static Value rFinite(Value a) { return bool(get(a).fin()); }
  @TLAPlusOperator(identifier = "RFloor", module = "Reals", warn = false)
  public static Value rFloor(Value a) {
    Num x = get(a);
    BigInteger[] qr = x.n.divideAndRemainder(x.d);
    BigInteger q = qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
    return IntValue.gen(q.intValueExact());
  }
  @TLAPlusOperator(identifier = "RSum", module = "Reals", warn = false)
  public static Value rSum(Value s) {
    Num acc = ZERO;
    for (Value v : tup(s).elems) acc = add(acc, get(v));
    return put(acc);
  }
  @TLAPlusOperator(identifier = "RDot", module = "Reals", warn = false)
  public static Value rDot(Value s, Value t) {
    Num acc = ZERO;
    Value[] a = tup(s).elems, b = tup(t).elems;
    if (a.length != b.length) throw new RuntimeException("RDot: lengths differ");
    for (int i = 0; i < a.length; i++) acc = add(acc, mul(get(a[i]), get(b[i])));
    return put(acc);
  }
  @TLAPlusOperator(identifier = "RMaxSeq", module = "Reals", warn = false)
  public static Value rMaxSeq(Value s) {
    Num acc = null;
    for (Value v : tup(s).elems) { Num x = get(v); if (x.nan()) return put(NAN); if (acc == null || x.cmp(acc) > 0) acc = x; }
    return put(acc);
  }
  @TLAPlusOperator(identifier = "RMinSeq", module = "Reals", warn = false)
  public static Value rMinSeq(Value s) {
    Num acc = null;
    for (Value v : tup(s).elems) { Num x = get(v); if (x.nan()) return put(NAN); if (acc == null || x.cmp(acc) < 0) acc = x; }
    return put(acc);
  }
  /** |a-b| <= tol * max(1,|a|,|b|); equal infinities and two nans are close. */
  @TLAPlusOperator(identifier = "RClose", module = "Reals", warn = false)
  public static Value rClose(Value a, Value b, Value tol) { return bool(close(get(a), get(b), get(tol))); }
  static boolean close(Num x, Num y, Num tol) {
    if (!x.fin() || !y.fin()) return x.special == y.special;
    Num m = ONE, ax = abs(x), ay = abs(y);
    if (ax.cmp(m) > 0) m = ax;
    if (ay.cmp(m) > 0) m = ay;
    return abs(add(x, neg(y))).cmp(mul(tol, m)) <= 0;
  }
  /** elementwise RClose of two sequences (of sequences ...) with the same shape. */
  @TLAPlusOperator(identifier = "RCloseAll", module = "Reals", warn = false)
  public static Value rCloseAll(Value a, Value b, Value tol) { return bool(closeAll(a, b, get(tol))); }
  static boolean closeAll(Value a, Value b, Num tol) {
    if (a instanceof StringValue || a instanceof IntValue) {
      if (!(b instanceof StringValue || b instanceof IntValue)) return false;
      return close(get(a), get(b), tol);
    }
    Value[] x = tup(a).elems, y = tup(b).elems;
    if (x.length != y.length) return false;
    for (int i = 0; i < x.length; i++) if (!closeAll(x[i], y[i], tol)) return false;
    return true;
  }
  @TLAPlusOperator(identifier = "RSqrt", module = "Reals", warn = false)
  public static Value rSqrt(Value a) {
    Num x = get(a);
    if (!x.fin()) return put(x.special == -1 ? NAN : x);
    if (x.n.signum() < 0) return put(NAN);
    if (x.n.signum() == 0) return put(ZERO);
    BigInteger rn = x.n.sqrt(), rd = x.d.sqrt();
    if (rn.multiply(rn).equals(x.n) && rd.multiply(rd).equals(x.d)) return put(new Num(rn, rd));
    // sqrt(n/d) = sqrt(n*d*4^s)/(d*2^s)
    int s = Math.max(0, 140 - (x.n.bitLength() - x.d.bitLength()) / 2);
    BigInteger r = x.n.multiply(x.d).shiftLeft(2 * s).sqrt();
    return put(new Num(r, x.d.shiftLeft(s)));
  }
  @TLAPlusOperator(identifier = "RExp", module = "Reals", warn = false)
  public static Value rExp(Value a) { return put(of(StrictMath.exp(get(a).dbl()))); }
  @TLAPlusOperator(identifier = "RLn", module = "Reals", warn = false)
  public static Value rLn(Value a) { return put(of(StrictMath.log(get(a).dbl()))); }
  @TLAPlusOperator(identifier = "RTanh", module = "Reals", warn = false)
  public static Value rTanh(Value a) { return put(of(StrictMath.tanh(get(a).dbl()))); }
  @TLAPlusOperator(identifier = "RPow", module = "Reals", warn = false)
  public static Value rPow(Value a, Value b) {
    Num x = get(a), y = get(b);
    if (x.fin() && y.fin() && y.d.equals(BigInteger.ONE) && y.n.bitLength() < 8) {
      int e = y.n.intValue();
      if (e >= 0) return put(new Num(x.n.pow(e), x.d.pow(e)));
      if (x.n.signum() != 0) return put(new Num(x.d.pow(-e), x.n.pow(-e)));
    }
    return put(of(StrictMath.pow(x.dbl(), y.dbl())));
  }
  /** matrix product of two sequences of rows. */
  @TLAPlusOperator(identifier = "RMatMul", module = "Reals", warn = false)
  public static Value rMatMul(Value a, Value b) {
    Value[] A = tup(a).elems, B = tup(b).elems;
    int k = B.length;
    Value[][] br = new Value[k][];
    for (int i = 0; i < k; i++) br[i] = tup(B[i]).elems;
    int c = k == 0 ? 0 : br[0].length;
    Value[] out = new Value[A.length];
    for (int i = 0; i < A.length; i++) {
      Value[] r = tup(A[i]).elems;
      if (r.length != k) throw new RuntimeException("RMatMul: shapes");
      Num[] x = new Num[k];
      for (int l = 0; l < k; l++) x[l] = get(r[l]);
      Value[] o = new Value[c];
      for (int j = 0; j < c; j++) {
        Num acc = ZERO;
        for (int l = 0; l < k; l++) acc = add(acc, mul(x[l], get(br[l][j])));
        o[j] = put(acc);
      }
      out[i] = new TupleValue(o);
    }
    return new TupleValue(out);
  }
  /** Guarded(e): the value of the boolean e, FALSE when e cannot be evaluated. */
  @Evaluation(definition = "Guarded", module = "Reals", warn = false, silent = true)
  public static Value guarded(final Tool tool, final ExprOrOpArgNode[] args, final Context c, final TLCState s0,
      final TLCState s1, final int control, final CostModel cm) {
    try {
      Value v = (Value) tool.eval(args[0], c, s0, s1, control, cm);
      return bool(v instanceof BoolValue && ((BoolValue) v).val);
    } catch (RuntimeException | StackOverflowError e) {
      if (System.getProperty("verif.debug") != null) { System.out.println("GUARDED " + e); }
      return BoolValue.ValFalse;
    }
  }
}
