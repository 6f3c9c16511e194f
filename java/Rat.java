// Exact rational arithmetic for the TLA+ module Rat (spec/Rat.tla).
// TLC loads this class because it has the name of the module: every static
// method below implements the operator of the same name.  Numbers are TLC
// integers or canonical strings: "n", "n/d" (d > 1, reduced), "nan", "inf",
// "-inf".  Irrational functions are computed to about 60 digits.
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;

public class Rat {
  static final MathContext MC = new MathContext(70);
  static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO, TWO = BigInteger.TWO;

  static final class Q {
    final BigInteger n, d;          // d > 0, or d == 0: n in {0: nan, 1: inf, -1: -inf}
    Q(BigInteger n, BigInteger d, boolean reduced) {
      if (!reduced && d.signum() != 0) {
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (!d.equals(ONE)) {
          BigInteger g = n.gcd(d);
          if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
        }
      }
      this.n = n; this.d = d;
    }
    static Q of(BigInteger n) { return new Q(n, ONE, true); }
    static Q of(long n) { return of(BigInteger.valueOf(n)); }
    boolean fin() { return d.signum() != 0; }
    boolean nan() { return d.signum() == 0 && n.signum() == 0; }
    Q neg() { return new Q(n.negate(), d, true); }
    Q abs() { return n.signum() < 0 ? neg() : this; }
    Q add(Q o) {
      if (!fin() || !o.fin()) {
        if (nan() || o.nan()) return NAN;
        if (!fin() && !o.fin()) return n.signum() == o.n.signum() ? this : NAN;
        return fin() ? o : this;
      }
      if (d.equals(o.d)) return new Q(n.add(o.n), d, false);
      return new Q(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d), false);
    }
    Q sub(Q o) { return add(o.neg()); }
    Q mul(Q o) {
      if (!fin() || !o.fin()) {
        if (nan() || o.nan()) return NAN;
        int s = n.signum() * o.n.signum();
        return s == 0 ? NAN : s > 0 ? INF : NINF;
      }
      return new Q(n.multiply(o.n), d.multiply(o.d), false);
    }
    // IEEE-like: x/0 = +-inf (sign of x), 0/0 = nan
    Q div(Q o) {
      if (!fin() || !o.fin()) {
        if (nan() || o.nan()) return NAN;
        if (!fin() && !o.fin()) return NAN;
        if (!o.fin()) return of(0);
        int s = n.signum() * (o.n.signum() < 0 ? -1 : 1);
        return s > 0 ? INF : NINF;
      }
      if (o.n.signum() == 0)
        return n.signum() == 0 ? NAN : n.signum() > 0 ? INF : NINF;
      return new Q(n.multiply(o.d), d.multiply(o.n), false);
    }
    int cmp(Q o) {   // callers exclude nan
      if (!fin() || !o.fin()) {
        int a = fin() ? 0 : n.signum(), b = o.fin() ? 0 : o.n.signum();
        return Integer.compare(a, b);
      }
      return n.multiply(o.d).compareTo(o.n.multiply(d));
    }
    BigDecimal dec() { return new BigDecimal(n).divide(new BigDecimal(d), MC); }
    static Q of(BigDecimal b) {
      BigInteger u = b.unscaledValue();
      int s = b.scale();
      if (s <= 0) return of(u.multiply(BigInteger.TEN.pow(-s)));
      return new Q(u, BigInteger.TEN.pow(s), false);
    }
    public String toString() {
      if (!fin()) return n.signum() == 0 ? "nan" : n.signum() > 0 ? "inf" : "-inf";
      return d.equals(ONE) ? n.toString() : n + "/" + d;
    }
  }
  static final Q NAN = new Q(ZERO, ZERO, true), INF = new Q(ONE, ZERO, true),
                 NINF = new Q(ONE.negate(), ZERO, true);

  static Q q(String s) {
    switch (s) {
      case "nan": return NAN;
      case "inf": return INF;
      case "-inf": return NINF;
    }
    int i = s.indexOf('/');
    if (i < 0) return Q.of(new BigInteger(s));
    return new Q(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)), false);
  }
  static Q q(Value v) {
    if (v instanceof IntValue) return Q.of(((IntValue) v).val);
    if (v instanceof StringValue) return q(((StringValue) v).val.toString());
    throw new RuntimeException("Rat: not a number: " + v);
  }
  static Value v(Q x) { return new StringValue(x.toString()); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] seq(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("Rat: not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  static int i(Value v) { return q(v).n.intValueExact(); }
  static Value tup(Value[] a) { return new TupleValue(a); }
  // flatten nested sequences into a list of numbers
  static void flat(Value v, java.util.ArrayList<Q> out) {
    if (v instanceof IntValue || v instanceof StringValue) { out.add(q(v)); return; }
    for (Value w : seq(v)) flat(w, out);
  }
  static java.util.ArrayList<Q> flat(Value v) {
    java.util.ArrayList<Q> l = new java.util.ArrayList<>();
    flat(v, l);
    return l;
  }

  // ---- scalars
  public static Value RNum(Value a) { return v(q(a)); }
  public static Value RAdd(Value a, Value c) { return v(q(a).add(q(c))); }
  public static Value RSub(Value a, Value c) { return v(q(a).sub(q(c))); }
  public static Value RMul(Value a, Value c) { return v(q(a).mul(q(c))); }
  public static Value RDiv(Value a, Value c) { return v(q(a).div(q(c))); }
  public static Value RNeg(Value a) { return v(q(a).neg()); }
  public static Value RAbs(Value a) { return v(q(a).abs()); }
  public static Value RLt(Value a, Value c) {
    Q x = q(a), y = q(c); return b(!x.nan() && !y.nan() && x.cmp(y) < 0); }
  public static Value RLe(Value a, Value c) {
    Q x = q(a), y = q(c); return b(!x.nan() && !y.nan() && x.cmp(y) <= 0); }
  public static Value REq(Value a, Value c) {
    Q x = q(a), y = q(c); return b(!x.nan() && !y.nan() && x.cmp(y) == 0); }
  // identical, nan included
  public static Value RSame(Value a, Value c) {
    Q x = q(a), y = q(c);
    return b(x.nan() || y.nan() ? x.nan() && y.nan() : x.cmp(y) == 0); }
  public static Value RIsNan(Value a) { return b(q(a).nan()); }
  public static Value RIsFin(Value a) { return b(q(a).fin()); }
  public static Value RIsInt(Value a) { return b(q(a).d.equals(ONE)); }
  static BigInteger fl(Q x) {
    BigInteger[] r = x.n.divideAndRemainder(x.d);
    return r[1].signum() < 0 ? r[0].subtract(ONE) : r[0];
  }
  public static Value RFloor(Value a) { return v(Q.of(fl(q(a)))); }
  static BigInteger rint(Q x) {     // nearest integer, ties to even
    BigInteger f = fl(x.add(new Q(ONE, TWO, true)));
    Q h = x.sub(new Q(ONE, TWO, true));
    if (h.d.equals(ONE) && f.testBit(0)) f = f.subtract(ONE);
    return f;
  }
  public static Value RRint(Value a) { return v(Q.of(rint(q(a)))); }
  public static Value RTrunc(Value a) { Q x = q(a); return v(Q.of(x.n.divide(x.d))); }
  public static Value RMod(Value a, Value c) { return v(Q.of(q(a).n.mod(q(c).n))); }
  public static Value RToInt(Value a) { return IntValue.gen(q(a).n.intValueExact()); }
  public static Value RPow(Value a, Value k) {
    Q x = q(a); int e = i(k);
    if (e >= 0) return v(new Q(x.n.pow(e), x.d.pow(e), false));
    return v(new Q(x.d.pow(-e), x.n.pow(-e), false));
  }
  // |a - c| <= rtol*max(|a|,|c|) + atol; nan matches nan, infinities themselves
  static boolean close(Q x, Q y, Q r, Q t) {
    if (x.nan() || y.nan()) return x.nan() && y.nan();
    if (!x.fin() || !y.fin()) return x.cmp(y) == 0;
    Q m = x.abs().cmp(y.abs()) > 0 ? x.abs() : y.abs();
    return x.sub(y).abs().cmp(r.mul(m).add(t)) <= 0;
  }
  public static Value RClose(Value a, Value c, Value rtol, Value atol) {
    return b(close(q(a), q(c), q(rtol), q(atol))); }
  public static Value RCloseSeq(Value a, Value c, Value rtol, Value atol) {
    java.util.ArrayList<Q> x = flat(a), y = flat(c);
    if (x.size() != y.size()) return b(false);
    Q r = q(rtol), t = q(atol);
    for (int k = 0; k < x.size(); k++) if (!close(x.get(k), y.get(k), r, t)) return b(false);
    return b(true);
  }
  // the double nearest to a (ties to even), as an exact rational
  static Q dbl(Q x) {
    if (!x.fin()) return x;
    if (x.n.signum() == 0) return x;
    Q ax = x.abs();
    int e = ax.n.bitLength() - ax.d.bitLength() - 53;
    if (e < -1074) e = -1074;
    for (;;) {
      Q s = e >= 0 ? new Q(ax.n, ax.d.shiftLeft(e), false) : new Q(ax.n.shiftLeft(-e), ax.d, false);
      BigInteger m = rint(s);
      if (m.bitLength() > 53) {
        if (m.bitLength() == 54 && m.getLowestSetBit() == 53) { /* rounded up to 2^53 */ }
        else { e++; continue; }
      }
      Q r = e >= 0 ? Q.of(m.shiftLeft(e)) : new Q(m, ONE.shiftLeft(-e), false);
      if (r.fin() && r.n.divide(r.d).bitLength() > 1024) r = INF;
      return x.n.signum() < 0 ? r.neg() : r;
    }
  }
  public static Value RDbl(Value a) { return v(dbl(q(a))); }

  // ---- sequences (arguments may be nested: matrices are flattened)
  public static Value RSum(Value s) {
    Q t = Q.of(0);
    for (Q x : flat(s)) t = t.add(x);
    return v(t);
  }
  public static Value RSumSq(Value s) {
    Q t = Q.of(0);
    for (Q x : flat(s)) t = t.add(x.mul(x));
    return v(t);
  }
  public static Value RDot(Value s, Value u) {
    java.util.ArrayList<Q> x = flat(s), y = flat(u);
    Q t = Q.of(0);
    for (int k = 0; k < x.size(); k++) t = t.add(x.get(k).mul(y.get(k)));
    return v(t);
  }
  public static Value RMaxS(Value s) {
    Q m = null;
    for (Q x : flat(s)) { if (x.nan()) return v(NAN); if (m == null || x.cmp(m) > 0) m = x; }
    return v(m);
  }
  public static Value RMinS(Value s) {
    Q m = null;
    for (Q x : flat(s)) { if (x.nan()) return v(NAN); if (m == null || x.cmp(m) < 0) m = x; }
    return v(m);
  }
  public static Value RCountLt(Value s, Value a) {
    int k = 0; Q y = q(a);
    for (Q x : flat(s)) if (x.cmp(y) < 0) k++;
    return IntValue.gen(k);
  }
  public static Value RFlat(Value s) {
    java.util.ArrayList<Q> x = flat(s);
    Value[] r = new Value[x.size()];
    for (int k = 0; k < r.length; k++) r[k] = v(x.get(k));
    return tup(r);
  }
  interface F1 { Q f(Q x); }
  interface F2 { Q f(Q x, Q y); }
  static Value map1(Value s, F1 f) {
    if (s instanceof IntValue || s instanceof StringValue) return v(f.f(q(s)));
    Value[] a = seq(s), r = new Value[a.length];
    for (int k = 0; k < r.length; k++) r[k] = map1(a[k], f);
    return tup(r);
  }
  static Value map2(Value s, Value u, F2 f) {
    if (s instanceof IntValue || s instanceof StringValue) return v(f.f(q(s), q(u)));
    Value[] a = seq(s), c = seq(u), r = new Value[a.length];
    if (a.length != c.length) throw new RuntimeException("Rat: lengths differ");
    for (int k = 0; k < r.length; k++) r[k] = map2(a[k], c[k], f);
    return tup(r);
  }
  public static Value RVAdd(Value s, Value u) { return map2(s, u, (x, y) -> x.add(y)); }
  public static Value RVSub(Value s, Value u) { return map2(s, u, (x, y) -> x.sub(y)); }
  public static Value RVMul(Value s, Value u) { return map2(s, u, (x, y) -> x.mul(y)); }
  public static Value RVDiv(Value s, Value u) { return map2(s, u, (x, y) -> x.div(y)); }
  public static Value RVScale(Value s, Value c) { Q y = q(c); return map1(s, x -> x.mul(y)); }
  public static Value RVShift(Value s, Value c) { Q y = q(c); return map1(s, x -> x.add(y)); }
  public static Value RVAbs(Value s) { return map1(s, x -> x.abs()); }
  public static Value RVSqrt(Value s) { return map1(s, x -> sqrt(x)); }
  public static Value RSort(Value s) {
    java.util.ArrayList<Q> x = flat(s);
    x.sort((p, r) -> p.cmp(r));
    Value[] r = new Value[x.size()];
    for (int k = 0; k < r.length; k++) r[k] = v(x.get(k));
    return tup(r);
  }

  // ---- irrational functions, about 60 digits
  static final MathContext OUT = new MathContext(50);
  static Q out(BigDecimal x) { return Q.of(x.round(OUT).stripTrailingZeros()); }
  static Q sqrt(Q x) {
    if (x.nan() || x.n.signum() < 0) return NAN;
    if (!x.fin()) return INF;
    // exact when it is
    BigInteger[] a = x.n.sqrtAndRemainder(), c = x.d.sqrtAndRemainder();
    if (a[1].signum() == 0 && c[1].signum() == 0) return new Q(a[0], c[0], false);
    return out(x.dec().sqrt(MC));
  }
  public static Value RSqrt(Value a) { return v(sqrt(q(a))); }
  static BigDecimal PI;
  static synchronized BigDecimal pi() {
    if (PI == null) {   // Machin
      PI = atanInv(5).multiply(BigDecimal.valueOf(16)).subtract(atanInv(239).multiply(BigDecimal.valueOf(4)));
    }
    return PI;
  }
  static BigDecimal atanInv(int k) {
    BigDecimal x = BigDecimal.ONE.divide(BigDecimal.valueOf(k), new MathContext(90)), x2 = x.multiply(x);
    BigDecimal t = x, s = x;
    for (int n = 3; n < 400; n += 2) {
      t = t.multiply(x2).negate().round(new MathContext(90));
      BigDecimal u = t.divide(BigDecimal.valueOf(n), new MathContext(90));
      s = s.add(u);
      if (u.abs().compareTo(new BigDecimal("1e-85")) < 0) break;
    }
    return s;
  }
  public static Value RPi() { return v(out(pi())); }
  static BigDecimal exp(BigDecimal x) {
    int k = 0;
    while (x.abs().compareTo(new BigDecimal("0.5")) > 0) { x = x.divide(BigDecimal.valueOf(2), new MathContext(90)); k++; }
    BigDecimal s = BigDecimal.ONE, t = BigDecimal.ONE;
    for (int n = 1; n < 200; n++) {
      t = t.multiply(x).divide(BigDecimal.valueOf(n), new MathContext(90));
      s = s.add(t);
      if (t.abs().compareTo(new BigDecimal("1e-88")) < 0) break;
    }
    for (int n = 0; n < k; n++) s = s.multiply(s).round(new MathContext(90));
    return s;
  }
  public static Value RExp(Value a) {
    Q x = q(a);
    if (x.nan()) return v(NAN);
    if (!x.fin()) return v(x.n.signum() > 0 ? INF : Q.of(0));
    if (x.cmp(Q.of(-2000)) < 0) return v(Q.of(0));
    return v(out(exp(x.dec())));
  }
  // the distribution function of the standard normal distribution
  public static Value RPhi(Value a) {
    Q x = q(a);
    if (x.nan()) return v(NAN);
    if (x.cmp(Q.of(13)) > 0) return v(Q.of(1));
    if (x.cmp(Q.of(-13)) < 0) return v(Q.of(0));
    MathContext m = new MathContext(110);
    BigDecimal z = x.dec(), z2 = z.multiply(z, m).negate().divide(BigDecimal.valueOf(2), m), t = z, s = BigDecimal.ZERO;
    for (int n = 0; n < 1000; n++) {   // t = z (-z^2/2)^n/n!
      BigDecimal u = t.divide(BigDecimal.valueOf(2 * n + 1), m);
      s = s.add(u, m);
      t = t.multiply(z2, m).divide(BigDecimal.valueOf(n + 1), m);
      if (n > 100 && t.abs().compareTo(new BigDecimal("1e-60")) < 0) break;
    }
    BigDecimal c = pi().multiply(BigDecimal.valueOf(2)).sqrt(new MathContext(80));
    return v(Q.of(s.divide(c, m).add(new BigDecimal("0.5")).setScale(40, RoundingMode.HALF_EVEN)));
  }
  static BigDecimal LN2;
  static synchronized BigDecimal ln2() {
    if (LN2 == null) LN2 = lnSmall(new BigDecimal("2"));
    return LN2;
  }
  static BigDecimal lnSmall(BigDecimal x) {   // Newton on exp
    BigDecimal y = BigDecimal.valueOf(Math.log(x.doubleValue()));
    for (int n = 0; n < 6; n++) {
      BigDecimal e = exp(y);
      y = y.add(BigDecimal.valueOf(2).multiply(x.subtract(e)).divide(x.add(e), new MathContext(90)));
      y = y.round(new MathContext(90));
    }
    return y;
  }
  static BigDecimal ln(BigDecimal x) {
    int k = 0;
    // bring into [0.5, 2)
    double lg = (x.precision() - x.scale()) * 3.32192809488736;
    k = (int) Math.floor(lg);
    BigDecimal p = k >= 0 ? new BigDecimal(BigInteger.TWO.pow(k)) : BigDecimal.ONE.divide(new BigDecimal(BigInteger.TWO.pow(-k)));
    x = x.divide(p, new MathContext(90));
    return lnSmall(x).add(ln2().multiply(BigDecimal.valueOf(k)));
  }
  public static Value RLn(Value a) {
    Q x = q(a);
    if (x.nan() || x.n.signum() < 0) return v(NAN);
    if (!x.fin()) return v(INF);
    if (x.n.signum() == 0) return v(NINF);
    if (x.cmp(Q.of(1)) == 0) return v(Q.of(0));
    return v(out(ln(x.dec())));
  }
  // cos(2*pi*k/n) and sin(2*pi*k/n)
  static final ConcurrentHashMap<String, Q[]> TRIG = new ConcurrentHashMap<>();
  static Q[] trig(int k0, int n) {
    final int k = Math.floorMod(k0, n);
    return TRIG.computeIfAbsent(k + "/" + n, z -> trig0(k, n));
  }
  static Q[] trig0(int k, int n) {
    BigDecimal x = pi().multiply(BigDecimal.valueOf(2L * k)).divide(BigDecimal.valueOf(n), new MathContext(90));
    if (2 * k > n) x = x.subtract(pi().multiply(BigDecimal.valueOf(2)));
    BigDecimal x2 = x.multiply(x).round(new MathContext(90)), c = BigDecimal.ZERO, s = BigDecimal.ZERO, t = BigDecimal.ONE;
    for (int j = 0; j < 160; j++) {   // t = x^j/j!
      switch (j % 4) {
        case 0: c = c.add(t); break;
        case 1: s = s.add(t); break;
        case 2: c = c.subtract(t); break;
        default: s = s.subtract(t);
      }
      t = t.multiply(x).divide(BigDecimal.valueOf(j + 1), new MathContext(90));
      if (t.abs().compareTo(new BigDecimal("1e-80")) < 0) break;
    }
    return new Q[] { Q.of(c.setScale(45, RoundingMode.HALF_EVEN)), Q.of(s.setScale(45, RoundingMode.HALF_EVEN)) };
  }
  public static Value RCosTurn(Value k, Value n) { return v(trig(i(k), i(n))[0]); }
  public static Value RSinTurn(Value k, Value n) { return v(trig(i(k), i(n))[1]); }

  // ---- text: sequences of code points
  // the decimal numeral written in a sequence of code points (optional sign,
  // digits, optional fraction, optional exponent), as an exact rational, or
  // "nan" when the text is not one
  public static Value RDecimal(Value s) {
    Value[] a = seq(s);
    StringBuilder sb = new StringBuilder();
    for (Value x : a) sb.append((char) ((IntValue) x).val);
    String t = sb.toString();
    if (!t.matches("[+-]?([0-9]+(\\.[0-9]*)?|\\.[0-9]+)([eE][+-]?[0-9]+)?")) return v(NAN);
    return v(Q.of(new BigDecimal(t)));
  }
  // TLA+ string -> code points
  public static Value Codes(Value s) {
    String t = ((StringValue) s).val.toString();
    Value[] r = new Value[t.length()];
    for (int k = 0; k < r.length; k++) r[k] = IntValue.gen(t.charAt(k));
    return tup(r);
  }
  // code points -> TLA+ string, for messages and comparison
  public static Value Text(Value s) {
    StringBuilder sb = new StringBuilder();
    for (Value x : seq(s)) sb.append((char) ((IntValue) x).val);
    return new StringValue(sb.toString());
  }
}
