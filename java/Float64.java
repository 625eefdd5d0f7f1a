// TLC operator overrides for spec/Float64.tla: IEEE-754 double primitives on <<hi, lo>> bit pairs.
import tlc2.value.impl.*;

public class Float64 {
  static double d(final Value v) {
    final TupleValue t = (TupleValue) v.toTuple();
    if (t == null || t.elems.length != 2) throw new RuntimeException("Float64: not a float: " + v);
    final long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
    return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
  }
  static Value v(final double x) {
    final long b = Double.doubleToRawLongBits(x);
    return new TupleValue(new Value[] { IntValue.gen((int) (b >> 32)), IntValue.gen((int) b) });
  }
  static Value b(final boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  // the same value with nothing left to evaluate (TLC keeps functions as unevaluated lambdas)
  public static Value Force(final Value x) {
    if (x instanceof IntValue || x instanceof StringValue || x instanceof BoolValue || x instanceof ModelValue) return x;
    if (x instanceof RecordValue) {
      final RecordValue r = (RecordValue) x;
      final Value[] vs = new Value[r.values.length];
      for (int i = 0; i < vs.length; i++) vs[i] = Force(r.values[i]);
      return new RecordValue(r.names.clone(), vs, false); // normalising sorts the names in place
    }
    final Value t = x.toTuple();
    if (t == null) return x;
    final Value[] es = ((TupleValue) t).elems, out = new Value[es.length];
    for (int i = 0; i < es.length; i++) out[i] = Force(es[i]);
    return new TupleValue(out);
  }

  public static Value FI(final Value n) { return v(((IntValue) n).val); }
  public static Value FS(final Value s) { return v(Double.parseDouble(((StringValue) s).val.toString())); }
  public static Value FAdd(final Value x, final Value y) { return v(d(x) + d(y)); }
  public static Value FSub(final Value x, final Value y) { return v(d(x) - d(y)); }
  public static Value FMul(final Value x, final Value y) { return v(d(x) * d(y)); }
  public static Value FDiv(final Value x, final Value y) { return v(d(x) / d(y)); }
  public static Value FNeg(final Value x) { return v(-d(x)); }
  public static Value FAbs(final Value x) { return v(Math.abs(d(x))); }
  public static Value FSqrt(final Value x) { return v(Math.sqrt(d(x))); }
  public static Value FExp(final Value x) { return v(Math.exp(d(x))); }
  public static Value FExpm1(final Value x) { return v(Math.expm1(d(x))); }
  public static Value FLn(final Value x) { return v(Math.log(d(x))); }
  public static Value FLn1p(final Value x) { return v(Math.log1p(d(x))); }
  public static Value FPow(final Value x, final Value y) { return v(Math.pow(d(x), d(y))); }
  public static Value FHypot(final Value x, final Value y) { return v(Math.hypot(d(x), d(y))); }
  public static Value FMin(final Value x, final Value y) {
    final double a = d(x), c = d(y);
    return v(Double.isNaN(a) ? c : Double.isNaN(c) ? a : Math.min(a, c));
  }
  public static Value FMax(final Value x, final Value y) {
    final double a = d(x), c = d(y);
    return v(Double.isNaN(a) ? c : Double.isNaN(c) ? a : Math.max(a, c));
  }
  public static Value FLt(final Value x, final Value y) { return b(d(x) < d(y)); }
  public static Value FLe(final Value x, final Value y) { return b(d(x) <= d(y)); }
  public static Value FEq(final Value x, final Value y) { return b(d(x) == d(y)); }
  public static Value FIsNaN(final Value x) { return b(Double.isNaN(d(x))); }
  public static Value FFinite(final Value x) { final double a = d(x); return b(!Double.isNaN(a) && !Double.isInfinite(a)); }
  public static Value FNegSign(final Value x) { return b(Double.doubleToRawLongBits(d(x)) < 0); }
  public static Value FNear(final Value x, final Value y, final Value tol) {
    final double a = d(x), c = d(y), t = d(tol);
    if (a == c) return BoolValue.ValTrue;
    if (Double.isInfinite(a) || Double.isInfinite(c)) return BoolValue.ValFalse;
    return b(Math.abs(a - c) <= t * Math.max(1.0, Math.max(Math.abs(a), Math.abs(c))));
  }
  public static Value FRound(final Value x) {
    final double a = d(x);
    return IntValue.gen((int) (a < 0 ? -Math.floor(-a + 0.5) : Math.floor(a + 0.5)));
  }
  public static Value FShow(final Value x) { return new StringValue(Double.toString(d(x))); }
}
