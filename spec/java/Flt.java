// TLC operator overrides for module Flt (IEEE-754 double arithmetic).
// A float value is a JSON/TLA string ("0.25", "NaN", "Infinity"), a TLA integer,
// or <<hi, lo>>: the two 32-bit halves of its bit pattern (what every operator returns).
import tlc2.value.impl.*;
import util.UniqueString;

public class Flt {
  static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (v instanceof StringValue) return Double.parseDouble(((StringValue) v).val.toString());
    TupleValue t = (TupleValue) v.toTuple();
    long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
    return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
  }
  static Value r(double x) {
    long b = Double.doubleToLongBits(x);
    return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value F(Value a) { return r(d(a)); }
  public static Value FAdd(Value a, Value c) { return r(d(a) + d(c)); }
  public static Value FSub(Value a, Value c) { return r(d(a) - d(c)); }
  public static Value FMul(Value a, Value c) { return r(d(a) * d(c)); }
  public static Value FDiv(Value a, Value c) { return r(d(a) / d(c)); }
  public static Value FMod(Value a, Value c) { double x = d(a), y = d(c); double m = x % y; if (m < 0) m += y; return r(m); }
  public static Value FNeg(Value a) { return r(-d(a)); }
  public static Value FAbs(Value a) { return r(Math.abs(d(a))); }
  public static Value FMin(Value a, Value c) { return r(Math.min(d(a), d(c))); }
  public static Value FMax(Value a, Value c) { return r(Math.max(d(a), d(c))); }
  public static Value FSqrt(Value a) { return r(Math.sqrt(d(a))); }
  public static Value FExp(Value a) { return r(Math.exp(d(a))); }
  public static Value FLn(Value a) { return r(Math.log(d(a))); }
  public static Value FPow(Value a, Value c) { return r(Math.pow(d(a), d(c))); }
  public static Value FSin(Value a) { return r(Math.sin(d(a))); }
  public static Value FCos(Value a) { return r(Math.cos(d(a))); }
  public static Value FTan(Value a) { return r(Math.tan(d(a))); }
  public static Value FAsin(Value a) { return r(Math.asin(d(a))); }
  public static Value FAcos(Value a) { return r(Math.acos(d(a))); }
  public static Value FAtan2(Value a, Value c) { return r(Math.atan2(d(a), d(c))); }
  public static Value FFloor(Value a) { return IntValue.gen((int) Math.floor(d(a))); }
  public static Value FCeil(Value a) { return IntValue.gen((int) Math.ceil(d(a))); }
  public static Value FRound(Value a) { double x = d(a); return IntValue.gen((int) (x < 0 ? -Math.floor(-x + 0.5) : Math.floor(x + 0.5))); }
  public static Value FLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value FLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value FEq(Value a, Value c) { return b(d(a) == d(c)); }
  public static Value FIsNaN(Value a) { return b(Double.isNaN(d(a))); }
  public static Value FIsFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  // |a - c| <= abs + rel * max(|a|, |c|); equal infinities and two NaNs are close
  public static Value FClose(Value a, Value c, Value rel, Value abs) {
    double x = d(a), y = d(c);
    if (x == y || (Double.isNaN(x) && Double.isNaN(y))) return BoolValue.ValTrue;
    return b(Math.abs(x - y) <= d(abs) + d(rel) * Math.max(Math.abs(x), Math.abs(y)));
  }
  public static Value FSum(Value s) {
    TupleValue t = (TupleValue) s.toTuple(); double x = 0; for (Value v : t.elems) x += d(v); return r(x);
  }
  public static Value FDot(Value s, Value u) {
    TupleValue t = (TupleValue) s.toTuple(), w = (TupleValue) u.toTuple(); double x = 0;
    for (int i = 0; i < t.elems.length; i++) x += d(t.elems[i]) * d(w.elems[i]); return r(x);
  }
  public static Value FStr(Value a) { return new StringValue(Double.toString(d(a))); }
}
