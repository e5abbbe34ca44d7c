import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.ArrayList;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** TLC implementation of the operators declared in RealArith.tla: reals are decimal strings, 40 digits. */
public class RealArith {
    static final MathContext MC = new MathContext(40, RoundingMode.HALF_EVEN);
    static final MathContext MX = new MathContext(50, RoundingMode.HALF_EVEN);
    static final BigDecimal TWO = BigDecimal.valueOf(2);
    static final BigDecimal LN2 = new BigDecimal("0.69314718055994530941723212145817656807550013436025525412068");

    static String s(Value v) { return ((StringValue) v).val.toString(); }
    static boolean fin(String a) { char c = a.charAt(a.length() - 1); return c != 'n' && c != 'f'; } // nan, inf, -inf
    static double dbl(String a) {
        if (a.equals("nan")) return Double.NaN;
        if (a.equals("inf")) return Double.POSITIVE_INFINITY;
        if (a.equals("-inf")) return Double.NEGATIVE_INFINITY;
        return Double.parseDouble(a);
    }
    static Value str(String a) { return new StringValue(a); }
    static Value out(double d) {
        if (Double.isNaN(d)) return str("nan");
        if (Double.isInfinite(d)) return str(d > 0 ? "inf" : "-inf");
        return str(Double.toString(d));
    }
    static Value out(BigDecimal d) { return str(d.signum() == 0 ? "0" : d.round(MC).toString()); }
    static BigDecimal big(String a) { return new BigDecimal(a); }

    public static Value RAdd(Value x, Value y) { String a = s(x), b = s(y); return fin(a) && fin(b) ? out(big(a).add(big(b), MC)) : out(dbl(a) + dbl(b)); }
    public static Value RSub(Value x, Value y) { String a = s(x), b = s(y); return fin(a) && fin(b) ? out(big(a).subtract(big(b), MC)) : out(dbl(a) - dbl(b)); }
    public static Value RMul(Value x, Value y) { String a = s(x), b = s(y); return fin(a) && fin(b) ? out(big(a).multiply(big(b), MC)) : out(dbl(a) * dbl(b)); }
    public static Value RDiv(Value x, Value y) {
        String a = s(x), b = s(y);
        if (!fin(a) || !fin(b)) return out(dbl(a) / dbl(b));
        BigDecimal d = big(b);
        if (d.signum() == 0) return out(dbl(a) / 0.0);
        return out(big(a).divide(d, MC));
    }
    public static Value RNeg(Value x) { String a = s(x); return fin(a) ? out(big(a).negate()) : out(-dbl(a)); }
    public static Value RAbs(Value x) { String a = s(x); return fin(a) ? out(big(a).abs()) : out(Math.abs(dbl(a))); }
    public static Value RFin(Value x) { return fin(s(x)) ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value RIsNaN(Value x) { return s(x).equals("nan") ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value RLt(Value x, Value y) { String a = s(x), b = s(y); return bool(fin(a) && fin(b) ? big(a).compareTo(big(b)) < 0 : dbl(a) < dbl(b)); }
    public static Value RLe(Value x, Value y) { String a = s(x), b = s(y); return bool(fin(a) && fin(b) ? big(a).compareTo(big(b)) <= 0 : dbl(a) <= dbl(b)); }
    public static Value REq(Value x, Value y) { String a = s(x), b = s(y); return bool(fin(a) && fin(b) ? big(a).compareTo(big(b)) == 0 : dbl(a) == dbl(b)); }
    public static Value RClose(Value x, Value y, Value rel, Value abs) {
        String a = s(x), b = s(y);
        if (!fin(a) || !fin(b) || !fin(s(rel)) || !fin(s(abs))) return bool(a.equals(b));
        BigDecimal p = big(a), q = big(b), m = p.abs().max(q.abs());
        return bool(p.subtract(q, MC).abs().compareTo(big(s(abs)).add(big(s(rel)).multiply(m, MC), MC)) <= 0);
    }
    /** an integer as a real */
    public static Value RNum(Value x) { return str(Integer.toString(((IntValue) x).val)); }
    /** the double nearest to the real, as the code reads it */
    public static Value RRound(Value x) { return out(dbl(s(x))); }

    static BigDecimal exp(BigDecimal x) {
        if (x.signum() == 0) return BigDecimal.ONE;
        int k = (int) Math.round(x.doubleValue() / Math.log(2));
        BigDecimal r = x.subtract(LN2.multiply(BigDecimal.valueOf(k)), MX).divide(BigDecimal.valueOf(256), MX);
        BigDecimal t = BigDecimal.ONE, sum = BigDecimal.ONE;
        for (int i = 1; i < 60; i++) {
            t = t.multiply(r, MX).divide(BigDecimal.valueOf(i), MX);
            if (t.signum() == 0 || t.abs().compareTo(new BigDecimal("1e-55")) < 0) break;
            sum = sum.add(t, MX);
        }
        for (int i = 0; i < 8; i++) sum = sum.multiply(sum, MX);
        return k >= 0 ? sum.multiply(TWO.pow(k), MX) : sum.divide(TWO.pow(-k), MX);
    }
    static final ConcurrentHashMap<BigDecimal, BigDecimal> LN = new ConcurrentHashMap<>();
    static BigDecimal ln(BigDecimal x) {
        BigDecimal c = LN.get(x);
        if (c != null) return c;
        double d = x.doubleValue();
        BigDecimal y;
        int shift = 0;
        BigDecimal z = x;
        if (d == 0 || Double.isInfinite(d)) { // beyond the range of doubles
            int e = x.precision() - x.scale();
            z = x.movePointLeft(e); shift = e; d = z.doubleValue();
        }
        y = new BigDecimal(Math.log(d));
        for (int i = 0; i < 3; i++) { // Newton: y += z e^-y - 1 (quadratic)
            BigDecimal e = z.multiply(exp(y.negate()), MX);
            y = y.add(TWO.multiply(e.subtract(BigDecimal.ONE), MX).divide(e.add(BigDecimal.ONE), MX), MX);
        }
        if (shift != 0) y = y.add(ln(BigDecimal.TEN).multiply(BigDecimal.valueOf(shift)), MX);
        if (LN.size() < 200000) LN.put(x, y);
        return y;
    }
    public static Value RLn(Value x) {
        String a = s(x);
        if (!fin(a) || big(a).signum() <= 0) return out(Math.log(dbl(a)));
        return out(ln(big(a)));
    }
    public static Value RExp(Value x) {
        String a = s(x);
        if (!fin(a)) return out(Math.exp(dbl(a)));
        BigDecimal b = big(a);
        if (b.doubleValue() > 5000) return str("inf");
        if (b.doubleValue() < -5000) return str("0");
        return out(exp(b));
    }
    public static Value RSqrt(Value x) {
        String a = s(x);
        if (!fin(a) || big(a).signum() < 0) return out(Math.sqrt(dbl(a)));
        return out(big(a).sqrt(MC));
    }
    public static Value RPow(Value x, Value y) {
        String a = s(x), b = s(y);
        if (!fin(a) || !fin(b)) return out(Math.pow(dbl(a), dbl(b)));
        BigDecimal p = big(a), q = big(b);
        if (q.signum() == 0) return str("1");
        boolean integer = q.stripTrailingZeros().scale() <= 0;
        if (integer && q.abs().compareTo(BigDecimal.valueOf(1000)) < 0) {
            int n = q.intValueExact();
            if (p.signum() == 0) return n > 0 ? str("0") : out(Math.pow(dbl(a), n));
            BigDecimal r = p.pow(Math.abs(n), MX);
            return out(n > 0 ? r : BigDecimal.ONE.divide(r, MX));
        }
        if (p.signum() <= 0) return out(Math.pow(dbl(a), dbl(b)));
        return out(exp(q.multiply(ln(p), MX)));
    }

    static BigDecimal[] bigs(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems; BigDecimal[] r = new BigDecimal[e.length];
        for (int i = 0; i < e.length; i++) r[i] = big(s(e[i]));
        return r;
    }
    static BigDecimal power(BigDecimal p, BigDecimal q) {
        if (q.signum() == 0) return BigDecimal.ONE;
        if (q.stripTrailingZeros().scale() <= 0) {
            int n = q.intValueExact(); BigDecimal r = p.pow(Math.abs(n), MX);
            return n > 0 ? r : BigDecimal.ONE.divide(r, MX);
        }
        return exp(q.multiply(ln(p), MX));
    }
    /** the sum of n[i] x^a[i] y^b[i] */
    public static Value RTerms(Value n, Value x, Value a, Value y, Value b) {
        if (!fin(s(x)) || !fin(s(y))) return out(Double.NaN);
        BigDecimal[] c = bigs(n), p = bigs(a), q = bigs(b); BigDecimal u = big(s(x)), v = big(s(y)), r = BigDecimal.ZERO;
        for (int i = 0; i < c.length; i++) r = r.add(c[i].multiply(power(u, p[i]), MX).multiply(power(v, q[i]), MX), MX);
        return out(r);
    }

    // ---- strings
    public static Value Chars(Value x) {
        String a = s(x);
        Value[] r = new Value[a.length()];
        for (int i = 0; i < r.length; i++) r[i] = str(a.substring(i, i + 1));
        return new TupleValue(r);
    }
    public static Value ParseNum(Value x) { // text of a number -> real, "" if it is none
        String a = s(x).trim();
        if (a.isEmpty()) return str("");
        String l = a.toLowerCase();
        if (l.equals("nan") || l.equals("-nan")) return str("nan");
        if (l.equals("inf") || l.equals("-inf")) return str(l);
        try { return str(new BigDecimal(a).toString()); } catch (NumberFormatException e) { return str(""); }
    }
    /** text is the number rounded to d decimals (fixed notation); slack: relative error allowed in the number itself */
    public static Value FixedText(Value text, Value num, Value d, Value slack) {
        String t = s(text), v = s(num);
        int n = ((IntValue) d).val;
        if (!fin(v)) return bool(ParseNum(text).equals(str(v)));
        if (!t.matches(n == 0 ? "-?\\d+" : "-?\\d+\\.\\d{" + n + "}")) return bool(false);
        BigDecimal x = big(v);
        BigDecimal tol = new BigDecimal("0.5").movePointLeft(n).multiply(new BigDecimal("1.0000001")).add(x.abs().multiply(big(s(slack))));
        return bool(new BigDecimal(t).subtract(x).abs().compareTo(tol) <= 0);
    }
    /** scientific notation with d decimals in the mantissa */
    public static Value SciText(Value text, Value num, Value d, Value slack) {
        String t = s(text), v = s(num);
        int n = ((IntValue) d).val;
        if (!fin(v)) return bool(ParseNum(text).equals(str(v)));
        if (!t.matches(n == 0 ? "-?\\de[+-]\\d{2,}" : "-?\\d\\.\\d{" + n + "}e[+-]\\d{2,}")) return bool(false);
        BigDecimal x = big(v), y = new BigDecimal(t);
        int e = Integer.parseInt(t.substring(t.indexOf('e') + 1).replace("+", ""));
        BigDecimal tol = new BigDecimal("0.5").scaleByPowerOfTen(e - n).multiply(new BigDecimal("1.0000001")).add(x.abs().multiply(big(s(slack))));
        return bool(y.subtract(x).abs().compareTo(tol) <= 0);
    }
    /** default notation: d significant digits (0 counts as 1), no trailing zeros */
    public static Value GenText(Value text, Value num, Value d, Value slack) {
        String t = s(text), v = s(num);
        int n = Math.max(1, ((IntValue) d).val);
        if (!fin(v)) return bool(ParseNum(text).equals(str(v)));
        BigDecimal y;
        try { y = new BigDecimal(t); } catch (NumberFormatException ex) { return bool(false); }
        BigDecimal x = big(v);
        if (y.signum() == 0) return bool(x.abs().compareTo(new BigDecimal("1e-300")) < 0);
        if (y.stripTrailingZeros().precision() > n) return bool(false);
        if (t.indexOf('.') >= 0 && t.matches("-?\\d*\\.\\d*0(e.*)?")) return bool(false);
        int e = y.precision() - y.scale() - 1; // exponent of the first digit
        BigDecimal tol = new BigDecimal("0.5").scaleByPowerOfTen(e - n + 1).multiply(new BigDecimal("1.0000001")).add(x.abs().multiply(big(s(slack))));
        return bool(y.subtract(x).abs().compareTo(tol) <= 0);
    }
    /** occurrences of f in x replaced by g */
    public static Value Replace(Value x, Value f, Value g) { String a = s(f); return a.isEmpty() ? x : str(s(x).replace(a, s(g))); }
    public static Value Contains(Value x, Value f) { return bool(s(x).contains(s(f))); }
    public static Value StartsWith(Value x, Value f) { return bool(s(x).startsWith(s(f))); }
    /** lexicographic order of bytes, as std::string compares */
    public static Value StrLt(Value x, Value y) { return bool(s(x).compareTo(s(y)) < 0); }
}
