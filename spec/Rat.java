import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;

/**
 * TLC override of module Rat: arbitrary precision rational arithmetic.
 *
 * A number is a TLA+ string in canonical form: "n" or "n/d" with d > 1 and
 * gcd(n, d) = 1, so that TLA+ equality of strings is equality of numbers.
 * Decimal strings ("-1.25e-3") are accepted everywhere as arguments.
 * Algebraic functions are exact; numbers that grow over LIMIT bits are rounded
 * to 120 significant digits.  RSqrt, RCos, RSin are rounded to 50 digits.
 */
public class Rat {
    private static final int LIMIT = 1600;
    private static final MathContext MC = new MathContext(120, RoundingMode.HALF_EVEN);
    private static final MathContext M60 = new MathContext(60, RoundingMode.HALF_EVEN);
    private static final BigDecimal PI = new BigDecimal(
        "3.14159265358979323846264338327950288419716939937510582097494459230781640628620899");

    private static final class Q {
        final BigInteger n, d;
        Q(BigInteger n, BigInteger d) {
            if (d.signum() == 0) throw new RuntimeException("Rat: division by zero");
            if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
            BigInteger g = n.gcd(d);
            if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
            if (n.bitLength() > LIMIT || d.bitLength() > LIMIT) {
                BigDecimal x = new BigDecimal(n).divide(new BigDecimal(d), MC);
                Q r = of(x);
                n = r.n; d = r.d;
            }
            this.n = n; this.d = d;
        }
        static Q of(BigDecimal x) {
            if (x.signum() == 0) return new Q(BigInteger.ZERO, BigInteger.ONE);
            if (x.scale() > 0) return new Q(x.unscaledValue(), BigInteger.TEN.pow(x.scale()));
            return new Q(x.unscaledValue().multiply(BigInteger.TEN.pow(-x.scale())), BigInteger.ONE);
        }
        BigDecimal dec() { return new BigDecimal(n).divide(new BigDecimal(d), M60); }
        int cmp(Q o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
    }

    private static String str(Value v) {
        if (v instanceof StringValue) return ((StringValue) v).val.toString();
        if (v instanceof IntValue) return Integer.toString(((IntValue) v).val);
        throw new RuntimeException("Rat: not a number: " + v);
    }
    private static Q q(Value v) { return parse(str(v)); }
    private static Q parse(String s) {
        int i = s.indexOf('/');
        if (i >= 0) return new Q(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
        boolean plain = true;
        for (int k = 0; k < s.length(); k++) {
            char c = s.charAt(k);
            if (!(c >= '0' && c <= '9') && !(c == '-' && k == 0)) { plain = false; break; }
        }
        if (plain) return new Q(new BigInteger(s), BigInteger.ONE);
        return Q.of(new BigDecimal(s));
    }
    private static Value out(Q x) {
        if (x.d.equals(BigInteger.ONE)) return new StringValue(x.n.toString());
        return new StringValue(x.n.toString() + "/" + x.d.toString());
    }
    private static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value RAdd(Value a, Value b) { Q x = q(a), y = q(b); return out(new Q(x.n.multiply(y.d).add(y.n.multiply(x.d)), x.d.multiply(y.d))); }
    public static Value RSub(Value a, Value b) { Q x = q(a), y = q(b); return out(new Q(x.n.multiply(y.d).subtract(y.n.multiply(x.d)), x.d.multiply(y.d))); }
    public static Value RMul(Value a, Value b) { Q x = q(a), y = q(b); return out(new Q(x.n.multiply(y.n), x.d.multiply(y.d))); }
    public static Value RDiv(Value a, Value b) { Q x = q(a), y = q(b); return out(new Q(x.n.multiply(y.d), x.d.multiply(y.n))); }
    public static Value RNeg(Value a) { Q x = q(a); return out(new Q(x.n.negate(), x.d)); }
    public static Value RAbs(Value a) { Q x = q(a); return out(new Q(x.n.abs(), x.d)); }
    public static Value RLt(Value a, Value b) { return bool(q(a).cmp(q(b)) < 0); }
    public static Value RLe(Value a, Value b) { return bool(q(a).cmp(q(b)) <= 0); }
    public static Value RNum(Value a) { return out(q(a)); }

    public static Value RIsNum(Value a) {
        try { q(a); return BoolValue.ValTrue; } catch (RuntimeException e) { return BoolValue.ValFalse; }
    }

    public static Value RIsInt(Value a) { return bool(q(a).d.equals(BigInteger.ONE)); }
    public static Value RFloor(Value a) { Q x = q(a); BigInteger[] r = x.n.divideAndRemainder(x.d); BigInteger f = r[0]; if (r[1].signum() < 0) f = f.subtract(BigInteger.ONE); return out(new Q(f, BigInteger.ONE)); }
    public static Value RToInt(Value a) { return IntValue.gen(q(a).n.intValueExact()); }

    public static Value RSqrt(Value a) {
        Q x = q(a);
        if (x.n.signum() < 0) throw new RuntimeException("Rat: square root of negative number");
        if (x.n.signum() == 0) return out(x);
        BigInteger sn = x.n.sqrt(), sd = x.d.sqrt();
        if (sn.multiply(sn).equals(x.n) && sd.multiply(sd).equals(x.d)) return out(new Q(sn, sd));
        return out(Q.of(x.dec().sqrt(M60).round(new MathContext(50))));
    }

    private static BigDecimal reduce(BigDecimal x) {
        BigDecimal two = PI.multiply(BigDecimal.valueOf(2));
        BigDecimal k = x.divide(two, 0, RoundingMode.HALF_EVEN);
        return x.subtract(k.multiply(two));
    }
    private static BigDecimal series(BigDecimal x, boolean cos) {
        MathContext m = new MathContext(75);
        x = reduce(x);
        BigDecimal t = cos ? BigDecimal.ONE : x, s = t, x2 = x.multiply(x, m);
        for (int i = cos ? 1 : 2; i < 400; i += 2) {
            t = t.multiply(x2, m).negate().divide(BigDecimal.valueOf((long) i * (i + 1)), m);
            s = s.add(t, m);
            if (t.signum() == 0 || t.abs().compareTo(new BigDecimal("1e-70")) < 0) break;
        }
        return s.setScale(50, RoundingMode.HALF_EVEN);
    }
    public static Value RCos(Value a) { return out(Q.of(series(q(a).dec(), true))); }
    public static Value RSin(Value a) { return out(Q.of(series(q(a).dec(), false))); }
    public static Value RPi() { return out(Q.of(PI.round(new MathContext(60)))); }

    /** |obs - exp| <= tol * (1 + |exp|); anything that is not a finite number is not close. */
    public static Value RClose(Value o, Value e, Value t) {
        Q x, y = q(e), z = q(t);
        try { x = q(o); } catch (RuntimeException ex) { return BoolValue.ValFalse; }
        BigInteger den = x.d.multiply(y.d);
        BigInteger diff = x.n.multiply(y.d).subtract(y.n.multiply(x.d)).abs();
        // diff/den <= z.n/z.d * (y.d + |y.n|)/y.d
        BigInteger l = diff.multiply(z.d).multiply(y.d);
        BigInteger r = den.multiply(z.n).multiply(y.d.add(y.n.abs()));
        return bool(l.compareTo(r) <= 0);
    }
}
