import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.impl.*;

public class BigNum {
    private static BigInteger big(Value v) {
        if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
        if (v instanceof StringValue) return new BigInteger(((StringValue) v).val.toString());
        throw new RuntimeException("BigNum: not a big integer: " + v);
    }
    private static Value out(BigInteger b) { return new StringValue(b.toString()); }
    private static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static Value[] seq(Value s) { return ((TupleValue) s.toTuple()).elems; }
    public static Value BAdd(Value a, Value b) { return out(big(a).add(big(b))); }
    public static Value BSub(Value a, Value b) { return out(big(a).subtract(big(b))); }
    public static Value BMul(Value a, Value b) { return out(big(a).multiply(big(b))); }
    private static BigInteger fdiv(BigInteger a, BigInteger b) {
        BigInteger[] qr = a.divideAndRemainder(b);
        if (qr[1].signum() != 0 && (qr[1].signum() != b.signum())) return qr[0].subtract(BigInteger.ONE);
        return qr[0];
    }
    public static Value BDiv(Value a, Value b) { return out(fdiv(big(a), big(b))); }
    public static Value BRound(Value a, Value b) {
        BigInteger x = big(a), y = big(b);
        if (y.signum() < 0) { x = x.negate(); y = y.negate(); }
        return out(fdiv(x.shiftLeft(1).add(y), y.shiftLeft(1)));
    }
    public static Value BLeq(Value a, Value b) { return bool(big(a).compareTo(big(b)) <= 0); }
    public static Value BEq(Value a, Value b) { return bool(big(a).equals(big(b))); }
    public static Value BAbs(Value a) { return out(big(a).abs()); }
    public static Value BSum(Value s) {
        BigInteger r = BigInteger.ZERO;
        for (Value v : seq(s)) r = r.add(big(v));
        return out(r);
    }
    public static Value BMaxAbs(Value s) {
        BigInteger r = BigInteger.ZERO;
        for (Value v : seq(s)) r = r.max(big(v).abs());
        return out(r);
    }
    public static Value BDot(Value s, Value t) {
        BigInteger r = BigInteger.ZERO;
        Value[] a = seq(s), b = seq(t);
        if (a.length != b.length) throw new RuntimeException("BDot: lengths differ");
        for (int i = 0; i < a.length; i++) r = r.add(big(a[i]).multiply(big(b[i])));
        return out(r);
    }
    // exp by the Taylor series after halving the argument k times
    private static BigDecimal exp(BigDecimal x, int digits) {
        int k = 0;
        MathContext mc = new MathContext(digits + 30);
        BigDecimal y = x, half = new BigDecimal("0.5");
        while (y.abs().compareTo(half) > 0) { y = y.divide(BigDecimal.valueOf(2), mc); k++; }
        BigDecimal sum = BigDecimal.ONE, t = BigDecimal.ONE, eps = BigDecimal.ONE.movePointLeft(digits + 25);
        for (int n = 1; n < 400; n++) {
            t = t.multiply(y, mc).divide(BigDecimal.valueOf(n), mc);
            sum = sum.add(t, mc);
            if (t.abs().compareTo(eps) < 0) break;
        }
        for (int i = 0; i < k; i++) sum = sum.multiply(sum, mc);
        return sum;
    }
    private static BigInteger round(BigDecimal x) { return x.setScale(0, RoundingMode.HALF_EVEN).toBigInteger(); }
    public static Value BExp(Value a, Value s) {
        BigDecimal S = new BigDecimal(big(s));
        int d = big(s).toString().length() + 10;
        BigDecimal x = new BigDecimal(big(a)).divide(S, new MathContext(d + 40));
        if (x.doubleValue() > 2000) throw new RuntimeException("BExp: argument too large");
        if (x.doubleValue() < -2000) return out(BigInteger.ZERO);
        int extra = x.signum() > 0 ? (int) (x.doubleValue() / 2.3) : 0;
        return out(round(exp(x, d + extra).multiply(S)));
    }
    // Newton steps on exp(y) = x from a double start
    public static Value BLog(Value a, Value s) {
        BigDecimal S = new BigDecimal(big(s));
        int d = big(s).toString().length() + 10;
        MathContext mc = new MathContext(d + 40);
        BigDecimal x = new BigDecimal(big(a)).divide(S, mc);
        if (x.signum() <= 0) throw new RuntimeException("BLog: argument not positive");
        BigDecimal y = new BigDecimal(Math.log(x.doubleValue()));
        for (int i = 0; i < 6; i++) {
            BigDecimal e = exp(y, d + 10);
            y = y.add(x.subtract(e).divide(e, mc), mc);
        }
        return out(round(y.multiply(S)));
    }
    public static Value BSqrt(Value a) { return out(big(a).sqrt()); }
    private static BigInteger rdiv(BigInteger x, BigInteger y) {
        if (y.signum() < 0) { x = x.negate(); y = y.negate(); }
        return fdiv(x.shiftLeft(1).add(y), y.shiftLeft(1));
    }
    public static Value BMulS(Value a, Value b, Value s) { return out(rdiv(big(a).multiply(big(b)), big(s))); }
    public static Value BDivS(Value a, Value b, Value s) { return out(rdiv(big(a).multiply(big(s)), big(b))); }
    public static Value BNear(Value a, Value b, Value tol) {
        return bool(big(a).subtract(big(b)).abs().compareTo(big(tol)) <= 0);
    }
    private static final BigInteger E9 = BigInteger.valueOf(1000000000L);
    private static boolean close(BigInteger a, BigInteger b, BigInteger abs, BigInteger rel) {
        BigInteger m = a.abs().max(b.abs());
        return a.subtract(b).abs().compareTo(abs.add(rel.multiply(m).divide(E9))) <= 0;
    }
    public static Value BClose(Value a, Value b, Value abs, Value rel) {
        return bool(close(big(a), big(b), big(abs), big(rel)));
    }
    public static Value BCloseSeq(Value s, Value t, Value abs, Value rel) {
        Value[] a = seq(s), b = seq(t);
        if (a.length != b.length) return bool(false);
        for (int i = 0; i < a.length; i++)
            if (!close(big(a[i]), big(b[i]), big(abs), big(rel))) return bool(false);
        return bool(true);
    }
}
