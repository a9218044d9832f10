import java.math.*;
import tlc2.value.impl.*;

/** TLC module override for Rat.tla: the same operations on big integers. */
public class Rat {
    static final BigInteger MASK = BigInteger.valueOf((1L << 30) - 1);
    static final BigInteger TWO = BigInteger.valueOf(2);

    static BigInteger big(Value v) {
        if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
        TupleValue t = (TupleValue) v.toTuple();
        BigInteger r = BigInteger.ZERO;
        for (int i = t.elems.length - 1; i >= 1; i--)
            r = r.shiftLeft(30).or(BigInteger.valueOf(((IntValue) t.elems[i]).val));
        return ((IntValue) t.elems[0]).val < 0 ? r.negate() : r;
    }

    static Value enc(BigInteger b) {
        if (b.bitLength() <= 31) return IntValue.gen(b.intValue());
        BigInteger a = b.abs();
        int n = (a.bitLength() + 29) / 30;
        Value[] e = new Value[n + 1];
        e[0] = IntValue.gen(b.signum());
        for (int i = 1; i <= n; i++) {
            e[i] = IntValue.gen(a.and(MASK).intValue());
            a = a.shiftRight(30);
        }
        return new TupleValue(e);
    }

    static Value norm(BigInteger n, BigInteger d) {
        if (d.signum() == 0) throw new ArithmeticException("Rat: division by zero");
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (!d.equals(BigInteger.ONE)) {
            int z = Math.min(n.signum() == 0 ? d.getLowestSetBit() : n.getLowestSetBit(), d.getLowestSetBit());
            if (z > 0) { n = n.shiftRight(z); d = d.shiftRight(z); }
            if (!d.equals(BigInteger.ONE)) {
                BigInteger g = n.gcd(d);
                if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
            }
        }
        return new TupleValue(new Value[] { enc(n), enc(d) });
    }

    static BigInteger[] r(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        return new BigInteger[] { big(t.elems[0]), big(t.elems[1]) };
    }

    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static int cmp(Value a, Value b) {
        BigInteger[] x = r(a), y = r(b);
        if (x[1].equals(y[1])) return x[0].compareTo(y[0]);
        return x[0].multiply(y[1]).compareTo(y[0].multiply(x[1]));
    }

    public static Value RInt(Value n) { return norm(big(n), BigInteger.ONE); }
    public static Value RFrac(Value n, Value d) { return norm(big(n), big(d)); }
    public static Value RAdd(Value a, Value b) {
        BigInteger[] x = r(a), y = r(b);
        return norm(x[0].multiply(y[1]).add(y[0].multiply(x[1])), x[1].multiply(y[1]));
    }
    public static Value RSub(Value a, Value b) {
        BigInteger[] x = r(a), y = r(b);
        return norm(x[0].multiply(y[1]).subtract(y[0].multiply(x[1])), x[1].multiply(y[1]));
    }
    public static Value RMul(Value a, Value b) {
        BigInteger[] x = r(a), y = r(b);
        return norm(x[0].multiply(y[0]), x[1].multiply(y[1]));
    }
    public static Value RDiv(Value a, Value b) {
        BigInteger[] x = r(a), y = r(b);
        return norm(x[0].multiply(y[1]), x[1].multiply(y[0]));
    }
    public static Value RNeg(Value a) { BigInteger[] x = r(a); return norm(x[0].negate(), x[1]); }
    public static Value RAbs(Value a) { BigInteger[] x = r(a); return norm(x[0].abs(), x[1]); }
    public static Value RSign(Value a) { return IntValue.gen(r(a)[0].signum()); }
    public static Value RLe(Value a, Value b) { return bool(cmp(a, b) <= 0); }
    public static Value RLt(Value a, Value b) { return bool(cmp(a, b) < 0); }
    public static Value REq(Value a, Value b) { return bool(cmp(a, b) == 0); }
    public static Value RMax(Value a, Value b) { return cmp(a, b) <= 0 ? b : a; }
    public static Value RMin(Value a, Value b) { return cmp(a, b) <= 0 ? a : b; }

    static Value scaled(BigInteger n, int k) { // n * 2^k
        return k >= 0 ? norm(n.shiftLeft(k), BigInteger.ONE) : norm(n, BigInteger.ONE.shiftLeft(-k));
    }
    public static Value RPow2(Value k) { return scaled(BigInteger.ONE, ((IntValue) k).val); }

    static BigInteger floorDiv(BigInteger n, BigInteger d) {
        BigInteger[] q = n.divideAndRemainder(d);
        return q[1].signum() < 0 ? q[0].subtract(BigInteger.ONE) : q[0];
    }
    public static Value RRound(Value a, Value k) {
        BigInteger[] x = r(a);
        int s = ((IntValue) k).val;
        if (x[1].bitLength() - 1 <= s && x[1].bitCount() == 1) return a; // already a multiple
        return scaled(floorDiv(x[0].shiftLeft(s + 1).add(x[1]), x[1].shiftLeft(1)), -s);
    }
    public static Value RSqrt(Value a, Value k) {
        BigInteger[] x = r(a);
        int s = ((IntValue) k).val;
        return scaled(floorDiv(x[0].shiftLeft(2 * s), x[1]).sqrt(), -s);
    }
    public static Value RFloor(Value a) {
        BigInteger[] x = r(a);
        return IntValue.gen(floorDiv(x[0], x[1]).intValueExact());
    }
    public static Value F64(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
        int e = ((IntValue) t.elems[2]).val;
        return scaled(BigInteger.valueOf(hi * (1L << 27) + lo), e);
    }
    public static Value RDec(Value a) {
        BigInteger[] x = r(a);
        return new StringValue(new BigDecimal(x[0]).divide(new BigDecimal(x[1]), new MathContext(17)).toString());
    }
}
