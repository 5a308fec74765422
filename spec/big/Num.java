import java.math.BigInteger;
import tlc2.value.impl.*;
import util.UniqueString;

public class Num {
    private static BigInteger b(Value v) {
        return new BigInteger(((StringValue) v).val.toString());
    }
    private static Value s(BigInteger x) {
        return new StringValue(UniqueString.uniqueStringOf(x.toString()));
    }
    private static long l(Value v) {           // fast path: up to 18 digits
        String t = ((StringValue) v).val.toString();
        if (t.length() > 18) return Long.MIN_VALUE;
        return Long.parseLong(t);
    }
    private static Value s(long x) {
        return new StringValue(UniqueString.uniqueStringOf(Long.toString(x)));
    }
    public static Value BAdd(Value a, Value c) {
        long x = l(a), y = l(c);
        if (x != Long.MIN_VALUE && y != Long.MIN_VALUE) return s(x + y);
        return s(b(a).add(b(c)));
    }
    public static Value BSub(Value a, Value c) {
        long x = l(a), y = l(c);
        if (x != Long.MIN_VALUE && y != Long.MIN_VALUE) return s(x - y);
        return s(b(a).subtract(b(c)));
    }
    public static Value BMul(Value a, Value c) {
        return s(b(a).multiply(b(c)));
    }
    public static Value BDiv(Value a, Value c) {
        BigInteger[] r = b(a).divideAndRemainder(b(c));
        if (r[1].signum() != 0 && (r[1].signum() != b(c).signum())) return s(r[0].subtract(BigInteger.ONE));
        return s(r[0]);
    }
    public static Value BLt(Value a, Value c) {
        return b(a).compareTo(b(c)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value BLe(Value a, Value c) {
        return b(a).compareTo(b(c)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value Lit(Value n) {
        return s((long) ((IntValue) n).val);
    }
    public static Value Small(Value a) {
        return IntValue.gen(b(a).intValueExact());
    }
}
