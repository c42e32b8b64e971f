import java.math.BigInteger;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.Value;

/** TLC evaluation of module BigInt with unbounded integers (see BigInt.tla). */
public class BigInt {
  private static BigInteger get(Value v) {
    if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
    return new BigInteger(((StringValue) v).val.toString());
  }
  private static Value put(BigInteger b) {
    return b.bitLength() < 32 ? IntValue.gen(b.intValue()) : new StringValue(b.toString());
  }
  private static boolean small(Value a, Value b) {
    return a instanceof IntValue && b instanceof IntValue;
  }
  private static Value put(long r) {
    return r == (int) r ? IntValue.gen((int) r) : new StringValue(Long.toString(r));
  }
  public static Value BAdd(Value a, Value b) {
    if (small(a, b)) return put((long) ((IntValue) a).val + ((IntValue) b).val);
    return put(get(a).add(get(b)));
  }
  public static Value BSub(Value a, Value b) {
    if (small(a, b)) return put((long) ((IntValue) a).val - ((IntValue) b).val);
    return put(get(a).subtract(get(b)));
  }
  public static Value BMul(Value a, Value b) {
    if (small(a, b)) return put((long) ((IntValue) a).val * ((IntValue) b).val);
    return put(get(a).multiply(get(b)));
  }
  public static Value BNeg(Value a) { return put(get(a).negate()); }
  public static Value BAbs(Value a) { return put(get(a).abs()); }
  public static Value BSign(Value a) { return IntValue.gen(get(a).signum()); }
  public static Value BCmp(Value a, Value b) { return IntValue.gen(get(a).compareTo(get(b))); }
  public static Value BEq(Value a, Value b) {
    return get(a).equals(get(b)) ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value BQuo(Value a, Value b) {
    BigInteger[] qr = get(a).divideAndRemainder(get(b));
    if (qr[1].signum() != 0) throw new RuntimeException("BQuo: not divisible: " + a + " / " + b);
    return put(qr[0]);
  }
  public static Value BGcd(Value a, Value b) { return put(get(a).gcd(get(b))); }
  public static Value BPow(Value a, Value n) { return put(get(a).pow(((IntValue) n).val)); }
  public static Value BPow2Ceil(Value a) {
    BigInteger x = get(a).abs();
    if (x.signum() == 0) return IntValue.gen(1);
    return put(BigInteger.ONE.shiftLeft(x.subtract(BigInteger.ONE).bitLength()));
  }
}
