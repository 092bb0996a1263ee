import java.math.BigInteger;
import tlc2.value.impl.*;

/** Speed-only overrides of the operators of spec/BigInt.tla (same canonical representation). */
public class BigInt {
  static BigInteger dec(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    int n = t.elems.length;
    int s = ((IntValue) t.elems[0]).val;
    if (s == 0) return BigInteger.ZERO;
    if (s != 1 && s != -1) throw new RuntimeException("BigInt: not a finite number: " + v);
    int bits = 15 * (n - 1);
    int[] w = new int[(bits + 31) / 32];            // little endian 32-bit words
    for (int i = 1; i < n; i++) {
      long l = ((IntValue) t.elems[i]).val;
      int b = 15 * (i - 1), k = b >> 5, o = b & 31;
      w[k] |= (int) (l << o);
      if (o > 17) w[k + 1] |= (int) (l >>> (32 - o));
    }
    byte[] m = new byte[4 * w.length];
    for (int k = 0; k < w.length; k++) {
      int x = w[w.length - 1 - k];
      m[4*k] = (byte) (x >>> 24); m[4*k+1] = (byte) (x >>> 16); m[4*k+2] = (byte) (x >>> 8); m[4*k+3] = (byte) x;
    }
    return new BigInteger(s, m);
  }
  static final IntValue[] LIMB = new IntValue[32768];
  static { for (int i = 0; i < LIMB.length; i++) LIMB[i] = IntValue.gen(i); }
  static final Value M1 = IntValue.gen(-1);
  static Value enc(BigInteger x) {
    int s = x.signum();
    if (s == 0) return new TupleValue(new Value[] { LIMB[0] });
    BigInteger a = x.abs();
    int n = (a.bitLength() + 14) / 15;
    byte[] m = a.toByteArray();                      // big endian, maybe leading 0
    int[] w = new int[(15 * n + 31) / 32 + 1];
    for (int i = 0; i < m.length; i++) {
      int p = m.length - 1 - i;                      // byte p counted from the low end = m[i]
      if ((p >> 2) < w.length) w[p >> 2] |= (m[i] & 255) << (8 * (p & 3));
    }
    Value[] e = new Value[n + 1];
    e[0] = s > 0 ? LIMB[1] : M1;
    for (int i = 0; i < n; i++) {
      int b = 15 * i, k = b >> 5, o = b & 31;
      int l = w[k] >>> o;
      if (o > 17) l |= w[k + 1] << (32 - o);
      e[i + 1] = LIMB[l & 32767];
    }
    return new TupleValue(e);
  }
  public static Value BAdd(Value x, Value y) { return enc(dec(x).add(dec(y))); }
  public static Value BSub(Value x, Value y) { return enc(dec(x).subtract(dec(y))); }
  public static Value BMul(Value x, Value y) { return enc(dec(x).multiply(dec(y))); }
  public static Value BDiv(Value x, Value y) { return enc(dec(x).divide(dec(y))); }
  public static Value BShl(Value x, IntValue n) { return enc(dec(x).shiftLeft(15 * n.val)); }
  public static Value BShr(Value x, IntValue n) {
    return enc(shr(dec(x), n.val));
  }
  static BigInteger shr(BigInteger a, int n) {
    BigInteger q = a.abs().shiftRight(15 * n);
    return a.signum() < 0 ? q.negate() : q;
  }
  public static Value BMulShr(Value x, Value y, IntValue n) { return enc(shr(dec(x).multiply(dec(y)), n.val)); }
  public static Value BShlDiv(Value x, Value y, IntValue n) { return enc(dec(x).shiftLeft(15 * n.val).divide(dec(y))); }
  public static IntValue BCmp(Value x, Value y) { return IntValue.gen(dec(x).compareTo(dec(y))); }
  public static Value BOf(IntValue n) { return enc(BigInteger.valueOf(n.val)); }
}
