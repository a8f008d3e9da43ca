import tlc2.value.impl.*;
import java.math.BigInteger;
import java.security.MessageDigest;

/** TLC override of module BigNum: same operators, computed with BigInteger. */
public class BigNum {
  static Value[] elems(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a number: " + v);
    return ((TupleValue) t).elems;
  }
  static BigInteger big(Value v) {
    Value[] e = elems(v);
    int n = e.length;
    byte[] mag = new byte[(n * 12 + 7) / 8 + 1];
    int acc = 0, nb = 0, o = mag.length - 1;
    for (int i = 0; i < n; i++) {
      acc |= ((IntValue) e[i]).val << nb; nb += 12;
      while (nb >= 8) { mag[o--] = (byte) acc; acc >>>= 8; nb -= 8; }
    }
    if (nb > 0) mag[o] = (byte) acc;
    return new BigInteger(1, mag);
  }
  static Value val(BigInteger b) {
    if (b.signum() < 0) throw new RuntimeException("negative number");
    int n = (b.bitLength() + 11) / 12;
    Value[] r = new Value[n];
    byte[] m = b.toByteArray();
    int acc = 0, nb = 0, p = m.length - 1;
    for (int i = 0; i < n; i++) {
      while (nb < 12 && p >= 0) { acc |= (m[p--] & 255) << nb; nb += 8; }
      r[i] = IntValue.gen(acc & 4095); acc >>>= 12; nb -= 12; if (nb < 0) nb = 0;
    }
    return new TupleValue(r);
  }
  static int in(Value v) { return ((IntValue) v).val; }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static String str(Value v) { return ((StringValue) v).val.toString(); }
  static Value hexv(byte[] b) {
    char[] c = new char[2 * b.length];
    for (int i = 0; i < b.length; i++) {
      c[2 * i] = Character.forDigit((b[i] >> 4) & 15, 16);
      c[2 * i + 1] = Character.forDigit(b[i] & 15, 16);
    }
    return new StringValue(new String(c));
  }
  static byte[] unhex(String h) {
    int n = h.length() / 2;
    byte[] r = new byte[n];
    for (int i = 0; i < n; i++)
      r[i] = (byte) (Character.digit(h.charAt(2 * i), 16) * 16 + Character.digit(h.charAt(2 * i + 1), 16));
    return r;
  }
  static BigInteger fromLE(byte[] b) {
    byte[] r = new byte[b.length + 1];
    for (int i = 0; i < b.length; i++) r[b.length - i] = b[i];
    return new BigInteger(1, r);
  }
  static byte[] toLE(BigInteger b, int n) {
    byte[] m = b.toByteArray();
    byte[] r = new byte[n];
    for (int i = 0; i < n && i < m.length; i++) r[i] = m[m.length - 1 - i];
    return r;
  }

  public static Value BFromInt(Value n) { return val(BigInteger.valueOf(in(n))); }
  public static Value BToInt(Value a) { return IntValue.gen(big(a).intValueExact()); }
  public static Value BCmp(Value a, Value b) { return IntValue.gen(big(a).compareTo(big(b))); }
  public static Value BLt(Value a, Value b) { return bool(big(a).compareTo(big(b)) < 0); }
  public static Value BLeq(Value a, Value b) { return bool(big(a).compareTo(big(b)) <= 0); }
  public static Value BAdd(Value a, Value b) { return val(big(a).add(big(b))); }
  public static Value BSub(Value a, Value b) { return val(big(a).subtract(big(b))); }
  public static Value BMul(Value a, Value b) { return val(big(a).multiply(big(b))); }
  public static Value BBit(Value a, Value i) { return IntValue.gen(big(a).testBit(in(i)) ? 1 : 0); }
  public static Value BBitLen(Value a) { return IntValue.gen(big(a).bitLength()); }
  public static Value BMod(Value a, Value m) { return val(big(a).mod(big(m))); }
  public static Value BAddMod(Value a, Value b, Value m) { return val(big(a).add(big(b)).mod(big(m))); }
  public static Value BSubMod(Value a, Value b, Value m) { return val(big(a).subtract(big(b)).mod(big(m))); }
  public static Value BNegMod(Value a, Value m) { return val(big(a).negate().mod(big(m))); }
  public static Value BMulMod(Value a, Value b, Value m) { return val(big(a).multiply(big(b)).mod(big(m))); }
  public static Value BPowMod(Value a, Value e, Value m) { return val(big(a).modPow(big(e), big(m))); }
  public static Value BInvMod(Value a, Value m) {
    BigInteger x = big(a), y = big(m);
    x = x.mod(y);
    return val(x.signum() == 0 ? x : x.modInverse(y));
  }
  public static Value BPow2(Value k) { return val(BigInteger.ONE.shiftLeft(in(k))); }
  public static Value BLow(Value a, Value k) { return val(big(a).mod(BigInteger.ONE.shiftLeft(in(k)))); }
  public static Value BShr(Value a, Value k) { return val(big(a).shiftRight(in(k))); }
  public static Value HexToBytes(Value h) {
    byte[] b = unhex(str(h));
    Value[] r = new Value[b.length];
    for (int i = 0; i < b.length; i++) r[i] = IntValue.gen(b[i] & 255);
    return new TupleValue(r);
  }
  static byte[] bytes(Value s) {
    Value[] e = elems(s);
    byte[] r = new byte[e.length];
    for (int i = 0; i < e.length; i++) r[i] = (byte) ((IntValue) e[i]).val;
    return r;
  }
  public static Value BytesToHex(Value s) { return hexv(bytes(s)); }
  public static Value BFromBytes(Value s) { return val(fromLE(bytes(s))); }
  public static Value BToBytes(Value a, Value n) {
    byte[] b = toLE(big(a), in(n));
    Value[] r = new Value[b.length];
    for (int i = 0; i < b.length; i++) r[i] = IntValue.gen(b[i] & 255);
    return new TupleValue(r);
  }
  public static Value BFromLE(Value h) { return val(fromLE(unhex(str(h)))); }
  public static Value BToLE(Value a, Value n) { return hexv(toLE(big(a), in(n))); }
  public static Value HexLen(Value h) { return IntValue.gen(str(h).length() / 2); }
  public static Value HexSub(Value h, Value f, Value t) {
    return new StringValue(str(h).substring(2 * in(f), 2 * in(t)));
  }
  static Value hash(String alg, Value h) {
    try { return hexv(MessageDigest.getInstance(alg).digest(unhex(str(h)))); }
    catch (java.security.NoSuchAlgorithmException e) { throw new RuntimeException(e); }
  }
  public static Value Sha256(Value h) { return hash("SHA-256", h); }
  public static Value Sha512(Value h) { return hash("SHA-512", h); }
}
