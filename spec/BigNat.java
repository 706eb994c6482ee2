import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC overrides for BigNat.tla: integers of arbitrary size written as (signed) lower-case hex strings. */
public class BigNat {
  static BigInteger b(Value v) { return new BigInteger(((StringValue) v).getVal().toString(), 16); }
  static Value s(BigInteger x) { return new StringValue(x.toString(16)); }
  static int i(Value v) { return ((IntValue) v).val; }
  static Value t(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value BAdd(Value a, Value c) { return s(b(a).add(b(c))); }
  public static Value BSub(Value a, Value c) { return s(b(a).subtract(b(c))); }
  public static Value BMul(Value a, Value c) { return s(b(a).multiply(b(c))); }
  public static Value BNeg(Value a) { return s(b(a).negate()); }
  public static Value BAbs(Value a) { return s(b(a).abs()); }
  public static Value BMod(Value a, Value m) { return s(b(a).mod(b(m))); }
  /** floor division */
  public static Value BDiv(Value a, Value m) {
    BigInteger[] qr = b(a).divideAndRemainder(b(m));
    if (qr[1].signum() != 0 && (qr[1].signum() != b(m).signum())) return s(qr[0].subtract(BigInteger.ONE));
    return s(qr[0]);
  }
  public static Value BCmp(Value a, Value c) { return IntValue.gen(b(a).compareTo(b(c))); }
  public static Value BLt(Value a, Value c) { return t(b(a).compareTo(b(c)) < 0); }
  public static Value BLe(Value a, Value c) { return t(b(a).compareTo(b(c)) <= 0); }
  public static Value BShl(Value a, Value n) { return s(b(a).shiftLeft(i(n))); }
  public static Value BShr(Value a, Value n) { return s(b(a).shiftRight(i(n))); }
  public static Value BBit(Value a, Value n) { return IntValue.gen(b(a).testBit(i(n)) ? 1 : 0); }
  public static Value BBitLen(Value a) { return IntValue.gen(b(a).bitLength()); }
  public static Value BInt(Value n) { return s(BigInteger.valueOf(i(n))); }
  public static Value BToInt(Value a) { return IntValue.gen(b(a).intValueExact()); }
  public static Value BPowMod(Value a, Value e, Value m) { return s(b(a).modPow(b(e), b(m))); }
  public static Value BAddMod(Value a, Value c, Value m) { return s(b(a).add(b(c)).mod(b(m))); }
  public static Value BSubMod(Value a, Value c, Value m) { return s(b(a).subtract(b(c)).mod(b(m))); }
  public static Value BMulMod(Value a, Value c, Value m) { return s(b(a).multiply(b(c)).mod(b(m))); }
  /** inverse modulo m; a must be coprime to m */
  public static Value BInvMod(Value a, Value m) { return s(b(a).modInverse(b(m))); }
  /** the smaller square root modulo an odd prime; the zero string "" if there is none */
  public static Value BSqrtMod(Value av, Value pv) {
    BigInteger p = b(pv), a = b(av).mod(p), one = BigInteger.ONE, two = BigInteger.TWO;
    if (a.signum() == 0) return s(a);
    BigInteger h = p.subtract(one).shiftRight(1);
    if (!a.modPow(h, p).equals(one)) return new StringValue("");
    BigInteger q = p.subtract(one);
    int e = 0;
    while (!q.testBit(0)) { q = q.shiftRight(1); e++; }
    BigInteger z = two;
    while (z.modPow(h, p).equals(one)) z = z.add(one);
    BigInteger c = z.modPow(q, p), r = a.modPow(q.add(one).shiftRight(1), p), t = a.modPow(q, p);
    while (!t.equals(one)) {
      int k = 0;
      for (BigInteger u = t; !u.equals(one); k++) u = u.multiply(u).mod(p);
      BigInteger f = c;
      for (int j = 0; j < e - k - 1; j++) f = f.multiply(f).mod(p);
      r = r.multiply(f).mod(p);
      c = f.multiply(f).mod(p);
      t = t.multiply(c).mod(p);
      e = k;
    }
    return s(r.min(p.subtract(r)));
  }
  public static Value BDec(Value a) { return new StringValue(b(a).toString(10)); }
  /** number given by a sequence of byte values, most significant first */
  public static Value BFromBytes(Value v) {
    TupleValue q = (TupleValue) v.toTuple();
    BigInteger r = BigInteger.ZERO;
    for (Value x : q.elems) r = r.shiftLeft(8).or(BigInteger.valueOf(((IntValue) x).val));
    return s(r);
  }
  /** n bytes (most significant first) of a non-negative number */
  public static Value BToBytes(Value a, Value n) {
    int k = i(n);
    BigInteger x = b(a);
    Value[] e = new Value[k];
    for (int j = 0; j < k; j++) e[j] = IntValue.gen(x.shiftRight(8 * (k - 1 - j)).intValue() & 255);
    return new TupleValue(e);
  }
}
