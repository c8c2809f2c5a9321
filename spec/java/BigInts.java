import java.math.BigInteger;
import tlc2.tool.FingerprintException;
import tlc2.util.FP64;
import tlc2.value.*;
import tlc2.value.impl.*;

/** TLC evaluation of BigInts.tla with java.math.BigInteger (same operators, mathematical integers). */
public class BigInts {
  public static final class BigV extends Value {
    final BigInteger v;
    BigV(BigInteger v) { this.v = v; }
    @Override public byte getKind() { return ValueConstants.USERVALUE; }
    @Override public int compareTo(Object o) {
      if (o instanceof BigV) return v.compareTo(((BigV) o).v);
      throw new RuntimeException("comparing the big " + v + " with " + o);
    }
    @Override public boolean equals(Object o) {
      if (o instanceof BigV) return v.equals(((BigV) o).v);
      if (o instanceof ModelValue) return false;
      throw new RuntimeException("equality of the big " + v + " with " + o);
    }
    @Override public boolean member(Value e) { throw new RuntimeException("member of a big"); }
    @Override public boolean isFinite() { return true; }
    @Override public Value takeExcept(ValueExcept e) { throw new RuntimeException("EXCEPT on a big"); }
    @Override public Value takeExcept(ValueExcept[] e) { throw new RuntimeException("EXCEPT on a big"); }
    @Override public int size() { throw new RuntimeException("size of a big"); }
    @Override public boolean isNormalized() { return true; }
    @Override public Value normalize() { return this; }
    @Override public boolean isDefined() { return true; }
    @Override public IValue deepCopy() { return this; }
    @Override public long fingerPrint(long fp) { return FP64.Extend(FP64.Extend(fp, 77), v.toString(36)); }
    @Override public IValue permute(IMVPerm p) { return this; }
    @Override public StringBuffer toString(StringBuffer sb, int off, boolean swallow) { return sb.append("0x").append(v.toString(16)); }
    @Override public void write(IValueOutputStream vos) throws java.io.IOException { throw new java.io.IOException("big in disk queue"); }
  }
  private static BigInteger g(Value x) {
    if (x instanceof BigV) return ((BigV) x).v;
    if (x instanceof IntValue) return BigInteger.valueOf(((IntValue) x).val);
    throw new RuntimeException("not an integer: " + x);
  }
  private static int i(Value x) {
    if (x instanceof IntValue) return ((IntValue) x).val;
    return g(x).intValueExact();
  }
  private static String s(Value x) { return ((StringValue) x).getVal().toString(); }
  private static Value w(BigInteger b) { return new BigV(b); }
  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value B(Value a) { return w(g(a)); }
  public static Value BInt(Value a) { return IntValue.gen(g(a).intValueExact()); }
  public static Value BAdd(Value a, Value c) { return w(g(a).add(g(c))); }
  public static Value BSub(Value a, Value c) { return w(g(a).subtract(g(c))); }
  public static Value BMul(Value a, Value c) { return w(g(a).multiply(g(c))); }
  public static Value BNeg(Value a) { return w(g(a).negate()); }
  public static Value BAbs(Value a) { return w(g(a).abs()); }
  public static Value BDiv(Value a, Value c) {
    BigInteger x = g(a), y = g(c);
    if (y.signum() <= 0) throw new RuntimeException("BDiv by " + y);
    return w(x.subtract(x.mod(y)).divide(y));
  }
  public static Value BMod(Value a, Value c) { return w(g(a).mod(g(c))); }
  public static Value BLt(Value a, Value c) { return b(g(a).compareTo(g(c)) < 0); }
  public static Value BLe(Value a, Value c) { return b(g(a).compareTo(g(c)) <= 0); }
  public static Value BPow(Value a, Value n) { return w(g(a).pow(i(n))); }
  public static Value BShl(Value a, Value n) { return w(g(a).shiftLeft(i(n))); }
  public static Value BShr(Value a, Value n) { return w(g(a).shiftRight(i(n))); }
  public static Value BBit(Value a, Value n) { return IntValue.gen(g(a).testBit(i(n)) ? 1 : 0); }
  public static Value BBitLen(Value a) { return IntValue.gen(g(a).bitLength()); }
  public static Value BBits(Value a) {
    BigInteger x = g(a);
    int n = x.bitLength();
    Value[] r = new Value[n];
    for (int k = 0; k < n; k++) r[k] = IntValue.gen(x.testBit(n - 1 - k) ? 1 : 0);
    return new TupleValue(r);
  }
  public static Value BPowMod(Value a, Value e, Value m) { return w(g(a).modPow(g(e), g(m))); }
  public static Value BInv(Value a, Value m) {
    BigInteger x = g(a), y = g(m);
    if (!x.gcd(y).equals(BigInteger.ONE)) return w(BigInteger.ZERO);
    return w(x.modInverse(y));
  }
  public static Value BGcd(Value a, Value c) { return w(g(a).gcd(g(c))); }
  private static BigInteger parse(String t, int base) {
    if (t.isEmpty() || t.equals("-")) return BigInteger.ZERO;
    if (t.charAt(0) == '+') throw new RuntimeException("bad number " + t);
    return new BigInteger(t, base);
  }
  public static Value BHex(Value a) { return w(parse(s(a), 16)); }
  public static Value BDec(Value a) { return w(parse(s(a), 10)); }
  public static Value BToHex(Value a) { return new StringValue(g(a).toString(16)); }
  public static Value BToDec(Value a) { return new StringValue(g(a).toString(10)); }
}
