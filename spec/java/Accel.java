import tlc2.value.impl.*;
import java.math.BigInteger;

/** TLC override of operator AffMul of module Accel. */
public class Accel {
  public static Value AffMul(Value n, Value p, Value m, Value d) {
    BigInteger N = BigNum.big(n), M = BigNum.big(m), D = BigNum.big(d);
    Value[] c = BigNum.elems(p);
    BigInteger px = BigNum.big(c[0]), py = BigNum.big(c[1]);
    BigInteger X = BigInteger.ZERO, Y = BigInteger.ONE, Z = BigInteger.ONE;
    for (int i = N.bitLength() - 1; i >= 0; i--) {
      BigInteger[] r = add(X, Y, Z, X, Y, Z, M, D);
      if (N.testBit(i)) r = add(r[0], r[1], r[2], px, py, BigInteger.ONE, M, D);
      X = r[0]; Y = r[1]; Z = r[2];
    }
    BigInteger zi = Z.modInverse(M);
    return new TupleValue(new Value[] { BigNum.val(X.multiply(zi).mod(M)), BigNum.val(Y.multiply(zi).mod(M)) });
  }
  // projective addition, a = -1: x3 = (x1y2+x2y1)/(1+k), y3 = (y1y2+x1x2)/(1-k), k = d x1x2y1y2
  static BigInteger[] add(BigInteger X1, BigInteger Y1, BigInteger Z1, BigInteger X2, BigInteger Y2,
      BigInteger Z2, BigInteger M, BigInteger D) {
    BigInteger A = Z1.multiply(Z2).mod(M), B = A.multiply(A).mod(M);
    BigInteger C = X1.multiply(X2).mod(M), E0 = Y1.multiply(Y2).mod(M);
    BigInteger E = D.multiply(C).mod(M).multiply(E0).mod(M);
    BigInteger F = B.subtract(E), G = B.add(E);
    BigInteger X = X1.multiply(Y2).add(Y1.multiply(X2)).mod(M);
    BigInteger X3 = A.multiply(F).mod(M).multiply(X).mod(M);
    BigInteger Y3 = A.multiply(G).mod(M).multiply(E0.add(C)).mod(M);
    BigInteger Z3 = F.multiply(G).mod(M);
    return new BigInteger[] { X3, Y3, Z3 };
  }
}
