// -*- mode: Bluespec; -*-
/**
 * Fixed-point real arithmetic on Quint's unbounded integers.
 *
 * A real number v is represented by the integer round(v * S) with S = 10^18.
 * Everything the specification says about exoplanet's numbers is said in this
 * arithmetic: nothing in it is taken from the implementation, from NumPy or
 * from PyTensor.  Truncation errors are a few units of 10^-18.
 */
module fx {
  pure val S: int = 10^18
  // pi and ln 2 to 40 digits
  pure val PI40: int = 31415926535897932384626433832795028841971
  pure val LN2_40: int = 6931471805599453094172321214581765680755
  pure val PI: int = 3141592653589793238
  pure val TWOPI: int = 6283185307179586477
  pure val HALFPI: int = 1570796326794896619

  pure def iabs(a: int): int = if (a < 0) -a else a
  pure def imin(a: int, b: int): int = if (a < b) a else b
  pure def imax(a: int, b: int): int = if (a > b) a else b
  pure def sgn(a: int): int = if (a > 0) 1 else if (a < 0) -1 else 0

  // Floor division and the remainder with the sign of b > 0
  pure def floorDiv(a: int, b: int): int =
    if (a >= 0) a / b else -((-a + b - 1) / b)
  pure def floorMod(a: int, b: int): int = a - b * floorDiv(a, b)
  // Nearest integer to a/b, b > 0
  pure def roundDiv(a: int, b: int): int = floorDiv(2 * a + b, 2 * b)

  pure def mul(a: int, b: int): int = roundDiv(a * b, S)
  pure def div(a: int, b: int): int =
    if (b == 0) 0 else if (b > 0) roundDiv(a * S, b) else roundDiv(-a * S, -b)
  pure def sq(a: int): int = mul(a, a)
  pure def fx(n: int): int = n * S

  // number of bits of n >= 0
  pure def bitLen(n: int): int =
    if (n <= 0) 0 else
    1 + [1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1].foldl(0, (acc, s) =>
      if (n >= 2^(acc + s)) acc + s else acc)

  // floor(sqrt(n)) up to the last digit, by Newton's method from above
  pure def isqrt(n: int): int =
    if (n <= 0) 0 else {
      pure val x0 = 2^((bitLen(n) + 1) / 2)
      range(0, 10).foldl(x0, (x, i) => imin(x, (x + n / x) / 2))
    }
  pure def sqrt(a: int): int = isqrt(a * S)

  // floor(cbrt(n)) up to the last digit
  pure def icbrt(n: int): int =
    if (n <= 0) 0 else {
      pure val x0 = 2^((bitLen(n) + 2) / 3)
      range(0, 12).foldl(x0, (x, i) => imin(x, (2 * x + n / (x * x)) / 3))
    }
  pure def cbrt(a: int): int = icbrt(a * S * S)

  // sin and cos of a reduced argument |r| <= pi/4, with two guard digits
  pure val G: int = 10^22
  pure def sinSmall(r: int): int = {
    pure val z = r * r / G
    [20, 18, 16, 14, 12, 10, 8, 6, 4, 2].foldl(G, (acc, k) =>
      G - z * acc / (G * k * (k + 1))) * r / G
  }
  pure def cosSmall(r: int): int = {
    pure val z = r * r / G
    [21, 19, 17, 15, 13, 11, 9, 7, 5, 3, 1].foldl(G, (acc, k) =>
      G - z * acc / (G * k * (k + 1)))
  }
  // (sin x, cos x) for any x
  pure def sincos(x: int): (int, int) = {
    // quadrant k = round(x / (pi/2))
    pure val k = roundDiv(2 * x * 10^22, PI40)
    pure val r = (2 * x * 10^22 - k * PI40) / (2 * 10^18)
    pure val s = sinSmall(r)
    pure val c = cosSmall(r)
    pure val q = floorMod(k, 4)
    pure val sc =
      if (q == 0) (s, c) else if (q == 1) (c, -s)
      else if (q == 2) (-s, -c) else (-c, s)
    (roundDiv(sc._1, 10^4), roundDiv(sc._2, 10^4))
  }
  pure def sin(x: int): int = sincos(x)._1
  pure def cos(x: int): int = sincos(x)._2

  // atan of t in [0, 1]
  pure def atanUnit(t: int): int = {
    // two half-angle reductions: t <= tan(pi/16) = 0.199
    pure val t1 = div(t, S + sqrt(S + sq(t)))
    pure val t2 = div(t1, S + sqrt(S + sq(t1)))
    pure val z = t2 * t2 / S
    4 * mul(t2, [27, 25, 23, 21, 19, 17, 15, 13, 11, 9, 7, 5, 3, 1].foldl(0, (acc, k) =>
      S / k - z * acc / S))
  }
  pure def atan2(y: int, x: int): int = {
    pure val ax = iabs(x)
    pure val ay = iabs(y)
    if (ax == 0 and ay == 0) 0 else {
      pure val base = if (ay <= ax) atanUnit(div(ay, ax)) else HALFPI - atanUnit(div(ax, ay))
      pure val q = if (x >= 0) base else PI - base
      if (y >= 0) q else -q
    }
  }
  pure def acos(x: int): int =
    if (x >= S) 0 else if (x <= -S) PI else atan2(isqrt((S - x) * (S + x)), x)
  pure def asin(x: int): int = HALFPI - acos(x)

  pure def exp(x: int): int = {
    pure val k = roundDiv(x * 10^22, LN2_40)
    // |r| <= ln2/2, four guard digits
    pure val r = (x * 10^22 - k * LN2_40) / 10^18
    pure val m = [22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1]
      .foldl(G, (acc, n) => G + r * acc / (G * n))
    if (k >= 0) m * 2^k / 10^4
    else if (k < -400) 0
    else m / (10^4 * 2^(-k))
  }
  // natural logarithm of a > 0
  pure def ln(a: int): int =
    if (a <= 0) -(10^6) * S else {
      pure val k = bitLen(a) - 60
      // m = a / 2^k in [2^59, 2^60), i.e. about [0.58, 1.15] * S ; four guard digits
      pure val m = if (k >= 0) a * 10^4 / 2^k else a * 10^4 * 2^(-k)
      pure val t = (m - G) * G / (m + G)
      pure val z = t * t / G
      pure val h = [29, 27, 25, 23, 21, 19, 17, 15, 13, 11, 9, 7, 5, 3, 1]
        .foldl(0, (acc, n) => G / n + z * acc / G)
      roundDiv(2 * t * h / G * 10^18 + k * LN2_40, 10^22)
    }
  pure def hypot(x: int, y: int): int = isqrt(x * x + y * y)

  // |a - b| within an absolute tolerance
  pure def near(a: int, b: int, tol: int): bool = iabs(a - b) <= tol

  // -- packed trace records ---------------------------------------------
  // One recorded event is one integer: field i is the base-B digit number i,
  // offset by OFF so that it can be negative; the digit 0 encodes a value
  // that is not a finite number.
  pure val B: int = 10^34
  pure val OFF: int = 5 * 10^33
  pure val NAN: int = -5 * 10^33
  pure def fieldAt(ev: int, i: int): int = (ev / B^i) % B - OFF
  pure def unpack(ev: int, n: int): List[int] =
    range(0, n).foldl((List(), ev), (acc, i) =>
      (acc._1.append(acc._2 % B - OFF), acc._2 / B))._1
  pure def finite(v: int): bool = v != NAN
}
