// -*- mode: Bluespec; -*-
/**
 * Prior densities, as functions of the parameters that users see.
 */
module priors {
  import fx.* from "./fx"
  pure def sum(xs: List[int]): int = xs.foldl(0, (a, b) => a + b)

  // -- determinants -------------------------------------------------------------
  // ln |det| by elimination; rows are scaled first
  pure def rowMax(r: List[int]): int = r.foldl(0, (a, v) => imax(a, iabs(v)))
  type Elim = { rows: List[List[int]], ln: int, ok: bool }
  pure def logDet(M: List[List[int]]): (bool, int) = {
    pure val n = length(M)
    pure val start: Elim = M.foldl({ rows: List(), ln: 0, ok: true }, (acc, r) => {
      pure val m = rowMax(r)
      if (m == 0) { ...acc, ok: false }
      else { ...acc, rows: acc.rows.append(r.foldl(List(), (o, v) => o.append(div(v, m)))), ln: acc.ln + ln(m) }
    })
    pure val r = range(0, n).foldl(start, (acc, k) =>
      if (not(acc.ok)) acc else {
        // the row with the greatest entry in column k comes first
        pure val b = range(k, n).foldl(k, (x, i) => if (iabs(acc.rows.nth(i).nth(k)) > iabs(acc.rows.nth(x).nth(k))) i else x)
        pure val pivot = acc.rows.nth(b)
        pure val p = pivot.nth(k)
        if (iabs(p) < 1000) { ...acc, ok: false }
        else {
          pure val swapped = acc.rows.replaceAt(b, acc.rows.nth(k)).replaceAt(k, pivot)
          { ok: true, ln: acc.ln + ln(iabs(p)),
            rows: range(0, n).foldl(List(), (o, i) => o.append(
              if (i <= k) swapped.nth(i) else {
                pure val f = div(swapped.nth(i).nth(k), p)
                range(0, n).foldl(List(), (w, j) => w.append(swapped.nth(i).nth(j) - mul(f, pivot.nth(j))))
              })) }
        }
      })
    (r.ok, r.ln)
  }

  // -- densities ----------------------------------------------------------------
  // ln Gamma(x), x > 0: Stirling's series beyond 15
  pure def lnGamma(x: int): int = {
    pure val shift = range(0, 16).foldl((x, S), (a, i) =>
      if (a._1 >= 15 * S) a else (a._1 + S, mul(a._2, a._1)))
    pure val y = shift._1
    pure val i = div(S, y)
    pure val i2 = sq(i)
    pure val series = mul(i, S / 12 - mul(i2, S / 360 - mul(i2, S / 1260 - mul(i2, S / 1680 - mul(i2, S / 1188)))))
    mul(y - S / 2, ln(y)) - y + ln(TWOPI) / 2 + series - ln(shift._2)
  }
  pure def power(x: int, p: int): int = if (x <= 0) 0 else exp(mul(p, ln(x)))
  // nodes and weights of Gauss-Legendre quadrature with 6 points on [-1, 1]
  pure val GL: List[(int, int)] = [
    (932469514203152028, 171324492379170345), (661209386466264514, 360761573048138608), (238619186083196909, 467913934572691047),
    (-932469514203152028, 171324492379170345), (-661209386466264514, 360761573048138608), (-238619186083196909, 467913934572691047) ]
  // integral of x^(a-1) (1-x)^(b-1) over [lo, hi] below 1/2, with t = x^a; the
  // part above 1/2 is its mirror image
  pure val PANELS = 10
  pure def lowerMass(a: int, b: int, lo: int, hi: int): int = {
    pure val t0 = if (lo <= 0) 0 else power(lo, a)
    pure val t1 = if (hi >= S) S else power(hi, a)
    // panels get narrower towards t = 0 (t = s^3)
    pure def cut(i: int): int = {
      pure val u = (i * S) / PANELS
      t0 + mul(t1 - t0, mul(u, sq(u)))
    }
    pure val total = range(0, PANELS).foldl(0, (acc, i) => {
      pure val h = (cut(i + 1) - cut(i)) / 2
      pure val m = cut(i) + h
      acc + mul(h, GL.foldl(0, (s, g) => {
        pure val t = m + mul(h, g._1)
        s + mul(g._2, power(S - power(t, div(S, a)), b - S))
      }))
    })
    div(total, a)
  }
  pure def betaMass(a: int, b: int, lo: int, hi: int): int =
    (if (lo < S / 2) lowerMass(a, b, lo, imin(hi, S / 2)) else 0)
    + (if (hi > S / 2) lowerMass(b, a, S - hi, S - imax(lo, S / 2)) else 0)
  // the Beta density restricted to (lo, hi), normalized
  pure def lnBeta(e: int, a: int, b: int, lo: int, hi: int): int = {
    pure val shape = mul(a - S, ln(e)) + mul(b - S, ln(S - e))
    shape - (if (lo <= 0 and hi >= S) lnGamma(a) + lnGamma(b) - lnGamma(a + b) else ln(betaMass(a, b, lo, hi)))
  }
  pure val LN2: int = 693147180559945309
  pure def lnNormal(x: int, mu: int, sd: int): int = 0 - sq(div(x - mu, sd)) / 2 - ln(sd) - ln(TWOPI) / 2
  // the mixture of a half-Gaussian and a Rayleigh distribution
  pure def lnHalfGauss(e: int, sg: int): int = lnNormal(e, 0, sg) + LN2
  pure def lnRayleigh(e: int, sr: int): int = ln(e) - 2 * ln(sr) - sq(div(e, sr)) / 2
  pure def lnSum(a: int, b: int): int = imax(a, b) + ln(S + exp(0 - iabs(a - b)))
  pure def lnMixture(e: int, sg: int, sr: int, f: int): int =
    lnSum(ln(S - f) + lnHalfGauss(e, sg), ln(f) + lnRayleigh(e, sr))
  // published parameters: mean and uncertainty of alpha and beta (Kipping 2013b, table 1)
  type Hyper = { mu: List[int], sd: List[int] }
  pure val KIPPING_LONG: Hyper = { mu: [112 * S / 100, 309 * S / 100], sd: [S / 10, 3 * S / 10] }
  pure val KIPPING_SHORT: Hyper = { mu: [697 * S / 1000, 327 * S / 100], sd: [4 * S / 10, 3 * S / 10] }
  pure val KIPPING_ALL: Hyper = { mu: [867 * S / 1000, 303 * S / 100], sd: [44 * S / 1000, 17 * S / 100] }
  // sigma of the half-Gaussian, of the Rayleigh distribution, and its fraction (Van Eylen 2019)
  pure def vanEylen(multi: bool): Hyper = {
    mu: [49 * S / 1000, 26 * S / 100, if (multi) 8 * S / 100 else 76 * S / 100],
    sd: [2 * S / 100, 5 * S / 100, if (multi) 8 * S / 100 else 2 * S / 10] }
}
