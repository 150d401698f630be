// -*- mode: Bluespec; -*-
/**
 * Weighted least squares of sinusoids, peaks of a periodogram, and what the
 * period searches compute from a time series.
 */
module estimators {
  import fx.* from "./fx"
  import kepler.* from "./kepler"
  import units.* from "./units"
  pure def sum(xs: List[int]): int = xs.foldl(0, (a, b) => a + b)
  // sine and cosine of 2 pi x / P
  pure def turn(x: int, P: int): (int, int) = sincos(mul(TWOPI, floorMod(div(x, P), S)))

  // -- least squares ------------------------------------------------------------
  // Gauss-Jordan elimination of the normal equations (symmetric and positive,
  // so without pivoting); the second part is the smallest pivot.
  type Fit = { w: List[int], pivot: int }
  pure def solve(M: List[List[int]]): Fit = {
    pure val n = length(M)
    pure val r = range(0, n).foldl((M, S), (acc, k) => {
      pure val p = acc._1.nth(k).nth(k)
      pure val row = range(0, n + 1).foldl(List(), (r, j) => r.append(if (p == 0) 0 else div(acc._1.nth(k).nth(j), p)))
      (range(0, n).foldl(List(), (rows, i) => rows.append(
        if (i == k) row else range(0, n + 1).foldl(List(), (r, j) =>
          r.append(acc._1.nth(i).nth(j) - mul(acc._1.nth(i).nth(k), row.nth(j)))))), imin(acc._2, p))
    })
    { w: range(0, n).foldl(List(), (acc, i) => acc.append(r._1.nth(i).nth(n))), pivot: r._2 }
  }
  // columns[i][k] is basis function i at time k; the weights add up to one
  pure def leastSquares(columns: List[List[int]], y: List[int], weights: List[int]): Fit =
    solve(columns.foldl(List(), (M, c) => M.append(
      columns.append(y).foldl(List(), (row, d) => row.append(
        range(0, length(y)).foldl(0, (acc, k) => acc + mul(weights.nth(k), mul(c.nth(k), d.nth(k)))))))))
  pure def normalized(w: List[int]): List[int] = {
    pure val t = sum(w)
    w.foldl(List(), (acc, v) => acc.append(div(v, t)))
  }
  pure def ones(n: int): List[int] = range(0, n).foldl(List(), (acc, k) => acc.append(S))
  pure def inverseSquares(es: List[int]): List[int] = {
    pure val m = es.foldl(es.nth(0), (a, b) => imin(a, b))
    es.foldl(List(), (acc, e) => acc.append(sq(div(m, e))))
  }

  // -- radial velocities --------------------------------------------------------
  // metres per second: plain, m/s, km/s, cm/s
  pure val SPEEDS: List[(int, int)] = [(1, 1), (1, 1), (1000, 1), (1, 100)]
  pure def each(xs: List[int], r: (int, int)): List[int] = xs.foldl(List(), (acc, x) => acc.append(scale(x, r)))
  type Series = { Ps: List[int], t0s: List[int], x: List[int], y: List[int], e: List[int], ms: int }
  pure def columnsOf(s: Series): List[List[int]] = {
    pure val waves = range(0, length(s.Ps)).foldl(List(), (acc, i) => {
      pure val P = s.Ps.nth(i)
      if (length(s.t0s) > 0)
        // after a transit the planet recedes and the star approaches
        acc.append(s.x.foldl(List(), (c, t) => c.append(0 - turn(t - s.t0s.nth(i), P)._1)))
      else
        acc.append(s.x.foldl(List(), (c, t) => c.append(turn(t, P)._1)))
           .append(s.x.foldl(List(), (c, t) => c.append(turn(t, P)._2)))
    })
    waves.append(ones(length(s.x)))
  }
  pure def weightsOf(s: Series): List[int] =
    normalized(if (length(s.e) == 0) ones(length(s.x)) else inverseSquares(s.e))
  pure def fitOf(s: Series): Fit = leastSquares(columnsOf(s), s.y, weightsOf(s))
  pure def amplitudes(s: Series, f: Fit): List[int] =
    range(0, length(s.Ps)).foldl(List(), (acc, i) => acc.append(
      if (length(s.t0s) > 0) f.w.nth(i) else hypot(f.w.nth(2 * i), f.w.nth(2 * i + 1))))
  // m sin i for a light planet, in Jupiters: (G m)^3 = K^3 P (G M)^2 / 2 pi
  pure def minimumMass(K: int, P: int, ms: int): int = {
    // everything in SI, exact but for the roots: K in 1e-18 m/s, P in 1e-18 s
    pure val k = iabs(K)
    pure val g = icbrt(k * k * k * 86400 * P * (GM / 10^6) * (GM / 10^6) / S * ms / S * ms / TWOPI)
    // g = G m * 1e18 * 1e-4
    sgn(K) * (g * 10^4 / (12668653 * 10^10))
  }

  // -- peaks --------------------------------------------------------------------
  // the strict interior local maxima, highest first
  pure def maxima(p: List[int]): List[int] = {
    pure val inner = range(1, length(p) - 1).foldl(List(), (acc, i) =>
      if (p.nth(i) > p.nth(i - 1) and p.nth(i) > p.nth(i + 1)) acc.append(i) else acc)
    // insertion
    inner.foldl(List(), (acc, i) => {
      pure val above = acc.foldl(0, (n, k) => if (p.nth(k) >= p.nth(i)) n + 1 else n)
      acc.slice(0, above).append(i).concat(acc.slice(above, length(acc)))
    })
  }
  // parabola through (x0,y0), (x1,y1), (x2,y2) around x1: position of the top
  // relative to x1, its height, and -1/2 / curvature
  type Top = { at: int, high: int, spread: int, c: int }
  pure def top(x: List[int], y: List[int]): Top = {
    pure val a = x.nth(0) - x.nth(1)
    pure val b = x.nth(2) - x.nth(1)
    pure val sa = div(y.nth(0) - y.nth(1), a)
    pure val sb = div(y.nth(2) - y.nth(1), b)
    pure val c = div(sb - sa, b - a)
    pure val l = sa - mul(c, a)
    pure val at = div(0 - l, 2 * c)
    { at: at, high: y.nth(1) + mul(l, at) / 2, spread: div(0 - S, 2 * c), c: c }
  }
}
