// -*- mode: Bluespec; -*-
/**
 * Trace validation for the estimators: amplitudes and masses from radial
 * velocities, peaks of periodograms, and period searches.
 */
module est_trace {
  import fx.* from "./fx"
  import kepler.* from "./kepler"
  import units.* from "./units"
  import estimators.* from "./estimators"
  const TRACE: List[int]
  type Clause = (str, bool)
  type Fail = { l: int, clause: str }
  // the series that is analysed, its fit, and the periodogram that was computed
  type Search = { method: int, lo: int, hi: int, filt: int, most: int, P: int, t0: int, dur: int, slow: bool, snr: bool,
    noise: int, count: int, dx: int, smooth: int }
  // a local maximum: its number and the points before, at, and after it; a
  // point is frequency, (filtered) power, and the columns that were reported
  type Max = { i: int, points: List[List[int]] }
  type State = { s: Series, f: Fit, h: Search,
    // the periodogram is a stream of points: how many there were, the greatest
    // power, the last two,
    // the highest local maxima (highest first), and how many there were, the
    // first two (for lags), and the points that are looked at in detail
    n: int, high: int, last: List[List[int]], best: List[Max], total: int, first: List[Max], picked: List[List[int]] }
  var l: int
  var st: State
  var fails: List[Fail]
  var seen: str -> int
  // 0 NEW
  // 1 VELOCITIES  n planets, n times, with t0s, n errors, ms, 6 units; numbers
  // 2 AMPLITUDES  K of each planet
  // 3 MASSES      minimum mass of each planet in M_jup
  // 10 PERIODOGRAM  n, requested peaks; frequencies, powers
  // 11 FOUND      number of peaks that were returned
  // 12 PEAK       rank index log_power period uncertainty
  // 13 NONE       an error says that there are no peaks
  // 20 SERIES     n times, n errors; x, y, e
  // 21 SEARCH     method, lo hi (0: not given) filter, most, P t0 dur of the signal, slow, snr, noise,
  //               number of points, spacing and smoothing length of lags
  // 22 ROWS       k columns m; m rows of k columns (frequency power) or
  //               (period power depth depth_err duration transit_time snr log_likelihood)
  //               or (tau acf)
  // 23 COMPUTED   the periodogram is complete
  // 24 INFO       the 8 columns as reported at the peak
  // 25 ESTIMATE   method, period at the highest peak, index
  // 27 LAGPEAK    number of peaks, period
  pure val NOSERIES: Series = { Ps: List(), t0s: List(), x: List(), y: List(), e: List(), ms: 0 }
  pure val NONE: State = { s: NOSERIES, f: { w: List(), pivot: 0 },
    h: { method: 0, lo: 0, hi: 0, filt: 0, most: 0, P: 0, t0: 0, dur: 0, slow: false, snr: false, noise: 0, count: 0, dx: 0, smooth: 0 },
    n: 0, high: 0, last: List(), best: List(), total: 0, first: List(), picked: List() }

  // -- radial velocities --------------------------------------------------------
  pure def velocities(ev: int): Series = {
    pure val h = unpack(ev, 12)
    pure val np = h.nth(1)
    pure val n = h.nth(2)
    pure val nT = if (h.nth(3) == 1) np else 0
    pure val e = unpack(ev, 12 + np + nT + 2 * n + h.nth(4)).slice(12, 12 + np + nT + 2 * n + h.nth(4))
    pure val b = np + nT + 2 * n
    pure val err = each(e.slice(b, b + h.nth(4)), SPEEDS.nth(h.nth(10)))
    { Ps: each(e.slice(0, np), factor(TIME, h.nth(6))), t0s: each(e.slice(np, np + nT), factor(TIME, h.nth(8))),
      x: each(e.slice(np + nT, np + nT + n), factor(TIME, h.nth(7))),
      y: each(e.slice(np + nT + n, b), SPEEDS.nth(h.nth(9))),
      e: if (length(err) == 1) List() else err, ms: scale(h.nth(5), factor(MASS, h.nth(11))) }
  }
  pure def biggest(xs: List[int]): int = xs.foldl(0, (a, b) => imax(a, iabs(b)))
  pure def amplitudeTol(s: Series, f: Fit): int =
    // phases of far-away times are less exact
    (biggest(s.y) + S) / 10^9 + mul(biggest(s.y), div(biggest(s.x), S * 10^3)) / 10^9
  pure def checkAmplitudes(x: State, e: List[int]): List[Clause] =
    // (nearly) degenerate fits are left out
    if (x.f.pivot < S / 1000) List()
    else {
      pure val K = amplitudes(x.s, x.f)
      pure val tol = amplitudeTol(x.s, x.f)
      [ (if (length(x.s.t0s) > 0) "rv_amplitude_with_t0" else "rv_amplitude",
         range(0, length(K)).foldl(true, (ok, i) => ok and finite(e.nth(1 + i)) and near(e.nth(1 + i), K.nth(i), tol))) ]
    }
  pure def checkMasses(x: State, e: List[int]): List[Clause] =
    if (x.f.pivot < S / 1000) List()
    else {
      pure val K = amplitudes(x.s, x.f)
      pure val tol = amplitudeTol(x.s, x.f)
      [ ("rv_minimum_mass", range(0, length(K)).foldl(true, (ok, i) => {
          pure val m = minimumMass(K.nth(i), x.s.Ps.nth(i), x.s.ms)
          pure val slack = iabs(minimumMass(tol, x.s.Ps.nth(i), x.s.ms))
          // the published constant has six digits
          ok and finite(e.nth(1 + i)) and near(e.nth(1 + i), m, iabs(m) / 5000 + 2 * slack)
        })) ]
    }

  // -- peaks --------------------------------------------------------------------
  pure val KEPT = 24
  pure def freqAt(m: Max, k: int): int = m.points.nth(k).nth(0)
  pure def powerAt(m: Max, k: int): int = m.points.nth(k).nth(1)
  pure def insert(ms: List[Max], m: Max): List[Max] = {
    pure val above = ms.foldl(0, (n, o) => if (powerAt(o, 1) >= powerAt(m, 1)) n + 1 else n)
    pure val r = ms.slice(0, above).append(m).concat(ms.slice(above, length(ms)))
    r.slice(0, imin(KEPT, length(r)))
  }
  // one more point
  pure def feed(x: State, row: List[int]): State = {
    pure val two = length(x.last) == 2
    pure val m = { i: x.n - 1, points: x.last.append(row) }
    pure val top1 = if (two) powerAt(m, 1) > powerAt(m, 0) and powerAt(m, 1) > powerAt(m, 2) else false
    { ...x, n: x.n + 1, high: imax(x.high, row.nth(1)),
      last: if (two) [x.last.nth(1), row] else x.last.append(row),
      best: if (top1) insert(x.best, m) else x.best,
      total: if (top1) x.total + 1 else x.total,
      first: if (top1 and length(x.first) < 2 and (x.h.method != 2 or freqAt(m, 1) >= x.h.lo)) x.first.append(m) else x.first,
      picked: if (x.n == x.h.count / 3 or x.n == x.h.count / 2 or x.n == 4 * x.h.count / 5) x.picked.append(row) else x.picked }
  }
  pure def checkPeak(x: State, e: List[int]): List[Clause] = {
    pure val rank = e.nth(1)
    pure val found = x.best.select(m => m.i == e.nth(2))
    if (length(found) == 0 or rank >= length(x.best)) [("peak_index", false)]
    else {
      pure val m = found.nth(0)
      pure val f3 = [freqAt(m, 0), freqAt(m, 1), freqAt(m, 2)]
      pure val l3 = [ln(powerAt(m, 0)), ln(powerAt(m, 1)), ln(powerAt(m, 2))]
      pure val w = top(f3, l3)
      pure val gap = imin(iabs(f3.nth(1) - f3.nth(0)), iabs(f3.nth(2) - f3.nth(1)))
      // is the curvature well determined, in both arithmetics?
      pure val bend = iabs(mul(mul(w.c, gap), gap))
      pure val clear = bend > S / 1000 and powerAt(m, 0) > 10^8 and powerAt(m, 2) > 10^8 and gap > 10^9 and mul(gap, gap) > 10^6
      pure val f0 = f3.nth(1) + w.at
      // standard deviation of the Gaussian with this log density, as a period
      pure val spread = div(sqrt(w.spread), sq(f0))
      [ ("peak_index", true), ("peak_order", near(powerAt(m, 1), powerAt(x.best.nth(rank), 1), powerAt(m, 1) / 10^10 + 2)) ].concat(
        if (not(clear)) List() else
        [ ("peak_period", finite(e.nth(4)) and near(e.nth(4), div(S, f0), div(gap, sq(f0)) / 10^5 + 10^4)),
          ("peak_log_power", finite(e.nth(3)) and near(e.nth(3), w.high, 2 * S / 10^6)),
          ("peak_uncertainty", finite(e.nth(5)) and near(e.nth(5), spread, spread / 10^4 + 10^4)) ])
    }
  }

  // -- searches -----------------------------------------------------------------
  pure def within(v: int, lo: int, hi: int, slack: int): bool =
    (lo == 0 or v > lo - slack) and (hi == 0 or v < hi + slack)
  // frequencies stay inside the limits, but for half a grid step
  pure def inLimits(x: State, fs: List[int]): bool = {
    pure val step = if (length(x.last) == 2) iabs(x.last.nth(1).nth(0) - x.last.nth(0).nth(0)) / 2 + 10^6 else
      if (length(fs) > 1) iabs(fs.nth(1) - fs.nth(0)) / 2 + 10^6 else 10^6
    fs.foldl(true, (ok, f) => ok and (x.h.lo == 0 or f < div(S, x.h.lo) + step) and
      (x.h.hi == 0 or f > div(S, x.h.hi) - step))
  }
  pure def down(x: State, f: int, p: int): int =
    if (x.h.filt == 0) p else {
      pure val r = div(S, mul(f, x.h.filt))
      div(p, sqrt(S + mul(sq(r), sq(sq(r)))))
    }
  pure def errorsOf(x: State): List[int] = if (length(x.s.e) == 0) ones(length(x.s.x)) else x.s.e
  // half the decrease of chi squared by a sinusoid, per observation
  pure def spectrumAt(x: State, f: int): (int, int) = {
    pure val P = div(S, f)
    pure val y = x.s.y
    pure val iv = errorsOf(x).foldl(List(), (acc, e) => acc.append(div(S, sq(e))))
    pure val t = sum(iv)
    pure val w = normalized(iv)
    pure val x0 = x.s.x.nth(0)
    pure val mean = range(0, length(y)).foldl(0, (a, k) => a + mul(w.nth(k), y.nth(k)))
    pure val z = y.foldl(List(), (acc, v) => acc.append(v - mean))
    pure val cols = [
      x.s.x.foldl(List(), (c, v) => c.append(turn(v - x0, P)._1)),
      x.s.x.foldl(List(), (c, v) => c.append(turn(v - x0, P)._2)), ones(length(y)) ]
    pure val fit = leastSquares(cols, z, w)
    // sum of w z (model)
    pure val gain = range(0, length(y)).foldl(0, (a, k) => a + mul(w.nth(k), mul(z.nth(k),
      range(0, 3).foldl(0, (m, c) => m + mul(fit.w.nth(c), cols.nth(c).nth(k))))))
    pure val all2 = range(0, length(y)).foldl(0, (a, k) => a + mul(w.nth(k), sq(z.nth(k))))
    (mul(gain, t) / 2 / length(y), mul(all2, t) / 2 / length(y))
  }
  pure def checkComputed(x: State): List[Clause] =
    // three frequencies of the unfiltered spectrum
    if (x.h.method == 0)
      [ ("search_grid", x.n == x.h.count and x.n > 2),
        ("spectrum", x.picked.foldl(true, (ok, r) => ok and {
          pure val want = spectrumAt(x, r.nth(0))
          near(r.nth(3), want._1, want._2 / 10)
        })) ]
    else if (x.h.method == 2) checkLag(x)
    else List()
  // points as they are reported: frequency and power, period and others, or lags
  pure def pointOf(x: State, v: List[int]): List[int] =
    if (x.h.method == 0) [v.nth(0), down(x, v.nth(0), v.nth(1))].concat(v)
    else if (x.h.method == 1) [div(S, v.nth(0)), v.nth(1)].concat(v)
    else [v.nth(0), v.nth(1)].concat(v)
  pure def checkRows(x: State, vs: List[List[int]]): List[Clause] =
    if (x.h.method == 2)
      [("lag_grid", range(0, length(vs)).foldl(true, (ok, k) => ok and near(vs.nth(k).nth(0), (x.n + k) * x.h.dx, 10^9)))]
    else [("search_limits", inLimits(x, vs.foldl(List(), (acc, v) => acc.append(pointOf(x, v).nth(0)))))].concat(
      if (x.h.method == 0) List() else
      [("bls_objective", vs.foldl(true, (ok, v) => ok and (v.nth(1) == NAN or v.nth(1) == v.nth(if (x.h.snr) 6 else 7))))])
  // what was reported at the peak, and what the box there looks like
  pure def folded(v: int, t0: int, P: int): int = iabs(floorMod(v - t0 + P / 2, P) - P / 2)
  pure def checkInfo(x: State, e: List[int]): List[Clause] = {
    pure val best = isBest(x, e)
    pure val P = e.nth(1)
    pure val t = e.nth(6)
    pure val half = e.nth(5) / 2
    pure val edge = x.s.x.foldl(true, (ok, v) => ok and not(near(folded(v, t, P), half, S / 10^6)))
    pure val es = errorsOf(x)
    pure val m = es.foldl(es.nth(0), (a, b) => imin(a, b))
    pure val sums = range(0, length(x.s.x)).foldl((0, 0, 0, 0), (a, k) => {
      pure val w = sq(div(m, es.nth(k)))
      pure val wy = mul(w, x.s.y.nth(k))
      if (folded(x.s.x.nth(k), t, P) < half) (a._1 + w, a._2 + wy, a._3, a._4) else (a._1, a._2, a._3 + w, a._4 + wy)
    })
    pure val depth = div(sums._4, sums._3) - div(sums._2, sums._1)
    pure val err = mul(m, sqrt(div(S, sums._1) + div(S, sums._3)))
    [ ("bls_same_index", best),
      ("bls_right_time", x.h.noise > 0 or iabs(P - x.h.P) > mul(P, div(P, x.s.x.nth(length(x.s.x) - 1) - x.s.x.nth(0))) / 20 or
        folded(t, x.h.t0, x.h.P) < x.h.dur / 2 + iabs(P - x.h.P) * 8) ].concat(
      // the brute force method uses exactly the observations inside the box
      if (not(x.h.slow and edge)) List() else
      [ ("bls_depth", near(e.nth(3), depth, iabs(depth) / 10^7 + biggest(x.s.y) / 10^7)),
        ("bls_depth_err", near(e.nth(4), err, err / 10^7 + 1000)) ])
  }
  pure def isBest(x: State, e: List[int]): bool =
    // one of the points that share the greatest power
    length(x.best) > 0 and x.best.foldl(false, (ok, m) => ok or
      (powerAt(m, 1) == powerAt(x.best.nth(0), 1) and range(0, 8).foldl(true, (s, k) => s and
        near(m.points.nth(1).nth(2 + k), e.nth(1 + k), 10))))
  // a noiseless signal is found where it is, if the limits allow
  pure def checkEstimate(x: State, e: List[int]): List[Clause] = {
    pure val P = x.h.P
    pure val span = x.s.x.nth(length(x.s.x) - 1) - x.s.x.nth(0)
    pure val room = mul(P, div(P, span))
    // half a period of phase over the whole series
    pure val tol = if (e.nth(1) == 2) P / 15 + x.h.dx else room / 3
    // nothing is a peak where the highest power is shared by neighbours, or at the edge
    if (x.h.noise > 0 or length(x.best) == 0) List()
    else if (powerAt(x.best.nth(0), 1) < x.high or not((x.h.lo == 0 or x.h.lo < P - 2 * tol) and (x.h.hi == 0 or x.h.hi > P + 2 * tol))) List()
    else [("signal_found", finite(e.nth(2)) and near(e.nth(2), P, tol))]
  }

  // -- autocorrelation ----------------------------------------------------------
  // linear interpolation, as xs are increasing
  pure def interpolated(xs: List[int], ys: List[int], v: int): int = {
    pure val k = range(0, length(xs) - 1).foldl(0, (acc, i) => if (xs.nth(i) <= v) i else acc)
    ys.nth(k) + mul(ys.nth(k + 1) - ys.nth(k), div(v - xs.nth(k), xs.nth(k + 1) - xs.nth(k)))
  }
  pure def lagged(z: List[int], k: int): int = range(0, length(z) - k).foldl(0, (a, m) => a + mul(z.nth(m), z.nth(m + k)))
  // the smoothed function, if the kernel fits into the lags
  pure def checkLag(x: State): List[Clause] = {
    pure val n = x.h.count
    pure val i = n / 3
    pure val dx = x.h.dx
    pure val sigma = div(x.h.smooth, dx)
    pure val reach = (4 * sigma + S / 2) / S
    if (x.n != n) [("lag_grid", false)]
    else if (reach > 24 or i - reach < 0 or i + reach >= n or n > 130) List()
    else {
      pure val end = x.s.x.nth(length(x.s.x) - 1)
      pure val raw = range(0, n).foldl(List(), (acc, k) =>
        acc.append(interpolated(x.s.x, x.s.y, imin(x.s.x.nth(0) + k * dx, end))))
      pure val mean = sum(raw) / n
      pure val z = raw.foldl(List(), (acc, v) => acc.append(v - mean))
      pure val s = range(0 - reach, reach + 1).foldl((0, 0), (a, k) => {
        pure val g = if (sigma == 0) S else exp(0 - sq(div(k * S, sigma)) / 2)
        (a._1 + mul(g, lagged(z, i + k)), a._2 + g)
      })
      [("lag_value", near(x.picked.nth(0).nth(1), div(div(s._1, s._2), lagged(z, 0)), S / 10^7))]
    }
  }
  // the first peak in the limits, or the second if it is higher
  pure def checkLagPeak(x: State, e: List[int]): List[Clause] = {
    pure val most = if (x.h.hi == 0) x.s.x.nth(length(x.s.x) - 1) - x.s.x.nth(0) else x.h.hi
    pure val k = if (length(x.first) == 0) -1 else if (freqAt(x.first.nth(0), 1) > most) -1
      else if (length(x.first) == 1) 0
      else if (powerAt(x.first.nth(1), 1) > powerAt(x.first.nth(0), 1)) 1 else 0
    pure val none = if (k < 0) true else freqAt(x.first.nth(k), 1) > most
    if (none) [("lag_no_peak", e.nth(1) == 0)]
    else [("lag_peak", e.nth(1) == 1 and e.nth(2) == freqAt(x.first.nth(k), 1))]
  }

  pure def numbers(ev: int, from: int, n: int): List[int] = unpack(ev, from + n).slice(from, from + n)
  pure def tableOf(ev: int, e: List[int]): List[List[int]] = {
    pure val v = numbers(ev, 3, e.nth(1) * e.nth(2))
    range(0, e.nth(2)).foldl(List(), (acc, i) => acc.append(v.slice(i * e.nth(1), (i + 1) * e.nth(1))))
  }
  pure def judge(x: State, ev: int, e: List[int]): List[Clause] = {
    pure val k = e.nth(0)
    pure val count = imin(imax(1, x.h.most), x.total)
    if (k == 9) [("no_exception", false)]
    else if (k == 2) checkAmplitudes(x, e)
    else if (k == 3) checkMasses(x, e)
    else if (k == 11) [("peak_count", e.nth(1) == count)]
    else if (k == 12) checkPeak(x, e)
    else if (k == 13) [("peak_error", x.total == 0 and x.h.most == 0)]
    else if (k == 22) checkRows(x, tableOf(ev, e))
    else if (k == 23) checkComputed(x)
    else if (k == 24) checkInfo(x, e)
    else if (k == 25) checkEstimate(x, e)
    else if (k == 27) checkLagPeak(x, e)
    else List()
  }
  pure def advance(x: State, ev: int, e: List[int]): State = {
    pure val k = e.nth(0)
    if (k == 0) NONE
    else if (k == 1) {
      pure val s = velocities(ev)
      { ...x, s: s, f: fitOf(s) }
    }
    else if (k == 10) {
      pure val n = e.nth(1)
      pure val v = numbers(ev, 3, 2 * n)
      pure val p = v.slice(n, 2 * n)
      range(0, n).foldl({ ...NONE, h: { ...NONE.h, most: e.nth(2) } }, (y, i) => feed(y, [v.nth(i), p.nth(i)]))
    }
    else if (k == 20) {
      pure val n = e.nth(1)
      pure val v = numbers(ev, 3, 2 * n + e.nth(2))
      { ...NONE, s: { ...NOSERIES, x: v.slice(0, n), y: v.slice(n, 2 * n), e: v.slice(2 * n, 2 * n + e.nth(2)) } }
    }
    else if (k == 21)
      { ...x, h: { method: e.nth(1), lo: e.nth(2), hi: e.nth(3), filt: e.nth(4), most: e.nth(5), P: e.nth(6), t0: e.nth(7),
                   dur: e.nth(8), slow: e.nth(9) == 1, snr: e.nth(10) == 1, noise: e.nth(11),
                   count: e.nth(12), dx: e.nth(13), smooth: e.nth(14) } }
    else if (k == 22) tableOf(ev, e).foldl(x, (y, v) => feed(y, pointOf(y, v)))
    else x
  }
  action init = all { l' = 0, st' = NONE, fails' = List(), seen' = Map() }
  action step = all {
    l < TRACE.length(),
    val e = unpack(TRACE.nth(l), 16)
    val clauses = judge(st, TRACE.nth(l), e)
    all {
      l' = l + 1,
      st' = advance(st, TRACE.nth(l), e),
      fails' = clauses.foldl(fails, (acc, c) => if (c._2) acc else acc.append({ l: l, clause: c._1 })),
      seen' = clauses.foldl(seen, (acc, c) =>
        acc.put(c._1, 1 + if (acc.keys().contains(c._1)) acc.get(c._1) else 0))
    }
  }
}
