// -*- mode: Bluespec; -*-
/**
 * Transit timing: the label of the transit that a time belongs to, and the
 * linear ephemeris through labelled transit times.
 */
module ttv {
  import fx.* from "./fx"
  import kepler.* from "./kepler"

  // -- labelling ---------------------------------------------------------------
  // The definition: the transit nearest to t (the earliest of them on a tie)
  pure def nearest(tts: List[int], t: int): int =
    range(0, length(tts)).foldl(0, (best, k) =>
      if (iabs(t - tts.nth(k)) < iabs(t - tts.nth(best))) k else best)
  // does another transit tie, within tol?
  pure def tied(tts: List[int], t: int, tol: int): bool = {
    pure val k = nearest(tts, t)
    range(0, length(tts)).foldl(false, (acc, j) =>
      acc or (j != k and iabs(t - tts.nth(j)) - iabs(t - tts.nth(k)) <= tol))
  }
  // The mechanism: the number of edges (midpoints between neighbours, and one
  // edge beyond each end) that lie before t, and the table that it indexes
  pure def edges2(tts: List[int], half: int): List[int] =
    // doubled, so that midpoints of whole numbers are whole
    List(2 * tts.nth(0) - 2 * half)
      .concat(range(0, length(tts) - 1).foldl(List(), (acc, k) => acc.append(tts.nth(k) + tts.nth(k + 1))))
      .append(2 * tts.nth(length(tts) - 1) + 2 * half)
  pure def binned(tts: List[int], half: int, t: int): int = {
    pure val n = length(tts)
    pure val k = edges2(tts, half).foldl(0, (acc, x) => if (x < 2 * t) acc + 1 else acc)
    // table: first, all of them, last
    if (k == 0) 0 else if (k > n) n - 1 else k - 1
  }

  // -- least squares -------------------------------------------------------------
  type Line = { P: int, t0: int }
  pure def lsq(idx: List[int], y: List[int]): Line = {
    pure val n = length(idx)
    pure val sums = range(0, n).foldl((0, 0, 0, 0), (a, k) => {
      pure val x = idx.nth(k)
      (a._1 + x, a._2 + x * x, a._3 + y.nth(k), a._4 + x * y.nth(k))
    })
    pure val den = n * sums._2 - sums._1 * sums._1
    if (den <= 0) { P: S, t0: 0 } else
    { P: roundDiv(n * sums._4 - sums._1 * sums._3, den),
      t0: roundDiv(sums._2 * sums._3 - sums._1 * sums._4, den) }
  }

  // -- timing orbits --------------------------------------------------------------
  // How a planet's times were given
  // mode 0: timing variations; 1: transit times; 2: transit times and an
  // offset of the log-period; 3: transit times and the period
  type Labels = { mode: int, dlog: int, idx: List[int], y: List[int] }
  type Timing = {
    el: Elements,          // the shape, with the ephemeris as reference
    line: Line,            // period and reference of the transit times
    obs: List[int],        // the time of each given transit
    ttv: List[int],        // and its variation
    tts: List[int]         // every labelled transit, including unobserved ones
  }
  pure def timing(g: Givens, lab: Labels): Timing = {
    pure val line = if (lab.mode == 0) { pure val el = derive(g) { P: el.P, t0: el.t0 } } else lsq(lab.idx, lab.y)
    pure val P = if (lab.mode == 0 or lab.mode == 3) g.P
      else if (lab.mode == 1) line.P else mul(line.P, exp(lab.dlog))
    pure val el = if (lab.mode == 0) derive(g) else derive({ ...g, P: P, tk: 1, tr: line.t0 })
    pure val n = length(lab.idx)
    pure def expected(k: int): int = line.t0 + k * line.P
    pure val obs = range(0, n).foldl(List(), (acc, k) =>
      acc.append(if (lab.mode == 0) expected(lab.idx.nth(k)) + lab.y.nth(k) else lab.y.nth(k)))
    pure val last = lab.idx.foldl(0, (acc, k) => imax(acc, k))
    pure val tts = range(0, last + 1).foldl(List(), (acc, k) => {
      pure val at = range(0, n).foldl(-1, (f, j) => if (lab.idx.nth(j) == k) j else f)
      acc.append(if (at < 0) expected(k) else obs.nth(at))
    })
    { el: el, line: line, obs: obs, tts: tts,
      ttv: range(0, n).foldl(List(), (acc, k) => acc.append(obs.nth(k) - expected(lab.idx.nth(k)))) }
  }
  // The two-body orbit that applies at t: its reference is the nearest transit
  pure def orbitAt(tm: Timing, t: int): Elements = {
    pure val tt = tm.tts.nth(nearest(tm.tts, t))
    { ...tm.el, t0: tt, tp: tt + tm.el.tp - tm.el.t0 }
  }
}
