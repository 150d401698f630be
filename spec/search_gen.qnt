// -*- mode: Bluespec; -*-
/** Time series in which a period is searched, and how. */
module search_gen {
  import fx.* from "./fx"
  import gen.* from "./gen"
  import estimators.* from "./estimators"
  const METHOD: int
  // method 0 Lomb-Scargle, 1 box least squares, 2 autocorrelation
  type Scenario = { ok: bool, method: int, x: List[int], y: List[int], e: List[int],
    P: int, t0: int, dur: int, noise: int, lo: int, hi: int, filt: int, most: int, form: List[int], smooth: int, over: int }
  var scn: Scenario
  pure def sinus(R: int): Scenario = {
    pure val n = 30 + pick(R, 0, 31)
    pure val span = logu(R, 1, 10 * S, 400 * S)
    pure val x0 = one(R, 2, [0, -100 * S, 1500 * S])
    pure val P = uni(R, 3, span / 12, span / 4)
    // one observation in each of n equal intervals
    pure val x = range(0, n).foldl(List(), (acc, i) =>
      acc.append(x0 + (span * (10 * i + 1)) / (10 * n) + uni(part(R, 1 + i / 20), i % 20, 0, 8 * span / (10 * n))))
    pure val noise = one(R, 4, [0, 0, S / 2])
    pure val amp = logu(R, 5, S, 1000 * S)
    pure val off = one(R, 6, [0, uni(R, 7, -50 * S, 50 * S)])
    pure val t0 = uni(R, 8, 0, P)
    pure val y = range(0, n).foldl(List(), (acc, i) => acc.append(
      off + mul(amp, turn(x.nth(i) - t0, P)._1 + (if (noise == 0) 0 else uni(part(R, 5 + i / 20), i % 20, -noise, noise)))))
    pure val e = if (pick(R, 9, 2) == 0) List() else range(0, n).foldl(List(), (acc, i) =>
      acc.append(mul(amp, uni(part(R, 9 + i / 20), i % 20, S / 20, S / 4))))
    // limits around the period, on one side only, or that exclude it
    pure val lo = one(R, 10, [0, P / 2, mul(P, uni(R, 11, S / 5, 2 * S))])
    pure val hi = one(R, 12, [0, 2 * P, imax(2 * lo, mul(P, uni(R, 13, S / 2, 4 * S)))])
    { ok: lo == 0 or hi == 0 or 3 * lo < 2 * hi, method: 0, x: x, y: y, e: e, P: P, t0: t0, dur: 0, noise: noise, lo: lo, hi: hi,
      filt: one(R, 14, [0, 0, P, 2 * P, P / 2]), most: 1 + pick(R, 15, 4), form: [pick(R, 16, 2)], smooth: 0, over: 0 }
  }
  pure def boxes(R: int): Scenario = {
    pure val n = 60 + pick(R, 0, 30)
    pure val span = logu(R, 1, 5 * S, 60 * S)
    pure val x0 = one(R, 2, [0, -100 * S, 1500 * S])
    pure val P = uni(R, 3, span / 7, span / 4)
    pure val dur = uni(R, 4, P / 10, P / 6)
    pure val x = range(0, n).foldl(List(), (acc, i) =>
      acc.append(x0 + (span * (10 * i + 1)) / (10 * n) + uni(part(R, 1 + i / 20), i % 20, 0, 8 * span / (10 * n))))
    pure val noise = one(R, 5, [0, 0, S / 10])
    pure val amp = logu(R, 6, S, 1000 * S)
    pure val t0 = x0 + uni(R, 7, 0, P)
    pure val y = range(0, n).foldl(List(), (acc, i) => {
      pure val ph = floorMod(x.nth(i) - t0 + P / 2, P) - P / 2
      acc.append(mul(amp, (if (iabs(ph) < dur / 2) -S else 0) + (if (noise == 0) 0 else uni(part(R, 6 + i / 20), i % 20, -noise, noise))))
    })
    pure val e = if (pick(R, 8, 2) == 0) List() else range(0, n).foldl(List(), (acc, i) =>
      acc.append(mul(amp, uni(part(R, 11 + i / 20), i % 20, S / 20, S / 4))))
    pure val lo = one(R, 9, [0, P / 2, mul(P, uni(R, 10, S / 4, 3 * S / 2))])
    pure val hi = one(R, 11, [0, 3 * P / 2, imax(2 * lo, 2 * P)])
    { ok: (lo == 0 or lo > 12 * dur / 10) and (lo == 0 or hi == 0 or 3 * lo < 2 * hi), method: 1, x: x, y: y, e: e, P: P, t0: t0, dur: dur,
      noise: noise, lo: lo, hi: hi, filt: 0, most: 1,
      // slow method; objective; frequency factor given; limits by astropy's names
      form: [pick(R, 12, 2), pick(R, 13, 2), pick(R, 14, 3), pick(R, 15, 4)], smooth: 0, over: 0 }
  }
  pure def waves(R: int): Scenario = {
    pure val n = 20 + pick(R, 0, 31)
    pure val dt = logu(R, 1, S / 10, 10 * S)
    pure val P = uni(R, 2, 4 * dt, n * dt / 4)
    pure val x0 = one(R, 3, [0, -100 * S, 1500 * S])
    // even, or not
    pure val even = pick(R, 4, 2) == 0
    pure val x = range(0, n).foldl(List(), (acc, i) =>
      acc.append(x0 + i * dt + if (even) 0 else uni(part(R, 1 + i / 20), i % 20, 0, dt / 3)))
    // a second, faster wave makes a lower peak before that of the period
    pure val fast = one(R, 15, [0, 0, 2, 3])
    pure val noise = one(R, 5, [if (fast > 0) S / 1000 else 0, if (fast > 0) S / 1000 else 0, S / 3])
    pure val amp = logu(R, 6, S / 100, 100 * S)
    pure val y = range(0, n).foldl(List(), (acc, i) => acc.append(
      mul(amp, 3 * S + turn(x.nth(i), P)._1 + (if (fast == 0) 0 else turn(x.nth(i), P / fast)._1) + (if (noise == 0) 0 else uni(part(R, 5 + i / 20), i % 20, -noise, noise)))))
    pure val lo = one(R, 7, [0, P / 4, mul(P, uni(R, 8, S / 5, 2 * S)), mul(P, uni(R, 8, S, 12 * S / 10))])
    pure val hi = one(R, 9, [0, 2 * P, mul(P, uni(R, 10, S / 2, 3 * S)), mul(P, uni(R, 10, S / 3, S))])
    { ok: true, method: 2, x: x, y: y, e: List(), P: P, t0: 0, dur: 0, noise: noise, lo: lo, hi: hi, filt: 0, most: 1,
      form: [pick(R, 12, 2)], smooth: one(R, 13, [2 * S, S, S / 2, S / 10]), over: 1 + pick(R, 14, 2) }
  }
  action init = scn' = { ok: false, method: 0, x: List(), y: List(), e: List(), P: 0, t0: 0, dur: 0, noise: 0, lo: 0, hi: 0,
    filt: 0, most: 0, form: List(), smooth: 0, over: 0 }
  action step = { nondet R = oneOf(0.to(ENTROPY))
    scn' = if (METHOD == 0) sinus(R) else if (METHOD == 1) boxes(R) else waves(R) }
}
