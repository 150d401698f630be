// -*- mode: Bluespec; -*-
module expected_gen {
  import fx.* from "./fx"
  import gen.* from "./gen"
  type Scenario = { ok: bool, lo: int, hi: int, P: List[int], t0: List[int], whole: bool, scalar: bool }
  var scn: Scenario
  pure def mk(R: int): Scenario = {
    pure val nb = 1 + pick(R, 0, 3)
    pure val whole = pick(R, 1, 2) == 0
    // dyadic numbers are exact, so that boundary cases are decided strictly
    pure def rnd(v: int): int = if (whole) v / (S / 8) * (S / 8) else v
    pure val P = range(0, nb).foldl(List(), (acc, j) => acc.append(imax(S / 8, rnd(logu(R, 2 + j, S / 2, 300 * S)))))
    pure val big = P.foldl(0, (a, p) => imax(a, p))
    pure val small = P.foldl(big, (a, p) => imin(a, p))
    pure val shift = one(R, 5, [0, 0, 2450000 * S, uni(R, 6, 0 - 5000 * S, 5000 * S)])
    pure val lo = rnd(shift + uni(R, 7, 0 - 50 * S, 50 * S))
    pure val len = rnd(one(R, 8, [0, uni(R, 9, 0, small), uni(R, 9, 0, 5 * small), uni(R, 9, 0, 12 * small), uni(R, 9, 0, 12 * small), uni(R, 9, 0, 5000 * small)]))
    pure val t0 = range(0, nb).foldl(List(), (acc, j) => acc.append({
      pure val k = pick(R, 10 + j, 2001) - 1000
      // on an edge of the window (sometimes many periods away), or anywhere
      one(R, 13 + j, [lo + k * P.nth(j), lo + len + k * P.nth(j), lo, rnd(lo + uni(R, 16 + j, 0 - 100 * S, 100 * S)), rnd(uni(R, 16 + j, 0 - 3000 * S, 3000 * S))])
    }))
    { ok: true, lo: lo, hi: lo + len, P: P, t0: t0, whole: whole, scalar: nb == 1 and pick(R, 19, 2) == 0 }
  }
  action init = scn' = { ok: false, lo: 0, hi: 0, P: List(), t0: List(), whole: true, scalar: false }
  action step = { nondet R = oneOf(0.to(ENTROPY)) scn' = mk(R) }
}
