// -*- mode: Bluespec; -*-
/** Configurations of the prior distributions, and points at which they are evaluated. */
module priors_gen {
  import fx.* from "./fx"
  import gen.* from "./gen"
  // 1 angle, 2 unit disk, 3 limb darkening, 4 impact parameter, 5 Kipping (2013b), 6 Van Eylen (2019)
  const DIST: int
  const POINTS: int
  type Scenario = { ok: bool, n: int, vector: bool, free: int, variant: int, lo: (int, int), hi: (int, int),
    reg: (int, int), start: List[int], ror: List[int], random: int, points: List[List[int]], radii: List[int],
    given: List[List[int]], x: int }
  var scn: Scenario
  pure val NOTHING: Scenario = { ok: false, n: 0, vector: false, free: 0, variant: 0, lo: (0, 0), hi: (0, 0), reg: (0, 0),
    start: List(), ror: List(), random: 0, points: List(), radii: List(), given: List(), x: 0 }
  // up to 8 unconstrained numbers, at first in the middle
  pure def place(Q: int, wide: int): List[int] =
    range(0, 8).foldl(List(), (acc, j) => acc.append(uni(Q, j, 0 - wide, wide)))
  pure def direction(Q: int, j: int): int = one(Q, j, [0, HALFPI, PI, -HALFPI, uni(Q, j + 8, -PI, PI), uni(Q, j + 8, -PI, PI), uni(Q, j + 8, -PI, PI)])
  pure def starts(Q: int, n: int, ror: List[int]): List[int] =
    if (DIST == 1) range(0, n).foldl(List(), (acc, i) => acc.append(uni(Q, i, -PI + S / 100, PI - S / 100)))
    else if (DIST == 2) {
      pure val polar = range(0, n).foldl(List(), (acc, i) => acc.append((sqrt(uni(Q, i, 0, S * 98 / 100)), uni(Q, 8 + i, -PI, PI))))
      polar.foldl(List(), (acc, p) => acc.append(mul(p._1, cos(p._2)))).concat(polar.foldl(List(), (acc, p) => acc.append(mul(p._1, sin(p._2)))))
    } else if (DIST == 3) {
      // from the inside of the unit square
      pure val us = range(0, n).foldl(List(), (acc, i) => {
        pure val s = sqrt(uni(Q, i, S / 100, S * 99 / 100))
        pure val w = 2 * uni(Q, 8 + i, S / 50, S * 49 / 50)
        acc.append((mul(s, w), mul(s, S - w)))
      })
      us.foldl(List(), (acc, p) => acc.append(p._1)).concat(us.foldl(List(), (acc, p) => acc.append(p._2)))
    } else if (DIST == 4) range(0, n).foldl(List(), (acc, i) => acc.append(mul(uni(Q, i, S / 100, S * 99 / 100), S + ror.nth(i))))
    else List()
  pure def mk(R: int): Scenario = {
    pure val vector = pick(R, 0, 2) == 0
    pure val n = if (vector) 1 + pick(R, 1, 3) else 1
    pure val shared = pick(R, 2, 2) == 0
    pure val ror = range(0, n).foldl(List(), (acc, i) => acc.append(
      uni(R, if (shared) 3 else 3 + i, S / 1000, one(R, 6, [S / 5, S / 2, 2 * S]))))
    pure val lo = if (pick(R, 7, 2) == 0) (1, one(R, 21, [0, uni(R, 8, S / 50, S / 2), uni(R, 8, S / 50, S / 2)])) else (0, 0)
    pure val hi = if (pick(R, 9, 2) == 0) (1, one(R, 22, [S, uni(R, 10, lo._2 + S / 10, S * 98 / 100), uni(R, 10, lo._2 + S / 10, S * 98 / 100)])) else (0, S)
    pure val given = range(0, 5).foldl(List(), (acc, k) => {
      pure val Q = part(R, 3 + k)
      acc.append(range(0, n).foldl(List(), (es, i) => es.append(
        // the last one is anywhere
        if (k == 4) uni(Q, i, S / 100, S * 99 / 100)
        else lo._2 + mul(uni(Q, i, S / 50, S * 98 / 100), hi._2 - lo._2))))
    })
    { ok: true, n: n, vector: vector, free: pick(R, 11, 2), variant: pick(R, 12, 3), lo: lo, hi: hi,
      reg: one2(R), start: if (DIST >= 5) given.nth(3) else starts(part(R, 1), n, ror), ror: ror, random: if (shared) 2 * pick(R, 15, 2) else pick(R, 15, 2),
      points: range(0, POINTS).foldl(List(), (acc, k) => acc.append(
        if (DIST == 1) range(0, 4).foldl(List(), (w, j) => w.append(direction(part(R, 8 + k), j)))
        else place(part(R, 8 + k), if (k % 3 == 0) S else if (k % 3 == 1) 3 * S else 6 * S))),
      radii: range(0, n).foldl(List(), (acc, i) => acc.append(logu(R, 16 + i, S / 1000, 5 * S))),
      given: given, x: pick(R, 20, 1000000) }
  }
  // (0, 0): the default
  pure def one2(R: int): (int, int) =
    [(0, 0), (1, 0), (2, uni(R, 13, S / 10, 20 * S)), (2, 10 * S)].nth(pick(R, 14, 4))
  action init = scn' = NOTHING
  action step = { nondet R = oneOf(0.to(ENTROPY)) scn' = mk(R) }
}
