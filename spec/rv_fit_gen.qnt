// -*- mode: Bluespec; -*-
/** Radial velocity series to which sinusoids are fitted. */
module rv_fit_gen {
  import fx.* from "./fx"
  import gen.* from "./gen"
  import estimators.* from "./estimators"
  import units.* from "./units"
  // Ps, t0s, x, y, e, ms are the numbers in the units u (0: plain numbers) for
  // period, times, transit times, velocities, uncertainties and stellar mass
  type Scenario = { ok: bool, Ps: List[int], t0s: List[int], x: List[int], y: List[int], e: List[int],
    ms: int, u: List[int], form: List[int] }
  var scn: Scenario
  pure def inverse(r: (int, int)): (int, int) = (r._2, r._1)
  pure def mk(R: int): Scenario = {
    pure val np = 1 + pick(R, 0, 3)
    pure val n = 2 * np + 3 + pick(R, 1, 15)
    pure val hasT = pick(R, 2, 2) == 0
    // none, one for each, one for all
    pure val errors = pick(R, 3, 4)
    pure val noise = one(R, 4, [0, 0, S, 10 * S])
    pure val x0 = one(R, 5, [0, 0, -500 * S, 5000 * S])
    pure val span = logu(R, 6, 5 * S, 2000 * S)
    pure val Ps = range(0, np).foldl(List(), (acc, i) => acc.append(logu(part(R, 1), i, 15 * S / 10, 300 * S)))
    pure val t0s = if (not(hasT)) List() else range(0, np).foldl(List(), (acc, i) => acc.append(
      x0 + uni(part(R, 1), 4 + i, -2 * Ps.nth(i), 2 * Ps.nth(i))))
    pure val x = range(0, n).foldl(List(), (acc, i) => acc.append(x0 + uni(part(R, 2 + i / 20), i % 20, 0, span)))
    pure val offset = one(R, 7, [0, uni(R, 8, -100 * S, 100 * S)])
    pure val y = range(0, n).foldl(List(), (acc, i) => {
      pure val wave = range(0, np).foldl(offset, (s, j) => {
        pure val ref = if (hasT and pick(R, 9, 4) > 0) t0s.nth(j) else uni(part(R, 1), 8 + j, 0, Ps.nth(j))
        s - mul(uni(part(R, 1), 12 + j, -10 * S, 60 * S), turn(x.nth(i) - ref, Ps.nth(j))._1)
      })
      acc.append(wave + (if (noise == 0) 0 else uni(part(R, 5 + i / 20), i % 20, -noise, noise)))
    })
    pure val e = if (errors == 0) List()
      else if (errors == 1) [uni(R, 10, S / 2, 5 * S)]
      else range(0, n).foldl(List(), (acc, i) => acc.append(uni(part(R, 8 + i / 20), i % 20, S / 2, 5 * S)))
    pure val uy = pick(R, 11, 4)
    pure val ue = one(R, 12, [uy, pick(R, 13, 4)])
    pure val u = [one(R, 14, [0, 0, 1, 2, 5]), one(R, 15, [0, 0, 1, 2]), one(R, 16, [0, 0, 1, 2]),
      uy, ue, one(R, 17, [0, 0, 1, 2])]
    pure val ms = one(R, 18, [S, uni(R, 19, S / 10, 2 * S)])
    { ok: true, Ps: each(Ps, inverse(factor(TIME, u.nth(0)))), t0s: each(t0s, inverse(factor(TIME, u.nth(2)))),
      x: each(x, inverse(factor(TIME, u.nth(1)))), y: each(y, inverse(SPEEDS.nth(u.nth(3)))),
      e: each(e, inverse(SPEEDS.nth(u.nth(4)))), ms: scale(ms, inverse(factor(MASS, u.nth(5)))), u: u,
      form: [pick(R, 20, 2), if (ms == S and u.nth(5) == 0) 1 else 0, pick(R, 21, 2)] }
  }
  action init = scn' = { ok: false, Ps: List(), t0s: List(), x: List(), y: List(), e: List(), ms: 0, u: List(), form: List() }
  action step = { nondet R = oneOf(0.to(ENTROPY)) scn' = mk(R) }
}
