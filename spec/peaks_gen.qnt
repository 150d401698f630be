// -*- mode: Bluespec; -*-
/** Periodograms in which peaks are looked for. */
module peaks_gen {
  import fx.* from "./fx"
  import gen.* from "./gen"
  type Scenario = { ok: bool, freq: List[int], power: List[int], most: int, form: int }
  var scn: Scenario
  pure def mk(R: int): Scenario = {
    pure val n = one(R, 0, [2, 3, 4, 5, 8, 12, 20, 40])
    pure val style = pick(R, 1, 5)
    pure val df = logu(R, 2, S / 10000, S)
    pure val even = pick(R, 3, 2) == 0
    // at least one spacing away from a frequency of zero
    pure val f0 = df + uni(R, 4, df / 2, 30 * df)
    pure val up = range(1, n).foldl([f0], (acc, i) =>
      acc.append(acc.nth(i - 1) + if (even) df else uni(part(R, 1 + 2 * (i / 20)), i % 20, df / 3, 3 * df)))
    pure val freq = if (pick(R, 5, 2) == 0) up else
      range(0, n).foldl(List(), (acc, i) => acc.append(up.nth(n - 1 - i)))
    pure val level = logu(R, 6, S / 10^6, 10^4 * S)
    pure val power = range(0, n).foldl(List(), (acc, i) => {
      pure val v = frac(part(R, 2 + 2 * (i / 20)), i % 20)
      acc.append(
        // a few levels, with plateaus and ties; monotonic; anything
        if (style == 0) mul(level, S + v / 250000000000000000 * S)
        else if (style == 1 and i > 0) acc.nth(i - 1) + mul(level, v / 100 + S / 1000)
        else if (style == 2 and i > 0) acc.nth(i - 1) - mul(acc.nth(i - 1), v / 20 + S / 1000)
        else mul(level, exp(uni(part(R, 2 + 2 * (i / 20)), i % 20, -2 * S, 2 * S))))
    })
    { ok: true, freq: freq, power: power, most: one(R, 7, [pick(R, 9, 6), pick(R, 9, 6), pick(R, 9, 20)]), form: pick(R, 8, 2) }
  }
  action init = scn' = { ok: false, freq: List(), power: List(), most: 0, form: 0 }
  action step = { nondet R = oneOf(0.to(ENTROPY)) scn' = mk(R) }
}
