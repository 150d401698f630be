// -*- mode: Bluespec; -*-
/** Longer histories. */
module citations_gen {
  import fx.* from "./fx"
  import gen.* from "./gen"
  import citations.* from "./citations"
  type Scenario = { ok: bool, steps: List[(int, int)] }
  var scn: Scenario
  pure def mk(R: int): Scenario = {
    pure val n = 4 + pick(R, 0, 9)
    { ok: true, steps: range(0, n).foldl(List(), (acc, i) => {
        pure val comp = if (pick(R, 10 + i, 4) == 0) 20 + pick(R, 40 + i, 10) else pick(R, 40 + i, COMPONENTS)
        pure val place = pick(R, 70 + i, 7)
        if (possible(comp, place)) acc.append((comp, place)) else acc
      }) }
  }
  action init = scn' = { ok: false, steps: List() }
  action step = { nondet R = oneOf(0.to(ENTROPY)) scn' = mk(R) }
}
