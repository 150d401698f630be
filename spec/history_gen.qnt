// -*- mode: Bluespec; -*-
/** Histories of queries on orbits that are kept, built anew, or of other systems. */
module history_gen {
  import fx.* from "./fx"
  import gen.* from "./gen"
  // number of kinds of queries, of instants, and of steps
  const KINDS: int
  const NT: int
  const STEPS: int
  // whose: the system (0 or 1); fresh: on a newly built orbit; planet: 0 for all of them, j for the j-th
  // alone; kind of query; idx: which instants, in which order; shape of the instants; light: a new light curve
  type Step = { whose: int, fresh: bool, planet: int, kind: int, idx: List[int], shape: int, light: int }
  type Scenario = { ok: bool, steps: List[Step] }
  var scn: Scenario
  pure def mkStep(Q: int, kinds: List[int]): Step = {
    pure val n = one(Q, 0, [1, 2, 2, 3, 4, 4, NT])
    pure val a = pick(Q, 1, NT)
    pure val idx = if (n == NT) range(0, NT).foldl(List(), (acc, i) => acc.append((a + i) % NT))
      else range(0, n).foldl(List(), (acc, i) => acc.append(pick(Q, 2 + i, NT)))
    { whose: if (pick(Q, 8, 4) == 0) 1 else 0, fresh: pick(Q, 9, 3) == 0,
      planet: one(Q, 10, [0, 0, 0, 1, 2, 3]), kind: kinds.nth(pick(Q, 11, length(kinds))),
      idx: idx, shape: pick(Q, 12, 5), light: pick(Q, 13, 3) }
  }
  pure def mk(R: int): Scenario = {
    // often queries that have much in common: exposures, or transits and their light curves
    pure val group = [List(), List(), List(), [13, 22, 23, 24, 25], [17, 18, 21, 11, 13]].nth(pick(R, 4, 5))
    pure val kinds = range(0, 3).foldl(List(), (acc, i) => acc.append(
      if (length(group) > 0) group.nth(pick(R, i, length(group))) else pick(R, i, KINDS)))
    { ok: true, steps: range(0, STEPS).foldl(List(), (acc, i) => acc.append(mkStep(part(R, 1 + i), kinds))) }
  }
  action init = scn' = { ok: false, steps: List() }
  action step = { nondet R = oneOf(0.to(ENTROPY)) scn' = mk(R) }
}
