// -*- mode: Bluespec; -*-
/**
 * Trace validation for quantities with units.
 */
module units_trace {
  import fx.* from "./fx"
  import kepler.* from "./kepler"
  import orbits_rules.* from "./orbits_rules"
  import units.* from "./units"
  const TRACE: List[int]
  type Fail = { l: int, clause: str }
  var l: int
  var els: List[Elements]
  var fails: List[Fail]
  var seen: str -> int
  // 0 NEW
  // 1 DECLARE   19 givens as in orbits_trace, in the units given by 7 more numbers
  // 2 POSITION, 6 ATTRS as in orbits_trace
  // 9 RAISED
  // 20 CONVERT  dimension, unit, other unit, number, number in the other unit
  // 21 PLAIN    number, result of converting a number without unit
  // 22 HAS      given a unit or not, reported as such
  // 23 TWICE    was a second unit refused
  pure def judge(es: List[Elements], e: List[int]): List[Clause] = {
    pure val k = e.nth(0)
    if (k == 9) [("no_exception", false)]
    else if (k == 20) {
      pure val want = convert(e.nth(1), e.nth(2), e.nth(3), e.nth(4))
      [("units_ratio", finite(e.nth(5)) and near(e.nth(5), want, 10 + iabs(want) / 10^13))]
    }
    else if (k == 21) [("units_plain", e.nth(1) == e.nth(2))]
    else if (k == 22) [("units_known", e.nth(1) == e.nth(2))]
    else if (k == 23) [("units_once", e.nth(1) == 1)]
    else if (k == 2) checkPosition(es.nth(e.nth(1)), e)
    else if (k == 6) checkAttrs(es.nth(e.nth(1)), e)
    else List()
  }
  action init = all { l' = 0, els' = List(), fails' = List(), seen' = Map() }
  action step = all {
    l < TRACE.length(),
    val e = unpack(TRACE.nth(l), 28)
    val clauses = judge(els, e)
    all {
      l' = l + 1,
      els' = if (e.nth(0) == 0) List() else if (e.nth(0) == 1)
        els.append(derive(inStandard(givensOf(e), e.slice(20, 27)))) else els,
      fails' = clauses.foldl(fails, (acc, c) => if (c._2) acc else acc.append({ l: l, clause: c._1 })),
      seen' = clauses.foldl(seen, (acc, c) =>
        acc.put(c._1, 1 + if (acc.keys().contains(c._1)) acc.get(c._1) else 0))
    }
  }
}
