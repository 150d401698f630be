// -*- mode: Bluespec; -*-
/**
 * Histories of building components in two models, with reports in between.
 */
module citations_trace {
  import fx.* from "./fx"
  import citations.* from "./citations"
  const TRACE: List[int]
  type Clause = (str, bool)
  type Fail = { l: int, clause: str }
  var l: int
  var cited: int -> Set[int]
  var registered: Set[int]
  var fails: List[Fail]
  var seen: str -> int
  // 0 NEW
  // 1 BUILD   component place raised
  // 2 REPORT  model, how often each of the keys is mentioned in the acknowledgement (16), and how often
  //           each has an entry in the bibliography (16), unknown keys mentioned, unknown entries
  // 3 SAME    the report for a model given inside it and outside are the same
  pure def judge(ks: int -> Set[int], reg: Set[int], e: List[int]): List[Clause] =
    if (e.nth(0) == 1) [("builds", e.nth(3) == 0)]
    else if (e.nth(0) == 2) {
      pure val want = report(ks.get(e.nth(1)), reg.contains(e.nth(1)))
      pure val all16 = range(0, KEYS)
      [ ("cites_what_is_used", all16.foldl(true, (ok, k) => ok and (not(want.contains(k)) or e.nth(2 + k) > 0))),
        ("cites_nothing_else", e.nth(34) == 0 and all16.foldl(true, (ok, k) => ok and (want.contains(k) or e.nth(2 + k) == 0))),
        ("cites_once", all16.foldl(true, (ok, k) => ok and e.nth(2 + k) <= 1)),
        ("bibliography_complete", all16.foldl(true, (ok, k) => ok and (not(want.contains(k)) or e.nth(18 + k) > 0))),
        ("bibliography_nothing_else", e.nth(35) == 0 and all16.foldl(true, (ok, k) => ok and (want.contains(k) or e.nth(18 + k) == 0))),
        ("bibliography_once", all16.foldl(true, (ok, k) => ok and e.nth(18 + k) <= 1)) ]
    }
    else if (e.nth(0) == 3) [("report_same_everywhere", e.nth(1) == 1)]
    else List()
  action init = all { l' = 0, cited' = Map(1 -> Set(), 2 -> Set()), registered' = Set(), fails' = List(), seen' = Map() }
  action step = all {
    l < TRACE.length(),
    val e = unpack(TRACE.nth(l), 36)
    val clauses = judge(cited, registered, e)
    val m = if (e.nth(0) == 1) target(e.nth(2)) else 0
    all {
      l' = l + 1,
      cited' = if (e.nth(0) == 0) Map(1 -> Set(), 2 -> Set())
        else if (m > 0) cited.set(m, cited.get(m).union(cites(e.nth(1)))) else cited,
      registered' = if (e.nth(0) == 0) Set()
        else if (m > 0 and registers(e.nth(1))) registered.union(Set(m)) else registered,
      fails' = clauses.foldl(fails, (acc, c) => if (c._2) acc else acc.append({ l: l, clause: c._1 })),
      seen' = clauses.foldl(seen, (acc, c) =>
        acc.put(c._1, 1 + if (acc.keys().contains(c._1)) acc.get(c._1) else 0))
    }
  }
}
