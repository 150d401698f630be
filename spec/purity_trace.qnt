// -*- mode: Bluespec; -*-
/**
 * What queries may return: an orbit is a function of time, planet by planet.
 * The specification remembers every answer; the same question must get the
 * same answer, whichever object it is put to, with which other instants and
 * planets, and after whatever other questions.
 */
module purity_trace {
  import fx.* from "./fx"
  const TRACE: List[int]
  type Clause = (str, bool)
  type Fail = { l: int, clause: str }
  // system, kind of query, planet, instant
  type Question = (int, int, int, int)
  var l: int
  var answers: Question -> List[int]
  var fails: List[Fail]
  var seen: str -> int
  // 0 NEW
  // 1 CELL       system kind planet instant n, numbers: the answer to one question
  // 2 UNCHANGED  code, number of entries of the caller's arrays that have changed
  // 9 RAISED
  pure def same(a: List[int], b: List[int]): bool =
    length(a) == length(b) and range(0, length(a)).foldl(true, (ok, i) =>
      ok and (a.nth(i) == b.nth(i) or (finite(a.nth(i)) and finite(b.nth(i))
        and near(a.nth(i), b.nth(i), 10^7 + iabs(a.nth(i)) / 10^11))))
  action init = all { l' = 0, answers' = Map(), fails' = List(), seen' = Map() }
  action step = all {
    l < TRACE.length(),
    val k = fieldAt(TRACE.nth(l), 0)
    val e = unpack(TRACE.nth(l), if (k == 1) 6 + fieldAt(TRACE.nth(l), 5) else 3)
    val qn = if (k == 1) (e.nth(1), e.nth(2), e.nth(3), e.nth(4)) else (0, 0, 0, 0)
    val old = k == 1 and answers.keys().contains(qn)
    val clauses: List[Clause] =
      if (k == 9) [("no_exception", false)]
      else if (k == 2) [("arguments_unchanged", e.nth(2) == 0)]
      else if (old) [(if (e.nth(2) >= 100) "attributes_unchanged" else "same_answer", same(answers.get(qn), e.slice(6, length(e))))]
      else List()
    all {
      l' = l + 1,
      answers' = if (k == 0) Map() else if (k == 1 and not(old)) answers.put(qn, e.slice(6, length(e))) else answers,
      fails' = clauses.foldl(fails, (acc, c) => if (c._2) acc else acc.append({ l: l, clause: c._1 })),
      seen' = clauses.foldl(seen, (acc, c) =>
        acc.put(c._1, 1 + if (acc.keys().contains(c._1)) acc.get(c._1) else 0))
    }
  }
}
