// -*- mode: Bluespec; -*-
module expected_trace {
  import fx.* from "./fx"
  import expected.* from "./expected"
  const TRACE: List[int]
  type Clause = (str, bool)
  type Fail = { l: int, clause: str }
  var l: int
  var fails: List[Fail]
  var seen: str -> int
  // 2 LONG   exact lo hi P t0 n, and 13 times: numbers 0, n/12, 2n/12, ..., n-1
  // 1 TIMES  exact lo hi P t0 n, and the n times that were returned
  pure def judge(e: List[int]): List[Clause] =
    if (e.nth(0) == 9) [("no_exception", false)]
    else if (e.nth(0) == 2) {
      pure val lo = e.nth(2)
      pure val hi = e.nth(3)
      pure val P = e.nth(4)
      pure val t0 = e.nth(5)
      pure val n = e.nth(6)
      pure val tol = if (e.nth(1) == 1) 0 else (iabs(lo) + iabs(hi) + iabs(t0) + 10 * P) / 10^14 + 10
      pure def at(i: int): int = e.nth(7 + i)
      pure def k(i: int): int = floorDiv(2 * (at(i) - t0) + P, 2 * P)
      pure val idx = range(0, 13)
      [ ("times_are_transits", idx.foldl(true, (ok, i) => and { ok, finite(at(i)), near(at(i), t0 + k(i) * P, 10 + (iabs(at(i)) + iabs(t0)) / 10^15) })),
        ("times_in_window", idx.foldl(true, (ok, i) => and { ok, at(i) >= lo, at(i) <= hi })),
        ("times_increase_by_one_period", idx.foldl(true, (ok, i) => and { ok, k(i) == k(0) + i * (n - 1) / 12 })),
        ("times_count", n >= lastIn(hi - tol, P, t0) - firstIn(lo + tol, P, t0) + 1 and n <= lastIn(hi + tol, P, t0) - firstIn(lo - tol, P, t0) + 1) ]
    }
    else {
      pure val lo = e.nth(2)
      pure val hi = e.nth(3)
      pure val P = e.nth(4)
      pure val t0 = e.nth(5)
      pure val n = e.nth(6)
      pure val tol = if (e.nth(1) == 1) 0 else (iabs(lo) + iabs(hi) + iabs(t0) + 10 * P) / 10^14 + 10
      pure def at(i: int): int = e.nth(7 + i)
      // three roundings
      pure def ulps(t: int): int = 10 + (iabs(t) + iabs(t0)) / 10^15 
      // the transit that each returned time is
      pure def k(i: int): int = floorDiv(2 * (at(i) - t0) + P, 2 * P)
      pure val idx = range(0, n)
      // strictly inside the window, whatever the rounding
      pure val must = within(lo + tol, hi - tol, P, t0)
      [ ("times_are_transits", idx.foldl(true, (ok, i) => and { ok, finite(at(i)), near(at(i), t0 + k(i) * P, ulps(at(i))) })),
        ("times_in_window", idx.foldl(true, (ok, i) => and { ok, at(i) >= lo, at(i) <= hi })),
        ("times_increase_by_one_period", idx.foldl(true, (ok, i) => and { ok, i == 0 or k(i) == k(i - 1) + 1 })),
        ("times_complete", must.foldl(true, (ok, x) => and { ok,
          idx.foldl(false, (f, i) => f or near(at(i), x, P / 4)) })),
        ("times_count", n >= length(must) and n <= length(within(lo - tol, hi + tol, P, t0))) ]
    }
  action init = all { l' = 0, fails' = List(), seen' = Map() }
  action step = all {
    l < TRACE.length(),
    val e = unpack(TRACE.nth(l), 34)
    val clauses = judge(e)
    all {
      l' = l + 1,
      fails' = clauses.foldl(fails, (acc, c) => if (c._2) acc else acc.append({ l: l, clause: c._1 })),
      seen' = clauses.foldl(seen, (acc, c) =>
        acc.put(c._1, 1 + if (acc.keys().contains(c._1)) acc.get(c._1) else 0))
    }
  }
}
