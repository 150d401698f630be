// -*- mode: Bluespec; -*-
/**
 * Light curves that are tabulated on a grid of phases and interpolated: the
 * table of a planet covers one period from its reference transit, evenly, with
 * one point more on either side; a time is folded into that period, and the
 * value is that of the cubic through the four points around it.
 */
module phase_trace {
  import fx.* from "./fx"
  const TRACE: List[int]
  type Clause = (str, bool)
  type Fail = { l: int, clause: str }
  type Table = { P: int, t0: int, ts: List[int], ys: List[int] }
  var l: int
  var tables: List[Table]
  var fails: List[Fail]
  var seen: str -> int
  // 0 NEW
  // 1 TABLE   P t0 phases n, then n times and light curve values
  // 2 VALUE   j t value
  // 3 SLOPE   j t derivative of the value with respect to the time
  // 9 RAISED
  pure def table(ev: int): Table = {
    pure val h = unpack(ev, 5)
    pure val e = unpack(ev, 5 + 2 * h.nth(4))
    pure val idx = range(0, h.nth(4))
    { P: h.nth(1), t0: h.nth(2),
      ts: idx.foldl(List(), (a, i) => a.append(e.nth(5 + 2 * i))),
      ys: idx.foldl(List(), (a, i) => a.append(e.nth(6 + 2 * i))) }
  }
  pure def slack(tb: Table, t: int): int = (iabs(t) + iabs(tb.t0) + tb.P) / 10^14 + 10
  pure def checkTable(tb: Table, phases: int): List[Clause] = {
    pure val n = length(tb.ts)
    pure val dx = (tb.ts.nth(n - 1) - tb.ts.nth(0)) / (n - 1)
    pure val tol = 8 * slack(tb, tb.ts.nth(n - 1))
    [ ("phase_grid_even", range(1, n).foldl(true, (ok, i) => ok and near(tb.ts.nth(i) - tb.ts.nth(i - 1), dx, 2 * tol))),
      ("phase_grid_covers", near(tb.ts.nth(1), tb.t0, tol) and tb.ts.nth(n - 2) > tb.t0 + tb.P - tol),
      ("phase_grid_fine", mul(dx, phases * S) <= tb.P + phases * tol) ]
  }
  // the cubic through (-1, y0), (0, y1), (1, y2), (2, y3)
  pure def cubic(y0: int, y1: int, y2: int, y3: int, x: int): int = {
    pure val a = mul(x, S - x)       // x (1 - x)
    0 - mul(y0, mul(a, 2 * S - x)) / 6 + mul(y1, mul(mul(S + x, S - x), 2 * S - x)) / 2
      + mul(y2, mul(mul(x, S + x), 2 * S - x)) / 2 - mul(y3, mul(a, S + x)) / 6
  }
  // and its slope
  pure def cubicSlope(y0: int, y1: int, y2: int, y3: int, x: int): int = {
    pure val x2 = sq(x)
    (mul(y3, 3 * x2 - S) - mul(y0, 3 * x2 - 6 * x + 2 * S)) / 6
      + (mul(y1, 3 * x2 - 4 * x - S) - mul(y2, 3 * x2 - 2 * x - 2 * S)) / 2
  }
  // the value of the table at a time of the folded period, how far off it may
  // be, and whether this is one of the table's own times
  pure def lookup(tb: Table, t: int, x: int): { v: int, tol: int, node: bool, slope: int, slopeTol: int } = {
    pure val n = length(tb.ts)
    pure val i = range(2, n - 2).foldl(1, (c, k) => if (tb.ts.nth(k) <= x) k else c)
    pure val h = tb.ts.nth(i + 1) - tb.ts.nth(i)
    pure val y = [tb.ys.nth(i - 1), tb.ys.nth(i), tb.ys.nth(i + 1), tb.ys.nth(i + 2)]
    // (of the neighbouring cells as well: rounding decides between them)
    pure val spread = range(imax(1, i - 1), imin(n, i + 4)).foldl(0, (m, k) => imax(m, iabs(tb.ys.nth(k) - tb.ys.nth(k - 1))))
    pure val f = div(x - tb.ts.nth(i), h)
    pure val off = div(slack(tb, t), h)
    { v: cubic(y.nth(0), y.nth(1), y.nth(2), y.nth(3), f),
      tol: 10 * mul(spread, off) + 10^5,
      node: iabs(f) < S / 10^6 or iabs(f - S) < S / 10^6,
      slope: div(cubicSlope(y.nth(0), y.nth(1), y.nth(2), y.nth(3), f), h),
      slopeTol: div(40 * mul(spread, off) + 10^5, h) + 10^5 }
  }
  pure def checkValue(tb: Table, t: int, v: int): List[Clause] = {
    pure val into = floorMod(t - tb.t0, tb.P)
    pure val here = lookup(tb, t, tb.t0 + into)
    // a time that is folded to one end of the table is folded to the other one
    // by rounding, and the table need not be exactly periodic
    pure val other = if (into < slack(tb, t)) lookup(tb, t, tb.t0 + into + tb.P)
      else if (tb.P - into < slack(tb, t)) lookup(tb, t, tb.t0 + into - tb.P) else here
    [ (if (here.node) "phase_at_grid" else "phase_between",
       finite(v) and (near(v, here.v, here.tol) or near(v, other.v, other.tol))) ]
  }
  // (at the table's own times the slope is that of one side or the other)
  pure def checkSlope(tb: Table, t: int, v: int): List[Clause] = {
    pure val here = lookup(tb, t, tb.t0 + floorMod(t - tb.t0, tb.P))
    if (here.node) [("phase_slope_finite", finite(v))]
    else [("phase_slope", finite(v) and near(v, here.slope, here.slopeTol))]
  }
  pure def judge(tbs: List[Table], ev: int, e: List[int]): List[Clause] = {
    pure val k = e.nth(0)
    if (k == 9) [("no_exception", false)]
    else if (k == 1) checkTable(table(ev), e.nth(3))
    else if (k == 2) checkValue(tbs.nth(e.nth(1)), e.nth(2), e.nth(3))
    else if (k == 3) checkSlope(tbs.nth(e.nth(1)), e.nth(2), e.nth(3))
    else List()
  }
  action init = all { l' = 0, tables' = List(), fails' = List(), seen' = Map() }
  action step = all {
    l < TRACE.length(),
    val e = unpack(TRACE.nth(l), 6)
    val clauses = judge(tables, TRACE.nth(l), e)
    all {
      l' = l + 1,
      tables' = if (e.nth(0) == 0) List() else if (e.nth(0) == 1) tables.append(table(TRACE.nth(l))) else tables,
      fails' = clauses.foldl(fails, (acc, c) => if (c._2) acc else acc.append({ l: l, clause: c._1 })),
      seen' = clauses.foldl(seen, (acc, c) =>
        acc.put(c._1, 1 + if (acc.keys().contains(c._1)) acc.get(c._1) else 0))
    }
  }
}
