// -*- mode: Bluespec; -*-
/**
 * Trace validation for interpolation on regular grids.
 */
module interp_trace {
  import fx.* from "./fx"
  import interp.* from "./interp"
  const TRACE: List[int]
  type Clause = (str, bool)
  type Fail = { l: int, clause: str }
  var l: int
  var tb: Table
  var fails: List[Fail]
  var seen: str -> int
  // 1 TABLE   nd n1 n2 n3 nout filled fill, grid points, values
  // 2 VALUE   x1 x2 x3 output value
  // 3 SLOPE   x1 x2 x3 output weight, derivatives with respect to x1 x2 x3
  // 4 SHARE   x1 x2 x3 output i j k, derivative with respect to that table entry
  // 9 RAISED
  pure def table(ev: int): Table = {
    pure val h = unpack(ev, 8)
    pure val m = h.nth(2) + h.nth(3) + h.nth(4)
    pure val e = unpack(ev, 8 + m + h.nth(2) * h.nth(3) * h.nth(4) * h.nth(5))
    { nd: h.nth(1), nout: h.nth(5), filled: h.nth(6) == 1, fill: h.nth(7),
      grids: [e.slice(8, 8 + h.nth(2)), e.slice(8 + h.nth(2), 8 + h.nth(2) + h.nth(3)),
              e.slice(8 + h.nth(2) + h.nth(3), 8 + m)],
      values: e.slice(8 + m, length(e)) }
  }
  pure def known(v: int, want: int, tol: int): bool =
    if (want == NAN) v == NAN else finite(v) and near(v, want, tol)
  // away from the grid lines
  pure def clear(tb: Table, x: List[int]): bool =
    range(0, tb.nd).foldl(true, (acc, d) => {
      pure val f = within(tb.grids.nth(d), x.nth(d))
      acc and iabs(f) > S / 1000 and iabs(f - S) > S / 1000
    })
  pure def checkValue(t: Table, e: List[int]): List[Clause] = {
    pure val x = [e.nth(1), e.nth(2), e.nth(3)]
    pure val out = beyond(t, x)
    pure val onNode = range(0, t.nd).foldl(true, (acc, d) => acc and within(t.grids.nth(d), x.nth(d)) % S == 0)
    [ (if (out and t.filled) "interp_fill" else if (out) "interp_continued"
       else if (onNode) "interp_at_node" else "interp_in_cell",
       known(e.nth(5), value(t, x, e.nth(4)), tolerance(t, x))) ]
  }
  // derivatives with respect to the coordinates, away from the grid lines: the
  // interpolant is linear in each of them
  pure def checkSlope(t: Table, e: List[int]): List[Clause] = {
    pure val x = [e.nth(1), e.nth(2), e.nth(3)]
    pure def slope(d: int): int = {
      pure val g = t.grids.nth(d)
      pure val c = cell(g, x.nth(d))
      div(blend(t, x.replaceAt(d, g.nth(c + 1)), e.nth(4)) - blend(t, x.replaceAt(d, g.nth(c)), e.nth(4)), g.nth(c + 1) - g.nth(c))
    }
    pure def ok(d: int): bool = {
      pure val g = t.grids.nth(d)
      pure val c = cell(g, x.nth(d))
      d >= t.nd or near(e.nth(5 + d), if (t.filled and beyond(t, x)) 0 else slope(d),
        div(100 * tolerance(t, x), g.nth(c + 1) - g.nth(c)) + 10^6)
    }
    if (not(clear(t, x))) List()
    else [ ("interp_gradient", ok(0) and ok(1) and ok(2)) ]
  }
  // derivative with respect to one table entry: its weight
  pure def checkShare(t: Table, e: List[int]): List[Clause] = {
    pure val x = [e.nth(1), e.nth(2), e.nth(3)]
    pure val unit = { ...t, values: t.values.foldl(List(), (acc, v) => acc.append(
      if (length(acc) == ((e.nth(5) * length(t.grids.nth(1)) + e.nth(6)) * length(t.grids.nth(2)) + e.nth(7)) * t.nout + e.nth(4)) S else 0)) }
    [ ("interp_weight", near(e.nth(8), if (t.filled and beyond(t, x)) 0 else blend(unit, x, e.nth(4)), 10^6 + tolerance(unit, x))) ]
  }
  pure def judge(t: Table, e: List[int]): List[Clause] = {
    pure val k = e.nth(0)
    if (k == 9) [("no_exception", false)]
    else if (k == 2) checkValue(t, e)
    else if (k == 3) checkSlope(t, e)
    else if (k == 4) checkShare(t, e)
    else List()
  }
  pure val NONE: Table = { nd: 0, grids: List(), nout: 0, values: List(), filled: false, fill: 0 }
  action init = all { l' = 0, tb' = NONE, fails' = List(), seen' = Map() }
  action step = all {
    l < TRACE.length(),
    val e = unpack(TRACE.nth(l), 10)
    val clauses = judge(tb, e)
    all {
      l' = l + 1,
      tb' = if (e.nth(0) == 1) table(TRACE.nth(l)) else tb,
      fails' = clauses.foldl(fails, (acc, c) => if (c._2) acc else acc.append({ l: l, clause: c._1 })),
      seen' = clauses.foldl(seen, (acc, c) =>
        acc.put(c._1, 1 + if (acc.keys().contains(c._1)) acc.get(c._1) else 0))
    }
  }
}
