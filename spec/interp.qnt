// -*- mode: Bluespec; -*-
/**
 * Multilinear interpolation on a regular grid with any spacing.
 */
module interp {
  import fx.* from "./fx"

  // A table over up to three dimensions (unused dimensions have the single
  // grid point 0), with `nout` numbers at each grid point, last index fastest
  type Table = {
    nd: int, grids: List[List[int]], nout: int, values: List[int],
    filled: bool, fill: int
  }

  pure def last(g: List[int]): int = g.nth(length(g) - 1)
  pure def outside(g: List[int], x: int): bool = x < g.nth(0) or x > last(g)
  // The cell that x lies in; outside the grid, the nearest one
  pure def cell(g: List[int], x: int): int =
    range(1, imax(1, length(g) - 1)).foldl(0, (c, i) => if (g.nth(i) <= x) i else c)
  // position of x in its cell, in units of the cell
  pure def within(g: List[int], x: int): int =
    if (length(g) == 1) 0
    else { pure val c = cell(g, x) div(x - g.nth(c), g.nth(c + 1) - g.nth(c)) }

  pure def entry(tb: Table, i: int, j: int, k: int, o: int): int =
    tb.values.nth(((i * length(tb.grids.nth(1)) + j) * length(tb.grids.nth(2)) + k) * tb.nout + o)

  pure val CORNERS: List[(int, int, int)] =
    [(0, 0, 0), (0, 0, 1), (0, 1, 0), (0, 1, 1), (1, 0, 0), (1, 0, 1), (1, 1, 0), (1, 1, 1)]

  // is the point outside the grid in any dimension?
  pure def beyond(tb: Table, x: List[int]): bool =
    range(0, tb.nd).foldl(false, (acc, d) => acc or outside(tb.grids.nth(d), x.nth(d)))

  pure def blend(tb: Table, x: List[int], o: int): int = {
    pure val c = range(0, 3).foldl(List(), (acc, d) => acc.append(if (d < tb.nd) cell(tb.grids.nth(d), x.nth(d)) else 0))
    pure val w = range(0, 3).foldl(List(), (acc, d) => acc.append(if (d < tb.nd) within(tb.grids.nth(d), x.nth(d)) else 0))
    CORNERS.foldl(0, (acc, k) => {
      pure def part(d: int, b: int): int = if (b == 1) w.nth(d) else S - w.nth(d)
      if (part(0, k._1) == 0 or part(1, k._2) == 0 or part(2, k._3) == 0) acc
      else acc + mul(mul(mul(part(0, k._1), part(1, k._2)), part(2, k._3)),
        entry(tb, c.nth(0) + k._1, c.nth(1) + k._2, c.nth(2) + k._3, o))
    })
  }
  pure def value(tb: Table, x: List[int], o: int): int =
    if (tb.filled and beyond(tb, x)) tb.fill else blend(tb, x, o)
  // how much the weights exceed one: the factor by which errors grow outside
  pure def stretch(tb: Table, x: List[int]): int =
    range(0, tb.nd).foldl(S, (acc, d) => {
      pure val f = within(tb.grids.nth(d), x.nth(d))
      mul(acc, iabs(f) + iabs(S - f))
    })
  pure def biggest(xs: List[int]): int = xs.foldl(0, (m, v) => imax(m, iabs(v)))
  // rounding of the position in the cell, relative to the cell
  pure def roundoff(tb: Table, x: List[int]): int =
    range(0, tb.nd).foldl(0, (acc, d) => {
      pure val g = tb.grids.nth(d)
      pure val c = cell(g, x.nth(d))
      acc + div(biggest([x.nth(d), g.nth(c), g.nth(c + 1)]), g.nth(c + 1) - g.nth(c)) / 10^15
    })
  pure def tolerance(tb: Table, x: List[int]): int =
    mul(biggest(tb.values), mul(stretch(tb, x), S / 10^13 + 8 * roundoff(tb, x))) + 100
}
