// -*- mode: Bluespec; -*-
/** Tables and points at which they are interpolated. */
module interp_gen {
  import fx.* from "./fx"
  import gen.* from "./gen"
  const NQ: int
  type Scenario = { ok: bool, grids: List[List[int]], shape: List[int], values: List[int],
    filled: int, fill: int, points: List[List[int]], x: List[int] }
  var scn: Scenario
  pure def mk(R: int): Scenario = {
    pure val nd = 1 + pick(R, 0, 3)
    pure val most = if (nd == 1) 7 else if (nd == 2) 4 else 3
    pure val grids = range(0, nd).foldl(List(), (acc, d) => {
      pure val Q = part(R, 1 + d)
      pure val n = 2 + pick(Q, 0, most - 1)
      pure val scale = one(Q, 20, [S / 100, S, 50 * S])
      pure val even = pick(Q, 21, 3) == 0
      pure val start = one(Q, 1, [0, uni(Q, 2, -3 * scale, 3 * scale), 100 * scale])
      acc.append(range(1, n).foldl([start], (g, i) =>
        g.append(g.nth(i - 1) + if (even) scale else uni(Q, 3 + i, scale / 20, 2 * scale))))
    })
    pure val shape = [List(), List(), [2], [3], [2, 2], [1]].nth(pick(R, 1, 6))
    pure val nout = shape.foldl(1, (a, b) => a * b)
    pure val n = grids.foldl(nout, (a, g) => a * length(g))
    pure val Q = part(R, 5)
    pure val vs = one(R, 2, [S, S, 1000 * S])
    pure val whole = pick(R, 3, 4) == 0
    pure val values = range(0, n).foldl(List(), (acc, i) => {
      pure val v = uni(Q, i, -vs, vs)
      acc.append(if (whole) v / S * S else v)
    })
    pure val points = range(0, NQ).foldl(List(), (acc, k) => {
      pure val W = part(R, 11 + k / 2)
      acc.append(range(0, nd).foldl(List(), (p, d) => {
        pure val g = grids.nth(d)
        pure val o = (k % 2) * 12 + d * 4
        pure val lo = g.nth(0)
        pure val hi = g.nth(length(g) - 1)
        pure val i = pick(W, o, length(g) - 1)
        p.append(one(W, o + 1, [
          g.nth(pick(W, o + 2, length(g))), lo, hi,
          uni(W, o + 2, g.nth(i), g.nth(i + 1)), uni(W, o + 2, g.nth(i), g.nth(i + 1)),
          uni(W, o + 2, g.nth(i), g.nth(i + 1)), uni(W, o + 2, lo, hi),
          // outside on one side, near and far
          if (pick(W, o + 3, 2) == 0) lo - uni(W, o + 2, 0, hi - lo) else hi + uni(W, o + 2, 0, hi - lo)]))
      }))
    })
    { ok: true, grids: grids, shape: shape, values: values, filled: pick(R, 4, 2),
      fill: one(R, 5, [0, -S, uni(R, 6, -5 * S, 5 * S), NAN]), points: points, x: List(pick(R, 7, 1000000)) }
  }
  action init = scn' = { ok: false, grids: List(), shape: List(), values: List(), filled: 0, fill: 0, points: List(), x: List() }
  action step = { nondet R = oneOf(0.to(MORE)) scn' = mk(R) }
}
