// -*- mode: Bluespec; -*-
/**
 * Transits of two-body orbits: when they happen, and how much light they
 * block, at an instant or during an exposure.
 */
module transits {
  import fx.* from "./fx"
  import kepler.* from "./kepler"
  import limbdark.* from "./limbdark"

  // tolerance for a position on an orbit of size A
  pure def tolPos(el: Elements, A: int, t: int): int =
    mul(iabs(A), phaseTol(el, t)) + 2000

  // -- transits -------------------------------------------------------------
  // Sky-projected distance minus the sum of the radii; in front only
  pure def gap(el: Elements, rp: int, t: int): { d: int, front: bool } = {
    pure val u = posAt(el, -el.a, t)
    { d: hypot(u.x, u.y) - el.rs - rp, front: u.z > 0 }
  }
  pure val IN = 1
  pure val OUT = 0
  pure val EITHER = 2
  // Is t within a transit, allowing for rounding?
  pure def inside(el: Elements, rp: int, t: int): int = {
    pure val g = gap(el, rp, t)
    pure val tol = tolPos(el, el.a, t) + el.rs / 10^8
    if (not(g.front) and g.d < tol) (if (posAt(el, -el.a, t).z > -el.rs) EITHER else OUT)
    else if (g.d < -tol) IN else if (g.d > tol) OUT else EITHER
  }
  pure def or3(a: int, b: int): int =
    if (a == IN or b == IN) IN else if (a == EITHER or b == EITHER) EITHER else OUT
  // Does an exposure of length h*2 centred on t overlap the transit?  The
  // transit is an interval containing the conjunction when b < 1 + k.
  pure def exposed(el: Elements, rp: int, t: int, h: int): int = {
    pure val dt = floorMod(t - el.t0 + el.P / 2, el.P) - el.P / 2
    pure val tol = (iabs(t) + iabs(el.t0) + el.P) / 10^13
    pure val spans = if (h > 0 and iabs(dt) < h - tol) IN
      else if (h > 0 and iabs(dt) <= h + tol) EITHER else OUT
    if (h == 0) inside(el, rp, t)
    else or3(or3(inside(el, rp, t - h), inside(el, rp, t + h)), or3(inside(el, rp, t), spans))
  }
  // Does planet j transit at all (its conjunction is within the disc)?
  pure def transits(el: Elements, rp: int): int = {
    pure val d = mul(iabs(el.b), el.rs) - el.rs - rp
    if (d < -(el.rs / 1000)) IN else if (d > el.rs / 2) OUT else EITHER
  }
  // -- light curves -----------------------------------------------------------
  // What a planet at time `when` blocks, and the tolerance of that number
  type Value = { v: int, tol: int }
  pure def discs(u1: int, u2: int, b: int, k: int, tb: int): Value =
    if (b > S + k + tb + 10^9) { v: 0, tol: 10^5 }
    else { v: blockedFlux(u1, u2, b, k), tol: fluxTol(b, k) + 4 * mul(imin(k, S), tb) }
  pure def fluxAt(el: Elements, rp: int, u1: int, u2: int, when: int): Value = {
    pure val u = posAt(el, -el.a, when)
    if (u.z < 0) { v: 0, tol: 10 }
    else discs(u1, u2, div(hypot(u.x, u.y), el.rs), div(rp, el.rs), div(tolPos(el, el.a, when), el.rs))
  }
  // and what the star blocks of the planet, relative to the planet's light
  pure def occultAt(el: Elements, rp: int, u1: int, u2: int, when: int): Value = {
    pure val u = posAt(el, -el.a, when)
    if (u.z > 0) { v: 0, tol: 10 }
    else discs(u1, u2, div(hypot(u.x, u.y), rp), div(el.rs, rp), div(tolPos(el, el.a, when), rp))
  }
  // -- exposures ---------------------------------------------------------------
  // Sample positions within the exposure, as fractions of it relative to its
  // centre, and weights; `requested` samples are rounded up to an odd number
  pure def samples(requested: int): int = if (requested % 2 == 1) requested else requested + 1
  pure def position(order: int, n: int, i: int): int =
    if (order == 0) (2 * i + 1 - n) * S / (2 * n)
    else (2 * i + 1 - n) * S / (2 * (n - 1))
  pure def weight(order: int, n: int, i: int): int =
    if (order == 0) S / n
    else if (order == 1) (if (i == 0 or i == n - 1) S else 2 * S) / (2 * (n - 1))
    else (if (i == 0 or i == n - 1) S else if (i % 2 == 1) 4 * S else 2 * S) / (3 * (n - 1))
  pure def integrate(order: int, requested: int, t: int, texp: int, f: (int) => Value): Value = {
    pure val n = samples(requested)
    range(0, n).foldl({ v: 0, tol: 10^3 }, (acc, i) => {
      pure val x = f(t + mul(texp, position(order, n, i)))
      { v: acc.v + mul(weight(order, n, i), x.v), tol: acc.tol + mul(weight(order, n, i), x.tol) }
    })
  }
}
