// -*- mode: Bluespec; -*-
/**
 * Derivatives of the two-body model and of light curves with respect to what
 * the user gives, as limits of differences of the specification's functions.
 */
module grads {
  import fx.* from "./fx"
  import kepler.* from "./kepler"
  import limbdark.* from "./limbdark"
  import transits.* from "./transits"

  // what is differentiated
  //  0 relative position  1 planet position  2 star position
  //  3 planet velocity    4 star velocity    5 relative velocity
  //  6 radial velocity (m/s)  7 radial velocity with K  8 planet acceleration
  //  9 star acceleration  10 relative acceleration
  //  11 relative position with light delay  12 separation on the sky (arcsec, K: the parallax)
  //  13 position angle
  //  20 a 21 period 22 m_star 23 r_star 24 rho_star 25 b 26 cos i 27 t0 28 t_periastron
  // with respect to
  //  0 time
  //  1 P 2 a 3 e 4 w 5 O 6 incl or b 7 t0 or t_periastron 8 m_planet 9 m_star 10 r_star 11 rho 12 duration 13 ror
  //  14 radius 15 u1 16 u2 17 K
  type Point = { g: Givens, t: int, rp: int, u1: int, u2: int, K: int }
  pure def moved(p: Point, which: int, h: int): Point =
    if (which == 0) { ...p, t: p.t + h }
    else if (which == 14) { ...p, rp: p.rp + h }
    else if (which == 15) { ...p, u1: p.u1 + h }
    else if (which == 16) { ...p, u2: p.u2 + h }
    else if (which == 17) { ...p, K: p.K + h }
    else { ...p, g:
      if (which == 1) { ...p.g, P: p.g.P + h } else if (which == 2) { ...p.g, a: p.g.a + h }
      else if (which == 3) { ...p.g, e: p.g.e + h } else if (which == 4) { ...p.g, w: p.g.w + h }
      else if (which == 5) { ...p.g, O: p.g.O + h } else if (which == 6) { ...p.g, iv: p.g.iv + h }
      else if (which == 7) { ...p.g, tr: p.g.tr + h } else if (which == 8) { ...p.g, mp: p.g.mp + h }
      else if (which == 9) { ...p.g, ms: p.g.ms + h } else if (which == 10) { ...p.g, rs: p.g.rs + h }
      else if (which == 11) { ...p.g, rho: p.g.rho + h } else if (which == 12) { ...p.g, dur: p.g.dur + h }
      else { ...p.g, ror: p.g.ror + h } }
  // how far a parameter moves before it makes a difference of order one
  pure def natural(p: Point, el: Elements, which: int): int =
    if (which == 0 or which == 1 or which == 7) el.P
    else if (which == 2) p.g.a
    else if (which == 3) S - p.g.e
    else if (which == 8 or which == 9) el.ms
    else if (which == 10 or which == 14) el.rs
    else if (which == 11) p.g.rho
    else if (which == 12) p.g.dur
    else S
  pure def cycles(el: Elements, t: int): int = 1 + (iabs(t) + iabs(el.t0) + iabs(el.tp)) / el.P
  // the period follows from some of the parameters
  pure def drift(p: Point, el: Elements, which: int): int =
    if (which == 1 or (p.g.pm == 1 and (which == 2 or (which >= 8 and which <= 11)))) cycles(el, p.t) else 1

  pure def dot(w: List[int], v: Vec): int = mul(w.nth(0), v.x) + mul(w.nth(1), v.y) + mul(w.nth(2), v.z)
  pure def rvShape(el: Elements, q: Plane): int =
    // (e cos w + cos(w + f)): the radial velocity in units of K
    {
      pure val cf = div(q.x, q.r)
      pure val sf = div(q.y, q.r)
      mul(el.cw, el.e + cf) - mul(el.sw, sf)
    }
  pure def quantity(what: int, w: List[int], p: Point): int = {
    pure val el = derive(p.g)
    pure val scale = if (what == 0 or what == 5 or what == 10 or what == 11) -el.a else if (what == 2 or what == 4 or what == 9) el.aS else el.aP
    if (what < 3) dot(w, posAt(el, scale, p.t))
    else if (what == 11) dot(w, posAt(el, scale, p.t - delayAt(el, scale, p.t)))
    else {
      pure val q = planeAt(el, p.t)
      if (what < 6) dot(w, velOf(el, q, scale))
      else if (what == 6) mul(mul(w.nth(0), 0 - velOf(el, q, el.aS).z), MS_PER)
      else if (what == 7) mul(w.nth(0), mul(p.K, rvShape(el, q)))
      else dot(w, accOf(el, q, scale))
    }
  }
  // the size of the quantity anywhere on the orbit
  pure def sizeOf(what: int, w: List[int], p: Point, el: Elements): int = {
    pure val weight = iabs(w.nth(0)) + iabs(w.nth(1)) + iabs(w.nth(2))
    pure val A = if (what == 2 or what == 4 or what == 6 or what == 9) el.aS else el.a
    pure val ome = S - el.e
    pure val base =
      if (what < 3 or what == 11) A
      else if (what < 6) mul(mul(A, meanMotion(el)), div(S, ome))
      else if (what == 6) mul(mul(mul(A, meanMotion(el)), MS_PER), div(S, ome))
      else if (what == 7) div(iabs(p.K), ome)
      else mul(mul(mul(A, meanMotion(el)), meanMotion(el)), div(div(S, ome), ome))
    mul(weight, base)
  }
  // (rounding)
  pure val DARK: int = 10^6
  type Slope = { v: int, tol: int }
  pure def slope(what: int, w: List[int], p: Point, which: int): Slope = {
    pure val el = derive(p.g)
    pure val h = natural(p, el, which) / 10^7 / drift(p, el, which)
    pure val v = div(quantity(what, w, moved(p, which, h)) - quantity(what, w, moved(p, which, 0 - h)), 2 * h)
    // phases are rounded, and the star's mass may be a difference
    pure val ome = S - el.e
    pure val D = div(mul(sizeOf(what, w, p, el), drift(p, el, which) * S), natural(p, el, which))
    { v: v, tol: iabs(v) / 10^6 + div(div(D, ome), ome) / 10^6 + div(mul(D, phaseTol(el, p.t)), sq(sq(ome))) * 100 + 10^7
      // (rounding of the differences)
      + div(if (what == 6) 10^6 else 10^2, h)
      // (retarded positions are found to second order in the delay)
      + if (what == 11) mul(D, 100 * div(div(sq(beta(el)), sq(ome)), sq(ome))) else 0 }
  }
  // orbital speed in units of the speed of light
  pure def beta(el: Elements): int = mul(meanMotion(el), div(el.a, CLIGHT))
  // on the sky: the position's derivative along or across the line to the star
  pure def skySlope(what: int, p: Point, which: int): Slope = {
    pure val el = derive(p.g)
    pure val u = posAt(el, -el.a, p.t)
    pure val rho = hypot(u.x, u.y)
    pure val scale = if (what == 12) mul(p.K, AU_PER_RSUN) else div(S, rho)
    pure val cx = div(u.x, rho)
    pure val cy = div(u.y, rho)
    pure val s = slope(0, if (what == 12) [cx, cy, 0] else [0 - cy, cx, 0], p, which)
    pure val far = div(el.a, rho)
    { v: mul(s.v, scale), tol: mul(mul(s.tol, scale), far) + mul(iabs(mul(s.v, scale)), mul(far, phaseTol(el, p.t))) * 10 + 10^7 }
  }
  // does the line to the star have a direction?
  pure def apart(p: Point): bool = {
    pure val el = derive(p.g)
    pure val u = posAt(el, -el.a, p.t)
    hypot(u.x, u.y) > el.a / 300
  }
  // -- what can be read back from the orbit -------------------------------------
  pure def attribute(what: int, el: Elements): int =
    if (what == 20) el.a else if (what == 21) el.P else if (what == 22) el.ms else if (what == 23) el.rs
    else if (what == 24) el.rho else if (what == 25) el.b else if (what == 26) el.ci else if (what == 27) el.t0 else el.tp
  pure def attributeSize(what: int, el: Elements): int =
    if (what == 22) el.mt else if (what == 24) div(mul(el.rho, el.mt), el.ms) else if (what == 25) div(el.a, el.rs) else if (what == 26) S
    else if (what >= 27) el.P else attribute(what, el)
  pure def attributeSlope(what: int, p: Point, which: int): Slope = {
    pure val el = derive(p.g)
    pure val h = natural(p, el, which) / 10^7
    pure val ome = S - el.e
    pure val v = div(attribute(what, derive(moved(p, which, h).g)) - attribute(what, derive(moved(p, which, 0 - h).g)), 2 * h)
    { v: v, tol: iabs(v) / 10^6 + div(div(div(mul(attributeSize(what, el), S), natural(p, el, which)), ome), ome) / 10^7 + 10^7 + div(10^3, h) }
  }

  // -- light curves -------------------------------------------------------------
  type Discs = { b: int, k: int, front: bool }
  pure def discsAt(p: Point): Discs = {
    pure val el = derive(p.g)
    pure val u = posAt(el, -el.a, p.t)
    { b: div(hypot(u.x, u.y), el.rs), k: div(p.rp, el.rs), front: u.z > 0 }
  }
  // far from all contacts?
  pure def smooth(d: Discs): bool = and {
    d.k > S / 1000, d.k < S / 2, d.b > S / 50,
    iabs(d.b - d.k) > d.k / 5, iabs(S - d.b - d.k) > d.k / 10, iabs(S - d.b + d.k) > d.k / 10 }
  pure def fluxSlope(p: Point, which: int): Slope = {
    pure val el = derive(p.g)
    pure val d = discsAt(p)
    if (not(d.front) or d.b > S + d.k) { v: 0, tol: DARK }
    else if (which == 15 or which == 16) {
      pure val h = S / 10^4
      pure val hi = moved(p, which, h)
      pure val lo = moved(p, which, 0 - h)
      { v: div(blockedFlux(hi.u1, hi.u2, d.b, d.k) - blockedFlux(lo.u1, lo.u2, d.b, d.k), 2 * h), tol: sq(d.k) / 1000 + 10^8 }
    } else {
      pure val hk = d.k / 1000
      pure val Fb = div(blockedFlux(p.u1, p.u2, d.b + hk, d.k) - blockedFlux(p.u1, p.u2, d.b - hk, d.k), 2 * hk)
      pure val Fk = div(blockedFlux(p.u1, p.u2, d.b, d.k + hk) - blockedFlux(p.u1, p.u2, d.b, d.k - hk), 2 * hk)
      pure val h = natural(p, el, which) / 10^7 / drift(p, el, which)
      pure val hi = discsAt(moved(p, which, h))
      pure val lo = discsAt(moved(p, which, 0 - h))
      pure val db = div(hi.b - lo.b, 2 * h)
      pure val dk = div(hi.k - lo.k, 2 * h)
      pure val rounding = div(mul(div(mul(el.a, drift(p, el, which) * S), mul(natural(p, el, which), el.rs)), phaseTol(el, p.t)), sq(sq(S - el.e)))
      { v: mul(Fb, db) + mul(Fk, dk),
        tol: mul(d.k, iabs(db) + iabs(dk)) / 1000 + mul(d.k, rounding) * 1000 + 10^7 }
    }
  }
  // an exposure is a weighted mean of instants
  pure def exposureSmooth(p: Point, texp: int, order: int, requested: int): bool = {
    pure val n = samples(requested)
    range(0, n).foldl(true, (ok, i) => ok and {
      pure val d = discsAt({ ...p, t: p.t + mul(texp, position(order, n, i)) })
      smooth(d) })
  }
  pure def exposureSlope(p: Point, which: int, texp: int, order: int, requested: int): Slope = {
    pure val n = samples(requested)
    range(0, n).foldl({ v: 0, tol: 10^3 }, (acc, i) => {
      pure val x = position(order, n, i)
      pure val s = fluxSlope({ ...p, t: p.t + mul(texp, x) }, if (which == 18) 0 else which)
      // (18: the length of the exposure)
      pure val k = mul(weight(order, n, i), if (which == 18) x else S)
      { v: acc.v + mul(k, s.v), tol: acc.tol + mul(iabs(k), s.tol) }
    })
  }
}
