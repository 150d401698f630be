// -*- mode: Bluespec; -*-
/**
 * The two-body model behind exoplanet's Keplerian orbits.
 *
 * Units: R_sun, M_sun, days.  Conventions: the observer's frame has X north,
 * Y east and Z towards the observer; `w` is the argument of periastron of the
 * star's orbit around the barycentre, so that a planet transits when
 * w + f = pi/2 with Z > 0.  Everything is derived here from the quantities
 * the user gave (`Givens`), never from what the implementation derived.
 */
module kepler {
  import fx.* from "./fx"

  // -- constants, from SI values ------------------------------------------
  // GM_sun = 1.3271244e20 m^3/s^2, R_sun = 6.957e8 m, G = 6.6743e-11 SI
  pure val R_SUN_M: int = 695700000
  pure val DAY_S: int = 86400
  pure val GRAV: int = 13271244 * 10^13 * DAY_S * DAY_S * S / (R_SUN_M * R_SUN_M * R_SUN_M)
  pure val CLIGHT: int = 299792458 * DAY_S * S / R_SUN_M
  // M_sun / R_sun^3 in g/cm^3: (GM/G)/R^3 kg/m^3 / 1000
  pure val GCC: int = 13271244 * 10^13 * 10^15 * S / (66743 * R_SUN_M * R_SUN_M * R_SUN_M * 1000)
  pure val AU_PER_RSUN: int = R_SUN_M * S / 149597870700
  // one R_sun/day in m/s
  pure val MS_PER: int = R_SUN_M * S / DAY_S
  pure val FOURPI2: int = sq(TWOPI)

  /**
   * What the user gave.
   * pm: 0 period, 1 a, 2 period and a, 3 period and transit duration (circular)
   * sm: star: 0 nothing, 1 m+r, 2 rho+r, 3 m+rho, 4 rho, 5 r only (with pm 2, 3)
   * ek: 0 no eccentricity, 1 ecc and omega, 2 ecc and sin/cos omega
   * ok: 0 no Omega, 1 Omega
   * ik: 0 nothing, 1 inclination, 2 impact parameter
   * tk: 0 nothing, 1 t0, 2 t_periastron
   */
  type Givens = {
    pm: int, sm: int, ek: int, ok: int, ik: int, tk: int,
    P: int, a: int, e: int, w: int, O: int, iv: int, tr: int,
    mp: int, ms: int, rs: int, rho: int, dur: int, ror: int
  }

  type Elements = {
    P: int, a: int, e: int, sw: int, cw: int, sO: int, cO: int,
    si: int, ci: int, b: int, t0: int, tp: int,
    mp: int, ms: int, mt: int, rs: int, rho: int,
    se: int,         // sqrt(1 - e^2)
    aP: int, aS: int // signed scales of the planet's and the star's orbits
  }

  // Inclination factor: b = cos(i) a / (r_star g), g = (1 + e sin w)/(1 - e^2)
  pure def conjFactor(e: int, sw: int): int = div(S + mul(e, sw), S - sq(e))

  // Mean anomaly at inferior conjunction (w + f = pi/2)
  pure def meanAtConj(e: int, sw: int, cw: int): int = {
    pure val den = S + mul(e, sw)
    pure val cE = div(e + sw, den)
    pure val sE = div(mul(sqrt(S - sq(e)), cw), den)
    atan2(sE, cE) - mul(e, sE)
  }

  pure def derive(g: Givens): Elements = {
    pure val e = if (g.ek == 0) 0 else g.e
    pure val swcw = if (g.ek == 0) (0, S) else sincos(g.w)
    pure val Oo = if (g.ok == 0) (0, S) else sincos(g.O)
    pure val star =
      if (g.pm == 2 or g.pm == 3) {
        pure val rs = if (g.sm == 5) g.rs else S
        pure val a = if (g.pm == 2) g.a else {
          pure val phi = sincos(div(mul(PI, g.dur), g.P))
          pure val num = sq(S + g.ror) - mul(sq(g.iv), sq(phi._2))
          mul(rs, div(sqrt(num), phi._1))
        }
        pure val mt = FOURPI2 * a / GRAV * a / g.P * a / g.P
        { rs: rs, ms: mt - g.mp, mt: mt, a: a, P: g.P }
      } else {
        // rho is given in g/cm^3
        pure val rho = div(g.rho, GCC)
        pure val rs = if (g.sm == 1 or g.sm == 2) g.rs
          else if (g.sm == 3) cbrt(div(3 * g.ms, mul(4 * PI, rho)))
          else S
        pure val ms = if (g.sm == 1 or g.sm == 3) g.ms
          else if (g.sm == 2 or g.sm == 4) mul(4 * PI * rs / S * rs / S * rs / S, rho) / 3
          else S
        pure val mt = ms + g.mp
        pure val GM = mul(GRAV, mt)
        pure val a = if (g.pm == 0) cbrt(GM * g.P / S * g.P / FOURPI2) else g.a
        pure val P = if (g.pm == 0) g.P else isqrt(FOURPI2 * a / GM * a * a / S)
        { rs: rs, ms: ms, mt: mt, a: a, P: P }
      }
    pure val fac = mul(conjFactor(e, swcw._1), div(star.rs, star.a))
    // cos(i) must not lose its digits when the orbit is wide
    pure val inc =
      if (g.ik == 1) { pure val sc = sincos(g.iv) { ci: sc._2, si: sc._1, b: div(sc._2, fac) } }
      else if (g.ik == 2 or g.pm == 3) {
        pure val ci = mul(fac, g.iv)
        { ci: ci, si: isqrt((S - ci) * (S + ci)), b: g.iv }
      }
      else { ci: 0, si: S, b: 0 }
    pure val lag = mul(div(meanAtConj(e, swcw._1, swcw._2), TWOPI), star.P)
    pure val t0 = if (g.tk == 0) 0 else if (g.tk == 1) g.tr else g.tr + lag
    { P: star.P, a: star.a, e: e, sw: swcw._1, cw: swcw._2, sO: Oo._1, cO: Oo._2,
      si: inc.si, ci: inc.ci, b: inc.b, t0: t0, tp: t0 - lag,
      mp: g.mp, ms: star.ms, mt: star.mt, rs: star.rs,
      rho: mul(div(3 * star.ms, 4 * PI * star.rs / S * star.rs / S * star.rs / S), GCC),
      se: sqrt(S - sq(e)),
      aP: -(star.a * star.ms / star.mt), aS: star.a * g.mp / star.mt }
  }

  // -- Kepler's equation ---------------------------------------------------
  // E in [0, pi] with E - e sin E = M, for M in [0, pi]: Newton's method from
  // the right converges monotonically because the left side is convex there.
  pure def eccAnomalyPos(M: int, e: int): int = {
    pure val E0 = imin(PI, M + e)
    range(0, 60).foldl((E0, false), (acc, i) =>
      if (acc._2) acc else {
        pure val sc = sincos(acc._1)
        pure val d = div(acc._1 - mul(e, sc._1) - M, S - mul(e, sc._2))
        (acc._1 - d, iabs(d) < 10^10)
      })._1
  }
  // After a step below 10^-8 the error is below 10^-15 relative to the
  // curvature; one more step settles it.
  pure def eccAnomaly(M: int, e: int): int = {
    pure val m = floorMod(M + PI, TWOPI) - PI
    pure val E = if (e == 0) iabs(m) else {
      pure val E1 = eccAnomalyPos(iabs(m), e)
      pure val sc = sincos(E1)
      E1 - div(E1 - mul(e, sc._1) - iabs(m), S - mul(e, sc._2))
    }
    if (m < 0) -E else E
  }

  // The reduced state: in-plane position (units of a), velocity (units of
  // n a) and the distance
  type Plane = { x: int, y: int, vx: int, vy: int, r: int }
  pure def planeAt(el: Elements, t: int): Plane = {
    pure val frac = floorMod((t - el.tp) * S / el.P, S)
    pure val E = eccAnomaly(mul(TWOPI, frac), el.e)
    pure val sc = sincos(E)
    pure val r = S - mul(el.e, sc._2)
    { x: sc._2 - el.e, y: mul(el.se, sc._1), r: r,
      vx: -div(sc._1, r), vy: div(mul(el.se, sc._2), r) }
  }

  type Vec = { x: int, y: int, z: int }
  pure def vec(a: int, b: int, c: int): Vec = { x: a, y: b, z: c }
  pure def vscale(v: Vec, k: int): Vec = { x: mul(v.x, k), y: mul(v.y, k), z: mul(v.z, k) }
  pure def vnear(u: Vec, v: Vec, tol: int): bool =
    and { near(u.x, v.x, tol), near(u.y, v.y, tol), near(u.z, v.z, tol) }
  pure def norm2(v: Vec): int = sq(v.x) + sq(v.y) + sq(v.z)

  // From the orbital plane to the observer's frame
  pure def rotate(el: Elements, x: int, y: int): Vec = {
    pure val x1 = mul(el.cw, x) - mul(el.sw, y)
    pure val y1 = mul(el.sw, x) + mul(el.cw, y)
    pure val y2 = mul(el.ci, y1)
    { x: mul(el.cO, x1) - mul(el.sO, y2),
      y: mul(el.sO, x1) + mul(el.cO, y2),
      z: -mul(el.si, y1) }
  }

  // Position, velocity and acceleration for an orbit scaled by A (which is
  // -a m_star/m_tot for the planet, a m_planet/m_tot for the star, -a for the
  // planet relative to the star)
  pure def posAt(el: Elements, A: int, t: int): Vec = {
    pure val p = planeAt(el, t)
    vscale(rotate(el, p.x, p.y), A)
  }
  pure def meanMotion(el: Elements): int = div(TWOPI, el.P)
  pure def velOf(el: Elements, p: Plane, A: int): Vec =
    vscale(rotate(el, p.vx, p.vy), mul(A, meanMotion(el)))
  // d2r/dt2 = -n^2 a^3 r / |r|^3
  pure def accOf(el: Elements, p: Plane, A: int): Vec = {
    pure val n = meanMotion(el)
    pure val k = div(div(div(A, p.r), p.r), p.r)
    vscale(rotate(el, p.x, p.y), -mul(mul(k, n), n))
  }

  // -- light travel time ----------------------------------------------------
  // An observation at t (light travel time zero at the barycentre) shows the
  // body where it was at t - d, with d = -z(t - d)/c.
  pure def delayAt(el: Elements, A: int, t: int): int =
    range(0, 6).foldl(0, (d, i) => -div(posAt(el, A, t - d).z, CLIGHT))

  // -- tolerance of a double precision evaluation ---------------------------
  // relative error of a position in units of the orbit's size: rounding of
  // the phase (grows with |t|/P) times the sensitivity 1/(1-e)^1.5
  // (Kepler's equation is solved by exoplanet_core, a library of its own,
  // which takes an eccentric anomaly within 1.42e-5 of apoastron for apoastron)
  pure def atApoastron(el: Elements, t: int): bool =
    iabs(floorMod((t - el.tp) * S / el.P, S) - S / 2) < 65 * 10^11
  pure def phaseTol(el: Elements, t: int): int = {
    pure val cycles = (iabs(t) + iabs(el.t0) + iabs(el.tp)) / el.P + 2
    pure val ome = S - el.e
    // 2e-15 per cycle, times 2 pi, divided by (1-e)^2
    imax(div(div(15 * cycles * 1000, ome), ome), 10^7) * 4 + if (atApoastron(el, t)) 15 * 10^12 else 0
  }
}
