// -*- mode: Bluespec; -*-
/**
 * The clauses about a Keplerian orbit: what each recorded call must satisfy,
 * given the system.  The layout of the events is listed in orbits_trace.qnt.
 */
module orbits_rules {
  import fx.* from "./fx"
  import kepler.* from "./kepler"

  type Clause = (str, bool)

  pure def isKind(e: List[int], k: int): bool = e.nth(0) == k

  pure def v3(e: List[int], i: int): Vec = vec(e.nth(i), e.nth(i + 1), e.nth(i + 2))

  pure def givensOf(e: List[int]): Givens =
    { pm: e.nth(1), sm: e.nth(2), ek: e.nth(3), ok: e.nth(4), ik: e.nth(5), tk: e.nth(6),
      P: e.nth(7), a: e.nth(8), e: e.nth(9), w: e.nth(10), O: e.nth(11), iv: e.nth(12), tr: e.nth(13),
      mp: e.nth(14), ms: e.nth(15), rs: e.nth(16), rho: e.nth(17), dur: e.nth(18), ror: e.nth(19) }

  // tolerance for a position on an orbit of size A
  pure def tolPos(el: Elements, A: int, t: int): int =
    mul(iabs(A), phaseTol(el, t)) + 2000

  pure def checkPosition(el: Elements, e: List[int]): List[Clause] = {
    pure val t = e.nth(2)
    pure val p = planeAt(el, t)
    pure val u = rotate(el, p.x, p.y)
    [ ("planet_position", vnear(v3(e, 3), vscale(u, el.aP), tolPos(el, el.aP, t))),
      ("star_position", vnear(v3(e, 6), vscale(u, el.aS), tolPos(el, el.aS, t))),
      ("relative_position", vnear(v3(e, 9), vscale(u, -el.a), tolPos(el, el.a, t))) ]
  }

  pure def checkVelocity(el: Elements, e: List[int]): List[Clause] = {
    pure val t = e.nth(2)
    pure val p = planeAt(el, t)
    // d v / d M grows like 1/(1-e)^2 in units of n a
    pure val k = div(meanMotion(el), sq(S - el.e))
    pure def tol(A: int): int = mul(mul(iabs(A), phaseTol(el, t)), k) + 2000
    [ ("planet_velocity", vnear(v3(e, 3), velOf(el, p, el.aP), tol(el.aP))),
      ("star_velocity", vnear(v3(e, 6), velOf(el, p, el.aS), tol(el.aS))),
      ("relative_velocity", vnear(v3(e, 9), velOf(el, p, -el.a), tol(el.a))) ]
  }

  pure def checkAccel(el: Elements, e: List[int]): List[Clause] = {
    pure val t = e.nth(2)
    pure val p = planeAt(el, t)
    pure val n = meanMotion(el)
    pure val k = div(mul(n, n), sq(mul(S - el.e, S - el.e)))
    pure def tol(A: int): int = mul(mul(iabs(A), phaseTol(el, t)), k) + 2000
    [ ("planet_acceleration", vnear(v3(e, 3), accOf(el, p, el.aP), tol(el.aP))),
      ("star_acceleration", vnear(v3(e, 6), accOf(el, p, el.aS), tol(el.aS))),
      ("relative_acceleration", vnear(v3(e, 9), accOf(el, p, -el.a), tol(el.a))) ]
  }

  // On the sky: separation in arcsec and position angle east of north
  pure def checkAngles(el: Elements, e: List[int]): List[Clause] = {
    pure val t = e.nth(2)
    pure val k = if (e.nth(3) == 0) S else mul(e.nth(3), AU_PER_RSUN)  // (solar radii without a parallax)
    pure val p = planeAt(el, t)
    pure val u = rotate(el, p.x, p.y)
    pure val r = vscale(u, -mul(el.a, k))
    pure val sep = hypot(r.x, r.y)
    pure val extent = mul(el.a, k)
    pure val tol = tolPos(el, extent, t)
    pure val pa = e.nth(5)
    [ ("separation", near(e.nth(4), sep, 2 * tol)),
      ("position_angle_range", finite(pa) and iabs(pa) <= PI + 10),
      // the recorded angle points at the planet: north = sep cos, east = sep sin
      ("position_angle", and { finite(pa),
         near(mul(sep, cos(pa)), r.x, 4 * tol), near(mul(sep, sin(pa)), r.y, 4 * tol) }),
      ("planet_position_arcsec", vnear(v3(e, 6), vscale(u, mul(el.aP, k)), tol)),
      ("star_position_arcsec", vnear(v3(e, 9), vscale(u, mul(el.aS, k)), tol)),
      ("relative_position_arcsec", vnear(v3(e, 12), r, tol)) ]
  }

  pure def rel(a: int, b: int): bool = near(a, b, 100 + iabs(b) / 10^11)

  // Attributes of the orbit: every parameter of the orbit can be read back, and
  // they satisfy the relations between them
  pure def checkAttrs(el: Elements, e: List[int]): List[Clause] = {
    pure val incl = e.nth(8)
    pure val ome = S - el.e
    pure val ttol = imax(10^4, (iabs(el.t0) + el.P) / 10^12)
      + mul(el.P, div(10^6, imax(10^8, isqrt((S + el.sw) * S))))
    [ ("attr_a", rel(e.nth(2), el.a)), ("attr_period", rel(e.nth(3), el.P)),
      ("attr_m_star", near(e.nth(4), el.ms, 100 + el.mt / 10^11)), ("attr_r_star", rel(e.nth(5), el.rs)),
      ("attr_rho_star", near(e.nth(6), el.rho, 1000 + div(mul(el.rho, el.mt), el.ms) / 10^10)),
      ("attr_m_planet", rel(e.nth(7), el.mp)),
      ("attr_incl", finite(incl) and near(cos(incl), el.ci, 10^6) and near(sin(incl), el.si, 10^6)),
      ("attr_cos_incl", near(e.nth(9), el.ci, 10^6)),
      ("attr_sin_incl", near(e.nth(10), el.si, 10^6)),
      ("attr_b", near(e.nth(11), el.b, 10^6 + div(10^6 * 1000, div(el.rs, el.a)) / 1000)),
      ("attr_t0", near(floorMod(e.nth(12) - el.t0 + el.P / 2, el.P), el.P / 2, ttol)),
      ("attr_t_periastron", near(floorMod(e.nth(13) - el.tp + el.P / 2, el.P), el.P / 2, ttol)),
      ("attr_ecc", near(e.nth(14), el.e, 100)),
      ("attr_omega", finite(e.nth(15)) and near(sin(e.nth(15)), el.sw, 10^4) and near(cos(e.nth(15)), el.cw, 10^4)),
      ("attr_Omega", finite(e.nth(16)) and near(sin(e.nth(16)), el.sO, 10^4) and near(cos(e.nth(16)), el.cO, 10^4)),
      ("attr_a_planet", rel(e.nth(17), el.aP)), ("attr_a_star", rel(e.nth(18), el.aS)),
      ("attr_m_total", rel(e.nth(19), el.mt)),
      ("attr_n", rel(e.nth(20), meanMotion(el))),
      ("attr_t0_vs_periastron", near(floorMod(e.nth(12) - e.nth(13) - (el.t0 - el.tp) + el.P / 2, el.P), el.P / 2, ttol)) ]
  }

  // Radial velocity: recession is positive, i.e. minus the star's velocity
  // towards the observer
  pure def checkRV(el: Elements, e: List[int]): List[Clause] = {
    pure val t = e.nth(2)
    pure val p = planeAt(el, t)
    pure val v = -velOf(el, p, el.aS).z
    pure val k = div(meanMotion(el), sq(S - el.e))
    pure val tol = mul(mul(iabs(el.aS), phaseTol(el, t)), k) + 20
    // with the semi-amplitude K given: K (cos(w+f) + e cos w)
    pure val cf = div(p.x, p.r)
    pure val sf = div(p.y, p.r)
    pure val K = e.nth(6)
    pure val shape = mul(el.cw, cf) - mul(el.sw, sf) + mul(el.e, el.cw)
    pure val tolK = mul(iabs(K), div(phaseTol(el, t), sq(S - el.e))) + 2000
    [ ("rv_m_per_s", near(e.nth(3), mul(v, MS_PER), mul(tol, MS_PER) + 2000)),
      ("rv_km_per_s", near(e.nth(4), mul(v, MS_PER) / 1000, mul(tol, MS_PER) / 1000 + 2000)),
      ("rv_native", near(e.nth(5), v, tol + 2000)),
      ("rv_from_K", near(e.nth(7), mul(K, shape), tolK)) ]
  }

  // A body of an orbit of size A, as seen at t, and the tolerance of that
  // position: the retarded time is found to second order in the delay
  pure def retarded(el: Elements, A: int, t: int): (Vec, int) = {
    pure val d = delayAt(el, A, t)
    pure val nd = mul(meanMotion(el), div(iabs(A), CLIGHT))
    pure val ome = S - el.e
    pure val slack = div(div(mul(sq(nd), sq(nd)), sq(sq(ome))), sq(ome))
    (posAt(el, A, t - d), imax(tolPos(el, A, t), tolPos(el, A, t - d)) + mul(iabs(A), 20 * slack))
  }
  pure def checkDelayed(el: Elements, e: List[int]): List[Clause] = {
    pure val t = e.nth(2)
    pure def clause(A: int, v: Vec): bool = {
      pure val w = retarded(el, A, t)
      vnear(v, w._1, w._2)
    }
    [ ("planet_retarded", clause(el.aP, v3(e, 3))),
      ("star_retarded", clause(el.aS, v3(e, 6))),
      ("relative_retarded", clause(-el.a, v3(e, 9))) ]
  }
  pure def checkDelayedArc(el: Elements, e: List[int]): List[Clause] = {
    pure val t = e.nth(2)
    pure val k = if (e.nth(3) == 0) S else mul(e.nth(3), AU_PER_RSUN)  // (solar radii without a parallax)
    pure def clause(A: int, v: Vec): bool = {
      pure val w = retarded(el, A, t)
      vnear(v, vscale(w._1, k), mul(w._2, k) + 2000)
    }
    pure val w = retarded(el, -el.a, t)
    pure val r = vscale(w._1, k)
    pure val tol = mul(w._2, k) + 2000
    pure val sep = hypot(r.x, r.y)
    pure val pa = e.nth(5)
    [ ("planet_retarded_arcsec", clause(el.aP, v3(e, 6))),
      ("star_retarded_arcsec", clause(el.aS, v3(e, 9))),
      ("relative_retarded_arcsec", clause(-el.a, v3(e, 12))),
      ("separation_retarded", near(e.nth(4), sep, 2 * tol)),
      ("position_angle_retarded", and { finite(pa), iabs(pa) <= PI + 10,
         near(mul(sep, cos(pa)), r.x, 4 * tol), near(mul(sep, sin(pa)), r.y, 4 * tol) }) ]
  }

  // Reference transits: at t0 + k P the planet crosses the line of nodes'
  // normal in front of the star at b r_star, and every P the orbit repeats
  pure def checkReference(el: Elements, e: List[int]): List[Clause] = {
    pure val t = e.nth(2)
    pure val r = v3(e, 3)
    pure val r2 = v3(e, 6)
    pure val tol = tolPos(el, el.a, t) + tolPos(el, el.a, el.t0)
    // undo the rotation by Omega
    pure val X = mul(el.cO, r.x) + mul(el.sO, r.y)
    pure val Y = mul(el.cO, r.y) - mul(el.sO, r.x)
    // impact parameters are compared on the sky
    [ ("transit_on_axis", near(X, 0, 2 * tol)),
      ("transit_impact_parameter", near(Y, -mul(el.b, el.rs), 2 * tol)),
      ("transit_in_front", finite(r.z) and r.z > 0),
      ("transit_repeats", vnear(r, r2, 2 * tol)) ]
  }
  // Periastron: the planet is at its closest, a(1-e)
  pure def checkPeriastron(el: Elements, e: List[int]): List[Clause] = {
    pure val r = v3(e, 3)
    pure val tol = tolPos(el, el.a, e.nth(2))
    pure val s = sqrt(norm2(r))
    [ ("periastron_distance", near(s, mul(el.a, S - el.e), 4 * tol)),
      ("periastron_is_closest", sqrt(norm2(v3(e, 6))) >= s - 4 * tol) ]
  }

  // Contact: the limbs touch, planet in front
  pure def checkContact(el: Elements, g: Givens, e: List[int]): List[Clause] = {
    pure val r = v3(e, 3)
    pure val tol = tolPos(el, el.a, e.nth(2))
    [ ("contact_distance", near(hypot(r.x, r.y), mul(el.rs, S + g.ror), 4 * tol)),
      ("contact_in_front", finite(r.z) and r.z > 0) ]
  }
  // Derivatives with respect to the duration, by central differences of the model
  pure def checkDurJac(g: Givens, e: List[int]): List[Clause] = {
    pure val h = g.dur / 10^5
    pure val up = derive({ ...g, dur: g.dur + h })
    pure val dn = derive({ ...g, dur: g.dur - h })
    pure def clause(v: int, a: int, b: int): bool = {
      pure val d = div(a - b, 2 * h)
      near(v, d, 10^5 + 8 * S / h + iabs(d) / 10^7)
    }
    [ ("jac_a", clause(e.nth(2), up.a, dn.a)),
      ("jac_a_planet", clause(e.nth(3), up.aP, dn.aP)),
      ("jac_a_star", clause(e.nth(4), up.aS, dn.aS)),
      ("jac_rho_star", clause(e.nth(5), up.rho, dn.rho)) ]
  }
  pure def checkBJac(el: Elements, e: List[int]): List[Clause] =
    [ ("jac_b", near(e.nth(2), mul(conjFactor(el.e, el.sw), div(el.rs, el.a)), 10^5)) ]
}
