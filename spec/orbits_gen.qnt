// -*- mode: Bluespec; -*-
/**
 * Generation of planetary systems and of observation schedules.
 *
 * `step` declares a new random system (all ways of specifying it that the
 * documentation allows) with the times at which it will be observed.  The
 * harness replays each state of a run against exoplanet's public API.
 */
module orbits_gen {
  import fx.* from "./fx"
  import gen.* from "./gen"
  import kepler.* from "./kepler"
  import limbdark.* from "./limbdark"
  import transits.* from "./transits"

  // 0 anything; 1 anything seen close to edge on; 2 transiting, with times
  // around the transits; 3 moderate (e <= 0.8, times within +-20 periods)
  // 4 circular orbits from a duration; 5 eclipsing pairs, with times around
  // both eclipses; 6 transiting, seen in exposures nearly as long as the period
  const PROFILE: int
  // number of times per system
  const NT: int

  pure val TRANSITING = PROFILE == 2 or PROFILE == 6

  type Scenario = {
    ok: bool, g: List[Givens], times: List[int], scalar: bool,
    rp: List[int], texp: List[int], K: List[int], parallax: int, u1: int, u2: int, x: List[int],
    // the companion's limb darkening and brightness; depths and impact parameters
    v: List[int], depths: List[int], bs: List[int]
  }
  var scn: Scenario

  type Flags = { pm: int, sm: int, ek: int, ok: int, ik: int, tk: int, ms: int, rs: int, rho: int }

  pure def mkFlags(R: int): Flags = {
    pure val pm = if (PROFILE == 4) 3 else one(R, 0, [0, 0, 0, 1, 2])
    pure val sm = if (pm >= 2) one(R, 1, [0, 5, 5]) else one(R, 1, [0, 1, 1, 2, 3, 4])
    { pm: pm, sm: sm,
      ek: if (PROFILE == 4) 0 else one(R, 2, [0, 1, 1, 2]),
      ok: pick(R, 3, 2),
      ik: if (PROFILE == 4) 2 else if (TRANSITING or PROFILE == 5) one(R, 4, [0, 1, 2, 2]) else pick(R, 4, 3),
      tk: pick(R, 5, 3),
      ms: logu(R, 6, S / 10, 3 * S), rs: logu(R, 7, S / 10, 5 * S), rho: logu(R, 8, S / 10, 30 * S) }
  }

  pure def mkBody(f: Flags, R: int): Givens = {
    pure val P0 = logu(R, 0, S / 2, if (TRANSITING or PROFILE == 5) 60 * S else 800 * S)
    // now and then a whole number of days
    pure val P = if (pick(R, 19, 6) == 0) imax(1, P0 / S) * S else P0
    pure val e = {
      pure val emax = if (PROFILE == 3) 75 * S / 100 else if (TRANSITING or PROFILE == 5) 70 * S / 100 else 95 * S / 100
      one(R, 1, [0, uni(R, 2, 0, S / 10), uni(R, 2, 0, S / 2), uni(R, 2, 0, emax),
        if (PROFILE == 0 or PROFILE == 1) S - logu(R, 2, 8 * S / 1000, S / 2) else uni(R, 2, 0, emax)])
    }
    pure val rs = if (f.sm == 1 or f.sm == 2 or f.sm == 5) f.rs else S
    // (very eccentric orbits are large)
    pure val a = mul(rs, logu(R, 3, 5 * S, if (e > 95 * S / 100) 1000 * S else 200 * S))
    // now and then exactly along one of the axes
    pure val w = if (pick(R, 20, 6) == 0) one(R, 4, [0, HALFPI, -HALFPI, -HALFPI, PI, 3 * HALFPI]) else uni(R, 4, -PI, PI)
    pure val rore = uni(R, 17, S / 100, 15 * S / 100)
    { pm: f.pm, sm: f.sm, ek: f.ek, ok: f.ok, ik: f.ik, tk: f.tk,
      P: P, a: a, e: e, w: w,
      O: if (pick(R, 21, 8) == 0) one(R, 5, [0, HALFPI, PI, -HALFPI]) else uni(R, 5, -PI, PI),
      iv: if (pick(R, 22, 10) == 0) (if (f.ik == 2) 0 else HALFPI)
        else if (f.ik == 2) (if (TRANSITING) uni(R, 6, -S, 115 * S / 100) else if (PROFILE == 5) uni(R, 6, -S, S) else if (PROFILE == 4) uni(R, 6, 0, 95 * S / 100) else uni(R, 6, -S, S))
        else if (TRANSITING or PROFILE == 5) HALFPI + uni(R, 6, -S / 20, S / 20)
        else if (PROFILE == 1) HALFPI + uni(R, 6, -S / 5, S / 5)
        else uni(R, 6, S / 100, PI - S / 100),
      // (some are Julian dates)
      tr: one(R, 7, [2450000 * S, 2000 * S, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]) + uni(R, 8, -30 * S, 30 * S),
      // a massive companion must leave mass for the star
      mp: one(R, 9, [0, uni(R, 10, 0, S / 100000), uni(R, 10, 0, S / 20), uni(R, 10, 0, if (f.pm >= 2) S / 1000 else S)]),
      ms: f.ms, rs: f.rs, rho: f.rho,
      dur: mul(P, logu(R, 11, 5 * S / 1000, 6 * S / 100)),
      ror: if (pick(R, 18, 4) == 0) 0 else rore }
  }

  // Planets may have elements in common, which are then given only once
  pure def common(R: int, first: Givens, g: Givens): Givens = {
    pure def bit(k: int): bool = pick(R, k, 3) == 0
    { ...g, e: if (bit(0)) first.e else g.e, w: if (bit(1)) first.w else g.w, O: if (bit(2)) first.O else g.O,
      iv: if (bit(3)) first.iv else g.iv, tr: if (bit(4)) first.tr else g.tr, mp: if (bit(5)) first.mp else g.mp }
  }

  // A system is admissible if the planet stays outside the star and every
  // derived quantity exists
  pure def sane(g: Givens, el: Elements): bool = and {
    el.ms > S / 100, el.a > 0, el.rs > 0,
    mul(el.a, S - el.e) > mul(el.rs, 13 * S / 10),
    iabs(el.ci) < 98 * S / 100,
    el.P < 200000 * S, el.P > S / 20
  }

  // Observation times: a phase of one of the planets, in some cycle
  pure def mkTime(els: List[Elements], R: int, k: int): int = {
    pure val el = els.nth(pick(R, k, length(els)))
    pure val c = one(R, k + 1, [0, 0, pick(R, k + 2, 9) - 4, pick(R, k + 2, 9) - 4,
                                if (PROFILE == 3) 3 else pick(R, k + 2, 2001) - 1000])
    // time of superior conjunction, w + f = -pi/2
    pure val ts = el.tp + mul(div(meanAtConj(el.e, 0 - el.sw, 0 - el.cw), TWOPI), el.P)
    pure val width = div(mul(el.rs, 2 * S), mul(4 * S, el.a))
    pure val ph =
      if (PROFILE == 6) one(R, k + 4, [uni(R, k + 3, -S / 2, S / 2), S / 2 - uni(R, k + 3, 0, S / 100), uni(R, k + 3, 0, S / 100) - S / 2])
      else if (TRANSITING or PROFILE == 5) uni(R, k + 3, -width, width)
      else one(R, k + 4, [uni(R, k + 3, -S / 2, S / 2), uni(R, k + 3, -S / 2, S / 2), 0, S / 4, uni(R, k + 3, -S / 100, S / 100)])
    (if (PROFILE == 5) (if (pick(R, k + 5, 2) == 0) ts else el.t0)
     else if (pick(R, k + 5, 6) == 0) el.tp else el.t0) + c * el.P + mul(el.P, ph)
  }

  // For the profile of long exposures: a time about half a period away from
  // the transit of a planet and half an exposure, such that the exposure ends
  // just inside the transit on the far side but before the one on the near side
  pure def edgeOf(el: Elements, rp: int, dir: int): int =
    // (in units of the period, relative to the transit)
    dir * range(0, 24).foldl((0, S / 4), (acc, i) => {
      pure val m = (acc._1 + acc._2) / 2
      pure val g = gap(el, rp, el.t0 + dir * mul(el.P, m))
      if (g.front and g.d < 0) (m, acc._2) else (acc._1, m)
    })._1
  pure def farSide(el: Elements, rp: int, R: int): { t: int, h: int } = {
    pure val lo = edgeOf(el, rp, 0 - 1)
    pure val hi = edgeOf(el, rp, 1)
    pure val skew = lo + hi
    pure val eps = iabs(skew) / uni(R, 0, 5, 60)
    pure val x = if (skew > 0) (eps - S / 2, S / 2 - hi + 3 * eps) else (S / 2 - eps, S / 2 + lo + 3 * eps)
    { t: el.t0 + mul(el.P, x._1), h: mul(el.P, x._2) }
  }

  pure def mkScenario(R: int): Scenario = {
    pure val f = mkFlags(R)
    pure val nb = one(R, 10, [1, 1, 2, 3])
    pure val bodies = range(0, nb).foldl(List(), (acc, j) => acc.append(mkBody(f, part(R, j + 1))))
    pure val gs = if (pick(part(R, 6), 20, 4) > 0) bodies
      else range(0, nb).foldl(List(), (acc, j) => acc.append(common(part(R, 8), bodies.nth(0), bodies.nth(j))))
    pure val els = gs.foldl(List(), (acc, g) => acc.append(derive(g)))
    pure val good = range(0, nb).foldl(true, (acc, j) => acc and sane(gs.nth(j), els.nth(j)))
    pure val R2 = part(R, 4)
    // limb darkening: any physical pair, by way of the triangle u1 > 0,
    // u1 + u2 < 1, u1 + 2 u2 > 0
    pure val q1 = isqrt(uni(R, 23, 0, S) * S)
    pure val u1 = 2 * mul(q1, uni(part(R, 6), 0, 0, S))
    pure val rp = range(0, nb).foldl(List(), (acc, j) => acc.append(mul(els.nth(j).rs,
        if (PROFILE == 5 and pick(R, 12, 2) == 0)
          imin(uni(R, 13 + j, S / 10, 13 * S / 10), imax(S / 10, mul(7 * S / 10, div(mul(els.nth(j).a, S - els.nth(j).e), els.nth(j).rs) - S)))
        // (planets may be larger than the star, but then the orbit must be large, too)
        else if (TRANSITING and pick(part(R, 6), 21, 8) == 0)
          imin(uni(R, 13 + j, 0, 3 * S), imax(S / 10, mul(3 * S / 10, div(mul(els.nth(j).a, S - els.nth(j).e), els.nth(j).rs)) - S))
        else if (pick(R, 12, 4) == 0) uni(R, 13 + j, 0, 3 * S / 10) else uni(R, 13 + j, S / 100, 15 * S / 100))))
    pure val far = if (PROFILE == 6 and good and nb == 1 and transits(els.nth(0), rp.nth(0)) == IN) farSide(els.nth(0), rp.nth(0), part(R, 7)) else { t: 0, h: 0 }
    pure val times = if (not(good)) List() else
      if (far.h > 0) range(0, NT).foldl(List(), (acc, k) => acc.append(if (k == 0) far.t else mkTime(els, R2, 7 * k))) else range(0, NT).foldl(List(), (acc, k) => acc.append(mkTime(els, R2, 7 * k)))
    { ok: good, g: gs, times: times, scalar: nb == 1 and pick(R, 11, 2) == 0,
      rp: rp,
      texp: if (far.h > 0) [2 * far.h, 0]
        else if (PROFILE == 6 and good)
          [mul(els.nth(0).P, S - mul(div(mul(els.nth(0).rs, 2 * S), mul(4 * S, els.nth(0).a)), uni(R, 17, 7 * S / 10, 22 * S / 10))), 0]
        else [one(R, 16, [0, uni(R, 17, S / 1000, S / 20), uni(R, 17, S / 1000, S / 20)]), pick(R, 18, 2)],
      
      K: range(0, nb).foldl(List(), (acc, j) => acc.append((if (pick(R, 18, 8) == 0) 0 - 1 else 1) * uni(R, 19 + j, S, 100 * S))),
      parallax: uni(R, 22, S / 1000, S / 5),
      u1: u1, u2: q1 - u1, 
      // form of the calls, and the cycles in which they are repeated
      x: List(pick(part(R, 6), 1, 1000000), 0, pick(part(R, 6), 2, 9) - 4, pick(part(R, 6), 3, 2001) - 1000),
      v: { pure val w = uni(part(R, 6), 4, 0, 6 * S / 10) List(w, uni(part(R, 6), 5, 0, S - w) / 2, one(part(R, 6), 6, [0, uni(part(R, 6), 7, 0, S), uni(part(R, 6), 7, 0, 2 * S)])) },
      depths: range(0, 4).foldl(List(), (acc, k) => acc.append(logu(part(R, 6), 8 + k, S / 1000000, S / 10))),
      bs: range(0, 4).foldl(List(), (acc, k) => acc.append(one(part(R, 6), 12 + k, [0, uni(part(R, 6), 16 + k, 0 - S, S), uni(part(R, 6), 16 + k, 0 - S, S)]))) }
  }

  pure val EMPTY: Scenario = { ok: false, g: List(), times: List(), scalar: false, rp: List(), texp: List(),
    K: List(), parallax: 0, u1: 0, u2: 0, x: List(), v: List(), depths: List(), bs: List() }
  action init = scn' = EMPTY
  action step = { nondet R = oneOf(0.to(ENTROPY)) scn' = mkScenario(R) }
}
