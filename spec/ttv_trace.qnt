// -*- mode: Bluespec; -*-
/**
 * Trace validation for timing orbits: the state is the list of planets with
 * their labelled transits.  See orbits_trace.qnt for the shape of a trace.
 */
module ttv_trace {
  import fx.* from "./fx"
  import kepler.* from "./kepler"
  import limbdark.* from "./limbdark"
  import transits.* from "./transits"
  import ttv.* from "./ttv"

  const TRACE: List[int]
  type Clause = (str, bool)
  type Fail = { l: int, clause: str }
  var l: int
  var givens: List[Givens]        // planets declared whose labels are yet to come
  var tms: List[Timing]           // the planets
  var srcs: List[(Givens, Labels)] // what they were given by
  var fails: List[Fail]
  var seen: str -> int

  // -- events -----------------------------------------------------------------
  // 0 NEW
  // 1 DECLARE    19 givens of one more planet
  // 2 LABELS     mode dlog n (index, value) * n, of that planet
  // 3 POSITION   j t planet(3) star(3) relative(3)
  // 4 VELOCITY   j t planet(3) star(3) relative(3)
  // 5 INTRANSIT  t texp count eccentric then rp per planet
  // 6 FLUX       j t rp u1 u2 flux
  // 7 EPHEMERIS  j t0 ttv_period period n (time, variation) * n
  // 8 DELAYED    j t planet(3) star(3) relative(3)
  // 9 RAISED
  // 10 RV        j t v(m/s)
  // 14 NUMBERS   code a b tol
  // 15 SLOPE     j t parameter k weights(3) derivative
  pure def v3(e: List[int], i: int): Vec = vec(e.nth(i), e.nth(i + 1), e.nth(i + 2))
  pure def givensOf(e: List[int]): Givens =
    { pm: e.nth(1), sm: e.nth(2), ek: e.nth(3), ok: e.nth(4), ik: e.nth(5), tk: e.nth(6),
      P: e.nth(7), a: e.nth(8), e: e.nth(9), w: e.nth(10), O: e.nth(11), iv: e.nth(12), tr: e.nth(13),
      mp: e.nth(14), ms: e.nth(15), rs: e.nth(16), rho: e.nth(17), dur: e.nth(18), ror: e.nth(19) }
  pure def labelsOf(e: List[int]): Labels = {
    pure val n = e.nth(3)
    { mode: e.nth(1), dlog: e.nth(2),
      idx: range(0, n).foldl(List(), (acc, k) => acc.append(e.nth(4 + 2 * k))),
      y: range(0, n).foldl(List(), (acc, k) => acc.append(e.nth(5 + 2 * k))) }
  }

  // within this of a midpoint between two transits either label will do
  pure def tieTol(tm: Timing): int = tm.el.P / 10^8
  // the labels come from sums over times: rounding, as a phase
  pure def tolOf(tm: Timing, A: int, t: int): int =
    2 * tolPos(orbitAt(tm, t), A, t) + mul(iabs(A), div(S / 10^9, sq(S - tm.el.e))) / 100

  pure def checkPosition(tm: Timing, e: List[int], delayed: bool): List[Clause] = {
    pure val t = e.nth(2)
    pure val el = orbitAt(tm, t)
    pure def at(A: int): Vec = posAt(el, A, if (delayed) t - delayAt(el, A, t) else t)
    pure def slack(A: int): int = if (not(delayed)) 0 else {
      pure val nd = mul(meanMotion(el), div(iabs(A), CLIGHT))
      mul(iabs(A), 20 * div(div(mul(sq(nd), sq(nd)), sq(sq(S - el.e))), sq(S - el.e)))
    }
    if (tied(tm.tts, t, if (delayed) tm.el.P / 1000 else tieTol(tm))) List() else
    [ (if (delayed) "ttv_planet_retarded" else "ttv_planet_position", vnear(v3(e, 3), at(el.aP), tolOf(tm, el.aP, t) + slack(el.aP))),
      (if (delayed) "ttv_star_retarded" else "ttv_star_position", vnear(v3(e, 6), at(el.aS), tolOf(tm, el.aS, t) + slack(el.aS))),
      (if (delayed) "ttv_relative_retarded" else "ttv_relative_position", vnear(v3(e, 9), at(0 - el.a), tolOf(tm, el.a, t) + slack(el.a))) ]
  }
  pure def checkVelocity(tm: Timing, e: List[int]): List[Clause] = {
    pure val t = e.nth(2)
    pure val el = orbitAt(tm, t)
    pure val p = planeAt(el, t)
    pure val k = div(meanMotion(el), sq(S - el.e))
    pure def tol(A: int): int = mul(tolOf(tm, A, t), k) + 2000
    if (tied(tm.tts, t, tieTol(tm))) List() else
    [ ("ttv_planet_velocity", vnear(v3(e, 3), velOf(el, p, el.aP), tol(el.aP))),
      ("ttv_star_velocity", vnear(v3(e, 6), velOf(el, p, el.aS), tol(el.aS))),
      ("ttv_relative_velocity", vnear(v3(e, 9), velOf(el, p, 0 - el.a), tol(el.a))) ]
  }
  pure def checkRV(tm: Timing, e: List[int]): List[Clause] = {
    pure val t = e.nth(2)
    pure val el = orbitAt(tm, t)
    pure val v = 0 - velOf(el, planeAt(el, t), el.aS).z
    pure val tol = mul(tolOf(tm, el.aS, t), div(meanMotion(el), sq(S - el.e))) + 20
    if (tied(tm.tts, t, tieTol(tm))) List()
    else [ ("ttv_radial_velocity", near(e.nth(3), mul(v, MS_PER), mul(tol, MS_PER) + 2000)) ]
  }
  pure def checkFlux(tm: Timing, e: List[int]): List[Clause] = {
    pure val t = e.nth(2)
    pure val el = orbitAt(tm, t)
    pure val f = fluxAt(el, e.nth(3), e.nth(4), e.nth(5), t)
    if (tied(tm.tts, t, tieTol(tm))) List()
    else [ ("ttv_flux", near(e.nth(6), f.v, f.tol + mul(div(e.nth(3), el.rs), div(tolOf(tm, el.a, t), el.rs)))) ]
  }
  // Near a transit the label is that transit's for the whole exposure
  pure def checkInTransit(ps: List[Timing], e: List[int]): List[Clause] = {
    pure val t = e.nth(1)
    pure val h = e.nth(2) / 2
    pure val idx = range(0, ps.length())
    pure def elAt(j: int): Elements = orbitAt(ps.nth(j), t)
    pure val unsure = idx.foldl(false, (acc, j) => or { acc,
      transits(ps.nth(j).el, e.nth(5 + j)) == EITHER, tied(ps.nth(j).tts, t, 2 * h + tieTol(ps.nth(j))) })
    pure val everyone = idx.foldl(true, (acc, j) => acc and transits(ps.nth(j).el, e.nth(5 + j)) == IN)
    pure val want = idx.foldl(OUT, (acc, j) =>
      if (transits(ps.nth(j).el, e.nth(5 + j)) == OUT) acc
      else or3(acc, exposed(elAt(j), e.nth(5 + j), t, h)))
    if (e.nth(3) > 1) [("ttv_in_transit_once", false)]
    else if (unsure) List()
    else if (want == IN) [("ttv_in_transit_complete", e.nth(3) == 1)]
    else if (want == OUT and (everyone or e.nth(4) == 0)) [("ttv_in_transit_exact", e.nth(3) == 0)]
    else List()
  }
  pure def checkEphemeris(tm: Timing, e: List[int]): List[Clause] = {
    pure val n = length(tm.obs)
    pure val scale = tm.obs.foldl(iabs(tm.line.t0), (acc, x) => imax(acc, iabs(x)))
    pure val tol = 1000 + (scale + length(tm.tts) * tm.line.P) / 10^11
    pure def all2(xs: List[int], o: int): bool = range(0, n).foldl(true, (ok, k) => ok and near(e.nth(6 + 2 * k + o), xs.nth(k), tol))
    [ ("ephemeris_t0", near(e.nth(2), tm.line.t0, tol)),
      ("ephemeris_period", near(e.nth(3), tm.line.P, tol)),
      ("ephemeris_shape_period", near(e.nth(4), tm.el.P, tol)),
      ("ephemeris_length", e.nth(5) == n),
      ("ephemeris_times", e.nth(5) == n and all2(tm.obs, 0)),
      ("ephemeris_variations", e.nth(5) == n and all2(tm.ttv, 1)) ]
  }
  // derivative of the relative position with respect to the time (parameter 0), the period (1), the
  // offset of the log-period (2), the reference transit (3), or the k-th timing (4)
  pure def checkSlope(tm: Timing, src: (Givens, Labels), e: List[int]): List[Clause] = {
    pure val t = e.nth(2)
    pure val g = src._1
    pure val lab = src._2
    pure def at(w: int, h: int): int = {
      pure val d = if (w == 0) tm else timing(
        if (w == 1) { ...g, P: g.P + h } else if (w == 3) { ...g, tr: g.tr + h } else g,
        if (w == 2) { ...lab, dlog: lab.dlog + h } else if (w == 4) { ...lab, y: lab.y.replaceAt(e.nth(4), lab.y.nth(e.nth(4)) + h) } else lab)
      pure val el = orbitAt(d, if (w == 0) t + h else t)
      pure val u = posAt(el, 0 - el.a, if (w == 0) t + h else t)
      mul(e.nth(5), u.x) + mul(e.nth(6), u.y) + mul(e.nth(7), u.z)
    }
    pure val w = e.nth(3)
    pure val cyc = 2 + iabs(t - tm.line.t0) / tm.el.P + length(tm.tts)
    pure val h = (if (w == 2) S else tm.el.P) / 10^7 / cyc
    pure val want = div(at(w, h) - at(w, 0 - h), 2 * h)
    pure val extent = mul(tm.el.a, iabs(e.nth(5)) + iabs(e.nth(6)) + iabs(e.nth(7)))
    pure val D = div(div(div(extent * cyc, if (w == 2) S else tm.el.P), S - tm.el.e), S - tm.el.e)
    if (tied(tm.tts, t, tm.el.P / 10^4) or atApoastron(orbitAt(tm, t), t)) List()
    else [("ttv_gradient", finite(e.nth(8)) and near(e.nth(8), want, iabs(want) / 10^6 + D / 10^6 + 10^7))]
  }
  pure def judge(ps: List[Timing], ss: List[(Givens, Labels)], e: List[int]): List[Clause] = {
    pure val k = e.nth(0)
    if (k == 9) [("no_exception", false)]
    else if (k == 14) [("agree", finite(e.nth(2)) and finite(e.nth(3)) and near(e.nth(2), e.nth(3), e.nth(4)))]
    else if (k < 3) List()
    else if (k == 5) checkInTransit(ps, e)
    else {
      pure val tm = ps.nth(e.nth(1))
      if (k == 3) checkPosition(tm, e, false)
      else if (k == 8) checkPosition(tm, e, true)
      else if (k == 4) checkVelocity(tm, e)
      else if (k == 6) checkFlux(tm, e)
      else if (k == 7) checkEphemeris(tm, e)
      else if (k == 10) checkRV(tm, e)
      else if (k == 15) checkSlope(tm, ss.nth(e.nth(1)), e)
      else [("known_event", false)]
    }
  }
  action init = all { l' = 0, givens' = List(), tms' = List(), srcs' = List(), fails' = List(), seen' = Map() }
  action step = all {
    l < TRACE.length(),
    val e = unpack(TRACE.nth(l), 24)
    val clauses = judge(tms, srcs, e)
    all {
      l' = l + 1,
      givens' = if (e.nth(0) == 1) List(givensOf(e)) else if (e.nth(0) == 0) List() else givens,
      tms' = if (e.nth(0) == 0) List()
        else if (e.nth(0) == 2) tms.append(timing(givens.nth(0), labelsOf(e))) else tms,
      srcs' = if (e.nth(0) == 0) List()
        else if (e.nth(0) == 2) srcs.append((givens.nth(0), labelsOf(e))) else srcs,
      fails' = clauses.foldl(fails, (acc, c) => if (c._2) acc else acc.append({ l: l, clause: c._1 })),
      seen' = clauses.foldl(seen, (acc, c) =>
        acc.put(c._1, 1 + if (acc.keys().contains(c._1)) acc.get(c._1) else 0))
    }
  }
}
