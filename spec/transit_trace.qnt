// -*- mode: Bluespec; -*-
/**
 * Trace validation for transits: which times are in transit, and how much
 * light is blocked.  See orbits_trace.qnt for the shape of a trace.
 */
module transit_trace {
  import fx.* from "./fx"
  import kepler.* from "./kepler"
  import limbdark.* from "./limbdark"
  import transits.* from "./transits"

  const TRACE: List[int]

  type Clause = (str, bool)
  type Fail = { l: int, clause: str }

  var l: int
  var els: List[Elements]          // the declared system
  var fails: List[Fail]
  var seen: str -> int             // how often each clause was judged

  // -- events ---------------------------------------------------------------
  // 0 NEW        forget the current system
  // 1 DECLARE    19 givens of one more planet
  // 9 RAISED     an admissible call raised an exception
  // 10 INTRANSIT t texp count eccentric(0/1) then rp per planet: how often the
  //              index of t was reported as in transit
  // 13 FLUX      j t rp u1 u2 flux delayed(0/1)
  // 14 NUMBERS   code a b tol : two recorded numbers must agree
  // 19 EXPOSURE  j t rp u1 u2 flux texp order oversample delayed(0/1)
  // 20 ECLIPSES  j t rp u1 u2 v1 v2 brightness flux texp order oversample delayed(0/1)
  // 21 REJECTED  order rejected(0/1): an integration order was (not) rejected
  // 22 RATIO     u1 u2 depth b ratio jacobian
  pure def isKind(e: List[int], k: int): bool = e.nth(0) == k

  pure def v3(e: List[int], i: int): Vec = vec(e.nth(i), e.nth(i + 1), e.nth(i + 2))

  pure def givensOf(e: List[int]): Givens =
    { pm: e.nth(1), sm: e.nth(2), ek: e.nth(3), ok: e.nth(4), ik: e.nth(5), tk: e.nth(6),
      P: e.nth(7), a: e.nth(8), e: e.nth(9), w: e.nth(10), O: e.nth(11), iv: e.nth(12), tr: e.nth(13),
      mp: e.nth(14), ms: e.nth(15), rs: e.nth(16), rho: e.nth(17), dur: e.nth(18), ror: e.nth(19) }

  pure def checkInTransit(es: List[Elements], e: List[int]): List[Clause] = {
    pure val t = e.nth(1)
    pure val h = e.nth(2) / 2
    pure val got = e.nth(3) == 1
    pure val idx = range(0, es.length())
    pure val ecc = e.nth(4) == 1
    // a planet whose conjunction is grazing is not judged
    pure val unsure = idx.foldl(false, (acc, j) => acc or transits(es.nth(j), e.nth(5 + j)) == EITHER)
    pure val everyone = idx.foldl(true, (acc, j) => acc and transits(es.nth(j), e.nth(5 + j)) == IN)
    pure val want = idx.foldl(OUT, (acc, j) =>
      if (transits(es.nth(j), e.nth(5 + j)) == OUT) acc
      else or3(acc, exposed(es.nth(j), e.nth(5 + j), t, h)))
    if (e.nth(3) > 1) [("in_transit_once", false)]
    else if (unsure) List()
    else if (want == IN) [("in_transit_complete", got)]
    // if some planet on an eccentric orbit never transits, every time may be reported
    else if (want == OUT and (everyone or not(ecc))) [("in_transit_exact", e.nth(3) == 0)]
    else List()
  }

  // The instant at which the light left that is received at t: both eclipses
  // are seen where the planet is relative to the star at that instant.
  pure def left(el: Elements, delayed: int, t: int): int = if (delayed == 1) t - delayAt(el, -el.a, t) else t
  // (the retarded time is only found to second order)
  pure def delaySlack(el: Elements, delayed: int, rp: int): int = if (delayed == 1) sq(div(rp, el.rs)) / 10^6 else 0

  pure def checkFlux(el: Elements, e: List[int]): List[Clause] = {
    pure val t = e.nth(2)
    pure val flux = e.nth(6)
    pure val f = fluxAt(el, e.nth(3), e.nth(4), e.nth(5), left(el, e.nth(7), t))
    pure val slack = delaySlack(el, e.nth(7), e.nth(3))
    [ (if (f.v == 0) "flux_out_of_transit" else if (e.nth(7) == 1) "flux_delayed" else "flux_in_transit",
       near(flux, f.v, f.tol + slack)),
      ("flux_never_positive", flux <= 10^4) ]
  }

  pure def checkExposure(el: Elements, e: List[int]): List[Clause] = {
    pure val f = integrate(e.nth(8), e.nth(9), e.nth(2), e.nth(7),
      s => fluxAt(el, e.nth(3), e.nth(4), e.nth(5), left(el, e.nth(10), s)))
    [ (if (e.nth(10) == 1) "exposure_delayed" else if (e.nth(8) == 0) "exposure_midpoint" else if (e.nth(8) == 1) "exposure_trapezoid" else "exposure_simpson",
       near(e.nth(6), f.v, f.tol + delaySlack(el, e.nth(10), e.nth(3)))) ]
  }

  // -- both eclipses -------------------------------------------------------------
  pure def checkEclipses(el: Elements, e: List[int]): List[Clause] = {
    pure val rp = e.nth(3)
    pure val light = mul(e.nth(8), sq(div(rp, el.rs)))
    pure val none = e.nth(10) == 0
    pure def first(s: int): Value = fluxAt(el, rp, e.nth(4), e.nth(5), left(el, e.nth(13), s))
    pure def second(s: int): Value = occultAt(el, rp, e.nth(6), e.nth(7), left(el, e.nth(13), s))
    pure val f1 = if (none) first(e.nth(2)) else integrate(e.nth(11), e.nth(12), e.nth(2), e.nth(10), first)
    pure val f2 = if (none) second(e.nth(2)) else integrate(e.nth(11), e.nth(12), e.nth(2), e.nth(10), second)
    pure val want = div(f1.v + mul(light, f2.v), S + light)
    pure val tol = f1.tol + mul(light, f2.tol) + delaySlack(el, e.nth(13), rp) + (if (e.nth(13) == 1) light / 10^6 else 0)
    [ (if (e.nth(13) == 1) (if (f2.v == 0) "eclipse_primary_delayed" else "eclipse_secondary_delayed") else if (f1.v == 0 and f2.v == 0) "eclipses_none" else if (f2.v == 0) "eclipse_primary"
       else if (f2.v == 0 - S) "eclipse_secondary_total" else "eclipse_secondary",
       near(e.nth(9), want, tol)) ]
  }

  // Small planets: depth = I(b)/<I> k^2, so dk/d(depth) = k/(2 depth)
  pure def checkRatio(e: List[int]): List[Clause] = {
    pure val u1 = e.nth(1)
    pure val u2 = e.nth(2)
    pure val mu = isqrt((S - iabs(e.nth(4))) * (S + iabs(e.nth(4))))
    pure val depth = mul(div(intensity(u1, u2, mu), div(discFlux(u1, u2), PI)), sq(e.nth(5)))
    [ ("ratio_depth", near(depth, e.nth(3), 10^4 + e.nth(3) / 10^7)),
      ("ratio_positive", e.nth(5) >= 0),
      ("ratio_jacobian", near(mul(e.nth(6), 2 * e.nth(3)), e.nth(5), 10^4 + e.nth(5) / 10^9)) ]
  }

  pure def judge(es: List[Elements], e: List[int]): List[Clause] = {
    pure val k = e.nth(0)
    if (k == 9) [("no_exception", false)]
    else if (k == 10) checkInTransit(es, e)
    else if (k == 14) [("agree", finite(e.nth(2)) and finite(e.nth(3)) and near(e.nth(2), e.nth(3), e.nth(4)))]
    else if (k == 21) [("order_rejected", e.nth(2) == 1)]
    else if (k == 22) checkRatio(e)
    else if (k < 2) List()
    else {
      pure val el = es.nth(e.nth(1))
      if (k == 13) checkFlux(el, e)
      else if (k == 19) checkExposure(el, e)
      else if (k == 20) checkEclipses(el, e)
      else [("known_event", false)]
    }
  }

  action init = all { l' = 0, els' = List(), fails' = List(), seen' = Map() }

  action step = all {
    l < TRACE.length(),
    val e = unpack(TRACE.nth(l), 24)
    val clauses = judge(els, e)
    all {
      l' = l + 1,
      els' = if (isKind(e, 0)) List() else if (isKind(e, 1)) els.append(derive(givensOf(e))) else els,
      fails' = clauses.foldl(fails, (acc, c) => if (c._2) acc else acc.append({ l: l, clause: c._1 })),
      seen' = clauses.foldl(seen, (acc, c) =>
        acc.put(c._1, 1 + if (acc.keys().contains(c._1)) acc.get(c._1) else 0))
    }
  }
}
