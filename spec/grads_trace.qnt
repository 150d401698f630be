// -*- mode: Bluespec; -*-
/** Trace validation for gradients.  See orbits_trace.qnt for the shape of a trace. */
module grads_trace {
  import fx.* from "./fx"
  import kepler.* from "./kepler"
  import grads.* from "./grads"
  const TRACE: List[int]
  type Clause = (str, bool)
  type Fail = { l: int, clause: str }
  var l: int
  var gs: List[Givens]
  var fails: List[Fail]
  var seen: str -> int
  // 0 NEW
  // 1 DECLARE   19 givens of one more planet
  // 2 SLOPE     j t K quantity weights(3) parameter derivative
  // 3 FLUXSLOPE j t rp u1 u2 parameter derivative
  // 5 EXPOSURESLOPE j t rp u1 u2 parameter derivative texp order oversample
  // 4 NONE      number that must vanish: derivative with respect to another planet's parameter
  // 9 RAISED
  pure def givensOf(e: List[int]): Givens =
    { pm: e.nth(1), sm: e.nth(2), ek: e.nth(3), ok: e.nth(4), ik: e.nth(5), tk: e.nth(6),
      P: e.nth(7), a: e.nth(8), e: e.nth(9), w: e.nth(10), O: e.nth(11), iv: e.nth(12), tr: e.nth(13),
      mp: e.nth(14), ms: e.nth(15), rs: e.nth(16), rho: e.nth(17), dur: e.nth(18), ror: e.nth(19) }
  pure def label(what: int): str =
    if (what >= 20) "gradient_attribute" else if (what == 11) "gradient_retarded" else if (what == 12) "gradient_separation"
    else if (what == 13) "gradient_position_angle" else if (what < 3) "gradient_position" else if (what < 6) "gradient_velocity" else if (what < 8) "gradient_rv" else "gradient_acceleration"
  pure def judge(ps: List[Givens], e: List[int]): List[Clause] = {
    pure val k = e.nth(0)
    if (k == 9) [("no_exception", false)]
    else if (k == 4) [("gradient_of_others", e.nth(1) == 0)]
    else if (k == 2) {
      pure val p = { g: ps.nth(e.nth(1)), t: e.nth(2), rp: 0, u1: 0, u2: 0, K: e.nth(3) }
      // (a difference quotient says nothing about instants a million periods away)
      if (cycles(derive(p.g), p.t) > 20000) List() else
      // (the periastron that belongs to a reference transit at apastron may be
      // the one before or the one after)
      if (e.nth(4) >= 27 and { pure val el = derive(p.g) 2 * iabs(el.t0 - el.tp) > el.P - el.P / 10^6 }) List() else
      if ((e.nth(4) == 12 or e.nth(4) == 13) and not(apart(p))) List() else
      pure val s = if (e.nth(4) >= 20) attributeSlope(e.nth(4), p, e.nth(8))
        else if (e.nth(4) == 12 or e.nth(4) == 13) skySlope(e.nth(4), p, e.nth(8))
        else slope(e.nth(4), [e.nth(5), e.nth(6), e.nth(7)], p, e.nth(8))
      [ (label(e.nth(4)), finite(e.nth(9)) and near(e.nth(9), s.v, s.tol)) ]
    } else if (k == 3) {
      pure val p = { g: ps.nth(e.nth(1)), t: e.nth(2), rp: e.nth(3), u1: e.nth(4), u2: e.nth(5), K: 0 }
      if (not(smooth(discsAt(p)))) List()
      else {
        pure val s = fluxSlope(p, e.nth(6))
        [ (if (s.tol == DARK) "gradient_no_transit" else "gradient_flux", finite(e.nth(7)) and near(e.nth(7), s.v, s.tol)) ]
      }
    } else if (k == 5) {
      pure val p = { g: ps.nth(e.nth(1)), t: e.nth(2), rp: e.nth(3), u1: e.nth(4), u2: e.nth(5), K: 0 }
      if (not(exposureSmooth(p, e.nth(8), e.nth(9), e.nth(10)))) List()
      else {
        pure val s = exposureSlope(p, e.nth(6), e.nth(8), e.nth(9), e.nth(10))
        [ ("gradient_exposure", finite(e.nth(7)) and near(e.nth(7), s.v, s.tol)) ]
      }
    } else List()
  }
  action init = all { l' = 0, gs' = List(), fails' = List(), seen' = Map() }
  action step = all {
    l < TRACE.length(),
    val e = unpack(TRACE.nth(l), 20)
    val clauses = judge(gs, e)
    all {
      l' = l + 1,
      gs' = if (e.nth(0) == 0) List() else if (e.nth(0) == 1) gs.append(givensOf(e)) else gs,
      fails' = clauses.foldl(fails, (acc, c) => if (c._2) acc else acc.append({ l: l, clause: c._1 })),
      seen' = clauses.foldl(seen, (acc, c) =>
        acc.put(c._1, 1 + if (acc.keys().contains(c._1)) acc.get(c._1) else 0))
    }
  }
}
