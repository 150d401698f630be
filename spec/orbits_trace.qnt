// -*- mode: Bluespec; -*-
/**
 * Trace validation for orbits: the state is the system that was declared, and
 * every recorded call on the implementation is an action that is only
 * consistent with the specification if all its clauses hold.  The verdict is
 * total: a clause that fails is recorded by name and the rest of the trace is
 * still judged.
 */
module orbits_trace {
  import fx.* from "./fx"
  import kepler.* from "./kepler"
  import orbits_rules.* from "./orbits_rules"

  const TRACE: List[int]

  type Fail = { l: int, clause: str }

  var l: int
  var els: List[Elements]          // the declared system
  var gs: List[Givens]             // and how it was specified
  var fails: List[Fail]
  var seen: str -> int             // how often each clause was judged

  // -- events ---------------------------------------------------------------
  // 0 NEW        forget the current system
  // 1 DECLARE    19 givens of one more planet
  // 2 POSITION   j t  planet(3) star(3) relative(3)
  // 3 VELOCITY   j t  planet(3) star(3) relative(3)
  // 4 ACCEL      j t  planet(3) star(3) relative(3)
  // 5 ANGLES     j t parallax  sep pa  planet(3) star(3) relative(3), in arcsec
  // 6 ATTRS      j  a P m_star r_star rho_star m_planet incl cos_incl sin_incl b t0 t_peri ecc omega Omega a_planet a_star m_total n tref
  // 7 RV         j t  default m/s, km/s, R_sun/day, K, rv(K)
  // 8 DELAYED    j t  planet(3) star(3) relative(3)
  // 18 DELAYEDARC j t parallax sep pa planet(3) star(3) relative(3), delayed and in arcsec
  // 9 RAISED     code: an admissible call raised an exception
  // 12 PERIASTRON j t_periastron relative(3), at another time relative(3)
  // 11 REFERENCE  j k t0+kP  relative(3), cycle later relative(3)
  // 15 CONTACT   j t relative(3): an instant of first or last contact
  // 16 DURJAC    j  da/dD da_planet/dD da_star/dD drho/dD as reported
  // 17 BJAC      j  dcos(i)/db as reported
  // 14 NUMBERS   code a b tol : two recorded numbers must agree
  pure def judge(es: List[Elements], gv: List[Givens], e: List[int]): List[Clause] = {
    pure val k = e.nth(0)
    if (k == 9) [("no_exception", false)]
    else if (k == 14) [("agree", finite(e.nth(2)) and finite(e.nth(3)) and near(e.nth(2), e.nth(3), e.nth(4)))]
    else if (k < 2) List()
    else {
      pure val el = es.nth(e.nth(1))
      if (k == 2) checkPosition(el, e)
      else if (k == 3) checkVelocity(el, e)
      else if (k == 4) checkAccel(el, e)
      else if (k == 5) checkAngles(el, e)
      else if (k == 6) checkAttrs(el, e)
      else if (k == 7) checkRV(el, e)
      else if (k == 8) checkDelayed(el, e)
      else if (k == 18) checkDelayedArc(el, e)
      else if (k == 11) checkReference(el, e)
      else if (k == 12) checkPeriastron(el, e)
      else if (k == 15) checkContact(el, gv.nth(e.nth(1)), e)
      else if (k == 16) checkDurJac(gv.nth(e.nth(1)), e)
      else if (k == 17) checkBJac(el, e)
      else [("known_event", false)]
    }
  }

  action init = all { l' = 0, els' = List(), gs' = List(), fails' = List(), seen' = Map() }

  action step = all {
    l < TRACE.length(),
    val e = unpack(TRACE.nth(l), 24)
    val clauses = judge(els, gs, e)
    all {
      l' = l + 1,
      els' = if (isKind(e, 0)) List() else if (isKind(e, 1)) els.append(derive(givensOf(e))) else els,
      gs' = if (isKind(e, 0)) List() else if (isKind(e, 1)) gs.append(givensOf(e)) else gs,
      fails' = clauses.foldl(fails, (acc, c) => if (c._2) acc else acc.append({ l: l, clause: c._1 })),
      seen' = clauses.foldl(seen, (acc, c) =>
        acc.put(c._1, 1 + if (acc.keys().contains(c._1)) acc.get(c._1) else 0))
    }
  }
}
