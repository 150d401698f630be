// -*- mode: Bluespec; -*-
/**
 * Trace validation for simple transit orbits.
 */
module simple_trace {
  import fx.* from "./fx"
  import limbdark.* from "./limbdark"
  import simple.* from "./simple"
  const TRACE: List[int]
  type Clause = (str, bool)
  type Fail = { l: int, clause: str }
  var l: int
  var cs: List[Chord]
  var fails: List[Fail]
  var seen: str -> int
  // 0 NEW
  // 1 DECLARE   P dur t0 b rs ror of one more planet
  // 3 POSITION  j t planet(3) star(3) relative(3)
  // 5 INTRANSIT t texp count useradii, then r per planet
  // 6 FLUX      j t r u1 u2 flux
  // 9 RAISED
  // 11 REFUSED  which refused(0/1)
  // 15 SLOPE    j t weights of x and y, parameter (0 t 1 P 2 duration 3 t0 4 b 5 ror 6 r_star), derivative
  // 14 NUMBERS  code a b tol
  pure def edge(c: Chord, t: int): int = (iabs(t) + iabs(c.t0) + c.P) / 10^13 + c.dur / 10^9
  pure def checkPosition(c: Chord, e: List[int]): List[Clause] = {
    pure val dt = since(c, e.nth(2))
    pure val v = speed(c)
    pure val tol = mul(v, (iabs(e.nth(2)) + iabs(c.t0) + c.P) / 10^14 * 4 + 10) + iabs(mul(v, dt)) / 10^11 + 1000
    pure val turn = c.P / 2 - iabs(dt) < edge(c, e.nth(2))
    pure val rim = iabs(iabs(dt) - c.dur / 2) < edge(c, e.nth(2))
    pure def x(i: int): bool = turn or near(e.nth(i), mul(v, dt), tol)
    pure def y(i: int): bool = near(e.nth(i), mul(c.b, c.rs), 1000)
    pure def z(i: int): bool = finite(e.nth(i)) and (rim or (if (iabs(dt) < c.dur / 2) e.nth(i) > 0 else e.nth(i) < 0))
    [ ("chord_x", x(3) and x(9)), ("chord_y", y(4) and y(10)), ("chord_front", z(5) and z(11)),
      ("chord_star_at_rest", and { e.nth(6) == 0, e.nth(7) == 0, e.nth(8) == 0 }),
      // first and last contact
      ("chord_contact", not(rim) or near(hypot(e.nth(9), e.nth(10)), mul(c.rs, S + c.ror), 4 * tol + mul(v, edge(c, e.nth(2))))) ]
  }
  pure val IN = 1
  pure val OUT = 0
  pure val EITHER = 2
  pure def or3(a: int, b: int): int =
    if (a == IN or b == IN) IN else if (a == EITHER or b == EITHER) EITHER else OUT
  pure def checkInTransit(es: List[Chord], e: List[int]): List[Clause] = {
    pure val t = e.nth(1)
    pure val want = range(0, length(es)).foldl(OUT, (acc, j) => {
      pure val c = es.nth(j)
      pure val lim = (if (e.nth(4) == 1) halfDur(c, e.nth(5 + j)) else c.dur / 2) + e.nth(2) / 2
      pure val d = iabs(since(c, t)) - lim
      pure val misses = e.nth(4) == 1 and mul(iabs(c.b), c.rs) - c.rs - e.nth(5 + j) > 0
      or3(acc, if (misses) OUT else if (d < 0 - edge(c, t)) IN else if (d > edge(c, t)) OUT else EITHER)
    })
    if (want == IN) [("chord_in_transit_complete", e.nth(3) == 1)]
    else if (want == OUT) [("chord_in_transit_exact", e.nth(3) == 0)] else List()
  }
  pure def checkFlux(c: Chord, e: List[int]): List[Clause] = {
    pure val dt = since(c, e.nth(2))
    pure val k = div(e.nth(3), c.rs)
    pure val tb = div(mul(speed(c), edge(c, e.nth(2))), c.rs)
    pure val b = div(hypot(mul(speed(c), dt), mul(c.b, c.rs)), c.rs)
    if (iabs(iabs(dt) - c.dur / 2) < edge(c, e.nth(2))) List()
    else if (iabs(dt) > c.dur / 2) [("chord_flux_zero", e.nth(6) == 0)]
    else [("chord_flux", near(e.nth(6), blockedFlux(e.nth(4), e.nth(5), b, k), fluxTol(b, k) + 4 * mul(k, tb)))]
  }
  // derivative of the position along the chord
  pure def checkSlope(c: Chord, e: List[int]): List[Clause] = {
    pure val t = e.nth(2)
    pure def at(w: int, h: int): int = {
      pure val d = if (w == 1) { ...c, P: c.P + h } else if (w == 2) { ...c, dur: c.dur + h } else if (w == 3) { ...c, t0: c.t0 + h }
        else if (w == 4) { ...c, b: c.b + h } else if (w == 5) { ...c, ror: c.ror + h } else if (w == 6) { ...c, rs: c.rs + h } else c
      mul(e.nth(3), mul(speed(d), since(d, if (w == 0) t + h else t))) + mul(e.nth(4), mul(d.b, d.rs))
    }
    pure val which = e.nth(5)
    pure val cyc = 1 + iabs(t - c.t0) / c.P
    pure val scale = if (which == 0 or which == 1 or which == 3) c.dur else if (which == 2) c.dur else if (which == 6) c.rs else S
    pure val h = imax(scale / 10^6 / cyc, 10^8)
    pure val want = div(at(which, h) - at(which, 0 - h), 2 * h)
    pure val far = mul(iabs(e.nth(3)), mul(speed(c), iabs(since(c, t)))) + c.rs
    if (c.P / 2 - iabs(since(c, t)) < c.P / 10^3) List()
    else [("chord_gradient", finite(e.nth(6)) and near(e.nth(6), want, iabs(want) / 10^5 + div(far, scale) * cyc / 10^6 + div(10^3, h) + 10^7))]
  }
  pure def judge(es: List[Chord], e: List[int]): List[Clause] = {
    pure val k = e.nth(0)
    if (k == 9) [("no_exception", false)]
    else if (k == 14) [("agree", finite(e.nth(2)) and finite(e.nth(3)) and near(e.nth(2), e.nth(3), e.nth(4)))]
    else if (k == 11) [("refused", e.nth(2) == 1)]
    else if (k < 2) List()
    else if (k == 5) checkInTransit(es, e)
    else if (k == 3) checkPosition(es.nth(e.nth(1)), e)
    else if (k == 15) checkSlope(es.nth(e.nth(1)), e)
    else if (k == 6) checkFlux(es.nth(e.nth(1)), e)
    else [("known_event", false)]
  }
  action init = all { l' = 0, cs' = List(), fails' = List(), seen' = Map() }
  action step = all {
    l < TRACE.length(),
    val e = unpack(TRACE.nth(l), 18)
    val clauses = judge(cs, e)
    all {
      l' = l + 1,
      cs' = if (e.nth(0) == 0) List() else if (e.nth(0) == 1)
        cs.append({ P: e.nth(1), dur: e.nth(2), t0: e.nth(3), b: e.nth(4), rs: e.nth(5), ror: e.nth(6) }) else cs,
      fails' = clauses.foldl(fails, (acc, c) => if (c._2) acc else acc.append({ l: l, clause: c._1 })),
      seen' = clauses.foldl(seen, (acc, c) =>
        acc.put(c._1, 1 + if (acc.keys().contains(c._1)) acc.get(c._1) else 0))
    }
  }
}
