// -*- mode: Bluespec; -*-
/**
 * The true anomaly of a mean anomaly: the direction, seen from the focus, of
 * the point of the ellipse that Kepler's equation E - e sin E = M gives.
 */
module anomaly_trace {
  import fx.* from "./fx"
  import kepler.* from "./kepler"
  const TRACE: List[int]
  type Clause = (str, bool)
  type Fail = { l: int, clause: str }
  var l: int
  var fails: List[Fail]
  var seen: str -> int
  // 0 NEW
  // 2 VALUE   M e f       true anomaly of one entry
  // 3 SLOPE   M e dM de   its derivatives
  // 4 NONE    number that must vanish: derivative with respect to another entry
  // 9 RAISED
  type Focus = { c: int, s: int, r: int, se: int, far: bool, blur: int }
  pure def fromFocus(M: int, e: int): Focus = {
    pure val sc = sincos(eccAnomaly(M, e))
    pure val r = S - mul(e, sc._2)
    pure val se = isqrt((S - e) * (S + e))
    pure val toApo = iabs(floorMod(M, TWOPI) - PI)
    { c: div(sc._2 - e, r), s: div(mul(se, sc._1), r), r: r, se: se,
      // (see atApoastron in kepler.qnt; the same library works with the tangent
      // of half the anomaly, which loses digits near apoastron)
      far: toApo < 65 * 10^11 * 7, blur: div(10^3, imax(toApo, 10^12)) }
  }
  // rounding of the mean anomaly, and of the solution of Kepler's equation
  pure def slack(M: int, e: int): int = iabs(M) / 10^15 + 10^4
  pure def checkValue(M: int, e: int, f: int): List[Clause] = {
    pure val p = fromFocus(M, e)
    pure val tol = mul(slack(M, e), div(S, sq(S - e))) * 4 + 10^4 + p.blur + if (p.far) 15 * 10^12 else 0
    [ ("true_anomaly_range", finite(f) and iabs(f) <= PI + 10),
      (if (e == 0) "true_anomaly_circular" else if (M > -PI and M < PI) "true_anomaly" else "true_anomaly_periodic",
        finite(f) and near(cos(f), p.c, tol) and near(sin(f), p.s, tol)) ]
  }
  pure def checkSlope(M: int, e: int, dM: int, de: int): List[Clause] = {
    pure val p = fromFocus(M, e)
    pure val wantM = div(p.se, sq(p.r))
    pure val wantE = div(mul(p.s, 2 * S + mul(e, p.c)), sq(p.se))
    pure val tol = mul(slack(M, e), div(div(S, sq(sq(S - e))), S - e)) * 20 + 10^8 + 10 * p.blur
    if (p.far) List() else
    [ ("true_anomaly_gradient", finite(dM) and finite(de) and near(dM, wantM, tol + wantM / 10^9) and near(de, wantE, tol + iabs(wantE) / 10^9)) ]
  }
  pure def judge(e: List[int]): List[Clause] = {
    pure val k = e.nth(0)
    if (k == 9) [("no_exception", false)]
    else if (k == 2) checkValue(e.nth(1), e.nth(2), e.nth(3))
    else if (k == 3) checkSlope(e.nth(1), e.nth(2), e.nth(3), e.nth(4))
    else if (k == 4) [("true_anomaly_elementwise", e.nth(1) == 0)]
    else List()
  }
  action init = all { l' = 0, fails' = List(), seen' = Map() }
  action step = all {
    l < TRACE.length(),
    val clauses = judge(unpack(TRACE.nth(l), 5))
    all {
      l' = l + 1,
      fails' = clauses.foldl(fails, (acc, c) => if (c._2) acc else acc.append({ l: l, clause: c._1 })),
      seen' = clauses.foldl(seen, (acc, c) =>
        acc.put(c._1, 1 + if (acc.keys().contains(c._1)) acc.get(c._1) else 0))
    }
  }
}
