// -*- mode: Bluespec; -*-
/** Mean anomalies and eccentricities. */
module anomaly_gen {
  import fx.* from "./fx"
  import gen.* from "./gen"
  type Scenario = { ok: bool, M: List[int], e: List[int], x: List[int] }
  var scn: Scenario
  pure def mean(Q: int): int =
    one(Q, 0, [uni(Q, 1, -PI, PI), uni(Q, 1, -PI, PI), uni(Q, 1, -PI, PI), uni(Q, 1, -50 * S, 50 * S),
      uni(Q, 1, -20000 * S, 20000 * S), (pick(Q, 1, 13) - 6) * HALFPI, (pick(Q, 1, 13) - 6) * HALFPI,
      (pick(Q, 1, 7) - 3) * TWOPI + uni(Q, 2, -S / 100, S / 100),
      (2 * pick(Q, 1, 7) - 5) * PI + uni(Q, 2, -S / 100, S / 100)])
  pure def ecc(Q: int): int =
    one(Q, 3, [0, uni(Q, 4, 0, S), uni(Q, 4, 0, S), uni(Q, 4, 0, S), uni(Q, 4, 0, S / 100), uni(Q, 4, S * 9 / 10, S * 99 / 100),
      S - logu(Q, 4, S / 10^4, S / 10)])
  pure def mk(R: int): Scenario = {
    pure val n = one(R, 0, [1, 2, 3, 4, 6])
    pure val Q = range(0, n).foldl(List(), (acc, i) => acc.append(part(R, 1 + i)))
    { ok: true, M: range(0, n).foldl(List(), (acc, i) => acc.append(mean(Q.nth(i)))),
      e: range(0, n).foldl(List(), (acc, i) => acc.append(ecc(Q.nth(i)))), x: List(pick(R, 1, 1000000)) }
  }
  action init = scn' = { ok: false, M: List(), e: List(), x: List() }
  action step = { nondet R = oneOf(0.to(ENTROPY)) scn' = mk(R) }
}
