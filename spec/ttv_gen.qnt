// -*- mode: Bluespec; -*-
/**
 * Generation of timing orbits and of observation times around their transits.
 */
module ttv_gen {
  import fx.* from "./fx"
  import gen.* from "./gen"
  import kepler.* from "./kepler"
  import ttv.* from "./ttv"

  const NT: int
  type Scenario = {
    ok: bool, g: List[Givens], labs: List[Labels], times: List[int],
    rp: List[int], texp: List[int], u1: int, u2: int, inds: bool, x: List[int]
  }
  var scn: Scenario

  type Flags = { sm: int, ek: int, ok: int, ik: int, mode: int, ms: int, rs: int, rho: int, gaps: bool, tk: int, epoch: int }

  pure def mkFlags(R: int): Flags = {
    pure val mode = one(R, 4, [0, 0, 1, 1, 2, 3])
    { sm: one(R, 0, [0, 1, 1, 2, 3, 4]), ek: one(R, 1, [0, 1, 1, 2]), ok: pick(R, 2, 2),
      ik: one(R, 3, [0, 1, 2, 2]), mode: mode, gaps: pick(R, 5, 2) == 0,
      // (sometimes Julian dates)
      epoch: one(R, 23, [2450000 * S, 0, 0, 0, 0, 0, 0, 0]),
      tk: if (mode == 0) one(R, 9, [0, 1, 1, 2]) else 1,
      ms: logu(R, 6, S / 10, 3 * S), rs: logu(R, 7, S / 10, 5 * S), rho: logu(R, 8, S / 10, 30 * S) }
  }

  pure def mkBody(f: Flags, R: int): Givens =
    { pm: 0, sm: f.sm, ek: f.ek, ok: f.ok, ik: f.ik,
      // the reference: a transit, or (for timing variations) a periastron
      tk: f.tk,
      P: logu(R, 0, S, 60 * S), a: S,
      e: one(R, 1, [0, uni(R, 2, 0, S / 10), uni(R, 2, 0, S / 2), uni(R, 2, 0, 70 * S / 100)]),
      w: uni(R, 4, 0 - PI, PI), O: uni(R, 5, 0 - PI, PI),
      iv: if (f.ik == 2) uni(R, 6, 0 - S, S) else HALFPI + uni(R, 6, 0 - S / 20, S / 20),
      tr: f.epoch + uni(R, 8, 0 - 30 * S, 30 * S),
      mp: one(R, 9, [0, uni(R, 10, 0, S / 100000), uni(R, 10, 0, S / 20)]),
      ms: f.ms, rs: f.rs, rho: f.rho, dur: 0, ror: 0 }

  pure def mkLabels(f: Flags, g: Givens, R: int): Labels = {
    // (a long time between observed transits, now and then)
    pure val far = f.gaps and pick(R, 22, 8) == 0
    pure val n = if (far) 4 + pick(R, 0, 3) else 2 + pick(R, 0, 6)
    // transit numbers, with gaps if there are any, from some first one
    pure val up = range(0, n).foldl((List(), if (f.gaps) pick(R, 1, 3) else 0), (acc, k) =>
      (acc._1.append(acc._2), acc._2 + 1 + (if (far) one(R, 2 + k, [0, 35, 70]) else if (f.gaps) one(R, 2 + k, [0, 0, 1, 2]) else 0)))._1
    pure val idx = if (f.gaps and pick(R, 10, 4) == 0)
      range(0, n).foldl(List(), (acc, k) => acc.append(up.nth(n - 1 - k))) else up
    pure val amp = one(R, 11, [0, g.P / 1000, g.P / 50, g.P / 8])
    pure val y = range(0, n).foldl(List(), (acc, k) => {
      pure val o = if (amp == 0) 0 else uni(R, 12 + k, 0 - amp, amp)
      acc.append(if (f.mode == 0) o else g.tr + g.P * idx.nth(k) + o)
    })
    { mode: f.mode, dlog: if (f.mode == 2) uni(R, 21, 0 - S / 50, S / 50) else 0, idx: idx, y: y }
  }
  pure def sane(g: Givens, tm: Timing): bool = and {
    tm.el.ms > S / 100, tm.line.P > g.P / 2, tm.line.P < 2 * g.P,
    mul(tm.el.a, S - tm.el.e) > mul(tm.el.rs, 13 * S / 10),
    iabs(tm.el.ci) < 98 * S / 100,
    (g.ek != 0) implies (S + tm.el.sw > S / 10000),
    // transits in order, less than two periods apart
    range(1, length(tm.tts)).foldl(true, (ok, k) => and { ok,
      tm.tts.nth(k) - tm.tts.nth(k - 1) > tm.line.P / 4, tm.tts.nth(k) - tm.tts.nth(k - 1) < 19 * tm.line.P / 10 })
  }
  pure def mkTime(tms: List[Timing], R: int, k: int): int = {
    pure val tm = tms.nth(pick(R, k, length(tms)))
    pure val n = length(tm.tts)
    pure val j = pick(R, k + 1, n)
    pure val width = mul(tm.el.P, div(tm.el.rs, 2 * tm.el.a))
    pure val how = pick(R, k + 2, 8)
    if (how <= 3) tm.tts.nth(j) + uni(R, k + 3, 0 - width, width)
    else if (how == 4 and j + 1 < n) (tm.tts.nth(j) + tm.tts.nth(j + 1)) / 2 + uni(R, k + 3, 0 - tm.el.P / 50, tm.el.P / 50)
    else if (how == 5) tm.tts.nth(0) - (1 + pick(R, k + 4, 4)) * tm.el.P + uni(R, k + 3, 0 - width, width)
    else if (how == 6) tm.tts.nth(n - 1) + (1 + pick(R, k + 4, 4)) * tm.el.P + uni(R, k + 3, 0 - width, width)
    else tm.tts.nth(j) + uni(R, k + 3, 0 - tm.el.P / 2, tm.el.P / 2)
  }
  pure def mkScenario(R: int): Scenario = {
    pure val f = mkFlags(R)
    pure val nb = one(R, 10, [1, 1, 2, 3])
    pure val gs = range(0, nb).foldl(List(), (acc, j) => acc.append(mkBody(f, part(R, j + 1))))
    pure val labs = range(0, nb).foldl(List(), (acc, j) => acc.append(mkLabels(f, gs.nth(j), part(R, j + 4))))
    pure val tms = range(0, nb).foldl(List(), (acc, j) => acc.append(timing(gs.nth(j), labs.nth(j))))
    pure val good = range(0, nb).foldl(true, (acc, j) => acc and sane(gs.nth(j), tms.nth(j)))
    { ok: good, g: gs, labs: labs, inds: f.gaps,
      times: if (not(good)) List() else range(0, NT).foldl(List(), (acc, k) => acc.append(mkTime(tms, part(R, 7), 5 * k))),
      rp: range(0, nb).foldl(List(), (acc, j) => acc.append(mul(tms.nth(j).el.rs, uni(R, 13 + j, S / 100, 15 * S / 100)))),
      texp: [one(R, 16, [0, uni(R, 17, S / 1000, S / 20)]), pick(R, 18, 2)],
      u1: uni(R, 19, 0, 6 * S / 10), u2: uni(R, 20, 0, 3 * S / 10),
      x: List(pick(R, 21, 1000000)) }
  }
  pure val EMPTY: Scenario = { ok: false, g: List(), labs: List(), times: List(), rp: List(), texp: List(), u1: 0, u2: 0, inds: false, x: List() }
  action init = scn' = EMPTY
  action step = { nondet R = oneOf(0.to(ENTROPY)) scn' = mkScenario(R) }
}
