// -*- mode: Bluespec; -*-
module simple_gen {
  import fx.* from "./fx"
  import gen.* from "./gen"
  import simple.* from "./simple"
  const NT: int
  type Scenario = { ok: bool, c: List[Chord], form: List[int], times: List[int], r: List[int], texp: List[int], u1: int, u2: int, x: List[int] }
  var scn: Scenario
  pure def mkChord(R: int, rs: int, f: List[int]): Chord = {
    pure val P = logu(R, 0, S / 2, 300 * S)
    pure val ror = if (f.nth(2) == 0) 0 else uni(R, 1, S / 100, 2 * S / 10)
    { P: P, dur: mul(P, logu(R, 2, S / 200, S / 10)), t0: if (f.nth(0) == 0) 0 else one(R, 5, [2450000 * S, 0, 0, 0, 0, 0]) + uni(R, 3, 0 - 40 * S, 2500 * S),
      b: if (f.nth(1) == 0) 0 else mul(S + ror, uni(R, 4, 0 - 96 * S / 100, 96 * S / 100)), rs: rs, ror: ror }
  }
  pure def mk(R: int): Scenario = {
    pure val nb = one(R, 0, [1, 1, 2, 3])
    // is t0, b, ror, r_star given; one number, an array or a list
    pure val f = [imin(1, pick(R, 1, 4)), imin(1, pick(R, 2, 4)), imin(1, pick(R, 3, 4)), imin(1, pick(R, 4, 3)), pick(R, 5, 3)]
    pure val rs = if (f.nth(3) == 0) S else logu(R, 6, S / 10, 5 * S)
    pure val cs = range(0, nb).foldl(List(), (acc, j) => acc.append(mkChord(part(R, j + 1), rs, f)))
    pure val times = range(0, NT).foldl(List(), (acc, i) => {
      pure val Q = part(R, 4 + i / 4)
      pure val o = 6 * (i % 4)
      pure val c = cs.nth(pick(Q, o, nb))
      pure val cyc = one(Q, o + 1, [0, 0, pick(Q, o + 2, 7) - 3, pick(Q, o + 2, 1001) - 500])
      pure val dt = one(Q, o + 3, [0, uni(Q, o + 4, 0 - c.dur, c.dur), uni(Q, o + 4, 0 - c.dur, c.dur), uni(Q, o + 4, 0 - c.dur, c.dur),
        c.dur / 2, 0 - c.dur / 2, c.dur * 49 / 100, 0 - c.dur * 51 / 100, uni(Q, o + 4, 0 - c.P / 2, c.P / 2)])
      acc.append(c.t0 + cyc * c.P + dt)
    })
    { ok: true, c: cs, form: f, times: times,
      // radii: matching the chord, or any
      r: cs.foldl(List(), (acc, c) => acc.append(if (pick(R, 7, 2) == 0 and c.ror > 0) mul(c.ror, c.rs) else mul(c.rs, uni(R, 8 + length(acc), S / 100, 2 * S / 10)))),
      // shorter or longer than a transit
      texp: [one(R, 12, [0, uni(R, 13, S / 1000, S / 20), mul(cs.nth(0).dur, uni(R, 13, S / 2, 4 * S))]), pick(R, 14, 2)],
      u1: uni(R, 15, 0, 6 * S / 10), u2: uni(R, 16, 0, 3 * S / 10), x: List(pick(R, 17, 1000000)) }
  }
  action init = scn' = { ok: false, c: List(), form: List(), times: List(), r: List(), texp: List(), u1: 0, u2: 0, x: List() }
  action step = { nondet R = oneOf(0.to(ENTROPY)) scn' = mk(R) }
}
