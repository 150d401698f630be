// -*- mode: Bluespec; -*-
/**
 * Simple transit orbits: a straight chord at constant speed.
 */
module simple {
  import fx.* from "./fx"
  type Chord = { P: int, dur: int, t0: int, b: int, rs: int, ror: int }
  // time since the nearest mid-transit
  pure def since(c: Chord, t: int): int = floorMod(t - c.t0 + c.P / 2, c.P) - c.P / 2
  // half the length of the chord to the outer contacts, for a body of radius r
  pure def halfChord(c: Chord, r: int): int = isqrt((c.rs + r - mul(c.b, c.rs)) * (c.rs + r + mul(c.b, c.rs)))
  pure def speed(c: Chord): int = div(2 * halfChord(c, mul(c.rs, c.ror)), c.dur)
  // half the duration of the transit of a body of radius r
  pure def halfDur(c: Chord, r: int): int = div(halfChord(c, r), speed(c))
}
