// -*- mode: Bluespec; -*-
module limbdark_test {
  import fx.* from "./fx"
  import limbdark.* from "./limbdark"
  var u1: int var u2: int var b: int var k: int
  action init = all { u1' = 0, u2' = 0, b' = 0, k' = S / 10 }
  action step = {
    nondet u = oneOf(0.to(7 * 10^17)) nondet v = oneOf(0.to(3 * 10^17))
    nondet x = oneOf(0.to(13 * 10^17)) nondet r = oneOf((10^15).to(3 * 10^17))
    all { u1' = u, u2' = v, b' = x, k' = r }
  }
  // bounds: between nothing and the brightest possible patch
  val bounded = {
    val f = blockedFlux(u1, u2, b, k)
    and { f <= 0, -mul(f, S - u1 / 3 - u2 / 6) <= sq(k) + fluxTol(b, k) }
  }
  // monotone: further from the centre blocks less
  val monotone = blockedFlux(u1, u2, b, k) <= blockedFlux(u1, u2, b + S / 100, k) + fluxTol(b, k) + fluxTol(b + S / 100, k)
  // a uniform disc: the area of the overlap of two circles
  val uniform = {
    val f = blockedFlux(0, 0, b, k)
    val area = if (b >= S + k) 0 else if (b <= S - k) mul(PI, sq(k)) else {
      val k0 = acos(div(sq(k) + sq(b) - S, 2 * mul(b, k)))
      val k1 = acos(div(S + sq(b) - sq(k), 2 * b))
      val s = sqrt(4 * sq(b) - sq(S + sq(b) - sq(k))) / 2
      mul(sq(k), k0) + k1 - s
    }
    near(-mul(f, PI), area, 4 * fluxTol(b, k))
  }
  val inv = and { bounded, monotone, uniform }
}
