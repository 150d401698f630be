// -*- mode: Bluespec; -*-
/** Theorems of the model itself, checked by `quint run` on random systems. */
module kepler_test {
  import fx.* from "./fx"
  import kepler.* from "./kepler"
  var el: Elements
  var t: int
  pure def mk(R: int): Givens = {
    pure def u(k: int, lo: int, hi: int): int = lo + (R / 10^(18 * k) % S) * (hi - lo) / S
    { pm: u(0, 0, 3), sm: u(1, 0, 5), ek: u(2, 0, 2), ok: u(3, 0, 2), ik: u(4, 0, 2), tk: u(5, 0, 3),
      P: u(6, S / 3, 100 * S), a: u(7, 5 * S, 300 * S), e: u(8, 0, 90 * S / 100), w: u(9, -PI, PI),
      O: u(10, -PI, PI), iv: u(11, 0, S), tr: u(12, -50 * S, 50 * S), mp: u(13, 0, S / 10),
      ms: u(14, S / 10, 2 * S), rs: u(15, S / 10, 2 * S), rho: u(16, S / 10, 20 * S), dur: S, ror: 0 }
  }
  pure def sane(g: Givens): Givens =
    if (g.pm == 2) { ...g, sm: 0, P: 3 * S, a: 5 * S + g.a / 10 } else g
  action init = { nondet R = oneOf(0.to(10^400)) all { el' = derive(sane(mk(R))), t' = 0 } }
  action step = {
    nondet R = oneOf(0.to(10^400))
    nondet s = oneOf((-1000 * S).to(1000 * S))
    all { el' = derive(sane(mk(R))), t' = s }
  }
  // Kepler's equation is solved
  val solved = {
    val frac = floorMod((t - el.tp) * S / el.P, S)
    val M = mul(TWOPI, frac)
    val E = eccAnomaly(M, el.e)
    near(floorMod(E - mul(el.e, sin(E)) - M + PI, TWOPI), PI, 20)
  }
  // energy: v^2/2 - 1/r = -1/2 and angular momentum sqrt(1-e^2), in units of a, n
  val integrals = {
    val p = planeAt(el, t)
    and { near(sq(p.vx) + sq(p.vy) - 2 * div(S, p.r), -S, 10^5),
          near(mul(p.x, p.vy) - mul(p.y, p.vx), el.se, 10^5),
          near(sq(p.x) + sq(p.y), sq(p.r), 10^5) }
  }
  // the velocity is the derivative of the position (central difference)
  val derivative = {
    val h = el.P / 10^6
    val p = planeAt(el, t)
    val d = posAt(el, S, t + h)
    val c = posAt(el, S, t - h)
    val v = velOf(el, p, S)
    val ome = S - el.e
    val tol = 10^10 + div(10^8, mul(sq(ome), sq(ome))) // n h^2 v'''/6
    vnear(vec(div(d.x - c.x, 2 * h), div(d.y - c.y, 2 * h), div(d.z - c.z, 2 * h)), v,
          mul(tol, meanMotion(el)) + tol)
  }
  // at t0 the planet crosses the star's disc at the impact parameter, in front
  val conjunction = {
    val u = vscale(rotate({ ...el, cO: S, sO: 0 }, planeAt(el, el.t0).x, planeAt(el, el.t0).y), -el.a)
    and { near(u.x, 0, el.a / 10^12), near(u.y, -mul(el.b, el.rs), el.a / 10^12), u.z >= 0 }
  }
  // Kepler's third law
  val third = near(FOURPI2 * el.a / GRAV * el.a / el.P * el.a / el.P, el.mt, 10 + el.mt / 10^13)
  // the barycentre does not move
  val barycentre = {
    val p = posAt(el, el.aP, t) val s = posAt(el, el.aS, t)
    vnear(vec(mul(el.mp, p.x) + mul(el.ms, s.x), mul(el.mp, p.y) + mul(el.ms, s.y),
              mul(el.mp, p.z) + mul(el.ms, s.z)), vec(0, 0, 0), 10^5 + el.a / 10^14)
  }
  val inv = and { solved, integrals, derivative, conjunction, third, barycentre }
}
