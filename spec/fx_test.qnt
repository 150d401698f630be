// -*- mode: Bluespec; -*-
/** Identities the arithmetic itself must satisfy; checked by `quint run`. */
module fx_test {
  import fx.* from "./fx"
  var x: int
  var y: int
  action init = all { x' = 0, y' = S }
  action step = {
    nondet d = oneOf(1.to(27))
    nondet a = oneOf((-(10^d)).to(10^d))
    nondet b = oneOf(1.to(10^d))
    all { x' = a, y' = b }
  }
  val pythagoras = { val p = sincos(x) near(p._1 * p._1 + p._2 * p._2, S * S, 8 * S) }
  val roots = {
    val r = isqrt(y) val c = icbrt(y)
    and { r * r <= y, (r + 1) * (r + 1) > y, c * c * c <= y, (c + 1) * (c + 1) * (c + 1) > y }
  }
  val angles = {
    val a = atan2(x, y)
    val p = sincos(a)
    val h = hypot(x, y)
    and { near(p._1 * h / S, x, 8 + h / 10^17), near(p._2 * h / S, y, 8 + h / 10^17) }
  }
  val expln = (y < 10^21 and y > 10^10) implies near(exp(ln(y)), y, 100 + y / 10^15)
  val sums = {
    val u = floorMod(x, fx(100)) val v = floorMod(y, fx(100))
    val p = sincos(u) val q = sincos(v) val r = sincos(u + v)
    near(r._1, mul(p._1, q._2) + mul(p._2, q._1), 12)
  }
  val inv = and { pythagoras, roots, angles, expln, sums }
}
