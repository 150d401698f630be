// -*- mode: Bluespec; -*-
/**
 * How the expected times are found: candidates from the floor of the first to
 * the ceiling of the last transit number, one after another, keeping those
 * inside the window.  Checked against the definition for all small windows.
 */
module expected_sm {
  import fx.* from "./fx"
  import expected.* from "./expected"
  pure val W = 6
  var lo: int
  var hi: int
  var P: int
  var t0: int
  var k: int
  var out: List[int]
  action init = {
    nondet a = oneOf((-W).to(W))
    nondet b = oneOf((-W).to(W))
    nondet p = oneOf(1.to(4))
    nondet t = oneOf((-5).to(5))
    all { a <= b, lo' = a, hi' = b, P' = p, t0' = t, k' = floorDiv(a - t, p), out' = List() }
  }
  val last = 0 - floorDiv(t0 - hi, P)
  action step = all {
    k <= last,
    val x = t0 + k * P
    out' = if (lo <= x and x <= hi) out.append(x) else out,
    k' = k + 1, lo' = lo, hi' = hi, P' = P, t0' = t0
  }
  val complete = and {
    k > last implies out == within(lo, hi, P, t0),
    // never anything outside, and increasing
    range(0, length(out)).foldl(true, (ok, i) => and { ok, lo <= out.nth(i), out.nth(i) <= hi,
      i == 0 or out.nth(i - 1) < out.nth(i) })
  }
}
