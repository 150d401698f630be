// -*- mode: Bluespec; -*-
/**
 * Scenario generation: a scenario is a pure function of one random integer
 * ("entropy"), drawn by a nondeterministic action.  Slice k of the entropy is
 * a uniform 18-digit fraction.
 */
module gen {
  import fx.* from "./fx"
  pure val ENTROPY: int = 10^7200
  // for scenarios with tables of numbers
  pure val MORE: int = 10^9000
  pure def frac(R: int, k: int): int = R / 10^(18 * k) % S
  pure def uni(R: int, k: int, lo: int, hi: int): int = lo + frac(R, k) * (hi - lo) / S
  // integer in 0 .. n-1
  pure def pick(R: int, k: int, n: int): int = frac(R, k) * n / S
  pure def one(R: int, k: int, xs: List[int]): int = xs.nth(pick(R, k, length(xs)))
  // log-uniform in [lo, hi]
  pure def logu(R: int, k: int, lo: int, hi: int): int =
    exp(uni(R, k, ln(lo), ln(hi)))
  // fresh entropy for part j
  pure def part(R: int, j: int): int = R / 10^(18 * 24 * j)
}
