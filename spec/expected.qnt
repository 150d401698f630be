// -*- mode: Bluespec; -*-
/**
 * The transits t0 + k P that fall in a closed window.
 */
module expected {
  import fx.* from "./fx"
  // the definition, as the numbers of the first and the last such transit
  pure def firstIn(lo: int, P: int, t0: int): int = 0 - floorDiv(t0 - lo, P)
  pure def lastIn(hi: int, P: int, t0: int): int = floorDiv(hi - t0, P)
  pure def within(lo: int, hi: int, P: int, t0: int): List[int] =
    range(firstIn(lo, P, t0), imax(firstIn(lo, P, t0), lastIn(hi, P, t0) + 1))
      .foldl(List(), (acc, k) => acc.append(t0 + k * P))
}
