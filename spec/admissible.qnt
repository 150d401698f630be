// -*- mode: Bluespec; -*-
/**
 * Which sets of parameters define a Keplerian orbit.
 *
 * A set of parameters is a number: bit i is set if parameter i is given.
 * `verdict` states the documented rules.  admissible_sm is the constructor's
 * own order of work; admissible_trace judges the implementation on every set.
 */
module admissible {
  import fx.* from "./fx"

  pure val ACCEPT = 1
  pure val REJECT = 0
  // combinations that the documentation says nothing about
  pure val SILENT = 2

  pure val NPARAM = 14
  pure def bit(g: int, i: int): bool = (g / 2^i) % 2 == 1
  pure def period(g: int): bool = bit(g, 0)
  pure def axis(g: int): bool = bit(g, 1)
  pure def mstar(g: int): bool = bit(g, 2)
  pure def rstar(g: int): bool = bit(g, 3)
  pure def rho(g: int): bool = bit(g, 4)
  pure def tzero(g: int): bool = bit(g, 5)
  pure def tperi(g: int): bool = bit(g, 6)
  pure def incl(g: int): bool = bit(g, 7)
  pure def impact(g: int): bool = bit(g, 8)
  pure def duration(g: int): bool = bit(g, 9)
  pure def ecc(g: int): bool = bit(g, 10)
  pure def omega(g: int): bool = bit(g, 11)
  pure def sinw(g: int): bool = bit(g, 12)
  pure def cosw(g: int): bool = bit(g, 13)
  pure def num(b: bool): int = if (b) 1 else 0

  // -- the rules --------------------------------------------------------------
  // a circular orbit whose size follows from its duration
  pure def fromDuration(g: int): bool = duration(g) and not(ecc(g))
  pure def sizeRule(g: int): bool =
    if (fromDuration(g)) period(g) and not(axis(g)) and impact(g) else period(g) or axis(g)
  pure def starRule(g: int): bool =
    if ((period(g) and axis(g)) or fromDuration(g)) not(mstar(g)) and not(rho(g))
    else {
      pure val n = num(mstar(g)) + num(rstar(g)) + num(rho(g))
      n == 0 or n == 2 or (n == 1 and rho(g))
    }
  pure def shapeRule(g: int): bool = ecc(g) implies (omega(g) or (sinw(g) and cosw(g)))
  pure def overdeterminedShape(g: int): bool = ecc(g) and omega(g) and sinw(g) and cosw(g)
  pure def tiltRule(g: int): bool = not(incl(g) and impact(g))
  pure def timeRule(g: int): bool = not(tzero(g) and tperi(g))
  // a transit duration of an eccentric orbit, and half of a sine and cosine
  // next to omega, are not documented
  pure def undocumented(g: int): bool = or {
    duration(g) and ecc(g),
    ecc(g) and omega(g) and (sinw(g) or cosw(g))
  }
  pure def verdict(g: int): int =
    if (not(and { sizeRule(g), starRule(g), shapeRule(g), not(overdeterminedShape(g)), tiltRule(g), timeRule(g) })) REJECT
    else if (undocumented(g)) SILENT
    else ACCEPT
}
