// -*- mode: Bluespec; -*-
/**
 * Physical units, as exact multiples of exoplanet's standard ones (days,
 * R_sun, M_sun, g/cm^3), from SI values and nominal solar and planetary values.
 * A unit is (dimension, number); number 0 is a plain number.
 */
module units {
  import fx.* from "./fx"
  import kepler.* from "./kepler"
  pure val TIME = 0
  pure val LENGTH = 1
  pure val MASS = 2
  pure val DENSITY = 3
  // numerator and denominator
  pure val TIMES: List[(int, int)] = [(1, 1), (1, 1), (1, 24), (1, 1440), (1, 86400), (36525, 100), (7, 1)]
  pure val LENGTHS: List[(int, int)] = [(1, 1), (1, 1), (1000, R_SUN_M), (1, R_SUN_M), (149597870700, R_SUN_M),
    (71492000, R_SUN_M), (6378100, R_SUN_M), (1, 100 * R_SUN_M)]
  // by GM: Jupiter 1.2668653e17, Earth 3.986004e14; G = 6.6743e-11;
  // number 4 is 10^27 kg
  pure val GM: int = 13271244 * 10^13
  pure val MASSES: List[(int, int)] = [(1, 1), (1, 1), (12668653 * 10^10, GM), (3986004 * 10^8, GM),
    (66743 * 10^12, GM), (1, 1000)]
  pure val DENSITIES: List[(int, int)] = [(1, 1), (1, 1), (1, 1000), (GCC, S)]
  pure def factor(dim: int, id: int): (int, int) =
    if (dim == TIME) TIMES.nth(id) else if (dim == LENGTH) LENGTHS.nth(id)
    else if (dim == MASS) MASSES.nth(id) else DENSITIES.nth(id)
  pure def scale(v: int, r: (int, int)): int = {
    pure val p = v * r._1
    if (p >= 0) roundDiv(p, r._2) else 0 - roundDiv(0 - p, r._2)
  }
  // a number given in a unit, in standard units
  pure def standard(dim: int, id: int, v: int): int = scale(v, factor(dim, id))
  // and converted from one unit to another
  pure def convert(dim: int, a: int, b: int, v: int): int = {
    pure val x = factor(dim, a)
    pure val y = factor(dim, b)
    scale(v, (x._1 * y._2, x._2 * y._1))
  }
  // what was given, in standard units: units are those of
  // period, a, planet mass, stellar mass, radius, density, duration
  pure def inStandard(g: Givens, us: List[int]): Givens =
    { ...g, P: standard(TIME, us.nth(0), g.P), a: standard(LENGTH, us.nth(1), g.a),
      mp: standard(MASS, us.nth(2), g.mp), ms: standard(MASS, us.nth(3), g.ms),
      rs: standard(LENGTH, us.nth(4), g.rs), rho: standard(DENSITY, us.nth(5), g.rho),
      dur: standard(TIME, us.nth(6), g.dur) }
}
