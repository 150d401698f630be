// -*- mode: Bluespec; -*-
/**
 * The flux blocked from a quadratically limb-darkened star by an opaque disc,
 * from first principles: the intensity profile is integrated over the part of
 * the star's disc that the planet covers.  Radii are in units of the star's.
 */
module limbdark {
  import fx.* from "./fx"

  // I(mu) = 1 - u1 (1 - mu) - u2 (1 - mu)^2
  pure def intensity(u1: int, u2: int, mu: int): int =
    S - mul(u1, S - mu) - mul(u2, sq(S - mu))
  // the flux of the whole disc
  pure def discFlux(u1: int, u2: int): int = mul(PI, S - u1 / 3 - u2 / 6)
  // 2 pi int_0^R I rho drho, with rho drho = -mu dmu
  pure def innerFlux(u1: int, u2: int, R: int): int = {
    pure val m = isqrt((S - R) * (S + R))
    // int_m^1 I mu dmu ; I = (1 - u1 - u2) + (u1 + 2 u2) mu - u2 mu^2
    pure def F(x: int): int =
      mul(S - u1 - u2, sq(x)) / 2 + mul(u1 + 2 * u2, mul(x, sq(x))) / 3 - mul(u2, sq(sq(x))) / 4
    mul(TWOPI, F(S) - F(m))
  }

  // Gauss-Legendre rule with 24 nodes on [-1, 1]: (node, weight)
  pure val GL: List[(int, int)] = [
    (995187219997021360, 12341229799987200),
    (974728555971309498, 28531388628933663),
    (938274552002732759, 44277438817419806),
    (886415527004401034, 59298584915436781),
    (820001985973902922, 73346481411080306),
    (740124191578554364, 86190161531953276),
    (648093651936975569, 97618652104113888),
    (545421471388839536, 107444270115965635),
    (433793507626045138, 115505668053725601),
    (315042679696163374, 121670472927803391),
    (191118867473616309, 125837456346828296),
    (64056892862605626, 127938195346752157),
    (-64056892862605626, 127938195346752157),
    (-191118867473616309, 125837456346828296),
    (-315042679696163374, 121670472927803391),
    (-433793507626045138, 115505668053725601),
    (-545421471388839536, 107444270115965635),
    (-648093651936975569, 97618652104113888),
    (-740124191578554364, 86190161531953276),
    (-820001985973902922, 73346481411080306),
    (-886415527004401034, 59298584915436781),
    (-938274552002732759, 44277438817419806),
    (-974728555971309498, 28531388628933663),
    (-995187219997021360, 12341229799987200) ]
  // in theta on [0, pi]: (cos theta, sin theta, weight)
  pure val NODES: List[(int, int, int)] = GL.foldl(List(), (acc, g) => {
    pure val sc = sincos(mul(HALFPI, S + g._1))
    acc.append((sc._2, sc._1, mul(HALFPI, g._2)))
  })

  /** Relative change of the flux (zero or negative). */
  pure def blockedFlux(u1: int, u2: int, b: int, k: int): int =
    if (b >= S + k or k == 0) 0
    else if (k >= S + b) -S
    else {
      pure val lo = iabs(b - k)
      pure val hi = imin(S, b + k)
      // the part of the disc that is covered at every position angle
      pure val core = if (k > b) innerFlux(u1, u2, lo) else 0
      // annuli: rho = lo + (hi - lo)(1 - cos theta)/2; the arc of the annulus that
      // is covered has half-angle acos((rho^2 + b^2 - k^2)/(2 rho b))
      pure val total = NODES.foldl(0, (acc, nd) => {
        pure val rho = lo + mul(hi - lo, S - nd._1) / 2
        pure val mu = isqrt((S - rho) * (S + rho))
        pure val kappa = if (b == 0) 0 else acos(div(sq(rho) + mul(b - k, b + k), 2 * mul(rho, b)))
        acc + mul(mul(mul(mul(intensity(u1, u2, mu), rho), kappa), nd._2), nd._3)
      })
      // drho = (hi - lo)/2 sin theta dtheta, both sides of the disc
      pure val ring = mul(total, hi - lo)
      div(0 - core - ring, discFlux(u1, u2))
    }
  // The quadrature converges geometrically except when the limb of the planet
  // passes close to the centre of the star, or the limbs are almost tangent
  pure def fluxTol(b: int, k: int): int = {
    pure val sing = imin(iabs(b - k), iabs(S - b - k))
    pure val s2 = sq(imin(k, S))
    s2 / 10^8 + 10^6 + (if (sing < S / 50) s2 / 3000 else if (sing < S / 10) s2 / 10^5 else 0)
  }
}
