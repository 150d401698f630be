// -*- mode: Bluespec; -*-
/**
 * The constructor of a Keplerian orbit as a state machine: its phases in
 * order, each of which may give up.  The invariant `agree` ties it to the
 * rules in admissible.qnt, and is checked for all 2^14 sets of parameters.
 */
module admissible_sm {
  import admissible.* from "./admissible"

  // -- the constructor ------------------------------------------------------------
  var g: int
  var pc: str
  var hasA: bool       // a is known, given or derived
  var hasR: bool
  var hasM: bool
  var hasTilt: bool

  action raise = all { pc' = "raised", g' = g, hasA' = hasA, hasR' = hasR, hasM' = hasM, hasTilt' = hasTilt }
  action goto(phase: str): bool = all { pc' = phase, g' = g, hasA' = hasA, hasR' = hasR, hasM' = hasM, hasTilt' = hasTilt }

  action init = {
    nondet s = oneOf(0.to(2^NPARAM - 1))
    all { g' = s, pc' = "duration", hasA' = axis(s), hasR' = rstar(s), hasM' = mstar(s), hasTilt' = false }
  }
  action durationPhase = all { pc == "duration",
    if (not(fromDuration(g))) goto("size")
    else if (not(impact(g)) or not(period(g)) or axis(g)) raise
    else all { pc' = "size", g' = g, hasA' = true, hasR' = true, hasM' = hasM, hasTilt' = hasTilt } }
  action sizePhase = all { pc == "size",
    if (not(hasA) and not(period(g))) raise
    else if (hasA and period(g))
      (if (rho(g) or mstar(g)) raise
       else all { pc' = "shape", g' = g, hasA' = true, hasR' = true, hasM' = true, hasTilt' = hasTilt })
    else goto("star") }
  action starPhase = all { pc == "star",
    // without radius and mass: the sun, or a radius of one with the density
    val r = hasR or not(hasR or hasM)
    val m = hasM or (not(hasR or hasM) and not(rho(g)))
    if (num(r) + num(m) + num(rho(g)) != 2) raise
    else all { pc' = "shape", g' = g, hasA' = true, hasR' = true, hasM' = true, hasTilt' = hasTilt } }
  action shapePhase = all { pc == "shape",
    if (not(ecc(g))) goto("tilt")
    else if (omega(g)) (if (sinw(g) and cosw(g)) raise else goto("tilt"))
    else if (sinw(g) and cosw(g)) goto("tilt")
    else raise }
  action tiltPhase = all { pc == "tilt",
    val d = duration(g) and not(fromDuration(g))
    if (num(impact(g)) + num(incl(g)) + num(d) > 1) raise
    else all { pc' = "time", g' = g, hasA' = hasA, hasR' = hasR, hasM' = hasM, hasTilt' = true } }
  action timePhase = all { pc == "time", if (tzero(g) and tperi(g)) raise else goto("built") }
  action step = any { durationPhase, sizePhase, starPhase, shapePhase, tiltPhase, timePhase }

  // what the constructor does is what the rules say, and what it builds is complete
  val agree = and {
    pc == "built" implies (verdict(g) != REJECT and hasA and hasR and hasM and hasTilt),
    pc == "raised" implies verdict(g) != ACCEPT
  }
}
