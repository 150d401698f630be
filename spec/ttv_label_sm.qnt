// -*- mode: Bluespec; -*-
/**
 * All small histories of transits: appending transits one after another (any
 * gap from 1 to GAP) and looking up any time; the table lookup always finds
 * the nearest labelled transit.
 */
module ttv_label_sm {
  import fx.* from "./fx"
  import ttv.* from "./ttv"
  pure val GAP = 4
  pure val N = 4
  var tts: List[int]
  var half: int
  var t: int
  action init = {
    nondet h = oneOf(0.to(3))
    nondet x = oneOf((-3).to(20))
    all { tts' = List(0), half' = h, t' = x }
  }
  action transit = {
    nondet d = oneOf(1.to(GAP))
    all { length(tts) < N, tts' = tts.append(tts.nth(length(tts) - 1) + d), half' = half, t' = t }
  }
  action step = transit
  val found = {
    val k = binned(tts, half, t)
    or { k == nearest(tts, t), iabs(t - tts.nth(k)) == iabs(t - tts.nth(nearest(tts, t))) }
  }
}
