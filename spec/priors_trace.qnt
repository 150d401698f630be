// -*- mode: Bluespec; -*-
/**
 * Prior densities recorded from PyMC models.  The sampler works in an
 * unconstrained space; a point of it is mapped to the user's parameters with
 * Jacobian J, so that the density of the parameters is the model's density
 * divided by |det J|.
 */
module priors_trace {
  import fx.* from "./fx"
  import priors.* from "./priors"
  const TRACE: List[int]
  type Clause = (str, bool)
  type Fail = { l: int, clause: str }
  // dist: see priors_gen; offset: the constant between recorded and specified log densities, once known.
  // alive: which of the candidates for the published parameters have not been refuted.
  type Prior = { dist: int, n: int, free: bool, variant: int, bounded: bool, lo: int, hi: int,
    known: bool, offset: List[int], alive: List[bool], turn: List[int] }
  var l: int
  var prior: Prior
  var fails: List[Fail]
  var seen: str -> int
  // 1 PRIOR  dist n free variant bounded lo hi
  // 2 POINT  m, log density, radius ratios (n), parameters (m), Jacobian (m x m)
  // 3 TURN   number of the group, log density, directions (n) in the sampling space, angles (n)
  // 4 START  m, has a finite density, wanted (m), found (m)
  // 9 RAISED
  // (Kipping 2013b) without a choice of periods: the fit to the full dataset; the code has the long-period one
  pure def hypers(p: Prior): List[Hyper] =
    if (p.dist == 6) [vanEylen(p.variant == 1)]
    else if (p.dist < 5 or p.variant == 1) [KIPPING_LONG]
    else if (p.variant == 2) [KIPPING_SHORT]
    else [KIPPING_LONG, KIPPING_ALL]
  // parameters in the support, with their log density up to a constant
  pure def inside(p: Prior, u: List[int], ror: List[int]): bool = {
    pure val n = p.n
    pure val h = u.slice(imin(n, length(u)), length(u))
    range(0, n).foldl(true, (ok, i) => ok and
      (if (p.dist == 2) sq(u.nth(i)) + sq(u.nth(n + i)) < S
       else if (p.dist == 3) u.nth(i) > 0 and u.nth(i) + u.nth(n + i) < S and u.nth(i) + 2 * u.nth(n + i) > 0
       else if (p.dist == 4) u.nth(i) > 0 and u.nth(i) < S + ror.nth(i)
       else u.nth(i) > p.lo and u.nth(i) < p.hi))
    and (p.dist < 5 or (h.foldl(true, (ok, v) => ok and v > 0) and (p.dist == 5 or length(h) == 0 or h.nth(2) < S)))
  }
  pure def lnPrior(p: Prior, hp: Hyper, u: List[int], ror: List[int]): int =
    if (p.dist < 4) 0
    else if (p.dist == 4) ror.foldl(0, (s, r) => s - ln(S + r))
    else {
      pure val given = u.slice(imin(p.n, length(u)), length(u))
      pure val h = if (p.free) given else hp.mu
      pure val hyperprior = range(0, length(given)).foldl(0, (s, i) => s + lnNormal(given.nth(i), hp.mu.nth(i), hp.sd.nth(i)))
      range(0, p.n).foldl(hyperprior, (s, i) => s +
        (if (p.dist == 5) lnBeta(u.nth(i), h.nth(0), h.nth(1), p.lo, p.hi) else lnMixture(u.nth(i), h.nth(0), h.nth(1), h.nth(2))))
    }
  // (log densities below this may underflow in the sum of a mixture)
  // (the recorded log density where there is none; something that is not a number is not a density)
  pure val NOWHERE: int = -10^13 * S
  pure val DEEP: int = -600 * S
  pure def label(p: Prior): str =
    if (p.dist == 2) "uniform_on_disk" else if (p.dist == 3) "uniform_on_triangle" else if (p.dist == 4) "uniform_to_grazing"
    else if (p.free and p.bounded) "density_free_bounded" else if (p.free) "density_free"
    else if (p.bounded) "density_bounded" else "density"
  pure val TOL: int = S / 10^6
  type Seen = { clauses: List[Clause], p: Prior }
  pure def checkPoint(p: Prior, e: List[int]): Seen = {
    pure val m = e.nth(1)
    pure val n = p.n
    pure val logp = e.nth(2)
    pure val ror = e.slice(3, 3 + n)
    pure val u = e.slice(3 + n, 3 + n + m)
    pure val rows = range(0, m).foldl(List(), (acc, i) => acc.append(e.slice(3 + n + m + i * m, 3 + n + m + i * m + m)))
    if (not(inside(p, u, ror)))
      { clauses: [ if (p.dist >= 5) ("zero_outside", finite(logp) and logp < NOWHERE) else ("in_support", false) ], p: p }
    else {
      pure val d = logDet(rows)
      pure val hs = hypers(p)
      pure val offset = hs.foldl(List(), (acc, hp) => acc.append(logp - d._2 - lnPrior(p, hp, u, ror)))
      if (not(finite(logp))) { clauses: [ ("positive_inside", false) ], p: p }
      else if (logp < NOWHERE) { clauses: [ ("positive_inside", lnPrior(p, hs.nth(0), u, ror) < DEEP) ], p: p }
      else if (not(d._1)) { clauses: List(), p: p }
      else {
        pure val alive = range(0, length(hs)).foldl(List(), (acc, i) => acc.append(
          p.alive.nth(i) and (not(p.known) or near(offset.nth(i), p.offset.nth(i), n * TOL))
          and (p.dist != 5 or p.free or near(offset.nth(i), 0, n * TOL))))
        pure val some = alive.foldl(false, (a, b) => a or b)
        { clauses:
          (if (p.dist == 5 and not(p.free) and not(p.known)) [ ("normalized", some) ] else List())
          .concat(if (p.known) [ (label(p), some) ] else List())
          .concat(if (p.dist == 5 and not(p.free) and p.variant == 0) [ ("default_is_full_dataset", alive.nth(1)) ] else List())
          .append(("positive_inside", true)),
          p: { ...p, known: true, offset: if (p.known) p.offset else offset,
               // (one failure is reported once)
               alive: if (some) alive else p.alive } }
      }
    }
  }
  pure def turned(a: int): int = a - TWOPI * roundDiv(a, TWOPI)
  // the first of a group of turns sets its density; the angles follow the
  // direction, one way around or the other
  pure def checkTurn(p: Prior, e: List[int]): Seen = {
    pure val n = p.n
    pure val phi = e.slice(3, 3 + n)
    pure val out = e.slice(3 + n, 3 + 2 * n)
    pure val range_ok = out.foldl(true, (ok, a) => ok and finite(a) and iabs(a) <= PI + 1000)
    if (e.nth(1) == 1) {
      clauses: [ ("angle_in_range", range_ok) ],
      p: { ...p, known: true, offset: [e.nth(2)], turn: phi.concat(out) } }
    else {
      pure val way = range(0, n).foldl((true, true), (w, i) => {
        pure val a = turned(phi.nth(i) - p.turn.nth(i))
        pure val b = turned(out.nth(i) - p.turn.nth(n + i))
        (w._1 and iabs(turned(a - b)) < TOL, w._2 and iabs(turned(a + b)) < TOL)
      })
      { clauses: [ ("angle_in_range", range_ok), ("angle_follows_direction", way._1 or way._2),
          ("uniform_on_circle", finite(e.nth(2)) and near(e.nth(2), p.offset.nth(0), TOL + iabs(p.offset.nth(0)) / 10^10)) ], p: p }
    }
  }
  pure def checkStart(p: Prior, e: List[int]): List[Clause] = {
    pure val m = e.nth(1)
    [ ("start_has_density", e.nth(2) == 1),
      ("starts_where_requested", range(0, m).foldl(true, (ok, i) => {
        pure val d = e.nth(3 + m + i) - e.nth(3 + i)
        ok and finite(e.nth(3 + m + i)) and iabs(if (p.dist == 1) turned(d) else d) < TOL
      })) ]
  }
  pure def judge(p: Prior, ev: int): Seen = {
    pure val k = fieldAt(ev, 0)
    if (k == 1) {
      pure val e = unpack(ev, 8)
      { clauses: List(), p: { dist: e.nth(1), n: e.nth(2), free: e.nth(3) == 1, variant: e.nth(4), bounded: e.nth(5) == 1,
        lo: e.nth(6), hi: e.nth(7), known: false, offset: List(), alive: [true, true], turn: List() } }
    }
    else if (k == 2) { pure val m = fieldAt(ev, 1) checkPoint(p, unpack(ev, 3 + p.n + m + m * m)) }
    else if (k == 3) checkTurn(p, unpack(ev, 3 + 2 * p.n))
    else if (k == 4) { pure val m = fieldAt(ev, 1) { clauses: checkStart(p, unpack(ev, 3 + 2 * m)), p: p } }
    else { clauses: [ ("no_exception", false) ], p: p }
  }
  pure val NONE: Prior = { dist: 0, n: 0, free: false, variant: 0, bounded: false, lo: 0, hi: 0, known: false, offset: List(), alive: [true, true], turn: List() }
  action init = all { l' = 0, prior' = NONE, fails' = List(), seen' = Map() }
  action step = all {
    l < TRACE.length(),
    val r = judge(prior, TRACE.nth(l))
    all {
      l' = l + 1,
      prior' = r.p,
      fails' = r.clauses.foldl(fails, (acc, c) => if (c._2) acc else acc.append({ l: l, clause: c._1 })),
      seen' = r.clauses.foldl(seen, (acc, c) =>
        acc.put(c._1, 1 + if (acc.keys().contains(c._1)) acc.get(c._1) else 0))
    }
  }
}
