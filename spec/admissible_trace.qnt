// -*- mode: Bluespec; -*-
/**
 * The outcomes of building an orbit from each set of parameters.
 */
module admissible_trace {
  import fx.* from "./fx"
  import admissible.* from "./admissible"

  const TRACE: List[int]

  type Clause = (str, bool)
  type Fail = { l: int, clause: str }
  var l: int
  var fails: List[Fail]
  var seen: str -> int
  var built: int                  // how many sets were accepted

  // -- events ------------------------------------------------------------------
  // 1 OUTCOME  set raised(1)/built(0)
  // 2 BUILT    set, then the value of each parameter as read back
  // the values that are given, in the order of the bits
  pure val VALUES: List[int] = [
    72 * S / 10,                  // period
    15 * S,                       // a
    9 * S / 10, 11 * S / 10, 14 * S / 10, // mass, radius, density
    35 * S / 10, 12 * S / 10,     // t0, t_periastron
    155 * S / 100, 3 * S / 10,    // incl, b
    S / 10,                       // duration
    2 * S / 10, 7 * S / 10, 6 * S / 10, 8 * S / 10 ] // ecc, omega, its sine and cosine

  pure def judge(e: List[int]): List[Clause] = {
    pure val s = e.nth(1)
    pure val v = verdict(s)
    if (e.nth(0) == 1)
      (if (v == ACCEPT) [("admissible_accepted", e.nth(2) == 0)]
       else if (v == REJECT) [("inadmissible_rejected", e.nth(2) == 1)]
       else List())
    else if (e.nth(0) == 2 and v == ACCEPT)
      range(0, NPARAM).foldl(List(), (acc, i) =>
        // without an eccentricity omega is immaterial; the duration is not kept
        if (not(bit(s, i)) or (i >= 11 and not(ecc(s))) or i == 9) acc
        else acc.append(("given_is_honoured", near(e.nth(2 + i), VALUES.nth(i), S / 10^10))))
    else List()
  }

  action init = all { l' = 0, fails' = List(), seen' = Map(), built' = 0 }
  action step = all {
    l < TRACE.length(),
    val e = unpack(TRACE.nth(l), 18)
    val clauses = judge(e)
    all {
      l' = l + 1,
      built' = if (e.nth(0) == 1 and e.nth(2) == 0) built + 1 else built,
      fails' = clauses.foldl(fails, (acc, c) => if (c._2) acc else acc.append({ l: l, clause: c._1 })),
      seen' = clauses.foldl(seen, (acc, c) =>
        acc.put(c._1, 1 + if (acc.keys().contains(c._1)) acc.get(c._1) else 0))
    }
  }
}
