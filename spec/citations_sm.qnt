// -*- mode: Bluespec; -*-
/**
 * The registry as it is implemented: every model carries a table of names,
 * created by the first component; components write their names into the table
 * of the model they find.  The invariant relates it to what was built where.
 */
module citations_sm {
  import citations.* from "./citations"
  pure val MODELS = Set(1, 2)
  pure val DEPTH = 4
  var table: int -> List[int]       // in the order of insertion
  var tables: Set[int]              // models that have a table
  var built: Set[(int, int)]        // history: component, model that it was for
  var n: int
  pure def insertAll(xs: List[int], ks: Set[int]): List[int] =
    range(0, KEYS).foldl(xs, (acc, k) =>
      if (ks.contains(k) and acc.select(y => y == k) == List()) acc.append(k) else acc)
  action init = all { table' = Map(1 -> List(), 2 -> List()), tables' = Set(), built' = Set(), n' = 0 }
  action step = {
    nondet comp = oneOf(0.to(COMPONENTS - 1))
    nondet place = oneOf(0.to(6))
    all {
      n < DEPTH, possible(comp, place),
      n' = n + 1,
      if (target(place) == 0 or not(registers(comp)))
        all { table' = table, tables' = tables, built' = built.union(Set((comp, target(place)))) }
      else all {
        table' = table.set(target(place), insertAll(table.get(target(place)), cites(comp))),
        tables' = tables.union(Set(target(place))),
        built' = built.union(Set((comp, target(place))))
      }
    }
  }
  pure def listed(xs: List[int]): Set[int] = xs.foldl(Set(), (acc, k) => acc.union(Set(k)))
  val exact = MODELS.forall(m => {
    val want = built.filter(b => b._2 == m).map(b => cites(b._1)).flatten()
    and {
      listed(table.get(m)) == want,
      // each once
      length(table.get(m)) == size(want),
      tables.contains(m) == built.exists(b => b._2 == m and registers(b._1)),
      report(want, tables.contains(m)) == if (want == Set()) Set() else want.union(Set(0, 1, 2))
    }
  })
}
