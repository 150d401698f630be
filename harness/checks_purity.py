"""Check that queries are functions of the system and the instant (K12)."""
from checks_orbits import SCALE, brief, judge_orbits
from checks_timing import simple_brief, ttv_brief
from common import SEED, Check, generate, pmap

import purity

PLAN = (
    # family, generator, its constants, sessions
    (0, "orbits_gen", dict(PROFILE=2, NT=6), 60),
    (0, "orbits_gen", dict(PROFILE=0, NT=6), 50),
    (1, "ttv_gen", dict(NT=6), 40),
    (2, "simple_gen", dict(NT=6), 30),
)


def check_K12():
    c = Check("K12", "exploration")
    total = sum(n for *_, n in PLAN)
    hist = generate(
        c.scratch, "history_gen",
        [(dict(KINDS=purity.NKINDS, NT=6, STEPS=7), total * SCALE + 40)], SEED,
    )[0]
    hist = [s["scn"]["steps"] for s in hist if s["scn"]["ok"]]
    jobs = []
    for module in ("orbits_gen", "ttv_gen", "simple_gen"):
        rows = [(f, k, n) for f, g, k, n in PLAN if g == module]
        out = generate(c.scratch, module, [(k, 2 * n * SCALE) for _, k, n in rows], SEED)
        for (f, _, n), states in zip(rows, out):
            scns = [dict(s["scn"], units=0) for s in states if s["scn"]["ok"]]
            for a in range(0, len(scns) - 1, 2):
                if hist:
                    jobs.append((f, scns[a : a + 2], hist.pop()))
    c.tick("generate")

    # two of the queries of every session are also put to a process that has
    # not been asked anything else
    def replay(item):
        k, only = item
        ev = purity.record(jobs[k], only, k % 2 == 0)
        return ev, jobs[k][1][0].get("raised")

    items = [(k, o) for k, j in enumerate(jobs) for o in (len(j[2]) - 1, k % (len(j[2]) - 1), None)]
    parts = pmap(replay, items, fresh=True)
    out = [
        ([[0]] + sum((p[0] for p in parts[3 * k : 3 * k + 3]), []),
         next((p[1] for p in parts[3 * k : 3 * k + 3] if p[1]), None))
        for k in range(len(jobs))
    ]
    c.tick("replay")
    scns = [dict(job=j, raised=r) for j, (_, r) in zip(jobs, out)]

    def describe(s, ev):
        f, (a, b), steps = s["job"]
        show = (brief, ttv_brief, simple_brief)[f]
        return dict(
            kwargs=show(a, [0]).get("kwargs"), other=show(b, [0]).get("kwargs"),
            times=show(a, [0]).get("times"), steps=steps, raised=s["raised"], event=ev[:6],
        )

    judge_orbits(c, scns, [ev for ev, _ in out], module="purity_trace", brief=describe)
    return c.finish()
