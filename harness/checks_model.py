"""Checks of what belongs to PyMC models: citations (C01)."""
from checks_orbits import DEEP, SCALE, judge_orbits
from common import SEED, Check, generate, model_check, pmap

import models


def check_C01():
    import logging

    logging.disable(logging.WARNING)
    c = Check("C01", "model_checking")
    tr, st = model_check(c.scratch, "citations_sm.qnt", "citations_sm", "exact")
    c.tick("model_check")
    # all short histories, and sampled long ones with reports in between
    jobs = [(h, False) for n in (1, 2) for h in models.histories(n)]
    if DEEP:
        jobs += [(h, False) for h in models.histories(3, (0, 3, 4, 5, 6, 7), (1, 2, 4, 5))]
    for s in generate(c.scratch, "citations_gen", [({}, 160 * SCALE)], SEED)[0]:
        if s["scn"]["ok"]:
            jobs.append((s["scn"]["steps"], True))
    c.tick("generate")

    def replay(block):
        return [models.history(*jobs[k], way=k) for k in block]

    blocks = [range(k, len(jobs), 64) for k in range(64)]
    res = [None] * len(jobs)
    for b, r in zip(blocks, pmap(replay, blocks)):
        for k, x in zip(b, r):
            res[k] = x
    scns = [
        dict(steps=[list(x) for x in h], often=o, way=k, raised=w) for k, ((h, o), (_, w)) in enumerate(zip(jobs, res))
    ]
    c.tick("replay")

    def brief(s, ev):
        return dict(kwargs=s["steps"], way=s["way"], raised=s["raised"], event=ev)

    judge_orbits(c, scns, [ev for ev, _ in res], module="citations_trace", brief=brief)
    c.coverage.update(states=st, transitions=tr, traces_validated_against_impl=len(jobs))
    return c.finish()
