"""Checks of prior distributions (P01-P04, E01, E02)."""
import numpy as np  # noqa: F401
from checks_misc import sessions
from checks_orbits import judge_orbits
from common import Check, fl

import priors

NAME = {1: "angle", 2: "unit_disk", 3: "quad_limb_dark", 4: "impact_parameter", 5: "kipping13", 6: "vaneylen19"}


def prior(pid, dist, n, points=8):
    def brief(scn, ev):
        d = dict(
            distribution=NAME[dist],
            kwargs=dict(
                priors.settings(scn, dist),
                shape=scn["n"] if scn["vector"] else (),
                initval=[fl(v) for v in scn["start"]],
            ),
            raised=scn.get("raised"),
            event_kind=ev[0],
            event=[fl(v) for v in ev[2:12]],
        )
        if dist == 4:
            d["ror"] = [fl(v) for v in scn["ror"]]
        if dist == 5:
            d["long"] = d["kwargs"].get("long")
        return d

    def run():
        c = Check(pid, "exploration")
        scns, sess = sessions(c, "priors_gen", n, lambda s, k: priors.record(s, dist), None, DIST=dist, POINTS=points)
        judge_orbits(c, scns, sess, module="priors_trace", brief=brief)
        return c.finish()

    return run


check_P01 = prior("P01", 1, 100)
check_P02 = prior("P02", 2, 100)
check_P03 = prior("P03", 3, 100)
check_P04 = prior("P04", 4, 100)
check_E01 = prior("E01", 5, 64)
check_E02 = prior("E02", 6, 64)
