"""Checks of interpolation (I01), tabulated light curves (L06), units (U01)."""
from checks_orbits import SCALE, brief, judge_orbits, orbit_sessions
from common import SEED, Check, fl, generate, pmap

import misc


def sessions(c, module, n, recorder, kinds, **consts):
    states = generate(c.scratch, module, [(consts, n * SCALE)], SEED)[0]
    c.tick("generate")
    jobs = [s["scn"] for s in states if s["scn"]["ok"]]

    def replay(scn):
        ev = recorder(scn, kinds)
        return ev, scn.get("raised")

    out = pmap(replay, jobs)
    for scn, (_, raised) in zip(jobs, out):
        scn["raised"] = raised
    c.tick("replay")
    return jobs, [ev for ev, _ in out]


def interp_brief(scn, ev):
    return dict(
        kwargs=dict(
            points=[[fl(v) for v in g] for g in scn["grids"]],
            values=[fl(v) for v in scn["values"]],
            trailing=scn["shape"],
            fill_value=misc.real(scn["fill"]) if scn["filled"] else None,
        ),
        raised=scn.get("raised"),
        event_kind=ev[0],
        event=[fl(v) for v in ev[1:10]],
    )


def check_I01():
    c = Check("I01", "exploration")
    scns, sess = sessions(
        c, "interp_gen", 330, misc.record_interp, ["value"], NQ=6
    )
    judge_orbits(c, scns, sess, module="interp_trace", brief=interp_brief)
    return c.finish()


def phase_brief(scn, ev):
    d = brief(scn, ev)
    d.update(misc.phase_settings(scn), event=[fl(v) for v in ev[1:8]])
    return d


def check_L06():
    c = Check("L06", "exploration")
    scns, sess = orbit_sessions(c, [(2, 64, ["phase"])], recorder=misc.record_phase)
    judge_orbits(c, scns, sess, module="phase_trace", brief=phase_brief)
    return c.finish()


def units_brief(scn, ev):
    d = brief(scn, ev)
    kw, _, units = misc.unit_kwargs(scn)
    d.update(
        units={k: str(misc.unit_table()[misc.DIMENSION[k]][i]) for k, i in units.items()},
        kwargs={k: repr(v)[:200] for k, v in kw.items()},
    )
    return d


def check_U01():
    c = Check("U01", "exploration")
    scns, sess = orbit_sessions(
        c, [(0, 160, ["units"]), (4, 60, ["units"])], nt=3, recorder=misc.record_units
    )
    judge_orbits(c, scns, sess, module="units_trace", brief=units_brief)
    return c.finish()


def anomaly_brief(scn, ev):
    return dict(
        kwargs=dict(M=[fl(v) for v in scn["M"]], e=[fl(v) for v in scn["e"]], form=scn["x"]),
        raised=scn.get("raised"),
        event_kind=ev[0],
        event=[fl(v) for v in ev[1:]],
    )


def check_K13():
    c = Check("K13", "exploration")
    scns, sess = sessions(c, "anomaly_gen", 400, misc.record_anomaly, [])
    judge_orbits(c, scns, sess, module="anomaly_trace", brief=anomaly_brief)
    return c.finish()
