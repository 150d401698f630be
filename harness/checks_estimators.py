"""Checks of the estimators: velocity fits (R01), peaks (R02), searches (R03)."""
from checks_misc import sessions
from checks_orbits import NUM, judge_orbits
from common import Check, fl

import estimates


def rv_brief(scn, ev):
    kw, star = estimates.velocity_args(scn)
    return dict(kwargs={k: repr(v)[:400] for k, v in dict(kw, **star).items()},
                raised=scn.get("raised"), event_kind=ev[0], event=[fl(v) for v in ev[1:8]])


def check_R01():
    c = Check("R01", "exploration")
    c.assumptions += NUM
    scns, sess = sessions(c, "rv_fit_gen", 320, estimates.record_velocities, None)
    judge_orbits(c, scns, sess, module="est_trace", brief=rv_brief)
    return c.finish()


def peaks_brief(scn, ev):
    return dict(kwargs=dict(freq=[fl(v) for v in scn["freq"]], power=[fl(v) for v in scn["power"]], max_peaks=scn["most"]),
                raised=scn.get("raised"), event_kind=ev[0], event=ev[1:3] + [fl(v) for v in ev[3:6]])


def check_R02():
    c = Check("R02", "exploration")
    c.assumptions += NUM
    scns, sess = sessions(c, "peaks_gen", 2000, estimates.record_peaks, None)
    judge_orbits(c, scns, sess, module="est_trace", brief=peaks_brief)
    return c.finish()


def search_brief(scn, ev):
    x, y, kw = estimates.search_args(scn)
    return dict(method=scn["method"], kwargs={k: repr(v)[:200] for k, v in kw.items()}, x=x.tolist(), y=y.tolist(),
                raised=scn.get("raised"), event_kind=ev[0], event=[fl(v) for v in ev[1:12]], truth=dict(P=fl(scn["P"]), t0=fl(scn["t0"]), noise=fl(scn["noise"])))


def check_R03():
    c = Check("R03", "exploration")
    c.assumptions += NUM
    jobs, out = [], []
    for method, n in ((0, 60), (1, 70), (2, 110)):
        scns, sess = sessions(c, "search_gen", n, estimates.record_search, None, METHOD=method)
        jobs += scns
        out += sess
    judge_orbits(c, jobs, out, module="est_trace", brief=search_brief)
    return c.finish()
