"""Checks of transit timing (T01 to T03) and simple orbits (S01)."""
from checks_orbits import NUM, SCALE, judge_orbits
from common import SEED, Check, fl, generate, model_check, pmap

import timing
import orbits


def ttv_sessions(c, n, kinds, nt=8, recorder=None):
    states = generate(c.scratch, "ttv_gen", [(dict(NT=nt), n * SCALE)], SEED)[0]
    c.tick("generate")
    jobs = [s["scn"] for s in states if s["scn"]["ok"]]

    def replay(scn):
        ev = (recorder or timing.record)(scn, kinds)
        return ev, scn.get("raised")

    out = pmap(replay, jobs)
    for scn, (_, raised) in zip(jobs, out):
        scn["raised"] = raised
    c.tick("replay")
    return jobs, [ev for ev, _ in out]


def ttv_brief(scn, event):
    return dict(
        kwargs={k: repr(v)[:300] for k, v in timing.timing_kwargs(scn).items()},
        labels=[
            dict(lab, y=[fl(v) for v in lab["y"]], dlog=fl(lab["dlog"]))
            for lab in scn["labs"]
        ],
        times=[fl(t) for t in scn["times"]],
        raised=scn.get("raised"),
        event_kind=event[0],
        event=[fl(v) for v in event[1:]],
    )


def check_T01():
    c = Check("T01", "model_checking")
    c.assumptions += NUM
    tr, st = model_check(c.scratch, "ttv_label_sm.qnt", "ttv_label_sm", "found")
    c.tick("model_check")
    scns, sess = ttv_sessions(
        c, 160, ["pos", "vel", "rv", "intransit", "flux", "delay"]
    )
    judge_orbits(c, scns, sess, module="ttv_trace", brief=ttv_brief)
    c.coverage.update(
        states=st, transitions=tr, traces_validated_against_impl=len(sess)
    )
    return c.finish()


def check_T02():
    c = Check("T02", "exploration")
    c.assumptions += NUM
    scns, sess = ttv_sessions(c, 400, ["ephemeris"])
    judge_orbits(c, scns, sess, module="ttv_trace", brief=ttv_brief)
    return c.finish()


def check_T03():
    import numpy as np
    from common import q

    import exoplanet as xo

    c = Check("T03", "model_checking")
    tr, st = model_check(c.scratch, "expected_sm.qnt", "expected_sm", "complete")
    c.tick("model_check")
    # every instance that was model-checked, and sampled larger ones
    cases = [
        dict(lo=lo, hi=hi, P=[P], t0=[t0], whole=True, scalar=(lo + hi) % 2 == 0, unit=1)
        for lo in range(-6, 7)
        for hi in range(lo, 7)
        for P in range(1, 5)
        for t0 in range(-5, 6)
    ]
    for s in generate(c.scratch, "expected_gen", [({}, 1600 * SCALE)], SEED)[0]:
        if s["scn"]["ok"]:
            cases.append(dict(s["scn"], unit=0))
    c.tick("generate")

    def replay(block):
        out = []
        for k in block:
            s = cases[k]
            n = (lambda v: float(v)) if s["unit"] else fl
            P = np.array([n(v) for v in s["P"]])
            t0 = np.array([n(v) for v in s["t0"]])
            lo, hi = n(s["lo"]), n(s["hi"])
            ev, why = [], None
            try:
                args = (P[0].item(), t0[0].item()) if s["scalar"] else (P, t0)
                got = xo.orbits.ttv.compute_expected_transit_times(lo, hi, *args)
                if len(got) != len(P):
                    raise ValueError("%d lists for %d planets" % (len(got), len(P)))
                for j, times in enumerate(got):
                    times = np.ravel(times)
                    kind = 1 if len(times) <= 24 else 2
                    some = times if kind == 1 else [times[k * (len(times) - 1) // 12] for k in range(13)]
                    ev.append(
                        [kind, int(s["whole"]), q(lo), q(hi), q(P[j]), q(t0[j]), len(times)]
                        + [q(v) for v in some]
                    )
            except Exception as e:
                why = "%s: %s" % (type(e).__name__, str(e)[:200])
                ev.append([9, 1])
            out.append((ev, why))
        return out

    blocks = [range(k, len(cases), 32) for k in range(32)]
    res = [None] * len(cases)
    for b, r in zip(blocks, pmap(replay, blocks)):
        for k, x in zip(b, r):
            res[k] = x
    for s, (_, why) in zip(cases, res):
        s["raised"] = why
    c.tick("replay")

    def brief(s, ev):
        return dict(
            kwargs={k: s[k] if s["unit"] else ([fl(v) for v in s[k]] if isinstance(s[k], list) else fl(s[k])) for k in ("lo", "hi", "P", "t0")},
            raised=s["raised"], event=[fl(v) for v in ev[1:]],
        )

    judge_orbits(c, cases, [ev for ev, _ in res], module="expected_trace", brief=brief)
    c.coverage.update(
        states=st, transitions=tr, traces_validated_against_impl=len(cases)
    )
    return c.finish()


def simple_sessions(c, n, kinds, nt=10, recorder=None):
    states = generate(c.scratch, "simple_gen", [(dict(NT=nt), n * SCALE)], SEED)[0]
    c.tick("generate")
    jobs = [s["scn"] for s in states if s["scn"]["ok"]]

    def replay(scn):
        ev = (recorder or timing.record_simple)(scn, kinds)
        return ev, scn.get("raised")

    out = pmap(replay, jobs)
    for scn, (_, raised) in zip(jobs, out):
        scn["raised"] = raised
    c.tick("replay")
    return jobs, [ev for ev, _ in out]


def simple_brief(scn, ev):
    return dict(
        kwargs={k: repr(v) for k, v in timing.simple_kwargs(scn).items()},
        r=[fl(v) for v in scn["r"]], times=[fl(t) for t in scn["times"]],
        texp=[fl(scn["texp"][0]), scn["texp"][1]],
        raised=scn.get("raised"), event_kind=ev[0], event=[fl(v) for v in ev[1:]],
    )


def check_S01():
    c = Check("S01", "exploration")
    c.assumptions += NUM
    scns, sess = simple_sessions(c, 260, ["pos", "intransit", "flux", "refused"])
    judge_orbits(c, scns, sess, module="simple_trace", brief=simple_brief)
    return c.finish()
