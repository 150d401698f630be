"""Checks of transits and light curves (K08, L01 to L05)."""
from checks_orbits import NUM, SCALE, brief, judge_orbits, orbit_sessions, theorems
from common import Check

import transits


def simple(pid, plan, nt=6, thm=None):
    def run():
        c = Check(pid, "exploration")
        c.assumptions += NUM
        if thm:
            theorems(c, *thm)
        scns, sess = orbit_sessions(c, plan, nt=nt, recorder=transits.record)
        judge_orbits(c, scns, sess, module="transit_trace")
        return c.finish()

    return run


LD = ("limbdark_test", "inv", 60)
check_K08 = simple("K08", [(2, 260, ["intransit"]), (0, 100, ["intransit"]), (6, 70, ["intransit"])], nt=8)
check_L01 = simple("L01", [(2, 90, ["flux"]), (5, 50, ["flux"])], thm=LD)


def check_L02():
    from checks_timing import simple_brief, simple_sessions, ttv_brief, ttv_sessions

    c = Check("L02", "exploration")
    c.assumptions += NUM
    plan = [(2, 120, ["shortcut", "delayed"]), (0, 40, ["shortcut"])]
    scns, sess = orbit_sessions(c, plan, recorder=transits.record)
    judge_orbits(c, scns, sess, module="transit_trace")
    scns, sess = ttv_sessions(c, 60, ["shortcut"])
    judge_orbits(c, scns, sess, module="ttv_trace", brief=ttv_brief)
    scns, sess = simple_sessions(c, 90, ["shortcut"])
    judge_orbits(c, scns, sess, module="simple_trace", brief=simple_brief)
    return c.finish()


check_L03 = simple("L03", [(2, 45, ["exposure"])])
check_L04 = simple("L04", [(5, 120, ["eclipses"])], thm=LD)
check_L05 = simple("L05", [(2, 160, ["ratio"])])
