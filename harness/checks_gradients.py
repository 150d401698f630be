"""Check that gradients are the derivatives of the values (K11)."""
import gradients
import misc
from checks_misc import interp_brief, phase_brief, sessions
from checks_orbits import NUM, brief, judge_orbits, orbit_sessions
from checks_timing import simple_brief, simple_sessions, ttv_brief, ttv_sessions
from common import Check


def check_K11():
    c = Check("K11", "exploration")
    c.assumptions += NUM
    scns, sess = orbit_sessions(
        c, [(0, 60, ["orbit"]), (1, 20, ["orbit"]), (2, 60, ["flux"]), (3, 16, ["orbit"]), (0, 60, ["attrs"])], nt=3,
        recorder=gradients.record,
    )
    judge_orbits(c, scns, sess, module="grads_trace", brief=brief)
    # the changes of variables that come with their Jacobian
    scns, sess = orbit_sessions(c, [(0, 40, ["bjac"]), (4, 30, ["contact"])], nt=2)
    judge_orbits(c, scns, sess)
    scns, sess = ttv_sessions(c, 30, [], nt=3, recorder=gradients.record_timing)
    judge_orbits(c, scns, sess, module="ttv_trace", brief=ttv_brief)
    scns, sess = simple_sessions(c, 30, [], nt=3, recorder=gradients.record_simple)
    judge_orbits(c, scns, sess, module="simple_trace", brief=simple_brief)
    scns, sess = sessions(c, "interp_gen", 60, misc.record_interp, ["gradient"], NQ=4)
    judge_orbits(c, scns, sess, module="interp_trace", brief=interp_brief)
    scns, sess = orbit_sessions(c, [(2, 24, ["slope"])], recorder=misc.record_phase)
    judge_orbits(c, scns, sess, module="phase_trace", brief=phase_brief)
    return c.finish()
