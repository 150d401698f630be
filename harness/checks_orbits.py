"""Checks of the Keplerian orbits (K01 to K12)."""
from common import SEED, TIER, Check, fl, generate, invariants, judge, pmap

import orbits

DEEP = TIER == "thorough"
SCALE = 12 if DEEP else 1


def brief(scn, event):
    """What is needed to read a failure."""
    return dict(
        system=[
            {
                k: (v if k in orbits.FLAGS else fl(v))
                for k, v in g.items()
            }
            for g in scn["g"]
        ],
        scalar=scn["scalar"],
        form=scn["x"],
        units=scn.get("units", 0),
        kwargs={k: repr(v)[:200] for k, v in orbits.orbit_kwargs(scn).items()},
        times=[fl(t) for t in scn["times"]],
        raised=scn.get("raised"),
        event_kind=event[0],
        event=[fl(v) for v in event[1:]],
    )


def orbit_sessions(c, plan, nt=6, units=False, recorder=None):
    """plan: list of (profile, systems, kinds)."""
    states = generate(
        c.scratch,
        "orbits_gen",
        [(dict(PROFILE=p, NT=nt), n * SCALE) for p, n, _ in plan],
        SEED,
    )
    c.tick("generate")
    jobs = []
    for (p, n, kinds), st in zip(plan, states):
        for s in st:
            if s["scn"]["ok"]:
                s["scn"]["units"] = s["scn"]["x"][0] // 60 % 8 if units else 0
                jobs.append((s["scn"], kinds))

    def replay(job):
        scn, kinds = job
        ev = (recorder or orbits.record)(scn, kinds)
        return ev, scn.get("raised")

    out = pmap(replay, jobs)
    for (scn, _), (ev, raised) in zip(jobs, out):
        scn["raised"] = raised
    c.tick("replay")
    return [scn for scn, _ in jobs], [ev for ev, _ in out]


def judge_orbits(c, scns, sessions, module="orbits_trace", rule="", brief=None):
    """Have a module of the specification judge sessions; the coverage of
    several calls adds up."""
    brief = brief or globals()["brief"]
    fails, seen = judge(c.scratch, module, sessions)
    c.tick("judge")
    for i, j, clause in fails:
        ev = sessions[i][j]
        b = brief(scns[i], ev)
        c.violation(
            clause,
            "%s is not what the specification allows: event %s of %s%s"
            % (
                clause,
                [round(fl(v), 12) for v in ev[1:]],
                b.get("kwargs"),
                ("; raised " + scns[i]["raised"]) if scns[i].get("raised") else "",
            ),
            b,
        )
    events = set(
        (i, tuple(e)) for i, s in enumerate(sessions) for e in s if e[0] > 1
    )
    cov = c.coverage
    clauses = dict(cov.get("clauses", {}))
    for k, n in seen.items():
        clauses[k] = clauses.get(k, 0) + n
    cov.update(
        evaluations=cov.get("evaluations", 0) + sum(seen.values()),
        distinct_nontrivial=cov.get("distinct_nontrivial", 0) + min(len(events), sum(seen.values())),
        rule="each evaluation is one clause of the specification judged on one "
        "recorded call; counted as distinct and non-trivial: recorded calls "
        "with results, different in system or arguments. " + rule,
        systems=cov.get("systems", 0) + len(sessions),
        clauses=clauses,
        samples=cov.get("samples", [])
        + [
            dict(brief(scns[i], sessions[i][-1]))
            for i in range(0, len(scns), max(1, len(scns) // 2))
        ][:2],
    )


def theorems(c, module, inv, steps):
    n = invariants(c.scratch, module, inv, steps * SCALE, SEED)
    c.coverage["specification_theorem_samples"] = n
    c.tick("theorems")


def simple(pid, plan, units=False, thm=None, assumptions=()):
    def run():
        c = Check(pid, "exploration")
        c.assumptions += list(assumptions)
        if thm:
            theorems(c, *thm)
        scns, sess = orbit_sessions(c, plan, units=units)
        judge_orbits(c, scns, sess)
        return c.finish()

    return run


NUM = (
    "numbers are compared with a tolerance that allows for double precision "
    "rounding of the phase, amplified by the eccentricity",
)
check_K01 = simple("K01", [(0, 260, ["pos"]), (1, 100, ["pos"]), (3, 60, ["pos"])],
                   thm=("kepler_test", "inv", 40), assumptions=NUM)
check_K02 = simple("K02", [(0, 200, ["vel", "acc"]), (1, 60, ["vel", "acc"])],
                   thm=("kepler_test", "inv", 40), assumptions=NUM)
check_K03 = simple("K03", [(0, 500, ["attrs", "bjac"]), (4, 80, ["attrs"])], assumptions=NUM)
check_K05 = simple("K05", [(0, 260, ["ref"]), (2, 120, ["ref"])], assumptions=NUM)
check_K06 = simple("K06", [(0, 260, ["rv"]), (1, 60, ["rv"])], assumptions=NUM)
check_K07 = simple("K07", [(3, 160, ["delay", "delayarc"]), (2, 40, ["delay"])], assumptions=NUM)
check_K09 = simple("K09", [(0, 220, ["angles"]), (1, 80, ["angles"]), (3, 60, ["delayarc"])], assumptions=NUM)
check_K10 = simple("K10", [(4, 300, ["contact"])], units=True, assumptions=NUM)


# ------------------------------------------------------------------ K04
PARAMS = (
    "period a m_star r_star rho_star t0 t_periastron incl b duration ecc "
    "omega sin_omega cos_omega"
).split()
GIVEN = (7.2, 15.0, 0.9, 1.1, 1.4, 3.5, 1.2, 1.55, 0.3, 0.1, 0.2, 0.7, 0.6, 0.8)


def check_K04():
    from common import evaluate, model_check, q

    import exoplanet as xo

    c = Check("K04", "model_checking")
    transitions, distinct = model_check(
        c.scratch, "admissible_sm.qnt", "admissible_sm", "agree"
    )
    c.tick("model_check")

    def replay(block):
        out = []
        for s in block:
            kw = {
                p: GIVEN[i] for i, p in enumerate(PARAMS) if s >> i & 1
            }
            # the parameters that may always be given
            if s % 3 == 0:
                kw["Omega"] = 0.4
            if s % 5 == 0:
                kw["m_planet"] = 0.001
            if s % 7 == 0:
                kw = {k: __import__("numpy").array([v]) for k, v in kw.items()}
                for k in ("m_star", "r_star", "rho_star"):
                    if k in kw:
                        kw[k] = kw[k][0]
            if "duration" in kw and s % 2 == 0:
                kw["ror"] = 0.05
            ev, why = [], None
            try:
                orbit = xo.orbits.KeplerianOrbit(**kw)
            except Exception as e:
                ev.append([1, s, 1])
                why = "%s: %s" % (type(e).__name__, str(e)[:200])
            else:
                ev.append([1, s, 0])
                has = [getattr(orbit, p, None) for p in PARAMS]
                try:
                    vals = evaluate([0.0 if v is None else v for v in has])
                    ev.append(
                        [2, s] + [q(float(v.ravel()[0])) for v in vals]
                    )
                except Exception as e:
                    why = "%s: %s" % (type(e).__name__, str(e)[:200])
                    ev.append([2, s] + [0] * len(PARAMS))
            out.append((s, sorted(kw), ev, why))
        return out

    n = 2 ** len(PARAMS)
    blocks = [range(k, n, 64) for k in range(64)]
    runs = [r for b in pmap(replay, blocks) for r in b]
    c.tick("replay")
    sessions = [ev for _, _, ev, _ in runs]
    fails, seen = judge(c.scratch, "admissible_trace", sessions)
    c.tick("judge")
    for i, j, clause in fails:
        s, kw, ev, why = runs[i]
        c.violation(
            clause,
            "%s: KeplerianOrbit(%s) %s"
            % (clause, ", ".join(kw), "was rejected: %s" % why if ev[0][2] else "was built, with %s" % [fl(v) for v in ev[1][2:]]),
            dict(set=s, given=kw, why=why, events=[[fl(v) for v in e] for e in ev]),
        )
    c.coverage.update(
        states=distinct,
        transitions=transitions,
        traces_validated_against_impl=len(sessions),
        exhaustive=True,
        built=sum(1 for _, _, ev, _ in runs if not ev[0][2]),
        clauses=seen,
        samples=[dict(given=runs[k][1], rejected=bool(runs[k][2][0][2])) for k in (3, 777, 5000)],
    )
    return c.finish()
