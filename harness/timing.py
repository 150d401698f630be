"""Replays of timing orbits, recorded for spec/ttv_trace.qnt."""
import numpy as np
from common import fl, q
from orbits import declare, grid, orbit_kwargs
from transits import SCHEMES, Query, exposures

import exoplanet as xo
import pytensor.tensor as pt


def timing_kwargs(scn):
    kw = orbit_kwargs(dict(scn, scalar=False))
    labs = scn["labs"]
    mode = labs[0]["mode"]
    x = scn["x"][0]
    vals = [np.array([fl(v) for v in lab["y"]]) for lab in labs]
    if x // 60 % 3 == 0:
        vals = [pt.as_tensor_variable(v) for v in vals]
    if mode == 0:
        kw["ttvs"] = vals
    else:
        kw.pop("t0")
        kw["transit_times"] = vals
        if mode != 3:
            kw.pop("period")
        if mode == 2:
            kw["delta_log_period"] = np.array([fl(lab["dlog"]) for lab in labs])
    if scn["inds"]:
        kw["transit_inds"] = [
            np.array(lab["idx"], dtype=int if x % 2 else float) for lab in labs
        ]
    return kw


def record(scn, kinds):
    ev = []
    for d, lab in zip(declare(scn)[1:], scn["labs"]):
        ev.append(d)
        row = [2, lab["mode"], q(fl(lab["dlog"])), len(lab["idx"])]
        for i, y in zip(lab["idx"], lab["y"]):
            row += [i, q(fl(y))]
        ev.append(row)
    ev = [[0]] + ev
    try:
        ev += _record(scn, kinds)
    except Exception as e:
        ev.append([9, 1])
        scn["raised"] = "%s: %s" % (type(e).__name__, str(e)[:300])
    return ev


def _record(scn, kinds):
    nb = len(scn["g"])
    x = scn["x"][0]
    t = np.array([fl(v) for v in scn["times"]])
    nt = len(t)
    orbit = xo.orbits.TTVOrbit(**timing_kwargs(scn))
    rp = np.array([fl(v) for v in scn["rp"]])
    u1, u2 = fl(scn["u1"]), fl(scn["u2"])
    texp, tex = exposures(scn, t)
    ecc = int(scn["g"][0]["ek"] != 0)
    ev, Q, todo = [], Query(), []
    targ = t
    if x % 3 == 1 and nt % 2 == 0:
        targ = t.reshape(2, -1)
    elif x % 3 == 2:
        targ = pt.as_tensor_variable(t)

    def vectors(kind, suffix, **args):
        s = Q.ask(
            *(
                c
                for n in ("planet", "star", "relative")
                for c in getattr(orbit, "get_%s_%s" % (n, suffix))(targ, **args)
            )
        )

        def fn():
            v = [grid(a, nt, nb) for a in Q[s]]
            for j in range(nb):
                for i in range(nt):
                    ev.append([kind, j, q(t[i])] + [q(a[i, j]) for a in v])

        todo.append(fn)

    if "pos" in kinds:
        vectors(3, "position")
    if "vel" in kinds:
        vectors(4, "velocity")
    if "delay" in kinds:
        vectors(8, "position", light_delay=True)
    if "rv" in kinds:
        s = Q.ask(orbit.get_radial_velocity(targ))

        def fn_rv(s=s):
            v = grid(Q[s], nt, nb)
            for j in range(nb):
                for i in range(nt):
                    ev.append([10, j, q(t[i]), q(v[i, j])])

        todo.append(fn_rv)
    if "intransit" in kinds:
        for tx, txx in ((None, 0 * t), (texp, tex))[: 1 + (texp is not None)]:
            s = Q.ask(orbit.in_transit(t, r=rp, texp=tx))

            def fn_in(s=s, txx=txx):
                got = [int(k) for k in np.ravel(Q[s])]
                if any(not 0 <= k < nt for k in got) or got != sorted(got):
                    raise ValueError("in_transit returned %s" % got)
                for i in range(nt):
                    ev.append(
                        [5, q(t[i]), q(txx[i]), got.count(i), ecc]
                        + [q(v) for v in rp]
                    )

            todo.append(fn_in)
    light = xo.LimbDarkLightCurve(u1, u2)
    if "flux" in kinds:
        s = Q.ask(light.get_light_curve(orbit=orbit, r=rp, t=t))

        def fn_flux(s=s):
            F = grid(Q[s], nt, nb)
            for j in range(nb):
                for i in range(nt):
                    ev.append(
                        [6, j, q(t[i]), q(rp[j]), q(u1), q(u2), q(F[i, j])]
                    )

        todo.append(fn_flux)
    if "shortcut" in kinds:
        order, n = SCHEMES[x % len(SCHEMES)]
        for tx in (None, texp)[: 1 + (texp is not None)]:
            s = Q.ask(
                *(
                    light.get_light_curve(
                        orbit=orbit, r=rp, t=t, texp=tx, order=order,
                        oversample=n, use_in_transit=u,
                    )
                    for u in (True, False)
                )
            )

            def fn_short(s=s):
                A, B = (grid(v, nt, nb) for v in Q[s])
                for j in range(nb):
                    for i in range(nt):
                        ev.append([14, 0, q(A[i, j]), q(B[i, j]), 10**7])

            todo.append(fn_short)
    if "ephemeris" in kinds:
        tensors = [orbit.t0, orbit.ttv_period, orbit.period]
        for j in range(nb):
            tensors += [orbit.transit_times[j], orbit.ttvs[j]]
        s = Q.ask(*tensors)

        def fn_eph(s=s):
            v = Q[s]
            t0, tp, p = (np.ravel(a) for a in v[:3])
            for j in range(nb):
                tt, o = np.ravel(v[3 + 2 * j]), np.ravel(v[4 + 2 * j])
                n = len(tt) if len(tt) == len(o) else -1
                row = [7, j, q(t0[j]), q(tp[j]), q(p[j]), n]
                for a, b in zip(tt, o):
                    row += [q(a), q(b)]
                ev.append(row)

        todo.append(fn_eph)
    Q.run()
    for fn in todo:
        fn()
    return ev


# ------------------------------------------------------------ simple orbits
def simple_kwargs(scn):
    form = scn["form"]

    def arr(name):
        v = [fl(c[name]) for c in scn["c"]]
        if len(v) == 1 and form[4] == 0:
            return v[0]
        return v if form[4] == 1 else np.array(v)

    kw = dict(period=arr("P"), duration=arr("dur"))
    if form[0]:
        kw["t0"] = arr("t0")
    if form[1]:
        kw["b"] = arr("b")
    if form[2]:
        kw["ror"] = arr("ror")
    if form[3]:
        kw["r_star"] = fl(scn["c"][0]["rs"])
    return kw


def record_simple(scn, kinds):
    ev = [[0]]
    for c in scn["c"]:
        ev.append([1] + [q(fl(c[k])) for k in ("P", "dur", "t0", "b", "rs", "ror")])
    try:
        ev += _record_simple(scn, kinds)
    except Exception as e:
        ev.append([9, 1])
        scn["raised"] = "%s: %s" % (type(e).__name__, str(e)[:300])
    return ev


def _record_simple(scn, kinds):
    nb = len(scn["c"])
    x = scn["x"][0]
    t = np.array([fl(v) for v in scn["times"]])
    nt = len(t)
    orbit = xo.orbits.SimpleTransitOrbit(**simple_kwargs(scn))
    r = np.array([fl(v) for v in scn["r"]])
    texp, tex = exposures(scn, t)
    ev, Q, todo = [], Query(), []
    if "pos" in kinds:
        targ = pt.as_tensor_variable(t) if x % 2 else t
        s = Q.ask(
            *orbit.get_planet_position(targ),
            *orbit.get_star_position(targ),
            *orbit.get_relative_position(targ),
        )

        def fn_pos():
            v = [
                np.broadcast_to(np.ravel(a)[:, None], (nt, nb))
                if 3 <= k < 6 and np.size(a) == nt
                else grid(a, nt, nb)
                for k, a in enumerate(Q[s])
            ]
            for j in range(nb):
                for i in range(nt):
                    ev.append([3, j, q(t[i])] + [q(a[i, j]) for a in v])

        todo.append(fn_pos)
    if "intransit" in kinds:
        for tx, txx in ((None, 0 * t), (texp, tex))[: 1 + (texp is not None)]:
            for use in (0, 1):
                args = dict(r=r if x % 3 else pt.as_tensor_variable(r)) if use else {}
                s2 = Q.ask(orbit.in_transit(t, texp=tx, **args))

                def fn_in(s=s2, txx=txx, use=use):
                    got = [int(k) for k in np.ravel(Q[s])]
                    if any(not 0 <= k < nt for k in got) or got != sorted(got):
                        raise ValueError("in_transit returned %s" % got)
                    for i in range(nt):
                        ev.append(
                            [5, q(t[i]), q(txx[i]), got.count(i), use]
                            + [q(v) for v in r]
                        )

                todo.append(fn_in)
    light = xo.LimbDarkLightCurve(fl(scn["u1"]), fl(scn["u2"]))
    if "flux" in kinds:
        s3 = Q.ask(light.get_light_curve(orbit=orbit, r=r, t=t, use_in_transit=bool(x % 2)))

        def fn_flux():
            F = grid(Q[s3], nt, nb)
            for j in range(nb):
                for i in range(nt):
                    ev.append([6, j, q(t[i]), q(r[j]), q(fl(scn["u1"])), q(fl(scn["u2"])), q(F[i, j])])

        todo.append(fn_flux)
    if "shortcut" in kinds:
        order, n = SCHEMES[x % len(SCHEMES)]
        for tx in (None, texp)[: 1 + (texp is not None)]:
            s4 = Q.ask(
                *(
                    light.get_light_curve(
                        orbit=orbit, r=r, t=t, texp=tx, order=order,
                        oversample=n, use_in_transit=u,
                    )
                    for u in (True, False)
                )
            )

            def fn_short(s=s4):
                A, B = (grid(v, nt, nb) for v in Q[s])
                for j in range(nb):
                    for i in range(nt):
                        ev.append([14, 0, q(A[i, j]), q(B[i, j]), 10**7])

            todo.append(fn_short)
    if "refused" in kinds:
        calls = [
            lambda: orbit.get_planet_velocity(t),
            lambda: orbit.get_star_velocity(t),
            lambda: orbit.get_radial_velocity(t),
            lambda: orbit.get_relative_position(t, light_delay=True),
            lambda: orbit.get_planet_position(t, light_delay=True),
            lambda: orbit.in_transit(t, light_delay=True),
        ]
        for k, call in enumerate(calls):
            try:
                call()
                ok = 0
            except NotImplementedError:
                ok = 1
            ev.append([11, k, ok])
    Q.run()
    for fn in todo:
        fn()
    return ev
