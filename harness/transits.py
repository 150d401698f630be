"""Replays of light curves and transit flags, recorded for the specification
in spec/transit_trace.qnt."""
import numpy as np
from common import evaluate, fl, q

import exoplanet as xo
import pytensor.tensor as pt
from orbits import declare, grid, orbit_kwargs

SCHEMES = ((0, 7), (0, 1), (0, 4), (1, 3), (1, 6), (2, 3), (2, 5), (2, 8))


class Query:
    """Tensors to be evaluated together."""

    def __init__(self):
        self.outs = []

    def ask(self, *tensors):
        a = len(self.outs)
        self.outs += list(tensors)
        return slice(a, len(self.outs))

    def run(self):
        self.vals = evaluate(self.outs)

    def __getitem__(self, s):
        v = self.vals[s]
        return v[0] if len(v) == 1 else v


def record(scn, kinds):
    ev = declare(scn)
    try:
        ev += _record(scn, kinds)
    except Exception as e:  # an admissible call raised
        ev.append([9, 1])
        scn["raised"] = "%s: %s" % (type(e).__name__, str(e)[:300])
    return ev


def exposures(scn, t):
    """None, one length, or one for each time."""
    base, vec = scn["texp"]
    if base == 0:
        return None, np.zeros_like(t)
    base = fl(base)
    if vec:
        v = base * (1 + np.arange(len(t)) / 8.0)
        return v, v
    return base, base + np.zeros_like(t)


def _record(scn, kinds):
    nb = len(scn["g"])
    x = scn["x"][0]
    t = np.array([fl(v) for v in scn["times"]])
    nt = len(t)
    kw = orbit_kwargs(scn)
    orbit = xo.orbits.KeplerianOrbit(**kw)
    ecc = int(scn["g"][0]["ek"] != 0)
    rp = np.array([fl(v) for v in scn["rp"]])
    r = rp[0].item() if nb == 1 and x // 240 % 2 else rp
    if x // 480 % 3 == 0:
        r = pt.as_tensor_variable(r)
    u1, u2 = fl(scn["u1"]), fl(scn["u2"])
    texp, tex = exposures(scn, t)
    light = xo.LimbDarkLightCurve(u1, u2)
    U = [scn["u1"], scn["u2"]]
    ev, Q, todo = [], Query(), []

    def flux_events(kind, F, tail, rr=rp):
        F = grid(F, nt, nb)
        for j in range(nb):
            for i in range(nt):
                ev.append(
                    [kind, j, q(t[i]), q(rr[j])] + U + [q(F[i, j])] + tail(i, j)
                )

    def agree_events(A, B, tol):
        A, B = grid(A, nt, nb), grid(B, nt, nb)
        for j in range(nb):
            for i in range(nt):
                ev.append([14, 0, q(A[i, j]), q(B[i, j]), tol])

    if "intransit" in kinds:
        rr, args = rp, dict(r=r)
        if x // 1440 % 4 == 0:
            rr, args = 0 * rp, {}
        for tx, txx in ((None, 0 * t), (texp, tex)):
            if tx is None and txx is tex:
                continue
            s = Q.ask(orbit.in_transit(t, texp=tx, **args))

            def fn(s=s, txx=txx, rr=rr):
                got = [int(k) for k in np.ravel(Q[s])]
                if any(not 0 <= k < nt for k in got) or got != sorted(got):
                    raise ValueError("in_transit returned %s" % got)
                for i in range(nt):
                    ev.append(
                        [10, q(t[i]), q(txx[i]), got.count(i), ecc]
                        + [q(v) for v in rr]
                    )

            todo.append(fn)
            if texp is None:
                break
    if "flux" in kinds:
        for args in ({}, dict(use_in_transit=False)):
            s = Q.ask(light.get_light_curve(orbit=orbit, r=r, t=t, **args))
            todo.append(lambda s=s: flux_events(13, Q[s], lambda i, j: [0]))
        # instants on a grid
        if nt % 2 == 0:
            s = Q.ask(
                light.get_light_curve(
                    orbit=orbit,
                    r=r,
                    t=t.reshape(2, -1),
                    use_in_transit=False,
                )
            )
            todo.append(lambda s=s: flux_events(13, Q[s], lambda i, j: [0]))
        if x // 5760 % 3 == 0:
            vec = xo.LimbDarkLightCurve(np.array([u1, u2]))
            s = Q.ask(vec.get_light_curve(orbit=orbit, r=r, t=t))
            todo.append(lambda s=s: flux_events(13, Q[s], lambda i, j: [0]))
    if "delayed" in kinds:
        s = Q.ask(
            light.get_light_curve(orbit=orbit, r=r, t=t, light_delay=True)
        )
        todo.append(lambda s=s: flux_events(13, Q[s], lambda i, j: [1]))
    if "shortcut" in kinds:
        order, n = SCHEMES[x % len(SCHEMES)]
        for tx in (None, texp) if texp is not None else (None,):
            a = Q.ask(
                *(
                    light.get_light_curve(
                        orbit=orbit,
                        r=r,
                        t=t,
                        texp=tx,
                        order=order,
                        oversample=n,
                        use_in_transit=u,
                    )
                    for u in (True, False)
                )
            )
            todo.append(lambda a=a: agree_events(Q[a][0], Q[a][1], 10**7))
    if "exposure" in kinds and texp is not None:
        schemes = [SCHEMES[x % 3], SCHEMES[3 + x % 5]]
        if x // 9 % 5 == 0:
            schemes = [(x % 3, 41 + x // 45 % 60)]
        for order, n in schemes:
            for u in (False, True):
                s = Q.ask(
                    light.get_light_curve(
                        orbit=orbit,
                        r=r,
                        t=t,
                        texp=texp,
                        order=order,
                        oversample=n,
                        use_in_transit=u,
                    )
                )
                todo.append(
                    lambda s=s, o=order, n=n: flux_events(
                        19, Q[s], lambda i, j: [q(tex[i]), o, n, 0]
                    )
                )
        # photons of an exposure left at different times
        order, n = SCHEMES[x // 3 % len(SCHEMES)]
        s = Q.ask(
            light.get_light_curve(
                orbit=orbit, r=r, t=t, texp=texp, order=order, oversample=n, light_delay=True
            )
        )
        todo.append(
            lambda s=s, o=order, n=n: flux_events(19, Q[s], lambda i, j: [q(tex[i]), o, n, 1])
        )
        # exposures on a grid
        if nt % 2 == 0:
            t2 = texp.reshape(2, -1) if np.ndim(texp) else texp
            s = Q.ask(
                light.get_light_curve(
                    orbit=orbit, r=r, t=t.reshape(2, -1), texp=t2, order=order, oversample=n, use_in_transit=False
                )
            )
            todo.append(
                lambda s=s, o=order, n=n: flux_events(19, Q[s], lambda i, j: [q(tex[i]), o, n, 0])
            )
        # an unknown order
        bad = (3, -1, 4, 7)[x % 4]
        try:
            light.get_light_curve(orbit=orbit, r=r, t=t, texp=texp, order=bad)
            ok = 0
        except ValueError:
            ok = 1
        ev.append([21, bad, ok])
    if "eclipses" in kinds:
        v1, v2 = fl(scn["v"][0]), fl(scn["v"][1])
        sbr = fl(scn["v"][2])
        both = xo.SecondaryEclipseLightCurve([u1, u2], [v1, v2], sbr)
        order, n = SCHEMES[x % len(SCHEMES)]
        tail = list(scn["v"])
        for tx, txx, late in (
            ((None, 0 * t, 0), (None, 0 * t, 1)) + ((texp, tex, 0),) * (texp is not None)
            + ((texp, tex, 1),) * (texp is not None and x // 14 % 2)
        ):
            args = {} if late or x // 7 % 2 else dict(use_in_transit=False)
            if late:
                args["light_delay"] = True
            s = Q.ask(
                both.get_light_curve(
                    orbit=orbit,
                    r=r,
                    t=t,
                    texp=tx,
                    order=order,
                    oversample=n,
                    **args,
                )
            )

            def fn(s=s, txx=txx, late=late):
                F = grid(Q[s], nt, nb)
                for j in range(nb):
                    for i in range(nt):
                        ev.append(
                            [20, j, q(t[i]), q(rp[j])]
                            + U
                            + tail
                            + [q(F[i, j]), q(txx[i]), order, n, late]
                        )

            todo.append(fn)
    if "ratio" in kinds:
        d = np.array([fl(v) for v in scn["depths"]])
        b = np.array([fl(v) for v in scn["bs"]])
        k, jac = light.get_ror_from_approx_transit_depth(d, b, jac=True)
        k2 = light.get_ror_from_approx_transit_depth(d, b)
        k3, jac3 = light.get_ror_from_approx_transit_depth(
            d[0].item(), b[0].item(), jac=True
        )
        s = Q.ask(k, jac, k2, k3, jac3)

        def fn(s=s):
            k, jac, k2, k3, jac3 = Q[s]
            for i in range(len(d)):
                for kk in (k[i], k2[i]):
                    ev.append([22] + U + [q(d[i]), q(b[i]), q(kk), q(jac[i])])
            ev.append([22] + U + [q(d[0]), q(b[0]), q(k3), q(jac3)])

        todo.append(fn)
    Q.run()
    for fn in todo:
        fn()
    return ev
