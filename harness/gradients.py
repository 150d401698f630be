"""Symbolic gradients (K11), recorded for spec/grads_trace.qnt."""
import numpy as np
import pytensor
import pytensor.tensor as pt
from common import evaluate, fl, q
from orbits import declare, grid, orbit_kwargs
from pytensor.compile.mode import Mode

import exoplanet as xo

CODE = dict(
    period=1, a=2, ecc=3, omega=4, Omega=5, incl=6, b=6, t0=7, t_periastron=7,
    m_planet=8, m_star=9, r_star=10, rho_star=11, duration=12, ror=13,
)
CALLS = (
    "get_relative_position get_planet_position get_star_position get_planet_velocity "
    "get_star_velocity get_relative_velocity"
).split()


def symbolic(value):
    v = np.asarray(value, dtype=float)
    return (pt.dscalar() if v.ndim == 0 else pt.dvector()), v


def record(scn, kinds):
    ev = declare(scn)
    try:
        ev += _record(scn, kinds)
    except Exception as e:
        ev.append([9, 1])
        scn["raised"] = "%s: %s" % (type(e).__name__, str(e)[:300])
    return ev


def gradients(objective, names, inputs):
    gs = pytensor.grad(objective, [inputs[n] for n in names], disconnected_inputs="ignore", return_disconnected="zero")
    return gs


def _record(scn, kinds):
    nb = len(scn["g"])
    x = scn["x"][0]
    times = np.array([fl(v) for v in scn["times"]])
    nt = len(times)
    kw = orbit_kwargs(dict(scn, x=[16], scalar=scn["scalar"]))  # as plain floats
    inputs, values = {}, {}
    for k, v in kw.items():
        inputs[k], values[k] = symbolic(v)
    orbit = xo.orbits.KeplerianOrbit(**inputs)
    t = pt.dvector()
    outs = {}
    arcsec = q(0.05 + fl(scn["K"][0]) % 0.3)
    what = x % 14
    if "orbit" in kinds:
        for c in {what, (what + 5) % 14}:
            if c == 13:
                outs[c] = [orbit.get_relative_angles(t)[1]]
            elif c == 12:
                outs[c] = [orbit.get_relative_angles(t, parallax=fl(arcsec))[0]]
            elif c == 11:
                outs[c] = list(orbit.get_relative_position(t, light_delay=True))
            elif c == 10:
                outs[c] = list(orbit.get_relative_acceleration(t))
            elif c == 9:
                outs[c] = list(orbit.get_star_acceleration(t))
            elif c < 6:
                outs[c] = list(getattr(orbit, CALLS[c])(t))
            elif c == 6:
                outs[c] = [orbit.get_radial_velocity(t)]
            elif c == 7:
                inputs["K"], values["K"] = symbolic(np.array([fl(v) for v in scn["K"]]))
                outs[c] = [orbit.get_radial_velocity(t, K=inputs["K"])]
            else:
                outs[c] = list(orbit.get_planet_acceleration(t))
    if "attrs" in kinds:
        for c, k in enumerate("a period m_star r_star rho_star b cos_incl t0 t_periastron".split()):
            if (x + c) % 3 == 0:
                outs[20 + c] = [pt.zeros((nt, nb)) + getattr(orbit, k)]
    if "flux" in kinds:
        for k, v in (("u1", fl(scn["u1"])), ("u2", fl(scn["u2"])), ("r", np.array([fl(a) for a in scn["rp"]]))):
            inputs[k], values[k] = symbolic(v)
        light = xo.LimbDarkLightCurve(inputs["u1"], inputs["u2"])
        args = dict(use_in_transit=False) if x // 9 % 2 else {}
        rule, over = ((0, 3), (1, 3), (2, 3), (0, 1), (1, 5), (2, 5))[x // 18 % 6]
        tex = None
        if scn["texp"][0] and x % 2:
            tex = scn["texp"][0] // 4
            tex = fl(tex) * (1 + np.arange(nt) / 8.0) if scn["texp"][1] else fl(tex)
            inputs["texp"], values["texp"] = symbolic(tex)
            args.update(texp=inputs["texp"], order=rule, oversample=over)
        outs[100] = [light.get_light_curve(orbit=orbit, r=inputs["r"], t=t, **args)]
    inputs["t"], values["t"] = t, times
    names = list(inputs)
    for c in (12, 13):
        # (on top of the star, but for rounding, there is no direction to it)
        if c in outs:
            sep = evaluate([orbit.get_relative_angles(t)[0]], list(inputs.values()), [values[n] for n in names])[0]
            if np.min(sep) < 1e-6:
                del outs[c]
    weights = {}
    tensors, order = [], []
    for c, o in outs.items():
        weights[c] = [pt.dmatrix() for _ in o]
        objective = sum(pt.sum(w * pt.reshape(a, (nt, nb))) for w, a in zip(weights[c], o))
        order.append(c)
        tensors += gradients(objective, names, inputs)
    wl = [w for c in order for w in weights[c]]
    f = pytensor.function(
        [inputs[n] for n in names] + wl, tensors, on_unused_input="ignore",
        mode=Mode(linker="py", optimizer=None),
    )
    ev = []
    code = dict(CODE, t=0, K=17, r=14, u1=15, u2=16, texp=18)
    for m in range(len(scn["times"])):
        i, j = m, (x + m) % nb
        W = [fl(a) for a in (scn["v"] + [10**18])[:3]]
        W = np.array([1.0, 0.5 + W[0], -1.0 - W[1]])[[(m + k) % 3 for k in range(3)]]
        wv, wuse = [], {}
        for c in order:
            n = len(weights[c])
            use = [float(a) for a in W[:n]] if n == 3 else [1.0]
            wuse[c] = use + [0.0] * (3 - n)
            for a in use:
                M = np.zeros((nt, nb))
                M[i, j] = a
                wv.append(M)
        got = f(*[values[n] for n in names], *wv)
        for ci, c in enumerate(order):
            gs = dict(zip(names, got[ci * len(names) : (ci + 1) * len(names)]))
            if "sin_omega" in gs:
                s, co = np.ravel(values["sin_omega"]), np.ravel(values["cos_omega"])
                gs["omega"] = co * np.ravel(gs.pop("sin_omega")) - s * np.ravel(gs.pop("cos_omega"))
            for n, g in gs.items():
                g = np.ravel(g)
                if n not in code:
                    continue
                at = i if n == "t" else j if len(g) > 1 else 0
                if n == "texp" and len(g) > 1:
                    at = i
                if n in ("u1", "u2", "r", "texp") and c != 100 or n == "K" and c != 7:
                    continue
                for k in range(len(g)):
                    if k != at and g[k] != 0.0:
                        ev.append([4, q(g[k]) or 1])
                if c == 100 and tex is not None:
                    one = values["texp"] if values["texp"].ndim == 0 else values["texp"][i]
                    ev.append(
                        [5, j, q(times[i]), scn["rp"][j], scn["u1"], scn["u2"], code[n], q(g[at]), q(one), rule, over]
                    )
                elif c == 100:
                    ev.append([3, j, q(times[i]), scn["rp"][j], scn["u1"], scn["u2"], code[n], q(g[at])])
                else:
                    ev.append([2, j, q(times[i]), arcsec if c == 12 else scn["K"][j], c] + [q(a) for a in wuse[c]] + [code[n], q(g[at])])
    return ev


def _weights(scn, m):
    W = [fl(a) for a in (scn.get("v", [2 * 10**17, 3 * 10**17, 0]) + [10**18])[:3]]
    W = [1.0, 0.5 + W[0], -1.0 - W[1]]
    return [W[(m + k) % 3] for k in range(3)]


# -------------------------------------------------------------- timing orbits
def record_timing(scn, kinds):
    from timing import timing_kwargs

    ev = [[0]]
    for d, lab in zip(declare(scn)[1:], scn["labs"]):
        ev.append(d)
        row = [2, lab["mode"], q(fl(lab["dlog"])), len(lab["idx"])]
        for i, y in zip(lab["idx"], lab["y"]):
            row += [i, q(fl(y))]
        ev.append(row)
    try:
        ev += _record_timing(scn, timing_kwargs(dict(scn, x=[86])))
    except Exception as e:
        ev.append([9, 1])
        scn["raised"] = "%s: %s" % (type(e).__name__, str(e)[:300])
    return ev


def _record_timing(scn, kw):
    nb = len(scn["g"])
    times = np.array([fl(v) for v in scn["times"]])
    nt = len(times)
    inputs, values = {}, {}
    lists = "ttvs" if "ttvs" in kw else "transit_times"
    for k, v in dict(kw).items():
        if k == lists:
            kw[k] = []
            for j, a in enumerate(v):
                inputs[(k, j)], values[(k, j)] = symbolic(a)
                kw[k].append(inputs[(k, j)])
        elif k in ("period", "delta_log_period", "t0", "t_periastron"):
            inputs[k], values[k] = symbolic(v)
            kw[k] = inputs[k]
    orbit = xo.orbits.TTVOrbit(**kw)
    t = pt.dvector()
    inputs["t"], values["t"] = t, times
    out = orbit.get_relative_position(t)
    ws = [pt.dmatrix() for _ in out]
    objective = sum(pt.sum(w * pt.reshape(a, (nt, nb))) for w, a in zip(ws, out))
    names = list(inputs)
    f = pytensor.function(
        [inputs[n] for n in names] + ws, gradients(objective, names, inputs), on_unused_input="ignore",
        mode=Mode(linker="py", optimizer=None),
    )
    ev = []
    for i in range(nt):
        j = (scn["x"][0] + i) % nb
        W = _weights(scn, i)
        M = [np.zeros((nt, nb)) for _ in W]
        for m, a in zip(M, W):
            m[i, j] = a
        for n, g in zip(names, f(*[values[n] for n in names], *M)):
            g = np.ravel(g)
            head = [15, j, q(times[i])]
            tail = [q(a) for a in W]
            if n == "t":
                ev.append(head + [0, 0] + tail + [q(g[i])])
            elif n == "delta_log_period":
                ev.append(head + [2, 0] + tail + [q(g[j])])
            elif n == "period":
                ev.append(head + [1, 0] + tail + [q(g[j])])
            elif n in ("t0", "t_periastron"):
                ev.append(head + [3, 0] + tail + [q(g[j])])
            elif n[1] == j:
                ev += [head + [4, k] + tail + [q(g[k])] for k in range(len(g))]
            elif np.any(g != 0.0):
                ev.append([14, 0, 0, 10**18, 0])
    return ev


# -------------------------------------------------------------- simple orbits
def record_simple(scn, kinds):
    from timing import simple_kwargs

    ev = [[0]]
    for c in scn["c"]:
        ev.append([1] + [q(fl(c[k])) for k in ("P", "dur", "t0", "b", "rs", "ror")])
    try:
        ev += _record_simple(scn, simple_kwargs(scn))
    except Exception as e:
        ev.append([9, 1])
        scn["raised"] = "%s: %s" % (type(e).__name__, str(e)[:300])
    return ev


def _record_simple(scn, kw):
    nb = len(scn["c"])
    times = np.array([fl(v) for v in scn["times"]])
    nt = len(times)
    inputs, values = {}, {}
    for k, v in kw.items():
        inputs[k], values[k] = symbolic(v)
    orbit = xo.orbits.SimpleTransitOrbit(**inputs)
    t = pt.dvector()
    inputs["t"], values["t"] = t, times
    out = orbit.get_relative_position(t)[:2]
    ws = [pt.dmatrix() for _ in out]
    objective = sum(pt.sum(w * pt.reshape(a, (nt, nb))) for w, a in zip(ws, out))
    names = list(inputs)
    f = pytensor.function(
        [inputs[n] for n in names] + ws, gradients(objective, names, inputs), on_unused_input="ignore",
        mode=Mode(linker="py", optimizer=None),
    )
    code = dict(t=0, period=1, duration=2, t0=3, b=4, ror=5, r_star=6)
    ev = []
    for i in range(nt):
        j = (scn["x"][0] + i) % nb
        W = _weights(scn, i)[:2]
        M = [np.zeros((nt, nb)) for _ in W]
        for m, a in zip(M, W):
            m[i, j] = a
        for n, g in zip(names, f(*[values[n] for n in names], *M)):
            g = np.ravel(g)
            at = i if n == "t" else j if len(g) > 1 else 0
            if np.any(np.delete(g, at) != 0.0):
                ev.append([14, 0, 0, 10**18, 0])
            ev.append([15, j, q(times[i])] + [q(a) for a in W] + [code[n], q(g[at])])
    return ev
