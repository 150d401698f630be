"""Prior densities recorded from PyMC models (P01-P04, E01, E02)."""
import numpy as np
import pymc as pm
import pytensor
import pytensor.tensor as pt
from common import evaluate, fl, q

import exoplanet as xo

ANGLE, DISK, LIMB, IMPACT, KIPPING, VANEYLEN = range(1, 7)
HYPER = {KIPPING: ("alpha", "beta"), VANEYLEN: ("sigma_gauss", "sigma_rayleigh", "frac")}


def settings(scn, dist):
    """Keyword arguments of the distribution."""
    kw = {}
    if dist == ANGLE and scn["reg"][0] == 1:
        kw["regularization"] = None
    elif dist == ANGLE and scn["reg"][0] == 2:
        kw["regularization"] = fl(scn["reg"][1])
    if dist >= KIPPING:
        kw["fixed"] = not scn["free"]
        if scn["lo"][0]:
            kw["lower"] = fl(scn["lo"][1])
        if scn["hi"][0]:
            kw["upper"] = fl(scn["hi"][1])
        if scn["x"] % 7 == 0:
            del kw["fixed"]
            if scn["free"]:
                kw["fixed"] = False
    if dist == KIPPING and scn["variant"]:
        kw["long"] = scn["variant"] == 1
    if dist == VANEYLEN and scn["variant"]:
        kw["multi"] = scn["variant"] == 1
    return kw


def ratio(scn):
    ror = np.array([fl(v) for v in scn["ror"]])
    if not scn["vector"]:
        return ror[0]
    return ror


def start(scn, dist):
    v = np.array([fl(a) for a in scn["start"]])
    n = scn["n"]
    if dist in (DISK, LIMB):
        v = v.reshape((2, n))
        return v if scn["vector"] else v[:, 0]
    return v if scn["vector"] else v[0]


def build(scn, dist, kw):
    """The variables in the order of the specification, and the ratio."""
    D = xo.distributions
    n = scn["n"]
    if scn["vector"] and dist != IMPACT:
        kw["shape"] = n if (scn["x"] // 7) % 2 else (n,)
    if dist == ANGLE:
        return [D.angle("a", **kw)], None
    if dist == DISK:
        return list(D.unit_disk("a", "c", **kw)), None
    if dist == LIMB:
        f = D.QuadLimbDark if scn["x"] % 5 == 0 else D.quad_limb_dark
        return [f("a", **kw)], None
    if dist == IMPACT:
        f = D.ImpactParameter if scn["x"] % 5 == 0 else D.impact_parameter
        r = ratio(scn)
        if scn["random"] == 2 and scn["vector"]:
            # one ratio for all of them
            r0 = pm.Uniform("r", 0.0, 2 * r[0])
            kw["shape"] = n if (scn["x"] // 7) % 2 else (n,)
            return [f("a", r0, **kw), r0], r0 * np.ones(n)
        if scn["random"]:
            r = pm.Uniform("r", 0.0, 2 * r, shape=np.shape(r))
            if scn["vector"] and scn["x"] % 3 == 0:
                kw["shape"] = (n,)
            return [f("a", r, **kw), r], r
        kind = scn["x"] % 3
        if kind == 1 and scn["vector"]:
            kw["shape"] = (n,)
        given = pt.as_tensor_variable(r) if kind == 2 else r
        return [f("a", given, **kw)], pt.as_tensor_variable(r)
    f = D.eccentricity.kipping13 if dist == KIPPING else D.eccentricity.vaneylen19
    return [f("a", **kw)], None


def density(x):
    """A log density; no density at all is a huge negative number (and what is
    not a number stays that)."""
    return q(-9e13 if x == -np.inf else x)


def flat(x):
    return pt.as_tensor_variable(x).flatten()


def record(scn, dist):
    bounded = bool(scn["lo"][0] or scn["hi"][0])
    ev = [
        [1, dist, scn["n"], scn["free"], scn["variant"], int(bounded), q(fl(scn["lo"][1])), q(fl(scn["hi"][1]))]
    ]
    try:
        if dist == ANGLE:
            ev += turns(scn)
        else:
            ev += densities(scn, dist)
            if dist >= KIPPING:
                ev += observed(scn, dist)
        ev += starts(scn, dist)
    except Exception as e:
        ev.append([9, 1])
        scn["raised"] = "%s: %s" % (type(e).__name__, str(e)[:300])
    return ev


def compiled(m, outs):
    vs = m.value_vars
    lp = m.logp(jacobian=True)
    outs = m.replace_rvs_by_values(list(outs))
    return vs, pytensor.function(
        vs, [lp] + outs, on_unused_input="ignore", mode=pytensor.compile.mode.Mode(linker="py", optimizer=None)
    )


def fill(m, z):
    """The numbers z as values of the model's unconstrained variables (close
    to their start values for hyperparameters)."""
    ip = m.initial_point()
    out, k = [], 0
    for v in m.value_vars:
        a = np.asarray(ip[v.name])
        new = np.array(z[k : k + a.size], dtype=float).reshape(a.shape)
        out.append(a + 0.15 * new if v.name.startswith("a::") else new)
        k += a.size
    return out, k


def hypers(m, dist):
    return [m["a::" + h] for h in HYPER[dist]] if dist >= KIPPING else []


def densities(scn, dist):
    with pm.Model() as m:
        outs, ror = build(scn, dist, settings(scn, dist))
    if dist >= KIPPING and scn["free"]:
        outs += hypers(m, dist)
    n = scn["n"]
    vs = m.value_vars
    if ror is None:
        ror = np.zeros(n)
    vec, rr = m.replace_rvs_by_values([pt.concatenate([flat(o) for o in outs]), flat(ror)])
    size = fill(m, [0.0] * 99)[1]
    lp = m.logp(jacobian=True)
    grads = []
    for i in range(size):
        g = pytensor.grad(vec[i], vs, disconnected_inputs="ignore", return_disconnected="zero")
        grads.append(pt.concatenate([flat(a) for a in g]))
    f = pytensor.function(
        vs, [lp, rr, vec] + grads, on_unused_input="ignore",
        mode=pytensor.compile.mode.Mode(linker="py", optimizer=None),
    )
    ev = []
    for z in scn["points"]:
        out = f(*fill(m, [fl(v) for v in z])[0])
        m_ = len(out[2])
        if m_ != size:
            raise ValueError("%d variables for %d parameters" % (size, m_))
        ev.append([2, m_, density(out[0])] + [q(v) for a in out[1:] for v in np.ravel(a)])
    return ev


def observed(scn, dist):
    """Eccentricities given as data."""
    ev = []
    n = scn["n"]
    cases = scn["given"]
    # as a variable, for many values; and as plain numbers
    for k in range(2):
        e = pt.dvector("e") if scn["vector"] else pt.dscalar("e")
        num = np.array([fl(v) for v in cases[k]])
        num = num if scn["vector"] else num[0]
        given = e if k == 0 else (float(num) if not scn["vector"] else list(num) if scn["x"] % 2 else num)
        with pm.Model() as m:
            kw = settings(scn, dist)
            build(dict(scn, vector=False), dist, dict(kw, observed=given))
        outs = hypers(m, dist) if scn["free"] else []
        vs = m.value_vars
        size = fill(m, [0.0] * 99)[1]
        vec = m.replace_rvs_by_values([pt.concatenate([flat(o) for o in outs])])[0] if outs else pt.zeros((0,))
        grads = [
            pt.concatenate([flat(a) for a in pytensor.grad(vec[i], vs, disconnected_inputs="ignore", return_disconnected="zero")])
            for i in range(size)
        ]
        f = pytensor.function(
            [e] + vs, [m.logp(jacobian=True), vec] + grads, on_unused_input="ignore",
            mode=pytensor.compile.mode.Mode(linker="py", optimizer=None),
        )
        for j, es in enumerate(cases if k == 0 else cases[k : k + 1]):
            es = np.array([fl(v) for v in es])
            out = f(es if scn["vector"] else es[0], *fill(m, [fl(v) for v in scn["points"][j]])[0])
            M = n + len(out[1])
            J = np.eye(M)
            for i, g in enumerate(out[2:]):
                J[n + i, n:] = g
            ev.append([2, M, density(out[0])] + [0] * n + [q(v) for v in es] + [q(v) for v in out[1]] + [q(v) for v in np.ravel(J)])
    return ev


def turns(scn):
    n = scn["n"]
    with pm.Model() as m:
        outs, _ = build(scn, ANGLE, settings(scn, ANGLE))
    vs = m.value_vars
    vec = m.replace_rvs_by_values([flat(outs[0])])[0]
    size = fill(m, [0.0] * 99)[1]
    if size != 2 * n:
        raise ValueError("%d numbers for %d angles" % (size, n))
    grads = [
        pt.concatenate([flat(a) for a in pytensor.grad(vec[i], vs, disconnected_inputs="ignore", return_disconnected="zero")])
        for i in range(n)
    ]
    f = pytensor.function(vs, [m.logp(jacobian=True), vec] + grads,
                          mode=pytensor.compile.mode.Mode(linker="py", optimizer=None))
    # which two coordinates belong to which angle
    out = f(*fill(m, [0.3 + 0.1 * i for i in range(size)])[0])
    pairs = [list(np.flatnonzero(np.abs(g) > 1e-9)) for g in out[2:]]
    if any(len(p) != 2 for p in pairs) or len(set(sum(pairs, []))) != 2 * n:
        raise ValueError("angles depend on the coordinates %s" % pairs)
    ev = []
    for g in range(3):
        radii = [fl(v) * (1.0, 0.3, 2.0)[g] for v in scn["radii"]]
        for k, phis in enumerate(scn["points"]):
            z = np.zeros(size)
            phis = [fl(v) for v in phis[:n]]
            for r, phi, (a, b) in zip(radii, phis, pairs):
                # directions along the axes exactly
                c, s = np.cos(phi), np.sin(phi)
                z[a] = r * (0.0 if abs(c) < 1e-12 else c)
                z[b] = r * (0.0 if abs(s) < 1e-12 else s)
            out = f(*fill(m, z)[0])
            ev.append([3, k + 1, density(out[0])] + [q(v) for v in phis] + [q(v) for v in out[1]])
    return ev


def starts(scn, dist):
    """Where the models start, if asked to start somewhere."""
    want = start(scn, dist)
    key = "testval" if scn["x"] % 4 == 0 and dist < KIPPING else "initval"
    with pm.Model() as m:
        outs, _ = build(scn, dist, dict(settings(scn, dist), **{key: want}))
    vs, f = compiled(m, [flat(outs[0])] if dist != DISK else [flat(outs[0]), flat(outs[1])])
    ip = m.initial_point()
    out = f(*[ip[v.name] for v in vs])
    found = np.concatenate([np.ravel(o) for o in out[1:]])
    want = np.ravel(want)
    if len(found) != len(want):
        raise ValueError("%d parameters, not %d" % (len(found), len(want)))
    ev = [[4, len(want), int(np.isfinite(out[0]))] + [q(v) for v in want] + [q(v) for v in found]]
    # without a request, somewhere
    with pm.Model() as m:
        build(scn, dist, settings(scn, dist))
    vs, f = compiled(m, [])
    ip = m.initial_point()
    ev.append([4, 0, int(np.isfinite(f(*[ip[v.name] for v in vs])[0]))])
    return ev
