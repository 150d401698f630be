"""Replays of interpolation (I01), tabulated light curves (L06) and units
(U01)."""
import numpy as np
from common import evaluate, fl, q

import exoplanet as xo
import pytensor
import pytensor.tensor as pt


def real(v):
    """A generated number, which may be the one that stands for NaN."""
    from common import NAN

    return float("nan") if v == NAN else fl(v)


# ------------------------------------------------------------ interpolation
def table_event(scn):
    grids = [[q(fl(v)) for v in g] for g in scn["grids"]]
    while len(grids) < 3:
        grids.append([0])
    nout = int(np.prod(scn["shape"], dtype=int))
    row = [1, len(scn["grids"])] + [len(g) for g in grids]
    row += [nout, scn["filled"], q(real(scn["fill"]))]
    for g in grids:
        row += g
    return row + [q(fl(v)) for v in scn["values"]]


def record_interp(scn, kinds):
    ev = [table_event(scn)]
    try:
        ev += _record_interp(scn, kinds)
    except Exception as e:
        ev.append([9, 1])
        scn["raised"] = "%s: %s" % (type(e).__name__, str(e)[:300])
    return ev


def _record_interp(scn, kinds):
    from exoplanet.interp import RegularGridInterpolator, regular_grid_interp

    x = scn["x"][0]
    nd = len(scn["grids"])
    grids = [np.array([fl(v) for v in g]) for g in scn["grids"]]
    shape = tuple(len(g) for g in grids) + tuple(scn["shape"])
    values = np.array([fl(v) for v in scn["values"]]).reshape(shape)
    pts = np.array([[fl(v) for v in p] for p in scn["points"]])
    fill = real(scn["fill"]) if scn["filled"] else None
    nout = int(np.prod(scn["shape"], dtype=int))
    ev = []
    if "value" in kinds:
        g, v, p = grids, values, pts
        if x % 4 == 1:
            g = [pt.as_tensor_variable(a) for a in g]
        elif x % 4 == 2:
            v, p = pt.as_tensor_variable(v), pt.as_tensor_variable(p)
        elif x % 4 == 3:
            g = tuple(list(a) for a in g)
        outs = [
            regular_grid_interp(g, v, p, **({} if fill is None else dict(fill_value=fill))),
            RegularGridInterpolator(g, v, fill_value=fill).evaluate(p),
            RegularGridInterpolator(g, v, fill_value=fill, nout=nout).evaluate(p[:1]),
        ]
        for out in evaluate(outs):
            if out.shape[1:] != tuple(scn["shape"]):
                raise ValueError("result of shape %s" % (out.shape,))
            out = out.reshape((len(out), nout))
            for i in range(len(out)):
                c = [q(a) for a in pts[i]] + [0] * (3 - nd)
                for o in range(nout):
                    ev.append([2] + c + [o, q(out[i, o])])
    if "gradient" in kinds:
        V, P = pt.as_tensor_variable(values.copy()), pt.dmatrix()
        W = np.zeros(nout)
        o = x % nout
        W[o] = 1.0
        V = pt.as_tensor_variable(values).copy()
        out = regular_grid_interp(grids, V, P, fill_value=fill)
        obj = pt.sum(pt.reshape(out, (-1, nout)) * W)
        i = x // 7 % len(pts)
        one = pt.sum(pt.reshape(out[i], (nout,)) * W)
        dP, dV = (
            np.asarray(a)
            for a in evaluate(
                [pytensor.grad(obj, P), pytensor.grad(one, V)], [P], [pts]
            )
        )
        for k in range(len(pts)):
            c = [q(a) for a in pts[k]] + [0] * (3 - nd)
            ev.append([3] + c + [o] + [q(a) for a in dP[k]] + [0] * (3 - nd))
        c = [q(a) for a in pts[i]] + [0] * (3 - nd)
        dV = dV.reshape(tuple(len(g) for g in grids) + (1,) * (3 - nd) + (nout,))
        for idx in np.ndindex(*dV.shape[:3]):
            ev.append([4] + c + [o] + list(idx) + [q(dV[idx + (o,)])])
    return ev


# ------------------------------------------------- tabulated light curves
class Probe:
    """A light curve that notes where it is evaluated."""

    def __init__(self, base):
        self.base = base
        self.times = []

    def get_light_curve(self, *args, **kwargs):
        self.times.append(kwargs["t"])
        return self.base.get_light_curve(*args, **kwargs)


def record_phase(scn, kinds):
    ev = [[0]]
    try:
        ev += _record_phase(scn, kinds)
    except Exception as e:
        ev.append([9, 1])
        scn["raised"] = "%s: %s" % (type(e).__name__, str(e)[:300])
    return ev


def phase_settings(scn):
    x = scn["x"][0]
    return dict(phases=6 + x % 36, cycle=(scn["x"][2], scn["x"][3] % 40 - 20))


def _record_phase(scn, kinds):
    from orbits import orbit_kwargs
    from transits import SCHEMES, exposures

    nb = len(scn["g"])
    x = scn["x"][0]
    t = np.array([fl(v) for v in scn["times"]])
    texp, _ = exposures(dict(texp=[scn["texp"][0], 0]), t)
    order, over = SCHEMES[x % len(SCHEMES)]
    rp = np.array([fl(v) for v in scn["rp"]])
    orbit = xo.orbits.KeplerianOrbit(**orbit_kwargs(scn))
    if x // 11 % 4 == 0:
        P, t0, b = evaluate([orbit.period, orbit.t0, orbit.b])
        rs = float(evaluate([orbit.r_star])[0])
        rp = rp / rs
        orbit = xo.orbits.SimpleTransitOrbit(
            period=P, t0=t0, b=np.clip(b, -0.9, 0.9), duration=0.03 * P
        )
    args = dict(texp=texp, order=order, oversample=over)
    if x // 44 % 3 == 0:
        args["use_in_transit"] = False
    base = xo.LimbDarkLightCurve(fl(scn["u1"]), fl(scn["u2"]))
    probe = Probe(base)
    st = phase_settings(scn)
    light = xo.light_curves.InterpolatedLightCurve(
        probe, st["phases"], num_planets=nb
    )
    r = rp[0].item() if scn["scalar"] else rp
    light.get_light_curve(orbit=orbit, r=r, t=t, **args)
    if len(probe.times) != nb:
        raise ValueError("tabulated %d times" % len(probe.times))
    grids = evaluate(probe.times + [orbit.t0, orbit.period])
    t0, P = (np.ravel(v) for v in grids[-2:])
    t0, P = t0 + np.zeros(nb), P + np.zeros(nb)
    ys = evaluate(
        [base.get_light_curve(orbit=orbit, r=r, t=g, **args) for g in grids[:nb]]
    )
    ev = []
    tt = [t]
    for j in range(nb):
        g = np.ravel(grids[j])
        y = np.asarray(ys[j]).reshape((len(g), nb))[:, j]
        row = [1, q(P[j]), q(t0[j]), st["phases"], len(g)]
        for a, b in zip(g, y):
            row += [q(a), q(b)]
        ev.append(row)
        # the grid's own phases, in some cycles
        for c in st["cycle"]:
            tt.append(g[1:-2] + c * P[j])
        # and any phase near a transit
        tt.append(t0[j] + P[j] * (np.arange(-6, 7) * 0.0073 + st["cycle"][0]))
    tt = np.concatenate(tt)
    if "slope" in kinds:
        j = x // 7 % nb
        ts = pt.dvector()
        one = light.get_light_curve(orbit=orbit, r=r, t=ts, **args)[:, j]
        slopes = evaluate([pytensor.grad(pt.sum(one), ts)], [ts], [tt])[0]
        return ev + [[3, j, q(tt[i]), q(slopes[i])] for i in range(len(tt))]
    out = evaluate([light.get_light_curve(orbit=orbit, r=r, t=tt, **args)])[0]
    if out.shape != (len(tt), nb):
        raise ValueError("result of shape %s" % (out.shape,))
    for j in range(nb):
        for i in range(len(tt)):
            ev.append([2, j, q(tt[i]), q(out[i, j])])
    return ev


# ------------------------------------------------------------------- units
def unit_table():
    import astropy.units as u

    return dict(
        P=[None, u.day, u.hour, u.minute, u.s, u.year, u.week],
        a=[None, u.R_sun, u.km, u.m, u.au, u.R_jup, u.R_earth, u.cm],
        mp=[None, u.M_sun, u.M_jup, u.M_earth, u.Unit(1e27 * u.kg), u.Unit(1e-3 * u.M_sun)],
        rho=[None, u.g / u.cm**3, u.kg / u.m**3, u.M_sun / u.R_sun**3],
    )


# roughly how many of each unit make a standard one: the numbers that are
# given need not be exact, they only have to be of the right size
SIZES = dict(
    P=[1, 1, 24, 1440, 86400, 1 / 365.0, 1 / 7.0],
    a=[1, 1, 7e5, 7e8, 1 / 215.0, 10.0, 110.0, 7e10],
    mp=[1, 1, 1000.0, 3e5, 2000.0, 1000.0],
    rho=[1, 1, 1000.0, 0.17],
)
QUANTITIES = ("P", "a", "mp", "ms", "rs", "rho", "dur")
DIMENSION = dict(P="P", dur="P", a="a", rs="a", mp="mp", ms="mp", rho="rho")
NAMES = dict(
    P="period", a="a", mp="m_planet", ms="m_star", rs="r_star",
    rho="rho_star", dur="duration",
)


def chosen_units(scn):
    """Which unit each quantity is given in (0: a plain number)."""
    x = scn["x"][0]
    out = {}
    for k in QUANTITIES:
        x = (x * 6364136223846793005 + 1442695040888963407) % 2**64
        out[k] = (x >> 33) % len(SIZES[DIMENSION[k]])
    return out


def unit_kwargs(scn):
    from exoplanet.units import with_unit
    from orbits import orbit_kwargs

    units = chosen_units(scn)
    g = [dict(b) for b in scn["g"]]
    for k, i in units.items():
        for b in g:
            b[k] = q(fl(b[k]) * SIZES[DIMENSION[k]][i])
    kw = orbit_kwargs(dict(scn, g=g, units=0))
    table = unit_table()
    x = scn["x"][0]
    for k, i in units.items():
        if not i or NAMES[k] not in kw:
            continue
        unit = table[DIMENSION[k]][i]
        v = kw[NAMES[k]]
        if k == "mp" and x % 5 == 0:
            kw["m_planet_units"] = unit
        elif k == "rho" and x % 7 == 0:
            kw["rho_star_units"] = unit
        else:
            if x % 2 and not hasattr(v, "type"):
                v = pt.as_tensor_variable(v)
            kw[NAMES[k]] = with_unit(v, unit)
    return kw, g, units


def record_units(scn, kinds):
    ev = [[0]]
    try:
        kw, g, units = unit_kwargs(scn)
        from orbits import ATTRS, attr, declare, grid

        for d in declare(dict(scn, g=g))[1:]:
            ev.append(d + [units[k] for k in QUANTITIES])
        orbit = xo.orbits.KeplerianOrbit(**kw)
        nb = len(g)
        t = np.array([fl(v) for v in scn["times"]])
        pos = [
            c
            for n in ("planet", "star", "relative")
            for c in getattr(orbit, "get_%s_position" % n)(t)
        ]
        vals = [getattr(orbit, n, None) for n in ATTRS]
        out = evaluate(pos + [0.0 if v is None else v for v in vals])
        P = [grid(v, len(t), nb) for v in out[:9]]
        A = [attr(v, nb) for v in out[9:]]
        for j in range(nb):
            ev.append([6, j] + [q(v[j]) for v in A])
            for i in range(len(t)):
                ev.append([2, j, q(t[i])] + [q(v[i, j]) for v in P])
        ev += unit_calls(scn)
    except Exception as e:
        ev.append([9, 1])
        scn["raised"] = "%s: %s" % (type(e).__name__, str(e)[:300])
    return ev


def unit_calls(scn):
    from exoplanet.units import has_unit, to_unit, with_unit

    x = scn["x"][0]
    table = unit_table()
    ev = []
    for dim, k in enumerate(("P", "a", "mp", "rho")):
        n = len(table[k])
        i, j = 1 + (x // 3 + dim) % (n - 1), 1 + (x // 17 + 2 * dim) % (n - 1)
        v = (1 + x % 1000 / 100) * SIZES[k][i]
        w = with_unit(v if x % 2 else pt.as_tensor_variable(v), table[k][i])
        r = float(evaluate([to_unit(w, table[k][j])])[0])
        ev.append([20, dim, i, j, q(v), q(r)])
        ev.append([22, 1, int(bool(has_unit(w)))])
        try:
            with_unit(w, table[k][j])
            ev.append([23, 0])
        except TypeError:
            ev.append([23, 1])
        # the refused unit has not replaced the first one
        ev.append([20, dim, i, j, q(v), q(evaluate([to_unit(w, table[k][j])])[0])])
        for plain in (v, np.array([v]), pt.as_tensor_variable(v)):
            ev.append([22, 0, int(bool(has_unit(plain)))])
            got = to_unit(plain, table[k][j])
            ev.append([21, q(v), q(np.ravel(evaluate([got])[0])[0])])
    return ev


# ------------------------------------------------------------ true anomalies
def record_anomaly(scn, kinds):
    ev = [[0]]
    try:
        ev += _record_anomaly(scn)
    except Exception as e:
        ev.append([9, 1])
        scn["raised"] = "%s: %s" % (type(e).__name__, str(e)[:300])
    return ev


def _record_anomaly(scn):
    x = scn["x"][0]
    M = np.array([fl(v) for v in scn["M"]])
    e = np.array([fl(v) for v in scn["e"]])
    n = len(M)
    shape = [(n,), (1, n), (n, 1), (2, -1) if n % 2 == 0 else (n,)][x % 4]
    if n == 1 and x // 4 % 2:
        shape = ()
    M, e = M.reshape(shape), e.reshape(shape)
    Mt, et = (pt.tensor(dtype="float64", shape=(None,) * M.ndim) for _ in range(2))
    sym = xo.orbits.get_true_anomaly(Mt, et)
    f = evaluate([sym], [Mt, et], [M, e])[0]
    ev = []
    answers = [f]
    if x // 8 % 2:
        direct = [M, e] if M.ndim else [float(M), float(e)]
        answers.append(evaluate([xo.orbits.get_true_anomaly(*direct)])[0])
    else:
        extra = dict(tol=1e-9, maxiter=100)
        answers.append(
            evaluate([xo.orbits.get_true_anomaly(pt.as_tensor_variable(M), pt.as_tensor_variable(e), **extra)])[0]
        )
    for a in answers:
        if np.shape(a) != M.shape:
            raise ValueError("anomalies of shape %s" % (np.shape(a),))
        for v, w, b in zip(M.ravel(), e.ravel(), np.ravel(a)):
            ev.append([2, q(v), q(w), q(b)])
    k = x // 16 % n
    pick = np.zeros(n)
    pick[k] = 1.0
    grads = pytensor.grad(pt.sum(sym * pick.reshape(shape)), [Mt, et])
    dM, de = (np.ravel(g) for g in evaluate(grads, [Mt, et], [M, e]))
    ev.append([3, q(M.ravel()[k]), q(e.ravel()[k]), q(dM[k]), q(de[k])])
    for g in (dM, de):
        for other in np.delete(g, k):
            ev.append([4, q(other) if other == 0.0 or not np.isfinite(other) else q(other) or 1])
    return ev
