"""Replays generated planetary systems against exoplanet and records traces
for the specification in spec/orbits_trace.qnt."""
import numpy as np
from common import NAN, evaluate, fl, q

import exoplanet as xo
import pytensor.tensor as pt

FLAGS = ("pm", "sm", "ek", "ok", "ik", "tk")
GIVENS = ("P", "a", "e", "w", "O", "iv", "tr", "mp", "ms", "rs", "rho", "dur", "ror")


def exact(fn, w):
    if not isinstance(w, (float, int, np.ndarray)):
        return getattr(pt, fn.__name__)(w)
    v = fn(w)
    return np.where(np.abs(v) < 1e-15, 0.0, v) if isinstance(w, np.ndarray) else 0.0 if abs(v) < 1e-15 else v


def orbit_kwargs(scn, once=False):
    g = scn["g"]
    f = g[0]

    def arr(name):
        v = np.array([fl(b[name]) for b in g])
        if scn["x"][0] // 5 % 3 == 0 and np.all(v == np.round(v)):
            v = v.astype(int)  # whole numbers may be given as such
        if scn["scalar"]:
            v = v[0].item()
        elif once and len(v) > 1 and name in ("e", "w", "O", "iv", "tr", "mp") and np.all(v == v[0]):
            v = v[0].item()  # what planets have in common is given once
        if scn["x"][0] // 15 % 4 == 0:
            v = pt.as_tensor_variable(v)
        return v

    kw = {}
    if f["pm"] in (0, 2, 3):
        kw["period"] = arr("P")
    if f["pm"] in (1, 2):
        kw["a"] = arr("a")
    if f["pm"] == 3:
        kw["duration"] = arr("dur")
        if any(b["ror"] for b in g):
            kw["ror"] = arr("ror")
    if f["sm"] in (1, 3):
        kw["m_star"] = fl(f["ms"])
    if f["sm"] in (1, 2, 5):
        kw["r_star"] = fl(f["rs"])
    if f["sm"] in (2, 3, 4):
        kw["rho_star"] = fl(f["rho"])
    if f["ek"]:
        kw["ecc"] = arr("e")
    if f["ek"] == 1:
        kw["omega"] = arr("w")
    elif f["ek"] == 2:
        # along the axes these are exact
        kw["sin_omega"] = exact(np.sin, arr("w"))
        kw["cos_omega"] = exact(np.cos, arr("w"))
    if f["ok"]:
        kw["Omega"] = arr("O")
    if f["ik"] == 1:
        kw["incl"] = arr("iv")
    elif f["ik"] == 2:
        kw["b"] = arr("iv")
    if f["tk"] == 1:
        kw["t0"] = arr("tr")
    elif f["tk"] == 2:
        kw["t_periastron"] = arr("tr")
    if any(b["mp"] for b in g):
        kw["m_planet"] = arr("mp")
    return with_units(kw, scn.get("units", 0))


def with_units(kw, which):
    """The same system, given in other units (exact ratios only)."""
    import astropy.units as u
    from exoplanet.units import with_unit

    kw = dict(kw)
    table = dict(
        period=(u.hour, 24.0),
        duration=(u.minute, 1440.0),
        r_star=(u.km, 695700.0),
    )
    for bit, (k, (unit, factor)) in enumerate(sorted(table.items())):
        if which >> bit & 1 and k in kw:
            kw[k] = with_unit(
                pt.as_tensor_variable(kw[k]).astype("float64") * factor, unit
            )
    return kw


def declare(scn):
    """The DECLARE events: what exoplanet is given, as it is given."""
    ev = [[0]]
    for b in scn["g"]:
        ev.append([1] + [b[k] for k in FLAGS] + [q(fl(b[k])) for k in GIVENS])
    return ev


def grid(v, nt, nb):
    """The (time, planet) grid of a returned array; the documented shape is
    that of the times with one column per planet, with unit axes dropped."""
    v = np.asarray(v, dtype=float)
    return v.reshape((nt, nb))


def attr(v, nb):
    v = np.asarray(v, dtype=float).ravel()
    if v.size not in (1, nb):
        raise ValueError("attribute of size %d for %d planets" % (v.size, nb))
    return np.broadcast_to(v, (nb,))


ATTRS = (
    "a period m_star r_star rho_star m_planet incl cos_incl sin_incl b t0 "
    "t_periastron ecc omega Omega a_planet a_star m_total n"
).split()


def record(scn, kinds):
    """Replay one scenario; the calls to make are chosen by `kinds`."""
    ev = declare(scn)
    try:
        ev += _record(scn, kinds)
    except Exception as e:  # an admissible call raised
        ev.append([9, 1])
        scn["raised"] = "%s: %s" % (type(e).__name__, str(e)[:300])
    return ev


def _triples(orbit, names, *args, **kw):
    outs = []
    for n in names:
        outs += list(getattr(orbit, n)(*args, **kw))
    return outs


def _record(scn, kinds):
    nb = len(scn["g"])
    t = np.array([fl(x) for x in scn["times"]])
    # the form of the time argument: a vector, a grid, one instant, tensors
    form = scn["x"][0] % 5
    if form == 1 and len(t) % 2 == 0:
        t = t.reshape(2, -1)
    elif form == 2:
        t = np.float64(t[0])
    elif form == 3:
        t = pt.as_tensor_variable(t)
    orbit = xo.orbits.KeplerianOrbit(**orbit_kwargs(scn, once=scn["x"][0] // 60 % 2))
    targ = t
    if form == 3:
        t = np.array([fl(x) for x in scn["times"]])
    t = np.ravel(t)
    nt = len(t)
    ev = []
    outs, plan = [], []

    def ask(kind, tensors, meta=None):
        plan.append((kind, len(outs), len(tensors), meta))
        outs.extend(tensors)

    pos = ("get_planet_position", "get_star_position", "get_relative_position")
    if "pos" in kinds:
        ask("pos", _triples(orbit, pos, targ))
    if "angles" in kinds:
        for px in (None, fl(scn["parallax"])):
            ask(
                "angles",
                list(orbit.get_relative_angles(targ, parallax=px)) + _triples(orbit, pos, targ, parallax=px),
                px or 0.0,
            )
    if "vel" in kinds:
        ask(
            "vel",
            _triples(
                orbit,
                (
                    "get_planet_velocity",
                    "get_star_velocity",
                    "get_relative_velocity",
                ),
                targ,
            ),
        )
    if "acc" in kinds:
        ask(
            "acc",
            _triples(
                orbit,
                (
                    "get_planet_acceleration",
                    "get_star_acceleration",
                    "get_relative_acceleration",
                ),
                targ,
            ),
        )
    if "delay" in kinds:
        ask("delay", _triples(orbit, pos, targ, light_delay=True))
    if "delayarc" in kinds:
        for px in (None, fl(scn["parallax"])):
            ask(
                "delayarc",
                list(orbit.get_relative_angles(targ, parallax=px, light_delay=True))
                + _triples(orbit, pos, targ, parallax=px, light_delay=True),
                px or 0.0,
            )
    if "attrs" in kinds:
        vals = []
        for n in ATTRS:
            v = getattr(orbit, n, None)
            vals.append(0.0 if v is None else v)
        ask("attrs", vals)
    if "rv" in kinds:
        import astropy.units as u

        K = np.array([fl(k) for k in scn["K"]])
        if scn["scalar"]:
            K = float(K[0])
        ask(
            "rv",
            [
                orbit.get_radial_velocity(targ),
                orbit.get_radial_velocity(targ, output_units=u.km / u.s),
                orbit.get_radial_velocity(targ, output_units=u.R_sun / u.day),
                orbit.get_radial_velocity(targ, K=K),
            ],
            K,
        )
    if "ref" in kinds:
        # reference transits and periastron passages, at the times the
        # orbit itself reports
        t0, P, tp = (
            attr(x, nb)
            for x in evaluate([orbit.t0, orbit.period, orbit.t_periastron])
        )
        cyc = scn["x"][1:]
        tt = np.concatenate(
            [t0 + k * P for k in cyc] + [t0 + (k + 1) * P for k in cyc]
        )
        ask("ref", list(orbit.get_relative_position(tt)), (tt, cyc))
        tq = np.concatenate([tp + k * P for k in cyc] + [t])
        ask("peri", list(orbit.get_relative_position(tq)), (tq, cyc))

    if "contact" in kinds:
        t0, P = (attr(x, nb) for x in evaluate([orbit.t0, orbit.period]))
        D = np.array([fl(b["dur"]) for b in scn["g"]])
        tt = np.concatenate(
            [t0 + k * P + s * D for k in scn["x"][1:] for s in (-0.5, 0.5)]
        )
        ask("contact", list(orbit.get_relative_position(tt)), tt)
        jac = orbit.jacobians["duration"]
        ask(
            "durjac",
            [jac["a"], jac["a_planet"], jac["a_star"], jac["rho_star"]],
        )
    if "bjac" in kinds:
        ask("bjac", [orbit.jacobians["b"]["cos_incl"]])

    vals = evaluate(outs)
    KIND = dict(pos=2, vel=3, acc=4, delay=8)
    for kind, a, n, meta in plan:
        v = vals[a : a + n]
        if kind in KIND:
            v = [grid(x, nt, nb) for x in v]
            for j in range(nb):
                for i in range(nt):
                    ev.append([KIND[kind], j, q(t[i])] + [q(x[i, j]) for x in v])
        elif kind in ("angles", "delayarc"):
            v = [grid(x, nt, nb) for x in v]
            for j in range(nb):
                for i in range(nt):
                    ev.append(
                        [5 if kind == "angles" else 18, j, q(t[i]), q(meta)]
                        + [q(x[i, j]) for x in v]
                    )
        elif kind == "attrs":
            v = [attr(x, nb) for x in v]
            for j in range(nb):
                ev.append([6, j] + [q(x[j]) for x in v])
        elif kind == "rv":
            v = [grid(x, nt, nb) for x in v]
            KK = attr(meta, nb)
            for j in range(nb):
                for i in range(nt):
                    ev.append(
                        [7, j, q(t[i])]
                        + [q(x[i, j]) for x in v[:3]]
                        + [q(KK[j]), q(v[3][i, j])]
                    )
        elif kind == "ref":
            tt, cyc = meta
            m = len(cyc)
            v = [grid(x, len(tt), nb) for x in v]
            for j in range(nb):
                for k in range(m):
                    r, r2 = k * nb + j, (m + k) * nb + j
                    ev.append(
                        [11, j, q(tt[r])]
                        + [q(x[r, j]) for x in v]
                        + [q(x[r2, j]) for x in v]
                    )
        elif kind == "contact":
            tt = meta
            v = [grid(x, len(tt), nb) for x in v]
            for r in range(len(tt)):
                ev.append([15, r % nb, q(tt[r])] + [q(x[r, r % nb]) for x in v])
        elif kind in ("durjac", "bjac"):
            v = [attr(x, nb) for x in v]
            for j in range(nb):
                ev.append(
                    [16 if kind == "durjac" else 17, j] + [q(x[j]) for x in v]
                )
        elif kind == "peri":
            tt, cyc = meta
            v = [grid(x, len(tt), nb) for x in v]
            for j in range(nb):
                for k in range(len(cyc)):
                    r = k * nb + j
                    r2 = len(cyc) * nb + k % nt
                    ev.append(
                        [12, j, q(tt[r])]
                        + [q(x[r, j]) for x in v]
                        + [q(x[r2, j]) for x in v]
                    )
    return ev
