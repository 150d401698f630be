"""Histories of queries (K12), recorded for spec/purity_trace.qnt."""
import copy

import numpy as np
from common import evaluate, fl, q

import exoplanet as xo
import pytensor
import pytensor.tensor as pt
from orbits import ATTRS, orbit_kwargs
from timing import simple_kwargs, timing_kwargs
from transits import exposures

NKINDS = 26
EXPOSED = (13, 14, 18, 22, 23, 24, 25)
# integration schemes: order and number of samples
SCHEME = {22: (0, 5), 23: (1, 5), 24: (2, 5)}
IN_TRANSIT = (17, 18)
FLAT = (11, 13, 17, 18, 19, 20, 21, 22, 23, 25)  # the instants must be a vector
SIMPLE = {2: 1, 19: 12, 4: 11, 5: 12, 3: 0, 6: 13, 7: 14, 8: 17, 9: 18, 10: 1, 15: 1, 16: 0, 20: 11, 21: 18, 25: 22}


class System:
    """One system, and its orbits as they are built, kept and asked."""

    def __init__(self, number, family, scn):
        self.number, self.family, self.scn = number, family, scn
        self.n = len(scn["c"] if family == 2 else scn["g"])
        self.kept = {}
        self.lights = {}
        self.given = []
        # K and the parallax only have to be something
        self.K = np.array([3.0 + 2.5 * j for j in range(self.n)])
        self.px = 0.05

    def part(self, planet):
        """The scenario with one planet only."""
        s = copy.deepcopy(self.scn)
        if planet == 0:
            return s
        j = planet - 1
        for k in ("g", "c", "labs"):
            if k in s:
                s[k] = s[k][j : j + 1]
        if self.family == 0:
            s["scalar"] = bool(s["x"][0] // 3 % 2)
        return s

    def radius(self, planet):
        v = np.array([fl(a) for a in self.scn["r" if self.family == 2 else "rp"]])
        return v if planet == 0 else v[planet - 1 : planet]

    def amplitude(self, planet):
        return self.K if planet == 0 else self.K[planet - 1 : planet]

    def remember(self, what):
        if isinstance(what, np.ndarray):
            self.given.append((what, what.copy()))
        elif isinstance(what, (list, tuple)):
            for a in what:
                self.remember(a)

    def orbit(self, planet, fresh):
        if fresh or planet not in self.kept:
            s = self.part(planet)
            kw = (orbit_kwargs, timing_kwargs, simple_kwargs)[self.family](s)
            for v in kw.values():
                self.remember(v)
            o = (xo.orbits.KeplerianOrbit, xo.orbits.TTVOrbit, xo.orbits.SimpleTransitOrbit)[self.family](**kw)
            if planet in self.kept:
                return o
            self.kept[planet] = o
        return self.kept[planet]

    def light(self, which):
        """0 and 1: kept light curves, one for each system; 2: a new one."""
        if which == 2 or which not in self.lights:
            u = np.array([fl(self.scn["u1"]), fl(self.scn["u2"])])
            self.remember(u)
            o = xo.LimbDarkLightCurve(u) if which else xo.LimbDarkLightCurve(u[0], u[1])
            if which == 2:
                return o
            self.lights[which] = o
        return self.lights[which]


def ask(sys, planet, fresh, light, kind, t, i, shape):
    """Tensors with one column for each planet."""
    o = sys.orbit(planet, fresh)
    r = sys.radius(planet)
    sys.remember(r)
    s = sys.scn
    texp = None
    if kind in EXPOSED:
        full = np.array([fl(v) for v in s["times"]])
        texp = exposures(dict(s, texp=s["texp"] if s["texp"][0] else [10**16, s["texp"][1]]), full)[0]
        if np.ndim(texp):
            texp = texp[i].reshape((2, -1)) if shape == 1 else texp[i[0]] if shape == 2 else texp[i]
            sys.remember(texp)
    simple = (
        "get_relative_position get_planet_position get_star_position get_planet_velocity "
        "get_star_velocity get_relative_velocity"
    ).split()
    if kind < 6:
        return getattr(o, simple[kind])(t)
    if kind == 6:
        return [o.get_radial_velocity(t)]
    if kind == 7:
        K = sys.amplitude(planet)
        sys.remember(K)
        return [o.get_radial_velocity(t, K=K)]
    if kind == 8:
        return o.get_relative_angles(t, parallax=sys.px)
    if kind == 9:
        return o.get_planet_acceleration(t)
    if kind == 10:
        return o.get_relative_position(t, light_delay=True)
    if kind == 15:
        return o.get_planet_position(t, parallax=sys.px)
    if kind == 16:
        return o.get_star_acceleration(t)
    if kind == 21:
        return [o.in_transit(t, r=r, texp=0.01)]
    if kind in IN_TRANSIT:
        return [o.in_transit(t, r=r, texp=texp)]
    if kind == 19:
        both = xo.SecondaryEclipseLightCurve([0.3, 0.2], [0.2, 0.1], 0.4)
        return [both.get_light_curve(orbit=o, r=r, t=t)]
    if kind == 25:
        both = xo.SecondaryEclipseLightCurve([0.3, 0.2], [0.2, 0.1], 0.4)
        return [both.get_light_curve(orbit=o, r=r, t=t, texp=texp, oversample=3, order=1)]
    if kind in SCHEME:
        order, samples = SCHEME[kind]
        return [
            sys.light(light).get_light_curve(
                orbit=o, r=r, t=t, texp=texp, order=order, oversample=samples, use_in_transit=kind != 24
            )
        ]
    return [
        sys.light(light).get_light_curve(
            orbit=o, r=r, t=t, texp=texp,
            **(dict(light_delay=True) if kind == 20 else dict(use_in_transit=kind not in (12, 14))),
        )
    ]


def attributes(sys, planet):
    o = sys.kept[planet]
    out = []
    for n in ATTRS:
        v = getattr(o, n, None)
        out.append(0.0 if v is None else v)
    for n in ("transit_times", "ttvs"):
        out += list(getattr(o, n, []))
    return out


def record(job, only=None, together=True):
    """Play a session: every query by itself, or the answers of all of them
    computed together; or only one of its queries."""
    family, scns, steps = job
    ev = []
    try:
        ev += _record(family, scns, steps if only is None else [steps[only]], together)
    except Exception as e:
        ev.append([9, 1])
        scns[0]["raised"] = "%s: %s" % (type(e).__name__, str(e)[:300])
    return ev


def _record(family, scns, steps, together):
    ev = []
    systems = [System(k, family, s) for k, s in enumerate(scns)]
    outs, todo = [], []

    def plan(tensors, fn, given=None, value=None):
        tensors = [pt.as_tensor_variable(a) for a in tensors]
        if together:
            todo.append((tensors, fn, given, value))
        else:
            fn(evaluate(tensors, [] if given is None else [given], [] if given is None else [value]))

    def cells(number, kind, planet, n, idx, v):
        v = [np.asarray(a, dtype=float).reshape((len(idx), n)) for a in v]
        for j in range(n):
            for p, i in enumerate(idx):
                ev.append(
                    [1, number, kind, planet or j + 1, i, len(v)] + [q(a[p, j]) for a in v]
                )

    def flags(number, kind, planet, idx, v):
        got = [int(k) for k in np.ravel(v[0])]
        for p, i in enumerate(idx):
            ev.append([1, number, kind, 50 + planet, i, 1, got.count(p)])
        if any(not 0 <= k < len(idx) for k in got):
            raise ValueError("in_transit returned %s" % got)

    def attrs(number, planet, v):
        flat = [q(a) for x in v for a in np.ravel(np.asarray(x, dtype=float))]
        for k in range(0, len(flat), 20):
            ev.append([1, number, 100 + planet, 0, k, len(flat[k : k + 20])] + flat[k : k + 20])

    for st in steps:
        sys = systems[st["whose"] % len(systems)]
        planet = st["planet"] if 1 <= st["planet"] <= sys.n else 0
        if sys.n == 1:
            planet = 0
        kind = st["kind"]
        if family == 2:
            kind = SIMPLE.get(kind, kind)
        if family == 1 and kind in (19, 25):
            kind = 11 if kind == 19 else 22  # (timing orbits cannot be turned around)
        if planet not in sys.kept:
            sys.orbit(planet, True)
            plan(attributes(sys, planet), lambda v, a=sys.number, p=planet: attrs(a, p, v))
        idx = list(st["idx"])
        full = np.array([fl(v) for v in sys.scn["times"]])
        shape = st["shape"]
        if shape == 1 and (len(idx) % 2 or kind in FLAT):
            shape = 0
        if shape == 2 and kind in FLAT:
            shape = 0
        if shape == 2:
            idx = idx[:1]
        given = value = None
        t = full[idx]
        if shape == 1:
            t = t.reshape((2, -1))
        elif shape == 2:
            t = t[0]
        elif shape == 3:
            t = pt.as_tensor_variable(t)
        elif shape == 4:
            given, value = pt.dvector(), t.copy()
            t = given
        sys.remember(t)
        tensors = ask(sys, planet, st["fresh"], st["light"], kind, t, idx, shape)
        n = sys.n if planet == 0 else 1
        if kind in IN_TRANSIT or kind == 21:
            fn = lambda v, a=sys.number, k=kind, p=planet, i=idx: flags(a, k, p, i, v)
        else:
            fn = lambda v, a=sys.number, k=kind, p=planet, n=n, i=idx: cells(a, k, p, n, i, v)
        plan(tensors, fn, given, value)
    for sys in systems:
        for planet in sys.kept:
            plan(attributes(sys, planet), lambda v, a=sys.number, p=planet: attrs(a, p, v))
    # everything in one function
    inputs = [g for _, _, g, _ in todo if g is not None]
    values = [x for _, _, g, x in todo if g is not None]
    allv = evaluate([a for ts, _, _, _ in todo for a in ts], inputs, values) if todo else []
    k = 0
    for ts, fn, _, _ in todo:
        fn(allv[k : k + len(ts)])
        k += len(ts)
    changed = sum(
        int(np.sum(~((a == b) | (np.isnan(a) & np.isnan(b))))) for s in systems for a, b in s.given
    )
    ev.append([2, 0, changed])
    return ev
