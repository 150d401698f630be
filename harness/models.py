"""Replay of histories of building components in models (C01)."""
import contextlib
import itertools
import re

import numpy as np

KEYS = [
    "exoplanet:" + k
    for k in "joss zenodo arviz astropy13 astropy18 luger18 agol20 kipping13 kipping13b vaneylen19 "
    "foremanmackey17 foremanmackey18 espinoza18 rebound reboundias15 reboundx".split()
]
NAMES = "astropy starry celerite espinoza18 kipping13 kipping13b vaneylen19 rebound reboundias15 reboundx".split()


def build(comp, n, model, way=0):
    import exoplanet as xo

    kw = {} if model is None else dict(model=model)
    if comp >= 20:
        from exoplanet.citations import add_citations_to_model

        add_citations_to_model([NAMES[comp - 20]] * (1 + way % 2), **kw)
    elif comp == 0:
        args = [
            dict(period=1.0),
            dict(a=np.array([5.0, 9.0]), b=np.array([0.1, 0.2])),
            dict(period=3.0, ecc=0.3, omega=0.4, incl=1.5, t_periastron=2.0),
            dict(period=3.0, duration=0.1, b=0.3, ror=0.05),
            dict(period=3.0, t0=1.0, m_planet=0.01, rho_star=1.2, Omega=0.3),
        ][way % 5]
        xo.orbits.KeplerianOrbit(**args, **kw)
    elif comp == 1:
        if way % 2:
            xo.orbits.TTVOrbit(transit_times=[np.array([0.0, 1.01, 2.0])], **kw)
        else:
            xo.orbits.TTVOrbit(period=np.array([1.0]), t0=np.array([0.0]), ttvs=[np.array([0.0, 0.01, 0.0])], **kw)
    elif comp == 2:
        xo.orbits.SimpleTransitOrbit(period=1.0, t0=0.0, b=0.0, duration=0.1)
    elif comp == 3:
        xo.LimbDarkLightCurve(*([np.array([0.3, 0.2])] if way % 2 else [0.3, 0.2]), **kw)
    elif comp == 4:
        xo.SecondaryEclipseLightCurve([0.3, 0.2], [0.1, 0.1], 0.2, **kw)
    elif comp == 5:
        xo.distributions.quad_limb_dark("u%d" % n, **[{}, dict(initval=[0.2, 0.3])][way % 2])
    elif comp == 6:
        xo.distributions.eccentricity.kipping13(
            "e%d" % n, fixed=way % 2 == 1, long=[None, True, False][way % 3], lower=[None, 0.1][way % 2],
            upper=[None, None, 0.8, 1.0][way % 4], **kw
        )
    elif comp == 7:
        xo.distributions.eccentricity.vaneylen19(
            "e%d" % n, fixed=way % 2 == 1, multi=way % 3 == 1, lower=[None, 0.1][way // 2 % 2],
            upper=[None, None, 0.8, 1.0][way % 4], **kw
        )
    elif comp == 8:
        xo.distributions.angle("a%d" % n)
        xo.distributions.unit_disk("x%d" % n, "y%d" % n)
    else:
        xo.distributions.impact_parameter("b%d" % n, [0.1, np.array([0.1, 0.2])][way % 2], **[{}, dict(shape=2)][way % 2])


def counted(found):
    out = [0] * len(KEYS)
    other = 0
    for k in found:
        if k in KEYS:
            out[KEYS.index(k)] += 1
        else:
            other += 1
    return out, other


def report(m, txt, bib):
    joined = " ".join(txt.split())
    mentioned = [
        k.strip() for g in re.findall(r"\\citep\{([^}]*)\}", joined) for k in g.split(",")
    ]
    entries = re.findall(r"@\w+\{\s*([^,\s]+)", bib)
    a, x = counted(mentioned)
    b, y = counted(entries)
    return [2, m] + a + b + [x, y]


def history(steps, often, way=0):
    import exoplanet as xo  # noqa: F401
    import pymc as pm
    from exoplanet.citations import get_citations_for_model

    models = {1: pm.Model(), 2: pm.Model()}
    ev = [[0]]
    why = None

    def reports():
        for m in (1, 2):
            ev.append(report(m, *get_citations_for_model(model=models[m])))

    for n, (comp, place) in enumerate(steps):
        inside = {1: 1, 2: 2, 5: 1, 6: 2}.get(place)
        given = {3: 1, 4: 2, 5: 2, 6: 1}.get(place)
        raised = 0
        try:
            with models[inside] if inside else contextlib.nullcontext():
                build(comp, n, models.get(given), way + n)
        except Exception as e:
            raised, why = 1, "%s: %s" % (type(e).__name__, str(e)[:200])
        ev.append([1, comp, place, raised])
        if often:
            reports()
    if not often:
        reports()
    else:
        for m in (1, 2):
            with models[m]:
                a = get_citations_for_model()
            b = get_citations_for_model(models[m], width=40)
            same = a == get_citations_for_model(model=models[m])
            same = same and a[0].split() == b[0].split() and a[1] == b[1]
            ev.append([3, int(same)])
    return ev, why


def possible(comp, place):
    if 5 <= comp < 20 and place == 0:
        return False
    return comp in (0, 1, 3, 4, 6, 7) or comp >= 20 or place < 3


def histories(length, comps=range(10), places=range(7)):
    acts = [(c, p) for c in comps for p in places if possible(c, p)]
    return list(itertools.product(acts, repeat=length))
