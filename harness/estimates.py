"""Replay of estimator scenarios (R01 to R03)."""
import numpy as np
from common import fl, q


def _why(scn, e):
    scn["raised"] = "%s: %s" % (type(e).__name__, str(e)[:200])
    return [9, 1]


def arr(v):
    return np.array([fl(x) for x in v])


# ---------------------------------------------------------- radial velocities
def velocity_args(scn):
    import astropy.units as u

    days = [None, u.day, u.hour, u.minute, u.s, u.year, u.week]
    speed = [None, u.m / u.s, u.km / u.s, u.cm / u.s]
    mass = [None, u.M_sun, u.M_jup]
    c = scn["u"]

    def given(v, unit):
        return v if unit is None else v * unit

    P = arr(scn["Ps"])
    if len(P) == 1 and scn["form"][0]:
        P = P[0].item()
    kw = dict(
        periods=given(P, days[c[0]]),
        x=given(arr(scn["x"]), days[c[1]]),
        y=given(arr(scn["y"]), speed[c[3]]),
    )
    if scn["e"]:
        e = arr(scn["e"])
        kw["yerr"] = given(e if len(e) > 1 else e[0].item(), speed[c[4]])
    if scn["t0s"]:
        t = arr(scn["t0s"])
        if len(t) == 1 and scn["form"][2]:
            t = t[0].item()
        kw["t0s"] = given(t, days[c[2]])
    star = {}
    if not scn["form"][1]:
        star["m_star"] = given(fl(scn["ms"]), mass[c[5]])
    return kw, star


def record_velocities(scn, kinds=None):
    import astropy.units as u
    import exoplanet as xo

    np_, n = len(scn["Ps"]), len(scn["x"])
    head = [1, np_, n, int(bool(scn["t0s"])), len(scn["e"]), scn["ms"]] + scn["u"]
    ev = [head + scn["Ps"] + scn["t0s"] + scn["x"] + scn["y"] + scn["e"]]
    # what is passed are floats
    ev[0][5] = q(fl(scn["ms"]))
    ev[0][12:] = [q(fl(v)) for v in ev[0][12:]]
    kw, star = velocity_args(scn)
    try:
        K = np.atleast_1d(np.asarray(xo.estimate_semi_amplitude(**kw), dtype=float))
        if K.shape != (np_,):
            raise ValueError("shape %s" % (K.shape,))
        ev.append([2] + [q(k) for k in K])
        m = xo.estimate_minimum_mass(**kw, **star)
        m = np.atleast_1d(m.to(u.M_jup).value)
        if m.shape != (np_,):
            raise ValueError("shape %s" % (m.shape,))
        ev.append([3] + [q(v) for v in m])
    except Exception as e:
        ev.append(_why(scn, e))
    return ev


# ------------------------------------------------------------------- peaks
def peak_row(rank, p):
    return [12, rank, int(p["index"])] + [q(p[k]) for k in ("log_power", "period", "period_uncert")]


def record_peaks(scn, kinds=None):
    from exoplanet.estimators import find_peaks

    f, p = arr(scn["freq"]), arr(scn["power"])
    ev = [[10, len(f), scn["most"]] + [q(v) for v in f] + [q(v) for v in p]]
    try:
        kw = dict(max_peaks=scn["most"])
        if scn["most"] == 0 and scn["form"]:
            kw = {}
        try:
            got = find_peaks(f, p, **kw)
        except ValueError:
            ev.append([13])
            return ev
        if scn["most"] == 0:
            got = [got]
        ev.append([11, len(got)])
        ev += [peak_row(i, x) for i, x in enumerate(got)]
        # the arguments are still what they were
        ev.append([10, len(f), scn["most"]] + [q(v) for v in f] + [q(v) for v in p])
        ev.append([11, len(got)])
    except Exception as e:
        ev.append(_why(scn, e))
    return ev


# ----------------------------------------------------------------- searches
BLS_COLUMNS = (
    "period", "power", "depth", "depth_err", "duration", "transit_time",
    "depth_snr", "log_likelihood",
)


def rows(table, per):
    out = []
    for a in range(0, len(table), per):
        part = table[a : a + per]
        out.append([22, len(part[0]), len(part)] + [q(v) for r in part for v in r])
    return out


def search_args(scn):
    x, y = arr(scn["x"]), arr(scn["y"])
    kw = {}
    if scn["e"]:
        kw["yerr"] = arr(scn["e"])
    for k, name in (("lo", "min_period"), ("hi", "max_period")):
        if scn[k]:
            kw[name] = fl(scn[k])
    m, form = scn["method"], scn["form"]
    if m == 0:
        if scn["filt"]:
            kw["filter_period"] = fl(scn["filt"])
        if scn["most"] != 2 or form[0]:
            kw["max_peaks"] = scn["most"]
    elif m == 1:
        kw["duration"] = fl(scn["dur"])
        if form[0]:
            kw["method"] = "slow"
        if form[1]:
            kw["objective"] = "snr"
        if form[2]:
            span = x.max() - x.min()
            # a few hundred periods at most
            kw["frequency_factor"] = 0.5 * span / fl(scn["dur"]) / 20
        if not form[3]:
            # astropy's own names
            for a, b in (("min_period", "minimum_period"), ("max_period", "maximum_period")):
                if a in kw:
                    kw[b] = kw.pop(a)
    else:
        kw["smooth"] = fl(scn["smooth"])
        kw["oversample"] = float(scn["over"])
    return x, y, kw


def record_search(scn, kinds=None):
    import exoplanet as xo
    from exoplanet.estimators import find_peaks  # noqa: F401

    x, y, kw = search_args(scn)
    m = scn["method"]
    e = [q(v) for v in kw.get("yerr", [])]
    ev = [
        [20, len(x), len(e)] + [q(v) for v in x] + [q(v) for v in y] + e,
        [21, m, scn["lo"], scn["hi"], scn["filt"], scn["most"], scn["P"], scn["t0"],
         scn["dur"], int(m == 1 and scn["form"][0]), int(m == 1 and scn["form"][1]), scn["noise"], 0, 0, 0],
    ]
    try:
        if m == 0:
            r = xo.lomb_scargle_estimator(x, y, **kw)
            f, p = r["periodogram"]
            if f.shape != p.shape or len(f) > 6000:
                raise ValueError("%s frequencies, %s powers" % (f.shape, p.shape))
            ev[1][12] = len(f)
            ev += rows(list(zip(f, p)), 30)
            ev.append([23, m])
            ev.append([11, len(r["peaks"])])
            ev += [peak_row(i, k) for i, k in enumerate(r["peaks"])]
            if len(r["peaks"]) and not scn["filt"]:
                ev.append([25, m, q(r["peaks"][0]["period"])])
        elif m == 1:
            r = xo.bls_estimator(x, y, **kw)
            pg = r["bls"]
            n = len(pg.period)
            if n > 6000:
                raise ValueError("%d periods" % n)
            ev[1][12] = n
            cols = [np.broadcast_to(pg[c], n) for c in BLS_COLUMNS]
            ev += rows(list(zip(*cols)), 12)
            ev.append([23, m])
            ev.append([11, len(r["peaks"])])
            ev += [peak_row(i, k) for i, k in enumerate(r["peaks"])]
            if len(r["peaks"]):
                info = r["peak_info"]
                ev.append([24] + [q(info[c]) for c in BLS_COLUMNS])
                if scn["form"][2]:
                    ev.append([25, m, q(r["peaks"][0]["period"])])
        else:
            r = xo.autocorr_estimator(x, y, **kw)
            tau, acf = r["autocorr"]
            dt = np.min(np.diff(x))
            lo = kw.get("min_period", dt)
            ev[1][2] = q(lo)
            ev[1][12:15] = [len(tau), q(dt / scn["over"]), q(kw["smooth"] * lo)]
            ev += rows(list(zip(tau, acf)), 30)
            ev.append([23, m])
            # without peaks there is nothing to find
            pk = r["peaks"]
            ev.append([27, len(pk), q(pk[0]["period"]) if pk else 0])
            if pk and kw["smooth"] * lo < fl(scn["P"]) / 8:
                ev.append([25, m, q(pk[0]["period"])])
    except Exception as e:
        ev.append(_why(scn, e))
    return ev
