"""C36: evaluation statistics against direct counts over the tracks."""
import csv
import os
from datetime import datetime, timedelta

import numpy as np

from harness import core, fakempi, obs, synth, trackgen

NAMES = [("trackDensity", "TrackDensity"), ("pressureDistribution", "PressureDistribution"),
         ("longitudeCrossing", "LongitudeCrossing"), ("landfallRates", "LandfallRates"),
         ("genesisDensity", "GenesisDensity")]


def make():
    return core.Check("C36", "one evaluation per statistic array compared with the direct count",
                      ["no observation lies exactly on the upper outer edges of the grid", "the grid spacing divides the region",
                       "historical yearly rates are compared up to a common factor",
                       "landfalls are judged for steps that cross one coast gate away from its ends"])


# ---- generated tracks --------------------------------------------------------

def setting(rng, small=False):
    sx, sy = (float(rng.choice([0.5, 1.0, 2.0, 2.5, 5.0])) for _ in range(2))
    x0, y0 = float(rng.integers(90, 170)), float(rng.choice([rng.integers(-40, -20), rng.integers(3, 12)]))
    w = max(10.0, 5 * int(rng.integers(1, 4 if small else 8)))
    h = max(5.0, 5 * int(rng.integers(1, 3 if small else 5)))
    if sy == 2.0:
        h = 2 * (h // 2)
    if sx == 2.0:
        w = 2 * (w // 2)
    return {"xMin": x0, "xMax": x0 + w, "yMin": y0, "yMax": y0 + h}, {"x": sx, "y": sy}


def tracks(rng, lim, space, n, num0=0, longest=40):
    """Tracks with positions in 64ths of a degree, often on cell edges and gates, some leaving the region."""
    out = []
    for k in range(n):
        m = int(rng.choice([1, 2, 3, int(rng.integers(3, longest))]))
        lon, lat = rng.uniform(lim["xMin"] - 3, lim["xMax"] + 3), rng.uniform(lim["yMin"] - 2, lim["yMax"] + 2)
        if rng.random() < 0.7:
            lon, lat = rng.uniform(lim["xMin"], lim["xMax"]), rng.uniform(lim["yMin"], lim["yMax"])
        head, spd = rng.uniform(0, 2 * np.pi), rng.choice([0.05, 0.3, 1.0, 4.0])
        gates = np.arange(lim["xMin"], lim["xMax"] + 0.5, 10.)
        d = np.zeros(m, dtype=synth.TRACK_DTYPE)
        t0 = datetime(int(rng.integers(1960, 2020)), int(rng.integers(1, 13)), 5)
        p = rng.uniform(900, 1005)
        for i in range(m):
            x, y = np.round(lon * 64) / 64, np.round(lat * 64) / 64
            r = rng.random()
            if r < 0.1:
                x = np.round(x / space["x"]) * space["x"]
            elif r < 0.2:
                x = gates[np.argmin(np.abs(gates - x))] if np.abs(gates - x).min() < 3 else x
            if rng.random() < 0.1:
                y = np.round(y / space["y"]) * space["y"]
            for a, n_ in ((x, "x"), (y, "y")):
                if a == lim[n_ + "Max"]:
                    if n_ == "x":
                        x -= 1 / 64.
                    else:
                        y -= 1 / 64.
            d["CycloneNumber"][i] = num0 + k
            d["Datetime"][i] = t0 + timedelta(hours=i)
            d["TimeElapsed"][i] = i
            d["Longitude"][i], d["Latitude"][i] = x, y
            d["CentralPressure"][i] = np.round(p * 8) / 8
            d["EnvPressure"][i], d["rMax"][i], d["Speed"][i], d["Bearing"][i] = 1010, 30, 20, 90
            if rng.random() < 0.8:
                lon += spd * np.sin(head)
                lat += spd * np.cos(head)
            head += rng.normal(0, 0.6)
            p = float(np.clip(p + rng.normal(0, 5), 880, 1012))
        out.append(d)
    return out


def coast(rng, lim):
    """A closed coast around a point of the region; its last side is not a gate."""
    n = int(rng.integers(3, 12))
    cx, cy = rng.uniform(lim["xMin"] + 2, lim["xMax"] - 2), rng.uniform(lim["yMin"] + 1, lim["yMax"] - 1)
    a = np.sort(rng.uniform(0, 2 * np.pi) + (np.arange(n) + rng.uniform(0, 0.6, n)) * 2 * np.pi / n)
    if rng.random() < 0.5:
        a = a[::-1]
    r = rng.uniform(1, 6) * rng.uniform(0.6, 1.2, n)
    return np.column_stack([cx + r * np.cos(a), cy + r * np.sin(a)])


# ---- direct counts -----------------------------------------------------------

def axis(lo, hi, step):
    return lo + step * np.arange(int(round((hi - lo) / step)) + 1)


def cell(x, edges):
    """Index of the half-open cell [edge, next edge) with x, or None."""
    if x < edges[0] or x >= edges[-1]:
        return None
    return int(np.searchsorted(edges, x, side="right")) - 1


def density(trs, ex, ey, first=False):
    h = np.zeros((len(ex) - 1, len(ey) - 1))
    for t in trs:
        for x, y in list(zip(t.Longitude, t.Latitude))[:1 if first else None]:
            i, j = cell(float(x), ex), cell(float(y), ey)
            if i is not None and j is not None:
                h[i, j] += 1
    return h


def pressures(trs, ex, ey):
    got = {}
    for t in trs:
        for x, y, p in zip(t.Longitude, t.Latitude, t.CentralPressure):
            i, j = cell(float(x), ex), cell(float(y), ey)
            if i is not None and j is not None and 0 < p < 1e6:
                got.setdefault((i, j), []).append(float(p))
    out = np.full((4, len(ex) - 1, len(ey) - 1), np.nan)
    for (i, j), v in got.items():
        out[:, i, j] = np.mean(v), np.min(v), np.max(v), np.median(v)
    return out


def crossings(trs, gx, gy):
    """Counts per latitude band and gate (all, westward, eastward); None for gates with a crossing on a band edge."""
    h = np.zeros((3, len(gy) - 1, len(gx)))
    bad = np.zeros(len(gx), bool)
    for t in trs:
        x, y = np.asarray(t.Longitude, float), np.asarray(t.Latitude, float)
        for i in range(len(x) - 1):
            for n, g in enumerate(gx):
                east = x[i] < g <= x[i + 1]
                west = x[i] >= g > x[i + 1]
                if not (east or west):
                    continue
                c = y[i] + (g - x[i]) / (x[i + 1] - x[i]) * (y[i + 1] - y[i])
                if np.abs(gy - c).min() < 1e-6:
                    bad[n] = True
                    continue
                j = cell(c, gy)
                if j is not None:
                    h[0, j, n] += 1
                    h[1 if west else 2, j, n] += 1
    return h, bad


def spread(h, bin=1.0):
    """Share of the total per unit, along the first axis; zeros without any."""
    s = h.sum(axis=0, keepdims=True)
    return np.where(s > 0, h / np.where(s > 0, s, 1) / bin, 0.0)


def inside(x, y, poly):
    """+1 inside, 0 outside, None too close to the boundary."""
    a, b = poly, np.roll(poly, -1, axis=0)
    e = b - a
    t = np.clip(((x - a[:, 0]) * e[:, 0] + (y - a[:, 1]) * e[:, 1]) / (e ** 2).sum(1), 0, 1)
    if np.hypot(a[:, 0] + t * e[:, 0] - x, a[:, 1] + t * e[:, 1] - y).min() < 1e-6:
        return None
    up = (a[:, 1] > y) != (b[:, 1] > y)
    with np.errstate(divide="ignore", invalid="ignore"):
        xs = a[:, 0] + (y - a[:, 1]) / e[:, 1] * e[:, 0]
    return int((up & (x < xs)).sum() % 2)


def crossed(p, q, poly):
    """Sides crossed strictly inside both segments; None when one passes too close to a corner."""
    out = []
    d = q - p
    for k in range(len(poly)):
        a, e = poly[k], poly[(k + 1) % len(poly)] - poly[k]
        den = d[0] * e[1] - d[1] * e[0]
        if abs(den) < 1e-12:
            continue
        w = a - p
        s, t = (w[0] * e[1] - w[1] * e[0]) / den, (w[0] * d[1] - w[1] * d[0]) / den
        if 0 <= s <= 1 and (abs(t) < 1e-6 or abs(t - 1) < 1e-6):
            return None
        if 0 < s < 1 and 0 < t < 1:
            out.append(k)
    return out


def landfalls(trs, poly):
    """Counts of onshore and offshore steps per gate, or None when a step cannot be judged."""
    n = len(poly) - 1
    on, off = np.zeros(n), np.zeros(n)
    for t in trs:
        pts = np.column_stack([t.Longitude, t.Latitude]).astype(float)
        ins = [inside(x, y, poly) for x, y in pts]
        if None in ins:
            return None
        for i in range(len(pts) - 1):
            if ins[i] == ins[i + 1]:
                continue
            c = crossed(pts[i], pts[i + 1], poly)
            if c is None or len(c) != 1:
                return None
            if c[0] < n:
                (on if ins[i + 1] else off)[c[0]] += 1
    return on, off


# ---- the evaluation code -----------------------------------------------------

def classes():
    import importlib
    return {c: getattr(importlib.import_module("Evaluate." + m), c) for m, c in NAMES}


def unplotted(cls):
    """The class without its plotting (which needs full-size event sets and map data)."""
    return type(cls.__name__, (cls,), {n: (lambda self, *a, **k: None) for n in dir(cls) if n.startswith("plot") and callable(getattr(cls, n))})


def config(root, lim, space, years, poly, extra=""):
    for s in ("tracks", "plots/stats", "process"):
        os.makedirs(os.path.join(root, s))
    gates = os.path.join(root, "gates.csv")
    with open(gates, "w") as f:
        for k, (x, y) in enumerate(poly):
            f.write("%d,%r,%r\n" % (k, float(x), float(y)))
    ini = os.path.join(root, "c.ini")
    with open(ini, "w") as f:
        f.write("[Region]\ngridLimit=%r\nGridSpace=%r\n[Output]\nPath=%s\n[TrackGenerator]\nYearsPerSimulation=%d\nTimestep=1.0\n"
                "[Input]\nCoastlineGates=%s\n%s" % (lim, space, root, years, gates, extra))
    return ini


def edges(lim, space):
    ex, ey = axis(lim["xMin"], lim["xMax"], space["x"]), axis(lim["yMin"], lim["yMax"], space["y"])
    return ex, ey, np.arange(ex[0], ex[-1] + 0.5, 10.), np.arange(ey[0], ey[-1] + 0.5, 2.)


def sets(chk, k):
    """One set of tracks through each counting step."""
    from Utilities import config as cf
    from Utilities.track import Track
    rng = chk.rng("sets", k)
    lim, space = setting(rng)
    data = tracks(rng, lim, space, int(rng.choice([0, 1, 5, 25])))
    trs = [Track(d) for d in data]
    for t in trs:
        if rng.random() < 0.15:                     # unusable pressures do not enter the statistics
            t.data["CentralPressure"][rng.random(len(t.data)) < 0.5] = float(rng.choice([0, -9999]))
    poly = coast(rng, lim)
    root = chk.scratch("s")
    cf.reset()
    ini = config(root, lim, space, 1, poly)
    cls = classes()
    ex, ey, gx, gy = edges(lim, space)
    rep = lambda: {"case": "sets %d" % k, "region": lim, "space": space, "coast": poly.tolist(),
                   "tracks": [[d["Longitude"].tolist(), d["Latitude"].tolist(), d["CentralPressure"].tolist()] for d in data]}
    key = (len(data) > 0, space["x"], space["y"])

    ok, h = chk.call(lambda: cls["TrackDensity"](ini).calculate(trs), _kind="fails", _what="track density", _replay=rep)
    if ok:
        chk.close(h, density(trs, ex, ey), "track-density", "observations per cell", rep)
        chk.evaluated(("track",) + key, {"region": lim, "space": space, "tracks": len(trs)})
    ok, h = chk.call(lambda: cls["GenesisDensity"](ini).calculate(trs), _kind="fails", _what="genesis density", _replay=rep)
    if ok:
        chk.close(h, density(trs, axis(lim["xMin"], lim["xMax"], 1.0), axis(lim["yMin"], lim["yMax"], 1.0), True), "genesis-density", "first positions per cell", rep)
        chk.evaluated(("genesis",) + key)
    ok, got = chk.call(lambda: cls["PressureDistribution"](ini).calculate(trs), _kind="fails", _what="pressure distribution", _replay=rep)
    if ok:
        want = pressures(trs, ex, ey)
        for n, g, w in zip(("mean", "minimum", "maximum", "median"), got, want):
            chk.close(g, w, "pressure-" + n, "%s pressure per cell" % n, rep, rtol=1e-9)
        chk.evaluated(("pressure",) + key)
    if len(gy) > 1:
        ok, got = chk.call(lambda: cls["LongitudeCrossing"](ini).findCrossings(trs), _kind="fails", _what="longitude crossings", _replay=rep)
        if ok:
            want, bad = crossings(trs, gx, gy)
            for n, g, w in zip(("all", "westward", "eastward"), got, want):
                chk.close(g[:, ~bad], spread(w, 2.0)[:, ~bad], "crossings", "%s crossings per band and gate" % n, rep)
            chk.evaluated(("crossing", int(want[1].sum() > 0), int(want[2].sum() > 0)), {"gates": gx.tolist(), "crossings": int(want[0].sum())})
    ok, got = chk.call(lambda: cls["LandfallRates"](ini).processTracks(trs), _kind="fails", _what="landfall rates", _replay=rep)
    if ok:
        want = landfalls(trs, poly)
        if want is not None:
            chk.close(got[0], spread(want[0]), "landfalls", "share of landfalls per gate", rep)
            chk.close(got[1], spread(want[1]), "landfalls", "share of offshore steps per gate", rep)
            chk.evaluated(("landfall", int(want[0].sum() > 0), int(want[1].sum() > 0)), {"gates": len(poly), "landfalls": int(want[0].sum())})


def read(path, names):
    from netCDF4 import Dataset
    with Dataset(path) as ds:
        return [np.ma.filled(np.ma.asarray(ds.variables[n][:], float), np.nan) for n in names]


def stat(values):
    """Mean and 95th and 5th percentile over the event sets."""
    return np.mean(values, axis=0), np.percentile(values, 95, axis=0), np.percentile(values, 5, axis=0)


def runs(chk, k):
    """Event-set files and a historical record through the whole evaluation, on one or several processes."""
    from Evaluate import interpolateTracks
    from Utilities import config as cf
    from Utilities.loadData import loadTrackFile
    from Utilities.track import Track, ncReadTrackData, ncSaveTracks
    rng = chk.rng("runs", k)
    lim, space = setting(rng, small=True)
    years = int(rng.choice([1, 2, 5, 10]))
    poly = coast(rng, lim)
    root = chk.scratch("r")
    which = NAMES[k % 5][1]
    kde = which == "GenesisDensity"
    # the historical record
    lay = obs.layout(rng, ids="season", dates="date", delimiter=",")
    hist, mslp = os.path.join(root, "hist.csv"), os.path.join(root, "mslp.nc")
    synth.write_mslp(mslp, lambda *a: 1012.5 + 0 * a[0], nt=12, ny=9, nx=12)
    sts = obs.storms(rng, 14 if kde else int(rng.integers(3, 12)), lim["xMin"], lim["xMax"] - 0.5, lim["yMin"], lim["yMax"] - 0.5, missing=False, jumps=False)
    obs.fit_times(lay, sts)
    obs.write(hist, rng, lay, sts)
    cf.reset()
    ini = config(root, lim, space, years, poly, "MSLPFile=%s\n[DataProcess]\nInputFile=%s\nSource=SRC\nFilterSeasons=False\nStartSeason=1900\n%s" % (mslp, hist, obs.section(lay)))
    nsets = int(rng.choice([1, 2, 3, 6]))
    files = []
    for s in range(nsets):
        data = tracks(rng, lim, space, 12 + int(rng.integers(4)) if kde else int(rng.choice([1, 3, 8])), longest=12 if kde else 40)
        if kde:                                     # densities need different genesis points inside the region
            for d in data:
                d["Longitude"][0] = np.round(rng.uniform(lim["xMin"] + .1, lim["xMax"] - .1) * 64) / 64
                d["Latitude"][0] = np.round(rng.uniform(lim["yMin"] + .1, lim["yMax"] - .1) * 64) / 64
        path = os.path.join(root, "tracks", "tracks.%05d.nc" % ((s * 7 + 3) % 97))
        trs = []
        for j, d in enumerate(data):
            t = Track(d)
            t.trackId, t.trackfile = (j, s), path
            trs.append(t)
        ncSaveTracks(path, trs)
        files.append(path)
    rep = lambda: {"case": "run %d" % k, "class": which, "region": lim, "space": space, "years": years, "sets": nsets, "coast": poly.tolist()}
    try:
        old = loadTrackFile(ini, hist, "SRC")
        hourly = interpolateTracks.parseTracks(ini, hist, "SRC", 1.0, interpolation_type="linear") if which == "LongitudeCrossing" else None
    except Exception as e:
        chk.violate("load-fails", "loading the historical record: %r" % e, rep())
        return
    if len({int(y) for t in old for y in t.Year}) < 2:
        return
    syn = [ncReadTrackData(f) for f in files]
    cls = unplotted(classes()[which])
    keep = ("historicLandfall", "historicOffshore", "synMeanLandfall", "synUpperLF", "synLowerLF", "synMeanOffshore", "synUpperOF", "synLowerOF")
    ranks = [1, 2, 3, 4, nsets + 2][(k // 5) % 5]
    mode = ["serial", "random"][k % 2] if ranks > 1 else "serial"

    def go(rank):
        cf.reset()
        e = cls(ini)
        e.run()
        return {n: np.array(getattr(e, n)) for n in keep if hasattr(e, n)}
    res = fakempi.run_ranks(ranks, go, seed=chk.seed * 1000 + k, mode=mode)
    if trackgen.failed(chk, res, "run-failed", "%s on %d process(es), %d event sets" % (which, ranks, nsets), rep):
        return
    what = "%s on %d process(es), %d event sets" % (which, ranks, nsets)
    ex, ey, gx, gy = edges(lim, space)
    out = lambda n: os.path.join(root, "process", n)
    tol = dict(rtol=2e-6, atol=1e-9)
    key = (which, min(ranks, 5), nsets)

    if which == "TrackDensity":
        h, m, up, lo, x, y = read(out("density.nc"), ("hist_density", "syn_density", "syn_density_upper", "syn_density_lower", "lon", "lat"))
        chk.close(x, ex[:-1], "axes", what + ": longitudes", rep, **tol)
        chk.close(y, ey[:-1], "axes", what + ": latitudes", rep, **tol)
        want = stat([density(t, ex, ey).T / years for t in syn])
        for g, w, n in zip((m, up, lo), want, ("mean", "upper", "lower")):
            chk.close(g, w, "synthetic", "%s: %s density" % (what, n), rep, **tol)
        w = density(old, ex, ey).T
        inner = np.ones_like(w, bool)
        for t in old:                               # positions on the upper edge may count in the last cell
            for a, b in zip(t.Longitude, t.Latitude):
                if a == ex[-1] or b == ey[-1]:
                    inner[:] = False
        if inner.all() and w.sum():
            chk.close(h / h.sum() if h.sum() else h, w / w.sum(), "historic", what + ": historical density", rep, rtol=1e-5)
        chk.evaluated(key, {"sets": nsets, "ranks": ranks})
    elif which == "PressureDistribution":
        names = ("hist_mean", "hist_min", "syn_mean", "syn_min")
        from netCDF4 import Dataset
        with Dataset(out("pressureDistribution.nc")) as ds:
            have = set(ds.variables)
        if not chk.expect(set(names) <= have, "variables", lambda: "%s: variables %r" % (what, sorted(have)), rep):
            return
        hm, hn, sm, sn = read(out("pressureDistribution.nc"), names)
        w = pressures(old, ex, ey)
        chk.close(hm, w[0].T, "historic", what + ": historical mean", rep, rtol=1e-6)
        chk.close(hn, w[1].T, "historic", what + ": historical minimum", rep, rtol=1e-6)
        w = np.array([pressures(t, ex, ey) for t in syn])
        with np.errstate(all="ignore"):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                mean = np.nanmean(w, axis=0)
        chk.close(sm, mean[0].T, "synthetic", what + ": mean over the event sets of mean pressure", rep, rtol=1e-6)
        chk.close(sn, mean[1].T, "synthetic", what + ": mean over the event sets of minimum pressure", rep, rtol=1e-6)
        for f, groups in (("histCP.csv", [old]), ("synCP.csv", syn)):
            want = []
            for g in groups:
                for t in g:
                    if lim["xMin"] <= t.Longitude[0] <= lim["xMax"] and lim["yMin"] <= t.Latitude[0] <= lim["yMax"]:
                        want.append(float(np.min(t.CentralPressure)))
            with open(out(f)) as fh:
                got = [float(c) for r in csv.reader(fh) for c in r if c.strip()]
            got = [g for g in got if g != 0]
            chk.expect(len(got) == len(want) and np.allclose(sorted(got), sorted(want), rtol=0, atol=0.0051), "lifetime-minimum",
                       lambda: "%s: %s has %r, tracks starting in the region have %r" % (what, f, sorted(got)[:6], sorted(want)[:6]), rep)
        chk.evaluated(key, {"sets": nsets, "ranks": ranks})
    elif which == "LongitudeCrossing":
        if len(gy) < 2:
            return
        names = ["hist", "hist_ew", "hist_we"] + ["syn_%s%s" % (a, b) for a in ("mean", "upper", "lower") for b in ("", "_ew", "_we")]
        got = dict(zip(names, read(out("lonCrossings.nc"), names)))
        bad = np.zeros(len(gx), bool)
        all_ = []
        for t in syn:
            h, b = crossings(t, gx, gy)
            bad |= b
            all_.append([spread(q, 2.0) for q in h])
        h, b = crossings(hourly, gx, gy)
        for n, q in zip(names[:3], h):
            chk.close(got[n][:, ~b], spread(q, 2.0)[:, ~b], "historic", "%s: %s" % (what, n), rep, **tol)
        for i, b in enumerate(("", "_ew", "_we")):
            for n, w in zip(("mean", "upper", "lower"), stat([a[i] for a in all_])):
                chk.close(got["syn_%s%s" % (n, b)][:, ~bad], w[:, ~bad], "synthetic", "%s: syn_%s%s" % (what, n, b), rep, **tol)
        chk.evaluated(key, {"sets": nsets, "ranks": ranks})
    elif which == "LandfallRates":
        got = res.values[0]
        w = landfalls(old, poly)
        if w is not None:
            chk.close(got["historicLandfall"], spread(w[0]), "historic", what + ": landfalls", rep)
            chk.close(got["historicOffshore"], spread(w[1]), "historic", what + ": offshore steps", rep)
        w = [landfalls(t, poly) for t in syn]
        if not any(q is None for q in w):
            for i, names in enumerate((("synMeanLandfall", "synUpperLF", "synLowerLF"), ("synMeanOffshore", "synUpperOF", "synLowerOF"))):
                for n, q in zip(names, stat([spread(a[i]) for a in w])):
                    chk.close(got[n], q, "synthetic", "%s: %s" % (what, n), rep)
            chk.evaluated(key, {"sets": nsets, "ranks": ranks, "landfalls": int(sum(a[0].sum() for a in w))})
    else:
        from statsmodels.nonparametric.kernel_density import KDEMultivariate
        x, y = axis(lim["xMin"], lim["xMax"], 1.0), axis(lim["yMin"], lim["yMax"], 1.0)
        X, Y = np.meshgrid(x, y)

        def pdf(trs):
            p = np.array([[float(t.Longitude[0]), float(t.Latitude[0])] for t in trs])
            p = p[(p[:, 0] >= x[0]) & (p[:, 0] <= x[-1]) & (p[:, 1] >= y[0]) & (p[:, 1] <= y[-1])]
            return KDEMultivariate(p.T, bw="cv_ml", var_type="cc").pdf(data_predict=np.vstack([X.ravel(), Y.ravel()])).reshape(X.shape)
        h, m, up, lo, gx_, gy_ = read(out("genesis_density.nc"), ("hist_density", "syn_density", "syn_density_upper", "syn_density_lower", "lon", "lat"))
        chk.close(gx_, x, "axes", what + ": longitudes", rep, **tol)
        chk.close(gy_, y, "axes", what + ": latitudes", rep, **tol)
        chk.close(h, pdf(old), "historic", what + ": historical genesis density", rep, rtol=1e-4, atol=1e-9)
        for n, g, w in zip(("mean", "upper", "lower"), (m, up, lo), stat([pdf(t) for t in syn])):
            chk.close(g, w, "synthetic", "%s: %s genesis density" % (what, n), rep, rtol=1e-4, atol=1e-9)
        chk.evaluated(key, {"sets": nsets, "ranks": ranks})


def one(chk, item):
    {"sets": sets, "runs": runs}[item[0]](chk, item[1])


def group(chk, items):
    for i in items:
        one(chk, i)


def run(chk):
    classes()
    import Evaluate.interpolateTracks       # imported once, before forking
    work = [("sets", k) for k in range(chk.n(60, 1500))] + [("runs", k) for k in range(chk.n(50, 600))]
    chk.pmap(group, [work[i::24] for i in range(24)])
