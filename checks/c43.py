"""C43: landfall statistics of gates and areas equal a direct count over the stored tracks."""
import os
import warnings
from datetime import datetime, timedelta

import numpy as np

from harness import core, synth

# Upper pressure of the classes 5 to 1; pressures near the weakest limit are not generated.
LIMITS = ((930.0, 5), (955.0, 4), (970.0, 3), (985.0, 2), (990.0, 1), (1020.0, 0))


def make():
    return core.Check("C43", "one evaluation per gate or area", ["no track position lies on a gate or area boundary", "central pressures below 1020 hPa, not from 990 to 999"])


def write_tracks(rng, folder, x0, y0, nfiles):
    from Utilities.track import Track, ncSaveTracks
    out = {}
    for f in range(nfiles):
        ts = []
        for k in range(int(rng.integers(1, 8))):
            n = int(rng.choice([1, 2, 3, int(rng.integers(4, 40))]))
            d = np.zeros(n, synth.TRACK_DTYPE)
            d["CycloneNumber"], d["TimeElapsed"] = k + 1, np.arange(n) * 6.0
            d["Datetime"] = [datetime(2000, 1, 1) + timedelta(hours=6 * i) for i in range(n)]
            d["Longitude"] = x0 + rng.uniform(0, 6) + np.cumsum(rng.normal(0, 0.6, n))
            d["Latitude"] = y0 + rng.uniform(0, 6) + np.cumsum(rng.normal(0, 0.6, n))
            p = rng.uniform(905, 1010) + np.cumsum(rng.normal(0, 6, n))
            p = np.clip(p, 880, 1015)
            d["CentralPressure"] = np.where((p > 989.5) & (p < 999.5), 1003.0 + rng.uniform(0, 2, n), p)
            d["EnvPressure"], d["rMax"], d["Speed"] = 1010, 30, 10
            t = Track(d)
            t.trackId = (k + 1, f)
            ts.append(t)
        name = "tracks.%05d.nc" % f
        ncSaveTracks(os.path.join(folder, name), ts)
        out[name] = ts
    for n in ("notes.txt", "tracks.csv"):
        if rng.random() < 0.3:
            open(os.path.join(folder, n), "w").close()
    if rng.random() < 0.3:
        os.mkdir(os.path.join(folder, "old"))
        ncSaveTracks(os.path.join(folder, "old", "tracks.99999.nc"), ts)
    return out


def left(a, b, p):
    return (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])


def crosses(a, b, p, q):
    return left(a, b, p) * left(a, b, q) < 0 and left(p, q, a) * left(p, q, b) < 0


def inside(ring, p):
    hit = False
    for a, b in zip(ring, ring[1:] + ring[:1]):
        if (a[1] > p[1]) != (b[1] > p[1]) and p[0] < (b[0] - a[0]) * (p[1] - a[1]) / (b[1] - a[1]) + a[0]:
            hit = not hit
    return hit


def segments(ts):
    for t in ts:
        x, y, p = (np.array(np.float32(getattr(t, n)), float) for n in ("Longitude", "Latitude", "CentralPressure"))
        for i in range(len(x) - 1):
            yield (x[i], y[i]), (x[i + 1], y[i + 1]), p[i]


def landfalls(shape, kind, ts):
    out = []
    for a, b, p in segments(ts):
        if kind == "gate":
            if crosses(shape[0], shape[1], a, b) and left(shape[0], shape[1], a) > 0:
                out.append(p)
        elif not inside(shape, a):
            edges = list(zip(shape, shape[1:] + shape[:1]))
            if inside(shape, b) or any(crosses(u, v, a, b) for u, v in edges):
                out.append(p)
    return out


def category(p):
    return next(c for lim, c in LIMITS if p <= lim)


def shapes(rng, kind, x0, y0):
    out = []
    if kind == "gate":
        x, y = x0 + rng.uniform(-1, 1), y0 + rng.uniform(1, 5)
        for i in range(int(rng.integers(1, 9))):
            a = (float(x), float(y))
            x, y = x + rng.uniform(0.3, 1.5), y + rng.normal(0, 0.7)
            out.append([a, (float(x), float(y))])
    else:
        for i in range(int(rng.integers(1, 6))):
            cx, cy, m = x0 + rng.uniform(0, 6), y0 + rng.uniform(0, 6), int(rng.integers(3, 9))
            th = -np.sort(rng.uniform(0, 2 * np.pi, m))
            r = rng.uniform(0.3, 1.6, m)
            out.append([(float(cx + b * np.cos(a)), float(cy + b * np.sin(a))) for a, b in zip(th, r)])
    return out


def valid(ring):
    """Simple ring, by checking its edges pairwise."""
    e = list(zip(ring, ring[1:] + ring[:1]))
    area = sum(a[0] * b[1] - b[0] * a[1] for a, b in e)
    return abs(area) > 1e-3 and not any(crosses(*e[i], *e[j]) for i in range(len(e)) for j in range(i))


def case(chk, rng, k):
    import shapefile
    from Evaluate import landfallIntensity, locationLandfallIntensity
    kind = "gate" if rng.random() < 0.6 else "area"
    mod = landfallIntensity if kind == "gate" else locationLandfallIntensity
    root = chk.scratch("lf")
    folder = os.path.join(root, "tracks")
    os.mkdir(folder)
    x0, y0 = float(rng.integers(100, 170)), float(rng.integers(-28, -10))
    shp = shapes(rng, kind, x0, y0)
    if kind == "area":
        shp = [s for s in shp if valid(s)]
        if not shp:
            return
    files = write_tracks(rng, folder, x0, y0, int(rng.choice([1, 2, 5, 12])))
    ids = np.arange(len(shp))
    if rng.random() < 0.6:
        ids = rng.permutation(len(shp)) + int(rng.integers(0, 4))
    path = os.path.join(root, "shape")
    with shapefile.Writer(path, shapefile.POLYLINE if kind == "gate" else shapefile.POLYGON) as w:
        if kind == "gate":
            for name in ("gate", "longitude", "latitude"):
                w.field(name, "N", 14, 0 if name == "gate" else 5)
            w.field("label", "C", 20)
        else:
            w.field("LGA_CODE19", "N", 8, 0)
            w.field("LGA_NAME19", "C", 20)
        for i, s in zip(ids, shp):
            if kind == "gate":
                w.line([s])
                w.record(int(i), s[0][0], s[0][1], "G%d" % i)
            else:
                w.poly([s + s[:1]])
                w.record(int(i), "A%d" % i)
    rep = lambda: {"case": k, "kind": kind, "shapes": shp, "ids": ids, "tracks": {f: [[a, b, p] for a, b, p in segments(t)] for f, t in files.items()}}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ok, got = chk.call(lambda: mod.loadLandfallRates(folder, mod.loadGateFile(path + ".shp")), _kind="landfall-fails",
                           _what="landfalls at %ss" % kind, _replay=rep)
    if not ok:
        return
    key = "gate" if kind == "gate" else "LGA_CODE19"
    if not chk.expect(len(got) == len(shp) and sorted(got[key]) == sorted(ids), "rows", lambda: "%ss %r reported as %r" % (kind, ids, list(got[key])), rep):
        return
    col = lambda *names: next((n for n in names if n in got.columns), names[0])
    for i, s in zip(ids, shp):
        row = got[got[key] == i].iloc[0]
        per = [landfalls(s, kind, t) for t in files.values()]
        num = np.array([len(p) for p in per])
        what = "%s %d, %d files" % (kind, i, len(per))
        want = {col("count_sum", "sum"): num.sum(), col("count_nanmean", "count_mean"): num.mean(), "count_min": num.min(), "count_max": num.max(),
                "count_q10": np.quantile(num, 0.1), "count_q90": np.quantile(num, 0.9)}
        for c in range(1, 6):
            n = np.array([sum(category(p) == c for p in q) for q in per])
            want["cat%d_sum" % c] = n.sum()
            want[col("cat%d_nanmean" % c, "cat%d_mean" % c)] = n.mean()
        means, lows = np.array([np.mean(q) for q in per if q]), np.array([np.min(q) for q in per if q])
        nan = float("nan")
        want[col("meanlfintensity_nanmean", "mlfimean")] = means.mean() if means.size else nan
        want[col("minlfintensity_nanmean", "minlfi")] = lows.mean() if lows.size else nan
        want[col("minlfintensity_min", "minlfim")] = lows.min() if lows.size else nan
        for q in (10, 25, 75, 90):
            want[col("meanlfintensity_q%d" % q, "mlfiq%d" % q)] = np.quantile(means, q / 100.0) if means.size else nan
        for name, w in want.items():
            if not chk.expect(name in got.columns, "columns", lambda: "no column %s in %r" % (name, list(got.columns)), rep):
                return
            v = float(row[name])
            chk.expect((np.isnan(v) and np.isnan(w)) or abs(v - w) <= 1e-4 * max(1.0, abs(w) * 0.01), "statistic",
                       lambda: "%s: %s is %r, a direct count gives %r" % (what, name, v, float(w)), rep)
        chk.count("landfalls", int(num.sum()))
        chk.evaluated((kind, int(num.sum()), len(per)), {"what": what, "counts": num[:10]})


def group(chk, item):
    g, n = item
    rng = chk.rng("landfall", g)
    for k in range(n):
        case(chk, rng, (g, k))


def run(chk):
    from Evaluate import landfallIntensity, locationLandfallIntensity          # noqa: F401
    chk.pmap(group, [(g, chk.n(4, 40)) for g in range(14)])
