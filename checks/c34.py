"""C34: the automatic track domain and genesis frequency against direct counts."""
import math
import os

import numpy as np

from checks.c20 import COAST, region
from harness import core, obs, synth


def make():
    return core.Check("C34", "one evaluation per domain or annual count compared",
                      ["the record spans at least two seasons where a frequency is computed", "no position lies within 0.001 degrees of rounding across a bound"])


def box(d):
    return [d["xMin"], d["xMax"], d["yMin"], d["yMax"]]


def config(path, out, limit, tg=None, more=""):
    with open(path, "w") as f:
        f.write("[Output]\nPath=%s\n[Region]\ngridLimit=%r\n" % (out, limit))
        if tg:
            f.write("[TrackGenerator]\ngridLimit=%r\n" % (tg,))
        f.write(more)


def limits(rng, whole):
    a, b = float(rng.integers(100, 160)), float(rng.integers(-35, 20))
    lim = {"xMin": a, "xMax": a + float(rng.integers(1, 25)), "yMin": b, "yMax": b + float(rng.integers(1, 15))}
    if not whole:
        lim = {n: v + float(rng.choice([0, 0.25, -0.5])) for n, v in lim.items()}
    elif rng.random() < 0.5:
        lim = {n: int(v) for n, v in lim.items()}
    return lim


def arrays(chk, k):
    """Domain of positions passed in, including positions on the bounds and storms that leave and come back."""
    from DataProcess.CalcTrackDomain import CalcTrackDomain
    from Utilities import config as cf
    rng = chk.rng("arrays", k)
    d = chk.scratch("d")
    lim = limits(rng, rng.random() < 0.7)
    ini = os.path.join(d, "x.ini")
    config(ini, d, lim)
    sts = []
    for i in range(int(rng.choice([1, 2, 5, 30]))):
        n = int(rng.choice([1, 2, 5, 40]))
        lon = float(rng.uniform(lim["xMin"] - 15, lim["xMax"] + 15)) + np.cumsum(rng.normal(0, 1.5, n))
        lat = float(rng.uniform(lim["yMin"] - 10, lim["yMax"] + 10)) + np.cumsum(rng.normal(0, 1.0, n))
        recs = [{"lon": round(float(x) * 4) / 4 if rng.random() < 0.5 else float(x), "lat": round(float(y) * 4) / 4 if rng.random() < 0.5 else float(y)}
                for x, y in zip(lon, lat)]
        if rng.random() < 0.4:              # on a corner or edge of the domain
            r = recs[int(rng.integers(n))]
            r["lon"] = float(lim[str(rng.choice(["xMin", "xMax"]))])
            if rng.random() < 0.5:
                r["lat"] = float(lim[str(rng.choice(["yMin", "yMax"]))])
        sts.append(recs)
    idx = np.array([1 if i == 0 else 0 for s in sts for i in range(len(s))])
    if rng.random() < 0.3:
        idx = idx.astype(float)
    lons = np.array([r["lon"] for s in sts for r in s])
    lats = np.array([r["lat"] for s in sts for r in s])
    cf.reset()
    rep = lambda: {"case": k, "region": lim, "index": idx.tolist(), "lon": lons.tolist(), "lat": lats.tolist()}
    want = region(lim, sts)

    def go():
        c = CalcTrackDomain(ini)
        return [c.calcDomainFromTracks(idx, lons, lats), c.calcDomainFromTracks(idx, lons, lats)]
    ok, got = chk.call(go, _kind="domain-fails", _what="computing the track domain", _replay=rep)
    if ok:
        chk.expect(box(got[0]) == want and box(got[1]) == want, "domain", lambda: "domain %r then %r, expected %r" % (box(got[0]), box(got[1]), want), rep)
        chk.evaluated(("domain", len(sts), want != [math.floor(lim["xMin"]), math.ceil(lim["xMax"]), math.floor(lim["yMin"]), math.ceil(lim["yMax"])]),
                      {"region": lim, "domain": want})


def files(chk, k):
    """Track file, pre-processing, domain and frequency in sequence."""
    from DataProcess.CalcFrequency import CalcFrequency
    from DataProcess.CalcTrackDomain import CalcTrackDomain
    from DataProcess.DataProcess import DataProcess
    from Utilities import config as cf
    rng = chk.rng("files", k)
    lay = obs.layout(rng, ids="season", dates="date", delimiter=",")
    sts = obs.storms(rng, int(rng.choice([2, 5, 20, 60, 120])), jumps=False)
    obs.fit_times(lay, sts)
    obs.refine(rng, sts, 15)
    for s in sts:
        for r in s:
            if rng.random() < 0.2:
                r["lon"] = float(round(r["lon"]))
            if rng.random() < 0.2:
                r["lat"] = float(round(r["lat"]))
    obs.refine(rng, sts, 15)
    d = chk.scratch("f")
    path, mask, out, ini = (os.path.join(d, n) for n in ("tracks.csv", "mask.nc", "out", "x.ini"))
    flat = obs.write(path, rng, lay, sts)
    synth.write_landmask(mask, lambda x, y: x > COAST)
    os.makedirs(os.path.join(out, "process"))
    seasons = sorted({r["season"] for r in flat})
    start = seasons[int(rng.integers(max(1, len(seasons) // 2)))]
    lim = {"xMin": int(rng.integers(105, 140)), "yMin": int(rng.integers(-30, -15))}
    lim["xMax"], lim["yMax"] = lim["xMin"] + int(rng.integers(5, 25)), lim["yMin"] + int(rng.integers(3, 12))
    tg = limits(rng, True) if rng.random() < 0.4 else None
    if tg:
        tg["yMin"], tg["yMax"] = -30, -5
    config(ini, out, lim, tg, "[DataProcess]\nInputFile=%s\nSource=SRC\nStartSeason=%d\n[Input]\nLandMask=%s\n%s" % (path, start, mask, obs.section(lay)))
    flat = [r for r in flat if r["season"] >= start]
    groups = []
    for r in flat:
        if not groups or groups[-1][-1]["storm"] != r["storm"] or groups[-1][-1]["part"] != r["part"]:
            groups.append([])
        groups[-1].append(r)
    if len(flat) < 2:
        return
    rep = lambda: {"case": k, "start": start, "region": lim, "generator": tg, "file": open(path).read()[:6000] if os.path.exists(path) else None}
    cf.reset()

    def go():
        DataProcess(ini).processData()
        return CalcTrackDomain(ini).calcDomainFromFile()
    ok, dom = chk.call(go, _kind="domain-fails", _what="pre-processing and track domain", _replay=rep)
    if not ok:
        return
    want = region(lim, groups)
    chk.expect(box(dom) == want, "domain", lambda: "domain %r, expected %r" % (box(dom), want), rep)
    chk.evaluated(("file-domain", len(groups) > 1, want != [lim["xMin"], lim["xMax"], lim["yMin"], lim["yMax"]]), {"region": lim, "domain": want})
    ys = [g[0]["season"] for g in groups]
    if min(ys) == max(ys):
        return
    ok, got = chk.call(lambda: CalcFrequency(ini, dom).calc(), _kind="frequency-fails", _what="genesis frequency", _replay=rep)
    if not ok:
        return
    b = box(tg or dict(zip(("xMin", "xMax", "yMin", "yMax"), want)))
    hit = [g[0]["season"] for g in groups if b[0] < g[0]["lon"] < b[1] and b[2] < g[0]["lat"] < b[3]]
    years = list(range(min(ys), max(ys)))
    n = sum(y in years for y in hit)
    chk.expect(abs(got - n / len(years)) <= 0.005 + 1e-9, "frequency", lambda: "frequency %r, expected %d storms in %d seasons" % (got, n, len(years)), rep)
    chk.evaluated(("frequency", tg is not None, n == 0, len(years) > 1), {"storms": n, "seasons": len(years), "frequency": float(got)})
    rows = [[int(float(x)) for x in line.split(",")] for line in open(os.path.join(out, "process", "region_frequency")) if line[0] != "#"]
    chk.expect(rows == [[y, hit.count(y)] for y in years], "counts", lambda: "annual counts %r, expected %r" % (rows, [[y, hit.count(y)] for y in years]), rep)


def group(chk, items):
    for f, k in items:
        (arrays if f == "a" else files)(chk, k)


def run(chk):
    import DataProcess.CalcFrequency      # noqa: F401
    import DataProcess.DataProcess        # noqa: F401
    items = [("a", k) for k in range(chk.n(300, 6000))] + [("f", k) for k in range(chk.n(100, 1600))]
    chk.pmap(group, [items[a::16] for a in range(16)])
