"""C28: station series against the fields of every time step."""
import csv
import os
from datetime import datetime, timedelta

import numpy as np

from harness import core, ext, fakempi, synth, trackgen, windref

REGIONS = [(146, 149, -21, -18), (113, 116, -25, -22), (178, 181, -20, -17), (120, 122, 14, 17)]
COLS = ["Station", "Time", "Longitude", "Latitude", "Speed", "UU", "VV", "Bearing", "Pressure"]


def make():
    return core.Check("C28", "one evaluation per station record compared with the field of its time step",
                      ["station longitudes use the same range as the region", "station identifiers differ and have at most 16 characters",
                       "a region is configured"])


def stations(rng, n, lon, lat, field="WMO"):
    """Stations inside, on grid points, on edges, at corners, just outside and far away."""
    out = []
    for k in range(n):
        kind = k % 6
        x, y = rng.uniform(lon[0], lon[-1]), rng.uniform(lat[0], lat[-1])
        if kind == 1:
            x, y = float(rng.choice(lon)), float(rng.choice(lat))
        elif kind == 2:
            x = float(rng.choice([lon[0], lon[-1]]))
        elif kind == 3:
            x, y = float(rng.choice([lon[0], lon[-1]])), float(rng.choice([lat[0], lat[-1]]))
        elif kind == 4:
            j = int(rng.integers(4))
            x = [lon[0] - 0.003, lon[-1] + 0.003, x, x][j]
            y = [y, y, lat[0] - 0.003, lat[-1] + 0.003][j]
        elif kind == 5 and rng.random() < 0.3:
            x, y = lon[-1] + 20, lat[0] - 20
        out.append((round(float(x), 6), round(float(y), 6)))
    return out


def write_stations(rng, path, form, pts):
    """Write the stations; return the identifiers their series must be known by."""
    if form == "shp":
        import shapefile
        text = rng.random() < 0.5
        w = shapefile.Writer(path, shapeType=1)
        w.field("OTHER", "N", 8, 0)
        w.field("WMO", "C" if text else "N", 10, 0)
        ids = []
        for k, (x, y) in enumerate(pts):
            i = ("S%03d" % (900 - k)) if text else 94000 + (k * 7) % 1000
            w.point(x, y)
            w.record(k % 3, i)
            ids.append(str(i))
        w.close()
        return ids
    ids = []
    with open(path, "w") as f:
        for k, (x, y) in enumerate(pts):
            i = ("ST%02d" % k) if form == "names" else "%d" % (300 - k)
            f.write("%s,%r,%r%s\n" % (i, x, y, ",1.2" if form == "extra" else ""))
            ids.append(i)
    return ids


def rows(path):
    with open(path) as f:
        r = csv.reader(f)
        head = [c.strip() for c in next(r)]
        return head, [dict(zip(head, [c.strip() for c in x])) for x in r]


def bearing(u, v):
    return np.degrees(np.arctan2(-u, -v)) % 360


def candidates(step, x, y):
    """The (speed, u, v, pressure) a station may get at a step: those of its nearest points."""
    when, spd, u, v, p, lon, lat = step
    if not (lon.min() <= x <= lon.max() and lat.min() <= y <= lat.max()):
        return None
    dx, dy = np.abs(lon - x), np.abs(lat - y)
    return [(float(spd[j, i]), float(u[j, i]), float(v[j, i]), float(p[j, i]))
            for j in np.where(dy <= dy.min() + 1e-7)[0] for i in np.where(dx <= dx.min() + 1e-7)[0]]


def fits(row, c):
    s, u, v, p = c
    g = lambda n: float(row[n])
    if abs(g("Speed") - s) > 0.0051 + 1e-6 * s or abs(g("UU") - u) > 0.0051 or abs(g("VV") - v) > 0.0051 or abs(g("Pressure") - p) > 0.0051 + 1e-7 * p:
        return False
    return s < 1e-3 or abs((g("Bearing") - bearing(u, v) + 180) % 360 - 180) < 0.0051 + 1e-4


def judge(chk, ids, pts, steps, root, what, rep):
    """Series, maxima and minima against the recorded steps (grouped by event, in time order)."""
    d = os.path.join(root, "process", "timeseries")
    have = set(os.listdir(d))
    tops, lows = {}, {}
    expected = set()
    for sid, (x, y) in zip(ids, pts):
        name = "ts.%s.csv" % sid
        cs = [candidates(s, x, y) for s in steps]
        windy = any(c is not None and max(q[0] for q in c) > 0.006 for c in cs)
        maybe = any(c is not None and max(q[0] for q in c) > 0 for c in cs)
        if not maybe:
            chk.expect(name not in have, "outside", lambda: "%s: station %s at %r got a series though no wind reaches it" % (what, sid, (x, y)), rep)
            chk.evaluated(("none",))
            continue
        expected.add(name)
        if name not in have:
            chk.expect(not windy, "missing-series", lambda: "%s: no series for station %s at %r; files %s" % (what, sid, (x, y), sorted(have)[:8]), rep)
            continue
        head, got = rows(os.path.join(d, name))
        if not chk.expect(head == COLS, "columns", lambda: "%s: columns %r" % (what, head), rep):
            return
        if not chk.expect(len(got) == len(steps), "record-count", lambda: "%s: station %s has %d records for %d steps" % (what, sid, len(got), len(steps)), rep):
            return
        for k, (r, s, c) in enumerate(zip(got, steps, cs)):
            if r["Station"] != sid or abs(float(r["Longitude"]) - x) > 6e-6 or abs(float(r["Latitude"]) - y) > 6e-6:
                chk.violate("station", "%s: record %r in the series of station %s at %r" % (what, r, sid, (x, y)), rep)
                return
            if r["Time"][:16] != s[0].strftime("%Y-%m-%d %H:%M"):
                chk.violate("time", "%s: station %s record %d at %s, the step is at %s" % (what, sid, k, r["Time"], s[0]), rep)
                return
            if c is None:
                if any(float(r[n]) != 0 for n in ("Speed", "UU", "VV")):
                    chk.violate("outside", "%s: station %s is outside the field of step %d and got %r" % (what, sid, k, r), rep)
                    return
            elif not any(fits(r, q) for q in c):
                chk.violate("values", "%s: station %s at %r step %d: record %r, field (speed, u, v, pressure) %r" % (what, sid, (x, y), k, r, c), rep)
                return
        chk.evaluated((what[:4], any(c is None for c in cs), any(c is not None and len(c) > 1 for c in cs), len(steps) > 10),
                      {"station": [x, y], "steps": len(steps)}, k=len(steps))
        tops[sid], lows[sid] = got, got
    chk.expect(have <= expected, "extra-series", lambda: "%s: unexpected files %s" % (what, sorted(have - expected)[:5]), rep)
    for fname, col, sign in (("maxima.csv", "Speed", 1), ("minima.csv", "Pressure", -1)):
        head, got = rows(os.path.join(root, "process", fname))
        if not chk.expect(head == COLS and [r["Station"] for r in got] == [s for s in ids if s in tops] or sorted(r["Station"] for r in got) == sorted(tops),
                          "extremes", lambda: "%s: %s lists %r, series exist for %r" % (what, fname, [r["Station"] for r in got][:8], sorted(tops)[:8]), rep):
            continue
        for r in got:
            series = tops[r["Station"]]
            best = max(sign * float(q[col]) for q in series)
            chk.expect(r in series and abs(sign * float(r[col]) - best) < 1e-9, "extremes",
                       lambda: "%s: %s has %r for the series whose extreme %s is %r" % (what, fname, r, col, sign * best), rep)
            chk.evaluated((fname,))


def folders(root):
    for s in ("tracks", "windfield", "process/timeseries"):
        os.makedirs(os.path.join(root, s))


def direct(chk, k):
    """Random fields on windows of any size and place handed to the extraction."""
    from Utilities import config
    from Utilities.timeseries import Timeseries
    rng = chk.rng("direct", k)
    root = chk.scratch("d")
    folders(root)
    res = float(rng.choice([0.05, 0.1, 0.5, 0.02]))
    i0, j0 = int(rng.integers(9000, 17000)), int(rng.integers(-3500, 3000))
    lon, lat = (i0 + np.arange(int(rng.integers(6, 60))) * int(round(res * 100))) / 100., (j0 + np.arange(int(rng.integers(6, 50))) * int(round(res * 100))) / 100.
    n = int(rng.choice([1, 2, 7, 20]))
    form = ["shp", "csv", "names", "extra"][k % 4]
    pts = stations(rng, n, lon, lat)
    if k % 8 >= 4:                                  # one-station files of every form
        pts = pts[:1]
    path = os.path.join(root, "stn.shp" if form == "shp" else "stn.csv")
    ids = write_stations(rng, path, form, pts)
    ini = os.path.join(root, "c.ini")
    synth.write_config(ini, {"Timeseries": {"Extract": "True", "LocationFile": path, "StationID": "WMO"}, "Output": {"Path": root}})
    rep = lambda: {"case": "direct %d" % k, "form": form, "stations": list(zip(ids, pts))}
    config.reset()
    ok, ts = chk.call(Timeseries, ini, _kind="stations", _what="loading a station file (%s, %d stations)" % (form, len(pts)), _replay=rep)
    if not ok:
        return
    steps = []
    t = datetime(int(rng.integers(1950, 2020)), int(rng.integers(1, 13)), int(rng.integers(1, 28)), int(rng.integers(0, 24)), int(rng.integers(0, 60)))
    for s in range(int(rng.choice([1, 3, 10, 11, 40, 120]))):
        if rng.random() < 0.4:
            a, b = sorted(int(q) for q in rng.choice(len(lon) + 1, 2, replace=False))
            c, d = sorted(int(q) for q in rng.choice(len(lat) + 1, 2, replace=False))
        else:
            a, b, c, d = 0, len(lon), 0, len(lat)
        x, y = lon[a:b], lat[c:d]
        u, v = rng.normal(0, 20, (2, len(y), len(x)))
        p = rng.uniform(90000, 101300, u.shape)
        steps.append((t, np.hypot(u, v), u, v, p, x, y))
        ts.extract(*[q.copy() if isinstance(q, np.ndarray) else q for q in steps[-1]])
        t += timedelta(minutes=int(rng.choice([5, 60, 360])))
    ok, _ = chk.call(ts.shutdown, _kind="stations", _what="writing the series", _replay=rep)
    if ok:
        judge(chk, ids, pts, steps, root, "direct %s" % form, rep)


def setting(chk, rng, root, ntracks, evolution):
    """Tracks and configuration; the fields of every step of every track, as the wind model hands them over."""
    import wind
    from Utilities.track import Track, ncSaveTracks, ncReadTrackData
    folders(root)
    lim = dict(zip(("xMin", "xMax", "yMin", "yMax"), map(float, REGIONS[int(rng.integers(len(REGIONS)))])))
    res, margin = [(0.1, 1.0), (0.2, 1.0), (0.5, 2.0)][int(rng.integers(3))]
    model = dict(zip(("profileType", "windFieldType"), [("powell", "kepert"), ("holland", "hubbert")][int(rng.integers(2))]))
    tracks = []
    path = os.path.join(root, "tracks", "tracks.00000.nc")
    for j in range(ntracks):
        data = windref.storm_track(rng, lim, int(rng.integers(3, 9)), ident=(j, 0))
        while not windref.usable(data, model["profileType"], 1.3):
            data["CentralPressure"] = data["EnvPressure"] - rng.uniform(20, 90)
            data["rMax"] = rng.uniform(15, 50)
        t = Track(data)
        t.trackId, t.trackfile = (j, 0), path
        tracks.append(t)
    ncSaveTracks(path, tracks)
    lon = np.arange(lim["xMin"] - margin, lim["xMax"] + margin + res / 2, res)
    lat = np.arange(lim["yMin"] - margin, lim["yMax"] + margin + res / 2, res)
    pts = stations(rng, 9, lon[1:-1], lat[1:-1])
    stn = os.path.join(root, "stn.shp")
    ids = write_stations(rng, stn, "shp", pts)
    ini = os.path.join(root, "c.ini")
    synth.write_config(ini, {
        "Region": {"gridLimit": lim},
        "Timeseries": {"Extract": "True", "Windfields": str(evolution), "LocationFile": stn, "StationID": "WMO"},
        "WindfieldInterface": dict(model, beta=1.3, beta1=1.5, beta2=1.4, thetaMax=70.0, Margin=margin, Resolution=res, Domain="bounded"),
        "Output": {"Path": root}})
    steps = []
    for t in ncReadTrackData(path):
        mine = []
        wt = wind.WindfieldAroundTrack(t, beta=1.3, beta1=1.5, beta2=1.4, thetaMax=70.0, margin=margin, resolution=res, gridLimit=lim, domain="bounded", **model)
        wt.regionalExtremes(lim, lambda *a: mine.append([np.array(q) if isinstance(q, np.ndarray) else q for q in a]))
        inside = [r for r in range(len(t.data)) if lim["xMin"] <= t.Longitude[r] <= lim["xMax"] and lim["yMin"] <= t.Latitude[r] <= lim["yMax"]]
        chk.expect([m[0] for m in mine] == [t.Datetime[r] for r in inside], "steps",
                   lambda: "steps at %r, the storm is in the region at %r" % ([m[0] for m in mine][:4], [t.Datetime[r] for r in inside][:4]), None)
        steps.append((t.trackId, mine))
    return ini, ids, pts, steps, lim, margin, res


def evolutions(chk, root, steps, lim, margin, res, rep):
    from netCDF4 import Dataset, num2date
    for tid, mine in steps:
        name = os.path.join(root, "windfield", "evolution.%03d-%05d.nc" % tuple(tid))
        if not chk.expect(os.path.exists(name), "evolution", lambda: "no evolution file for event %r" % (tid,), rep):
            continue
        with Dataset(name) as ds:
            x, y = np.array(ds.variables["lon"][:], float), np.array(ds.variables["lat"][:], float)
            nt = len(ds.dimensions["time"])
            if not chk.expect(nt == len(mine), "evolution", lambda: "%d layers for %d steps" % (nt, len(mine)), rep):
                continue
            get = {n: np.ma.filled(np.ma.asarray(ds.variables[n][:], float), fill) for n, fill in (("gust_speed", 0), ("velocity_east", 0), ("velocity_north", 0), ("pressure", np.nan))}
            for k, m in enumerate(mine):
                when = num2date(ds.variables["time"][k], ds.variables["time"].units, only_use_cftime_datetimes=False, only_use_python_datetimes=True)
                want = {n: np.full((len(y), len(x)), np.nan if n == "pressure" else 0.0) for n in get}
                ii = [int(np.argmin(np.abs(x - q))) for q in m[5]]
                jj = [int(np.argmin(np.abs(y - q))) for q in m[6]]
                far = max(np.abs(x[ii] - m[5]).max(), np.abs(y[jj] - m[6]).max())
                for n, a in zip(("gust_speed", "velocity_east", "velocity_north", "pressure"), m[1:5]):
                    want[n][np.ix_(jj, ii)] = a
                bad = [n for n in get if not np.allclose(get[n][k], want[n].astype("f4"), rtol=1e-5, atol=1e-4, equal_nan=True)]
                chk.expect(abs((when - m[0]).total_seconds()) < 1 and far < 1e-3 and not bad, "evolution",
                           lambda: "event %r layer %d at %s (step %s): differing variables %r, axes off by %g" % (tid, k, when, m[0], bad, far), rep)
                chk.evaluated(("layer",), None)


def runs(chk, k):
    import wind
    from Utilities import config
    rng = chk.rng("run", k)
    ext.hide()
    root = chk.scratch("r")
    ini, ids, pts, steps, lim, margin, res = setting(chk, rng, root, [1, 3, 1, 4][k % 4], k % 2 == 1)
    flat = [s for _, mine in steps for s in mine]
    if not flat:
        return
    rep = lambda: {"case": "run %d" % k, "region": lim, "stations": list(zip(ids, pts))}
    config.reset()
    out = fakempi.run_ranks(1, lambda rank: wind.run(ini), seed=k)
    if trackgen.failed(chk, out, "run-failed", "wind run with series", rep):
        return
    judge(chk, ids, pts, flat, root, "run", rep)
    if k % 2 == 1:
        evolutions(chk, root, steps, lim, margin, res, rep)


def again(chk, k):
    """Several processes, and a second run over a finished output folder: the series stay complete."""
    import wind
    from Utilities import config
    rng = chk.rng("again", k)
    ext.hide()
    root = chk.scratch("a")
    ini, ids, pts, steps, lim, margin, res = setting(chk, rng, root, 4, False)
    total = sum(len(m) for _, m in steps)
    if sum(1 for _, m in steps if m) < 2:
        return
    rep = lambda: {"case": "again %d" % k, "region": lim, "stations": list(zip(ids, pts))}
    d = os.path.join(root, "process", "timeseries")

    def size():
        n = {}
        for f in os.listdir(d):
            try:
                n[f] = len(rows(os.path.join(d, f))[1])
            except Exception:
                n[f] = -1
        return n, len(rows(os.path.join(root, "process", "maxima.csv"))[1])
    config.reset()
    if k % 2 == 0:
        out = fakempi.run_ranks(2, lambda rank: wind.run(ini), seed=k)
        if trackgen.failed(chk, out, "run-failed", "wind run with series on two processes", rep):
            return
        n, _ = size()
        chk.expect(n and all(v == total for v in n.values()), "parallel-series-overwritten",
                   lambda: "two processes, %d steps: records per series %r" % (total, n), rep)
        chk.evaluated(("parallel",))
        return
    for turn in range(2):
        out = fakempi.run_ranks(1, lambda rank: wind.run(ini), seed=k)
        if trackgen.failed(chk, out, "run-failed", "wind run %d with series" % turn, rep):
            return
        now = size()
        if turn == 0:
            first = now
    chk.expect(now == first, "rerun-series-lost", lambda: "records per series and stations with maxima %r after the first run, %r after the second" % (first, now), rep)
    chk.evaluated(("rerun",))


def group(chk, items):
    for f, k in items:
        {"d": direct, "r": runs, "a": again}[f](chk, k)


def run(chk):
    import wind                         # noqa: F401
    import Utilities.timeseries         # noqa: F401
    items = [("d", k) for k in range(chk.n(96, 1200))] + [("r", k) for k in range(chk.n(24, 240))] + [("a", k) for k in range(chk.n(8, 40))]
    chk.pmap(group, [items[a::16] for a in range(16)])
