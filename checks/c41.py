"""C41: tracks and polygons exported to shape files keep every position and attribute."""
import os
from datetime import datetime, timedelta

import numpy as np

from harness import core, synth

OBS = (("Indicator", "i"), ("CycloneNumber", "i"), ("Year", "i"), ("Month", "i"), ("Day", "i"), ("Hour", "i"), ("Minute", "i"), ("TimeElapsed", "f"),
       ("Datetime", "O"), ("Longitude", "f8"), ("Latitude", "f8"), ("Speed", "f"), ("Bearing", "f"), ("CentralPressure", "f"), ("WindSpeed", "f"),
       ("rMax", "f"), ("EnvPressure", "f"))
# Name in the file, attribute of the record, decimals kept.
POINT = (("Indicator", "Indicator", 0), ("TCID", "CycloneNumber", 0), ("Year", "Year", 0), ("Month", "Month", 0), ("Day", "Day", 0), ("Hour", "Hour", 0),
         ("Minute", "Minute", 0), (("TElapsed", "TimeElapsed"), "TimeElapsed", 2), ("Longitude", "Longitude", 2), ("Latitude", "Latitude", 2), ("Speed", "Speed", 1),
         ("Bearing", "Bearing", 1), (("Pcentre", "CentralPressure"), "CentralPressure", 1), (("MaxWind", "WindSpeed"), "WindSpeed", 1), ("rMax", "rMax", 1),
         (("Penv", "EnvPressure"), "EnvPressure", 1))
TCRM = (("CycloneNumber", "CycloneNumber", 0), ("TimeElapsed", "TimeElapsed", 2), ("Longitude", "Longitude", 4), ("Latitude", "Latitude", 4), ("Speed", "Speed", 4),
        ("Bearing", "Bearing", 4), ("CentralPressure", "CentralPressure", 3), ("EnvPressure", "EnvPressure", 3), ("rMax", "rMax", 4))


def make():
    return core.Check("C41", "one evaluation per exported feature compared with its record", ["values fit the columns' widths", "a track crosses 0E at most once"])


def storm(rng, k, simulated):
    n = int(rng.choice([1, 2, 3, int(rng.integers(4, 30))]))
    lon = rng.uniform(100, 250) + np.cumsum(rng.uniform(-0.8, 0.8, n))
    if rng.random() < 0.3:
        lon = (358.5 + np.cumsum(rng.uniform(0.05, 0.6, n))) % 360.0
    lat = rng.uniform(-25, -8) * (1 if rng.random() < 0.5 else -1) + np.cumsum(rng.uniform(-0.5, 0.5, n))
    t0 = datetime(int(rng.integers(1960, 2020)), int(rng.integers(1, 13)), int(rng.integers(1, 29)), int(rng.integers(0, 24)), int(rng.integers(0, 60)))
    t = np.arange(n) * float(rng.choice([1, 3, 6]))
    times = [t0 + timedelta(hours=float(h)) for h in t]
    dt = synth.TRACK_DTYPE if simulated else np.dtype([(a, b) for a, b in OBS])
    d = np.zeros(n, dt)
    d["CycloneNumber"], d["Datetime"], d["TimeElapsed"], d["Longitude"], d["Latitude"] = k, times, t, lon, lat
    d["Speed"], d["Bearing"] = rng.uniform(0, 90, n), rng.uniform(0, 360, n)
    p = rng.choice([rng.uniform(900, 1010), 930, 955, 970, 985, 999]) + np.cumsum(np.r_[0, rng.uniform(-8, 8, n - 1)])
    d["CentralPressure"], d["EnvPressure"], d["rMax"] = p, rng.uniform(1000, 1015, n), rng.uniform(5, 90, n)
    if not simulated:
        d["Indicator"][0] = 1
        d["WindSpeed"] = rng.uniform(5, 80, n)
        for name in ("Year", "Month", "Day", "Hour", "Minute"):
            d[name] = [getattr(w, name.lower()) for w in times]
    return d


def category(p):
    return 5 if p < 930 else 4 if p < 955 else 3 if p < 970 else 2 if p < 985 else 1 if p < 999 else 0


def attributes(chk, rec, row, cols, what, rep, cat):
    d = rec.as_dict()
    for names, field, dec in cols:
        names = names if isinstance(names, tuple) else (names,)
        hit = [x for x in d if any(x == m[:10] or x == m for m in names)]
        if not chk.expect(len(hit) == 1, "columns", lambda: "%s: columns %r for %s" % (what, sorted(d), field), rep):
            return
        got, want = d[hit[0]], float(row[field])
        chk.expect(got is not None and abs(float(got) - want) <= 0.5 * 10.0 ** -dec + 1e-5 * abs(want), "attribute",
                   lambda: "%s: %s is %r, recorded %r" % (what, field, got, want), rep)
    if cat:
        chk.expect(d.get("Category") == category(row["CentralPressure"]), "category",
                   lambda: "%s: category %r for %r hPa" % (what, d.get("Category"), row["CentralPressure"]), rep)


def same(a, b):
    return len(a) == len(b) and np.allclose(np.array(a, float)[:, :2], np.array(b, float), atol=1e-6)


def tracks(chk, rng, k):
    import shapefile
    from Utilities import shptools, tracks2shp
    from Utilities.track import Track
    root = chk.scratch("shp")
    simulated = bool(rng.random() < 0.4)
    rows = [storm(rng, i + 1, simulated) for i in range(int(rng.integers(1, 6)))]
    rep = lambda: {"case": k, "simulated": simulated, "tracks": [[list(zip(r["Longitude"].tolist(), r["Latitude"].tolist()))] for r in rows]}
    mk = lambda: [Track(r.copy()) for r in rows]
    ways = ["tracks2shp"] if simulated else ["tracks2shp", "shptools"]
    for way in ways:
        for fmt in ("points", "segments", "lines"):
            name = os.path.join(root, "%s-%s" % (way, fmt))
            what = "%s tracks as %s (%s)" % ("simulated" if simulated else "observed", fmt, way)
            t = mk()
            if way == "shptools":
                kw = {} if fmt == "points" and rng.random() < 0.5 else {"fmt": fmt}
                ok, _ = chk.call(shptools.shpSaveTrackFile, name, t, _kind="export-fails", _what=what, _replay=rep, **kw)
            else:
                tracks2shp.add_category(t)
                kw = {"netcdf_format": simulated}
                if fmt == "points":
                    ok, _ = chk.call(tracks2shp.tracks2point, t, name, _kind="export-fails", _what=what, _replay=rep, **kw)
                else:
                    ok, _ = chk.call(tracks2shp.tracks2line, t, name, _kind="export-fails", _what=what, _replay=rep, dissolve=fmt == "lines", **kw)
            if not ok:
                continue
            if not chk.expect(os.path.exists(name + ".shp"), "no-file", lambda: what + ": nothing was written", rep):
                continue
            with shapefile.Reader(name) as r:
                feats = r.shapeRecords()
            judge(chk, rows, feats, fmt, simulated, way == "tracks2shp", what, rep)
            if way == "shptools" and fmt == "points":
                v = shptools.shpGetVertices(name)
                chk.expect(len(v) == len(feats) and all(same(v[i], [p]) for i, p in enumerate(
                    [(float(x), float(y)) for q in rows for x, y in zip(q["Longitude"], q["Latitude"])])), "read-back",
                    lambda: what + ": vertices read back differ", rep)
                g = shptools.shpGetField(name, "Year", int)
                chk.expect(list(g) == [int(y) for q in rows for y in q["Year"]], "read-back", lambda: what + ": years read back %r" % (g,), rep)


def judge(chk, rows, feats, fmt, simulated, cat, what, rep):
    cols = TCRM if simulated else POINT
    want = sum(1 if fmt == "lines" else len(r) for r in rows)
    if not chk.expect(len(feats) == want, "features", lambda: "%s: %d features, expected %d" % (what, len(feats), want), rep):
        return
    i = 0
    for r in rows:
        xy = list(zip(r["Longitude"].tolist(), r["Latitude"].tolist()))
        jump = [j for j in range(len(xy) - 1) if xy[j + 1][0] - xy[j][0] < -180]
        if fmt == "lines":
            f = feats[i]
            i += 1
            chk.expect(same(f.shape.points, xy), "line", lambda: "%s: line %r of the positions %r" % (what, f.shape.points[:6], xy[:6]), rep)
            chk.expect(list(f.shape.parts) == [0] + [j + 1 for j in jump], "parts", lambda: "%s: parts %r, crossing after %r" % (what, f.shape.parts, jump), rep)
            d = f.record.as_dict()
            if simulated:
                attributes(chk, f.record, r[0], cols, what, rep, cat)
            else:
                low = [v for a, v in d.items() if a.startswith("Min") and a != "Minute"]
                top = [v for a, v in d.items() if a.startswith("MaxW")]
                chk.expect(len(low) == 1 and abs(low[0] - r["CentralPressure"].min()) < 0.01 and len(top) == 1 and abs(top[0] - r["WindSpeed"].max()) < 0.06
                           and abs(d["Age"] - r["TimeElapsed"].max()) < 0.01, "summary", lambda: "%s: summary %r" % (what, d), rep)
                chk.expect([d[a] for a in ("TCID", "Year", "Month", "Day", "Hour", "Minute")] ==
                           [int(r[a][0]) for a in ("CycloneNumber", "Year", "Month", "Day", "Hour", "Minute")], "summary",
                           lambda: "%s: start %r of a storm from %s" % (what, d, r["Datetime"][0]), rep)
            chk.evaluated((fmt, simulated, cat, len(r) > 1, bool(jump)), {"what": what, "points": len(xy)})
            continue
        for j, row in enumerate(r):
            f = feats[i]
            i += 1
            if fmt == "points":
                p = [xy[j]]
            else:
                p = [xy[j], xy[j] if j + 1 == len(xy) or j in jump else xy[j + 1]]
            chk.expect(same(f.shape.points, p), "shape", lambda: "%s: record %d of %d drawn as %r, expected %r" % (what, j, len(xy), f.shape.points, p), rep)
            attributes(chk, f.record, row, cols, "%s, record %d" % (what, j), rep, cat)
            chk.evaluated((fmt, simulated, cat, len(r) > 1, j in jump), None)


def polygons(chk, rng, k):
    """Polygons copied from one file to another through the package."""
    import shapefile
    from Utilities import shptools
    root = chk.scratch("poly")
    src, dst = os.path.join(root, "a"), os.path.join(root, "b")
    want = []
    with shapefile.Writer(src, shapefile.POLYGON) as w:
        w.field("NAME", "C", 12)
        w.field("VALUE", "N", 12, 3)
        for i in range(int(rng.integers(1, 6))):
            parts = []
            for q in range(int(rng.integers(1, 4))):
                m, x, y = int(rng.integers(3, 9)), rng.uniform(100, 160) + 30 * q, rng.uniform(-30, -5)
                th = -np.sort(rng.uniform(0, 2 * np.pi, m))
                ring = [(float(x + 2 * np.cos(a)), float(y + 2 * np.sin(a))) for a in th]
                parts.append(ring + [ring[0]])
            w.poly(parts)
            want.append((parts, "P%d" % rng.integers(0, 10 ** 6), round(float(rng.normal(0, 100)), 3)))
            w.record(*want[-1][1:])
    rep = lambda: {"case": k, "polygons": [[len(q) for q in p[0]] for p in want]}
    with shapefile.Reader(src) as r:
        shapes, recs, fields = r.shapes(), r.records(), r.fields[1:]
    ok, _ = chk.call(shptools.shpWriteShapeFile, dst, shapefile.POLYGON, fields, shapes, recs, _kind="export-fails", _what="polygons", _replay=rep)
    if not ok:
        return
    ok, got = chk.call(shptools.shpReadShapeFile, dst, _kind="export-fails", _what="polygons read back", _replay=rep)
    if not ok:
        return
    v, recs = got
    chk.expect(len(v) == len(want) and all(same(v[i], [p for q in want[i][0] for p in q]) for i in range(len(want))), "polygon",
               lambda: "polygons %r read back as %r" % ([p[0] for p in want], v), rep)
    chk.expect([list(q) for q in recs] == [[p[1], p[2]] for p in want], "polygon-record", lambda: "records %r, expected %r" % (recs, [p[1:] for p in want]), rep)
    names = shptools.shpGetField(dst, "NAME", str)
    values = shptools.shpGetField(dst, "VALUE")
    chk.expect(list(names) == [p[1] for p in want] and np.allclose(values, [p[2] for p in want]), "polygon-record", lambda: "fields %r %r" % (names, values), rep)
    keyed = shptools.shpGetVertices(dst, "NAME")
    if len(set(names)) == len(names):
        chk.expect(all(same(keyed[p[1]], [x for q in p[0] for x in q]) for p in want), "polygon-key", "vertices by name differ", rep)
    chk.evaluated(("polygon", k), None, k=len(want))


def group(chk, item):
    g, n = item
    rng = chk.rng("shp", g)
    for k in range(n):
        tracks(chk, rng, (g, k))
        polygons(chk, rng, (g, k))


def run(chk):
    import Utilities.shptools, Utilities.tracks2shp, Utilities.track      # noqa: F401,E401
    chk.pmap(group, [(g, chk.n(12, 150)) for g in range(16)])
