"""C25: every row of the event database against the files it was built from."""
import os
import sqlite3
import time
from datetime import datetime

import numpy as np

from harness import core, ext, fakempi, haz, synth, trackgen
from harness.plain import forked

KM = 2 * np.pi * 6367.0 / 360


def make():
    return core.Check("C25", "one evaluation per database row compared with its source",
                      ["the database is built once, in a new folder", "wind files are named by their event as the model names them",
                       "a location is not equally near two grid points"])


def write_wind(path, lon, lat, fields, track, date, version):
    from netCDF4 import Dataset
    with Dataset(path, "w", format="NETCDF4_CLASSIC") as ds:
        ds.createDimension("lat", len(lat))
        ds.createDimension("lon", len(lon))
        for n, a in (("lat", lat), ("lon", lon)):
            ds.createVariable(n, "f8", (n,))[:] = a
        for n, a in fields.items():
            v = ds.createVariable(n, "f4", ("lat", "lon"), fill_value=haz.NODATA)
            v.actual_range = (a.min(), a.max())
            v[:] = a
        ds.track_file, ds.track_file_date, ds.tcrm_version = track, date, version


def write_hazard(path, lon, lat, years, d, version):
    from netCDF4 import Dataset
    with Dataset(path, "w", format="NETCDF4_CLASSIC") as ds:
        for n, a in (("ari", years), ("lat", lat), ("lon", lon)):
            ds.createDimension(n, len(a))
            ds.createVariable(n, "f8", (n,))[:] = a
        for n, a in d.items():
            dims = ("ari", "lat", "lon") if a.ndim == 3 else ("lat", "lon")
            ds.createVariable(n, "f4", dims, fill_value=haz.NODATA)[:] = a
        if version:
            ds.tcrm_version = version


def write_stations(base, locs):
    import shapefile
    with shapefile.Writer(base, shapeType=shapefile.POINT) as w:
        for n, t, s in (("WMO", "C", 10), ("ICAO", "C", 10), ("Place", "C", 40), ("State", "C", 10), ("Cou", "C", 30),
                        ("Lat", "C", 12), ("Lon", "C", 12), ("Elevation", "N", 10), ("X", "C", 4)):
            w.field(n, t, s, 2 if t == "N" else 0)
        for p in locs:
            w.point(p["x"], p["lat"])
            w.record(p["code"], p["comment"], p["name"], "st", p["country"], "", "", p["elev"], "")


def near(a, x):
    return int(np.argmin(np.abs(np.asarray(a, dtype=float) - x)))


def dist(x, y, lon, lat):
    """Distance in degrees of a point from a polyline."""
    if len(lon) == 1:
        return float(np.hypot(lon[0] - x, lat[0] - y))
    best = np.inf
    for a in range(len(lon) - 1):
        ux, uy = lon[a + 1] - lon[a], lat[a + 1] - lat[a]
        n = ux * ux + uy * uy
        t = 0.0 if n == 0 else min(1.0, max(0.0, ((x - lon[a]) * ux + (y - lat[a]) * uy) / n))
        best = min(best, np.hypot(lon[a] + t * ux - x, lat[a] + t * uy - y))
    return float(best)


def locations(rng, lim, n, wrap):
    out = []
    for i in range(n):
        lon = float(rng.uniform(lim["xMin"] - 2, lim["xMax"] + 2))
        lat = float(rng.uniform(lim["yMin"] - 1.5, lim["yMax"] + 1.5))
        e = int(rng.integers(12))
        if e == 0:
            lon = float(lim["xMin"])
        elif e == 1:
            lat = float(lim["yMax"])
        elif e == 2 and out:                # two locations at one place
            lon, lat = out[-1]["lon"], out[-1]["lat"]
        out.append({"name": "Place %d" % i, "code": "%05d" % (1000 + 7 * i), "comment": "C%d" % i, "country": "Land %d" % (i % 3),
                    "elev": float(rng.integers(0, 900)), "lon": lon, "lat": lat, "x": lon + float(rng.choice([0, 0, 0, -360, -360, 360, -720])) if wrap else lon})
    return out


def inside(p, lim):
    return lim["xMin"] <= p["lon"] <= lim["xMax"] and lim["yMin"] <= p["lat"] <= lim["yMax"]


def build(chk, rng, root, nloc, nev, ntr, k):
    """A finished simulation folder; returns the content the database should have."""
    from Utilities.track import Track, ncSaveTracks
    from harness import windref
    x0, y0 = float(rng.integers(100, 200)), float(rng.choice([-25, -12, 10, 25]))
    lim = {"xMin": x0, "xMax": x0 + float(rng.choice([1, 2, 3.25])), "yMin": y0, "yMax": y0 + float(rng.choice([1, 1.5, 2.1]))}
    c = {"lim": lim, "events": {}, "tracks": {}}
    for d in ("windfield", "tracks", "hazard"):
        os.makedirs(os.path.join(root, d))
    c["locs"] = locations(rng, lim, nloc, True)
    res = float(rng.choice([0.1, 0.25, 0.3]))
    short = [0.0, 0.0, 0.4][k % 3]              # the grid need not reach the edge of the region
    desc = k // 7 % 2 == 0

    def axes():
        lon = np.round(np.arange(lim["xMin"] + short, lim["xMax"] - short + 1e-6, res), 6)
        lat = np.round(np.arange(lim["yMin"] + short, lim["yMax"] - short + 1e-6, res), 6)
        return lon, lat[::-1].copy() if desc else lat
    lon, lat = axes()
    ids = set()
    while len(ids) < nev:
        ids.add((int(rng.choice([0, 1, 2, 7, 15, 120])), int(rng.choice([0, 1, 2, 3, 9, 10, 100, 20000, 54321]))))
    ids = sorted(ids)
    rng.shuffle(ids)
    for i, j in ids:
        name = "gust.%03d-%05d.nc" % (i, j)
        f = {"vmax": rng.uniform(0, 90, (len(lat), len(lon))).astype("f4"), "ua": rng.uniform(-60, 60, (len(lat), len(lon))).astype("f4"),
             "va": rng.uniform(-60, 60, (len(lat), len(lon))).astype("f4"), "slp": rng.uniform(91000, 101000, (len(lat), len(lon))).astype("f4")}
        e = {"file": name, "id": "%03d-%05d" % (i, j), "track": "tracks.%05d.nc" % j, "date": "20%02d-0%d-1%d 0%d:30:15" % (i % 90, 1 + j % 9, j % 10, i % 10),
             "version": "v%d.%d" % (i, j % 7), "fields": f, "lon": lon, "lat": lat, "mtime": int(rng.integers(10 ** 9, 17 * 10 ** 8))}
        path = os.path.join(root, "windfield", name)
        write_wind(path, lon, lat, f, "/somewhere/else/" + e["track"], e["date"], e["version"])
        os.utime(path, (e["mtime"],) * 2)
        c["events"][e["id"]] = e
    if k % 5 == 2:
        haz.beside(os.path.join(root, "windfield"), [e["file"] for e in c["events"].values()], lon, lat)
    if k % 4 == 1:                          # the hazard grid need not be the wind grid
        lon, lat = lon[1:-1], lat[::-1].copy()
    c["lon"], c["lat"] = lon, lat
    years = np.array(sorted(rng.choice([2, 5, 10, 20, 50, 100, 250, 500, 1000, 2000, 10000], int(rng.integers(1, 6)), replace=False)), dtype=float)
    h = {n: rng.uniform(1, 90, (len(years), len(lat), len(lon))).astype("f4") for n in ("wspd", "wspdupper", "wspdlower")}
    h.update({n: rng.uniform(1, 90, (len(lat), len(lon))).astype("f4") for n in ("loc", "scale", "shp")})
    if rng.random() < 0.4:
        gone = rng.random((len(lat), len(lon))) < 0.3
        for a in h.values():
            a[..., gone] = haz.NODATA
    c["years"], c["hazard"], c["hversion"] = years, h, "h%d" % int(rng.integers(9)) if rng.random() < 0.8 else ""
    write_hazard(os.path.join(root, "hazard", "hazard.nc"), lon, lat, years, h, c["hversion"])
    for s in [int(s) for s in rng.choice([0, 1, 2, 3, 4, 9, 10, 99, 100, 1000, 10000, 23456, 54321], ntr, replace=False)]:
        tracks = []
        for j in range(int(rng.integers(0 if k % 5 == 3 else 1, 4))):
            data = windref.storm_track(rng, lim, int(rng.choice([1, 2, 6, 20])), ident=(j, s))
            lo, la = data["Longitude"].astype(float).copy(), data["Latitude"].astype(float).copy()
            t = Track(data)
            t.trackId = (j, s)
            tracks.append(t)
            c["tracks"]["%03d-%05d" % (j, s)] = (lo, la)
        ncSaveTracks(os.path.join(root, "tracks", "tracks.%05d.nc" % s), tracks)
    shp = os.path.join(root, "stations")
    write_stations(shp, c["locs"])
    c["config"] = os.path.join(root, "c.ini")
    synth.write_config(c["config"], {"Region": {"gridLimit": lim}, "Output": {"Path": root}, "Input": {"LocationFile": shp},
                                     "Process": {"DatFile": os.path.join(root, "processed.dat"), "ExcludePastProcessed": "False"}})
    return c


def table(root, sql):
    db = sqlite3.connect(os.path.join(root, "hazard.db"))
    try:
        return db.execute(sql).fetchall()
    finally:
        db.close()


def same(got, want, tol=1e-5):
    """A stored number; missing values may be stored as NULL or as the marker."""
    if want == haz.NODATA:
        return got is None or got == want
    return got is not None and abs(got - want) <= tol * max(1.0, abs(want))


def judge(chk, c, root, what, rep):
    rows = table(root, "SELECT locId,locCode,locName,locLon,locLat,locElev,locCountry,Comments FROM tblLocations")
    want = {p["name"]: p for p in c["locs"] if inside(p, c["lim"])}
    chk.expect(sorted(r[2] for r in rows) == sorted(want), "locations",
               lambda: "%s: locations %r, expected %r" % (what, sorted(r[2] for r in rows)[:9], sorted(want)[:9]), rep)
    chk.expect(len({r[0] for r in rows}) == len(rows), "locations", "%s: repeated location identifier" % what, rep)
    loc = {}
    for r in rows:
        p = want.get(r[2])
        if p:
            loc[r[0]] = p
            chk.expect(r[1] == p["code"] and same(r[3], p["lon"], 1e-9) and same(r[4], p["lat"], 1e-9) and same(r[5], p["elev"], 1e-9)
                       and r[6] == p["country"] and r[7] == p["comment"], "locations", lambda: "%s: location %r, expected %r" % (what, r, p), rep)
            chk.evaluated(("location", p["x"] != p["lon"]), {"row": r})

    def pairs(rows, keys, kind):
        """Exactly one row for each expected pair."""
        got = {}
        for r in rows:
            chk.expect(r[:2] not in got, kind, lambda: "%s: more than one row for %r" % (what, r[:2]), rep)
            got[r[:2]] = r
        miss, extra = sorted(set(keys) - set(got)), sorted(set(got) - set(keys), key=repr)
        chk.expect(not miss and not extra, kind, lambda: "%s: %d rows for %d pairs, missing %r, unexpected %r" % (what, len(rows), len(keys), miss[:4], extra[:4]), rep)
        return [(k, got[k]) for k in keys if k in got]

    rows = table(root, "SELECT eventId,eventFile,eventTrackFile,eventMaxWind,eventMinPressure,dtTrackFile,dtWindfieldFile,tcrmVersion FROM tblEvents")
    chk.expect(sorted(r[0] for r in rows) == sorted(c["events"]), "events", lambda: "%s: events %r, expected %r" % (
        what, sorted(r[0] for r in rows)[:8], sorted(c["events"])[:8]), rep)
    for r in rows:
        e = c["events"].get(r[0])
        if e is None:
            continue
        w = (e["id"], e["file"], e["track"], float(e["fields"]["vmax"].max()), float(e["fields"]["slp"].min()), e["date"],
             datetime.fromtimestamp(e["mtime"]).strftime("%Y-%m-%d %H:%M:%S"), e["version"])
        chk.expect(all(same(a, b) if isinstance(b, float) else a == b for a, b in zip(r, w)), "event", lambda: "%s: event %r, expected %r" % (what, r, w), rep)
        chk.evaluated(("event", len(c["events"])), {"row": r})

    rows = table(root, "SELECT locId,eventId,wspd,umax,vmax,pmin FROM tblWindSpeed")
    for (i, e), r in pairs(rows, [(i, e) for i in loc for e in c["events"]], "winds"):
        j, k = near(c["events"][e]["lat"], loc[i]["lat"]), near(c["events"][e]["lon"], loc[i]["lon"])
        f = c["events"][e]["fields"]
        w = [float(f[n][j, k]) for n in ("vmax", "ua", "va", "slp")]
        chk.expect(all(same(a, b) for a, b in zip(r[2:], w)), "wind", lambda: "%s: winds of event %s at %s are %r, expected %r" % (what, e, loc[i]["name"], r[2:], w), rep)
        chk.evaluated(("wind", c["lat"][0] > c["lat"][-1]), {"row": r})

    rows = table(root, "SELECT locId,returnPeriod,wspd,wspdUpper,wspdLower,loc,scale,shape,tcrmVersion FROM tblHazard")
    for (i, y), r in pairs(rows, [(i, float(y)) for i in loc for y in c["years"]], "hazards"):
        j, k = near(c["lat"], loc[i]["lat"]), near(c["lon"], loc[i]["lon"])
        n = list(c["years"]).index(y)
        h = c["hazard"]
        w = [float(h[v][n, j, k]) for v in ("wspd", "wspdupper", "wspdlower")] + [float(h[v][j, k]) for v in ("loc", "scale", "shp")]
        chk.expect(all(same(a, b) for a, b in zip(r[2:8], w)) and r[8] == c["hversion"], "hazard",
                   lambda: "%s: hazard at %s for %g years is %r, expected %r" % (what, loc[i]["name"], y, r[2:], w), rep)
        chk.evaluated(("hazard", w[0] == haz.NODATA), {"row": r})

    rows = table(root, "SELECT locId,eventId,distClosest FROM tblTracks")
    for (i, t), r in pairs(rows, [(i, t) for i in loc for t in c["tracks"]], "passages"):
        w = dist(loc[i]["lon"], loc[i]["lat"], *c["tracks"][t]) * KM
        chk.expect(r[2] is not None and abs(r[2] - w) <= 1e-3 + 1e-5 * w, "passage",
                   lambda: "%s: track %s passes %r km from %s, expected %r" % (what, t, r[2], loc[i]["name"], w), rep)
        chk.evaluated(("passage", len(c["tracks"][t][0]) == 1, w < 1), {"row": r})


def clear(root):
    for n in ("hazard.db", "hazard.db-journal", "locations.db", "processed.dat"):
        if os.path.exists(os.path.join(root, n)):
            os.unlink(os.path.join(root, n))


def case(chk, k):
    import database
    rng = chk.rng("case", k)
    root = chk.scratch("db")
    os.environ["TZ"] = ["UTC", "AAA-10", "BBB+5:30"][k % 3]
    time.tzset()
    nloc, nev, ntr = [(12, 7, 3), (1, 1, 1), (25, 3, 6), (8, 12, 0), (5, 0, 4), (0, 4, 2), (40, 20, 9)][k % 7]
    c = build(chk, rng, root, max(nloc, 1), nev, ntr, k)
    if nloc == 0:
        for p in c["locs"]:
            p["lat"] = c["lim"]["yMax"] + 5
        write_stations(os.path.join(root, "stations"), c["locs"])
    for ranks in [0, 1, 2, 3, 5, 8, 13][: 7 if not chk.quick else 4] + [int(rng.integers(4, 16))]:
        clear(root)
        mode, send = str(rng.choice(["serial", "parallel"])), str(rng.choice(["eager", "rendezvous"]))
        what = "case %d on %d processes" % (k, ranks)
        rep = {"case": k, "processes": ranks, "mode": mode, "send": send, "region": c["lim"], "events": sorted(c["events"]), "locations": c["locs"]}
        if ranks == 0:
            res = forked(lambda: database.run(c["config"]))
            if not chk.expect(res[0] == "ok", "run-failed", lambda: "%s: %s" % (what, res[1][-600:]), rep):
                continue
        else:
            res = fakempi.run_ranks(ranks, lambda rank: database.run(c["config"]), seed=int(rng.integers(1 << 30)), mode=mode, send=send, timeout=300)
            if trackgen.failed(chk, res, "run-failed", what, rep):
                continue
        judge(chk, c, root, what, rep)
        chk.count("builds")


def chain(chk, k):
    """Tracks, wind fields, hazard and database in sequence, each stage on the files of the one before."""
    import database
    import hazard
    import wind
    from netCDF4 import Dataset
    from checks import c11
    rng = chk.rng("chain", k)
    ext.hide()
    root = chk.scratch("ch")
    s = c11.write_case(chk, rng, root, 6, (1, 3))
    if not s.want:
        return
    os.makedirs(os.path.join(root, "hazard"))
    c = {"lim": s.lim, "events": {}, "tracks": {}, "years": np.array([2.0, 5, 20])}
    c["locs"] = locations(rng, s.lim, 15, True)
    for p in c["locs"]:
        if p["lon"] < 0:
            return
    write_stations(os.path.join(root, "stations"), c["locs"])
    cfg = {"Region": {"gridLimit": s.lim}, "Output": {"Path": root}, "Input": {"LocationFile": os.path.join(root, "stations")},
           "Process": {"DatFile": os.path.join(root, "processed.dat"), "ExcludePastProcessed": "False"},
           "Timeseries": {"Extract": "False", "Windfields": str(k % 2 == 1)},
           "TrackGenerator": {"NumSimulations": 6, "YearsPerSimulation": 1},
           "Hazard": {"Years": "2,5,20", "MinimumRecords": 2, "CalculateCI": "False", "ExtremeValueDistribution": "GEV"},
           "WindfieldInterface": {"profileType": s.profile, "windFieldType": s.field, "beta": 1.3, "beta1": 1.5, "beta2": 1.4,
                                  "thetaMax": 70.0, "Margin": s.margin, "Resolution": s.res, "Domain": "bounded"}}
    synth.write_config(s.config, cfg)
    rep = {"case": "chain %d" % k, "region": s.lim, "events": sorted(s.want)}
    for stage, fn in (("wind fields", wind.run), ("hazard", hazard.run), ("database", database.run)):
        st, err = forked(lambda: fn(s.config))
        if not chk.expect(st == "ok", "run-failed", lambda: "chain %d, %s: %s" % (k, stage, err[-600:]), rep):
            return
    for name in [n for n in os.listdir(os.path.join(root, "windfield")) if not n.startswith("evolution.")]:
        path = os.path.join(root, "windfield", name)
        with Dataset(path) as ds:
            ds.set_auto_mask(False)
            f = {v: np.array(ds.variables[v][:]) for v in ("vmax", "ua", "va", "slp")}
            lon, lat = np.array(ds.variables["lon"][:]), np.array(ds.variables["lat"][:])
            e = name[5:14]
            track = os.path.join(root, "tracks", os.path.basename(ds.track_file))
            c["events"][e] = {"id": e, "file": name, "fields": f, "lon": lon, "lat": lat, "track": "tracks.%s.nc" % name[9:14], "version": ds.tcrm_version,
                              "date": datetime.fromtimestamp(int(os.stat(track).st_mtime)).strftime("%Y-%m-%d %H:%M:%S"),
                              "mtime": int(os.stat(path).st_mtime)}
    for name in os.listdir(os.path.join(root, "tracks")):
        for j, lo, la in tracks_of(os.path.join(root, "tracks", name)):
            c["tracks"]["%03d-%s" % (j, name[7:12])] = (lo, la)
    with Dataset(os.path.join(root, "hazard", "hazard.nc")) as ds:
        ds.set_auto_mask(False)
        c["hazard"] = {v: np.array(ds.variables[v][:]) for v in ("wspd", "wspdupper", "wspdlower", "loc", "scale", "shp")}
        c["hversion"] = getattr(ds, "tcrm_version", "")
        c["lon"], c["lat"] = np.array(ds.variables["lon"][:]), np.array(ds.variables["lat"][:])
    judge(chk, c, root, "chain %d" % k, rep)
    chk.count("chains")


def tracks_of(path):
    from netCDF4 import Dataset
    with Dataset(path) as ds:
        for g in ds.groups["tracks"].groups.values():
            t = g.variables["track"][:]
            yield int(t["CycloneNumber"][0]), np.array(t["Longitude"], dtype=float), np.array(t["Latitude"], dtype=float)


def run(chk):
    import hazard      # noqa: F401
    import wind      # noqa: F401
    import database      # noqa: F401
    import Utilities.shptools      # noqa: F401
    import shapefile      # noqa: F401
    chk.pmap(case, list(range(chk.n(28, 210))))
    chk.pmap(chain, list(range(chk.n(4, 24))))
