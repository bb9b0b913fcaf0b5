"""C38: a model run is its enabled stages, each working from the stored results of the earlier ones."""
import os
import sqlite3
import sys
from datetime import datetime, timedelta

import numpy as np
from netCDF4 import Dataset

from harness import core, fakempi, synth, trackgen

STAGES = ["DataProcess", "ExecuteStat", "ExecuteTrackGenerator", "ExecuteWindfield", "ExecuteHazard", "CreateDatabase"]
# where each stage keeps its results
PLACES = {"ExecuteTrackGenerator": "tracks", "ExecuteWindfield": "windfield", "ExecuteHazard": "hazard"}
STATS = [("speed_stats.nc", "all_speed", False), ("speed_rate_stats.nc", "speed_rate", False),
         ("pressure_stats.nc", "all_pressure", False), ("pressure_rate_stats.nc", "pressure_rate", False),
         ("bearing_stats.nc", "all_bearing", True), ("bearing_rate_stats.nc", "bearing_rate", True)]
DISTS = [("init_day", "origin_lon_lat", "jdays"), ("init_bearing", "init_lon_lat", "init_bearing"),
         ("init_speed", "init_lon_lat", "init_speed"), ("init_pressure", "origin_lon_lat", "init_pressure"),
         ("init_rmax", "origin_lon_lat", "init_rmax")]


def make():
    return core.Check("C38", "one evaluation per stored result compared between two ways of running the same model",
                      ["map drawing is replaced by stand-ins (no coastline data offline)", "identifiers and dates of the run are not compared"])


# ---- model set-up ------------------------------------------------------------

def history(rng, path, x0, y0, sign, rmax):
    n = 0
    with open(path, "w") as f:
        f.write("num,date,lat,lon,p,r\n")
        for y in range(1990, 2006):
            for _ in range(int(rng.poisson(4)) + 2):
                n += 1
                t = datetime(y, int(rng.choice([1, 2, 3, 12])), int(rng.integers(1, 28)), int(rng.choice([0, 6, 12, 18])))
                lon, lat = x0 + rng.uniform(-4, 11), y0 + sign * rng.uniform(-3, 2)
                v, b, p, r = rng.uniform(0.3, 0.9), rng.uniform(0.5, 1.5), rng.uniform(985, 1003), rng.uniform(20, 60)
                for _ in range(int(rng.integers(6, 24))):
                    f.write("%d,%s,%.2f,%.2f,%.1f,%.1f\n" % (n, t.strftime("%Y-%m-%d %H:%M"), lat, lon, p, r))
                    t += timedelta(hours=6)
                    b += rng.normal(0, 0.25)
                    lat, lon = lat + sign * v * np.sin(b), lon - v * np.cos(b)
                    p = float(np.clip(p + rng.normal(-1.5, 3), 930, 1006))
                    r = float(np.clip(r + rng.normal(0, 3), 10, 90))
    return n


def stations(rng, base, lim, n=6):
    import shapefile
    with shapefile.Writer(base, shapeType=shapefile.POINT) as w:
        for name, t, s in (("WMO", "C", 10), ("ICAO", "C", 10), ("Place", "C", 40), ("State", "C", 10), ("Cou", "C", 30),
                           ("Lat", "C", 12), ("Lon", "C", 12), ("Elevation", "N", 10), ("X", "C", 4)):
            w.field(name, t, s, 2 if t == "N" else 0)
        for i in range(n):
            w.point(rng.uniform(lim["xMin"] + 1, lim["xMax"] - 1), rng.uniform(lim["yMin"] + 1, lim["yMax"] - 1))
            w.record("%d" % (94000 + i), "c%d" % i, "Place %d" % i, "st", "Country", "", "", 10.0 * i, "")


class Model:
    pass


def setup(rng, root, rmax=False):
    """Inputs shared by every way of running the model."""
    m = Model()
    m.root = root
    sign = int(rng.choice([-1, 1]))
    x0, y0 = float(rng.integers(60, 240)), sign * float(rng.integers(10, 14))
    m.rmax = rmax
    history(rng, os.path.join(root, "hist.csv"), x0, y0, sign, m.rmax)
    a, b = y0 - sign * 2, y0 + sign * (4 + int(rng.integers(0, 3)))
    m.lim = {"xMin": x0, "xMax": x0 + float(rng.integers(4, 7)), "yMin": min(a, b), "yMax": max(a, b)}
    edge = x0 + rng.uniform(1, 4)
    synth.write_landmask(os.path.join(root, "mask.nc"), lambda x, y: x < edge, step=1.0)
    synth.write_mslp(os.path.join(root, "mslp.nc"))
    stations(rng, os.path.join(root, "stn"), m.lim)
    c = np.array([[edge - 2, y0], [edge + 1, y0 + sign], [edge + 1, y0 + 5 * sign], [edge - 2, y0 + 6 * sign]])
    np.savetxt(os.path.join(root, "gates.csv"), np.column_stack([np.arange(len(c)), c]), delimiter=",")
    with open(os.path.join(root, "data.txt"), "w") as f:
        f.write("present\n")
    m.nsim = int(rng.integers(8, 13))
    space = float(rng.choice([2.5, 5.0]))
    m.sections = {
        "Actions": {a: "False" for a in STAGES + ["DownloadData", "PlotData", "PlotHazard", "ExecuteEvaluate"]},
        "Region": {"gridLimit": m.lim, "gridSpace": {"x": space, "y": space}, "gridInc": {"x": 1.0, "y": 0.5}},
        "DataProcess": {"InputFile": os.path.join(root, "hist.csv"), "Source": "SRC", "StartSeason": 1981, "FilterSeasons": "False"},
        "SRC": {"columns": "num,date,lat,lon,pressure" + (",rmax" if m.rmax else ",skip"), "fieldDelimiter": ",",
                "numberOfHeadingLines": 1, "pressureUnits": "hPa", "lengthUnits": "km", "speedUnits": "mps",
                "dateFormat": "%Y-%m-%d %H:%M"},
        "StatInterface": {"kdeType": "gau", "kde2DType": "Gaussian", "kdeStep": 0.5, "minSamplesCell": 8},
        "TrackGenerator": {"NumSimulations": m.nsim, "YearsPerSimulation": 1, "SeasonSeed": int(rng.integers(1, 1000)),
                           "TrackSeed": int(rng.integers(1, 1000))},
        "WindfieldInterface": {"Resolution": 0.5, "Domain": "bounded", "profileType": str(rng.choice(["powell", "holland"])),
                               "windFieldType": str(rng.choice(["kepert", "hubbert"]))},
        "Hazard": {"Years": "2,5", "MinimumRecords": 3, "CalculateCI": "False",
                   "ExtremeValueDistribution": str(rng.choice(["GEV", "emp"]))},
        "Input": {"LandMask": os.path.join(root, "mask.nc"), "MSLPFile": os.path.join(root, "mslp.nc"), "MSLPVariableName": "slp",
                  "LocationFile": os.path.join(root, "stn.shp"), "CoastlineGates": os.path.join(root, "gates.csv"), "Datasets": "ONE"},
        "ONE": {"URL": "http://127.0.0.1:9/data.txt", "path": root, "filename": "data.txt"},
        "RMW": {"GetRMWDistFromInputData": m.rmax, "mean": 50, "sigma": 0.6},
        "Process": {"DatFile": os.path.join(root, "done.dat"), "ExcludePastProcessed": "False"},
        "Logging": {"LogFile": os.path.join(root, "x.log"), "LogLevel": "ERROR", "Verbose": "False", "ProgressBar": "False"},
    }
    return m


def ini(m, out, actions, name):
    s = {k: dict(v) for k, v in m.sections.items()}
    s["Actions"].update({a: "True" for a in actions})
    s["Output"] = {"Path": out}
    s["Process"]["DatFile"] = out + ".dat"
    return synth.write_config(os.path.join(m.root, name + ".ini"), s)


def quiet():
    """No maps, no pictures, no network."""
    import matplotlib
    matplotlib.use("Agg")
    import cartopy.feature as cf
    cf.NaturalEarthFeature.intersecting_geometries = lambda self, extent: iter(())
    cf.NaturalEarthFeature.geometries = lambda self: iter(())
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    FigureCanvasAgg.print_figure = lambda self, *a, **k: None
    import Evaluate
    for c in vars(Evaluate).values():
        if isinstance(c, type):
            for n in dir(c):
                if n.startswith("plot"):
                    setattr(c, n, lambda *a, **k: None)
    import Utilities.datasets as ds

    def stop(self, *a, **k):
        raise RuntimeError("download of a data set that is present")
    ds.DataSet.download = stop


def preload():
    quiet()
    import tcrm, TrackGenerator, wind, hazard, database, Evaluate                  # noqa: F401,E401
    import DataProcess.DataProcess, DataProcess.CalcTrackDomain                    # noqa: F401,E401
    from StatInterface import StatInterface                                        # noqa: F401


def main(path):
    from Utilities import config
    import tcrm
    from Utilities.parallel import attemptParallel
    config.reset()
    tcrm.MPI = attemptParallel()
    tcrm.comm = tcrm.MPI.COMM_WORLD
    np.random.seed(1234)
    tcrm.main(path)


def go(m, out, actions, name, ranks=1, seed=0):
    """One start of the model in processes of its own."""
    path = ini(m, out, actions, name)
    return fakempi.run_ranks(ranks, lambda r: main(path), seed=seed, mode="serial" if seed % 2 else "parallel")


# ---- stored results ----------------------------------------------------------

def walk(ds, prefix=""):
    out = {}
    for n, v in ds.variables.items():
        v.set_auto_maskandscale(False)
        out[prefix + n] = np.array(v[:])
    for n, g in ds.groups.items():
        out.update(walk(g, prefix + n + "/"))
    return out


def table(path):
    out = {}
    con = sqlite3.connect(path)
    try:
        for (t,) in con.execute("select name from sqlite_master where type='table'").fetchall():
            cols = [c[1] for c in con.execute("pragma table_info(%s)" % t).fetchall()]
            keep = [c for c in cols if not c.lower().startswith("dt") and c.lower() not in ("eventid", "locid") and "date" not in c.lower()
                    and "time" not in c.lower() and "path" not in c.lower() and "file" not in c.lower()]
            rows = con.execute("select %s from %s" % (",".join(keep), t)).fetchall()
            out[t] = sorted(rows, key=repr)
    finally:
        con.close()
    return out


def results(out):
    """Everything a run has stored, in a form that can be compared."""
    got = {}
    for d, _, files in os.walk(out):
        for f in files:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, out)
            if rel.startswith(("log", "plots", os.path.join("process", "dat"))) or f.endswith((".log", ".xml", ".db-journal")):
                continue
            if f.endswith(".nc"):
                with Dataset(p) as ds:
                    got[rel] = walk(ds)
            elif f.endswith(".db"):
                got[rel] = table(p)
            else:
                with open(p, errors="replace") as h:
                    got[rel] = h.read()
    return got


def same(a, b):
    """None when equal, otherwise what differs."""
    if type(a) is not type(b):
        return "kind"
    if isinstance(a, dict):
        if set(a) != set(b):
            return "contents %s" % sorted(set(a) ^ set(b))[:4]
        for k in sorted(a):
            w = same(a[k], b[k])
            if w:
                return "%s: %s" % (k, w)
        return None
    if isinstance(a, np.ndarray):
        if a.shape != b.shape:
            return "shape %s against %s" % (a.shape, b.shape)
        if a.dtype.names:
            for n in a.dtype.names:
                w = same(np.array(a[n]), np.array(b[n]))
                if w:
                    return "%s %s" % (n, w)
            return None
        if a.dtype.kind == "f":
            bad = ~((a == b) | (np.isnan(a) & np.isnan(b)) | np.isclose(a, b, rtol=1e-6, atol=1e-9))
            return None if not bad.any() else "%d values, first %r against %r" % (bad.sum(), a[bad].flat[0], b[bad].flat[0])
        return None if (a == b).all() else "values"
    if isinstance(a, list):
        if len(a) != len(b):
            return "%d rows against %d" % (len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            for p, q in zip(x, y):
                if p != q and not (isinstance(p, float) and isinstance(q, float) and np.isclose(p, q, rtol=1e-6)):
                    return "row %d: %r against %r" % (i, x, y)
        return None
    if a != b:
        i, (x, y) = next((i, z) for i, z in enumerate(zip(a.splitlines() + [""], b.splitlines() + [""])) if z[0] != z[1])
        return "line %d: %r against %r" % (i + 1, x[:80], y[:80])
    return None


def compare(chk, want, got, kind, what, rep):
    chk.expect(set(want) == set(got), kind, lambda: "%s: results only in one of the two: %s" % (what, sorted(set(want) ^ set(got))[:5]), rep)
    for f in sorted(set(want) & set(got)):
        w = same(want[f], got[f])
        chk.expect(w is None, kind, lambda: "%s: %s differs: %s" % (what, f, w), rep)
        chk.evaluated((kind, f.split(os.sep)[0], os.path.basename(f).split(".")[0]), {"what": what, "file": f})


# ---- one model ---------------------------------------------------------------

def reference(m, out, path):
    """Calibration results from each quantity's own observations."""
    from Utilities import config
    from DataProcess.CalcTrackDomain import CalcTrackDomain
    from StatInterface.GenerateDistributions import GenerateDistributions
    from StatInterface.generateStats import GenerateStats
    config.reset()
    dom = CalcTrackDomain(path).calcDomainFromFile()
    proc = os.path.join(out, "process")
    reg = m.sections["Region"]
    g = GenerateDistributions(path, dom, reg["gridSpace"], reg["gridInc"], "gau", 8, sys.maxsize)
    for name, where, what in DISTS:
        if name == "init_rmax" and not m.rmax:
            continue
        w, q = os.path.join(proc, where), os.path.join(proc, what)
        if name == "init_day":
            g.allDistributions(w, q, name, kdeStep=0.25, periodic=365)
        elif name == "init_bearing":
            g.allDistributions(w, q, name, 1, True)
        else:
            g.allDistributions(w, q, name, 0.5)
    for f, what, angular in STATS:
        s = GenerateStats(os.path.join(proc, what), os.path.join(proc, "all_lon_lat"), dom, reg["gridSpace"], reg["gridInc"],
                          minSample=100, angular=angular)
        s.save(os.path.join(proc, f), f)


def case(chk, k):
    rng = chk.rng("model", k)
    root = chk.scratch("run")
    m = setup(rng, root)
    rep = lambda: {"case": k, "sections": m.sections}
    chk.count("models")
    one = os.path.join(root, "one")
    res = go(m, one, STAGES + ["DownloadData"], "one")
    if trackgen.failed(chk, res, "run-fails", "a full run of the model", rep):
        return
    want = results(one)
    chk.count("stored results", len(want))
    for place in PLACES.values():
        chk.count("results in " + place, sum(f.startswith(place) for f in want))
    how = k % 3
    if how == 0:
        staged(chk, rng, m, want, rep)
    elif how == 1:
        n = int(rng.integers(2, 5))
        out = os.path.join(root, "par [2] 5%d")
        res = go(m, out, STAGES, "par", ranks=n, seed=int(rng.integers(1 << 30)))
        if not trackgen.failed(chk, res, "parallel-fails", "a full run on %d processes" % n, rep):
            compare(chk, want, results(out), "parallel", "one process and %d" % n, rep)
            chk.count("parallel runs")
    else:
        again(chk, rng, m, one, want, rep)
        calibration(chk, m, want, rep)


def sizes(chk, k):
    """Storm sizes taken from the input data."""
    rng = chk.rng("sizes", k)
    m = setup(rng, chk.scratch("rmw"), rmax=True)
    rep = lambda: {"case": "sizes %d" % k, "sections": m.sections}
    out = os.path.join(m.root, "one")
    res = go(m, out, STAGES[:2], "cal")
    if trackgen.failed(chk, res, "run-fails", "calibration with storm sizes", rep):
        return
    calibration(chk, m, results(out), rep)
    res = go(m, out, STAGES[2:3], "gen")
    chk.count("runs with storm sizes")
    why = res.errors[0] or ""
    known = "truth value of an array" in why and "allCDFInitSize" in why
    chk.expect(res.ok, "sizes-from-data" if known else "run-fails",
               lambda: "track generation with storm sizes from the input data: %s" % res.problem(), rep)


def staged(chk, rng, m, want, rep):
    """Each stage in a start of its own; what is already stored must stay as it is."""
    out = os.path.join(m.root, "staged {1} [3] a")
    done = []
    before = {}
    res = go(m, out, [], "none")
    if trackgen.failed(chk, res, "run-fails", "a run without stages", rep):
        return
    chk.expect(not results(out), "disabled-stage", lambda: "a run without any stage stored %s" % sorted(results(out))[:5], rep)
    todo = list(STAGES)
    while todo:
        n = 1 if rng.random() < 0.7 else 2
        part, todo = todo[:n], todo[n:]
        res = go(m, out, part, "st%d" % len(done), seed=2)
        if trackgen.failed(chk, res, "stage-fails", "stage %s in a run of its own" % "+".join(part), rep):
            return
        after = results(out)
        for f in sorted(before):
            w = same(before[f], after.get(f))
            chk.expect(w is None, "stage-changes-others", lambda: "stage %s changed %s: %s" % ("+".join(part), f, w), rep)
        for s, place in PLACES.items():
            have = any(f.startswith(place) for f in after)
            chk.expect(have == (s in done + part), "disabled-stage", lambda: "%s after the stages %s: %s" % (
                place, done + part, "results" if have else "no results"), rep)
        done += part
        before = after
        chk.count("stages on their own", len(part))
    compare(chk, want, before, "staged", "one start and one per stage", rep)


def again(chk, rng, m, out, want, rep):
    """A repeat of some stages gives the same results again."""
    first = int(rng.integers(0, 5))
    part = STAGES[first:int(rng.integers(first + 1, 6))]
    res = go(m, out, part, "again", seed=2 * int(rng.integers(2)))
    if trackgen.failed(chk, res, "rerun-fails", "a repeat of %s" % "+".join(part), rep):
        return
    compare(chk, want, results(out), "rerun", "a run and a repeat of %s" % "+".join(part), rep)
    chk.count("repeats")


def calibration(chk, m, want, rep):
    """Calibration from each quantity's own observations, in its own process and output folder."""
    out = os.path.join(m.root, "ref")
    os.makedirs(os.path.join(out, "process"))
    for f, v in want.items():
        if f.startswith("process") and isinstance(v, str):
            with open(os.path.join(out, f), "w") as h:
                h.write(v)
    path = ini(m, out, [], "ref")
    res = fakempi.run_ranks(1, lambda r: reference(m, out, path))
    if trackgen.failed(chk, res, "calibration-fails", "calibrating one quantity at a time", rep):
        return
    got = results(out)
    names = [os.path.join("process", f) for f, _, _ in STATS] + \
        [os.path.join("process", "all_cell_cdf_%s.nc" % n) for n, _, _ in DISTS if n != "init_rmax" or m.rmax]
    for f in names:
        if not chk.expect(f in want, "calibration", lambda: "the run did not store %s" % f, rep):
            continue
        a, b = want[f], got.get(f)
        if not chk.expect(b is not None, "calibration", lambda: "no %s when calibrated alone" % f, rep):
            continue
        w = same(a, b)
        chk.expect(w is None, "calibration", lambda: "%s is not what its own observations give: %s" % (f, w), rep)
        chk.evaluated(("calibration", f), {"file": f})
    chk.count("calibrations")


def group(chk, items):
    for k in items:
        if isinstance(k, int):
            case(chk, k)
        else:
            sizes(chk, k[0])


def run(chk):
    preload()
    n = chk.n(6, 48)
    chk.pmap(group, [[k] for k in range(n)] + [[(k,)] for k in range(chk.n(1, 6))])
