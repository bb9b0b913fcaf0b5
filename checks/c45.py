"""C45: what the figures of a run draw, against the stored results they are drawn from."""
import os
from datetime import datetime, timedelta

import numpy as np
from netCDF4 import Dataset

from harness import core, synth
from checks import c38

FACTOR = {"mps": 1.0, "kph": 3.6, "kmh": 3.6, "kts": 3600 / 1852.0, "mph": 3600 / 1609.344}
NODATA = -9999.0
FIGURES = []                        # (file name, figure, [(x, y, z) of filled contours])


def make():
    return core.Check("C45", "one evaluation per figure compared with the stored values",
                      ["figures are inspected when they are saved, not rendered", "coastlines are left out (not available offline)"])


def preload():
    c38.quiet()
    import cartopy.mpl.geoaxes as ga
    import matplotlib.figure
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    import tcrm, tcevent, database, PlotInterface.AutoPlotHazard, PlotInterface.maps, PlotInterface.curves, PlotInterface.plotTimeseries, Utilities.timeseries  # noqa: F401,E401
    draw = ga.GeoAxes.contourf

    def contourf(self, x, y, z, *a, **k):
        self.figure.__dict__.setdefault("_drawn", []).append((np.array(x), np.array(y), np.ma.array(z, copy=True)))
        return draw(self, x, y, z, *a, **k)
    ga.GeoAxes.contourf = contourf
    matplotlib.figure.Figure.tight_layout = lambda self, *a, **k: None
    FigureCanvasAgg.print_figure = lambda self, name, *a, **k: FIGURES.append((str(name), self.figure, self.figure.__dict__.get("_drawn", [])))


def drive(fn, path):
    from Utilities import config, parallel
    import tcrm
    config.reset()
    tcrm.MPI = parallel.attemptParallel()
    tcrm.comm = tcrm.MPI.COMM_WORLD
    del FIGURES[:]
    fn(path)
    return {os.path.abspath(n): (f, d) for n, f, d in FIGURES}


def field(rng, na, ny, nx, hole):
    """Return levels growing with the return period; some points without a value."""
    base = rng.uniform(15, 45, (ny, nx))
    w = np.sort(rng.uniform(0, 60, (na, ny, nx)), axis=0) + base
    gone = rng.random((ny, nx)) < hole
    if hole and rng.random() < 0.5:
        gone[: ny // 2, : nx // 3] = True
    w[:, gone] = NODATA
    return w.astype("f4"), gone


def hazard(chk, rng, k):
    import database
    import tcrm
    from Utilities import config, pathLocator
    d = chk.scratch("haz")
    os.makedirs(os.path.join(d, "input"))
    os.makedirs(os.path.join(d, "hazard"))
    os.makedirs(os.path.join(d, "plots", "hazard"))
    pathLocator.getRootDirectory = lambda *a, **kw: d
    res = float(rng.choice([0.1, 0.2, 0.25, 0.5, 1.0, 1.5]))
    nx, ny = int(rng.integers(4, 16)), int(rng.integers(4, 16))
    x0, y0 = float(rng.choice([-20, 90, 150, 175, 185, 300])), float(rng.choice([-25, -12, 10, -2]))
    lon, lat = np.round(x0 + res * np.arange(nx), 4), np.round(y0 + res * np.arange(ny), 4)
    if rng.random() < 0.5:
        lat = lat[::-1].copy()
    years = np.array(sorted(rng.choice([2, 5, 10, 20, 25, 50, 100, 200, 500, 1000], int(rng.integers(1, 5)), replace=False)), dtype=float)
    w, gone = field(rng, len(years), ny, nx, float(rng.choice([0, 0, 0.1, 0.3])))
    lo, up = np.where(w == NODATA, NODATA, w * 0.9).astype("f4"), np.where(w == NODATA, NODATA, w * 1.2).astype("f4")
    with Dataset(os.path.join(d, "hazard", "hazard.nc"), "w", format="NETCDF4_CLASSIC") as ds:
        for n, a in (("ari", years), ("lat", lat), ("lon", lon)):
            ds.createDimension(n, len(a))
            ds.createVariable(n, "f8", (n,))[:] = a
        for n, a in (("wspd", w), ("wspdlower", lo), ("wspdupper", up)):
            ds.createVariable(n, "f4", ("ari", "lat", "lon"), fill_value=NODATA)[:] = a
    unit, smooth, ci = str(rng.choice(sorted(FACTOR))), bool(rng.integers(2)), bool(rng.integers(2))
    sims = int(rng.choice([10, 50, 300]))
    ini = synth.write_config(os.path.join(d, "c.ini"), {
        "Region": {"gridLimit": {"xMin": float(lon[0]), "xMax": float(lon[-1]), "yMin": float(lat.min()), "yMax": float(lat.max())}},
        "Output": {"Path": d}, "Process": {"DatFile": os.path.join(d, "p.dat"), "ExcludePastProcessed": "False"},
        "TrackGenerator": {"NumSimulations": sims}, "Logging": {"ProgressBar": "False"},
        "Hazard": {"PlotSpeedUnits": unit, "SmoothPlots": str(smooth), "CalculateCI": str(ci), "ExtremeValueDistribution": "GPD"}})
    config.reset()
    db = database.HazardDatabase(ini)
    db.createDatabase()
    places = {}
    for i in rng.choice(np.arange(1, 500), int(rng.integers(1, 5)), replace=False):
        i, a, b = int(i), int(rng.integers(nx)), int(rng.integers(ny))
        x = float(np.clip(lon[a] + rng.uniform(-0.4, 0.4) * res, lon[0], lon[-1]))
        y = float(np.clip(lat[b] + rng.uniform(-0.4, 0.4) * res, lat.min(), lat.max()))
        ev = np.round(rng.uniform(1, 70, int(rng.choice([0, 1, 5, 60]))), 3)
        places[i] = (a, b, ev)
        now = datetime(2020, 1, 1)
        db.execute("INSERT INTO tblLocations (locId,locCode,locName,locType,locLon,locLat,locElev,locCountry,locSource,Comments,dtCreated) "
                   "VALUES (?,?,?,?,?,?,?,?,?,?,?)", (i, str(i), "Place %d" % i, "AWS", x, y, 1.0, "X", "f", "", now))
        for n, v in enumerate(ev):
            e = "%03d-%05d" % (i, n)
            db.execute("INSERT INTO tblEvents (eventNumber,eventId,eventFile,eventTrackFile,eventMaxWind,eventMinPressure,dtTrackFile,dtWindfieldFile,"
                       "tcrmVersion,Comments,dtCreated) VALUES (?,?,?,?,?,?,?,?,?,?,?)", (1000 * i + n, e, "g", "t", 50.0, 95000.0, now, now, "v", "", now))
            db.execute("INSERT INTO tblWindSpeed (locId,eventId,wspd,umax,vmax,pmin,Comments,dtCreated) VALUES (?,?,?,?,?,?,?,?)",
                       (i, e, float(v), 0.0, 0.0, 95000.0, " ", now))
    db.commit()
    rep = {"case": k, "unit": unit, "smooth": smooth, "resolution": res, "grid": [nx, ny], "missing": int(gone.sum()), "years": years.tolist(), "places": sorted(places)}
    ok, figs = chk.call(drive, tcrm.doHazardPlotting, ini, _kind="plot-fails", _what="plotting the hazard", _replay=rep)
    if not ok:
        return
    f = FACTOR[unit]
    for n, y in enumerate(years):
        name = os.path.join(d, "plots", "hazard", "%d_yrRP_hazard_map.png" % y)
        if not chk.expect(name in figs and len(figs[name][1]) == 1, "map-missing", lambda: "no map for %d years" % y, rep):
            continue
        extent(chk, figs[name][0], lon, lat, "map of %d years" % y, rep)
        x, yy, z = figs[name][1][0]
        sh = lon - 360.0 if lon.min() > 180 else lon
        if x.ndim == 1:
            x, yy = np.meshgrid(x, yy)
        chk.expect(z.shape == (ny, nx) and np.allclose(x, sh[None, :], atol=1e-6) and np.allclose(yy, lat[:, None], atol=1e-6),
                   "map-positions", lambda: "the map of %d years is not drawn at the stored positions" % y, rep)
        bad = np.ma.getmaskarray(z)
        drawn = ~bad & np.isfinite(z.filled(np.nan))
        chk.expect(np.array_equal(drawn, ~gone), "map-missing-points", lambda: "the map of %d years draws %d points that have no value and leaves out %d that have one" % (
            y, int((drawn & gone).sum()), int((~drawn & ~gone).sum())), rep)
        want = w[n].astype(float) * f
        both = drawn & ~gone
        if not smooth:
            err = np.abs(z.filled(0) - want)[both]
            chk.expect(not err.size or err.max() <= 1e-3 * 130 * f, "map-values", lambda: "the map of %d years is off by up to %g %s" % (y, err.max(), unit), rep)
        else:
            r = int(np.ceil(1 / res)) + 1
            for b, a in zip(*np.nonzero(both)):
                win = (slice(max(0, b - r), b + r + 1), slice(max(0, a - r), a + r + 1))
                near = want[win][~gone[win]]
                if not near.min() * 0.998 - 1e-6 <= z[b, a] <= near.max() * 1.002 + 1e-6:
                    chk.violate("map-values", "smoothed map of %d years: %g %s at %s where the values around lie between %g and %g" % (
                        y, z[b, a], unit, (float(lon[a]), float(lat[b])), near.min(), near.max()), rep)
                    break
        chk.evaluated(("map", k, n), {"map": "%d years" % y, "unit": unit, "smooth": smooth, "missing": int(gone.sum())})

    for i, (a, b, ev) in places.items():
        name = os.path.join(d, "plots", "hazard", "ARI_curve_%d.png" % i)
        if gone[b, a]:
            continue
        if not chk.expect(name in figs, "curve-missing", lambda: "no hazard curve for location %d" % i, rep):
            continue
        axes = figs[name][0].axes
        want = w[:, b, a].astype(float) * f
        lines = [(np.asarray(q.get_xdata(), float), np.ma.filled(np.ma.array(q.get_ydata(), dtype=float), np.nan)) for x in axes for q in x.lines]
        near = lambda p, q: len(p) == len(q) and np.allclose(p, q, rtol=1e-3, atol=1e-6)
        chk.expect(any(near(p, years) and near(q, want) for p, q in lines), "curve", lambda: "hazard curve of location %d (%s): drawn %r, stored %r" % (
            i, unit, [q.tolist() for p, q in lines], want.tolist()), rep)
        # recorded events against their empirical return period
        n = int(sims * 365.25)
        m = min(len(ev), n)
        rank = np.arange(n - m + 1, n + 1)
        rp = 1 / (1 - rank / (n + 1.0)) / 365.25
        pts = [(t, v * f) for t, v in zip(rp, np.sort(ev)) if t > 1 + 1e-9]
        got = [(float(t), float(v)) for x in axes for c in x.collections for t, v in np.ma.filled(np.ma.array(c.get_offsets(), dtype=float), np.nan).reshape(-1, 2)
               if c.get_offset_transform() is not None and t > 0 and v > 0]
        chk.expect(len(got) == len(pts) and np.allclose(sorted(got), sorted(pts), rtol=1e-3) if pts else not got, "curve-events",
                   lambda: "events drawn for location %d in %s: %r, recorded %r" % (i, unit, sorted(got)[-3:], sorted(pts)[-3:]), rep)
        if ci:
            verts = [p.vertices for x in axes for c in x.collections for p in c.get_paths() if len(p.vertices) > 2]
            have = lambda t, v: any(np.any(np.isclose(q[:, 0], t, rtol=1e-4) & np.isclose(q[:, 1], v, rtol=1e-3)) for q in verts)
            miss = [(t, s) for n, t in enumerate(years) for s, arr in (("lower", lo), ("upper", up)) if not have(t, arr[n, b, a] * f)]
            chk.expect(not miss, "curve-range", lambda: "confidence range of location %d in %s does not pass through the stored bounds: %r" % (i, unit, miss), rep)
        label = axes[0].get_title() + axes[0].get_ylabel()
        chk.expect("Place %d" % i in label and {"mps": "m/s", "kph": "km/h", "kmh": "km/h", "kts": "kts", "mph": "mi/h"}[unit] in label, "curve-label",
                   lambda: "hazard curve of location %d in %s is labelled %r" % (i, unit, label), rep)
        chk.evaluated(("curve", k, i), {"curve": i, "unit": unit, "events": len(ev)})


def extent(chk, fig, lon, lat, what, rep):
    """The map shows the region; regions across 180 degrees are not judged."""
    if lon.min() < 180 < lon.max():
        return
    x0, x1, y0, y1 = fig.axes[0].get_extent()
    off = round((x0 - lon.min()) / 360.0) * 360
    ok = abs(x0 - off - lon.min()) < 0.01 and abs(x1 - off - lon.max()) < 0.01 and abs(y0 - lat.min()) < 0.01 and abs(y1 - lat.max()) < 0.01
    drawn = fig.__dict__.get("_drawn", [])
    chk.expect(ok, "map-extent", lambda: "%s of %g..%g, %g..%g shows %r" % (what, lon.min(), lon.max(), lat.min(), lat.max(), (x0, x1, y0, y1)), rep)
    chk.expect(all(x.min() >= x0 - 0.01 and x.max() <= x1 + 0.01 for x, y, z in drawn), "map-extent",
               lambda: "%s of %g..%g is drawn outside of the part shown" % (what, lon.min(), lon.max()), rep)


def footprint(chk, rng, k):
    """The map of a scenario."""
    import tcevent
    d = chk.scratch("foot")
    os.makedirs(os.path.join(d, "windfield"))
    os.makedirs(os.path.join(d, "plots"))
    res, nx, ny = float(rng.choice([0.1, 0.25, 0.5])), int(rng.integers(8, 30)), int(rng.integers(8, 30))
    x0, y0 = float(rng.choice([-20, 60, 150, 176, 185, 250])), float(rng.choice([-25, -12, 10, -2]))
    lon, lat = np.round(x0 + res * np.arange(nx), 6), np.round(y0 + res * np.arange(ny), 6)
    if rng.random() < 0.3:
        lat = lat[::-1].copy()
    v = rng.uniform(5, 95, (ny, nx)).astype("f4")
    own = rng.random() < 0.4
    nc = bool(rng.integers(2))
    for name in ("gust.001-00001.nc", "gust.00007.nc"):
        with Dataset(os.path.join(d, "windfield", name), "w", format="NETCDF4_CLASSIC") as ds:
            for n, a in (("lat", lat), ("lon", lon)):
                ds.createDimension(n, len(a))
                ds.createVariable(n, "f8", (n,))[:] = a
            q = ds.createVariable("vmax", "f4", ("lat", "lon"), fill_value=NODATA)
            q.units = "m/s"
            q[:] = v if (name == "gust.00007.nc") == nc else v * 0 + 1.0
    sec = {"Output": {"Path": d}, "DataProcess": {"InputFile": os.path.join(d, "tracks.00007.nc" if nc else "obs.csv")}}
    a0, a1, b0, b1 = 0, nx - 1, 0, ny - 1
    if not own:
        a0, b0 = int(rng.integers(0, nx // 2 - 2)), int(rng.integers(0, ny // 2 - 2))
        a1, b1 = int(rng.integers(nx // 2 + 1, nx)), int(rng.integers(ny // 2 + 1, ny))
        ys = sorted([float(lat[b0]), float(lat[b1])])
        sec["Region"] = {"gridLimit": {"xMin": float(lon[a0]), "xMax": float(lon[a1]), "yMin": ys[0], "yMax": ys[1]}}
    rep = {"case": k, "grid": [x0, nx, y0, ny, res], "region": sec.get("Region")}
    ok, figs = chk.call(drive, tcevent.doWindfieldPlotting, synth.write_config(os.path.join(d, "c.ini"), sec), _kind="map-fails", _what="plotting the wind field", _replay=rep)
    if not ok:
        return
    name = os.path.join(d, "plots", "maxwind.png")
    if not chk.expect(name in figs and len(figs[name][1]) == 1, "map-missing", "no map of the wind field", rep):
        return
    x, y, z = figs[name][1][0]
    if x.ndim == 1:
        x, y = np.meshgrid(x, y)
    lo, la = lon[a0:a1 + 1], lat[b0:b1 + 1]
    if chk.expect(z.shape == (len(la), len(lo)) and np.allclose((x - lo[None, :]) / 360, np.round((x - lo[None, :]) / 360), atol=1e-8) and np.allclose(y, la[:, None], atol=1e-6),
                  "map-positions", lambda: "the wind field map is not drawn at the stored positions of the region (%r for %r)" % (z.shape, (len(la), len(lo))), rep):
        chk.expect(np.allclose(z.filled(0), v[b0:b1 + 1, a0:a1 + 1], atol=1e-3), "map-values", "the wind field map does not show the stored wind field", rep)
    extent(chk, figs[name][0], lo, la, "wind field map", rep)
    chk.evaluated(("footprint", k), {"map": "wind field", "region": not own})


IDS = ["94299", "s", "csv", "abcs", "Vc", "vs.", "t.1", "ts.7", "st", "x.csv", "1", "12", "cs12", "Port v", "a", "A", "s1s", "0", "00", "tst"]


def series(chk, rng, k):
    import tcevent
    from Utilities import config
    from Utilities.timeseries import Timeseries
    d = chk.scratch("series")
    for s in ("process/timeseries", "plots/timeseries"):
        os.makedirs(os.path.join(d, s))
    gx, gy = np.round(140 + 0.1 * np.arange(20), 3), np.round(-20 + 0.1 * np.arange(15), 3)
    ids = [str(x) for x in rng.choice(IDS, int(rng.integers(1, 7)), replace=False)]
    pos = {i: (float(rng.choice(gx)), float(rng.choice(gy))) for i in ids}
    with open(os.path.join(d, "stations.csv"), "w") as f:
        f.write("".join("%s,%.3f,%.3f\n" % ((i,) + pos[i]) for i in ids))
    ini = synth.write_config(os.path.join(d, "c.ini"), {"Output": {"Path": d}, "Timeseries": {"Extract": "True", "LocationFile": os.path.join(d, "stations.csv")},
                                                      "Region": {"gridLimit": {"xMin": 140.0, "xMax": 142.0, "yMin": -20.0, "yMax": -18.0}}})
    config.reset()
    ts = Timeseries(ini)
    t = datetime(int(rng.integers(1970, 2030)), int(rng.integers(1, 13)), int(rng.integers(1, 28)), int(rng.integers(24)), int(rng.integers(60)))
    want = {i: [] for i in ids}
    for n in range(int(rng.choice([1, 2, 9, 40]))):
        u, v, p = rng.uniform(-60, 60, (15, 20)), rng.uniform(-60, 60, (15, 20)), rng.uniform(91000, 101000, (15, 20))
        spd = np.hypot(u, v)
        ts.extract(t, spd, u, v, p, gx, gy)
        for i in ids:
            a, b = int(np.abs(gx - pos[i][0]).argmin()), int(np.abs(gy - pos[i][1]).argmin())
            want[i].append((t, p[b, a] / 100, spd[b, a], np.degrees(np.arctan2(-u[b, a], -v[b, a])) % 360))
        t += timedelta(minutes=int(rng.choice([5, 60, 360])))
    ts.shutdown()
    rep = {"case": k, "stations": ids, "steps": len(want[ids[0]])}
    ok, figs = chk.call(drive, tcevent.doTimeseriesPlotting, ini, _kind="series-fails", _what="plotting the series of stations %r" % ids, _replay=rep)
    if not ok:
        return
    from matplotlib.dates import date2num
    for i in ids:
        name = os.path.join(d, "plots", "timeseries", "ts.%s.png" % i)
        if not chk.expect(name in figs, "series-missing", lambda: "no figure for station %r; saved are %r" % (i, sorted(os.path.basename(x) for x in figs)), rep):
            continue
        fig = figs[name][0]
        lines = [(np.asarray(q.get_xdata(orig=True)), np.asarray(q.get_ydata(orig=True), float)) for x in fig.axes for q in x.lines]
        for c, what in ((1, "pressure"), (2, "wind speed"), (3, "direction")):
            y = np.array([r[c] for r in want[i]])
            x = date2num([r[0] for r in want[i]])
            num = lambda p: date2num(p) if p.dtype.kind in "OM" else p.astype(float)
            chk.expect(any(len(q) == len(y) and np.allclose(num(p), x, atol=1e-6) and np.allclose(q, y, atol=0.0101) for p, q in lines), "series",
                       lambda: "the figure of station %r does not show its %s" % (i, what), rep)
        title = (fig._suptitle.get_text() if fig._suptitle else "") + "".join(a.get_title() for a in fig.axes)
        chk.expect(": %s (" % i in title or i in title.split(), "series-label", lambda: "the figure of station %r is labelled %r" % (i, title), rep)
        chk.evaluated(("series", k, i), {"station": i, "steps": len(want[i])})
    chk.expect(len(figs) == len(ids), "series-files", lambda: "figures saved: %r" % sorted(os.path.basename(x) for x in figs), rep)


def group(chk, item):
    from Utilities import parallel
    parallel.attemptParallel()
    g, n = item
    for k in range(g, n, 8):
        hazard(chk, chk.rng("hazard", k), k)
        footprint(chk, chk.rng("footprint", k), k)
        for j in range(2):
            series(chk, chk.rng("series", k, j), k)


def run(chk):
    preload()
    n = chk.n(40, 480)
    chk.pmap(group, [(g, n) for g in range(8)])
