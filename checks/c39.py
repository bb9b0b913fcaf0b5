"""C39: a scenario run turns an observed storm into the footprint and series of that storm."""
import csv
import glob
import os
from datetime import datetime, timedelta

import numpy as np
from netCDF4 import Dataset

from harness import core, ext, fakempi, synth, trackgen, windref
from checks import c38


def make():
    return core.Check("C39", "one evaluation per storm of a scenario compared from its observations to its footprint",
                      ["map and series drawing is replaced by stand-ins", "storm sizes and surrounding pressures are given in the input",
                       "the region is a multiple of the resolution"])


def storms(rng, lim, n):
    """Observed storms; the last of several stays far away."""
    out = []
    sign = 1 if lim["yMin"] > 0 else -1
    for k in range(n):
        far = n > 1 and k == n - 1
        m = int(rng.integers(4, 9))
        t = datetime(int(rng.integers(1975, 2015)), int(rng.integers(1, 13)), int(rng.integers(1, 28)), int(rng.integers(0, 24)))
        x, y = rng.uniform(lim["xMin"], lim["xMax"]), rng.uniform(lim["yMin"], lim["yMax"])
        if far:
            x = lim["xMax"] + 25
        head, v = rng.uniform(0, 2 * np.pi), rng.uniform(0.1, 0.5)
        dp, r, pe = rng.uniform(25, 70), rng.uniform(18, 45), rng.uniform(1005, 1012)
        obs = []
        for i in range(m):
            obs.append(dict(t=t, lon=round(x, 2), lat=round(y, 2), pe=round(pe, 1), p=round(pe - dp, 1), r=round(r, 1)))
            t += timedelta(minutes=int(rng.choice([60, 180, 360])))
            x, y = x + v * np.sin(head), y + v * np.cos(head)
            y = sign * max(abs(y), 4.0)
            head += rng.normal(0, 0.3)
            dp, r = float(np.clip(dp + rng.normal(0, 4), 20, 80)), float(np.clip(r + rng.normal(0, 2), 12, 55))
        out.append(obs)
    return out


def preload():
    c38.quiet()
    import tcevent, wind, Utilities.timeseries, PlotInterface.maps, PlotInterface.plotTimeseries      # noqa: F401,E401
    from Evaluate import interpolateTracks                                                             # noqa: F401


def main(path, seen):
    from Utilities import config
    import PlotInterface.maps
    import PlotInterface.plotTimeseries
    import tcevent
    config.reset()
    np.random.seed(7)
    PlotInterface.maps.saveWindfieldMap = lambda data, x, y, *a, **k: seen.append((np.array(data), np.array(x), np.array(y)))
    PlotInterface.plotTimeseries.plotTimeseries = lambda a, b, *c: seen.append((a, b))
    tcevent.main(path)
    return seen


def case(chk, k):
    rng = chk.rng("event", k)
    (ext.install if k % 2 else ext.hide)()
    root = chk.scratch("event")
    x0 = float(rng.integers(60, 250))
    y0 = float(rng.choice([-24, -20, 12, 16]))
    res = float(rng.choice([0.1, 0.2, 0.25]))
    margin = 1.0
    lim = {"xMin": x0, "xMax": x0 + int(rng.integers(2, 5)), "yMin": y0, "yMax": y0 + int(rng.integers(2, 4))}
    sts = storms(rng, lim, int(rng.choice([1, 1, 3])))
    field, profile = str(rng.choice(["kepert", "hubbert", "mcconochie"])), str(rng.choice(["powell", "holland"]))
    beta, tmax = float(rng.uniform(1.1, 1.7)), 70.0
    full = k % 3 != 2
    own = len(sts) == 1 and rng.random() < 0.3              # no region given: the storm's own extent
    if own and k % 2:                                       # outermost positions on whole degrees
        dx = round(np.ceil(max(o["lon"] for o in sts[0])) - max(o["lon"] for o in sts[0]), 2)
        dy = round(np.floor(min(o["lat"] for o in sts[0])) - min(o["lat"] for o in sts[0]), 2)
        for o in sts[0]:
            o["lon"], o["lat"] = round(o["lon"] + dx, 2), round(o["lat"] + dy, 2)
    path = os.path.join(root, "obs.csv")
    with open(path, "w") as f:
        f.write("head\n")
        for i, s in enumerate(sts):
            for o in s:
                f.write("%d,%s,%.2f,%.2f,%.1f,%.1f,%.1f\n" % (i + 1, o["t"].strftime("%Y%m%d%H%M"), o["lat"], o["lon"], o["p"], o["r"], o["pe"]))
    synth.write_mslp(os.path.join(root, "mslp.nc"), lambda *a: 1010.0 + 0 * a[0], nt=12, ny=9, nx=12)
    synth.write_landmask(os.path.join(root, "mask.nc"), lambda x, y: x < x0 + 1, step=1.0)
    out = os.path.join(root, "out")
    stn = [(round(rng.uniform(lim["xMin"], lim["xMax"]), 3), round(rng.uniform(lim["yMin"], lim["yMax"]), 3)) for _ in range(4)]
    with open(os.path.join(root, "stn.csv"), "w") as f:
        for i, (x, y) in enumerate(stn):
            f.write("S%d,%.3f,%.3f\n" % (i, x, y))
    series, plot = bool(rng.random() < 0.7) and not own, len(sts) == 1 and bool(rng.random() < 0.5) and not own
    s = {"DataProcess": {"InputFile": path, "Source": "SRC", "FilterSeasons": "False", "StartSeason": 1900},
         "WindfieldInterface": {"Margin": margin, "Resolution": res, "profileType": profile, "windFieldType": field, "beta": beta,
                                "thetaMax": tmax, "Domain": "full" if full else "bounded", "PlotOutput": plot},
         "Timeseries": {"Extract": series, "Windfields": "False", "LocationFile": os.path.join(root, "stn.csv"), "StationID": "WMO"},
         "Input": {"MSLPFile": os.path.join(root, "mslp.nc"), "LandMask": os.path.join(root, "mask.nc"), "MSLPVariableName": "slp"},
         "Output": {"Path": out},
         "SRC": {"Columns": "num,date,lat,lon,pressure,rmax,poci", "FieldDelimiter": ",", "NumberOfHeadingLines": 1, "PressureUnits": "hPa",
                 "LengthUnits": "km", "SpeedUnits": "mps", "DateFormat": "%Y%m%d%H%M"},
         "Logging": {"LogFile": os.path.join(root, "x.log"), "LogLevel": "ERROR", "Verbose": "False", "ProgressBar": "False"}}
    if not own:
        s["Region"] = {"gridLimit": lim}
    ini = synth.write_config(os.path.join(root, "x.ini"), s)
    rep = lambda: {"case": k, "sections": {a: {p: str(q) for p, q in b.items()} for a, b in s.items()}, "storms": [[{p: str(q) for p, q in o.items()} for o in t] for t in sts]}
    res_ = fakempi.run_ranks(1, lambda r: main(ini, []), seed=k)
    if trackgen.failed(chk, res_, "run-fails", "a scenario run", rep):
        return
    seen = res_.values[0]
    chk.count("scenarios")
    judge(chk, k, sts, lim, margin, res, profile, field, beta, tmax, full, own, out, stn if series else None, plot, seen, rep)


def hours(t, t0):
    return (t - t0).total_seconds() / 3600.0


def judge(chk, k, sts, lim, margin, res, profile, field, beta, tmax, full, own, out, stn, plot, seen, rep):
    import wind
    from Utilities.track import ncReadTrackData
    got = trackgen.read_file(os.path.join(out, "tracks", "tracks.interp.nc"))
    if not chk.expect(len(got) == len(sts), "tracks", lambda: "%d interpolated tracks of %d storms" % (len(got), len(sts)), rep):
        return
    tracks = ncReadTrackData(os.path.join(out, "tracks", "tracks.interp.nc"))
    if own:
        t = tracks[0]
        lim = {"xMin": np.floor(t.Longitude.min()), "xMax": np.ceil(t.Longitude.max()),
               "yMin": np.floor(t.Latitude.min()), "yMax": np.ceil(t.Latitude.max())}
    fields = {}
    for i, s in enumerate(sts):
        t = [q for q in tracks if abs((q.Datetime[0] - s[0]["t"]).total_seconds()) < 1 and abs(q.Longitude[0] - s[0]["lon"]) < 1e-3]
        if not chk.expect(len(t) == 1, "tracks", lambda: "storm %d starting %s appears %d times" % (i, s[0]["t"], len(t)), rep):
            return
        t = t[0]
        h = np.array([hours(w, s[0]["t"]) for w in t.Datetime])
        ho = np.array([hours(o["t"], s[0]["t"]) for o in s])
        for o, x in zip(s, ho):
            j = int(np.argmin(np.abs(h - x)))
            chk.expect(abs(h[j] - x) < 1e-3 and abs(t.Longitude[j] - o["lon"]) < 2e-3 and abs(t.Latitude[j] - o["lat"]) < 2e-3
                       and abs(t.CentralPressure[j] - o["p"]) < 0.02 and abs(t.rMax[j] - o["r"]) < 0.02 and abs(t.EnvPressure[j] - o["pe"]) < 0.02,
                       "observations", lambda: "storm %d observed %r, track has %r" % (
                           i, o, (t.Datetime[j], t.Longitude[j], t.Latitude[j], t.CentralPressure[j], t.rMax[j], t.EnvPressure[j])), rep)
        chk.expect(np.abs(np.diff(h)[:-1] - 1 / 12.).max() < 1e-3, "interval", lambda: "storm %d: track steps of %r hours" % (i, np.diff(h)[:4]), rep)
        near = (lim["xMin"] - margin <= t.Longitude.max() and t.Longitude.min() <= lim["xMax"] + margin and
                lim["yMin"] - margin <= t.Latitude.max() and t.Latitude.min() <= lim["yMax"] + margin)
        name = os.path.join(out, "windfield", "gust.%03d-%05d.nc" % tuple(t.trackId))
        if not chk.expect(os.path.exists(name) == near, "footprint-file", lambda: "storm %d (%s the region): footprint file %s" % (
                i, "near" if near else "far from", "written" if os.path.exists(name) else "missing"), rep):
            continue
        if not near:
            continue
        with Dataset(name) as ds:
            lon, lat = (np.array(ds.variables[n][:], float) for n in ("lon", "lat"))
            v, u_, w_, slp = (np.array(ds.variables[n][:], float) for n in ("vmax", "ua", "va", "slp"))
        fields[i] = (lon, lat, v)
        inside = np.where((lim["xMin"] <= t.Longitude) & (t.Longitude <= lim["xMax"]) & (lim["yMin"] <= t.Latitude) & (t.Latitude <= lim["yMax"]))[0]
        what = "storm %d of %d, %s/%s, %s" % (i, len(sts), field, profile, "full" if full else "bounded")
        chk.expect(np.all(np.diff(lat) < 0) and abs(lat[0] - lim["yMax"] - margin) < res and abs(lat[-1] - lim["yMin"] + margin) < 0.011
                   and abs(lon[0] - lim["xMin"] + margin) < 0.011 and abs(lon[-1] - lim["xMax"] - margin) < res, "grid",
                   lambda: "%s: footprint spans %r %r for the region %r" % (what, (lon[0], lon[-1]), (lat[0], lat[-1]), lim), rep)
        if full:
            best, low = np.zeros(v.shape), np.full(v.shape, t.EnvPressure[0] * 100)
            for j in inside:
                g, _, _, p, _, _ = windref.step_field(t.data[j], profile, field, margin, res, beta, tmax, axes=(lon, lat))
                best, low = np.fmax(best, g), np.fmin(low, p)
        else:
            gen = wind.WindfieldGenerator(__import__("configparser").ConfigParser(), margin=margin, resolution=res, profileType=profile,
                                          windFieldType=field, beta=beta, thetaMax=tmax, gridLimit=dict(lim), domain="bounded")
            r = gen.calculateExtremesFromTrack(t)[1]
            best, low = np.flipud(np.asarray(r[0], float)), np.flipud(np.asarray(r[4], float))
        chk.close(v, best, "footprint", what + ": footprint against the model along its track", rep, rtol=2e-3, atol=0.02)
        chk.close(slp, low, "footprint-pressure", what + ": lowest pressure against the model along its track", rep, rtol=1e-5, atol=2.0)
        sp = np.hypot(u_, w_)
        chk.close(sp, v, "components", what + ": components against the peak gust", rep, rtol=2e-3, atol=0.05)
        chk.evaluated((field, profile, full, own, len(sts), i), {"storm": what, "steps": int(len(inside)), "strongest": float(v.max())})
    maps = [s for s in seen if isinstance(s[0], np.ndarray)]
    plots = [s for s in seen if not isinstance(s[0], np.ndarray)]
    chk.expect(len(maps) == (1 if plot and fields else 0) and len(plots) == (1 if stn else 0), "drawing",
               lambda: "%d maps and %d series drawings, requested %s and %s" % (len(maps), len(plots), plot, bool(stn)), rep)
    for d, x, y in maps:
        lon, lat, v = fields[0]
        a, b = (lon >= lim["xMin"]) & (lon <= lim["xMax"]), (lat >= lim["yMin"]) & (lat <= lim["yMax"])
        chk.expect(d.squeeze().shape == v[np.ix_(b, a)].shape and np.allclose(d.squeeze(), v[np.ix_(b, a)], atol=1e-3), "map",
                   "the map does not show the footprint inside the region", rep)
    if stn and full:
        peaks = os.path.join(out, "process", "timeseries")
        for i, (x, y) in enumerate(stn):
            want = [(lon, lat, v, int(np.argmin(np.abs(lon - x))), int(np.argmin(np.abs(lat - y)))) for lon, lat, v in fields.values()]
            if any(abs(abs(lon[a] - x) - res / 2) < 0.011 or abs(abs(lat[b] - y) - res / 2) < 0.011 for lon, lat, v, a, b in want):
                continue
            best = max([v[b, a] for _, _, v, a, b in want], default=0.0)
            name = os.path.join(peaks, "ts.S%d.csv" % i)
            if not os.path.exists(name):
                chk.expect(best < 0.02, "series", lambda: "no series for the station at %r with a peak gust of %r" % ((x, y), best), rep)
                continue
            with open(name) as f:
                top = max(float(r["Speed"]) for r in csv.DictReader(f, skipinitialspace=True))
            chk.expect(abs(top - best) < 0.02 + 2e-3 * best, "series", lambda: "station at %r: strongest record %r, footprint %r" % ((x, y), top, best), rep)
            chk.evaluated(("series", len(sts)), None)


def group(chk, items):
    for k in items:
        case(chk, k)


def run(chk):
    ext.build()
    preload()
    n = chk.n(48, 480)
    chk.pmap(group, [list(range(a, n, 16)) for a in range(16)])
