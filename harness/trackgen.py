"""Scenarios for the track generator: inputs, running it, reading what it wrote."""
import glob
import os
import re
from datetime import datetime, timedelta

import cftime
import numpy as np
from netCDF4 import Dataset

from harness import fakempi, synth

R_EARTH = 6367.0

DOMAINS = [
    (dict(xMin=130.0, xMax=160.0, yMin=-30.0, yMax=-5.0), dict(x=5.0, y=5.0)),
    (dict(xMin=120.0, xMax=150.0, yMin=5.0, yMax=35.0), dict(x=5.0, y=5.0)),
    (dict(xMin=100.0, xMax=124.0, yMin=-28.0, yMax=-8.0), dict(x=2.0, y=2.0)),
    (dict(xMin=160.0, xMax=200.0, yMin=-25.0, yMax=-5.0), dict(x=10.0, y=5.0)),
    (dict(xMin=140.0, xMax=165.0, yMin=8.0, yMax=23.0), dict(x=2.5, y=2.5)),
]


class Scenario:
    pass


def stripes(period, frac, phase, slope=0.0):
    """Land in parallel strips, so that storms make several landfalls."""
    def f(lon, lat):
        return np.mod((np.asarray(lon) + slope * np.asarray(lat) - phase) / period, 1.0) < frac
    return f


def make(root, rng, domain=None, dt=None, nsim=4, freq=6.0, years=1, season_seed=None,
         track_seed=None, steps=None, land="stripes", mask_step=0.1, proc=None, region=None, mslp_n=(73, 90, 180)):
    s = Scenario()
    s.limit, s.space = DOMAINS[domain if domain is not None else int(rng.integers(len(DOMAINS)))]
    s.dt = dt if dt is not None else float(rng.choice([1.0, 0.5, 2.0, 3.0, 1.5]))
    s.nsim, s.freq, s.years = nsim, freq, years
    s.season_seed = season_seed or int(rng.integers(1, 10 ** 6))
    s.track_seed = track_seed or int(rng.integers(1, 10 ** 6))
    s.steps = steps or int(rng.choice([40, 90, 200]))
    s.root = root
    os.makedirs(os.path.join(root, "tracks"))
    proc = dict(proc or {})
    s.stats = synth.write_process_dir(os.path.join(root, "process"), s.limit, s.space, rng, **proc)
    L = s.limit
    amp = rng.uniform(1.0, 4.0)
    ph = rng.uniform(0, 6)

    def mslp(day, lat, lon):
        return (1010.0 + amp * np.cos(2 * np.pi * (np.asarray(day) / 365.0) + ph)
                + 4.0 * np.sin(np.radians(np.asarray(lat) * 4)) + 4.0 * np.sin(np.radians(lon) * 3 + ph))
    s.mslp = mslp
    synth.write_mslp(os.path.join(root, "mslp.nc"), mslp, nt=mslp_n[0], ny=mslp_n[1], nx=mslp_n[2])
    if land == "stripes":
        s.is_land = stripes(rng.uniform(3.0, 7.0), rng.uniform(0.25, 0.6), rng.uniform(0, 7),
                            rng.choice([0.0, 0.5, -0.5]))
    elif land == "none":
        s.is_land = lambda lon, lat: np.zeros(np.shape(lon), bool)
    elif land == "all":
        s.is_land = lambda lon, lat: np.ones(np.shape(lon), bool)
    s.mask_step = mask_step
    synth.write_landmask(os.path.join(root, "landmask.nc"), s.is_land, L["xMin"] - 2, L["xMax"] + 2,
                         L["yMin"] - 2, L["yMax"] + 2, mask_step)
    s.config = synth.write_config(os.path.join(root, "c.ini"), {
        "Region": {"gridLimit": repr(region or s.limit), "gridSpace": repr(s.space),
                   "gridInc": repr({"x": 1.0, "y": 0.5})},
        "TrackGenerator": {"NumSimulations": nsim, "YearsPerSimulation": years,
                           "NumTimeSteps": s.steps, "TimeStep": s.dt, "Format": "csv",
                           "gridLimit": repr(s.limit), "Frequency": freq,
                           "SeasonSeed": s.season_seed, "TrackSeed": s.track_seed},
        "Input": {"MSLPFile": os.path.join(root, "mslp.nc"), "MSLPVariableName": "slp",
                  "LandMask": os.path.join(root, "landmask.nc")},
        "Output": {"Path": root},
    })
    return s


def describe(s):
    return {"domain": s.limit, "cell": s.space, "dt": s.dt, "simulations": s.nsim,
            "frequency": s.freq, "years": s.years, "season_seed": s.season_seed,
            "track_seed": s.track_seed, "max_steps": s.steps}


def run(s, ranks=1, seed=0, mode="serial", before=None, timeout=600, send="eager"):
    """Run the real track generator on `ranks` processes. `before(rank)` runs first."""
    import TrackGenerator      # once, before forking the ranks

    def body(rank):
        if before is not None:
            before(rank)
        TrackGenerator.run(s.config)
        return rank
    return fakempi.run_ranks(ranks, body, seed=seed or int(s.track_seed), mode=mode, timeout=timeout, send=send)


def track_files(s):
    return sorted(os.path.basename(f) for f in glob.glob(os.path.join(glob.escape(s.root), "tracks", "*")))


class T:
    """One simulated track as stored (independent reader)."""


def read_file(path):
    out = []
    with Dataset(path) as nc:
        for name in nc.groups["tracks"].groups:
            g = nc.groups["tracks"].groups[name]
            v = g.variables["track"]
            a = v[:]
            t = T()
            t.name = name
            t.attrs = {k: v.getncattr(k) for k in v.ncattrs()}
            t.raw = np.array(a)
            cal, units = v.getncattr("calendar"), v.getncattr("time_units")
            dates = cftime.num2date(a["Datetime"], units, cal)
            t.dates = [datetime(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond)
                       for d in np.atleast_1d(dates)]
            t.dates = [(d + timedelta(microseconds=500000)).replace(microsecond=0) for d in t.dates]
            t.lon, t.lat = a["Longitude"], a["Latitude"]
            t.speed, t.bearing = a["Speed"], a["Bearing"]
            t.pc, t.pe, t.rmax, t.age = a["CentralPressure"], a["EnvPressure"], a["rMax"], a["TimeElapsed"]
            t.cn = a["CycloneNumber"]
            t.id = tuple(int(k) for k in re.findall(r"-?\d+", str(t.attrs.get("trackId", ""))))
            out.append(t)
    return out


def read_all(s):
    """{season: [track]} of every season file in the output directory."""
    out = {}
    for f in track_files(s):
        m = re.match(r"tracks\.(\d{5})\.nc$", f)
        if m:
            out[int(m.group(1))] = read_file(os.path.join(s.root, "tracks", f))
    return out


def displace(lon, lat, bearing, dist):
    """Great-circle displacement on the model's sphere (double precision)."""
    la, lo, b = np.radians(lat), np.radians(lon), np.radians(bearing)
    d = np.asarray(dist, float) / R_EARTH
    la2 = np.arcsin(np.sin(la) * np.cos(d) + np.cos(la) * np.sin(d) * np.cos(b))
    lo2 = lo + np.arctan2(np.sin(b) * np.sin(d) * np.cos(la),
                          np.cos(d) - np.sin(la) * np.sin(la2))
    return np.degrees(lo2), np.degrees(la2)


def failed(chk, res, kind, what, replay=None):
    """Report a run that raised, deadlocked or lost a rank."""
    p = res.problem()
    if p is None:
        return False
    for e in res.errors:
        if e and "/repo" not in e and "SystemExit" not in e:
            raise RuntimeError("harness error in rank:\n" + e)
    last = [e for e in res.errors if e]
    chk.violate(kind, "%s: %s" % (what, p), dict((replay() if callable(replay) else replay) or {}, trace=last[0] if last else None))
    return True
