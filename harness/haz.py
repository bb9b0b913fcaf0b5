"""Synthetic wind-field directories and reference hazard calculations."""
import os

import numpy as np
from scipy.optimize import brentq
from scipy.special import gamma

from harness import synth

NODATA = -9999.0


def axes(x0, nx, y0, ny, res, descending=True):
    """Wind-field axes: nodes at multiples of the resolution."""
    lon = np.round((round(x0 / res) + np.arange(nx)) * res, 6)
    lat = np.round((round(y0 / res) + np.arange(ny)) * res, 6)
    return lon, lat[::-1].copy() if descending else lat


def write_gust(path, lon, lat, vmax):
    from netCDF4 import Dataset
    with Dataset(path, "w", format="NETCDF4_CLASSIC") as ds:
        ds.createDimension("lat", len(lat))
        ds.createDimension("lon", len(lon))
        for n, a in (("lat", lat), ("lon", lon)):
            v = ds.createVariable(n, "f8", (n,))
            v[:] = a
        for n in ("vmax", "ua", "va", "slp"):
            v = ds.createVariable(n, "f4", ("lat", "lon"), fill_value=NODATA)
            v[:] = vmax if n == "vmax" else 0.0 * vmax + 17.0


def gust_name(event, year):
    return "gust.%03d-%05d.nc" % (event, year)


def events(rng, nyears, ny, nx, empty=0.15, most=3, calm=0.05, scale=30.0):
    """{(event, year): field}: years without events, cells without wind, no two values alike."""
    out = {}
    shape = rng.uniform(1.5, 6.0, (ny, nx))
    level = rng.uniform(0.5, 1.5, (ny, nx)) * scale
    never = rng.random((ny, nx)) < calm
    for y in range(nyears):
        k = 0 if rng.random() < empty else int(rng.integers(1, most + 1))
        for e in range(k):
            f = level * rng.weibull(shape)
            f[rng.random((ny, nx)) < 0.12] = 0.0
            f[never] = 0.0
            out[(e, y)] = np.minimum(f, 150.0).astype("f4")
    if not out:
        out[(0, 0)] = (level * rng.weibull(shape)).astype("f4")
    return out


def annual_max(ev, nyears, shape):
    v = np.zeros((nyears,) + tuple(shape), dtype="f4")
    for (e, y), f in ev.items():
        if y < nyears:
            v[y] = np.maximum(v[y], f)
    return v


def lmoments(data):
    """First two L-moments and L-skewness along axis 0, by probability-weighted moments."""
    x = np.sort(np.asarray(data, dtype=float), axis=0)
    n = x.shape[0]
    i = np.arange(n).reshape((-1,) + (1,) * (x.ndim - 1))
    b0 = x.mean(axis=0)
    b1 = (i / (n - 1.0) * x).mean(axis=0)
    b2 = (i * (i - 1.0) / ((n - 1.0) * (n - 2.0)) * x).mean(axis=0)
    l2 = 2 * b1 - b0
    with np.errstate(divide="ignore", invalid="ignore"):
        t3 = (6 * b2 - 6 * b1 + b0) / l2
    return b0, l2, t3


def gev_params(l1, l2, t3):
    """Location, scale, shape (Hosking's sign) with these L-moments."""
    t0 = 0.5 * (t3 + 3.0)

    def f(k):
        if abs(k) < 1e-9:
            return np.log(3.0) / np.log(2.0) - t0
        return np.expm1(-k * np.log(3.0)) / np.expm1(-k * np.log(2.0)) - t0
    k = brentq(f, -0.9999999, 60.0, xtol=1e-13)
    if abs(k) < 1e-9:
        a = l2 / np.log(2.0)
        return l1 - np.euler_gamma * a, a, 0.0
    g = gamma(1.0 + k)
    a = l2 * k / (g * -np.expm1(-k * np.log(2.0)))
    return l1 - a * (1.0 - g) / k, a, k


def gev(data, years, minrec, yps=1):
    """Reference (levels, loc, scale, shape, margin); margin is the distance from a decision boundary."""
    years = np.asarray(years, dtype=float)
    miss = np.full(len(years), NODATA), NODATA, NODATA, NODATA
    data = np.asarray(data, dtype=float)
    nz = data[data != 0]
    if data.max() <= 0 or len(nz) < minrec or nz.min() == nz.max():
        return miss + (1.0,)
    l1, l2, t3 = lmoments(data)
    margin = 1.0 - abs(t3)
    if abs(t3) >= 1:
        return miss + (abs(margin),)
    if margin < 1e-6:
        return miss + (0.0,)
    loc, a, k = gev_params(l1, l2, t3)
    margin = min(margin, abs(k))
    if k <= 0:
        return miss[0], loc, a, k, margin
    w = np.full(len(years), NODATA)
    ok = years > yps
    w[ok] = loc + a / k * (1.0 - (-np.log1p(-yps / years[ok])) ** k)
    return w, loc, a, k, margin


def write_evolution(path, lon, lat, times=2):
    """The recorded development of one storm, as kept beside the footprints when asked for."""
    from netCDF4 import Dataset
    with Dataset(path, "w") as ds:
        ds.description = "Simulated Windfield Timeseries"
        ds.createDimension("time", None)
        for n, a in (("lat", np.sort(lat)), ("lon", np.sort(lon))):
            ds.createDimension(n, len(a))
            ds.createVariable(n, "f4", (n,))[:] = a
        ds.createVariable("time", "f8", ("time",))[:] = np.arange(times)
        for n in ("gust_speed", "velocity_east", "velocity_north", "pressure"):
            ds.createVariable(n, "f4", ("time", "lat", "lon"))[:] = np.full((times, len(lat), len(lon)), 33.0)


def beside(folder, names, lon, lat):
    """Recorded developments for some of the footprints of a folder."""
    for n in names:
        write_evolution(os.path.join(folder, n.replace("gust.", "evolution.", 1)), lon, lat)


def write_run(root, lon, lat, ev, limit, nyears, years, minrec, yps=1, dist="GEV", ci=None, evolution=False):
    """A directory ready for hazard.run; returns the configuration path."""
    wf = os.path.join(root, "windfield")
    os.makedirs(wf)
    os.makedirs(os.path.join(root, "hazard"))
    for (e, y), f in ev.items():
        write_gust(os.path.join(wf, gust_name(e, y)), lon, lat, f)
    if evolution:
        beside(wf, [gust_name(e, y) for e, y in ev], np.append(lon, 2 * lon[-1] - lon[-2]), lat)
    hz = {"Years": ",".join("%g" % t for t in years), "MinimumRecords": minrec,
          "CalculateCI": "True" if ci else "False", "ExtremeValueDistribution": dist}
    if ci:
        hz["SampleSize"], hz["PercentileRange"] = ci
    return synth.write_config(os.path.join(root, "c.ini"), {
        "Region": {"gridLimit": {k: float(v) for k, v in limit.items()}},
        "TrackGenerator": {"NumSimulations": nyears, "YearsPerSimulation": yps},
        "Hazard": hz, "Output": {"Path": root}})


def read(root):
    from netCDF4 import Dataset
    with Dataset(os.path.join(root, "hazard", "hazard.nc")) as ds:
        ds.set_auto_mask(False)
        return {v: np.array(ds.variables[v][...], dtype=float)
                for v in ("lat", "lon", "ari", "loc", "scale", "shp", "wspd", "wspdupper", "wspdlower")}


def window(lon, lat, limit):
    """Index arrays of the nodes inside the region, edges included."""
    e = 1e-6
    ii = np.where((lon >= limit["xMin"] - e) & (lon <= limit["xMax"] + e))[0]
    jj = np.where((lat >= limit["yMin"] - e) & (lat <= limit["yMax"] + e))[0]
    return ii, jj
