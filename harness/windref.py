"""Random storms for the wind field code and the reference wind field of one time step."""
from datetime import datetime, timedelta

import numpy as np

from . import refwind, synth

RADIUS = 6367.0


def storm_track(rng, lim, n, dt=1.0, ident=(0, 0), outside=False, weak=True):
    """A moving storm crossing (or starting outside) the region `lim`."""
    d = np.zeros(n, dtype=synth.TRACK_DTYPE)
    t0 = datetime(int(rng.integers(1950, 2030)), int(rng.integers(1, 13)), int(rng.integers(1, 28)), int(rng.integers(0, 24)))
    lon = rng.uniform(lim["xMin"], lim["xMax"])
    lat = rng.uniform(lim["yMin"], lim["yMax"])
    brg, spd = rng.uniform(0, 360), rng.uniform(0, 60)
    if outside:
        lon = lim["xMin"] - rng.uniform(0.0, 1.0)
        brg = rng.uniform(60, 120)
    pe = rng.uniform(1000, 1015)
    dp = rng.uniform(3, 110)
    for i in range(n):
        d["CycloneNumber"][i] = ident[0]
        d["Datetime"][i] = t0 + timedelta(hours=dt * i)
        d["TimeElapsed"][i] = dt * i
        d["Longitude"][i], d["Latitude"][i] = lon, lat
        d["Speed"][i], d["Bearing"][i] = spd, brg % 360
        d["EnvPressure"][i] = pe
        d["CentralPressure"][i] = pe - dp
        d["rMax"][i] = rng.uniform(10, 80)
        step = spd * dt / 111.0
        lon += step * np.sin(np.radians(brg)) / np.cos(np.radians(lat))
        lat += step * np.cos(np.radians(brg))
        if lat * d["Latitude"][0] <= 0.3 or abs(lat) > 60:
            lat = d["Latitude"][i]
        brg += rng.uniform(-40, 40)
        spd = np.clip(spd + rng.uniform(-10, 10), 0, 80)
        pe += rng.uniform(-2, 2)
        dp = np.clip(dp + rng.uniform(-15, 15), 2, 120)
        if weak and rng.random() < 0.05:
            d["CentralPressure"][i] = d["EnvPressure"][i]
    return d


def polar(clon, clat, lons, lats):
    """Great-circle distance (km) and direction anticlockwise from east, via 3-D vectors."""
    lo, la = np.meshgrid(np.radians(lons), np.radians(lats))
    c, p = np.radians(clon), np.radians(clat)
    a = np.sin((la - p) / 2) ** 2 + np.cos(p) * np.cos(la) * np.sin((lo - c) / 2) ** 2
    R = 2 * RADIUS * np.arcsin(np.sqrt(np.clip(a, 0, 1)))
    east = np.cos(la) * np.sin(lo - c)
    north = np.cos(p) * np.sin(la) - np.sin(p) * np.cos(la) * np.cos(lo - c)
    return np.maximum(R, 1e-30), np.arctan2(north, east)


def local_axis(c, margin, res):
    """Nodes of the storm-centred grid along one axis (thousandths of a degree)."""
    m, s = int(round(1000 * margin)), int(round(1000 * res))
    k = int(1000 * float(c))
    return np.arange(k - m, k + m + 1, s) / 1000.0


def step_field(rec, profile, field, margin, res, beta, theta_max, gust=1.35, axes=None):
    """(gust, u, v, p) of one track point on its storm-centred grid, or on the given axes."""
    lon, lat = float(rec["Longitude"]), float(rec["Latitude"])
    lons, lats = (local_axis(lon, margin, res), local_axis(lat, margin, res)) if axes is None else axes
    R, lam = polar(lon, lat, lons, lats)
    pe, pc = rec["EnvPressure"] * 100.0, rec["CentralPressure"] * 100.0
    rm = rec["rMax"] * 1000.0
    P = refwind.pressure(profile, R, pe, pc, float(rec["rMax"]), lat, beta)
    if not pc < pe:
        z = np.zeros_like(R)
        return z, z, z, P, lons, lats
    ref = refwind.profile(profile, lat, pe, pc, rm, beta=beta)
    vfm = rec["Speed"] / 3.6
    th = np.pi / 2 - np.radians(rec["Bearing"])
    V = ref.velocity(R * 1000)
    if field == "kepert":
        u, v = refwind.kepert(V, ref.vorticity(R * 1000), R * 1000, lam, ref.f, rm, ref.vm, vfm, th)
    else:
        u, v = getattr(refwind, field)(V, R * 1000, lam, ref.f, rm, vfm, th, theta_max)
    u, v = u * gust, v * gust
    return np.hypot(u, v), u, v, P, lons, lats


def usable(data, profile, beta):
    """Every point of the track has a fitted core with negative curvature."""
    for rec in data:
        dp = (rec["EnvPressure"] - rec["CentralPressure"]) * 100
        if dp <= 0:
            continue
        if dp < 100:
            return False
        r = refwind.profile(profile, float(rec["Latitude"]), rec["EnvPressure"] * 100, rec["CentralPressure"] * 100,
                            rec["rMax"] * 1000, beta=beta)
        if not r.d2 < -1e-13:
            return False
    return True
