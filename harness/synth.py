"""Synthetic inputs written by the harness itself (not by the code under test)."""
import os

import numpy as np
from netCDF4 import Dataset


def write_mslp(path, fn=None, nt=73, ny=37, nx=72, units="hPa", var="slp"):
    """
    Long-term mean sea-level pressure on a (time, lat, lon) grid laid out the way
    the climatology lookup indexes it: index = n * (coordinate - offset) / scale.
    """
    if fn is None:
        def fn(day, lat, lon):
            return (1011.0 + 3.0 * np.cos(2 * np.pi * day / 365.0)
                    + 0.03 * np.abs(lat) + 2.0 * np.sin(np.radians(lon)))
    day = np.arange(nt) * 365.0 / nt
    lat = -90 + np.arange(ny) * 180.0 / ny
    lon = np.arange(nx) * 360.0 / nx
    D, A, O = np.meshgrid(day, lat, lon, indexing="ij")
    data = fn(D, A, O)
    with Dataset(path, "w") as nc:
        nc.createDimension("time", nt)
        nc.createDimension("lat", ny)
        nc.createDimension("lon", nx)
        for n, v in (("time", day), ("lat", lat), ("lon", lon)):
            nc.createVariable(n, "f8", (n,))[:] = v
        v = nc.createVariable(var, "f8", ("time", "lat", "lon"))
        v.units = units
        v[:] = data if units == "hPa" else data * 100.0
    return fn


def write_landmask(path, is_land, lon0=0.0, lon1=360.0, lat0=-90.0, lat1=90.0, step=0.5):
    """
    Land mask with longitude and latitude increasing. The reader flips rows on
    loading, so the rows are written north to south (see tests for the layout).
    """
    lon = np.arange(lon0, lon1 + step / 2, step)
    lat = np.arange(lat0, lat1 + step / 2, step)
    L, A = np.meshgrid(lon, lat)
    mask = np.asarray(is_land(L, A), dtype=float)
    with Dataset(path, "w") as nc:
        nc.createDimension("lat", lat.size)
        nc.createDimension("lon", lon.size)
        nc.createVariable("lon", "f8", ("lon",))[:] = lon
        nc.createVariable("lat", "f8", ("lat",))[:] = lat
        nc.createVariable("landmask", "f8", ("lat", "lon"))[:] = mask[::-1]
    return lon, lat, mask


def ncells(limit, space):
    nx = int(round((limit["xMax"] - limit["xMin"]) / space["x"]))
    ny = int(round((limit["yMax"] - limit["yMin"]) / space["y"]))
    return nx, ny


def write_cell_stats(path, limit, space, mu, sig, alpha, mn, lmu=None, lsig=None, lalpha=None):
    """Cell statistics file: values may be scalars or arrays over cells."""
    nx, ny = ncells(limit, space)
    full = lambda v: np.ones(ny * nx) * np.asarray(v, dtype=float)
    vals = {"mu": full(mu), "sig": full(sig), "alpha": full(alpha), "min": full(mn)}
    vals["lmu"] = full(mu if lmu is None else lmu)
    vals["lsig"] = full(sig if lsig is None else lsig)
    vals["lalpha"] = full(alpha if lalpha is None else lalpha)
    vals["lmin"] = vals["min"]
    vals["phi"] = np.sqrt(1 - vals["alpha"] ** 2)
    vals["lphi"] = np.sqrt(1 - vals["lalpha"] ** 2)
    with Dataset(path, "w") as nc:
        nc.createDimension("lat", ny)
        nc.createDimension("lon", nx)
        nc.createVariable("lat", "f4", ("lat",))[:] = limit["yMax"] - space["y"] * np.arange(ny)
        nc.createVariable("lon", "f4", ("lon",))[:] = limit["xMin"] + space["x"] * np.arange(nx)
        for k, v in vals.items():
            nc.createVariable(k, "f4", ("lat", "lon"))[:] = v.reshape(ny, nx)
        nc.createVariable("cell", "i8", ("lat", "lon"))[:] = np.arange(ny * nx).reshape(ny, nx)
    return vals


def write_cell_cdf(path, limit, space, values):
    """values(cell) -> (x, cdf)."""
    nx, ny = ncells(limit, space)
    c, x, y = [], [], []
    for cell in range(nx * ny):
        xs, ys = values(cell)
        c += [cell] * len(xs)
        x += list(xs)
        y += list(ys)
    with Dataset(path, "w") as nc:
        nc.createDimension("cell", len(c))
        nc.createVariable("cell", "i4", ("cell",))[:] = c
        nc.createVariable("x", "f4", ("cell",))[:] = x
        nc.createVariable("CDF", "f4", ("cell",))[:] = y


def write_origin_pdf(path, x, y, z):
    """Genesis density with y descending (north first), z shaped (y, x)."""
    with Dataset(path, "w") as nc:
        nc.createDimension("lat", len(y))
        nc.createDimension("lon", len(x))
        nc.createVariable("lat", "f4", ("lat",))[:] = y
        nc.createVariable("lon", "f4", ("lon",))[:] = x
        nc.createVariable("gpdf", "f4", ("lat", "lon"))[:] = z


def write_process_dir(path, limit, space, rng, noise=1.0, uniform=False, p_lo=960.0, p_hi=1000.0,
                      spread=0.6, speed=(8.0, 25.0), dp_mu=(-0.4, 0.3), alpha=(0.3, 0.95),
                      p_min=(920.0, 960.0), days=(1, 365)):
    """
    Everything the track generator loads, with random but plausible content.
    `noise` scales every standard deviation, `uniform` makes all cells alike.
    Returns the cell statistics and initial-condition distributions written.
    """
    os.makedirs(path, exist_ok=True)
    x = np.arange(limit["xMin"], limit["xMax"], 0.5)
    y = np.arange(limit["yMax"], limit["yMin"], -0.5)
    z = rng.random((y.size, x.size)) ** 3
    # keep genesis off the outermost ring most of the time
    z[:2, :] *= 0.01
    z[-2:, :] *= 0.01
    z[:, :2] *= 0.01
    z[:, -2:] *= 0.01
    write_origin_pdf(os.path.join(path, "originPDF.nc"), x, y, z / z.sum())
    nx, ny = ncells(limit, space)
    n = nx * ny
    out = {"cdf": {}}

    def cdf(name, lo, hi, k, width=None):
        """Per-cell distribution; `width` limits each cell's support to part of the range."""
        table = {}

        def f(cell):
            xs = np.linspace(lo, hi, k)
            pdf = rng.random(k) + 0.05
            if width is not None:
                a = rng.uniform(lo, hi - width)
                pdf = np.where((xs >= a) & (xs <= a + width), pdf, 0.0)
            ys = np.cumsum(pdf)
            table[cell] = (xs, ys / ys[-1])
            return table[cell]
        write_cell_cdf(os.path.join(path, "all_cell_cdf_init_%s.nc" % name), limit, space, f)
        out["cdf"][name] = table
    cdf("bearing", 0, 355, 72, 120)
    cdf("speed", 1, 35, 35, 12)
    cdf("pressure", p_lo, p_hi + 20, 61)
    cdf("day", days[0], days[1], days[1] - days[0] + 1, 100 if days[1] - days[0] > 100 else None)

    def u(lo, hi):
        return np.full(n, rng.uniform(lo, hi)) if uniform else rng.uniform(lo, hi, n)
    heading = rng.uniform(0, 2 * np.pi)

    def b():
        d = rng.normal(0, spread, n)
        return np.mod(heading + (d[0] if uniform else d), 2 * np.pi)
    out["speed"] = write_cell_stats(
        os.path.join(path, "speed_stats.nc"), limit, space, u(*speed), noise * u(1, 6),
        u(*alpha), 1.0, lmu=u(*speed), lsig=noise * u(1, 6), lalpha=u(*alpha))
    out["bearing"] = write_cell_stats(
        os.path.join(path, "bearing_stats.nc"), limit, space, b(), noise * u(0.1, 0.5),
        u(*alpha), 0.0, lmu=b(), lsig=noise * u(0.1, 0.5), lalpha=u(*alpha))
    out["pressure"] = write_cell_stats(
        os.path.join(path, "pressure_stats.nc"), limit, space, u(970, 995), u(5, 15),
        u(0.5, 0.98), u(*p_min))
    out["pressure_rate"] = write_cell_stats(
        os.path.join(path, "pressure_rate_stats.nc"), limit, space, u(*dp_mu),
        noise * u(0.1, 0.8), u(0.1, 0.8), -5.0, lmu=u(*dp_mu), lsig=noise * u(0.1, 0.8))
    return out


def write_config(path, sections):
    with open(path, "w") as f:
        for sec, opts in sections.items():
            f.write("[%s]\n" % sec)
            for k, v in opts.items():
                f.write("%s=%s\n" % (k, v))
            f.write("\n")
    return path


TRACK_DTYPE = np.dtype({"names": ("CycloneNumber", "Datetime", "TimeElapsed", "Longitude",
                                  "Latitude", "Speed", "Bearing", "CentralPressure",
                                  "EnvPressure", "rMax"),
                        "formats": ("i", "object", "f", "f8", "f8", "f8", "f8", "f8", "f8", "f8")})
