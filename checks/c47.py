"""C47: low-resolution local winds: the multiplier of the wind's direction at the wind's place."""
import logging
import os
import sys

import numpy as np
from netCDF4 import Dataset

from harness import core, plain, synth

BANDS = ["e", "n", "ne", "nw", "s", "se", "sw", "w"]
FROM = ["n", "ne", "e", "se", "s", "sw", "w", "nw"]
NODATA = -9999.0


def make():
    return core.Check("C47", "one evaluation per cell of a local wind file",
                      ["all gust files of a run share one grid", "multipliers vary linearly across the raster, so that averaging to the coarser grid is exact away from missing areas"])


def case(chk, k):
    from osgeo import gdal, osr
    gdal.UseExceptions()
    rng = chk.rng("case", k)
    root = chk.scratch("g")
    base = ["gusts", "wind", "a.gust", "out"][int(rng.integers(4))]
    gdir, work = os.path.join(root, base), os.path.join(root, "work")
    os.makedirs(gdir)
    os.makedirs(work)
    step = float(rng.choice([0.02, 0.05, 0.1]))
    nx, ny = int(rng.integers(8, 30)), int(rng.integers(8, 30))
    lon = round(float(rng.uniform(113, 150)), 2) + step * np.arange(nx)
    lat = round(float(rng.uniform(-30, -12)), 2) + step * np.arange(ny)
    down = bool(rng.integers(4))
    if down:
        lat = lat[::-1]
    # the raster of multipliers: finer, reaching past the gusts
    res = step / int(rng.integers(3, 9))
    pad = int(rng.integers(2, 5))
    x0, y0 = lon.min() - pad * step + rng.uniform(0, res), lat.max() + pad * step + rng.uniform(0, res)
    w, h = int((nx + 2 * pad) * step / res), int((ny + 2 * pad) * step / res)
    short = bool(rng.random() < 0.3)
    if short:                   # the raster ends before the gusts do, in the south
        h = int(h * rng.uniform(0.4, 0.8))
    X, Y = np.meshgrid(x0 + (np.arange(w) + 0.5) * res, y0 - (np.arange(h) + 0.5) * res)
    hx = float(lon[0] + rng.uniform(0.2, 0.8) * (lon[-1] - lon[0]))
    holed = bool(rng.integers(2))
    LX, LY = np.meshgrid(lon, lat)
    gone, near = np.zeros(LX.shape, bool), np.zeros(LX.shape, bool)
    if holed:
        gone, near = LX > hx + 2 * step, np.abs(LX - hx) <= 2 * step
    if short:
        end = y0 - h * res
        gone |= LY < end - 2 * step
        near |= np.abs(LY - end) <= 2 * step
    near &= ~((LX > hx + 2 * step) & holed)
    coef = {}
    ds = gdal.GetDriverByName("GTiff").Create(os.path.join(root, "m4.tif"), w, h, 8, gdal.GDT_Float32)
    ds.SetGeoTransform((x0, res, 0, y0, 0, -res))
    srs = osr.SpatialReference()
    srs.ImportFromEPSG(4326)
    ds.SetProjection(srs.ExportToWkt())
    for i, d in enumerate(BANDS):
        a, b, c = rng.uniform(0.8, 1.3), rng.uniform(-0.2, 0.2) / (nx * step), rng.uniform(-0.2, 0.2) / (ny * step)
        coef[d] = (a, b, c)
        z = a + b * (X - lon[0]) + c * (Y - lat[0])
        if holed:
            z = np.where(X > hx, NODATA, z)
        ds.GetRasterBand(i + 1).WriteArray(z.astype("f4"))
        ds.GetRasterBand(i + 1).SetNoDataValue(NODATA)
    ds = None
    gusts = {}
    names = ["gust.%03d-%05d.nc" % (1, n) for n in range(1, int(rng.integers(2, 4)))] if rng.integers(2) else ["gust.nc"]
    for name in names:
        spd = rng.uniform(5, 80, LX.shape)
        brg = rng.uniform(0, 360, LX.shape)
        pure = rng.random(LX.shape) < 0.2
        brg[pure] = 90 * rng.integers(0, 4, int(pure.sum()))
        ua, va = -spd * np.sin(np.radians(brg)), -spd * np.cos(np.radians(brg))
        ua[pure & (np.abs(ua) < 1e-6)] = 0
        va[pure & (np.abs(va) < 1e-6)] = 0
        gusts[name] = (spd, brg)
        with Dataset(os.path.join(gdir, name), "w") as nc:
            for n, z in (("lat", lat), ("lon", lon)):
                nc.createDimension(n, len(z))
                nc.createVariable(n, "f8", (n,))[:] = z
            for n, z in (("vmax", spd), ("ua", ua), ("va", va)):
                nc.createVariable(n, "f8", ("lat", "lon"))[:] = z
    ini = synth.write_config(os.path.join(root, "m.ini"), {
        "Input": {"Gust_dir": gdir, "Multipliers": os.path.join(root, "m4.tif")},
        "Output": {"Working_dir": work},
        "Logging": {"LogFile": os.path.join(root, "l.log"), "LogLevel": "INFO", "Verbose": "False", "Datestamp": "False"}})

    def go():
        from Utilities import config
        from ProcessMultipliers import lowResProcessMultipliers as low
        config.reset()
        gdal.DontUseExceptions()
        logging.disable(logging.NOTSET)
        logging.getLogger().handlers.clear()
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
        sys.argv = ["x", "-c", ini]
        low.run()
    rep = {"case": k, "folder": base, "north first": down, "spacing": step, "raster": res, "missing south": short, "missing east of": hx if holed else None, "files": names}
    state, val = plain.forked(go)
    for name in names:
        path = os.path.join(gdir, "wm_" + name)

        def log():
            try:
                return open(os.path.join(root, "l.log")).read()[-800:]
            except OSError:
                return ""
        if not chk.expect(state == "ok" and os.path.exists(path), "fails", lambda: "no local winds for %s: %s %s" % (name, str(val)[-300:], log()), rep):
            continue
        with Dataset(path) as nc:
            z, glon, glat = np.ma.filled(nc["vmax"][:].astype(float), np.nan), nc["lon"][:].data, nc["lat"][:].data
        if not chk.expect(z.shape == LX.shape and np.array_equal(glon, lon) and np.array_equal(glat, lat), "place", "%s: local winds on another grid" % name, rep):
            continue
        spd, brg = gusts[name]
        sector = ((brg + 22.5) // 45).astype(int) % 8
        edge = np.abs((brg + 22.5) % 45 - 22.5) > 22.4999
        m = np.ones(LX.shape)
        for i, d in enumerate(FROM):
            a, b, c = coef[d]
            m[sector == i] = (a + b * (LX - lon[0]) + c * (LY - lat[0]))[sector == i]
        m[gone] = 1
        skip = near | edge
        err = np.where(skip, 0, np.abs(z - spd * m) / spd)
        chk.expect(np.nanmax(err) < 5e-4 and not np.isnan(z[~skip]).any(), "local",
                   lambda: "%s: local wind off by up to %.3g of the speed (%d of %d cells)" % (name, np.nanmax(err), int((err >= 5e-4).sum()), err.size), rep)
        chk.evaluated((k, name), {"cells": int((~skip).sum()), "missing": int(gone.sum()), "file": name}, k=int((~skip).sum()))


def run(chk):
    from ProcessMultipliers import lowResProcessMultipliers       # noqa: F401
    chk.pmap(case, list(range(chk.n(24, 240))))
