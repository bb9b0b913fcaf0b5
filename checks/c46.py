"""C46: site multipliers combined from tiles of their three components."""
import logging
import os
import sys

import numpy as np
from netCDF4 import Dataset

from harness import core, plain, synth

DIRNS = ["e", "n", "ne", "nw", "s", "se", "sw", "w"]
FROM = {"n": 0, "ne": 45, "e": 90, "se": 135, "s": 180, "sw": 225, "w": 270, "nw": 315}
PARTS = {"shielding": "Ms", "terrain": "Mz", "topographic": "Mt"}
NODATA = -9999.0


def make():
    return core.Check("C46", "one evaluation per cell of a combined multiplier raster",
                      ["tiles of one resolution, aligned with each other", "folder names end with a separator and have no blanks", "the gdal command-line programs are installed"])


def tile(path, var, lat, lon, v):
    with Dataset(path, "w") as ds:
        for n, z in (("lat", lat), ("lon", lon)):
            ds.createDimension(n, len(z))
            q = ds.createVariable(n, "f8", (n,))
            q.units = "degrees_north" if n == "lat" else "degrees_east"
            q.standard_name = "latitude" if n == "lat" else "longitude"
            q[:] = z
        ds.createVariable(var, "f4", ("lat", "lon"), fill_value=NODATA)[:] = v


def case(chk, k):
    from osgeo import gdal
    gdal.UseExceptions()
    rng = chk.rng("case", k)
    root = chk.scratch("m")
    raw, work = os.path.join(root, "raw"), os.path.join(root, "work")
    res = float(rng.choice([0.01, 0.02, 0.005]))
    nx, ny = int(rng.integers(6, 20)), int(rng.integers(6, 20))
    x0, y0 = round(float(rng.uniform(113, 150)), 2), round(float(rng.uniform(-30, -12)), 2)
    # where the tiles lie, in tiles from the north-west corner
    spots = [[(0, 0)], [(0, 0), (1, 0)], [(0, 0), (0, 1)], [(0, 0), (1, 1)], [(0, 0), (1, 0), (0, 1)]][int(rng.integers(5))]
    names = ["e%05.1fs%04.1f" % (x0 + a * 0.5, -y0 + b * 0.5) for a, b in spots]
    wide, high = (1 + max(a for a, b in spots)) * nx, (1 + max(b for a, b in spots)) * ny
    north = y0
    want = {d: np.ones((high, wide)) for d in DIRNS}
    gone = {d: np.zeros((high, wide), bool) for d in DIRNS}
    cover = np.zeros((high, wide), bool)
    for a, b in spots:
        cover[b * ny:(b + 1) * ny, a * nx:(a + 1) * nx] = True
    hole = float(rng.choice([0, 0.05, 0.2]))
    up = bool(rng.integers(2))
    for part, var in PARTS.items():
        os.makedirs(os.path.join(raw, part))
        for (a, b), name in zip(spots, names):
            lon = x0 + (a * nx + np.arange(nx) + 0.5) * res
            lat = north - (b * ny + np.arange(ny) + 0.5) * res
            for d in DIRNS:
                v = rng.uniform(0.6, 1.6, (ny, nx)).astype("f4")
                out = rng.random((ny, nx)) < hole
                v[out] = NODATA
                win = (slice(b * ny, (b + 1) * ny), slice(a * nx, (a + 1) * nx))
                want[d][win] *= np.where(out, 1, v)
                gone[d][win] |= out
                tile(os.path.join(raw, part, "%s_%s_%s.nc" % (name, var.lower(), d)), var, lat[::-1] if up else lat, lon, v[::-1] if up else v)
    alone = k % 4 == 3          # the program that only collects the multipliers
    sample = gdal.GetDriverByName("MEM").Create("", nx, ny, 1, gdal.GDT_Float32)
    sample.SetGeoTransform((x0 + wide * res, res, 0, north, 0, -res))
    sample.GetRasterBand(1).WriteArray(np.full((ny, nx), 9, "f4"))
    # tiles that were not asked for: in the source folders, or left by an earlier run
    stale = bool(rng.integers(2)) and not alone
    other = bool(rng.integers(2))
    for part, var in PARTS.items():
        for d in DIRNS:
            if other:
                tile(os.path.join(raw, part, "e180.0s50.0_%s_%s.nc" % (var.lower(), d)), var, north - (np.arange(ny) + 0.5) * res, x0 + (wide + np.arange(nx) + 0.5) * res, np.full((ny, nx), 7, "f4"))
            if stale:
                os.makedirs(os.path.join(work, part), exist_ok=True)
                gdal.Translate(os.path.join(work, part, "e999_%s_%s.tif" % (var.lower(), d)), sample, format="GTiff")
    # a wind of one speed and direction everywhere
    frm = str(rng.choice(DIRNS))
    spd = float(round(rng.uniform(25, 70), 1))
    ang = np.radians(FROM[frm] + rng.uniform(-15, 15))
    gl = np.round(np.arange(x0 - 0.3, x0 + wide * res + 0.3, 0.05), 4)
    gb = np.round(np.arange(north - high * res - 0.3, north + 0.3, 0.05), 4)[::-1]
    with Dataset(os.path.join(root, "gust.nc"), "w") as ds:
        for n, z in (("lat", gb), ("lon", gl)):
            ds.createDimension(n, len(z))
            ds.createVariable(n, "f8", (n,))[:] = z
        for n, z in (("vmax", spd), ("ua", -spd * np.sin(ang)), ("va", -spd * np.cos(ang))):
            ds.createVariable(n, "f8", ("lat", "lon"))[:] = np.full((len(gb), len(gl)), z)
    ini = synth.write_config(os.path.join(root, "m.ini"), {
        "Input": {"Gust_file": os.path.join(root, "gust.nc"), "RawMultipliers" if not alone else "Multipliers": raw + "/", "Tiles": rng.choice([",", ", "]).join(names)},
        "Output": {"Path" if alone else "Working_dir": work + "/"},
        "Logging": {"LogFile": os.path.join(root, "l.log"), "LogLevel": "INFO", "Verbose": "False", "Datestamp": "False"},
        "ProcessMultipliers": {"ProcessMultiVersion": "1" if k % 3 == 0 else "2", "MaxWorkingThreads": 3, "ProcessingSegmentSize": 8}})

    def go():
        from Utilities import config
        from ProcessMultipliers import processMultipliers as pM
        from Utilities import get_multipliers
        config.reset()
        gdal.DontUseExceptions()
        logging.disable(logging.NOTSET)
        logging.getLogger().handlers.clear()
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
        sys.argv = ["x", "-c", ini]
        if alone:
            get_multipliers.startup()
        else:
            pM.run()
    rep = {"case": k, "program": "collect" if alone else "whole", "tiles": names, "rows": high, "columns": wide, "missing": hole, "wind from": frm, "south first": up, "leftovers": stale, "other tiles": other}
    state, val = plain.forked(go)

    def log():
        try:
            return open(os.path.join(root, "l.log")).read()[-800:]
        except OSError:
            return ""
    if not chk.expect(state == "ok" and os.path.exists(os.path.join(work, "m4_w.tif")), "fails", lambda: "combining %d tiles: %s %s" % (len(names), str(val)[-400:], log()), rep):
        return
    for d in DIRNS:
        ds = gdal.Open(os.path.join(work, "m4_%s.tif" % d))
        z, gt, nd = ds.ReadAsArray().astype(float), ds.GetGeoTransform(), ds.GetRasterBand(1).GetNoDataValue()
        del ds
        if not chk.expect(z.shape == (high, wide) and np.allclose(gt, (x0, res, 0, north, 0, -res), atol=1e-6), "place",
                          lambda: "multipliers from %s: %r at %r, tiles cover %r at %r" % (d, z.shape, gt, (high, wide), (x0, north)), rep):
            continue
        none = ~cover | gone[d]
        bad = none & (z != nd)
        chk.expect(not bad.any(), "missing", lambda: "multipliers from %s: %d cells with a missing component have a value (%r)" % (d, int(bad.sum()), z[bad][:3].tolist()), rep)
        err = np.where(none, 0, np.abs(z - want[d]))
        chk.expect(err.max() < 1e-4, "product", lambda: "multipliers from %s: off by up to %g from the product of the components" % (d, err.max()), rep)
        chk.evaluated((k, d), {"direction": d, "cells": int((~none).sum()), "missing": int(none.sum())}, k=z.size)
    if alone:
        return
    path = os.path.join(work, "local_wind.tif")
    if chk.expect(os.path.exists(path), "fails", lambda: "no local wind: %s" % log(), rep):
        ds = gdal.Open(path)
        z = ds.ReadAsArray().astype(float)
        none = ~cover | gone[frm]
        if chk.expect(z.shape == none.shape, "local", lambda: "local wind has %r cells, the multipliers %r" % (z.shape, none.shape), rep):
            err = np.where(none, 0, np.abs(z - spd * want[frm]))
            chk.expect(err.max() < 1e-3 * spd, "local", lambda: "local wind from %s off by up to %g from %g times the multiplier" % (frm, err.max(), spd), rep)


def run(chk):
    from ProcessMultipliers import processMultipliers       # noqa: F401
    from Utilities import get_multipliers                    # noqa: F401
    chk.pmap(case, list(range(chk.n(8, 64))))
