"""C29: local winds against gust times the multiplier of the direction the wind comes from."""
import os
import queue
import sys
import threading
import time

import numpy as np

from harness import core, plain, synth

DIRNS = ["e", "n", "ne", "nw", "s", "se", "sw", "w"]
OCTANT = ["n", "ne", "e", "se", "s", "sw", "w", "nw"]


def make():
    return core.Check("C29", "one evaluation per local-wind raster cell compared",
                      ["gust fields as written by the model: rows from north to south", "multiplier rasters at least as fine as the gust field",
                       "bearings are not compared within 0.001 degrees of an octant edge", "cells whose surrounding gust cells are not all in the field are not compared"])


class Watch:
    """Widen races between threads; report blocked queues and overlapping use of one dataset."""

    def __init__(self, rng):
        from osgeo import gdal
        self.problems, self.busy, self.lock = [], {}, threading.Lock()
        self.overlaps = self.calls = 0
        w = self
        w.waits = [float(x) for x in rng.choice([0, 0, 1e-5, 2e-4, 1e-3], 64)]
        w.k = 0

        def pause():
            w.k += 1
            x = w.waits[w.k % 64]
            if x:
                time.sleep(x)

        class Queue(queue.Queue):
            def empty(self):
                r = super().empty()
                pause()
                return r

            def get(self, block=True, timeout=None):
                if not block or timeout is not None:
                    return super().get(block, timeout)
                try:
                    return super().get(True, 15)
                except queue.Empty:
                    with w.lock:
                        w.problems.append("a worker waits for ever for work that is finished")
                    raise
        queue.Queue = Queue

        def wrap(cls, name):
            old = getattr(cls, name)

            def new(band, *a, **k):
                try:
                    key = int(band.GetDataset().this)
                except Exception:
                    key = id(band)
                me = threading.get_ident()
                with w.lock:
                    w.calls += 1
                    w.busy.setdefault(key, []).append(me)
                    if any(x != me for x in w.busy[key]):
                        w.overlaps += 1
                pause()
                try:
                    return old(band, *a, **k)
                finally:
                    with w.lock:
                        w.busy[key].remove(me)
            setattr(cls, name, new)
        for n in ("ReadAsArray", "WriteArray", "FlushCache"):
            wrap(gdal.Band, n)


class Case:
    pass


def build(rng, root, hostile):
    """Gust field, winds and the multiplier rasters of the eight directions."""
    from osgeo import gdal, osr
    gdal.UseExceptions()
    c = Case()
    c.root = root
    c.delta = float(rng.choice([0.05, 0.1, 0.5, 1.0]))
    ny, nx = int(rng.integers(3, 14)), int(rng.integers(3, 14))
    c.lon = float(rng.integers(112, 150)) + c.delta * np.arange(nx)
    south = float(rng.integers(-30, 20))
    c.lat = (south + c.delta * np.arange(ny))[::-1].copy()          # north to south
    th = rng.uniform(0, 2 * np.pi, (ny, nx))
    speed = rng.uniform(1, 90, (ny, nx))
    c.uu, c.vv = -speed * np.sin(th), -speed * np.cos(th)           # th: direction the wind comes from
    pick = rng.random((ny, nx))
    for lo, a, b in ((0.00, 0., -1.), (0.05, 0., 1.), (0.10, 1., 0.), (0.15, -1., 0.), (0.20, 1e-9, -1.), (0.24, -1e-9, -1.), (0.28, 1e-18, -1.)):
        m = (pick >= lo) & (pick < lo + 0.04)
        if hostile:
            c.uu[m], c.vv[m] = a * speed[m], b * speed[m]
    c.gust = speed if rng.random() < 0.7 else rng.uniform(1, 90, (ny, nx))
    ratio = int(rng.choice([1, 3, 5, 7]))
    c.md = c.delta / ratio
    oy, ox = int(rng.integers(0, 2)), int(rng.integers(0, 2))
    c.rows, c.cols = max(1, (ny - int(rng.integers(0, 2)) - oy)) * ratio, max(1, (nx - int(rng.integers(0, 2)) - ox)) * ratio
    c.x0, c.y0 = c.lon[0] - c.delta / 2 + ox * c.delta, c.lat[0] + c.delta / 2 - oy * c.delta     # top left corner
    c.mult, c.hole = {}, {}
    for d in DIRNS:
        c.mult[d] = rng.uniform(0.3, 2.5, (c.rows, c.cols)).astype("f4")
        c.hole[d] = rng.random((c.rows, c.cols)) < (0.1 if rng.random() < 0.4 else 0.0)
    srs = osr.SpatialReference()
    srs.ImportFromEPSG(4326)

    def save(path, names):
        ds = gdal.GetDriverByName("GTiff").Create(path, c.cols, c.rows, len(names), gdal.GDT_Float32)
        ds.SetGeoTransform((c.x0, c.md, 0, c.y0, 0, -c.md))
        ds.SetProjection(srs.ExportToWkt())
        for k, d in enumerate(names):
            b = ds.GetRasterBand(k + 1)
            b.SetNoDataValue(-9999)
            b.WriteArray(np.where(c.hole[d], np.float32(-9999), c.mult[d]))
        ds.FlushCache()
        del ds
    for d in DIRNS:
        save(os.path.join(root, "m4_%s.tif" % d), [d])
    c.all = os.path.join(root, "all.tif")
    save(c.all, DIRNS)
    return c


def expected(c):
    """Local wind, and where it is decided."""
    xs = c.x0 + c.md * (np.arange(c.cols) + 0.5)
    ys = c.y0 - c.md * (np.arange(c.rows) + 0.5)
    fx, fy = (xs - c.lon[0]) / c.delta, (c.lat[0] - ys) / c.delta    # in cells, from the centre of the first one
    ny, nx = c.gust.shape
    FX, FY = np.meshgrid(fx, fy)
    eps = 1e-6
    near = (np.rint(FX).astype(int), np.rint(FY).astype(int))
    ok = (FX > -eps) & (FX < nx - 1 + eps) & (FY > -eps) & (FY < ny - 1 + eps)
    ok &= (np.abs(FX - near[0]) < 0.5 - 1e-4) & (np.abs(FY - near[1]) < 0.5 - 1e-4)
    i0, j0 = np.clip(np.floor(FX + eps).astype(int), 0, nx - 1), np.clip(np.floor(FY + eps).astype(int), 0, ny - 1)
    i1, j1 = np.minimum(i0 + 1, nx - 1), np.minimum(j0 + 1, ny - 1)
    a, b = FX - i0, FY - j0
    g = c.gust
    wind = (1 - b) * ((1 - a) * g[j0, i0] + a * g[j0, i1]) + b * ((1 - a) * g[j1, i0] + a * g[j1, i1])
    jj, ii = np.clip(near[1], 0, ny - 1), np.clip(near[0], 0, nx - 1)
    brg = np.degrees(np.arctan2(-c.uu[jj, ii], -c.vv[jj, ii])) % 360
    sector = (brg + 22.5) / 45.0
    ok &= np.abs(sector - np.rint(sector)) * 45 > 1e-3
    k = np.floor(sector).astype(int) % 8
    m = np.zeros(wind.shape)
    for o, d in enumerate(OCTANT):
        v = np.where(c.hole[d], 1.0, c.mult[d])
        m[k == o] = v[k == o]
    return wind * m, ok, brg, wind


def read(path):
    from osgeo import gdal
    ds = gdal.Open(path)
    a = np.array(ds.GetRasterBand(1).ReadAsArray(), float)
    return a, ds.GetGeoTransform()


def judge(chk, c, path, what, rep):
    ref, ok, brg, wind = expected(c)
    got, gt = read(path)
    if not chk.expect(got.shape == ref.shape and np.allclose(gt, (c.x0, c.md, 0, c.y0, 0, -c.md), rtol=0, atol=1e-9), "grid",
                      lambda: "%s: raster %r at %r, multipliers %r at %r" % (what, got.shape, gt, ref.shape, (c.x0, c.md, c.y0)), rep):
        return None
    bad = ok & ~(np.abs(got - ref) <= 1e-4 * np.abs(ref) + 1e-4)
    if bad.any():
        j, i = [int(q[0]) for q in np.where(bad)]
        chk.violate("local-wind", "%s: %d of %d cells differ; cell (%d, %d): %r, expected %r = gust %r from %.8f degrees" % (
            what, bad.sum(), ok.sum(), j, i, got[j, i], ref[j, i], wind[j, i], brg[j, i]), rep)
    chk.evaluated((what, c.md < c.delta, bool(any(h.any() for h in c.hole.values())), bool((brg == 0).any())),
                  {"cells": int(ok.sum()), "shape": list(ref.shape)}, k=int(ok.sum()))
    return got


def rasters(chk, k):
    rng = chk.rng("raster", k)
    root = chk.scratch("m")
    c = build(rng, root, k % 3 != 2)
    dx = c.delta / 2.
    lon, lat = c.lon - dx, c.lat - dx
    combined = c.all if k % 2 else None
    rep = lambda: {"case": k, "gust": c.gust.shape, "delta": c.delta, "rows": c.rows, "cols": c.cols, "combined": bool(combined)}

    def single():
        from ProcessMultipliers import processMultipliers as pM
        return pM.processMult(c.gust, c.uu, c.vv, lon, lat, root, combined_mulipliers_file=combined)
    state, val = plain.forked(single)
    if not chk.expect(state == "ok", "fails", lambda: "single-pass processing: %s" % str(val)[-800:], rep):
        return
    one = judge(chk, c, val, "single-pass", rep)
    os.unlink(val)
    for turn in range(3):
        threads = int(rng.choice([1, 2, 3, 4, 8]))
        small = max(c.rows, c.cols)
        size = int(rng.choice([1, 2, 3, 5, max(1, small // 2), small, small + 3, 256]))
        while -(-c.rows // size) * -(-c.cols // size) > 400:
            size *= 2
        wrng = np.random.default_rng(int(rng.integers(2 ** 31)))

        def multi():
            from ProcessMultipliers import processMultipliers as pM
            w = Watch(wrng)
            sys.setswitchinterval(1e-5)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            trouble = None
            try:
                out = pM.processMultV2(c.gust, c.uu, c.vv, lon, lat, root, DIRNS, threads, size, 50, combined_mulipliers_file=combined)
            except queue.Empty:
                out = None
            return out, w.problems, w.overlaps, w.calls
        what = "%d threads, segments of %d" % (threads, size)
        state, val = plain.forked(multi)
        if not chk.expect(state == "ok", "fails", lambda: "segmented processing (%s): %s" % (what, str(val)[-800:]), rep):
            continue
        out, problems, overlaps, calls = val
        chk.count("monitored_raster_calls", calls)
        chk.expect(not problems, "never-ends", lambda: "segmented processing (%s): %s" % (what, problems[0]), rep)
        chk.expect(overlaps == 0, "shared-raster", lambda: "segmented processing (%s): one raster used by two threads at the same time, %d times" % (what, overlaps), rep)
        if out is None:
            continue
        got = judge(chk, c, out, "segmented", rep)
        if one is not None and got is not None:
            chk.expect(np.array_equal(one, got), "differs", lambda: "segmented processing (%s) differs from the single pass in %d cells" % (what, int((one != got).sum())), rep)
        os.unlink(out)
        chk.evaluated(("threads", threads, size >= small))


def script(chk, k):
    """The command-line program on a gust file and an eight-band multiplier raster."""
    rng = chk.rng("script", k)
    root = chk.scratch("s")
    c = build(rng, root, True)
    from netCDF4 import Dataset
    gust = os.path.join(root, "gust.nc")
    with Dataset(gust, "w") as ds:
        ds.createDimension("lat", len(c.lat))
        ds.createDimension("lon", len(c.lon))
        for n, v, dims in (("lat", c.lat, ("lat",)), ("lon", c.lon, ("lon",)), ("vmax", c.gust, ("lat", "lon")), ("ua", c.uu, ("lat", "lon")), ("va", c.vv, ("lat", "lon"))):
            ds.createVariable(n, "f8", dims)[:] = v
    work = os.path.join(root, "out")
    ini = os.path.join(root, "m.ini")
    inp = {"Gust_file": gust, "Multipliers": c.all}
    if k % 2:
        inp["ExtentApplied"] = "yes"
        inp["Extent"] = {"xMin": 0, "xMax": 1, "yMin": 0, "yMax": 1}
    else:
        inp["Extent"] = {"xMin": c.x0, "xMax": c.x0 + c.cols * c.md, "yMin": c.y0 - c.rows * c.md, "yMax": c.y0}
    synth.write_config(ini, {"Input": inp, "Output": {"Working_dir": work}, "Logging": {"LogFile": os.path.join(root, "l.log"), "LogLevel": "INFO", "Verbose": "False", "Datestamp": "False"},
                             "ProcessMultipliers": {"ProcessMultiVersion": "1" if k % 3 == 0 else "2", "MaxWorkingThreads": 3, "ProcessingSegmentSize": 4}})

    def go():
        from Utilities import config
        from ProcessMultipliers import processMultipliers as pM
        config.reset()
        sys.argv = ["x", "-c", ini]
        os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
        pM.run()
    rep = lambda: {"case": "script %d" % k, "delta": c.delta, "rows": c.rows, "cols": c.cols}
    state, val = plain.forked(go)
    out = os.path.join(work, "local_wind.tif")
    if chk.expect(state == "ok" and os.path.exists(out), "fails", lambda: "program: %s %s" % (str(val)[-600:], open(os.path.join(root, "l.log")).read()[-600:]), rep):
        judge(chk, c, out, "program", rep)


def event(chk, k):
    """Local winds asked for while the wind fields are computed."""
    rng = chk.rng("event", k)
    root = chk.scratch("e")
    c = build(rng, root, True)

    def go():
        import wind
        from Utilities.config import ConfigParser
        g = wind.WindfieldGenerator(ConfigParser(), multipliers="m4_ne.tif", windfieldPath=root)

        class T:
            trackId = (1, 1)
        up = lambda a: np.flipud(a).copy()
        g.calcLocalWindfield([(T, (up(c.gust), None, up(c.uu), up(c.vv), None, c.lon, up(c.lat)))])
    rep = lambda: {"case": "event %d" % k, "delta": c.delta, "rows": c.rows, "cols": c.cols}
    state, val = plain.forked(go)
    if chk.expect(state == "ok", "fails", lambda: "local wind of an event: %s" % str(val)[-600:], rep):
        judge(chk, c, os.path.join(root, "local_wind.tif"), "event", rep)


def bearings(chk, k):
    from ProcessMultipliers import processMultipliers as pM
    rng = chk.rng("bearing", k)
    th = np.concatenate([rng.uniform(0, 360, 200), np.arange(0, 360, 22.5)])
    s = rng.uniform(0.01, 90, len(th))
    got = pM.calculateBearing(-s * np.sin(np.radians(th)), -s * np.cos(np.radians(th)))
    chk.expect(np.all(np.abs((got - th + 180) % 360 - 180) < 1e-6), "bearing", lambda: "bearings %r of winds from %r" % (list(got[:4]), list(th[:4])), None)
    chk.evaluated(("bearing",), None, k=len(th))


def group(chk, items):
    for f, k in items:
        {"r": rasters, "s": script, "e": event, "b": bearings}[f](chk, k)


def run(chk):
    import wind                                             # noqa: F401
    import ProcessMultipliers.processMultipliers            # noqa: F401
    items = ([("r", k) for k in range(chk.n(48, 700))] + [("s", k) for k in range(chk.n(12, 100))]
             + [("e", k) for k in range(chk.n(12, 100))] + [("b", k) for k in range(4)])
    chk.pmap(group, [items[a::16] for a in range(16)])
