"""C18: gridded files return the same values at the same coordinates."""
import contextlib
import gzip
import io
import os
from datetime import datetime, timedelta

import numpy as np

from harness import core


def make():
    return core.Check("C18", "one evaluation per grid written and read back",
                      ["ASCII grids have north at the top and equal spacing both ways", "coordinates are distinct"])


def axis(rng, n, lo, hi, even=True):
    step = float(rng.choice([0.02, 0.05, 0.1, 0.25, 1.0, 2.5]))
    a = round(rng.uniform(lo, hi), 3) + step * np.arange(n)
    return a if even else np.sort(rng.uniform(lo, hi, n)), step


def field(rng, shape, dtype, nodata):
    kind = np.dtype(dtype).kind
    if kind == "i":
        a = rng.integers(-9000, 9000, shape).astype(dtype)
    else:
        a = (rng.normal(0, 1, shape) * 10 ** rng.uniform(-6, 6)).astype(dtype)
        if rng.random() < 0.2:
            a = np.round(a)
    if rng.random() < 0.5 and a.size:
        a[rng.random(shape) < 0.2] = nodata
    if rng.random() < 0.1:
        a[...] = 0
    return a


def stale(rng, path):
    """Leave something behind at the output path."""
    from netCDF4 import Dataset
    k = int(rng.integers(4))
    if k == 0:
        with open(path, "wb") as f:
            f.write(b"old contents\n" * 500)
    elif k == 1:
        open(path, "w").close()
    elif k == 2:
        with Dataset(path, "w") as ds:
            ds.createDimension("old", 7)
            ds.createVariable("lat", "f8", ("old",))[:] = 5
            ds.createVariable("leftover", "f8", ("old",))[:] = 1
            ds.oldatt = "x"
    return k < 3


NAMES = ["lon", "lat", "ari", "time"]


def netcdf(chk, part):
    from Utilities import grid, nctools as nc
    rng = chk.rng("nc", part)
    root = chk.scratch("n")
    for k in range(chk.n(100, 400)):
        nd = int(rng.choice([1, 2, 2, 2, 3]))
        dtype = str(rng.choice(["f", "f8", "d", "i4", "i2"]))
        nodata = [-9999, -9999, -999, 1e20][int(rng.integers(4))]
        if np.dtype(dtype).kind == "i" and nodata > 1e9:
            nodata = -32000
        names = ["lat", "lon"] if nd == 2 else NAMES[:nd]
        if nd == 3:
            names = ["ari", "lat", "lon"]
        dims = {}
        for q, name in enumerate(names):
            n = int(rng.choice([1, 2, 3, 7, 20]))
            v, _ = axis(rng, n, -60, 300, even=bool(rng.random() < 0.7))
            if rng.random() < 0.4:
                v = v[::-1].copy()
            dims[q] = {"name": name, "values": v, "dtype": str(rng.choice(["f", "d"])), "atts": {"units": "u%d" % q}}
        shape = tuple(len(d["values"]) for d in dims.values())
        nvar = 1 if rng.random() < 0.6 else int(rng.integers(2, 4))
        vs = {}
        for q in range(nvar):
            vs[q] = {"name": "v%d" % q, "dims": tuple(names), "values": field(rng, shape, dtype, nodata), "dtype": dtype, "atts": {"long_name": "v%d" % q}}
            if np.dtype(dtype).kind == "f" and rng.random() < 0.2:
                vs[q]["least_significant_digit"] = int(rng.integers(1, 6))
                vs[q]["values"] = np.where(vs[q]["values"] == nodata, nodata, rng.uniform(-200, 200, shape)).astype(dtype)
        opts = {"nodata": nodata}
        if rng.random() < 0.3:
            opts["zlib"] = bool(rng.integers(2))
            opts["complevel"] = int(rng.integers(1, 10))
        if rng.random() < 0.3:
            opts["datatitle"] = "title %d" % k
        if rng.random() < 0.3:
            opts["gatts"] = {"source": "test %d" % k}
        late = bool(rng.random() < 0.2)
        if late:
            opts["keepfileopen"] = True
            opts["writedata"] = False
        path = os.path.join(root, "g%d.nc" % k)
        old = stale(rng, path)
        keep = {q: v["values"].copy() for q, v in vs.items()}
        for q, v in vs.items():                       # cells masked by the caller are missing whatever lies under the mask
            if "least_significant_digit" not in v and rng.random() < 0.3:
                hide = rng.random(shape) < 0.4
                v["values"] = np.ma.array(np.where(hide, field(rng, shape, dtype, nodata), v["values"]).astype(dtype), mask=hide | (v["values"] == np.dtype(dtype).type(nodata)))
                keep[q] = np.where(np.ma.getmaskarray(v["values"]), np.dtype(dtype).type(nodata), keep[q]).astype(dtype)
        rep = {"case": [part, k], "shape": shape, "dtype": dtype, "nodata": nodata, "overwriting": old, "options": str(opts), "names": names}
        what = "netCDF %s %s" % (shape, dtype)
        ok, ds = chk.call(nc.ncSaveGrid, path, dims, vs, _kind="save-failed", _what=what, _replay=rep, **opts)
        if not ok:
            continue
        if late:                                      # the caller writes, through the open file
            for q, v in vs.items():
                ds.variables[v["name"]][:] = v["values"]
            ds.close()
        chk.expect(all(np.array_equal(keep[q], np.ma.filled(vs[q]["values"], np.dtype(dtype).type(nodata))) for q in vs), "input-changed", what + ": the data passed in changed", rep)
        ok, ds = chk.call(nc.ncLoadFile, path, _kind="load-failed", _what=what, _replay=rep)
        if not ok:
            continue
        want_vars = set(names) | {v["name"] for v in vs.values()}
        chk.expect(set(ds.variables) == want_vars, "leftovers", "%s: variables %s, wrote %s" % (what, sorted(ds.variables), sorted(want_vars)), rep)
        chk.expect("oldatt" not in ds.ncattrs(), "leftovers", "%s: attributes of the previous file remain" % what, rep)
        if "datatitle" in opts:
            chk.expect(getattr(ds, "title", None) == opts["datatitle"], "attributes", "%s: title" % what, rep)
        for d in dims.values():
            ok, v = chk.call(nc.ncGetDims, ds, d["name"], _kind="load-failed", _what=what, _replay=rep)
            if ok:
                chk.expect(np.array_equal(v, np.asarray(d["values"], dtype=d["dtype"]).astype(float)), "coordinates",
                           "%s: %s read as %s" % (what, d["name"], v[:5]), rep)
                chk.expect(ds.variables[d["name"]].units == d["atts"]["units"], "attributes", "%s: units of %s" % (what, d["name"]), rep)
        for q, v in vs.items():
            ok, g = chk.call(nc.ncGetData, ds, v["name"], _kind="load-failed", _what=what, _replay=rep)
            if not ok:
                continue
            ref = keep[q].astype(dtype)
            lsd = v.get("least_significant_digit")
            if lsd is None:
                good = np.array_equal(g, ref)
            else:
                good = g.shape == ref.shape and np.array_equal(g == nodata, ref == nodata) and (np.abs(g.astype(float) - ref) <= 10.0 ** -lsd + 1e-4 * (dtype == "f")).all()
            chk.expect(good, "values", lambda: "%s: %s differs from what was saved" % (what, v["name"]), dict(rep, variable=q, wrote=ref.ravel()[:40].tolist(), read=np.asarray(g, float).ravel()[:40].tolist()))
            m = nc.ncGetVar(ds, v["name"])[:]
            if lsd is None:
                chk.expect(np.array_equal(np.ma.getmaskarray(m), ref == np.dtype(dtype).type(nodata)), "missing", "%s: missing cells of %s" % (what, v["name"]), rep)
        ds.close()
        chk.evaluated(("nc", part, k), rep)
        if nd == 2 and nvar == 1:
            ok, got = chk.call(grid.grdRead, path, _kind="load-failed", _what=what, _replay=rep)
            ok2, got2 = chk.call(grid.grdReadFromNetcdf, path, _kind="load-failed", _what=what, _replay=rep)
            lsd = vs[0].get("least_significant_digit")
            for g in ([got] if ok else []) + ([got2] if ok2 else []):
                lo, la, z = (np.ma.getdata(a) if np.ma.isMaskedArray(a) else a for a in g)
                chk.expect(np.array_equal(np.asarray(lo, float), dims[1]["values"].astype(dims[1]["dtype"]).astype(float))
                           and np.array_equal(np.asarray(la, float), dims[0]["values"].astype(dims[0]["dtype"]).astype(float)), "coordinates", what + ": read as a grid", rep)
                if lsd is None:
                    chk.expect(np.array_equal(np.asarray(z, float), keep[0].astype(dtype).astype(float)), "values", what + ": read as a grid", rep)
                chk.count("grids_read")


def times(chk, k):
    from netCDF4 import date2num
    from Utilities import nctools as nc
    rng = chk.rng("time", k)
    path = os.path.join(chk.scratch("t"), "t.nc")
    units = ["hours since 1900-01-01 00:00", "days since 1948-01-01", "minutes since 2000-01-01 06:00"][int(rng.integers(3))]
    dates = [datetime(1999, 12, 31, 18) + timedelta(hours=6 * i) for i in range(int(rng.integers(1, 30)))]
    num = date2num(dates, units, "standard")
    ds = nc.ncSaveGrid(path, {0: {"name": "time", "values": num, "dtype": "d", "atts": dict({"units": units}, **({"calendar": "standard"} if k % 2 else {}))}},
                       {0: {"name": "v", "dims": ("time",), "values": np.arange(len(dates), dtype=float), "dtype": "d", "atts": {}}}, keepfileopen=True)
    ok, got = chk.call(nc.ncGetTimes, ds, _kind="load-failed", _what="times")
    ds.close()
    if ok:
        chk.expect([d.replace(microsecond=0) if d.microsecond < 500000 else d for d in got] == dates and all(isinstance(d, datetime) for d in got), "times",
                   "times %s read as %s" % (dates[:3], list(got[:3])), {"units": units})
        chk.evaluated(("time", k), {"units": units, "n": len(dates)})


def created(chk, k):
    """Variables created one at a time, with and without data."""
    from netCDF4 import Dataset
    from Utilities import nctools as nc
    rng = chk.rng("var", k)
    path = os.path.join(chk.scratch("v"), "v.nc")
    shape = tuple(int(v) for v in rng.choice([1, 2, 5], int(rng.integers(1, 3))))
    data = field(rng, shape, "f8", -9999)
    rep = {"shape": shape, "data": data.tolist()}
    with Dataset(path, "w") as ds:
        for q, n in enumerate(shape):
            nc.ncCreateDim(ds, "d%d" % q, np.arange(n) * 1.5, "f8", {"units": "m"} if k % 2 else None)
        names = tuple("d%d" % q for q in range(len(shape)))
        ok, _ = chk.call(nc.ncCreateVar, ds, "x", names, "f8", data=data, atts={"units": "K"}, _kind="save-failed", _what="variable %s" % (shape,), _replay=rep)
        ok2, v = chk.call(nc.ncCreateVar, ds, "y", names, "f4", _kind="save-failed", _what="empty variable", _replay=rep)
        if ok2:
            v[:] = data
    if ok and ok2:
        with Dataset(path) as ds:
            chk.expect(np.array_equal(np.ma.getdata(ds.variables["x"][:]), data), "values", "variable %s created with data" % (shape,), rep)
            chk.expect(np.array_equal(np.ma.getdata(ds.variables["y"][:]), data.astype("f4")), "values", "variable filled later", rep)
            chk.expect(np.array_equal(ds.variables["d0"][:], np.arange(shape[0]) * 1.5), "coordinates", "dimension", rep)
            chk.expect(ds.variables["x"].units == "K", "attributes", "units", rep)
        chk.evaluated(("var", k), {"shape": shape})


def ascii_grids(chk, part):
    from Utilities import grid
    rng = chk.rng("asc", part)
    root = chk.scratch("a")
    for k in range(chk.n(100, 400)):
        ny, nx = (int(v) for v in rng.choice([1, 2, 3, 8, 30], 2))
        lon, step = axis(rng, nx, -180, 350)
        lat = round(rng.uniform(-80, 60), 3) + step * np.arange(ny)
        if rng.random() < 0.3:
            lat = lat[::-1].copy()
        nodata = float(rng.choice([-9999, -9999, -1, 0])) if rng.random() < 0.5 else -9999
        z = field(rng, (ny, nx), "f8", nodata)
        delim = [None, " ", ",", ";", "\t"][int(rng.integers(5))]
        path = os.path.join(root, "a%d.txt" % k)
        old = rng.random() < 0.5
        if old:
            with open(path, "w") as f:
                f.write("stale\n" * 4000)
        opts = {"nodata": nodata}
        if delim:
            opts["delimiter"] = delim
        rep = {"case": [part, k], "shape": (ny, nx), "overwriting": bool(old), "options": str(opts), "values": z.ravel()[:60].tolist()}
        what = "ASCII grid %dx%d%s" % (ny, nx, " over an existing file" if old else "")
        keep = z.copy()
        ok, _ = chk.call(grid.grdSave, path, z, lon, lat, step, _kind="save-failed", _what=what, _replay=rep, **opts)
        if not ok:
            continue
        chk.expect(np.array_equal(z, keep), "input-changed", what + ": the data passed in changed", rep)
        ok, got = chk.call(grid.grdRead, path, *([delim] if delim not in (None, " ") else []), _kind="load-failed", _what=what, _replay=rep)
        if ok:
            chk.close(got[0], np.sort(lon), "coordinates", what + ": longitudes", rep, rtol=1e-12, atol=1e-9)
            chk.close(got[1], np.sort(lat)[::-1], "coordinates", what + ": latitudes", rep, rtol=1e-12, atol=1e-9)
            hole = np.array([[float("%.10e" % v) == nodata for v in row] for row in keep])
            if chk.expect(got[2].shape == keep.shape, "values", "%s: read as %s" % (what, got[2].shape), rep):
                chk.expect(np.array_equal(np.isnan(got[2]), hole), "missing", what + ": missing cells", rep)
                a, b = got[2][~hole], keep[~hole]
                chk.expect((np.abs(a - b) <= 1e-10 * np.abs(b)).all() if b.size else True, "values", what + ": values", dict(rep, read=got[2].ravel()[:60].tolist()))
            chk.evaluated(("asc", part, k), rep)
        if k % 5 == 0:                                # over an existing compressed file
            gz = os.path.join(root, "a%d.txt.gz" % k)
            open(gz, "w").close()
            ok, _ = chk.call(grid.grdSave, gz, z, lon, lat, step, _kind="save-failed", _what=what + ", compressed", _replay=rep, **opts)
            if ok:
                chk.expect(gzip.open(gz, "rt").read() == open(path).read(), "compressed", what + ": compressed file holds other text", rep)
                chk.count("compressed")


def exported(chk, part):
    """netCDF grids turned into text grids by the conversion program."""
    from netCDF4 import Dataset
    from Utilities import nc2txt
    rng = chk.rng("txt", part)
    root = chk.scratch("t")
    for k in range(chk.n(12, 60)):
        ny, nx = int(rng.choice([1, 2, 3, 8, 20])), int(rng.choice([2, 3, 8, 20]))
        lon, step = axis(rng, nx, -180, 350)
        lat = round(rng.uniform(-80, 60), 3) + step * np.arange(ny)
        if rng.random() < 0.5:
            lat = lat[::-1].copy()
        years = np.sort(rng.choice([1, 2, 5, 10, 50, 100, 250, 1000], int(rng.integers(1, 5)), replace=False)).astype(float) if rng.random() < 0.5 else None
        shape = (ny, nx) if years is None else (len(years), ny, nx)
        nodata = float(rng.choice([-9999, -9999, -1, 999]))
        z = np.round(rng.uniform(1, 99, shape), 2)
        hole = rng.random(shape) < float(rng.choice([0, 0.1, 0.5]))
        z[hole] = nodata
        path = os.path.join(root, "%s%d.nc" % (rng.choice(["g", "h.v1."]), k))
        with Dataset(path, "w") as ds:
            for n, v in [("lat", lat), ("lon", lon)] + ([] if years is None else [("ari", years)]):
                ds.createDimension(n, len(v))
                ds.createVariable(n, "f8", (n,))[:] = v
            ds.createVariable("wspd", rng.choice(["f4", "f8"]), (() if years is None else ("ari",)) + ("lat", "lon"), fill_value=nodata if rng.random() < 0.7 else None)[:] = z
        argv = ["-f", path, "-v", "wspd"] + ([] if years is None else ["-r", "ari"]) + (["-m", "%g" % nodata] if nodata != -9999 or rng.random() < 0.5 else [])
        rep = {"case": [part, k], "shape": shape, "north first": bool(ny > 1 and lat[0] > lat[-1]), "arguments": argv[2:]}
        what = "text of a netCDF grid %s" % (shape,)
        with contextlib.redirect_stdout(io.StringIO()):
            ok, _ = chk.call(nc2txt.process, argv, _kind="export-failed", _what=what, _replay=rep)
        if not ok:
            continue
        north = slice(None) if ny == 1 or lat[0] > lat[-1] else slice(None, None, -1)
        for i in range(1 if years is None else len(years)):
            name = os.path.splitext(path)[0] + (".txt" if years is None else ".%r.txt" % float(years[i]))
            if not chk.expect(os.path.exists(name), "export-failed", what + ": no " + os.path.basename(name), rep):
                continue
            with open(name) as f:
                lines = f.read().split("\n")
            head = dict(l.split() for l in lines[:6])
            got = np.array([[float(v) for v in l.split()] for l in lines[6:] if l.strip()])
            want = (z if years is None else z[i])[north]
            chk.expect((int(head["ncols"]), int(head["nrows"])) == (nx, ny) and abs(float(head["cellsize"]) - step) < 1e-6
                       and abs(float(head["xllcorner"]) - (lon.min() - step / 2)) < 1e-6 and abs(float(head["yllcorner"]) - (lat.min() - step / 2)) < 1e-6,
                       "coordinates", lambda: "%s: header %r, grid starts at %g %g, spacing %g" % (what, head, lon.min(), lat.min(), step), rep)
            gone = (hole if years is None else hole[i])[north]
            chk.expect(got.shape == want.shape and (np.abs(got - want) <= 0.0051).all() and (got[gone] == float(head["NODATA_value"])).all(), "values",
                       lambda: what + ": other values, or values elsewhere", dict(rep, read=got.ravel()[:40].tolist(), stored=want.ravel()[:40].tolist()))
            chk.evaluated(("txt", part, k, i), rep)


def run(chk):
    from Utilities import grid, nc2txt, nctools                          # noqa: F401
    chk.pmap(lambda c, it: it[0](c, it[1]), [(netcdf, p) for p in range(chk.n(10, 40))] + [(ascii_grids, p) for p in range(chk.n(8, 30))]
             + [(exported, p) for p in range(chk.n(4, 20))] + [(times, k) for k in range(chk.n(8, 60))] + [(created, k) for k in range(chk.n(10, 80))])
