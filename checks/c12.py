"""C12: the hazard map is the per-cell calculation, whatever the tiling or schedule."""
import numpy as np

from harness import core, fakempi, haz, trackgen

# (columns, rows) of the region, around multiples of the tile size
SIZES = [(1, 1), (100, 2), (101, 2), (2, 101), (2, 199), (201, 1), (1, 305), (99, 3), (3, 100), (7, 5), (102, 101), (402, 1), (1, 101)]
ORIGINS = [(113.0, -24.0), (16.15, -3.0), (-65.1, 16.15), (179.0, -20.05), (-0.4, -0.2), (32.3, 8.05)]
PLAN = [(1, "eager"), (2, "eager"), (2, "rendezvous"), (3, "rendezvous"), (4, "eager"), (5, "rendezvous"), (6, "eager"), (9, "rendezvous")]


def make():
    return core.Check("C12", "one evaluation per grid cell of a finished hazard map compared with its own fit",
                      ["every wind file covers the same grid", "messages between one pair of processes keep their order"])


def near(got, want, rtol, atol):
    return np.abs(got - want) <= atol + rtol * np.abs(want)


def judge(chk, root, c, what, rep):
    try:
        h = haz.read(root)
    except Exception as err:
        chk.violate("no-output", "%s: the hazard file cannot be read: %r" % (what, err), rep)
        return None
    ok = chk.close(h["lon"], c["lon"], "axes", "%s: longitudes" % what, rep, rtol=0, atol=1e-6)
    ok = chk.close(h["lat"], c["lat"], "axes", "%s: latitudes" % what, rep, rtol=1e-6, atol=1e-5) and ok
    ok = chk.close(h["ari"], c["years"], "axes", "%s: return periods" % what, rep) and ok
    if not ok:
        return None
    for name, tol in (("loc", (3e-4, 2e-3)), ("scale", (1e-3, 2e-3)), ("shp", (1e-3, 3e-5)), ("wspd", (3e-4, 2e-3))):
        want = c[name]
        good = near(h[name], want, *tol) | (c["calm"] & ((h[name] == 0) | (h[name] == haz.NODATA))) | c["edge"]
        if not good.all():
            k = np.argwhere(~good)[0]
            j, i = k[-2:]
            chk.violate("cell-value", "%s: %s at row %d column %d of %s (lon %g lat %g) is %r, its own records give %r; %d cells differ" % (
                what, name, j, i, want.shape[-2:], c["lon"][i], c["lat"][j], h[name][tuple(k)], want[tuple(k)], int((~good).sum())),
                dict(rep, field=name, row=int(j), column=int(i), got=float(h[name][tuple(k)]), want=float(want[tuple(k)]),
                     records=c["data"][:, j, i].tolist()))
    fitted = int((c["wspd"][-1] > 0).sum())
    chk.count("cells_with_return_levels", fitted)
    chk.evaluated((what,), dict(rep, cells=int(c["loc"].size), fitted=fitted), k=int(c["loc"].size))
    return h


def scenario(chk, k):
    import hazard
    rng = chk.rng("map", k)
    nx, ny = SIZES[k % len(SIZES)]
    res = [0.05, 0.1, 0.25, 0.02, 0.025, 0.005, 0.125][k % 7]
    x0, y0 = ORIGINS[int(rng.integers(len(ORIGINS)))]
    mx, my, px, py = (int(v) for v in rng.integers(0, 4, 4))
    lon, lat = haz.axes(x0 - mx * res, nx + mx + px, y0 - my * res, ny + my + py, res)
    limit = {"xMin": lon[mx], "xMax": lon[mx + nx - 1], "yMin": lat[::-1][my], "yMax": lat[::-1][my + ny - 1]}
    nyears = int(rng.choice([8, 12, 20]))
    years = [[2, 5, 10, 25, 50, 100, 500, 1000, 5000], [10.0], [1.5, 20, 200, 10000]][int(rng.integers(3))]
    minrec = int(rng.integers(3, 7))
    yps = int(rng.choice([1, 1, 2]))
    ev = haz.events(rng, nyears, len(lat), len(lon))
    ii, jj = haz.window(lon, lat, limit)
    assert len(ii) == nx and len(jj) == ny
    data = haz.annual_max(ev, nyears, (len(lat), len(lon)))[:, jj[0]:jj[-1] + 1, ii[0]:ii[-1] + 1]
    c = {"lon": lon[ii], "lat": lat[jj], "years": np.array(years, dtype="f4"), "data": data,
         "wspd": np.zeros((len(years), ny, nx)), "calm": data.max(axis=0) == 0, "edge": np.zeros((ny, nx), bool)}
    for name in ("loc", "scale", "shp"):
        c[name] = np.zeros((ny, nx))
    for j in range(ny):
        for i in range(nx):
            w, c["loc"][j, i], c["scale"][j, i], c["shp"][j, i], m = haz.gev(data[:, j, i], c["years"], minrec, yps)
            c["wspd"][:, j, i] = w
            c["edge"][j, i] = m < 2e-3
    root = chk.scratch("h")
    cfg = haz.write_run(root, lon, lat, ev, limit, nyears, years, minrec, yps, evolution=k % 3 == 1)
    runs = PLAN[:1] + [PLAN[int(i)] for i in 1 + rng.choice(len(PLAN) - 1, chk.n(3, 7), replace=False)]
    first = None
    for ranks, send in runs:
        mode = str(rng.choice(["serial", "parallel"]))
        what = "case %d, %dx%d cells on %d processes (%s, %s)" % (k, nx, ny, ranks, send, mode)
        rep = {"case": k, "columns": nx, "rows": ny, "resolution": res, "limit": limit, "processes": ranks, "send": send, "mode": mode,
               "years": nyears, "minimum_records": minrec, "years_per_simulation": yps}
        out = root + "/hazard/hazard.nc"
        import os
        if os.path.exists(out):
            os.unlink(out)
        r = fakempi.run_ranks(ranks, lambda rank: hazard.run(cfg), seed=int(rng.integers(1 << 30)), mode=mode, send=send)
        if trackgen.failed(chk, r, "run-failed", what, rep):
            continue
        h = judge(chk, root, c, what, rep)
        chk.count("runs")
        if h is None:
            continue
        if first is None:
            first = h
        else:
            for name in ("loc", "scale", "shp", "wspd"):
                chk.expect(np.array_equal(first[name], h[name]), "schedule", "%s: %s differs from the map of a single process" % (what, name), rep)


def run(chk):
    import hazard                                                # noqa: F401
    chk.pmap(scenario, range(chk.n(len(SIZES), 8 * len(SIZES))))
