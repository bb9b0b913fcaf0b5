"""C13: annual maxima hold every event of each simulated year, and only those."""
import os

import numpy as np

from harness import core, haz


def make():
    return core.Check("C13", "one evaluation per (year, cell) of an aggregated stack compared with the events written",
                      ["every wind file covers the same grid"])


def shuffled(rng):
    """Make directory listings come back in another order on every call."""
    real_list, real_scan = os.listdir, os.scandir

    def listdir(*a):
        r = real_list(*a)
        rng.shuffle(r)
        return r

    class Scan:
        def __init__(self, *a):
            with real_scan(*a) as it:
                self.e = list(it)
            rng.shuffle(self.e)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def __iter__(self):
            return iter(self.e)

        def __next__(self):
            if not self.e:
                raise StopIteration
            return self.e.pop()

        def close(self):
            pass
    os.listdir, os.scandir = listdir, lambda *a: Scan(*a)
    return real_list, real_scan


def scenario(chk, k):
    import hazard
    rng = chk.rng("agg", k)
    nx, ny = (int(v) for v in rng.integers(1, 9, 2))
    lon, lat = haz.axes(float(rng.integers(-170, 340)), nx, float(rng.integers(-40, 40)), ny, 0.5, descending=bool(rng.integers(2)))
    nyears = int(rng.choice([1, 2, 7, 11, 30, 120]))
    big = k % 32 == 3
    if big:
        nyears, nx, ny = 100003, 1, 2
        lon, lat = haz.axes(100.0, nx, -20.0, ny, 0.5)
    ev = {}
    for y in ([0, 1, 10, 99, 9999, 10000, 99999, 100000, 100001, 100002] if big else range(nyears)):
        for e in range(int(rng.choice([0, 0, 1, 2, 5, 13]))):
            # one distinct value per event and cell, most of them not the maximum
            ev[(e if rng.random() < 0.9 else 990 + 11 * e, y)] = (rng.uniform(0, 90, (ny, nx)) * (rng.random((ny, nx)) > 0.3)).astype("f4")
    ev[(0, 0)] = rng.uniform(0, 90, (ny, nx)).astype("f4")
    stray = {}
    for y in (nyears, nyears + 1, 100001 + nyears, 10 * nyears + 100000):    # beyond the simulated years
        if rng.random() < 0.6:
            stray[(int(rng.integers(4)), int(y))] = rng.uniform(100, 190, (ny, nx)).astype("f4")
    root = os.path.join(chk.scratch("w"), str(rng.choice(["wind", "out [1]", "5% {0} *"])))
    os.mkdir(root)
    allev = {**ev, **stray}
    names = list(allev)
    rng.shuffle(names)
    for key in names:
        haz.write_gust(os.path.join(root, haz.gust_name(*key)), lon, lat, allev[tuple(key)])
    want = haz.annual_max(ev, nyears, (ny, nx))
    back = shuffled(np.random.default_rng(int(rng.integers(1 << 30))))
    rep = {"case": k, "years": nyears, "events": sorted([int(a), int(b)] for a, b in allev), "columns": nx, "rows": ny}
    try:
        ok, ax = chk.call(hazard.setDomain, root, _kind="failed", _what="domain of case %d" % k, _replay=rep)
        if ok:
            chk.close(ax[0], lon, "axes", "case %d: longitudes" % k, rep, rtol=0, atol=1e-9)
            chk.close(ax[1], lat, "axes", "case %d: latitudes" % k, rep, rtol=0, atol=1e-9)
        for t in range(1 if big else chk.n(4, 8)):
            x1, y1 = int(rng.integers(nx)), int(rng.integers(ny))
            x2, y2 = int(rng.integers(x1 + 1, nx + 1)), int(rng.integers(y1 + 1, ny + 1))
            if t == 0:
                x1, x2, y1, y2 = 0, nx, 0, ny
            w = (x1, x2, y1, y2)
            r = dict(rep, window=w)
            ok, got = chk.call(hazard.aggregateWindFields, root, nyears, w, _kind="failed", _what="case %d window %s" % (k, w), _replay=r)
            if ok:
                ref = want[:, y1:y2, x1:x2]
                got = np.asarray(got, dtype=float)
                if chk.expect(got.shape == ref.shape, "shape", "case %d: stack %s for %s" % (k, got.shape, ref.shape), r):
                    bad = np.argwhere(got != ref)
                    chk.expect(len(bad) == 0, "annual-maximum", lambda: "case %d: year %d cell %s holds %r, the events of that year give %r" % (
                        k, bad[0][0], bad[0][1:].tolist(), got[tuple(bad[0])], float(ref[tuple(bad[0])])), r)
                    chk.evaluated(("max", k, w), {"years": nyears, "window": w, "files": len(allev)}, k=ref.size)
            if big:
                continue
            ok, got = chk.call(hazard.loadFilesFromPath, root, w, _kind="failed", _what="case %d window %s" % (k, w), _replay=r)
            if ok:
                ref = np.sort(np.array([f[y1:y2, x1:x2] for f in allev.values()]), axis=0)
                got = np.sort(np.asarray(got, dtype=float), axis=0)
                if chk.expect(got.shape == ref.shape, "shape", "case %d: records %s for %s" % (k, got.shape, ref.shape), r):
                    chk.expect(np.array_equal(got, ref), "records", "case %d: the records of window %s are not those of the files" % (k, w), r)
                    chk.evaluated(("all", k, w), {"files": len(allev), "window": w}, k=ref.size)
    finally:
        os.listdir, os.scandir = back
    chk.count("directories")


def run(chk):
    import hazard                                                # noqa: F401
    chk.pmap(scenario, range(chk.n(32, 320)))
