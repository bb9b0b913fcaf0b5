"""C16: hazard confidence bounds come from disjoint resamples of the cell's own records."""
import itertools

import numpy as np

from harness import core, fakempi, haz, trackgen

# records, sample size: few enough that every way of dealing the records out can be listed
DEALS = [(10, 5), (8, 4), (9, 3), (7, 7), (8, 7), (6, 3), (9, 4), (7, 3), (5, 6), (3, 4), (12, 6)]


def make():
    return core.Check("C16", "one evaluation per cell whose bounds are looked up among all possible resamplings",
                      ["which resampling is drawn is free; the records of a cell are not"])


def groupings(items, size, count):
    """All ways of choosing `count` disjoint groups of `size` out of items (order of groups ignored)."""
    if count == 0:
        yield ()
        return
    for lead in range(len(items)):
        rest = items[lead + 1:]
        for c in itertools.combinations(rest, size - 1):
            left = tuple(x for x in rest if x not in c)
            for g in groupings(left, size, count - 1):
                yield ((items[lead],) + c,) + g


DEALT = {}


def deal(n, size):
    if (n, size) not in DEALT:
        DEALT[(n, size)] = list(groupings(tuple(range(n)), size, n // size))
    return DEALT[(n, size)]


def candidates(x, size, years, minrec, yps, prange):
    """Every possible (lower, upper) pair of curves, or None when a fit is on the edge of being accepted."""
    fits = {}
    for g in set(itertools.chain.from_iterable(deal(len(x), size))):
        w, _, _, _, margin = haz.gev(x[list(g)], years, minrec / 10.0, yps)
        if margin < 2e-4:
            return None
        fits[g] = w
    lo, hi = (100 - prange) / 2.0, 100 - (100 - prange) / 2.0
    out = []
    for gs in deal(len(x), size):
        w = np.array([fits[g] for g in gs]).reshape(len(gs), len(years))
        pair = np.full((2, len(years)), haz.NODATA)
        for n in range(len(years)):
            v = w[:, n][w[:, n] != haz.NODATA]
            if len(v):
                pair[:, n] = np.percentile(v, lo), np.percentile(v, hi)
        out.append(pair)
    return np.array(out)


def records(rng, n):
    k = int(rng.integers(7))
    if k == 0:
        return np.zeros(n, dtype="f4")
    if k == 1:                                       # a handful of records, most samples cannot be fitted
        x = np.zeros(n)
        x[:2] = rng.uniform(20, 60, 2)
    elif k == 2:
        x = np.full(n, 33.0)
    elif k == 3:
        x = 12 * rng.pareto(1.5, n) + 1
    else:
        x = rng.uniform(20, 50) * rng.weibull(rng.uniform(2, 7), n)
        if k == 4:                                   # years without a storm
            x[:int(rng.integers(1, max(2, n // 3)))] = 0.0
    rng.shuffle(x)
    return x.astype("f4")


def judge(chk, x, up, lo, size, years, minrec, yps, prange, what, rep):
    rep = dict(rep, records=x.tolist(), lower=lo.tolist(), upper=up.tolist())
    if not chk.expect(np.isfinite(up).all() and np.isfinite(lo).all(), "not-finite", "%s: bounds %s to %s" % (what, lo, up), rep):
        return
    miss = (up == haz.NODATA, lo == haz.NODATA)
    chk.expect((miss[0] == miss[1]).all(), "partial", "%s: only one of the bounds is missing: %s to %s" % (what, lo, up), rep)
    have = ~miss[0] & ~miss[1]
    chk.expect((lo[have] <= up[have] + 1e-4).all(), "crossed", "%s: lower %s above upper %s" % (what, lo, up), rep)
    chk.expect((np.diff(up[have]) >= -1e-3).all() and (np.diff(lo[have]) >= -1e-3).all(), "decreasing",
               "%s: bounds fall with return period: %s to %s" % (what, lo, up), rep)
    if x.max() <= 0 or len(x) < size:
        chk.expect((up == haz.NODATA).all() and (lo == haz.NODATA).all(), "no-data", "%s: bounds %s to %s without data" % (what, lo, up), rep)
        chk.count("without_data")
        chk.evaluated((what,))
        return
    cand = candidates(x.astype(float), size, years.astype(float), minrec, yps, prange)
    if cand is None:
        chk.count("on_boundary")
        return
    d = np.abs(cand - np.array([lo, up])[None]) / (1e-2 + 1e-4 * np.abs(cand))
    best = d.max(axis=(1, 2)).argmin()
    chk.expect(d[best].max() <= 1.0, "not-a-resample", lambda: "%s: bounds %s to %s; the closest of %d resamplings of these records has %s to %s" % (
        what, lo, up, len(cand), cand[best][0], cand[best][1]), rep)
    chk.count("with_bounds" if have.any() else "unfitted")
    chk.evaluated((what,), {"records": len(x), "sample": size, "lower": lo.tolist(), "upper": up.tolist()})


def setting(rng):
    n, size = DEALS[int(rng.integers(len(DEALS)))]
    years = np.array([[2, 10, 100, 1000], [5], [1, 20, 500]][int(rng.integers(3))], dtype="f4")
    return n, size, years, int(rng.choice([10, 30, 50])), int(rng.choice([1, 1, 2])), int(rng.choice([90, 90, 50, 100, 95]))


def direct(chk, k):
    import hazard
    rng = chk.rng("direct", k)
    n, size, years, minrec, yps, prange = setting(rng)
    ny, nx = 2, 3
    vr = np.stack([np.stack([records(rng, n) for i in range(nx)], 1) for j in range(ny)], 1)
    rep = {"records_per_cell": n, "sample_size": size, "return_periods": years.tolist(), "minimum_records": minrec,
           "years_per_simulation": yps, "range": prange}
    ok, got = chk.call(hazard.calculateCI, vr.copy(), years, haz.NODATA, minrec, yps, size, prange, _kind="failed", _what="%d records in samples of %d" % (n, size), _replay=rep)
    if not ok:
        return
    for j in range(ny):
        for i in range(nx):
            judge(chk, vr[:, j, i], np.asarray(got[0], float)[:, j, i], np.asarray(got[1], float)[:, j, i], size, years, minrec, yps, prange,
                  "grid %d row %d column %d" % (k, j, i), rep)


def maps(chk, k):
    import hazard
    rng = chk.rng("map", k)
    n, size, years, minrec, yps, prange = setting(rng)
    minrec = 10
    nx, ny = [(4, 3), (101, 1), (1, 5)][k % 3]
    lon, lat = haz.axes(113.0, nx + 1, -24.0, ny + 1, 0.1)
    limit = {"xMin": lon[0], "xMax": lon[-2], "yMin": lat.min(), "yMax": lat.max() - 0.1}
    full = np.stack([np.stack([records(rng, n) for i in range(nx + 1)], 1) for j in range(ny + 1)], 1)
    ev = {(0, y): full[y] for y in range(n)}
    root = chk.scratch("ci")
    cfg = haz.write_run(root, lon, lat, ev, limit, n, years.tolist(), minrec, yps, ci=(size, prange), evolution=k % 2 == 1)
    ranks = int(rng.choice([1, 2, 4]))
    what = "map %d, %d processes" % (k, ranks)
    rep = {"records_per_cell": n, "sample_size": size, "columns": nx, "rows": ny, "processes": ranks, "range": prange}
    r = fakempi.run_ranks(ranks, lambda rank: hazard.run(cfg), seed=int(rng.integers(1 << 30)))
    if trackgen.failed(chk, r, "run-failed", what, rep):
        return
    h = haz.read(root)
    # the region leaves out the last column and the first (northern) row
    for j in range(ny):
        for i in range(0, nx, 1 if nx < 10 else 5):
            judge(chk, full[:, j + 1, i], h["wspdupper"][:, j, i], h["wspdlower"][:, j, i], size, years, minrec, yps, prange,
                  "%s row %d column %d" % (what, j, i), rep)
    chk.count("maps")


def many(chk, k):
    """Many samples: the widest range has to show the one sample holding the weakest year."""
    import hazard
    rng = chk.rng("many", k)
    size = int(rng.integers(8, 13))
    n = size * int(rng.integers(15, 60))
    years = np.array([1.03, 2.0], dtype="f4")
    ny, nx = 4, 5
    vr = rng.uniform(29.5, 30.5, (n, ny, nx)).astype("f4")
    pos = rng.integers(0, n, (ny, nx))
    for j in range(ny):
        for i in range(nx):
            vr[pos[j, i], j, i] = 1.0
    rep = {"records_per_cell": n, "sample_size": size}
    with_, without = [], []
    for _ in range(60):
        x = rng.uniform(29.5, 30.5, size)
        without.append(haz.gev(x, years, 1, 1)[0][0])
        x[0] = 1.0
        with_.append(haz.gev(x, years, 1, 1)[0][0])
    without = [w for w in without if w != haz.NODATA]
    if not without or haz.NODATA in with_ or max(with_) > min(without) - 3:
        chk.count("not_separated")
        return
    level = 0.5 * (max(with_) + min(without))
    ok, got = chk.call(hazard.calculateCI, vr.copy(), years, haz.NODATA, 10, 1, size, 100, _kind="failed", _what="%d records in samples of %d" % (n, size), _replay=rep)
    if not ok:
        return
    lo = np.asarray(got[1], float)[0]
    chk.expect((lo < level).all(), "sample-ignored", lambda: "%d samples of %d records: %d of %d cells have a lower bound above %.3g although one sample holds a year with 1 m/s" % (
        n // size, size, int((lo >= level).sum()), lo.size, level), rep)
    chk.evaluated(("many", k), k=lo.size)
    chk.count("many_samples")


def fair(chk, k):
    """One record is left out of each division: over many divisions it is each of them equally often."""
    import random

    import hazard
    from scipy.stats import chisquare
    rng = chk.rng("fair", k)
    n, size = 8, 7
    years = np.array([5, 20], dtype="f4")
    while True:
        x = np.sort(rng.uniform(20, 50) * rng.weibull(4.0, n)).astype("f4")
        cand = candidates(x.astype(float), size, years.astype(float), 10, 1, 90)
        if cand is not None and (cand != haz.NODATA).all():
            flat = cand[:, 0, :]
            if min(np.abs(flat[a] - flat[b]).max() for a in range(n) for b in range(a)) > 0.02:
                break
    random.seed(int(rng.integers(1 << 30)))
    np.random.seed(int(rng.integers(1 << 30)))
    left = np.zeros(n, int)
    for _ in range(chk.n(240, 800)):
        ok, got = chk.call(hazard.calculateCI, x.reshape(n, 1, 1).copy(), years, haz.NODATA, 10, 1, size, 90, _kind="failed", _what="one cell", _replay={"records": x.tolist()})
        if not ok:
            return
        left[np.abs(flat - np.asarray(got[1], float)[:, 0, 0]).max(axis=1).argmin()] += 1
    p = chisquare(left).pvalue
    chk.expect(p > 1e-9, "favoured-records", "records %s: how often each possible division was drawn is %s (p = %.2g)" % (x.tolist(), left.tolist(), p), {"records": x.tolist(), "drawn": left.tolist()})
    chk.evaluated(("fair", k), {"records": x.tolist(), "drawn": left.tolist()})
    chk.count("fairness")


def run(chk):
    import hazard                                                # noqa: F401
    for d in DEALS:
        deal(*d)
    chk.pmap(lambda c, it: it[0](c, it[1]), [(direct, p) for p in range(chk.n(60, 900))] + [(maps, p) for p in range(chk.n(8, 60))]
             + [(many, p) for p in range(chk.n(4, 20))] + [(fair, p) for p in range(chk.n(2, 8))])
