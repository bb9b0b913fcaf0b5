"""C15: peaks-over-threshold, power-law and empirical return levels."""
import numpy as np

from harness import core, fakempi, haz, trackgen

NPYR = 365.25


def make():
    return core.Check("C15", "one evaluation per fitted set of event winds, or per converted return level",
                      ["fewer events than days in the simulation", "winds are finite and not negative"])


def winds(rng, k):
    numsim = int(rng.choice([1, 2, 5, 10, 40, 200]))
    n = int(min(numsim * rng.choice([3, 20, 100]), 0.9 * numsim * NPYR, 4000))
    n = max(n, 12)
    kind = ["weibull", "uniform", "capped", "heavy", "normal", "zeros", "rounded"][k % 7]
    if kind == "weibull":
        x = 28 * rng.weibull(rng.uniform(1.2, 5), n)
    elif kind == "uniform":
        x = rng.uniform(0, 70, n)
    elif kind == "capped":
        x = 65 * rng.beta(2, 2, n)
    elif kind == "heavy":
        x = 8 * rng.pareto(rng.uniform(1, 4), n)
    elif kind == "normal":
        x = np.maximum(0, rng.normal(30, 8, n))
    elif kind == "zeros":
        x = 35 * rng.weibull(2.5, n) * (rng.random(n) > 0.6)
    else:
        x = np.round(rng.gamma(3, 9, n))
    if x.max() <= 0:
        x[0] = 20.0
    return kind, numsim, x


def periods(rng):
    return np.sort(rng.choice([1.0, 2, 5, 10, 20, 25, 50, 100, 200, 500, 1000, 2000, 5000, 10000], int(rng.integers(1, 10)), replace=False))


def nll(x, mu, shape, scale):
    if scale <= 0:
        return np.inf
    z = (x - mu) / scale
    if abs(shape) < 1e-9:
        return len(x) * np.log(scale) + z.sum()
    t = 1 + shape * z
    if (t <= 0).any():
        return np.inf
    return len(x) * np.log(scale) + (1 + 1 / shape) * np.log(t).sum()


def gpd(chk, rng, k, part):
    from hazard import GPD
    from scipy.stats import genpareto
    kind, numsim, x = winds(rng, k)
    years = periods(rng)
    if rng.random() < 0.5:
        x, years = x.astype("f4"), years.astype("f4")
    x = np.sort(x)
    minrec = int(rng.choice([5, 10, len(x), len(x) + 1, 50]))
    thr = float(rng.choice([99.5, 99.5, 95, 90, 80]))
    rep = {"kind": kind, "events": len(x), "simulations": numsim, "return_periods": years.tolist(), "minimum_records": minrec, "threshold": thr,
           "data": x.tolist() if len(x) < 300 else x[-200:].tolist()}
    what = "%s winds, %d events in %d simulations" % (kind, len(x), numsim)
    for name, mod in (("GPD", GPD),):
        ok, got = chk.call(mod.gpdfit, x, years, numsim, haz.NODATA, minrec, thr, _kind="gpd-failed", _what=what, _replay=rep)
        if not ok:
            continue
        w, loc, scale, shape = np.asarray(got[0], dtype=float), *map(float, got[1:4])
        rep["got"] = [w.tolist(), loc, scale, shape]
        chk.evaluated(("gpd", part, k), {"kind": kind, "events": len(x), "levels": w.tolist()[:3]})
        if len(x) < minrec:
            chk.count("gpd_too_few")
            chk.expect((w == haz.NODATA).all() and [loc, scale, shape] == [haz.NODATA] * 3, "gpd-too-few",
                       "%s: only %d records of %d required, yet levels %s" % (what, len(x), minrec, w), rep)
            continue
        mu = np.percentile(x.astype(float), thr)
        over = x[x > mu].astype(float)
        if (w == haz.NODATA).all():
            chk.expect([loc, scale, shape] == [haz.NODATA] * 3, "gpd-partial", "%s: levels missing, parameters %s" % (what, (loc, scale, shape)), rep)
            # missing is right for a heavy tail or when nothing can be fitted
            if len(over) > 0:
                try:
                    s, _, c = genpareto.fit(over, floc=mu)
                except Exception:
                    s = 1.0
                chk.expect(s > -1e-3, "gpd-missing", "%s: an acceptable tail (shape %.4g) was left missing" % (what, s), rep)
            chk.count("gpd_missing")
            continue
        if not chk.expect(len(over) > 0 and np.isfinite(w).all() and np.isfinite([loc, scale, shape]).all(), "gpd-not-finite",
                          "%s: levels %s parameters %s" % (what, w, (loc, scale, shape)), rep):
            continue
        chk.expect(shape <= 0, "gpd-heavy", "%s: levels given for shape %g" % (what, shape), rep)
        chk.close(loc, mu, "gpd-threshold", "%s: threshold" % what, rep, rtol=1e-5, atol=1e-6)
        rate = len(over) / float(int(numsim * NPYR))
        if shape < 0:
            t = years.astype(float) * NPYR * rate
            # the reported parameters, in the precision they are reported with
            chk.close(w, mu + scale / shape * np.expm1(shape * np.log(t)), "gpd-levels", "%s: levels from the reported parameters" % what, rep,
                      rtol=1e-5, atol=1e-4)
        chk.expect((np.diff(w) >= -1e-9).all(), "gpd-decreasing", "%s: levels %s" % (what, w), rep)
        if len(over) >= 3:
            # the exponential tail is one of the candidates a fit has to beat
            one = nll(over, mu, 0.0, (over - mu).mean())
            mine = nll(over, mu, shape, scale)
            if np.isfinite(mine):
                chk.expect(mine <= one + 0.05 * len(over) + 0.5, "gpd-fit", "%s: likelihood %.6g, an exponential tail has %.6g" % (what, mine, one), rep)
        chk.count("gpd_fitted")


def convert(chk, rng, k, part):
    """Return level and return period are inverse of each other."""
    from hazard import GPD, evd
    shape = float(rng.choice([-1, 1])) * rng.uniform(0.02, 0.6)
    mu, scale, rate = rng.uniform(5, 60), rng.uniform(0.5, 15), 10 ** rng.uniform(-4, -1.3)
    npyr = float(rng.choice([365.25, 365.25, 1.0, 8766.0]))
    t = np.sort(10 ** rng.uniform(-0.3, 4, 12)) / (rate * npyr) * 1.001
    rep = {"threshold": mu, "shape": shape, "scale": scale, "rate": rate, "observations_per_year": npyr, "periods": t.tolist()}
    for name, fn in (("GPD", GPD.gpdReturnLevel), ("evd", evd.gpdReturnLevel)):
        ok, w = chk.call(fn, t, mu, shape, scale, rate, npyr, _kind="level-failed", _what=name, _replay=rep)
        if not ok:
            continue
        m = t * npyr * rate
        chk.close(w, mu + scale * np.expm1(shape * np.log(m)) / shape, "level-formula", "%s: return levels" % name, rep, rtol=1e-9, atol=1e-9)
        chk.expect((np.diff(w) > 0).all(), "level-order", "%s: return levels %s" % (name, w), rep)
        ok, back = chk.call(GPD.gpdRecurrenceIntervals, w, mu, shape, scale, rate, npyr, _kind="level-failed", _what="inverse", _replay=rep)
        if ok:
            # near the upper end of a bounded tail the inverse is ill-conditioned
            good = m ** shape > 1e-6
            chk.close(np.asarray(back)[good], t[good], "inverse", "%s: return periods of its own levels" % name, rep, rtol=1e-5)
    ok, one = chk.call(GPD.gpdReturnLevel, float(t[3]), mu, shape, scale, rate, npyr, _kind="level-failed", _what="scalar", _replay=rep)
    if ok:
        chk.close(one, mu + scale * np.expm1(shape * np.log(t[3] * npyr * rate)) / shape, "level-formula", "scalar return level", rep, rtol=1e-9)
    chk.evaluated(("inv", part, k), {"shape": shape, "periods": t.tolist()[:3]})


def empirical(chk, rng, k, part):
    from hazard import evd
    kind, numsim, x = winds(rng, k)
    nobs = n = int(NPYR * numsim)
    ari = 1.0 / (1.0 - np.arange(1, n + 1) / (nobs + 1.0)) / NPYR
    top = float(ari[-1])
    years = np.sort(np.concatenate([rng.uniform(ari[0], top, 5), ari[rng.integers(0, n, 3)], [1.0, float(numsim)]]))
    years = years[(years >= ari[0]) & (years <= top)]
    rep = {"kind": kind, "events": len(x), "simulations": numsim, "return_periods": years.tolist(), "data": x.tolist() if len(x) < 300 else None}
    what = "%s winds, %d events in %d simulations" % (kind, len(x), numsim)
    ok, got = chk.call(evd.empfit, x, years, numsim, _kind="emp-failed", _what=what, _replay=rep)
    if ok:
        full = np.concatenate([np.zeros(n - len(x)), np.sort(x.astype(float))])
        w = np.asarray(got[0], dtype=float)
        rep["got"] = w.tolist()
        chk.close(w, np.interp(years, ari, full), "emp-levels", "%s: empirical levels" % what, rep, rtol=1e-6, atol=1e-5)
        chk.expect((w >= 0).all() and (w <= x.max() * (1 + 1e-9)).all(), "emp-range", "%s: empirical levels %s leave the data" % (what, w), rep)
        chk.expect((np.diff(w) >= -1e-9).all(), "emp-decreasing", "%s: empirical levels %s" % (what, w), rep)
        perm = x.copy()
        rng.shuffle(perm)
        ok, again = chk.call(evd.empfit, perm, years, numsim, _kind="emp-failed", _what=what, _replay=rep)
        if ok:
            chk.close(again[0], w, "emp-order", "%s: records in another order" % what, rep, rtol=1e-12)
        chk.evaluated(("emp", part, k), {"kind": kind, "levels": w.tolist()[:3]})
    # more years than simulated cannot be answered empirically
    try:
        w = np.asarray(evd.empfit(x, np.array([2.0 * top]), numsim)[0])
        chk.expect((w == haz.NODATA).all() | np.isnan(w).all(), "emp-beyond", "%s: level %s for a period of %g years" % (what, w, 2 * top), rep)
    except ValueError:
        pass
    except Exception as err:
        chk.violate("emp-beyond", "%s: %r" % (what, err), rep)
    chk.count("emp_beyond")


def power(chk, rng, k, part):
    from hazard import evd
    kind, numsim, x = winds(rng, k)
    if len(x) < 20:
        return
    years = periods(rng)
    nobs = n = int(NPYR * numsim)
    full = np.concatenate([np.zeros(n - len(x)), np.sort(x.astype(float))])
    ari = 1.0 / (1.0 - np.arange(1, n + 1) / (nobs + 1.0)) / NPYR
    rep = {"kind": kind, "events": len(x), "simulations": numsim, "return_periods": years.tolist(), "data": x.tolist() if len(x) < 300 else None}
    what = "%s winds, %d events in %d simulations" % (kind, len(x), numsim)
    ok, got = chk.call(evd.powerfit, x, years, numsim, _kind="power-failed", _what=what, _replay=rep)
    if not ok:
        return
    w, a, b, c = np.asarray(got[0], dtype=float), *map(float, got[1:4])
    rep["got"] = [w.tolist(), a, b, c]
    chk.evaluated(("power", part, k), {"kind": kind, "levels": w.tolist()[:3]})
    if (w == haz.NODATA).all():
        chk.count("power_missing")
        chk.expect([a, b, c] == [haz.NODATA] * 3, "power-partial", "%s: levels missing, parameters %s" % (what, (a, b, c)), rep)
        return
    if not chk.expect(np.isfinite(w).all(), "power-not-finite", "%s: levels %s" % (what, w), rep):
        return
    with np.errstate(all="ignore"):
        chk.close(w, a - b * years ** c, "power-levels", "%s: levels from the reported coefficients" % what, rep, rtol=1e-7, atol=1e-6 * max(1.0, abs(a)) )
    chk.expect((np.diff(w) >= -1e-6 * max(1.0, abs(a))).all(), "power-decreasing", "%s: levels %s" % (what, w), rep)
    top = full > full[full > 0].mean()
    if top.sum() >= 4:
        t, v = ari[top], full[top]
        sse = ((a - b * t ** c - v) ** 2).sum()
        chk.expect(sse <= ((v - v.mean()) ** 2).sum() * (1 + 1e-9) + 1e-9, "power-fit", "%s: the curve fits worse than a constant" % what, rep)
    chk.count("power_fitted")


def direct(chk, part):
    rng = chk.rng("direct", part)
    for k in range(chk.n(60, 400)):
        gpd(chk, rng, k, part)
        convert(chk, rng, k, part)
        empirical(chk, rng, k, part)
        power(chk, rng, k, part)


def maps(chk, k):
    """Whole maps with each distribution: every cell from its own records."""
    import hazard
    from hazard import GPD, evd
    rng = chk.rng("map", k)
    dist = ["GPD", "emp", "power", "emp"][k % 4]
    nx, ny = [(3, 4), (101, 1), (5, 2)][int(rng.integers(3))]
    nyears = int(rng.choice([10, 25]))
    lon, lat = haz.axes(113.0, nx + 2, -24.0, ny + 2, 0.1)
    limit = {"xMin": lon[1], "xMax": lon[-2], "yMin": lat.min() + 0.1, "yMax": lat.max() - 0.1}
    ev = haz.events(rng, nyears, ny + 2, nx + 2, most=12, empty=0.1)
    years = [2, 5, 8] if dist == "emp" else [5, 20, 100, 1000]
    root = chk.scratch("d")
    cfg = haz.write_run(root, lon, lat, ev, limit, nyears, years, 10, dist=dist, evolution=k // 4 % 2 == 0)
    ranks = int(rng.choice([1, 3]))
    what = "%s map %d, %d processes" % (dist, k, ranks)
    rep = {"distribution": dist, "columns": nx, "rows": ny, "years": nyears, "events": len(ev)}
    r = fakempi.run_ranks(ranks, lambda rank: hazard.run(cfg), seed=int(rng.integers(1 << 30)))
    if trackgen.failed(chk, r, "run-failed", what, rep):
        return
    h = haz.read(root)
    stack = np.sort(np.array(list(ev.values())), axis=0)[:, 1:-1, 1:-1]
    yrs = np.array(years, dtype="f4")
    for j in range(ny):
        for i in range(nx):
            x = stack[:, j, i].copy()
            got = h["wspd"][:, j, i]
            if x.max() <= 0:
                chk.expect(((got == 0) | (got == haz.NODATA)).all(), "map-calm", "%s: calm cell holds %s" % (what, got), rep)
                continue
            if dist == "GPD":
                want = GPD.gpdfit(x, yrs, nyears, haz.NODATA, 10, 99.5)
            elif dist == "emp":
                want = evd.empfit(x, yrs, nyears, haz.NODATA, 10)
            else:
                want = evd.powerfit(x, yrs, nyears, haz.NODATA, 10)
            chk.close(got, want[0], "map-cell", "%s: row %d column %d" % (what, j, i), dict(rep, records=x.tolist()), rtol=1e-4, atol=1e-3)
            for name, v in zip(("loc", "scale", "shp"), want[1:4]):
                # the file stores the shape with five digits
                chk.close(h[name][j, i], v, "map-cell", "%s: %s at row %d column %d" % (what, name, j, i), dict(rep, records=x.tolist()),
                          rtol=1e-4, atol=2e-3 if name != "shp" else 1e-4)
    chk.evaluated(("map", k), rep, k=nx * ny)
    chk.count("maps_" + dist)


def run(chk):
    import hazard                                                # noqa: F401
    from hazard import GPD, evd                                  # noqa: F401
    chk.pmap(lambda c, it: it[0](c, it[1]), [(direct, p) for p in range(chk.n(7, 28))] + [(maps, p) for p in range(chk.n(8, 32))])
