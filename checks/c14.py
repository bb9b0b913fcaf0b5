"""C14: GEV return levels follow the L-moment estimates."""
from math import comb

import numpy as np

from harness import core, haz


def make():
    return core.Check("C14", "one evaluation per fitted sample compared with an independent L-moment fit",
                      ["records are finite and not negative", "the fitting routine itself is given sorted records, as the hazard calculation does"])


def sample(rng, k):
    n = int(rng.choice([3, 4, 5, 8, 15, 40, 100, 101, 350, 1000]))
    kind = ["weibull", "gumbel", "gev", "heavy", "uniform", "ties", "zeros", "two", "constant", "single", "capped", "lowtail",
            "large", "tiny", "mostzero", "symmetric"][k % 16]
    if kind == "weibull":
        x = 30 * rng.weibull(rng.uniform(0.8, 8), n)
    elif kind == "gumbel":
        x = np.maximum(0, rng.gumbel(30, rng.uniform(1, 12), n))
    elif kind == "gev":
        c = rng.uniform(-0.4, 1.2)
        x = np.maximum(0, 35 + 9 * (1 - (-np.log(rng.random(n))) ** c) / c)
    elif kind == "heavy":
        x = 10 * rng.pareto(rng.uniform(0.6, 3), n)
    elif kind == "uniform":
        x = rng.uniform(0, 80, n)
    elif kind == "ties":
        x = np.round(rng.gamma(4, 6, n) / 5) * 5
    elif kind == "zeros":
        x = 40 * rng.weibull(3, n) * (rng.random(n) > rng.uniform(0.1, 0.7))
    elif kind == "two":
        x = rng.choice(rng.uniform(5, 60, 2), n)
    elif kind == "constant":
        x = np.full(n, rng.uniform(1, 50)) * (rng.random(n) > 0.3)
    elif kind == "single":
        x = np.zeros(n)
        x[0] = 44.0
    elif kind == "capped":
        x = np.minimum(60.0, 30 + 25 * rng.weibull(3, n))
    elif kind == "lowtail":
        x = 60 - np.abs(rng.standard_t(2, n)) * 4
        x = np.maximum(x, 0)
    elif kind == "large":
        x = 1e4 * rng.weibull(2, n)
    elif kind == "tiny":
        x = 1e-3 * rng.weibull(2, n)
    elif kind == "mostzero":
        x = np.zeros(n)
        m = int(rng.integers(1, min(n, 6) + 1))
        x[:m] = rng.uniform(10, 60, m)
    else:
        h = rng.uniform(0, 30, n // 2 + 1)
        x = np.concatenate([40 - h, 40 + h])
    return kind, np.sort(x)


def direct(chk, part):
    from hazard import evd
    rng = chk.rng("fit", part)
    for k in range(chk.n(1500, 8000)):
        kind, x = sample(rng, k)
        f4 = bool(rng.random() < 0.3)
        if f4:
            x = x.astype("f4")
        m = int(np.count_nonzero(x))
        minrec = int(rng.choice([0, 3, max(m - 1, 0), m, m + 1, 50]))
        years = np.sort(rng.choice([1.1, 1.5, 2, 3, 5, 10, 20, 25, 50, 100, 250, 500, 1000, 2500, 10000], int(rng.integers(1, 9)), replace=False))
        yps = int(rng.choice([1, 1, 1, 2, 10]))
        if rng.random() < 0.5:
            years = years.astype("f4")
        rep = {"kind": kind, "data": x.tolist(), "minimum_records": minrec, "return_periods": years.tolist(), "years_per_block": yps}
        what = "%s sample of %d" % (kind, len(x))
        ref = haz.gev(x, years, minrec, yps)
        args = (years, -9999.0, minrec, yps)
        before = x.copy()
        ok, got = chk.call(evd.gevfit, x, *args, _kind="failed", _what=what, _replay=rep)
        if not ok:
            continue
        chk.expect(np.array_equal(before, x), "data-changed", "%s: the records were modified" % what, rep)
        w = np.asarray(got[0], dtype=float)
        pars = [float(v) for v in got[1:4]]
        rep["got"] = [w.tolist()] + pars
        rep["expected"] = [ref[0].tolist()] + list(map(float, ref[1:4]))
        chk.evaluated(("fit", part, k), {"kind": kind, "n": len(x), "levels": w.tolist()[:3]})
        if not chk.expect(np.isfinite(w).all() and np.isfinite(pars).all(), "not-finite", "%s: levels %s parameters %s" % (what, w, pars), rep):
            continue
        if ref[4] < (1e-3 if f4 else 1e-5):
            chk.count("on_boundary")
            # either side is acceptable, but levels are still all-or-nothing above one block
            lev = w[years > yps]
            chk.expect((lev == haz.NODATA).all() or (lev != haz.NODATA).all(), "partial", "%s: some levels missing: %s" % (what, w), rep)
            continue
        tol = dict(rtol=2e-3 if f4 else 2e-5, atol=(1e-4 if f4 else 1e-7) * max(1.0, float(x.max())))
        for name, g, r in zip(("location", "scale", "shape"), pars, ref[1:4]):
            t = dict(tol)
            if name == "shape":
                t["atol"] = 2e-3 if f4 else 1e-5
            chk.close(g, r, "parameters", "%s: %s" % (what, name), rep, **t)
        chk.close(w, ref[0], "levels", "%s: return levels" % what, rep, **tol)
        if ref[3] > 0 and ref[1] != haz.NODATA:
            chk.count("with_levels")
            lev = w[years > yps]
            chk.expect((np.diff(lev) >= 0).all(), "not-increasing", "%s: levels %s" % (what, w), rep)
        elif ref[1] == haz.NODATA:
            chk.count("missing")
        else:
            chk.count("rejected_shape")


def legendre(x, nmom):
    """L-moments lambda1, lambda2, then ratios, from unbiased probability-weighted moments."""
    x = np.sort(np.asarray(x, dtype=float))
    n = len(x)
    b = [sum(comb(i, r) * x[i] for i in range(n)) / (n * comb(n - 1, r)) for r in range(nmom)]
    lam = [sum((-1) ** (r - q) * comb(r, q) * comb(r + q, q) * b[q] for q in range(r + 1)) for r in range(nmom)]
    return np.array(lam[:2] + [v / lam[1] for v in lam[2:]])[:nmom]


def moments(chk, part):
    import Utilities.lmomentFit as lm
    rng = chk.rng("mom", part)
    for k in range(chk.n(80, 500)):
        kind, x = sample(rng, k)
        if len(x) > 120 or x.min() == x.max():
            continue
        for nmom in (1, 2, 3, 4, 5):
            if len(x) <= nmom:
                continue
            rep = {"data": x.tolist(), "moments": nmom}
            ok, got = chk.call(lm.samlmu, x, nmom, _kind="failed", _what="%d moments of %d" % (nmom, len(x)), _replay=rep)
            if ok:
                want = legendre(x, nmom)
                chk.close(got, want, "moments", "%d L-moments of a %s sample of %d" % (nmom, kind, len(x)), rep,
                          rtol=1e-7, atol=1e-8 * max(1.0, float(x.max())))
                chk.evaluated(("mom", part, k, nmom), {"n": len(x), "moments": want.tolist()})


def grids(chk, k):
    """Whole grids: records of a cell in any order give the same fit, and cells do not mix."""
    import hazard
    rng = chk.rng("grid", k)
    n, ny, nx = int(rng.choice([6, 20, 60])), 3, 4
    vr = np.zeros((n, ny, nx), dtype="f4")
    for j in range(ny):
        for i in range(nx):
            x = sample(rng, int(rng.integers(16)))[1]
            vr[:, j, i] = np.sort(rng.choice(x, n))
    years = np.array([2, 10, 100, 1000], dtype="f4")
    ref = None
    for t in range(4):
        a = vr.copy()
        if t:
            for j in range(ny):
                for i in range(nx):
                    rng.shuffle(a[:, j, i])
        ok, got = chk.call(hazard.calculateGEV, a, years, haz.NODATA, 5, 1, _kind="failed", _what="grid %d" % k)
        if not ok:
            return
        got = [np.asarray(g, dtype=float) for g in got]
        if ref is None:
            ref = got
        for g, r, name in zip(got, ref, ("levels", "location", "scale", "shape")):
            chk.close(g, r, "order", "grid %d: %s after reordering the records" % (k, name), {"records": vr.tolist()}, rtol=1e-5, atol=1e-6)
        chk.evaluated(("grid", k, t), k=nx * ny)


def run(chk):
    import hazard                                                # noqa: F401
    import Utilities.lmomentFit                                  # noqa: F401
    chk.pmap(lambda c, it: it[0](c, it[1]),
             [(direct, p) for p in range(chk.n(8, 24))] + [(moments, p) for p in range(chk.n(3, 8))] + [(grids, p) for p in range(chk.n(12, 60))])
