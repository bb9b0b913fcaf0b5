"""C22: cell statistics come from the observations in and around the cell."""
import os
import sys

import numpy as np

from harness import core


def make():
    return core.Check("C22", "one evaluation per cell (sea and land) compared with an independent selection of observations",
                      ["distributions: the observations of a cell take at least two values inside their range", "no observation lies exactly on the edge of an enlarged cell",
                       "a cell needs more valid observations than the configured minimum"])


def grid(rng):
    space = {"x": float(rng.choice([1.0, 2.0, 5.0, 0.5])), "y": float(rng.choice([1.0, 2.0, 5.0, 0.5]))}
    nx, ny = int(rng.integers(1, 8)), int(rng.integers(1, 7))
    x0 = float(rng.choice([0, 110, 150, 260, -20]))
    y0 = float(rng.choice([-40, -20, 5, -5]))
    limit = {"xMin": x0, "xMax": x0 + nx * space["x"], "yMin": y0, "yMax": y0 + ny * space["y"]}
    inc = {"x": float(rng.choice([0.5, 1.0, 1.5, 4.0])), "y": float(rng.choice([0.5, 1.0, 1.5, 4.0]))}
    return limit, space, inc, nx, ny


def observations(rng, limit, kind, angular):
    n = int(rng.choice([5, 40, 200, 1000]))
    w, h = limit["xMax"] - limit["xMin"], limit["yMax"] - limit["yMin"]
    m = int(rng.integers(1, 4))
    cx, cy = rng.uniform(0, w, m), rng.uniform(0, h, m)
    c = rng.integers(0, m, n)
    if kind == "clustered":
        x, y = cx[c] + rng.normal(0, w / 15, n), cy[c] + rng.normal(0, h / 15, n)
    else:
        x, y = rng.uniform(-0.2 * w, 1.2 * w, n), rng.uniform(-0.2 * h, 1.2 * h, n)
    # positions in odd thousandths: never on an edge
    x = np.round(limit["xMin"] + x, 2) + 0.005
    y = np.round(limit["yMin"] + y, 2) + 0.005
    land = (rng.random(n) < rng.choice([0, 0.1, 0.5, 1.0])).astype(float)
    if angular:
        v = (rng.choice([0, 90, 350]) + rng.normal(0, rng.choice([5, 60, 400]), n)) % 360
    else:
        v = rng.normal(rng.choice([0, 15, 990]), rng.choice([1, 10]), n)
    v = np.round(v, 2)
    if rng.random() < 0.15:
        v[:] = v[0]
    elif rng.random() < 0.2:
        v[x < limit["xMin"] + w / 2] = v[0]
    v[rng.random(n) < rng.choice([0, 0.2, 0.9])] = sys.maxsize
    return np.column_stack([x, y, land]), v


def select(limit, space, inc, ll, v, cell, nx, least, flag):
    """Values a cell is based on; None when the whole domain has too few."""
    j, i = cell % nx, cell // nx
    w, e = limit["xMin"] + j * space["x"], limit["xMin"] + (j + 1) * space["x"]
    n, s = limit["yMax"] - i * space["y"], limit["yMax"] - (i + 1) * space["y"]
    steps = 0
    while True:
        ok = (ll[:, 0] > w) & (ll[:, 0] < e) & (ll[:, 1] > s) & (ll[:, 1] < n) & (v < 9e18)
        if flag is not None:
            ok &= (ll[:, 2] > 0) == flag
        p = v[ok]
        if p.size > least and p.max() > p.min():
            return p, steps
        box = (w, e, s, n)
        w, e = max(w - inc["x"], limit["xMin"]), min(e + inc["x"], limit["xMax"])
        s, n = max(s - inc["y"], limit["yMin"]), min(n + inc["y"], limit["yMax"])
        steps += 1
        if (w, e, s, n) == box:
            return None, steps


def numbers(p, angular):
    if angular:
        z = np.mean(np.exp(1j * np.radians(p)))
        mu, sig = np.angle(z) % (2 * np.pi), np.sqrt(max(0.0, 1 - abs(z)))
    else:
        mu, sig = p.mean(), p.std()
    a = float(np.dot(p[1:], p[:-1]) / np.dot(p, p))
    return {"mu": mu, "sig": sig, "alpha": a, "phi": np.sqrt(max(0.0, 1 - a * a)), "min": p.min()}


def same(k, got, want, angular, single):
    tol = 3e-6 if single else 1e-9
    if not np.isfinite(got):
        return False
    if k == "mu" and angular:
        return abs((got - want + np.pi) % (2 * np.pi) - np.pi) < 1e-6
    if k in ("sig", "phi"):
        return abs(got - want) <= 2e-5 + tol * abs(want)
    return abs(got - want) <= tol * max(1.0, abs(want)) + tol


def cells(chk, k):
    from StatInterface.generateStats import GenerateStats
    rng = chk.rng("stats", k)
    limit, space, inc, nx, ny = grid(rng)
    angular = bool(rng.random() < 0.35)
    ll, v = observations(rng, limit, str(rng.choice(["clustered", "uniform"])), angular)
    least = int(rng.choice([1, 3, 10, 50]))
    d = chk.scratch("st")
    args = (v, ll)
    if rng.random() < 0.4:
        args = (os.path.join(d, "par"), os.path.join(d, "pos"))
        np.savetxt(args[0], v, fmt="%.2f", header="x", comments="%")
        np.savetxt(args[1], ll, fmt="%.3f", delimiter=",", header="x", comments="%")
    rep = lambda: {"case": k, "limit": limit, "space": space, "inc": inc, "least": least, "angular": angular,
                   "obs": ll[:200], "values": v[:200]}
    want = []
    for c in range(nx * ny):
        sea, a = select(limit, space, inc, ll, v, c, nx, least, False)
        land, b = select(limit, space, inc, ll, v, c, nx, least, True)
        if sea is None and land is None:
            want = None
            break
        want.append((sea, land if land is not None else sea, a, b, land is not None))
    enough = want is not None and all(w[0] is not None for w in want)
    try:
        g = GenerateStats(args[0], args[1], limit, space, inc, minSample=least, angular=angular)
    except BaseException as exc:
        if isinstance(exc, (KeyboardInterrupt, SystemExit)):
            raise
        chk.expect(not enough, "fails", lambda: "statistics refused: %r" % (exc,), rep)
        chk.evaluated(("refused", angular))
        return
    if not chk.expect(enough, "invented", "statistics returned although the whole domain has too few observations", rep):
        return
    path = os.path.join(d, "s.nc")
    sets = [("computed", g.coeffs, False)]
    ok, _ = chk.call(g.save, path, "speed", _kind="save-fails", _what="saving statistics", _replay=rep)
    if ok:
        h = GenerateStats(None, None, limit, space, inc, minSample=least, angular=angular, calculateLater=True)
        ok, _ = chk.call(h.load, path, _kind="load-fails", _what="loading statistics", _replay=rep)
        if ok:
            sets.append(("reloaded", h.coeffs, True))
    for label, co, single in sets:
        for pre, col in (("", 0), ("l", 1)):
            for name in ("mu", "sig", "alpha", "phi", "min"):
                arr = np.ma.filled(getattr(co, pre + name), np.nan)
                chk.expect(np.size(arr) == nx * ny, "size", "%s %s%s has %d cells, not %d"
                           % (label, pre, name, np.size(arr), nx * ny), rep)
    for c, w in enumerate(want):
        for pre, p, steps in (("", w[0], w[2]), ("l", w[1], w[3])):
            exp = numbers(p, angular)
            for label, co, single in sets:
                got = {n: float(np.ma.filled(getattr(co, pre + n), np.nan)[c]) for n in exp}
                bad = [n for n in exp if not same(n, got[n], exp[n], angular, single)]
                if label == "computed":
                    chk.evaluated((angular, pre, min(steps, 4), w[4]),
                                  {"cell": c, "land": bool(pre), "n": int(p.size), "steps": steps, "got": got})
                if bad:
                    chk.violate("cell", "%s statistics of cell %d (%s): %r, expected %r (%d observations, %d enlargements)"
                                % (label, c, "land" if pre else "sea", got, exp, p.size, steps), rep)
                    return


def spread(p, step, angular):
    """Enough different values, away from the ends of the range, to smooth them."""
    lo, hi = (0, 360) if angular else (p.min(), p.max())
    inner = p[(p > lo) & (p < hi - step)]
    return hi - lo > 2 * step and inner.size > 1 and inner.max() > inner.min()


def dists(chk, k):
    from StatInterface.GenerateDistributions import GenerateDistributions
    from StatInterface.KDEParameters import KDEParameters
    from Utilities import config
    rng = chk.rng("dist", k)
    limit, space, inc, nx, ny = grid(rng)
    angular = bool(rng.random() < 0.35)
    ll, v = observations(rng, limit, str(rng.choice(["clustered", "uniform"])), angular)
    if v.size > 200:
        ll, v = ll[:200], v[:200]
    least = int(rng.choice([3, 10, 30]))
    step = 2.0 if angular else 0.5
    config.reset()
    d = chk.scratch("ds")
    ini = os.path.join(d, "x.ini")
    with open(ini, "w") as f:
        f.write("[Output]\nPath=%s\n" % d)
    rep = lambda: {"case": k, "limit": limit, "space": space, "inc": inc, "least": least, "angular": angular,
                   "obs": ll, "values": v}
    want = [select(limit, space, inc, ll, v, c, nx, least, None)[0] for c in range(nx * ny)]
    if any(p is not None and not spread(p, step, angular) for p in want):
        return
    gd = GenerateDistributions(ini, limit, space, inc, "gau", least)
    os.makedirs(os.path.join(d, "process"))
    named = bool(rng.random() < 0.3)
    try:
        res = gd.allDistributions(ll, v, "par" if named else None, kdeStep=step, angular=angular)
    except BaseException as exc:
        if isinstance(exc, (KeyboardInterrupt, SystemExit)):
            raise
        chk.expect(any(p is None for p in want), "fails", lambda: "distributions refused: %r" % (exc,), rep)
        chk.evaluated(("refused", angular, "dist"))
        return
    if not chk.expect(all(p is not None for p in want), "invented",
                      "distributions returned although the whole domain has too few observations", rep):
        return
    tol = 1e-12
    sets = [res]
    if named:
        from netCDF4 import Dataset
        tol = 2e-6
        text = np.genfromtxt(os.path.join(d, "process", "all_cell_cdf_par"), comments="%", delimiter=",")
        with Dataset(os.path.join(d, "process", "all_cell_cdf_par.nc")) as nc:
            sets = [text, np.column_stack([nc.variables[n][:] for n in ("cell", "x", "CDF")])]
    kde = KDEParameters("gau")
    for c, p in enumerate(want):
        ref = kde.generateKDE(p, step, angular=angular)
        for res in sets:
            got = res[res[:, 0] == c]
            ok = got.shape[0] == ref.shape[0] and np.allclose(got[:, 1], ref[:, 0], rtol=1e-6, atol=tol) \
                and np.allclose(got[:, 2], ref[:, 2], rtol=0, atol=tol)
            if not chk.expect(ok, "distribution", lambda: "distribution of cell %d is not that of the %d observations of the cell"
                              % (c, p.size), rep):
                return
        chk.evaluated(("dist", angular, named), {"cell": c, "n": int(p.size)})


def edges(chk, k):
    """An observation on the edge between cells counts in exactly one of them."""
    from StatInterface.generateStats import GenerateStats
    from StatInterface.GenerateDistributions import GenerateDistributions
    from Utilities import config
    rng = chk.rng("edge", k)
    space = {"x": float(rng.choice([1.0, 2.0, 5.0])), "y": float(rng.choice([1.0, 2.0, 5.0]))}
    nx, ny = int(rng.integers(2, 5)), int(rng.integers(2, 5))
    x0, y0 = float(rng.choice([0, 110, 150, -20])), float(rng.choice([-40, -20, 5, -5]))
    limit = {"xMin": x0, "xMax": x0 + nx * space["x"], "yMin": y0, "yMax": y0 + ny * space["y"]}
    each = 12
    x = np.concatenate([x0 + (j + rng.uniform(0.1, 0.9, each)) * space["x"] for i in range(ny) for j in range(nx)])
    y = np.concatenate([limit["yMax"] - (i + rng.uniform(0.1, 0.9, each)) * space["y"] for i in range(ny) for j in range(nx)])
    v = np.round(rng.normal(10, 1, x.size), 2)
    kind = ["side", "level", "corner"][k % 3]
    j, i = int(rng.integers(1, nx)), int(rng.integers(1, ny))
    px = x0 + j * space["x"] if kind != "level" else x0 + (j + 0.3) * space["x"]
    py = limit["yMax"] - i * space["y"] if kind != "side" else limit["yMax"] - (i + 0.4) * space["y"]
    ll = np.column_stack([np.append(x, px), np.append(y, py), np.zeros(x.size + 1)])
    land = bool(rng.integers(2))
    if land:                                    # the same observations over land as over sea
        ll = np.vstack([ll, ll + [0, 0, 1]])
    v = np.append(v, 60.0)
    rep = {"case": k, "grid": limit, "cells": space, "observation": [px, py], "edge": kind}
    inc = {"x": 0.5, "y": 0.5}
    hits = {}
    ok, g = chk.call(lambda: GenerateStats(np.tile(v, 2) if land else v, ll, limit, space, inc, minSample=5), _kind="fails", _what="statistics with an observation on an edge", _replay=rep)
    if ok:
        hits["statistics"] = np.flatnonzero(np.asarray(g.coeffs.sig) > 5)
        if land:
            hits["statistics over land"] = np.flatnonzero(np.asarray(g.coeffs.lsig) > 5)
    if not land and k % 4 == 0:
        config.reset()
        d = chk.scratch("eg")
        ini = os.path.join(d, "x.ini")
        with open(ini, "w") as f:
            f.write("[Output]\nPath=%s\n" % d)
        gd = GenerateDistributions(ini, limit, space, inc, "gau", 5)
        ok, res = chk.call(gd.allDistributions, ll, v, None, kdeStep=0.5, angular=False, _kind="fails", _what="distributions with an observation on an edge", _replay=rep)
        if ok:
            hits["distributions"] = np.array([c for c in range(nx * ny) if res[res[:, 0] == c][:, 1].max() > 40])
    next_to = {(i - a) * nx + j - b for a in ((0, 1) if kind != "side" else (0,)) for b in ((0, 1) if kind != "level" else (0,))}
    for what, cells_ in hits.items():
        chk.expect(len(cells_) == 1 and int(cells_[0]) in next_to, "edge", lambda: "%s: an observation on the edge of cells %r counts in %r" % (what, sorted(next_to), cells_.tolist()), rep)
        chk.evaluated(("edge", kind, what), {"counted in": cells_.tolist()})


def group(chk, items):
    for kind, k in items:
        {"c": cells, "d": dists, "e": edges}[kind](chk, k)


def run(chk):
    import StatInterface.generateStats, StatInterface.GenerateDistributions      # noqa: F401,E401
    items = [("c", k) for k in range(chk.n(300, 5000))] + [("d", k) for k in range(chk.n(32, 400))] + [("e", k) for k in range(chk.n(36, 360))]
    chk.pmap(group, [items[a::16] for a in range(16)])
