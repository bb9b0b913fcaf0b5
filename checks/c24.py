"""C24: genesis density and the points drawn from it."""
import configparser
import os

import numpy as np

from harness import core


def make():
    return core.Check("C24", "one evaluation per density value, quantile pair or drawn point compared",
                      ["at least five origins inside the grid", "the density is positive somewhere",
                       "uniform numbers of exactly zero are not drawn"])


def origins(rng, lim):
    n = int(rng.choice([6, 15, 40]))
    w, h = lim["xMax"] - lim["xMin"], lim["yMax"] - lim["yMin"]
    c = np.column_stack([lim["xMin"] + w * rng.uniform(0.1, 0.9, 3), lim["yMin"] + h * rng.uniform(0.1, 0.9, 3)])
    s = np.array([w, h]) * rng.choice([0.03, 0.15, 0.5], 2)
    p = c[rng.integers(0, int(rng.integers(1, 4)), n)] + rng.normal(0, 1, (n, 2)) * s
    return np.round(p, 2)


def dens(pts, bw, x, y):
    kx = np.exp(-0.5 * ((x[None, :] - pts[:, :1]) / bw[0]) ** 2) / bw[0]
    ky = np.exp(-0.5 * ((y[None, :] - pts[:, 1:2]) / bw[1]) ** 2) / bw[1]
    return np.einsum("ky,kx->yx", ky, kx) / (2 * np.pi * len(pts))


def estimate(chk, k):
    from statsmodels.nonparametric.kernel_density import KDEMultivariate
    from StatInterface.KDEOrigin import KDEOrigin
    from StatInterface.SamplingOrigin import SamplingOrigin
    from Utilities.nctools import ncLoadFile
    import Utilities.config as config
    rng = chk.rng("estimate", k)
    x0, y0 = float(rng.integers(60, 300)), float(rng.integers(-35, 25))
    lim = dict(xMin=x0, xMax=x0 + float(rng.integers(4, 30)), yMin=y0, yMax=y0 + float(rng.integers(3, 20)))
    step = float(rng.choice([0.25, 0.5, 1.0]))
    pts = origins(rng, lim)
    inside = pts[(pts[:, 0] >= lim["xMin"]) & (pts[:, 0] <= lim["xMax"]) & (pts[:, 1] >= lim["yMin"]) & (pts[:, 1] <= lim["yMax"])]
    if len(inside) < 5 or np.unique(inside, axis=0).shape[0] < 5:
        return
    out = chk.scratch("o")
    os.makedirs(os.path.join(out, "process"))
    cfg = configparser.ConfigParser()
    cfg.optionxform = str
    cfg["Output"] = {"Path": out}
    cf = os.path.join(out, "c.ini")
    with open(cf, "w") as f:
        cfg.write(f)
    config.reset()
    from_file = k % 2 == 0
    data = np.column_stack([pts, np.zeros(len(pts))])
    if from_file:
        np.savetxt(os.path.join(out, "process", "init_lon_lat"), data, fmt="%.2f", delimiter=",", header="Origin", comments="%")
    rep = lambda: {"case": k, "limits": lim, "step": step, "origins": pts, "from_file": from_file}

    def go():
        kde = KDEOrigin(cf, lim, step, lonLat=None if from_file else data)
        res = kde.generateKDE(save=True)
        kde.generateCdf(save=True)
        return res, kde.generateCdf()
    ok, res = chk.call(go, _kind="estimate-fails", _what="estimating the genesis density", _replay=rep)
    config.reset()
    if not ok:
        return
    (x, y, z), _ = res
    nx, ny = int(np.ceil((lim["xMax"] - lim["xMin"]) / step)), int(np.ceil((lim["yMax"] - lim["yMin"]) / step))
    wx, wy = lim["xMin"] + step * np.arange(nx), lim["yMax"] - step * np.arange(ny)
    if not chk.expect(np.shape(z) == (nx, ny) and np.allclose(x, wx, atol=1e-9) and np.allclose(y, wy, atol=1e-9), "grid",
                      lambda: "grid %r from %r to %r and %r to %r" % (np.shape(z), x[0], x[-1], y[0], y[-1]), rep):
        return
    bw = KDEMultivariate(data=inside, var_type="cc", bw="cv_ml").bw
    want = dens(inside, bw, wx, wy)
    tol = 1e-9 * want.max()
    bad = np.argwhere(~(np.abs(np.asarray(z).T - want) <= tol + 1e-7 * want))
    chk.expect(len(bad) == 0 and np.min(z) >= 0, "density",
               lambda: "density at (%r, %r) is %r, the kernels of the origins add to %r"
               % (wx[bad[0][1]], wy[bad[0][0]], np.asarray(z).T[tuple(bad[0])], want[tuple(bad[0])]), rep)
    f = os.path.join(out, "process", "originPDF.nc")
    if not chk.expect(os.path.exists(f), "no-file", "no density file", rep):
        return
    nc = ncLoadFile(f)
    la, lo, v = nc.variables["lat"][:], nc.variables["lon"][:], nc.variables["gpdf"][:]
    nc.close()
    back = dens(inside, bw, np.asarray(lo, float), np.asarray(la, float))
    chk.expect(v.shape == back.shape and len(lo) == nx and len(la) == ny and abs(float(lo.min()) - wx[0]) < 1e-3
               and abs(float(la.max()) - wy[0]) < 1e-3 and np.all(np.abs(v - back) <= 1e-4 * back + 1e-5 * back.max()),
               "file", "the density in the file is not the density at its latitudes and longitudes", rep)
    chk.evaluated(("estimate", from_file, step, len(inside) < len(pts)), {"origins": int(len(inside)), "grid": [nx, ny]}, k=nx * ny)
    ok, s = chk.call(lambda: SamplingOrigin(f), _kind="load-fails", _what="loading the density file", _replay=rep)
    if ok:
        quantiles(chk, rng, s, np.asarray(lo, float), np.asarray(la, float), np.asarray(v, float), rep, 1e-4, "file")


def quantiles(chk, rng, s, x, y, z, rep, eps, how):
    """Points for given pairs of uniform numbers; z is indexed [y, x] as handed over."""
    px = z.sum(0)
    cx = np.cumsum(px) / px.sum()
    pos = {(float(np.float32(a)), float(np.float32(b))): z[j, i] for i, a in enumerate(x) for j, b in enumerate(y)}
    q = rng.random((60, 2))
    q = np.vstack([q, [[5e-324, 5e-324], [np.nextafter(1, 0)] * 2, [5e-324, np.nextafter(1, 0)], [np.nextafter(1, 0), 5e-324]]])
    order = None
    for q1, q2 in q:
        ok, got = chk.call(lambda: s.ppf(q1, q2), _kind="sample-fails", _what="drawing an origin for %r, %r" % (q1, q2), _replay=rep)
        if not ok:
            return
        key = (float(np.float32(got[0])), float(np.float32(got[1])))
        d = pos.get(key)
        if not chk.expect(d is not None and d > 0, "empty-cell", lambda: "origin %r drawn for (%r, %r), density %r" % (key, q1, q2, d), rep):
            return
        chk.evaluated(("quantile", how), None)
        if np.abs(cx - q1).min() < eps:
            continue
        i = int(np.flatnonzero(cx > q1)[0])
        if not chk.expect(key[0] == float(np.float32(x[i])), "quantile",
                          lambda: "longitude %r drawn for %r, expected %r" % (key[0], q1, x[i]), rep):
            return
        # latitudes may be summed from either end, always the same one
        fits = set()
        for o in (1, -1):
            cy = np.cumsum(z[::o, i]) / px[i]
            if np.abs(cy - q2).min() < eps or key[1] == float(np.float32(y[::o][np.flatnonzero(cy > q2)[0]])):
                fits.add(o)
        order = fits if order is None else order & fits
        if not chk.expect(order, "quantile", lambda: "latitude %r drawn for (%r, %r)" % (key[1], q1, q2), rep):
            return


def surface(rng):
    nx, ny = int(rng.integers(2, 7)), int(rng.integers(2, 6))
    kind = int(rng.integers(4))
    if kind == 0:
        z = rng.integers(0, 5, (ny, nx)).astype(float)
    elif kind == 1:
        z = np.zeros((ny, nx))
        z[rng.integers(ny), rng.integers(nx)] = 1.0
    elif kind == 2:
        z = rng.random((ny, nx)) ** 6 * (rng.random((ny, nx)) < 0.6)
    else:
        z = np.zeros((ny, nx))
        z[:, rng.integers(nx)] = rng.random(ny)
        z[rng.integers(ny), :] = rng.random(nx)
    if z.sum() == 0:
        z[0, 0] = 1
    return z


def surfaces(chk, k):
    from StatInterface.SamplingOrigin import SamplingOrigin
    rng = chk.rng("surface", k)
    z = surface(rng)
    step = float(rng.choice([0.1, 0.5, 2.0]))
    x = np.round(rng.uniform(50, 200), 1) + step * np.arange(z.shape[1])
    y = np.round(rng.uniform(-30, 20), 1) + step * np.arange(z.shape[0])
    if rng.random() < 0.7:
        y = y[::-1]
    rep = lambda: {"case": k, "x": x, "y": y, "density": z}
    ok, s = chk.call(lambda: SamplingOrigin(z.copy(), x, y), _kind="sample-fails", _what="setting up sampling", _replay=rep)
    if not ok:
        return
    quantiles(chk, rng, s, x, y, z, rep, 1e-9, "array")
    np.random.seed(int(rng.integers(2 ** 31)))
    m = 1500
    ok, got = chk.call(lambda: np.asarray(s.generateSamples(m)), _kind="sample-fails", _what="sampling origins", _replay=rep)
    ok2, one = chk.call(lambda: np.asarray([s.generateOneSample() for _ in range(m)]), _kind="sample-fails",
                        _what="sampling origins", _replay=rep)
    if not (ok and ok2):
        return
    p = z / z.sum()
    for name, g in (("batch", got), ("single", one)):
        if not chk.expect(g.shape == (m, 2), "samples", lambda: "%d samples asked, got %r" % (m, g.shape), rep):
            continue
        i, j = np.abs(g[:, :1] - x).argmin(1), np.abs(g[:, 1:] - y).argmin(1)
        chk.expect(np.all(np.abs(x[i] - g[:, 0]) < 1e-6) and np.all(np.abs(y[j] - g[:, 1]) < 1e-6), "samples",
                   "a sample is not a grid point", rep)
        f = np.zeros_like(p)
        np.add.at(f, (j, i), 1.0 / m)
        sd = np.sqrt(p * (1 - p) / m)
        bad = np.argwhere(np.abs(f - p) > 6 * sd + 3.0 / m * (p > 0))
        chk.expect(len(bad) == 0, "frequency", lambda: "%s samples: cell (%r, %r) drawn %.4f of the time, its share is %.4f"
                   % (name, x[bad[0][1]], y[bad[0][0]], f[tuple(bad[0])], p[tuple(bad[0])]), rep)
        chk.evaluated(("samples", name), {"cells": int((p > 0).sum())}, k=m)


def group(chk, items):
    for fn, k in items:
        (estimate if fn == "e" else surfaces)(chk, k)


def run(chk):
    import statsmodels.api, StatInterface.KDEOrigin, StatInterface.SamplingOrigin, Utilities.nctools      # noqa: F401,E401
    items = [("e", k) for k in range(chk.n(24, 160))] + [("s", k) for k in range(chk.n(60, 1500))]
    chk.pmap(group, [items[a::16] for a in range(16)])
