"""C23: parameter distributions are valid CDFs and samples follow them."""
import os
import sys

import numpy as np

from harness import core

KERNELS = ["gau", "epa", "biw", "tri", "triw", "uni", "cos"]


def make():
    return core.Check("C23", "one evaluation per distribution value or sample compared",
                      ["samples take at least two values inside their range", "grid steps divide the period and do not step over the kernels"])


def sample(rng, kind):
    n = int(rng.choice([3, 10, 40, 150]))
    if kind == "angular":
        p = (rng.uniform(0, 360) + rng.normal(0, rng.choice([5, 40, 300]), n)) % 360
    elif kind == "periodic":
        p = np.floor((rng.uniform(0, 365) + rng.normal(0, rng.choice([10, 60, 400]), n)) % 365) + 1
    else:
        k = int(rng.integers(5))
        p = [lambda: rng.normal(0, 1, n), lambda: rng.normal(990, 12, n), lambda: rng.lognormal(2, 0.6, n),
             lambda: rng.choice([-1.0, 0.0, 0.5, 8.0], n), lambda: rng.standard_t(2, n) * 3][k]()
    return np.round(p, 2)


def density(data, grid, kernel):
    """Kernel sums one point at a time, reference-rule bandwidth."""
    import statsmodels.api as sm
    kde = sm.nonparametric.KDEUnivariate(data)
    kde.fit(kernel=kernel, fft=False, gridsize=len(grid), clip=(min(grid), max(grid)), cut=0)
    h = float(kde.bw)
    d = (grid[:, None] - data[None, :]) / h
    if kernel == "gau":
        return np.exp(-0.5 * d ** 2).sum(1) / (h * data.size * np.sqrt(2 * np.pi))
    u = np.abs(d) <= 1
    shape = {"epa": lambda t: 0.75 * (1 - t ** 2), "biw": lambda t: 15 / 16. * (1 - t ** 2) ** 2,
             "tri": lambda t: 1 - np.abs(t), "triw": lambda t: 35 / 32. * (1 - t ** 2) ** 3,
             "uni": lambda t: 0.5 + 0 * t, "cos": lambda t: np.pi / 4 * np.cos(np.pi / 2 * t)}[kernel]
    near = np.abs(np.abs(d) - 1) < 1e-9
    return (np.where(u, shape(d), 0).sum(1) / (h * data.size), (near.sum(1) > 0) if kernel == "uni" else None)


def one(chk, k):
    from StatInterface.KDEParameters import KDEParameters
    from StatInterface.SamplingParameters import SamplingParameters
    rng = chk.rng("kde", k)
    kind = str(rng.choice(["linear", "linear", "angular", "periodic"]))
    p = sample(rng, kind)
    kernel = KERNELS[k % len(KERNELS)]
    if kind == "angular":
        step, lo, hi = float(rng.choice([1.0, 5.0])), 0.0, 360.0
    elif kind == "periodic":
        step, lo, hi = float(rng.choice([0.25, 0.5, 1.0, 5.0])), 1.0, 366.0
    else:
        lo, hi = p.min(), p.max()
        step = (hi - lo) / float(rng.choice([10, 37.3, 200])) if rng.random() < 0.7 else 0.1
        if (hi - lo) / step > 600 or (hi - lo) / step < 3:
            step = max((hi - lo) / 30.0, 0.01)
    inner = p[(p > lo) & (p < hi - step)]
    if kind != "periodic" and (np.unique(inner).size < 2 or np.subtract(*np.percentile(inner, [75, 25])) <= 0):
        return
    data = p.copy()
    if rng.random() < 0.4:
        where = rng.integers(0, p.size + 1, int(rng.integers(1, 9)))
        data = np.insert(p, where, float(sys.maxsize))
    d = chk.scratch("k")
    src = data
    if rng.random() < 0.3:
        src = os.path.join(d, "par")
        np.savetxt(src, data, fmt="%.2f", header="parameter", comments="%")
    rep = lambda: {"case": k, "kind": kind, "kernel": kernel, "step": step, "values": data}
    kw = {"angular": {"angular": True}, "periodic": {"periodic": 365}}.get(kind, {})
    ok, res = chk.call(lambda: KDEParameters(kernel).generateKDE(src, step, **kw), _kind="kde-fails",
                       _what="estimating a distribution", _replay=rep)
    if not ok:
        return
    x, f, c = res[:, 0], res[:, 1], res[:, 2]
    want = lo + step * np.arange(len(x))
    if not chk.expect(x.size >= 2 and np.allclose(x, want, rtol=0, atol=1e-6 * step + 1e-9) and x[-1] >= hi - step * 1.001
                      and x[-1] <= hi + 1e-6, "grid",
                      lambda: "grid from %r to %r by %r (%d values), data from %r to %r, step %r"
                      % (x[0], x[-1], x[1] - x[0] if x.size > 1 else None, x.size, lo, hi, step), rep):
        return
    if kind == "periodic":
        trip = np.concatenate([p - 365, p, p + 365])
        g = np.arange(1, 366, step)
        ref = density(trip, np.concatenate([g - 365, g, g + 365]), kernel)
        skip = None
        if isinstance(ref, tuple):
            ref, skip = ref
            skip = None if skip is None else skip[g.size:2 * g.size]
        ref = 3 * ref[g.size:2 * g.size]
    else:
        ref = density(p, x, kernel)
        skip = None
        if isinstance(ref, tuple):
            ref, skip = ref
    if not ref.sum() > 0:
        return
    if not chk.expect(np.all(np.isfinite(f)) and f.min() >= 0, "density", "negative or undefined density", rep):
        return
    chk.expect(np.all(np.diff(c) >= 0) and c[0] >= 0 and c[-1] == 1.0, "cumulative",
               lambda: "cumulative probability from %r to %r, smallest step %r" % (c[0], c[-1], np.diff(c).min()), rep)
    chk.expect(np.allclose(c, np.cumsum(f) / f.sum(), rtol=0, atol=1e-12), "cumulative",
               "cumulative probability is not the summed density", rep)
    use = np.ones(x.size, bool) if skip is None else ~skip
    bad = np.flatnonzero(use & (np.abs(f - ref) > 1e-8 * ref.max() + 1e-9 * ref))
    chk.expect(bad.size == 0, "density", lambda: "density at %r is %r, the kernels of the %d observations add to %r"
               % (x[bad[0]], f[bad[0]], p.size, ref[bad[0]]), rep)
    chk.evaluated((kind, kernel, bool(p.size < data.size), isinstance(src, str)),
                  {"kind": kind, "kernel": kernel, "n": int(p.size), "grid": int(x.size)}, k=x.size)
    draw(chk, rng, x, c, d, rep)


class Draws:
    """Stands in for the uniform generator and hands out chosen numbers."""

    def __init__(self, u):
        self.u, self.i, self.calls = u, 0, 0

    def __call__(self, *shape):
        self.calls += 1
        n = int(np.prod(shape)) if shape else 1
        out = self.u[np.arange(self.i, self.i + n) % self.u.size]
        self.i += n
        return out.reshape(shape) if shape else float(out[0])


def draw(chk, rng, x, c, d, rep):
    from StatInterface.SamplingParameters import SamplingParameters
    u = rng.random(40)
    at = c[rng.integers(0, c.size, 10)]
    u = np.concatenate([u, at, np.nextafter(at, 0), np.nextafter(at, 1), [np.nextafter(1, 0), 5e-324, 2.0 ** -53, 0.5]])
    u = u[(u > 0) & (u < 1)]
    rng.shuffle(u)
    want = np.array([x[np.flatnonzero(c >= t)[0]] for t in u])
    arr = np.column_stack([x, c])
    real = np.random.rand
    how = int(rng.integers(3))
    if how == 1:
        path = os.path.join(d, "cdf")
        np.savetxt(path, arr, delimiter=",")
        sp = SamplingParameters(path)
    elif how == 2:
        sp = SamplingParameters().setParameters(arr)
    else:
        sp = SamplingParameters(arr)
    stub = Draws(u)
    np.random.rand = stub
    try:
        ok, got = chk.call(sp.generateSamples, u.size, _kind="sample-fails", _what="sampling", _replay=rep)
        ok2, single = chk.call(lambda: np.array([sp.generateOneSample() for _ in range(u.size)]), _kind="sample-fails",
                               _what="sampling", _replay=rep)
    finally:
        np.random.rand = real
    if not ok or not ok2:
        return
    if stub.calls:
        for name, g in (("batch", got), ("single", single)):
            bad = np.flatnonzero(np.asarray(g) != want)
            chk.expect(bad.size == 0, "sample", lambda: "%s sample for %r is %r, expected %r"
                       % (name, u[bad[0]], g[bad[0]], want[bad[0]]), rep)
        chk.count("exact_samples", 2 * u.size)
    # whatever the source of randomness, frequencies follow the distribution
    np.random.seed(int(rng.integers(2 ** 31)))
    m = 2000
    s = np.asarray(sp.generateSamples(m))
    inside = np.isin(s, x)
    if not chk.expect(np.all(inside), "sample", "a sample is not one of the values of the distribution", rep):
        return
    e = np.searchsorted(np.sort(s), x, side="right") / m
    chk.expect(np.abs(e - c).max() < 0.08, "frequency",
               lambda: "cumulative frequencies of %d samples differ by %.3f" % (m, np.abs(e - c).max()), rep)
    chk.evaluated(("sample", how, stub.calls > 0), None, k=u.size)


def group(chk, items):
    for k in items:
        one(chk, k)


def run(chk):
    import statsmodels.api, StatInterface.KDEParameters, StatInterface.SamplingParameters      # noqa: F401,E401
    n = chk.n(150, 2500)
    chk.pmap(group, [list(range(a, n, 16)) for a in range(16)])
