"""C48: the figures that summarise the input data, against the processed data they are drawn from."""
import os
import sys
from collections import Counter

import numpy as np

from harness import core, synth
from checks import c38

FIGURES = []
MISSING = float(sys.maxsize)


def make():
    return core.Check("C48", "one evaluation per figure compared with the processed data",
                      ["figures are inspected when they are saved, not rendered", "at least two cyclones of three or more observations"])


def preload():
    c38.quiet()
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.figure
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    import tcrm, PlotInterface.plotStats                            # noqa: F401,E401
    matplotlib.figure.Figure.tight_layout = lambda self, *a, **k: None
    FigureCanvasAgg.print_figure = lambda self, name, *a, **k: FIGURES.append((str(name), self.figure))
    # the shaded band around a regression line takes most of the time
    import seaborn.regression
    slow = seaborn.regression._RegressionPlotter.__init__

    def init(self, *a, **k):
        slow(self, *a, **k)
        self.n_boot = 20
    seaborn.regression._RegressionPlotter.__init__ = init


def save(path, a, fmt):
    np.savetxt(path, a, fmt=fmt, delimiter=",", header="% x", comments="")


def data(rng, root, k):
    """Processed input data of some cyclones, written as the processing stage does."""
    os.makedirs(os.path.join(root, "process"))
    os.makedirs(os.path.join(root, "plots", "stats"))
    start = float([3, 150, 178, 358, 60][k % 5])
    out = {n: [] for n in ("first", "lon", "lat", "prs", "spd", "brg", "dp", "ds", "db")}
    hole = float(rng.choice([0, 0.1, 0.3]))
    for c in range(int(rng.integers(2, 12))):
        n = int(rng.integers(3, 25))
        dx, dy = rng.normal(1 if c % 2 else -1, 0.6, n), rng.normal(-0.5, 0.6, n)
        lon = np.round(np.mod(start + rng.uniform(-3, 3) + np.cumsum(dx), 360), 2)
        lat = np.round(-15 + np.cumsum(dy), 2)
        prs = np.round(np.clip(rng.uniform(960, 1000) + np.cumsum(rng.normal(rng.choice([-2, 0, 2]), 4, n)), 851, 1014), 2)
        if rng.random() < 0.4:
            prs[-1] = np.round(prs.min() - 6, 2)
        prs[rng.random(n) < hole] = MISSING
        spd, brg = np.round(rng.uniform(0.5, 90, n), 2), np.round(rng.uniform(0, 359.9, n), 2)
        spd[0] = brg[0] = MISSING
        rates = []
        for _ in range(3):
            r = np.round(rng.normal(0, 3, n), 2)
            r[:2] = MISSING
            r[rng.random(n) < hole] = MISSING
            rates.append(r)
        first = np.zeros(n)
        first[0] = 1
        for k, v in zip(out, (first, lon, lat, prs, spd, brg, *rates)):
            out[k].append(v)
    d = {k: np.concatenate(v) for k, v in out.items()}
    p = os.path.join(root, "process")
    for f, k in (("all_pressure", "prs"), ("all_speed", "spd"), ("all_bearing", "brg"), ("pressure_rate", "dp"), ("speed_rate", "ds"), ("bearing_rate", "db")):
        save(os.path.join(p, f), d[k], "%6.2f")
    save(os.path.join(p, "cyclone_tracks"), np.transpose([d["first"], d["lon"], d["lat"]]), "%6.2f")
    y0 = int(rng.integers(1950, 2000))
    d["freq"] = np.array([[y, rng.integers(0, 12)] for y in range(y0, y0 + int(rng.integers(2, 40)))], float)
    save(os.path.join(p, "frequency"), d["freq"], "%6.2f")
    for n in ("jday_obs", "jday_genesis"):
        d[n] = np.array([[j, rng.poisson(0.4)] for j in range(1, 366)], float)
        save(os.path.join(p, n), d[n], "%6.2f")
    return d


def points(fig):
    return [tuple(map(float, o)) for ax in fig.axes for c in ax.collections if type(c).__name__ == "PathCollection" for o in np.asarray(c.get_offsets())]


def tally(pairs):
    return Counter((round(a, 6) + 0.0, round(b, 6) + 0.0) for a, b in pairs)


def bars(ax):
    r = [p for p in ax.patches if type(p).__name__ == "Rectangle"]
    r.sort(key=lambda p: p.get_x())
    return r


def case(chk, k):
    import tcrm
    from Utilities import config, parallel
    rng = chk.rng("case", k)
    root = chk.scratch("p")
    d = data(rng, root, k)
    ini = synth.write_config(os.path.join(root, "c.ini"), {"Output": {"Path": root}, "Logging": {"ProgressBar": "False"},
                                                           "Region": {"gridLimit": {"xMin": 100, "xMax": 120, "yMin": -30, "yMax": -5}}})
    config.reset()
    parallel.attemptParallel()
    del FIGURES[:]
    rep = {"case": k, "observations": int(len(d["first"])), "cyclones": int(d["first"].sum()), "missing": {n: int((d[n] == MISSING).sum()) for n in ("prs", "dp", "spd")}}
    ok, _ = chk.call(tcrm.doDataPlotting, ini, _kind="fails", _what="plotting of the input data", _replay=rep)
    if not ok:
        return
    figs = {os.path.basename(n): f for n, f in FIGURES}
    where = {os.path.dirname(os.path.abspath(n)) for n, f in FIGURES}
    chk.expect(where == {os.path.join(root, "plots", "stats")}, "place", lambda: "figures saved in %r" % sorted(where), rep)
    chk.expect(len(figs) == len(FIGURES), "overwritten", lambda: "figures of one name: %r" % sorted(n for n, f in FIGURES), rep)
    same = d["first"][1:] == 0
    dlon = np.mod(np.diff(d["lon"]) + 180, 360) - 180
    dlat = np.diff(d["lat"])

    def figure(name):
        f = figs.get(name + ".png")
        chk.expect(f is not None, "absent", lambda: "no figure %s among %r" % (name, sorted(figs)), rep)
        return f

    def pairs(name, x, y, must=None):
        """Every pair of values of one cyclone, no pair that is not of successive values."""
        f = figure(name)
        if f is None:
            return
        got = tally(points(f))
        ok = (x < MISSING) & (y < MISSING)
        every = tally(zip(x[ok], y[ok]))
        need = every if must is None else tally(zip(x[ok & must], y[ok & must]))
        chk.expect(not (need - got), "values", lambda: "%s: %d of %d pairs of values not drawn, such as %r" % (name, sum((need - got).values()), sum(need.values()), list(need - got)[:2]), rep)
        chk.expect(not (got - every), "values", lambda: "%s: %d points that are no pair of successive values, such as %r" % (name, sum((got - every).values()), list(got - every)[:2]), rep)
        chk.evaluated((k, name), {"figure": name, "points": sum(got.values())})

    def half(a):
        return np.where(a < MISSING, np.cos(np.radians(np.where(a < MISSING, a, 0)) / 2), MISSING)
    pairs("pressure", d["prs"][1:], d["prs"][:-1], same)
    pairs("pressure_rate", d["dp"][1:], d["dp"][:-1], same)
    pairs("speed", d["spd"][1:], d["spd"][:-1], same)
    pairs("speed_rate", d["ds"][1:], d["ds"][:-1], same)
    pairs("bearing", half(d["brg"][1:]), half(d["brg"][:-1]), same)
    pairs("bearing_rate", d["db"][1:], d["db"][:-1], same)
    a, b = dlon[same], dlat[same]
    inner = np.cumsum(d["first"])[1:][same]
    inner = inner[1:] == inner[:-1]
    pairs("delta_lon", a[1:], a[:-1], inner)
    pairs("delta_lat", b[1:], b[:-1], inner)
    pairs("lonlat_corr", a, b)

    for name, v in (("pressure_rate", d["dp"]), ("speed_rate", d["ds"]), ("bearing_rate", d["db"]), ("delta_lon", a), ("delta_lat", b)):
        f = figure("qqplot_" + name)
        if f is None:
            continue
        v = v[v < MISSING]
        want = np.sort((v - v.mean()) / v.std())
        got = [np.sort(np.asarray(l.get_ydata(), float)) for ax in f.axes for l in ax.lines if len(l.get_ydata()) == len(want)]
        chk.expect(any(np.allclose(g, want, atol=1e-6) for g in got), "values", lambda: "qqplot_%s: not the %d standardised values" % (name, len(want)), rep)
        chk.evaluated((k, "qq", name), {"figure": "qqplot_" + name, "points": len(want)})

    f = figure("min_pressure_hist")
    if f is not None:
        c = np.cumsum(d["first"])
        least = np.array([d["prs"][c == i].min() for i in np.unique(c)])
        least = least[least < MISSING]
        h = [p for ax in f.axes for p in bars(ax) if p.get_width() > 0]
        total = sum(p.get_height() * p.get_width() for p in h)
        bad = [(p.get_x(), p.get_height()) for p in h
               if abs(p.get_height() * p.get_width() / total - np.mean((least >= p.get_x() - 1e-6) & (least < p.get_x() + p.get_width() - 1e-6))) > 1e-6]
        chk.expect(not bad and len(h) > 1, "values", lambda: "min_pressure_hist: bars %r against least pressures %r" % (bad[:4], np.sort(least).tolist()), rep)
        chk.evaluated((k, "least"), {"figure": "min_pressure_hist", "cyclones": len(least)})

    def heights(name, ax, want, what):
        got = [p.get_height() for p in bars(ax)]
        chk.expect(len(got) == len(want) and np.allclose(np.nan_to_num(got), want), "values", lambda: "%s: %s are %r, not %r" % (name, what, got[:12], want[:12].tolist()), rep)
    f = figure("frequency")
    if f is not None:
        heights("frequency", f.axes[0], d["freq"][:, 1], "annual counts")
        lab = [t.get_text() for t in f.axes[0].get_xticklabels()]
        chk.expect(len(lab) == len(d["freq"]) and [int(float(t)) for t in lab] == d["freq"][:, 0].astype(int).tolist(), "values", lambda: "frequency: years %r" % lab[:10], rep)
        level = [float(np.asarray(l.get_ydata())[0]) for l in f.axes[0].lines if len(l.get_ydata()) == 2 and l.get_ydata()[0] == l.get_ydata()[1] and np.asarray(l.get_xdata())[0] != np.asarray(l.get_xdata())[1]]
        chk.expect(any(abs(v - d["freq"][:, 1].mean()) < 1e-9 for v in level), "values", lambda: "frequency: mean line at %r" % level, rep)
        chk.evaluated((k, "freq"), {"figure": "frequency", "years": len(d["freq"])})
    f = figure("julian_day")
    if f is not None and chk.expect(len(f.axes) == 2, "values", "julian_day: two panels", rep):
        heights("julian_day", f.axes[0], d["jday_obs"][:, 1], "observations per day")
        heights("julian_day", f.axes[1], d["jday_genesis"][:, 1], "genesis events per day")
        chk.evaluated((k, "jday"), {"figure": "julian_day", "observations": float(d["jday_obs"][:, 1].sum())})


def run(chk):
    preload()
    chk.pmap(case, list(range(chk.n(8, 64))))
