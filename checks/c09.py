"""C09: compiled kernels and interpreted fallbacks give the same answers."""
import numpy as np

from harness import core, ext, windref
from checks.c06 import storm, radii
from harness import refwind


def make():
    return core.Check("C09", "one evaluation per kernel call made with both implementations",
                      ["storms whose fitted core curvature is negative; field points where the interpreted model is defined"])


class Switch:
    """Run the same call with the extensions installed and with them hidden."""

    def __init__(self):
        self.mods = ext.install()

    def both(self, fn):
        for n, m in self.mods.items():
            ext.sys.modules[n] = m
        a = fn()
        ext.hide()
        b = fn()
        for n, m in self.mods.items():
            ext.sys.modules[n] = m
        return a, b


def wind(chk, sw, block):
    from wind import windmodels as wm
    from PressureInterface.pressureProfile import PrsProfile
    rng = chk.rng("wind", block)
    used = {"velocity": 0, "vorticity": 0, "field": 0, "pressure": 0}
    for it in range(chk.n(120, 1500)):
        lat, lon, pe, pc, rm = storm(rng)
        beta = float(rng.uniform(0.8, 2.5))
        name = str(rng.choice(["holland", "powell", "schloemer", "willoughby"]))
        if not refwind.profile(name, lat, pe, pc, rm, beta=beta).d2 < -1e-13:
            continue
        R = radii(rng, rm, True)
        R = R[:(len(R) // 5) * 5].reshape(5, -1)
        if rng.random() < 0.3:
            R = np.asfortranarray(R)
        prof = wm.profile(name)(lat, lon, pe, pc, rm, *([beta] if name == "holland" else []))
        rep = lambda: {"profile": name, "storm": [lat, lon, pe, pc, rm], "beta": beta, "R": R}
        for what in ("velocity", "vorticity"):
            good, r = chk.call(sw.both, lambda: getattr(prof, what)(R), _kind="kernel-error", _what=what, _replay=rep)
            if good:
                a, b = r
                sc = np.abs(b).max()
                chk.close(a, b, what, "%s %s lat %.3f" % (name, what, lat), rep, rtol=1e-9, atol=1e-10 * sc)
                chk.evaluated((what, block, it))
        Rk = np.maximum(R, 1e-27)
        lam = rng.uniform(-np.pi, np.pi, R.shape)
        vfm = float(rng.choice([0.0, rng.uniform(0, 20), rng.uniform(20, 60)]))
        th = float(rng.uniform(-5, 5))
        good, r = chk.call(sw.both, lambda: wm.KepertWindField(prof).field(Rk, lam, vfm, th), _kind="kernel-error",
                           _what="boundary layer field", _replay=rep)
        if good:
            (u1, v1), (u2, v2) = r
            ok = np.isfinite(u2) & np.isfinite(v2)
            sc = max(1.0, np.abs(u2[ok]).max(), np.abs(v2[ok]).max())
            for c, a, b in (("eastward", u1, u2), ("northward", v1, v2)):
                chk.close(np.where(ok, a, 0), np.where(ok, b, 0), "field", "%s/kepert %s lat %.3f vFm %.2f" % (name, c, lat, vfm),
                          lambda: dict(rep(), lam=lam, vFm=vfm, thetaFm=th), rtol=2e-6, atol=1e-6 * sc)
            chk.evaluated(("field", block, it))
        obj = PrsProfile(R / 1000, pe, pc, rm / 1000, lat, lon, beta)
        good, r = chk.call(sw.both, lambda: getattr(obj, name)(), _kind="kernel-error", _what="pressure", _replay=rep)
        if good:
            chk.close(r[0], r[1], "pressure", "%s pressure" % name, rep, rtol=1e-10)
            chk.evaluated(("pressure", block, it))


def grids(chk, sw, block):
    from Utilities import maputils
    rng = chk.rng("grid", block)
    for it in range(chk.n(60, 600)):
        lon = float(rng.choice([rng.uniform(-180, 360), 0.0, 150.0, 179.95, -0.3]))
        lat = float(rng.choice([rng.uniform(-70, 70), 0.0, -20.0, 0.05]))
        res = float(rng.choice([0.05, 0.1, 0.25, 0.5, 0.02]))
        margin = float(rng.choice([0.5, 1.0, 2.0, 3.0])) if res > 0.02 else 0.3
        kw = {}
        if rng.random() < 0.4:
            kw = {"minLon": lon - 2, "maxLon": lon + 1, "minLat": lat - 1, "maxLat": lat + 2}
        rep = {"lon": lon, "lat": lat, "margin": margin, "resolution": res, "limits": kw}
        good, r = chk.call(sw.both, lambda: maputils.makeGrid(lon, lat, margin, res, **kw), _kind="kernel-error",
                           _what="distance grid", _replay=rep)
        if good:
            (R1, t1), (R2, t2) = r
            chk.close(R1, R2, "grid-distance", "distance grid %s" % rep, rep, rtol=1e-7, atol=1e-5)
            if R1.shape == R2.shape:
                far = R2 > 1e-3
                d = np.where(far, (t1 - t2 + np.pi) % (2 * np.pi) - np.pi, 0)
                chk.expect(np.abs(d).max() < 1e-6, "grid-direction", lambda: "direction grid %s differs by %g rad"
                           % (rep, np.abs(d).max()), rep)
                chk.expect((R1 > 0).all() and (R2 > 0).all(), "grid-zero", "zero distance in grid %s" % rep, rep)
            chk.evaluated(("grid", block, it))


def akima(chk, sw, block):
    ext.hide()
    ext.sys.modules.pop("Utilities.akima", None)
    from Utilities import akima as py
    pyfn = py.interpolate
    for n, m in sw.mods.items():
        ext.sys.modules[n] = m
    ext.sys.modules.pop("Utilities.akima", None)
    import importlib
    c = importlib.import_module("Utilities.akima")
    cfn = c.interpolate
    chk.expect(type(cfn).__name__ == "builtin_function_or_method", "harness", "compiled interpolation not in use")
    rng = chk.rng("akima", block)
    for it in range(chk.n(300, 4000)):
        n = int(rng.choice([3, 4, 5, rng.integers(6, 40)]))
        kind = rng.integers(6)
        x = np.cumsum(rng.choice([1.0, 6.0, 3.0, 0.5], n)) if rng.random() < 0.5 else np.cumsum(rng.uniform(0.05, 5, n))
        if kind == 0:
            y = rng.normal(0, 10, n)
        elif kind == 1:     # constant stretches
            y = np.repeat(rng.integers(-5, 5, n), 3)[:n].astype(float)
        elif kind == 2:     # straight lines joined at kinks
            y = np.interp(x, [x[0], x[n // 2], x[-1]], rng.integers(-9, 9, 3))
            x = np.arange(n, dtype=float)
            y = np.where(x < n // 2, 2 * x, 3 * (n // 2) - x)
        elif kind == 3:
            y = np.full(n, float(rng.integers(-100, 100)))
        elif kind == 4:
            y = 120 + np.cumsum(rng.normal(0, 0.3, n))
        else:
            y = np.zeros(n)
            y[rng.integers(n)] = 1.0
        q = np.concatenate([rng.uniform(x[0], x[-1], 20), x])
        if rng.random() < 0.7:
            q = np.sort(q)
        else:
            rng.shuffle(q)
        if rng.random() < 0.15:
            x, y, q = list(x), list(y), list(q)
        elif rng.random() < 0.15:
            y = np.round(y).astype(int)
        rep = {"x": x, "y": y, "x_new": q}
        keep = [np.array(v) for v in (x, y, q)]
        good, a = chk.call(cfn, x, y, q, _kind="kernel-error", _what="compiled interpolation", _replay=rep)
        good2, b = chk.call(pyfn, x, y, q, _kind="kernel-error", _what="interpreted interpolation", _replay=rep)
        if good and good2:
            sc = np.ptp(np.asarray(y, float)) + 1
            chk.close(a, b, "akima", "interpolation of %d points (kind %d)" % (n, kind), rep, rtol=1e-8, atol=1e-8 * sc)
            chk.close(np.asarray(b)[np.isin(q, x)], np.interp(np.asarray(q)[np.isin(q, x)], x, y), "akima-knots",
                      "interpolation does not pass through its points", rep, rtol=1e-8, atol=1e-8 * sc)
            chk.expect(all(np.array_equal(k, np.array(v)) for k, v in zip(keep, (x, y, q))), "input-changed",
                       "interpolation changed its inputs", rep)
            chk.evaluated(("akima", block, it))
    # both refuse what has no meaning
    for bad in (([0., 1], [0., 1], [0.5]), ([0., 1, 2], [0., 1], [0.5]), ([0., 1, 1], [0., 1, 2], [0.5]),
                ([2., 1, 0], [0., 1, 2], [0.5]), ([[0., 1, 2]], [0., 1, 2], [0.5])):
        for w, fn in (("compiled", cfn), ("interpreted", pyfn)):
            try:
                fn(*bad)
                chk.violate("akima-accepts", "%s interpolation accepted %r" % (w, bad), {"args": bad})
            except ValueError:
                pass
            chk.evaluated(("bad", repr(bad)))


def scenario(chk, item):
    kind, block = item
    sw = Switch()
    {"wind": wind, "grid": grids, "akima": akima}[kind](chk, sw, block)


def run(chk):
    ext.build()
    chk.pmap(scenario, [(k, b) for b in range(chk.n(2, 6)) for k in ("wind", "grid", "akima")])
