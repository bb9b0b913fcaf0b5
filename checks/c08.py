"""C08: pressure fields against the published radial forms and their bounds."""
import numpy as np

from harness import core, ext, refwind


def make():
    return core.Check("C08", "one evaluation per (profile, storm, distance array)", [])


def scenario(chk, item):
    mode, block = item
    if mode == "compiled":
        ext.install()
    else:
        ext.hide()
    from PressureInterface.pressureProfile import PrsProfile
    rng = chk.rng("pressure", block)
    for it in range(chk.n(150, 2000)):
        lat = float(rng.uniform(0, 45) * rng.choice([-1, 1]))
        pe = float(rng.uniform(98000, 103500))
        dp = float(rng.choice([rng.uniform(1, 1500), rng.uniform(1500, 13000), 1500.0, np.nextafter(1500, 0), 800.0]))
        pc = pe - dp
        rm = float(rng.choice([rng.uniform(5, 200), rng.uniform(10, 60)]))
        beta = float(rng.uniform(0.8, 2.5))
        kw = {"beta": beta}
        if rng.random() < 0.6:
            kw["rMax2"] = float(rng.uniform(80, 400))
        if rng.random() < 0.7:
            kw.update(beta1=float(rng.uniform(0.8, 2.5)), beta2=float(rng.uniform(0.8, 2.5)))
        R = np.concatenate([10 ** rng.uniform(-3, 4, 30), rng.uniform(0, 400, 32), [1e-30, rm, 1e4, 2e4]])
        R = R.reshape(6, -1)
        if rng.random() < 0.5:
            R = np.sort(R.ravel())
        if rng.random() < 0.3:
            R = np.asfortranarray(R)
        args = (pe, pc, rm, lat, float(rng.uniform(-180, 360)))
        for name in ("holland", "willoughby", "schloemer", "doubleHolland", "powell"):
            rep = lambda: {"profile": name, "storm": args, "params": kw, "mode": mode, "R": R}
            keep = R.copy()
            obj = PrsProfile(R, *args, **kw)
            good, P = chk.call(getattr(obj, name), _kind="pressure-error", _what=name, _replay=rep)
            if not good:
                continue
            rk = {"beta": beta, "rmax2": kw.get("rMax2", 250.0), "beta1": kw.get("beta1"), "beta2": kw.get("beta2")}
            want = refwind.pressure(name, R, pe, pc, rm, lat, **rk)
            what = "%s %s %s" % (mode, name, args)
            chk.close(P, want, "form", what, rep, rtol=1e-9, atol=1e-6)
            chk.expect(np.array_equal(keep, R), "input-changed", what + " changed its distances", rep)
            f = np.asarray(P).ravel()
            o = np.argsort(R.ravel(), kind="stable")
            slack = 1e-6
            chk.expect(np.isfinite(f).all() and (f >= pc - slack).all() and (f <= pe + slack).all(), "bounds",
                       lambda: "%s: pressures %.3f..%.3f outside %.3f..%.3f" % (what, np.nanmin(f), np.nanmax(f), pc, pe), rep)
            shape = 1.0
            if name == "willoughby":
                shape = 1.0036 + 0.0173 * refwind.vmax_willoughby(dp) - 0.313 * np.log(rm) + 0.0087 * abs(lat)
            k = "monotone" if shape > 0 else "monotone-negative-shape"
            chk.expect((np.diff(f[o]) >= -slack).all(), k, "%s: pressure falls outward (shape parameter %.3f)" % (what, shape), rep)
            if shape > 0.3:
                chk.expect(abs(f[o[0]] - pc) <= 1e-6 * dp + slack, "centre", what + ": centre pressure %r" % f[o[0]], rep)
            chk.evaluated((name, block, it), sample=None if it else {"profile": name, "storm": args})


def run(chk):
    ext.build()
    chk.pmap(scenario, [(m, b) for b in range(chk.n(3, 8)) for m in ("interpreted", "compiled")])
