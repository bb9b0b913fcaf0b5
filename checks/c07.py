"""C07: surface wind fields against independent reference boundary-layer models."""
import numpy as np

from harness import core, ext, refwind
from checks.c06 import storm


def make():
    return core.Check("C07", "one evaluation per (field model, profile, storm, motion) grid",
                      ["storms whose fitted core curvature is negative; points where the boundary-layer theory is "
                       "defined (inertially stable profile)"])


PROFILES = ["holland", "powell", "schloemer", "willoughby", "rankine", "jelesnianski", "doubleholland"]


def reference(field, name, lat, pe, pc, rm, kw, R, lam, vfm, th, tmax):
    ref = refwind.profile(name, lat, pe, pc, rm, **kw)
    V = ref.velocity(R)
    if field == "hubbert":
        return refwind.hubbert(V, R, lam, ref.f, rm, vfm, th, tmax)
    if field == "mcconochie":
        return refwind.mcconochie(V, R, lam, ref.f, rm, vfm, th, tmax)
    vm = ref.vmh if name == "doubleholland" else ref.vm
    return refwind.kepert(V, ref.vorticity(R), R, lam, ref.f, rm, vm, vfm, th)


def scenario(chk, item):
    mode, block = item
    if mode == "compiled":
        ext.install()
    else:
        ext.hide()
    from wind import windmodels as wm
    rng = chk.rng("fields", block)
    for it in range(chk.n(50, 400)):
        lat, lon, pe, pc, rm = storm(rng)
        kw = {"beta": float(rng.uniform(0.8, 2.5))}
        dkw = {"beta1": float(rng.uniform(1, 2)), "beta2": float(rng.uniform(1, 2)),
               "rMax2": float(rng.uniform(80e3, 300e3))}
        vfm = float(rng.choice([0.0, rng.uniform(0.1, 5), rng.uniform(5, 20), rng.uniform(20, 45)]))
        th = float(rng.choice([rng.uniform(-np.pi, np.pi), rng.uniform(-3 * np.pi / 2, np.pi / 2), 0.0, np.pi / 2]))
        tmax = float(rng.choice([0.0, 70.0, -70.0, 115.0, rng.uniform(-180, 180)]))
        x = np.concatenate([10 ** rng.uniform(-3, 1.5, 40), rng.uniform(0, 4, 40),
                            [1e-30, 1, np.nextafter(1, 0), np.nextafter(1, 2), 1.2, np.nextafter(1.2, 0), 2, 2.01]])
        R = (np.maximum(x * rm, 1e-27)).reshape(8, -1)
        lam = rng.uniform(-np.pi, 2.5 * np.pi, R.shape)
        lam.flat[:4] = [0, np.pi / 2, np.pi, -np.pi / 2]
        for name in PROFILES:
            k = {"holland": kw, "doubleholland": dkw}.get(name, {})
            ref = refwind.profile(name, lat, pe, pc, rm, **k)
            if isinstance(ref, refwind.Holland) and not ref.d2 < -1e-13:
                chk.count("storm without a core fit skipped")
                continue
            if name == "doubleholland" and not ref.d2() < 0:
                chk.count("double vortex without a core fit skipped")
                continue
            prof = wm.profile(name)(lat, lon, pe, pc, rm, *k.values())
            for field in ("hubbert", "mcconochie", "kepert"):
                rep = lambda: {"field": field, "profile": name, "storm": [lat, lon, pe, pc, rm], "params": k,
                               "vFm": vfm, "thetaFm": th, "thetaMax": tmax, "mode": mode, "R": R, "lam": lam}
                obj = wm.field(field)(prof)
                wu, wv = reference(field, name, lat, pe, pc, rm, k, R, lam, vfm, th, tmax)
                keep = R.copy(), lam.copy()
                good, res = chk.call(obj.field, R, lam, vfm, th, tmax, _kind="field-error",
                                     _what="%s/%s" % (field, name), _replay=rep)
                if not good:
                    continue
                u, v = res
                ok = np.isfinite(wu) & np.isfinite(wv)
                # the inertially unstable part of a profile has no solution in Kepert's theory
                if field != "kepert":
                    chk.expect(ok.all(), "reference-undefined", "reference not finite", rep)
                chk.count("undefined points", (~ok).sum())
                sp = max(np.hypot(wu[ok], wv[ok]).max(), 1.0)
                what = "%s %s/%s lat %.2f vFm %.2f heading %.2f" % (mode, field, name, lat, vfm, th)
                if name == "rankine" and field == "kepert" or name == "jelesnianski" and field == "kepert":
                    tol = 1e-5
                else:
                    tol = 1e-6
                chk.expect(np.isfinite(u[ok]).all() and np.isfinite(v[ok]).all(), "not-finite", what + " not finite", rep)
                chk.close(np.where(ok, u, 0), np.where(ok, wu, 0), "eastward", what + " eastward wind", rep, rtol=tol, atol=tol * sp)
                chk.close(np.where(ok, v, 0), np.where(ok, wv, 0), "northward", what + " northward wind", rep, rtol=tol, atol=tol * sp)
                chk.expect(np.array_equal(keep[0], R) and np.array_equal(keep[1], lam), "input-changed", what + " changed its inputs", rep)
                chk.evaluated((field, name, block, it), sample=None if it else {"field": field, "profile": name, "lat": lat})
                # rigid rotation with the heading
                a = float(rng.uniform(-np.pi, np.pi))
                u2, v2 = obj.field(R, lam + a, vfm, th + a, tmax)
                ru, rv = u * np.cos(a) - v * np.sin(a), u * np.sin(a) + v * np.cos(a)
                chk.close(np.where(ok, u2, 0), np.where(ok, ru, 0), "rotation", what + " rotated eastward", rep, rtol=1e-6, atol=1e-6 * sp)
                chk.close(np.where(ok, v2, 0), np.where(ok, rv, 0), "rotation", what + " rotated northward", rep, rtol=1e-6, atol=1e-6 * sp)
                # column-major grids
                F = np.asfortranarray
                good, res = chk.call(obj.field, F(R), F(lam), vfm, th, tmax, _kind="field-error",
                                     _what="%s/%s column-major" % (field, name), _replay=rep)
                if good:
                    chk.close(res[0], u, "layout", what + " column-major grid", rep, rtol=1e-9, atol=1e-9)
                    chk.close(res[1], v, "layout", what + " column-major grid", rep, rtol=1e-9, atol=1e-9)
                # cyclonic and inflowing at the outer ring for a stationary storm
                if field != "kepert" or name in ("holland", "powell", "schloemer", "willoughby"):
                    ang = np.linspace(0, 2 * np.pi, 12, endpoint=False)
                    for ring in (1.5, 4.0):
                        Rr = np.full((1, 12), ring * rm)
                        u3, v3 = obj.field(Rr, ang[None], 0.0, th, tmax)
                        if not (np.isfinite(u3).all() and np.isfinite(v3).all()):
                            continue
                        tang = -u3 * np.sin(ang) + v3 * np.cos(ang)
                        rad = u3 * np.cos(ang) + v3 * np.sin(ang)
                        if name != "doubleholland":
                            chk.expect((tang * np.sign(lat) >= -1e-9).all(), "rotation-sense", what + " rotates anticyclonically", rep)
                            chk.expect((rad <= 1e-9).all(), "outflow", what + " blows outward at the surface", rep)
                        s3 = np.hypot(u3, v3)
                        chk.expect(np.ptp(s3) <= 1e-7 * max(1, s3.max()), "axisymmetry", what + " stationary storm not axisymmetric", rep)


def run(chk):
    ext.build()
    chk.pmap(scenario, [(m, b) for b in range(chk.n(4, 8)) for m in ("interpreted", "compiled")])
