"""C06: radial wind profiles against independent reference profiles."""
import numpy as np

from harness import core, ext, refwind


def make():
    return core.Check("C06", "one evaluation per (profile, storm, radius array); a case is a distinct (profile, storm)",
                      ["pressure deficit at least 1 hPa, radius of maximum winds 5-200 km, |latitude| 0.5-45",
                       "storms whose fitted core curvature at the radius of maximum winds is negative"])


def layouts(rng, R):
    """The same radii in different array shapes and memory layouts."""
    n = (len(R) // 6) * 6
    flat = R[:n]
    pad = np.full((n // 6, 12), 5e4)
    pad[:, ::2] = flat.reshape(n // 6, 6)
    return [("1-d", R, lambda a: a), ("2-d", flat.reshape(6, -1), lambda a: np.ascontiguousarray(a).ravel()),
            ("2-d column-major", np.asfortranarray(flat.reshape(6, -1)), lambda a: np.ascontiguousarray(a).ravel()),
            ("strided", pad[:, ::2], lambda a: np.ascontiguousarray(a).ravel()),
            ("reversed", R[::-1], lambda a: a[::-1])]


def radii(rng, rm, zero):
    x = np.concatenate([rng.uniform(0, 1, 30), rng.uniform(1, 3, 30), 10 ** rng.uniform(-5, 1.6, 30),
                        [0.25, 0.5, 1, np.nextafter(1, 2), np.nextafter(1, 0), 1.2, 2, np.nextafter(2, 3), 4, 30]])
    R = x * rm
    R = np.concatenate([R, [rm, np.nextafter(rm, 0), np.nextafter(rm, 1e9), 1e-27, 2000e3]])
    if zero:
        R = np.append(R, 0.0)
    rng.shuffle(R)
    return R


def storm(rng):
    lat = rng.uniform(0.5, 45) * rng.choice([-1, 1])
    if rng.random() < 0.2:
        lat = float(rng.choice([-20.13, 5.0, -5.0, 30.0, -0.5, 0.5]))
    pe = rng.uniform(98000, 103500)
    dp = rng.choice([rng.uniform(100, 1500), rng.uniform(1500, 13000), 1500.0, 1499.0, 800.0])
    rm = rng.choice([rng.uniform(5e3, 200e3), rng.uniform(10e3, 60e3)])
    return float(lat), float(rng.uniform(-180, 360)), float(pe), float(pe - dp), float(rm)


def scenario(chk, item):
    mode, block = item
    if mode == "compiled":
        ext.install()
    else:
        ext.hide()
    from wind import windmodels as wm
    from wind import vmax as vm
    rng = chk.rng("profiles", block)
    E = {"willoughby": wm.WilloughbyWindSpeed, "holland": wm.HollandWindSpeed, "atkinson": wm.AtkinsonWindSpeed}
    for it in range(chk.n(60, 500)):
        lat, lon, pe, pc, rm = storm(rng)
        dp = pe - pc
        hpa = rng.random() < 0.4
        u = 0.01 if hpa else 1.0
        if hpa:     # what the model sees after its own conversion
            pe, pc = (pe * u) * 100.0, (pc * u) * 100.0
            dp = pe - pc
        args = (lat, lon, pe * u, pc * u, rm)
        for name in ("holland", "holland-est", "schloemer", "powell", "willoughby", "rankine", "jelesnianski",
                     "doubleholland", "newholland"):
            rep = {"profile": name, "storm": args, "mode": mode}
            kw = {}
            if name.startswith("holland"):
                kw["beta"] = float(rng.uniform(0.8, 2.5))
                if name == "holland":
                    obj, ref = wm.profile("holland")(*args, kw["beta"]), refwind.Holland(lat, dp, rm, kw["beta"])
                else:
                    est = rng.choice(["willoughby", "atkinson"])
                    kw["est"] = est
                    if est == "atkinson" and pc > 100800:
                        continue
                    obj = wm.HollandWindProfile(*args, kw["beta"], E[est])
                    v = refwind.vmax_willoughby(dp) if est == "willoughby" else refwind.vmax_atkinson(pc)
                    ref = refwind.Holland(lat, dp, rm, kw["beta"], v)
            elif name == "doubleholland":
                kw = {"beta1": float(rng.uniform(1.0, 2.0)), "beta2": float(rng.uniform(1.0, 2.0))}
                if rng.random() < 0.6:
                    kw["rMax2"] = float(rng.uniform(80e3, 300e3))
                ref = refwind.profile(name, lat, pe, pc, rm, **kw)
                if not ref.d2() < 0:
                    chk.count("double vortex without a core fit skipped")
                    continue
                obj = wm.profile(name)(*args, **kw)
            elif name == "newholland":
                kw = {"rGale": float(rng.uniform(210e3, 400e3))}
                if rm > 190e3:
                    continue
                obj, ref = wm.profile(name)(*args, **kw), None
            else:
                obj, ref = wm.profile(name)(*args), refwind.profile(name, lat, pe, pc, rm)
            rep["params"] = kw
            if isinstance(ref, refwind.Holland) and not ref.d2 < -1e-13:
                chk.count("storm without a core fit skipped")
                continue
            R = radii(rng, rm, name not in ("doubleholland", "newholland"))
            if name == "newholland":
                R = R[R < kw["rGale"]]
                want = refwind.newholland_velocity(R, lat, dp, rm, kw["rGale"])
                wantz = None
            else:
                want, wantz = ref.velocity(R), ref.vorticity(R)
            if ref is not None and hasattr(ref, "vm"):
                chk.close(obj.vMax, ref.vm, "max-wind", "%s %s vMax" % (name, args), rep, rtol=1e-9)
                at = obj.velocity(np.array([rm, rm * (1 - 1e-12), rm * 0.5]))
                chk.expect(abs(abs(at[0]) - ref.vm) <= 1e-8 * ref.vm, "peak-value",
                           lambda: "%s %s: speed at the radius of maximum winds %r, maximum wind %r" % (name, args, at[0], ref.vm), rep)
            for lname, arr, back in layouts(rng, R):
                keep = arr.copy()
                n = arr.size
                good, V = chk.call(obj.velocity, arr, _kind="profile-error", _what="%s velocity %s %s" % (name, args, lname), _replay=rep)
                if good:
                    vmx = np.abs(want).max()
                    if name == "doubleholland" and n != R.size:
                        w = ref.velocity(R[:n])
                    else:
                        w = want[:n]
                    chk.close(back(V), w, "velocity", "%s %s %s %s velocity" % (mode, name, args, lname),
                              lambda: dict(rep, R=R), rtol=1e-7, atol=1e-9 * vmx)
                    chk.expect(np.array_equal(keep, arr), "input-changed", "%s changed its radius array" % name, rep)
                if wantz is not None:
                    good, Z = chk.call(obj.vorticity, arr, _kind="profile-error", _what="%s vorticity %s %s" % (name, args, lname), _replay=rep)
                    if good:
                        ok = np.isfinite(wantz[:n])
                        chk.close(np.where(ok, back(Z), 0), np.where(ok, wantz[:n], 0), "vorticity",
                                  "%s %s %s %s vorticity" % (mode, name, args, lname), lambda: dict(rep, R=R), rtol=1e-6,
                                  atol=1e-9 * np.abs(wantz[:n][ok]).max() + (1e-7 * np.abs(want / np.maximum(R, rm * 1e-3)).max()))
                chk.evaluated((name, block, it), sample=rep)
        # maximum-wind estimators and their inverses
        for kind in ("willoughby", "holland", "atkinson"):
            if kind == "atkinson" and pc > 100800:
                continue
            beta, rho = float(rng.uniform(0.8, 2.5)), float(rng.choice([1.15, rng.uniform(1.0, 1.25)]))
            want = {"willoughby": refwind.vmax_willoughby(dp), "holland": np.sqrt(beta * dp / (np.e * rho)),
                    "atkinson": refwind.vmax_atkinson(pc)}[kind]
            rep = {"storm": args, "type": kind, "beta": beta, "rho": rho}
            got = vm.vmax(pc * u, pe * u, kind, beta, rho)
            chk.close(got, want, "estimator", "vmax %s %s" % (kind, args), rep, rtol=1e-9)
            env = 101000.0 if kind == "atkinson" else pe
            chk.close(vm.pDiff(want, env * u, kind, beta, rho), pc, "estimator-inverse", "pDiff %s %s" % (kind, args), rep,
                      rtol=1e-9)
            try:
                vm.vmax(pe * u, pc * u, kind, beta, rho)
                chk.violate("reversed-pressures", "vmax accepted a central pressure above the environment", rep)
            except ValueError:
                pass
            chk.evaluated((kind, "vmax", block, it))
    # the model registry returns every profile by its lower-case name
    chk.expect({"holland", "schloemer", "powell", "willoughby", "rankine", "jelesnianski", "doubleholland",
                "newholland"} <= set(wm.PROFILES), "registry", "profile registry %s" % sorted(wm.PROFILES))


def run(chk):
    ext.build()
    chk.pmap(scenario, [(m, b) for b in range(chk.n(4, 8)) for m in ("interpreted", "compiled")])
