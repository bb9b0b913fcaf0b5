"""C37: every simulated step draws on the statistics of the cell it occupies."""
import numpy as np
from scipy import stats as sps

from harness import core, trackgen
from checks.c04 import land_flags


def make():
    return core.Check("C37", "one evaluation per track step (noise-free) or per recovered residual (noisy)",
                      ["points within 1.5 mask cells of a coastline are not judged",
                       "residual tests avoid the pressure floor with low cell minima"])


def cell(s, lon, lat):
    nx = int(round((s.limit["xMax"] - s.limit["xMin"]) / s.space["x"]))
    j = np.floor((lon - s.limit["xMin"]) / s.space["x"]).astype(int)
    i = np.floor((s.limit["yMax"] - lat) / s.space["y"]).astype(int)
    return i * nx + j


def near_edge(s, lon, lat):
    a = np.mod((lon - s.limit["xMin"]) / s.space["x"], 1.0)
    b = np.mod((s.limit["yMax"] - lat) / s.space["y"], 1.0)
    return (np.minimum(a, 1 - a) < 1e-4) | (np.minimum(b, 1 - b) < 1e-4)


def support(cdf):
    """Interval outside which the cell's distribution has no mass (one bin of slack)."""
    x, y = cdf
    lo = np.flatnonzero(y > 0)[0]
    hi = np.flatnonzero(y >= 1 - 1e-7)[0]
    return x[max(lo - 1, 0)] - 1e-3, x[min(hi + 1, len(x) - 1)] + 1e-3


def quiet(chk, k):
    """No noise: each step must reproduce its own cell's means exactly."""
    rng = chk.rng("quiet", k)
    s = trackgen.make(chk.scratch("s"), rng, domain=k % len(trackgen.DOMAINS), nsim=3, freq=6.0, steps=120,
                      dt=[1.0, 0.5, 2.0][k % 3], mask_step=0.05, land=["stripes", "none", "all"][k % 3 if k % 2 else 0],
                      proc=dict(noise=0.0, p_lo=940.0, p_hi=980.0, dp_mu=(-0.6, 0.4), speed=(8, 40), spread=1.2,
                                p_min=(985, 1000) if k % 4 == 3 else (920, 960)))
    if trackgen.failed(chk, trackgen.run(s), "generation-failed", "scenario %d" % k, trackgen.describe(s)):
        return
    st = s.stats
    for sim, tracks in sorted(trackgen.read_all(s).items()):
        for t in tracks:
            rep = lambda: {"scenario": trackgen.describe(s), "track": t.id,
                           "data": {q: getattr(t, q)[:60] for q in ("lon", "lat", "speed", "bearing", "pc")}}
            c = cell(s, t.lon, t.lat)
            # genesis values come from the genesis cell's own distributions
            for name, val in (("bearing", t.bearing[0]), ("speed", t.speed[0]),
                              ("day", t.dates[0].timetuple().tm_yday)):
                lo, hi = support(st["cdf"][name][int(c[0])])
                slack = 1.0 if name == "day" else 1e-2
                chk.expect(lo - slack <= val <= hi + slack, "genesis-" + name,
                           lambda: "track %s: genesis %s %.3f outside the %.2f..%.2f of its cell %d"
                           % (t.id, name, val, lo, hi, c[0]), rep)
            chk.evaluated((k, t.id, "genesis"))
            flags = land_flags(s, t)
            edge = near_edge(s, t.lon, t.lat)
            amb = False
            for i in range(1, len(t.lon)):
                if flags[i] < 0 or edge[i]:
                    continue
                land = flags[i] == 1
                ci = int(c[i])
                p = "l" if land else ""
                if i > 1:
                    want = np.degrees(st["bearing"][p + "mu"][ci]) % 360
                    d = abs((t.bearing[i] - want + 180) % 360 - 180)
                    chk.expect(d < 1e-2, "bearing", lambda: "track %s step %d in cell %d (%s): bearing %.3f, cell mean %.3f"
                               % (t.id, i, ci, "land" if land else "sea", t.bearing[i], want), rep)
                    want = abs(st["speed"][p + "mu"][ci])
                    chk.expect(abs(t.speed[i] - want) < 1e-3 * max(1, want), "speed",
                               lambda: "track %s step %d in cell %d (%s): speed %.4f, cell mean %.4f"
                               % (t.id, i, ci, "land" if land else "sea", t.speed[i], want), rep)
                    chk.count("cells_land" if land else "cells_sea")
                if not land:
                    want = st["pressure_rate"]["mu"][ci] * s.dt if i > 1 else 0.0
                    got = t.pc[i] - t.pc[i - 1]
                    floor = st["pressure"]["min"][ci] - 4 * st["pressure"]["sig"][ci]
                    margin = t.pc[i - 1] + want - floor
                    if margin < 0:
                        want = abs(want)
                        chk.count("steps_below_pressure_floor")
                    if abs(margin) < 2e-3:
                        continue
                    chk.expect(abs(got - want) < 1e-3, "pressure-tendency",
                               lambda: "track %s step %d in cell %d: pressure change %.4f, cell mean %.4f"
                               % (t.id, i, ci, got, want), rep)
                chk.evaluated((k, ci, bool(land)), {"cell": ci, "land": bool(land), "bearing": float(t.bearing[i])})


def noisy(chk, k):
    """All cells alike: the pressure tendency must be first-order autoregressive."""
    rng = chk.rng("noisy", k)
    s = trackgen.make(chk.scratch("s"), rng, domain=k % 2, nsim=6, freq=14.0, steps=150, dt=1.0, land="none",
                      proc=dict(uniform=True, p_lo=920.0, p_hi=960.0, dp_mu=(-0.1, 0.1), p_min=(700, 720),
                                speed=(14, 18) if k % 2 else (5, 12), noise=0.3 if k % 2 else 1.0))
    if trackgen.failed(chk, trackgen.run(s), "generation-failed", "noisy %d" % k, trackgen.describe(s)):
        return
    st = s.stats
    out = {"pressure": [], "bearing": [], "speed": []}
    for sim, tracks in sorted(trackgen.read_all(s).items()):
        for t in tracks:
            q = st["pressure_rate"]
            chi = (np.diff(t.pc) / s.dt - q["mu"][0]) / q["sig"][0]
            chi = chi[1:]
            out["pressure"] += list((chi[1:] - q["alpha"][0] * chi[:-1]) / q["phi"][0])
            q = st["speed"]
            if k % 2:      # spread small enough that speeds are never reflected at zero
                chi = (t.speed[2:] - q["mu"][0]) / q["sig"][0]
                out["speed"] += list((chi[1:] - q["alpha"][0] * chi[:-1]) / q["phi"][0])
            q = st["bearing"]
            d = (t.bearing[2:] - np.degrees(q["mu"][0]) + 180) % 360 - 180
            chi = np.radians(d) / q["sig"][0]
            out["bearing"] += list((chi[1:] - q["alpha"][0] * chi[:-1]) / q["phi"][0])
    return out


def job(chk, item):
    kind, k = item
    return quiet(chk, k) if kind == "quiet" else noisy(chk, k)


def run(chk):
    items = [("quiet", k) for k in range(chk.n(12, 60))] + [("noisy", k) for k in range(chk.n(6, 24))]
    vals = chk.pmap(job, items)
    for name in ("pressure", "bearing", "speed"):
        r = np.concatenate([np.asarray(v[name]) for v in vals if v] or [np.array([])])
        r = r[np.isfinite(r)]
        if len(r) < 1500:
            raise RuntimeError("only %d residuals recovered" % len(r))
        chk.count(name + "_residuals", len(r))
        # robust quantities of the standard logistic law: median 0, quartiles +-ln 3
        q1, q2, q3 = np.quantile(r, [0.25, 0.5, 0.75])
        n = len(r)
        tol = 7.0 / np.sqrt(n) * 2.4 + 0.02
        chk.expect(abs(q2) < tol, "innovation-centre", "%s innovations have median %.3f (n=%d)" % (name, q2, n))
        chk.expect(abs((q3 - q1) - 2 * np.log(3)) < 2 * tol, "innovation-spread",
                   "%s innovations have interquartile range %.3f, expected %.3f (n=%d)" % (name, q3 - q1, 2 * np.log(3), n))
        u = sps.rankdata(r) / (n + 1)
        rho = np.corrcoef(u[1:], u[:-1])[0, 1]
        chk.expect(abs(rho) < 7.0 / np.sqrt(n) + 0.01, "innovation-memory",
                   "%s innovations are correlated (%.3f, n=%d): lag-one coefficient not applied" % (name, rho, n))
        chk.evaluated(("residuals", name), {"variable": name, "n": n, "quartiles": [q1, q2, q3], "serial": rho}, k=n)
