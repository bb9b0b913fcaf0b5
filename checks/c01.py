"""C01: every simulated track is in-domain, well-formed and kinematically exact."""
import numpy as np

from harness import core, trackgen


def make():
    return core.Check(
        "C01", "one evaluation per (track, clause); distinct = track identity x scenario",
        ["track files are read back with an independent reader",
         "positions are stored in single precision: 3e-4 degrees tolerance"])


def monitor(chk, s, t, sc):
    n = len(t.lon)
    rep = lambda: {"scenario": trackgen.describe(s), "track": t.id,
                   "data": {k: getattr(t, k)[:40] for k in ("age", "lon", "lat", "speed", "bearing",
                                                           "pc", "pe", "rmax")}}
    e = lambda c, kind, msg: chk.expect(bool(c), kind, "track %s: %s" % (t.id, msg), rep)
    L = s.limit
    e(n > 0, "empty-track", "no points")
    if n == 0:
        return
    allv = np.array([t.lon, t.lat, t.speed, t.bearing, t.pc, t.pe, t.rmax, t.age], float)
    if not e(np.isfinite(allv).all(), "non-finite", "contains non-finite values"):
        return
    eps = 1e-4
    e(((t.lon >= L["xMin"] - eps) & (t.lon <= L["xMax"] + eps) &
       (t.lat >= L["yMin"] - eps) & (t.lat <= L["yMax"] + eps)).all(), "out-of-domain",
      "leaves the domain %s: lon %.4f..%.4f lat %.4f..%.4f" % (L, t.lon.min(), t.lon.max(), t.lat.min(), t.lat.max()))
    e((np.round(t.pc, 2) < np.round(t.pe, 2)).all(), "pressure-order", "central pressure not below environment")
    e(((t.rmax > 5) & (t.rmax < 500)).all(), "rmax-range", "rmax outside 5..500 km: %.2f..%.2f" % (t.rmax.min(), t.rmax.max()))
    e(t.rmax[0] <= 100.0, "rmax-genesis", "rmax at genesis %.2f" % t.rmax[0])
    e(t.age[0] == 0, "start-time", "starts at elapsed %.3f" % t.age[0])
    e(t.age[-1] >= 12 - 1e-3, "short-lived", "lasts %.2f h" % t.age[-1])
    e(n <= s.steps, "too-long", "%d points with at most %d allowed" % (n, s.steps))
    e(np.allclose(t.age, np.arange(n) * s.dt, rtol=1e-5, atol=1e-3), "elapsed-step", "elapsed time not multiples of the step")
    el = np.array([(d - t.dates[0]).total_seconds() for d in t.dates])
    e((np.abs(el - np.arange(n) * s.dt * 3600.0) <= 1.5).all(), "date-step",
      "calendar dates do not advance by the step: %s" % (np.diff(el)[:8],))
    e(((t.bearing >= 0) & (t.bearing <= 360)).all(), "bearing-range", "bearing outside [0,360)")
    e((t.speed >= 0).all(), "speed-sign", "negative speed")
    lo, la = trackgen.displace(t.lon[:-1], t.lat[:-1], t.bearing[:-1], t.speed[:-1] * s.dt)
    dlo = (t.lon[1:] - lo + 180) % 360 - 180
    err = np.maximum(np.abs(dlo), np.abs(t.lat[1:] - la))
    e(n < 2 or err.max() <= 3e-4, "kinematics",
      "position differs from displacement of the previous one by %.5f deg" % (err.max() if n > 1 else 0))
    deficit = t.pe - t.pc
    early = (t.age > 0) & (t.age <= 12)
    e((deficit[t.age > 12] >= 5 - 1e-3).all(), "deficit-late", "deficit below 5 hPa after 12 h")
    e((deficit[early] >= 2 - 1e-3).all(), "deficit-early", "deficit below 2 hPa within 12 h")
    e((t.cn == t.cn[0]).all(), "cyclone-number", "cyclone number changes along the track")
    chk.evaluated((sc, t.id), {"scenario": sc, "id": t.id, "points": n}, k=14)
    chk.count("tracks")
    chk.count("points", n)
    # non-vacuity of the interesting ways a track can end
    nlo, nla = trackgen.displace(t.lon[-1], t.lat[-1], t.bearing[-1], t.speed[-1] * s.dt)
    if nlo < L["xMin"] or nlo >= L["xMax"] or nla <= L["yMin"] or nla > L["yMax"]:
        chk.count("ended_at_domain_edge")
    elif n == s.steps:
        chk.count("ended_at_step_limit")
    else:
        chk.count("ended_by_weakening")


def scenario(chk, k):
    rng = chk.rng("scenario", k)
    kw = dict(domain=k % len(trackgen.DOMAINS), nsim=chk.n(4, 6), freq=float(rng.uniform(4, 9)),
              dt=[1.0, 3.0, 0.5, 2.0, 6.0, 1.5, 0.25, 2.75][k % 8], steps=[90, 200, 60, 400, 48, 150, 200, 80][k % 8],
              land=["stripes", "none", "stripes", "all", "stripes"][(k // 5 + k) % 5])
    proc = {}
    if k % 4 == 1:
        proc["speed"] = (1.0, 60.0)       # some reach the edge quickly
    if k % 4 == 2:
        proc["dp_mu"] = (-2.0, 2.0)
    if k % 4 == 3:
        proc.update(p_lo=990.0, p_hi=1012.0)   # weak storms near the validity limits
    s = trackgen.make(chk.scratch("s%d" % k), rng, **dict(kw, proc=proc))
    res = trackgen.run(s)
    if trackgen.failed(chk, res, "generation-failed", "scenario %d" % k, trackgen.describe(s)):
        return
    for sim, tracks in sorted(trackgen.read_all(s).items()):
        for t in tracks:
            monitor(chk, s, t, k)


def run(chk):
    chk.pmap(scenario, range(chk.n(14, 70)))
