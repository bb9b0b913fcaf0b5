"""C04: environmental pressure and over-land decay follow each storm's own state."""
import numpy as np

from harness import core, trackgen

# central pressure bound to environmental pressure: published fit, evaluated independently
def poci(penv, pc, lat, jday):
    return (2324.1564738613392 - 0.6539853183796136 * penv - 1.3984456535888878 * pc
            + 0.00074072928008818927 * pc * pc + 0.0044469231429346088 * lat * lat
            - 1.4337623534206905 * np.cos(2 * np.pi * jday / 365.0))


def make():
    return core.Check("C04", "one evaluation per track step whose land/sea state is unambiguous",
                      ["points within 1.5 mask cells of a coastline are not judged",
                       "days within 10 of the year end (3 with a daily climatology) are not judged (periodic interpolation)"])


def land_flags(s, t):
    """1 land, 0 sea, -1 too close to a coastline to say."""
    d = 1.5 * s.mask_step
    votes = np.array([s.is_land(t.lon + a, t.lat + b) for a in (-d, 0, d) for b in (-d, 0, d)]).astype(int)
    n = votes.sum(axis=0)
    return np.where(n == 0, 0, np.where(n == len(votes), 1, -1))


def monitor(chk, s, t, k):
    n = len(t.lon)
    rep = lambda: {"scenario": trackgen.describe(s), "track": t.id,
                   "data": {q: getattr(t, q)[:60] for q in ("age", "lon", "lat", "speed", "pc", "pe")}}
    jday = np.mod(np.array([d.timetuple().tm_yday for d in t.dates[:1]])[0] + t.dates[0].hour / 24.0
                  + np.arange(n) * s.dt / 24.0, 365.0)
    resid = t.pe - poci(s.mslp(jday, t.lat, t.lon), t.pc, t.lat, jday)
    ok = (jday > s.edge) & (jday < 364 - s.edge)
    if ok[1:].sum() >= 2:
        ref = np.median(resid[1:][ok[1:]])
        dev = np.where(ok, np.abs(resid - ref), 0.0)
        chk.expect((dev[1:] < 0.02).all(), "environment",
                   lambda: "track %s: environmental pressure departs from the climatology of the storm's own "
                   "day and position by %.3f hPa at step %d" % (t.id, dev[1:].max(), 1 + dev[1:].argmax()), rep)
        if ok[0]:
            chk.expect(dev[0] < 0.1, "genesis-environment",
                       "track %s (number %d of its season): genesis environmental pressure is %.2f hPa from the "
                       "climatology of its own day and position" % (t.id, t.id[0], dev[0]), rep)
            chk.count("genesis_checked")
            chk.count("genesis_checked_later_tracks", t.id[0] > 0)
        chk.expect(abs(ref) < 16, "environment-offset", "track %s: offset %.2f hPa" % (t.id, ref), rep)
        chk.count("storms_across_new_year", bool((jday[ok] < 60).any() and (jday[ok] > 300).any()))
        chk.evaluated((k, t.id, "env"), k=int(ok.sum()))
    flags = land_flags(s, t)
    flags[0] = 0
    amb = np.flatnonzero(flags[1:] < 0)
    end = (amb[0] + 1) if len(amb) else n
    lo, hi, last, sea, nland, landfalls = -np.inf, np.inf, 0, True, 0, 0
    for i in range(1, end):
        if not flags[i]:
            last, sea = i, True
            continue
        landfalls += sea
        sea = False
        tol = (i - last) * s.dt
        D = t.pe[last] - t.pc[last]
        x = t.pe[i - 1] - t.pc[i]
        if not chk.expect(x > 0, "decay", "track %s step %d: pressure over land above environment" % (t.id, i), rep):
            break
        lf = -np.log(x / D) / tol - (0.03515 + 0.000435 * D + 0.002865 * t.speed[last])
        err = (5e-4 / x + 5e-4 / D) / tol + 1e-6
        nland += 1
        if not chk.expect(lf + err >= -0.0615, "decay", lambda: "track %s step %d (%.1f h after landfall %d): deficit "
                          "decays too slowly, %.3f from %.3f hPa" % (t.id, i, tol, landfalls, x, D), rep):
            break
        lo, hi = max(lo, lf - err), min(hi, lf + err)
        chk.count("steps_after_second_landfall", landfalls > 1)
        if not chk.expect(lo <= hi, "decay", lambda: "track %s step %d (%.1f h after landfall %d): deficit %.3f hPa "
                          "is not the exponential decay of %.3f hPa since that landfall" % (t.id, i, tol, landfalls, x, D),
                          rep):
            break
    if nland:
        chk.count("land_steps", nland)
        chk.evaluated((k, t.id, "land", landfalls), {"track": t.id, "land_steps": nland, "landfalls": landfalls}, k=nland)


def scenario(chk, k):
    rng = chk.rng("scenario", k)
    newyear = k % 7 in (2, 5)                   # storms that live across the end of the year
    proc = dict(p_lo=925.0, p_hi=965.0, dp_mu=(-1.5, 0.0), noise=0.5, speed=(10, 45))
    if newyear:
        proc.update(days=(352, 360), speed=(2, 8))
    s = trackgen.make(chk.scratch("s"), rng, domain=k % len(trackgen.DOMAINS), nsim=4, freq=7.0, steps=160 if newyear else 120,
                      dt=3.0 if newyear else [0.5, 1.0, 1.0, 2.0][k % 4], mask_step=0.04, land="none" if k == 3 or newyear else "stripes",
                      proc=proc, mslp_n=(365, 60, 120) if newyear else (73, 90, 180))
    s.edge = 3 if newyear else 10
    if trackgen.failed(chk, trackgen.run(s), "generation-failed", "scenario %d" % k, trackgen.describe(s)):
        return
    for sim, tracks in sorted(trackgen.read_all(s).items()):
        for t in tracks:
            monitor(chk, s, t, k)


def run(chk):
    chk.pmap(scenario, range(chk.n(14, 60)))
    if not chk.violations and chk.counters.get("steps_after_second_landfall", 0) < 5:
        raise RuntimeError("too few second landfalls observed: %s" % chk.counters)
