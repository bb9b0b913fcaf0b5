"""C49: sizes of simulated storms: one relation to pressure and latitude, one deviation per storm."""
import numpy as np
from scipy import stats as sps

from harness import core, trackgen

SD = 0.335                      # of the deviation
LIMIT = 100.0                   # km, at genesis


def make():
    return core.Check("C49", "one evaluation per track step, one per storm's deviation",
                      ["sizes are not sampled from the input data", "first steps within 10 days of the year end are not judged (periodic interpolation)"])


def relation(dp, lat):
    """Log of the radius in km for a storm without deviation, as documented."""
    return 4.22 - 0.0198 * np.asarray(dp, float) + 0.0023 * np.abs(lat)


def scenario(chk, k):
    rng = chk.rng("scenario", k)
    weak = k % 2 == 0           # weak storms: hardly any is refused for its size
    s = trackgen.make(chk.scratch("s"), rng, domain=k % len(trackgen.DOMAINS), nsim=6, freq=9.0, steps=60, dt=[1.0, 2.0, 0.5, 3.0][k % 4],
                      mask_step=0.1, land=["stripes", "none", "all"][k % 3],
                      proc=dict(p_lo=965.0, p_hi=985.0, dp_mu=(-0.3, 0.1), noise=0.2, speed=(10, 35)) if weak
                      else dict(p_lo=915.0, p_hi=985.0, dp_mu=(-1.5, 0.5), noise=0.5, speed=(10, 45)))
    if trackgen.failed(chk, trackgen.run(s), "generation-failed", "scenario %d" % k, trackgen.describe(s)):
        return []
    out = []
    for sim, tracks in sorted(trackgen.read_all(s).items()):
        for t in tracks:
            rep = lambda: {"scenario": trackgen.describe(s), "track": t.id, "data": {q: getattr(t, q)[:60] for q in ("age", "lat", "pc", "pe", "rmax")}}
            if not chk.expect(np.all(t.rmax > 0) and np.isfinite(t.rmax).all(), "size", lambda: "track %s: radius %r" % (t.id, t.rmax.min()), rep):
                continue
            chk.expect(t.rmax[0] < LIMIT + 1e-6, "genesis-limit", lambda: "track %s starts with a radius of %.1f km" % (t.id, t.rmax[0]), rep)
            dev = np.log(t.rmax[1:]) - relation(t.pe[1:] - t.pc[1:], t.lat[1:])
            if len(dev):
                ref = np.median(dev)
                off = np.abs(dev - ref)
                chk.expect(off.max() < 1e-4, "relation", lambda: "track %s step %d: radius %.3f km, the storm's pressure deficit and latitude give %.3f km"
                           % (t.id, 1 + off.argmax(), t.rmax[1 + off.argmax()], np.exp(ref + np.log(t.rmax[1 + off.argmax()]) - dev[off.argmax()])), rep)
                chk.evaluated((k, t.id), {"track": t.id, "deviation": float(ref), "radius": [float(t.rmax.min()), float(t.rmax.max())]}, k=len(dev))
                day = (t.dates[0].timetuple().tm_yday + t.dates[0].hour / 24.0) % 365
                if 11 < day < 353:
                    base = relation(s.mslp(t.dates[0].timetuple().tm_yday, t.lat[0], t.lon[0]) - t.pc[0], t.lat[0])
                    chk.expect(abs(np.log(t.rmax[0]) - base - ref) < 4e-3, "genesis-size", lambda: "track %s: first radius %.3f km has another deviation (%.4f) than the rest of the storm (%.4f)"
                               % (t.id, t.rmax[0], np.log(t.rmax[0]) - base, ref), rep)
                    chk.count("genesis_checked")
                if weak:
                    top = np.log(LIMIT) - (np.log(t.rmax[0]) - ref)
                    out.append(sps.norm.cdf(ref / SD) / sps.norm.cdf(top / SD))
    return out


def run(chk):
    import TrackGenerator                               # noqa: F401
    u = np.array([x for v in chk.pmap(scenario, range(chk.n(16, 80))) for x in v or []])
    if len(u) > 100 and not chk.violations:
        for name, p in (("distribution", sps.kstest(u, "uniform").pvalue),
                        ("spread", sps.kstest(np.abs(2 * u - 1), "uniform").pvalue)):
            chk.expect(p > 1e-9, name, lambda: "deviations of %d storms are not normal with standard deviation %g, cut at %g km (p = %.2g; mean %.3f)" % (len(u), SD, LIMIT, p, u.mean()), {"ranks": np.sort(u)[::max(1, len(u) // 100)].tolist()})
        chk.expect(len(np.unique(np.round(u, 9))) > 0.9 * len(u), "shared", lambda: "only %d different deviations among %d storms" % (len(np.unique(np.round(u, 9))), len(u)), {})
        chk.evaluated("deviations", {"storms": len(u), "mean rank": float(u.mean()), "p": float(sps.kstest(u, "uniform").pvalue)})
    elif not chk.violations:
        raise RuntimeError("too few storms: %d" % len(u))
