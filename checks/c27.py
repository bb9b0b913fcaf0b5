"""C27: interpolated tracks against the observations they come from."""
import os
import sys
from datetime import datetime, timedelta

import numpy as np

from harness import core, obs, synth

MISS = float(sys.maxsize)


def make():
    return core.Check("C27", "one evaluation per interpolated record compared",
                      ["observation times are whole minutes and increase", "no track crosses the Greenwich meridian",
                       "pressures that are present lie between 700 hPa and 1100 hPa"])


class Plain:
    """The observations of one track as plain arrays."""

    def __init__(self, t, hpa=1.0):
        g = lambda n: np.array(t.data[n], dtype=float)
        self.when = [x for x in t.data["Datetime"]]
        self.t = np.array([(x - self.when[0]).total_seconds() / 3600 for x in self.when])
        self.lon, self.lat, self.p, self.env, self.r = g("Longitude"), g("Latitude"), g("CentralPressure"), g("EnvPressure"), g("rMax")
        self.v = g("WindSpeed") if "WindSpeed" in t.data.dtype.names else None
        self.id = t.trackId
        self.n = len(self.t)


def times(o, delta):
    """The expected times, None where rounding decides how many there are."""
    q = (o.t[-1] + 0.01) / delta
    if abs(q - round(q)) < 1e-6:
        return None
    x = np.arange(int(np.ceil(q))) * delta
    x[-1] = o.t[-1]
    return x


def judge(chk, o, new, delta, kind, what, rep):
    g = lambda n: np.array(new.data[n], dtype=float)
    x = times(o, delta)
    if x is None:
        return
    bad = lambda k, msg: chk.violate(k, "%s: %s" % (what, msg), rep)
    if len(new.data) != len(x):
        return bad("times", "%d records from %g hours every %g hours, expected %d" % (len(new.data), o.t[-1], delta, len(x)))
    # times and dates
    if np.abs(g("TimeElapsed") - x).max() > 1e-5 * max(1.0, x[-1]):
        k = int(np.argmax(np.abs(g("TimeElapsed") - x)))
        return bad("times", "record %d at %r hours, expected %r" % (k, g("TimeElapsed")[k], x[k]))
    for k, (h, d) in enumerate(zip(x, new.data["Datetime"])):
        w = o.when[0] + timedelta(hours=float(h))
        if abs((d - w).total_seconds()) > 0.51:
            return bad("dates", "record %d dated %s, expected %s" % (k, d, w))
        part = tuple(int(new.data[n][k]) for n in ("Year", "Month", "Day", "Hour", "Minute"))
        if part != (d.year, d.month, d.day, d.hour, d.minute):
            return bad("dates", "record %d has date %s and parts %r" % (k, d, part))
    # identity
    if list(g("Indicator")) != [1] + [0] * (len(x) - 1) or not np.all(g("CycloneNumber") == o.id[0]) or tuple(new.trackId) != tuple(o.id):
        return bad("identity", "indicator %r, number %r, identifier %r of track %r" % (list(g("Indicator"))[:5], g("CycloneNumber")[0], new.trackId, o.id))
    # positions
    at = np.array([int(np.argmin(np.abs(o.t - h))) for h in x])
    hit = np.abs(o.t[at] - x) < 1e-6
    lon, lat = g("Longitude"), g("Latitude")
    linear = kind == "linear" or o.n <= 3
    for name, a, b in (("longitude", lon, o.lon), ("latitude", lat, o.lat)):
        ref = np.interp(x, o.t, b)
        chosen = np.ones(len(x), bool) if linear else hit
        e = np.where(chosen, np.abs(a - ref), 0)
        if not (np.all(np.isfinite(a)) and e.max() < 4e-5):
            k = int(np.argmax(e))
            return bad("position", "%s %r at %g hours, expected %r (%s)" % (name, a[k], x[k], ref[k], "observed" if hit[k] else "between observations"))
    # pressure
    ok = (o.p > 0) & (o.p < MISS)
    if ok.sum() >= 2:
        ref = np.interp(x, o.t[ok], o.p[ok])
        gone = (x < o.t[ok][0] - 1e-6) | (x > o.t[ok][-1] + 1e-6)
    else:
        ref = np.full(len(x), o.p[ok][0] if ok.any() else np.nan)
        gone = np.full(len(x), not ok.any())
    p = g("CentralPressure")
    wrong = np.where(gone, p < 1e18, ~(np.abs(p - ref) < 2e-4 * 10))
    if wrong.any():
        k = int(np.argmax(wrong))
        return bad("pressure", "central pressure %r at %g hours, expected %s; observed %r at %r" % (
            p[k], x[k], "none" if gone[k] else repr(ref[k]), [q if f else None for q, f in zip(o.p, ok)][:12], list(o.t)[:12]))
    use = ok | ~np.isnan(o.env)
    if use.any() and not np.isnan(o.env[use]).any():
        ref = np.interp(x, o.t[use], o.env[use])
        wrong = ~gone & ~(np.abs(g("EnvPressure") - ref) < 2e-3)
        if wrong.any():
            k = int(np.argmax(wrong))
            return bad("environment", "environmental pressure %r at %g hours, expected %r" % (g("EnvPressure")[k], x[k], ref[k]))
    e = np.abs(g("rMax") - np.interp(x, o.t, o.r)) / np.maximum(1.0, np.interp(x, o.t, np.abs(o.r)))
    if not e.max() < 1e-5:
        k = int(np.argmax(e))
        return bad("radius", "radius %r at %g hours" % (g("rMax")[k], x[k]))
    if o.v is not None and ok.sum() >= 2:
        e = np.where(gone, 0, np.abs(g("WindSpeed") - np.interp(x, o.t[ok], o.v[ok])))
        if not e.max() < 1e-3:
            k = int(np.argmax(e))
            return bad("wind", "wind speed %r at %g hours" % (g("WindSpeed")[k], x[k]))
    # motion between successive positions
    if len(x) > 1:
        v, b = g("Speed"), g("Bearing")
        for k in range(len(x) - 1):
            d, az = obs.step({"lon": lon[k], "lat": lat[k]}, {"lon": lon[k + 1], "lat": lat[k + 1]})
            dt = x[k + 1] - x[k]
            if abs(v[k] - d / dt) > 0.006 / dt + 1e-4 * d / dt:
                return bad("speed", "speed %r km/h at %g hours, expected %r" % (v[k], x[k], d / dt))
            if d > 0.2 and abs((b[k] - az + 180) % 360 - 180) > np.degrees(0.006 / d) + 1e-3:
                return bad("bearing", "bearing %r at %g hours, expected %r" % (b[k], x[k], az))
        if v[-1] != v[-2] or b[-1] != b[-2]:
            return bad("speed", "last record moves at %r %r, the one before at %r %r" % (v[-1], b[-1], v[-2], b[-2]))
    chk.evaluated((kind, min(o.n, 5), bool(gone.any()), int(min(ok.sum(), 3)), bool((~ok).any()), bool(not hit.all()), o.when[0].year != new.data["Datetime"][-1].year),
                  {"observations": o.n, "step": delta, "type": kind, "records": len(x)}, k=len(x))


def retime(rng, sts):
    """Increasing times in whole minutes; some records near month, year and leap-day ends."""
    for s in sts:
        if rng.random() < 0.3:
            y = int(rng.choice([1999, 2000, 2003, 2004]))
            base = datetime(y, 12, 31, 18) if rng.random() < 0.5 else datetime(y, 2, 28, 12)
        else:
            base = s[0]["time"].replace(second=0, microsecond=0)
        t = base
        whole = rng.random() < 0.6
        for r in s:
            r["time"] = t
            t = t + timedelta(minutes=int(rng.choice([360, 360, 180, 720])) if whole else int(rng.integers(5, 900)))
            r["season"] = base.year


def case(chk, k):
    from Evaluate import interpolateTracks
    from Utilities import config, loadData
    rng = chk.rng("file", k)
    lay = obs.layout(rng, ids="index", dates="date", delimiter=",")
    lay["fmt"] = "%Y-%m-%d %H:%M:%S"
    sts = obs.storms(rng, int(rng.choice([1, 2, 6, 15])), jumps=False, lat0=2.0 if k % 3 == 0 else -40.0, lat1=40.0 if k % 3 == 0 else -2.0)
    retime(rng, sts)
    obs.refine(rng, sts, 10)
    for s in sts:
        if rng.random() < 0.3:                      # pressures missing at the ends, or at all but one or two records
            keep = [int(x) for x in rng.integers(0, len(s), int(rng.integers(0, 3)))]
            for i, r in enumerate(s):
                if i not in keep:
                    r["code"] = "-999"
    d = chk.scratch("i")
    path, ini, mslp, out = (os.path.join(d, n) for n in ("tracks.csv", "x.ini", "mslp.nc", "interp.nc"))
    obs.write(path, rng, lay, sts)
    synth.write_mslp(mslp, lambda *a: 1012.5 + 0 * a[0], nt=12, ny=9, nx=12)
    with open(ini, "w") as f:
        f.write("[DataProcess]\nFilterSeasons=False\n[Input]\nMSLPFile=%s\n\n%s" % (mslp, obs.section(lay)))
    kind = [None, "linear", "akima"][k % 3] if rng.random() < 0.9 else "linear"
    delta = float(rng.choice([1 / 12.0, 0.1, 0.25, 0.5, 1.0, 1.0, 3.0, 6.0, 7.0]))
    rep = lambda: {"case": k, "step": delta, "type": kind, "file": open(path).read()[:3000] if os.path.exists(path) else None}
    config.reset()
    seed = int(rng.integers(2 ** 31))
    np.random.seed(seed)
    src = [Plain(t) for t in loadData.loadTrackFile(ini, path, "SRC")]
    save = k % 4 == 0
    np.random.seed(seed)
    ok, res = chk.call(interpolateTracks.parseTracks, ini, path, "SRC", delta, out if save else None, kind,
                       _kind="interpolation-fails", _what="interpolating a track file", _replay=rep)
    if not ok:
        return
    if not chk.expect(len(res) == len(src), "tracks", lambda: "%d tracks from %d" % (len(res), len(src)), rep):
        return
    for i, (o, t) in enumerate(zip(src, res)):
        what = "track %d (%d records)" % (i, o.n)
        if o.n == 1:
            chk.expect(len(t.data) == 1 and abs(float(t.data["Longitude"][0]) - o.lon[0]) < 1e-4 and t.data["Datetime"][0] == o.when[0], "single",
                       lambda: "%s: single record changed to %r" % (what, t.data), rep)
            chk.evaluated(("single",))
        else:
            judge(chk, o, t, delta, kind, what, rep)
    if save:
        from harness import trackgen
        back = trackgen.read_file(out)
        if chk.expect(len(back) == len(res), "saved", lambda: "%d tracks saved of %d" % (len(back), len(res)), rep):
            key = lambda t: (len(t[0]), tuple(np.round(t[0][:3], 3)))
            a = sorted(((np.array(t.lon), np.array(t.lat), t.dates) for t in back), key=key)
            b = sorted(((np.array(t.data["Longitude"], float), np.array(t.data["Latitude"], float), list(t.data["Datetime"])) for t in res), key=key)
            chk.expect(all(len(x[0]) == len(y[0]) and np.allclose(x[0], y[0], atol=1e-4) and np.allclose(x[1], y[1], atol=1e-4)
                           and all(abs((p - q).total_seconds()) < 1.01 for p, q in zip(x[2], y[2])) for x, y in zip(a, b)), "saved",
                       "the saved tracks differ from the returned ones", rep)
            chk.evaluated(("saved",), None, k=len(res))


def stored(chk, k):
    """Tracks read from a track file of the model, and straight uniform motion for every type."""
    from Evaluate import interpolateTracks
    from Utilities.track import Track, ncReadTrackData, ncSaveTracks
    from harness import windref
    rng = chk.rng("stored", k)
    d = chk.scratch("n")
    path = os.path.join(d, "t.nc")
    lim = {"xMin": 140.0, "xMax": 146.0, "yMin": -22.0, "yMax": -15.0}
    tracks = []
    straight = k % 2 == 0
    for j in range(int(rng.integers(1, 4))):
        data = windref.storm_track(rng, lim, int(rng.choice([2, 3, 4, 5, 9, 30])), dt=float(rng.choice([1, 3, 6])), ident=(j, 0))
        if straight:
            n = np.arange(len(data))
            data["Longitude"] = float(rng.uniform(130, 160)) + n * float(rng.uniform(-0.5, 0.5))
            data["Latitude"] = float(rng.uniform(-20, -15)) + n * float(rng.uniform(-0.3, 0.3))
        t = Track(data)
        t.trackId, t.trackfile = (j, 0), path
        tracks.append(t)
    ncSaveTracks(path, tracks)
    kind = [None, "linear", "akima"][k % 3]
    delta = float(rng.choice([1 / 12.0, 0.25, 0.5, 1.0, 2.0]))
    rep = lambda: {"case": "stored %d" % k, "step": delta, "type": kind}
    src = [Plain(t) for t in ncReadTrackData(path)]
    ok, res = chk.call(interpolateTracks.parseTracks, None, path, None, delta, None, kind, _kind="interpolation-fails", _what="interpolating stored tracks", _replay=rep)
    if not ok or not chk.expect(len(res) == len(src), "tracks", lambda: "%d tracks from %d" % (len(res), len(src)), rep):
        return
    for i, (o, t) in enumerate(zip(src, res)):
        judge(chk, o, t, delta, "linear" if straight else kind, "stored track %d (%d records)" % (i, o.n), rep)


def group(chk, items):
    for f, k in items:
        (case if f == "c" else stored)(chk, k)


def run(chk):
    import Evaluate.interpolateTracks      # noqa: F401
    items = [("c", k) for k in range(chk.n(96, 1600))] + [("s", k) for k in range(chk.n(48, 800))]
    chk.pmap(group, [items[a::16] for a in range(16)])
