"""C19: historical track files load into the records they contain."""
import os
import sys
from datetime import datetime, timedelta

import numpy as np

from harness import core, obs, synth

MSLP = 1012.5
EPS = 2.0


def make():
    return core.Check("C19", "one evaluation per input record compared with the loaded track point",
                      ["years, where given, have four digits", "ages and times are whole minutes",
                       "an identifier column that is present agrees with the others"])


def expected_time(lay, r, dummy):
    if lay["dates"] == "age":
        return datetime(2000, 1, 1) + timedelta(seconds=round(r["age"] * 3600))
    if lay["dates"] == "mdh":
        return r["time"].replace(year=dummy)
    return r["time"]


def holland(prev, r, dt, speed, env):
    """Maximum wind of Holland et al. (2010), ten-minute mean, from the pressure deficit."""
    p, lat = r["p"], r["lat"]
    if p is None or not np.isfinite(env):
        return 0.0
    dp = env - p
    dpdt = 0.0
    if prev is not None and dt > 0 and prev["p"] is not None:
        dpdt = (p - prev["p"]) / dt
        if abs(dpdt) > 5:
            dpdt = 0.0
    prmw = p + dp / 3.7
    ts = 28.0 - 3 * (abs(lat) - 10.0) / 20.0
    q = 0.9 * (3.802 / prmw) * np.exp(17.67 * ts / (243.5 + ts))
    rho = prmw * 100.0 / ((ts + 273.15) * (1 + 0.81 * q) * 287.04)
    vt = np.float64(0.0 if speed is None else speed * 0.2777778)
    beta = -4.4e-5 * dp ** 2 + 0.01 * dp + 0.03 * dpdt - 0.014 * abs(lat) + 0.15 * vt ** (0.6 * (1 - dp / 215.0)) + 1.0
    v2 = dp * 100 * beta / (rho * np.e)
    return 0.9524 * np.sqrt(v2) if v2 > 0 else 0.0


def case(chk, k):
    from Utilities import config, loadData
    rng = chk.rng("file", k)
    lay = obs.layout(rng)
    # a storm number without a season cannot tell consecutive storms with the same number apart
    north = rng.random() < 0.3
    sts = obs.storms(rng, int(rng.choice([1, 2, 5, 20, 60])), lat0=2.0 if north else -40.0, lat1=40.0 if north else -2.0,
                     wrap=rng.random() < 0.3)
    if k % 10 == 3:
        sts = [sts[0][:1]]
    if lay["id"] == "num":
        gap = int(rng.choice([1, 3]))
        for i, s in enumerate(sts):
            for r in s:
                r["num"] = i * gap + 1 if i % 2 else 1000 - i
    if lay["dates"] == "mdh":
        # years are made up: one storm may run from the end of one year into January only
        for s in sts:
            shift = datetime(s[0]["time"].year, 3, 5) - datetime(s[0]["time"].year, s[0]["time"].month, s[0]["time"].day)
            for r in s:
                r["time"] += shift
    obs.fit_times(lay, sts)
    obs.refine(rng, sts, 10)
    d = chk.scratch("trk")
    path = os.path.join(d, "tracks.csv")
    flat = obs.write(path, rng, lay, sts)
    if lay["dates"] == "hhmm" and max(int(r["file"]["hour"]) for r in flat) < 100:
        return
    filt = "season" in lay["columns"] and rng.random() < 0.5
    start = sorted(r["season"] for r in flat)[int(rng.integers(len(flat)))]
    mslp = os.path.join(d, "mslp.nc")
    synth.write_mslp(mslp, lambda *a: MSLP + 0 * a[0], nt=12, ny=9, nx=12, units="hPa" if rng.random() < 0.5 else "Pa")
    ini = os.path.join(d, "x.ini")
    with open(ini, "w") as f:
        f.write("[DataProcess]\nFilterSeasons=%s\nStartSeason=%d\n[Input]\nMSLPFile=%s\n\n%s"
                % (filt, start, mslp, obs.section(lay)))
    missing = 0 if rng.random() < 0.6 else sys.maxsize
    calc = bool(rng.random() < 0.6)
    if filt:
        flat = [r for r in flat if r["season"] >= start]
    config.reset()
    rep = lambda: {"case": k, "layout": lay, "missing": missing, "calc": calc, "filter": filt, "start": start,
                   "file": open(path).read()[:4000] if os.path.exists(path) else None}
    np.random.seed(int(rng.integers(2 ** 31)))
    kw = {"calculateWindSpeed": calc}
    if missing:
        kw["missingValue"] = missing
    ok, tracks = chk.call(loadData.loadTrackFile, ini, path, "SRC", _kind="load-fails", _what="loading a track file",
                          _replay=rep, **kw)
    chk.count("files")
    if not ok:
        return
    # the storms the file holds
    want = []
    for r in flat:
        if not want or want[-1][-1]["storm"] != r["storm"] or want[-1][-1]["part"] != r["part"]:
            want.append([])
        want[-1].append(r)
    if not chk.expect(len(tracks) == len(want) and [len(t.Longitude) for t in tracks] == [len(w) for w in want],
                      "storms", lambda: "storm lengths %r, the file holds %r"
                      % ([len(t.Longitude) for t in tracks][:40], [len(w) for w in want][:40]), rep):
        return
    n = len(want)
    for i, (t, w) in enumerate(zip(tracks, want)):
        one(chk, rng, lay, t, w, i, n, missing, calc, path, rep)


def same(a, b, tol):
    return np.isfinite(a) and abs(a - b) <= tol


def one(chk, rng, lay, t, w, i, n, missing, calc, path, rep):
    chk.expect(tuple(t.trackId) == (i + 1, n) and t.trackfile == path, "track-id",
               lambda: "track %r from %r, expected %r" % (t.trackId, t.trackfile, (i + 1, n)), rep)
    dummy = 2000
    env0 = None
    vals = []
    start = None
    for j, r in enumerate(w):
        prev = w[j - 1] if j else None
        key = (lay["dates"], lay["id"], lay["pressure"], r["code"], j == 0)
        g = lambda f: getattr(t, f)[j]
        bad = []
        if lay["dates"] == "mdh" and r["time"].month == 1:
            dummy = 2001
        when = expected_time(lay, r, dummy)
        if j == 0:
            start = when
        got = (g("Year"), g("Month"), g("Day"), g("Hour"), g("Minute"))
        if tuple(int(x) for x in got) != (when.year, when.month, when.day, when.hour, when.minute) or g("Datetime") != when:
            bad.append("date %r %r, expected %s" % (got, g("Datetime"), when))
        elapsed = r["age"] if lay["dates"] == "age" else (when - start).total_seconds() / 3600
        if not same(g("TimeElapsed"), elapsed, 1e-5 * abs(elapsed) + 1e-4):
            bad.append("elapsed %r, expected %r" % (g("TimeElapsed"), elapsed))
        if int(g("CycloneNumber")) != i + 1 or int(g("Indicator")) != (1 if j == 0 else 0):
            bad.append("number %r indicator %r" % (g("CycloneNumber"), g("Indicator")))
        if not same(g("Longitude"), r["lon"], 5e-5) or not same(g("Latitude"), r["lat"], 1e-5):
            bad.append("position %r %r, expected %r %r" % (g("Longitude"), g("Latitude"), r["lon"], r["lat"]))
        p = missing if r["p"] is None else r["p"]
        if not same(g("CentralPressure"), p, 1e-6 * abs(p) + 1e-3):
            bad.append("pressure %r, expected %r" % (g("CentralPressure"), p))
        rm = r["rmax"] if lay["rmax"] else 0
        if not same(g("rMax"), rm, 1e-5 * abs(rm) + 1e-4):
            bad.append("radius %r, expected %r" % (g("rMax"), rm))
        # motion
        speed, dt = None, None
        if prev is None:
            if g("Speed") != np.float32(missing) or g("Bearing") != np.float32(missing):
                bad.append("first point moves: %r %r" % (g("Speed"), g("Bearing")))
        else:
            dt = (when - expected_time(lay, prev, dummy)).total_seconds() / 3600
            dist, bear = obs.step(prev, r)
            v = dist / dt if dt > 0 else None
            if v is None or v > 200.05:
                if g("Speed") != np.float32(missing):
                    bad.append("speed %r for %.1f km in %.2f h" % (g("Speed"), dist, dt))
            elif v < 199.95:
                speed = v
                if not same(g("Speed"), v, 2e-5 * v + 0.02 / dt):
                    bad.append("speed %r, expected %r (%.2f km in %.2f h)" % (g("Speed"), v, dist, dt))
            if dist > 0.5 and not abs((g("Bearing") - bear + 180) % 360 - 180) < 0.02:
                bad.append("bearing %r, expected %r" % (g("Bearing"), bear))
        # environment and wind
        env = float(g("EnvPressure"))
        penv = r["penv"] if lay["penv"] else MSLP
        if lay["poci"]:
            if not same(env, r["poci"], 1e-3):
                bad.append("environment %r, expected %r" % (env, r["poci"]))
        elif r["p"] is not None and penv > r["p"] + 0.01:
            jd = int(when.strftime("%j")) if when.year >= 1900 else int(when.replace(year=1904).strftime("%j"))
            model = (2324.1564738613392 - 0.6539853183796136 * penv - 1.3984456535888878 * r["p"]
                     + 0.00074072928008818927 * r["p"] ** 2 + 0.0044469231429346088 * r["lat"] ** 2
                     - 1.4337623534206905 * np.cos(2 * np.pi * jd / 365))
            e = env - model
            if env0 is None:
                env0 = e
            if not (np.isfinite(e) and abs(e) < 25 and abs(e - env0) < 2e-3):
                bad.append("environment %r departs by %r from the model, %r at the storm's first point" % (env, e, env0))
        if calc:
            v = holland(prev, r, dt or 0, speed, env)
        else:
            v = r["vmax"] if lay["vmax"] else 0.0
        if not (prev is not None and 199 < (speed or 0)) and not (calc and r["p"] is not None and abs(env - r["p"]) < 0.05) \
                and not same(g("WindSpeed"), v, 2e-3 * abs(v) + 0.02):
            bad.append("wind %r, expected %r" % (g("WindSpeed"), v))
        vals.append((g("CentralPressure"), g("WindSpeed")))
        chk.evaluated(key, {"layout": lay["columns"], "record": r["file"], "loaded": {f: g(f) for f in
                      ("Datetime", "Longitude", "Latitude", "Speed", "Bearing", "CentralPressure")}})
        if bad:
            chk.violate("record", "; ".join(bad)[:600] + " for %r" % (r["file"],), rep)
            return
    ps = [a for a, r in zip(vals, w) if r["p"] is not None]
    chk.expect(t.trackMinPressure == (min(a[0] for a in ps) if ps else missing), "minimum",
               lambda: "minimum pressure %r" % (t.trackMinPressure,), rep)
    vs = [a[1] for a in vals if a[1] != np.float32(missing)]
    chk.expect(t.trackMaxWind == (max(vs) if vs else missing), "maximum", lambda: "maximum wind %r of %r"
               % (t.trackMaxWind, vs), rep)


def group(chk, items):
    for k in items:
        case(chk, k)


def run(chk):
    from Utilities import config, loadData      # noqa: F401  (imported before forking)
    n = chk.n(240, 4000)
    parts = [list(range(a, n, 16)) for a in range(16)]
    chk.pmap(group, parts)
