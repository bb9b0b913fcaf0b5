"""C20: pre-processed parameter files match the input records one for one."""
import math
import os
from datetime import datetime, timedelta

import numpy as np

from harness import core, obs, synth

COAST = 140.25
MARK = 9.0e18


def make():
    return core.Check("C20", "one evaluation per input record compared with its line in every parameter file",
                      ["years, where given, have four digits", "times are whole minutes",
                       "an identifier column that is present agrees with the others"])


def load(path):
    rows = []
    with open(path) as f:
        for line in f:
            line = line.split("%")[0].strip()
            if line:
                rows.append([float(x) for x in line.split(",")])
    return rows


def region(limit, sts):
    """Region enlarged to hold each storm from its first point to its last one inside the region."""
    b = [limit["xMin"], limit["xMax"], limit["yMin"], limit["yMax"]]
    for s in sts:
        last = max([i for i, r in enumerate(s) if limit["xMin"] <= r["lon"] <= limit["xMax"]
                    and limit["yMin"] <= r["lat"] <= limit["yMax"]], default=-1)
        for r in s[:last + 1]:
            b = [min(b[0], r["lon"]), max(b[1], r["lon"]), min(b[2], r["lat"]), max(b[3], r["lat"])]
    return [math.floor(b[0]), math.ceil(b[1]), math.floor(b[2]), math.ceil(b[3])]


def case(chk, k):
    from DataProcess.DataProcess import DataProcess
    from Utilities import config
    rng = chk.rng("file", k)
    lay = obs.layout(rng)
    lay["rgap"] = bool(rng.random() < 0.4)
    sts = obs.storms(rng, int(rng.choice([1, 2, 5, 20, 60])))
    if lay["id"] == "num":
        for i, s in enumerate(sts):
            for r in s:
                r["num"] = i + 1 if i % 2 else 1000 - i
    if lay["dates"] == "mdh":
        for s in sts:
            shift = datetime(s[0]["time"].year, 3, 5) - datetime(s[0]["time"].year, s[0]["time"].month, s[0]["time"].day)
            for r in s:
                r["time"] += shift
    obs.fit_times(lay, sts)
    obs.refine(rng, sts, 15)
    d = chk.scratch("pre")
    path = os.path.join(d, "tracks.csv")
    flat = obs.write(path, rng, lay, sts)
    if lay["dates"] == "hhmm" and max(int(r["file"]["hour"]) for r in flat) < 100:
        return
    start = sorted(r["season"] for r in flat)[int(rng.integers(len(flat)))]
    limit = {"xMin": int(rng.integers(105, 140)), "yMin": int(rng.integers(-30, -15))}
    limit["xMax"], limit["yMax"] = limit["xMin"] + int(rng.integers(5, 25)), limit["yMin"] + int(rng.integers(3, 12))
    mask = os.path.join(d, "mask.nc")
    synth.write_landmask(mask, lambda x, y: x > COAST)
    out = os.path.join(d, "out")
    ini = os.path.join(d, "x.ini")
    with open(ini, "w") as f:
        f.write("[DataProcess]\nInputFile=%s\nSource=SRC\nStartSeason=%d\n[Input]\nLandMask=%s\n[Output]\nPath=%s\n"
                "[Region]\ngridLimit=%r\n\n%s" % (path, start, mask, out, limit, obs.section(lay)))
    rep = lambda: {"case": k, "layout": lay, "start": start, "region": limit, "restrict": restrict,
                   "file": open(path).read()[:4000] if os.path.exists(path) else None}
    restrict = bool(rng.random() < 0.3)
    if restrict:
        box = region(limit, [[r for r in flat if r["storm"] == i] for i in range(len(sts))])
        keep = {r["storm"] for r in flat if r["first"] and box[0] <= r["lon"] <= box[1] and box[2] <= r["lat"] <= box[3]}
        flat = [r for r in flat if r["storm"] in keep]
    if lay["dates"] != "age" and "season" in lay["columns"]:
        flat = [r for r in flat if r["season"] >= start]
    if not flat:
        return
    config.reset()
    os.makedirs(os.path.join(out, "process"))
    ok, _ = chk.call(lambda: DataProcess(ini).processData(restrictToWindfieldDomain=restrict), _kind="process-fails",
                     _what="pre-processing a track file", _replay=rep)
    chk.count("files")
    if ok:
        compare(chk, lay, flat, os.path.join(out, "process"), rep)


def expected(lay, flat):
    """Attach to every record what the parameter files should say about it: (value, tolerance) or None for missing."""
    dummy = 2000
    for i, r in enumerate(flat):
        prev = flat[i - 1] if i else None
        new = prev is None or prev["storm"] != r["storm"] or prev["part"] != r["part"]
        r["new"] = new
        if r["first"]:
            dummy = 2000
        t = r["time"]
        if lay["dates"] == "mdh":
            dummy = 2001 if t.month == 1 else dummy
            t = t.replace(year=dummy)
        elif lay["dates"] == "age":
            t = datetime(2000, 1, 1) + timedelta(seconds=round(r["age"] * 3600))
        r["when"] = t
        j = int(t.strftime("%j"))
        r["jday"] = j - 1 if t.year % 4 == 0 and j >= 60 else j
        e = r["e"] = {}
        e["all_pressure"] = None if r["p"] is None else (r["p"], 0.006)
        e["wind_speed"] = (r["vmax"], 0.006) if lay["vmax"] else None
        if lay["rmax"]:
            e["all_rmax"] = None if r.get("rgap") else (r["rmax"], 0.006)
        r["dt"] = dt = 0.0 if new else (t - prev["when"]).total_seconds() / 3600
        r["v"] = None
        e["all_bearing"] = e["all_speed"] = e["bearing_rate"] = e["speed_rate"] = e["pressure_rate"] = None
        if lay["rmax"]:
            e["rmax_rate"] = None
        if new:
            continue
        dist, bear = obs.step(prev, r)
        r["dist"] = dist
        tb = 0.006 + math.degrees(0.006 / max(dist, 1e-3))
        e["all_bearing"] = (bear, tb, "angle") if dist > 0.2 else "any"
        tv = 0.006 + (0.008 / dt if dt > 0 else 0)
        if dt > 0:
            v = dist / dt
            if abs(v - 200) < 0.05:
                e["all_speed"] = "any"
                r["v"] = "any"
            elif v < 200:
                e["all_speed"] = (v, tv)
                r["v"] = (v, tv)
            if r["p"] is not None and prev["p"] is not None:
                q = (r["p"] - prev["p"]) / dt
                e["pressure_rate"] = "any" if abs(abs(q) - 10) < 0.01 else (q, 0.008) if abs(q) < 10 else None
            if lay["rmax"] and not r.get("rgap") and not prev.get("rgap"):
                e["rmax_rate"] = ((r["rmax"] - prev["rmax"]) / dt, 0.006 + 1e-4 / dt)
        if not prev["new"]:
            a, b = prev["e"]["all_bearing"], e["all_bearing"]
            if dt > 0:
                if a == "any" or b == "any":
                    e["bearing_rate"] = "any"
                else:
                    c = (b[0] - a[0] + 180) % 360 - 180
                    e["bearing_rate"] = (c / dt, (a[1] + b[1]) / dt + 0.006, "half" if 180 - abs(c) < a[1] + b[1] else None, dt)
            a, b = prev["v"], r["v"]
            if a == "any" or b == "any":
                e["speed_rate"] = "any"
            elif a is not None and b is not None:
                e["speed_rate"] = ((b[0] - a[0]) / dt, (a[1] + b[1]) / dt + 0.006)


def agrees(x, e):
    if e == "any":
        return True
    if e is None:
        return x >= MARK
    if not np.isfinite(x):
        return False
    if len(e) > 2 and e[2] == "angle":
        return 0 <= x <= 360 and abs((x - e[0] + 180) % 360 - 180) <= e[1]
    if len(e) > 2 and e[2] == "half" and abs(x + e[0]) <= e[1] + 2 * e[1]:
        return True
    return abs(x - e[0]) <= e[1]


def compare(chk, lay, flat, proc, rep):
    expected(lay, flat)
    have = {f: load(os.path.join(proc, f)) for f in os.listdir(proc)}
    first = [r for r in flat if r["new"]]
    nxt = [flat[i + 1] for i, r in enumerate(flat[:-1]) if r["new"] and not flat[i + 1]["new"]]
    init = [r for i, r in enumerate(flat[:-1]) if r["new"] and not flat[i + 1]["new"]]
    rest = [r for r in flat if not r["new"]]
    later = [r for i, r in enumerate(flat) if not r["new"] and not flat[i - 1]["new"]]

    def rows(name, recs, fn, what):
        got = have.get(name)
        if not chk.expect(got is not None, "file-missing", "no file %s" % name, rep):
            return
        if not chk.expect(len(got) == len(recs), "count", lambda: "%s has %d values for %d observations (%s)"
                          % (name, len(got), len(recs), what), rep):
            return
        chk.count("values", len(recs))
        for i, (g, r) in enumerate(zip(got, recs)):
            msg = fn(g, r)
            if msg:
                chk.violate("value", "%s line %d: %s for %r" % (name, i + 1, msg, r["file"]), rep)
                return

    def place(g, r):
        if not (abs(g[0] - r["lon"]) < 0.0051 and abs(g[1] - r["lat"]) < 0.0051):
            return "position %r, expected %r" % (g[:2], (r["lon"], r["lat"]))
        if abs(r["lon"] - COAST) > 0.6 and g[2] != (1 if r["lon"] > COAST else 0):
            return "land flag %r" % (g,)

    def value(name):
        def fn(g, r):
            if not agrees(g[0], r["e"][name]):
                return "%r, expected %r" % (g[0], r["e"][name])
        return fn

    rows("all_lon_lat", flat, place, "all")
    rows("origin_lon_lat", first, place, "first of each storm")
    rows("init_lon_lat", init, place, "first of each storm with a second one")
    rows("cyclone_tracks", flat, lambda g, r: place(g[1:], r) or (None if g[0] == (1 if r["new"] else 0)
                                                                 else "starts a storm: %r" % g[0]), "all")
    for name in sorted(flat[0]["e"]):
        rows(name, flat, value(name), "all")
    rows("init_bearing", nxt, value("all_bearing"), "second of each storm")
    rows("init_speed", nxt, value("all_speed"), "second of each storm")
    rows("bearing_no_init", later, value("all_bearing"), "third and later")
    rows("speed_no_init", later, value("all_speed"), "third and later")
    rows("init_pressure", first, value("all_pressure"), "first of each storm")
    rows("pressure_no_init", [r for r in rest if r["p"] is not None], value("all_pressure"), "later ones with a pressure")
    if lay["rmax"]:
        rows("init_rmax", first, value("all_rmax"), "first of each storm")
        rows("rmax_no_init", [r for r in rest if not r.get("rgap")], value("all_rmax"), "later ones with a radius")
    year = (lambda r: r["season"]) if "season" in lay["columns"] else (lambda r: r["when"].year)
    rows("origin_year", first, lambda g, r: None if g[0] == year(r) else "season %r" % g, "first of each storm")
    rows("jdays", first, lambda g, r: None if g[0] == r["jday"] else "day %r, expected %r" % (g, r["jday"]), "first of each storm")
    for name, recs in (("jday_genesis", first), ("jday_obs", flat)):
        n = np.bincount([r["jday"] for r in recs], minlength=366)[1:366]
        chk.expect(have.get(name) == [[i + 1, c] for i, c in enumerate(n)], "histogram",
                   lambda: "%s does not count the days of year" % name, rep)
    ys = [r["when"].year for r in flat]
    if min(ys) < max(ys):
        n = np.bincount([r["when"].year - min(ys) for r in first], minlength=max(ys) - min(ys) + 1)
        chk.expect(have.get("frequency") == [[min(ys) + i, c] for i, c in enumerate(n)], "histogram",
                   lambda: "annual counts %r" % (have.get("frequency"),), rep)
    for r in flat:
        chk.evaluated((lay["dates"], lay["id"], r["new"], r["p"] is None, tuple(sorted(a for a, b in r["e"].items() if b is None))),
                      {"record": r["file"], "expected": {a: (b[0] if isinstance(b, tuple) else b) for a, b in r["e"].items()}})


def group(chk, items):
    for k in items:
        case(chk, k)


def run(chk):
    from DataProcess.DataProcess import DataProcess      # noqa: F401  (imported before forking)
    n = chk.n(160, 2400)
    chk.pmap(group, [list(range(a, n, 16)) for a in range(16)])
