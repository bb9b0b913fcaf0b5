"""C17: track files give back every track exactly."""
import os
from datetime import datetime, timedelta

import numpy as np

from harness import core, crash, synth

CALENDARS = ["standard", "julian", "proleptic_gregorian", "standard"]
STARTS = [datetime(1999, 12, 31, 18), datetime(2000, 2, 28, 23, 30), datetime(1900, 1, 1), datetime(1842, 11, 3, 6), datetime(2100, 2, 28),
          datetime(12000 // 2, 6, 5, 3), datetime(2011, 2, 2, 13, 37, 41), datetime(9900, 12, 31), datetime(1901, 3, 1, 1, 59, 59), datetime(2004, 2, 29),
          datetime(5, 3, 2, 4), datetime(987, 12, 31, 23, 50)]
FIELDS = ("CycloneNumber", "TimeElapsed", "Longitude", "Latitude", "Speed", "Bearing", "CentralPressure", "EnvPressure", "rMax")


def make():
    return core.Check("C17", "one evaluation per track read back and compared with the one written",
                      ["dates are whole seconds and exist in the calendar of the file"])


def make_track(rng, ident, n):
    from Utilities.track import Track
    d = np.zeros(n, dtype=synth.TRACK_DTYPE)
    d["CycloneNumber"] = int(rng.integers(0, 1 << 31))
    t0 = STARTS[int(rng.integers(len(STARTS)))] + timedelta(seconds=int(rng.integers(0, 3)) * int(rng.integers(0, 3 * 86400)))
    step = int(rng.choice([600, 900, 1800, 3600, 10800, 21600, 61, 3601]))
    secs = np.cumsum(np.full(n, step)) - step
    if rng.random() < 0.3 and n > 1:
        secs = np.cumsum(np.r_[0, rng.integers(1, 90000, n - 1)])
    d["Datetime"] = [t0 + timedelta(seconds=int(s)) for s in secs]
    d["TimeElapsed"] = secs / 3600.0
    d["Longitude"] = rng.uniform(-180, 360, n)
    d["Latitude"] = rng.uniform(-90, 90, n)
    d["Speed"] = rng.gamma(2, 10, n)
    d["Bearing"] = rng.uniform(0, 360, n)
    d["CentralPressure"] = rng.uniform(870, 1013, n)
    d["EnvPressure"] = rng.uniform(995, 1020, n)
    d["rMax"] = rng.uniform(5, 300, n)
    if n and rng.random() < 0.1:
        d["CentralPressure"][int(rng.integers(n))] = [np.nan, 0.0, 1e30, -9999.0][int(rng.integers(4))]
    t = Track(d)
    t.trackId = ident
    return t


def snapshot(t):
    return t.data.copy(), t.trackId


def same(a, b):
    return all(np.array_equal(a[f], b[f]) or np.array_equal(np.asarray(a[f], float), np.asarray(b[f], float), equal_nan=True)
               if f != "Datetime" else list(a[f]) == list(b[f]) for f in a.dtype.names)


def judge(chk, got, want, path, what, rep):
    want = [w for w in want if len(w[0])]
    if not chk.expect(len(got) == len(want), "count", "%s: %d tracks read, %d written" % (what, len(got), len(want)), rep):
        return
    for n, (g, (d, ident)) in enumerate(zip(got, want)):
        r = dict(rep, track=n)
        chk.expect(tuple(g.trackId) == tuple(ident), "identifier", "%s: track %d has identifier %r, written %r" % (what, n, g.trackId, ident), r)
        chk.expect(g.trackfile == path, "source", "%s: track %d names file %r" % (what, n, g.trackfile), r)
        if not chk.expect(len(g.data) == len(d), "length", "%s: track %d has %d points, written %d" % (what, n, len(g.data), len(d)), r):
            continue
        for f in FIELDS:
            a, b = np.asarray(g.data[f], float), np.asarray(d[f], float)
            chk.expect(np.array_equal(a, b, equal_nan=True), "values", lambda: "%s: track %d %s %s, written %s" % (what, n, f, a[:6], b[:6]), r)
            chk.expect(np.array_equal(np.asarray(getattr(g, f), float), a, equal_nan=True), "values", "%s: attribute %s" % (what, f), r)
        bad = [(x, y) for x, y in zip(g.data["Datetime"], d["Datetime"]) if x != y or type(x) is not datetime]
        chk.expect(not bad, "dates", lambda: "%s: track %d has date %r, written %r" % (what, n, bad[0][0], bad[0][1]), r)
        chk.evaluated((what, n), {"points": len(d), "first": str(d["Datetime"][0])})


def scenario(chk, k):
    from Utilities import track as tr
    rng = chk.rng("set", k)
    root = chk.scratch("t")
    kinds = [(1, 1, 2), (1, 30, 31), (3, 1, 2), (12, 0, 5), (40, 1, 20), (2, 300, 400), (chk.n(150, 300), 1, 3)]
    files = {}
    for q in range(chk.n(3, 5)):
        n, lo, hi = kinds[int(rng.integers(len(kinds)))]
        s = int(rng.choice([0, 7, 99999, 100000]))
        tracks = [make_track(rng, (int(j), s), int(rng.integers(lo, hi))) for j in rng.permutation(n)]
        if sum(len(t.data) for t in tracks) == 0:
            continue
        cal = CALENDARS[int(rng.integers(4))]
        kw = {"calendar": cal}
        if rng.random() < 0.3:
            kw["timeunits"] = ["days since 1950-01-01 00:00", "hours since 2000-06-01 12:00", "minutes since 1900-01-01 00:00"][int(rng.integers(3))]
        if rng.random() < 0.3:
            kw["attributes"] = {"title": "set %d" % q}
        path = os.path.join(root, "tracks.%05d.nc" % q)
        if rng.random() < 0.3:                           # something is already there
            with open(path, "wb") as f:
                f.write(b"x" * 5000) if rng.random() < 0.5 else None
            if rng.random() < 0.5:
                tr.ncSaveTracks(path, [make_track(rng, (9, 9), 4) for _ in range(n + 5)])
        want = [snapshot(t) for t in tracks]
        rep = {"case": k, "tracks": len(tracks), "points": [len(t.data) for t in tracks][:20], "options": kw}
        what = "case %d file %d, %d tracks" % (k, q, n)
        atts = dict(kw.get("attributes", {}))
        ok, _ = chk.call(tr.ncSaveTracks, path, tracks, _kind="save-failed", _what=what, _replay=rep, **kw)
        if not ok:
            continue
        chk.expect(all(same(t.data, w[0]) and t.trackId == w[1] for t, w in zip(tracks, want)), "changed-in-memory",
                   "%s: writing changed the tracks" % what, rep)
        chk.expect(kw.get("attributes", {}) == atts, "changed-in-memory", "%s: writing changed the attributes passed in" % what, rep)
        ok, got = chk.call(tr.loadTracks, path, _kind="load-failed", _what=what, _replay=rep)
        if ok:
            judge(chk, got, want, path, what, rep)
        ok, _ = chk.call(tr.ncSaveTracks, path, got if ok else tracks, _kind="save-failed", _what=what + " again", _replay=rep, **kw)
        if ok:
            ok, got = chk.call(tr.ncReadTrackData, path, _kind="load-failed", _what=what, _replay=rep)
            if ok:
                judge(chk, got, want, path, what + " saved twice", rep)
        files[path] = [w for w in want if len(w[0])]
    # the directory reader returns the tracks of all files in order of name
    open(os.path.join(root, "notes.txt"), "w").close()
    ok, got = chk.call(lambda: list(tr.loadTracksFromPath(root)), _kind="load-failed", _what="directory %d" % k)
    if ok:
        want = [(p, w) for p in sorted(files) for w in files[p]]
        if chk.expect(len(got) == len(want), "directory", "directory %d: %d tracks, %d written" % (k, len(got), len(want))):
            for g, (p, w) in zip(got, want):
                chk.expect(g.trackfile == p and tuple(g.trackId) == tuple(w[1]) and list(g.data["Datetime"]) == list(w[0]["Datetime"])
                           and np.array_equal(g.data["Longitude"], w[0]["Longitude"]), "directory",
                           "directory %d: %s of %s found where %s of %s belongs" % (k, g.trackId, g.trackfile, w[1], p))
        ok, part = chk.call(lambda: list(tr.loadTracksFromFiles(list(reversed(sorted(files))))), _kind="load-failed", _what="file list")
        if ok:
            chk.expect([t.trackfile for t in part] == [p for p in sorted(files, reverse=True) for w in files[p]], "directory", "file list %d: order" % k)
    chk.count("files", len(files))


def flat(chk, k):
    """One track stored as plain variables."""
    from netCDF4 import Dataset, date2num
    from Utilities import track as tr
    rng = chk.rng("flat", k)
    t = make_track(rng, (3, 1000 + k), int(rng.integers(1, 40)))
    cal = CALENDARS[int(rng.integers(4))]
    units = ["hours since 1900-01-01 00:00", "days since 1970-01-01 00:00:00"][int(rng.integers(2))]
    path = os.path.join(chk.scratch("f"), "tracks.flat.nc")
    with Dataset(path, "w") as ds:
        ds.createDimension("time", len(t.data))
        for f in t.data.dtype.names:
            v = ds.createVariable(f, "i4" if f == "CycloneNumber" else "f8", ("time",))
            v[:] = date2num(list(t.data[f]), units, cal) if f == "Datetime" else t.data[f]
        ds.setncatts({"time_units": units, "calendar": cal, "trackId": repr(t.trackId)})
    ok, got = chk.call(tr.loadTracks, path, _kind="load-failed", _what="plain file %d" % k)
    if ok:
        judge(chk, got, [snapshot(t)], path, "plain file %d" % k, {"case": k, "calendar": cal, "units": units})


def run(chk):
    from Utilities import track                                  # noqa: F401
    chk.pmap(lambda c, it: it[0](c, it[1]), [(scenario, k) for k in range(chk.n(28, 120))] + [(flat, k) for k in range(chk.n(20, 200))])
