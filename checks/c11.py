"""C11: one complete wind file per affecting event, through layouts, crashes and reruns."""
import os
import shutil

import numpy as np

from harness import core, crash, ext, fakempi, synth, windref

PRELOAD = True

REGIONS = [(146, 149, -21, -18), (113.5, 116.0, -24.5, -22.0), (-160, -157, 15, 18), (178, 181, -20, -17)]
VARS = {"vmax": 0, "ua": 2, "va": 3, "slp": 4}


def make():
    return core.Check("C11", "one evaluation per event file compared with its own footprint, per run",
                      ["a region is configured; an event affects it when its range of longitudes and latitudes meets the region widened by the margin"])


class Case:
    pass


def write_case(chk, rng, root, nfiles, per):
    """Track files, configuration, and the footprint each event has to leave."""
    import wind
    from Utilities.track import Track, ncSaveTracks
    c = Case()
    c.root = root
    c.lim = dict(zip(("xMin", "xMax", "yMin", "yMax"), map(float, REGIONS[int(rng.integers(len(REGIONS)))])))
    c.res, c.margin = [(0.1, 1.0), (0.25, 1.0), (0.2, 2.0)][int(rng.integers(3))]
    c.profile, c.field = [("powell", "kepert"), ("holland", "hubbert"), ("schloemer", "mcconochie")][int(rng.integers(3))]
    os.makedirs(os.path.join(root, "tracks"))
    os.makedirs(os.path.join(root, "windfield"))
    c.want, c.skipped, c.files = {}, [], 0
    w = c.lim["xMax"] - c.lim["xMin"]
    for s in range(nfiles):
        tracks = []
        for j in range(int(rng.integers(per[0], per[1] + 1))):
            kind = int(rng.integers(7))
            lim = dict(c.lim)
            if kind == 0:                                   # far to the east
                lim["xMin"], lim["xMax"] = c.lim["xMax"] + c.margin + 4, c.lim["xMax"] + c.margin + 7
            elif kind == 1:                                 # north or south of the region
                sgn = 1 if c.lim["yMin"] > 0 else -1
                lim["yMin"], lim["yMax"] = sorted([(abs(c.lim["yMin"]) + 8) * sgn, (abs(c.lim["yMin"]) + 12) * sgn])
            data = windref.storm_track(rng, lim, int(rng.integers(2, 7)), ident=(j, s))
            if kind == 2:                                   # passes through the margin only
                data["Longitude"] = c.lim["xMax"] + c.margin * rng.uniform(0.1, 0.9)
            elif kind == 3:                                 # along the very edge of the margin
                data["Longitude"] = c.lim["xMin"] - c.margin
            elif kind == 4 and rng.random() < 0.5:          # just beyond it
                data["Longitude"] = c.lim["xMax"] + c.margin + 0.25
            while not windref.usable(data, c.profile, 1.3):
                data["CentralPressure"] = data["EnvPressure"] - rng.uniform(20, 90)
                data["rMax"] = rng.uniform(15, 50)
            raw = data.copy()
            t = Track(data)
            t.trackId = (j, s)
            tracks.append(t)
            lo, la = raw["Longitude"], raw["Latitude"]
            hit = (lo.max() >= c.lim["xMin"] - c.margin and lo.min() <= c.lim["xMax"] + c.margin
                   and la.max() >= c.lim["yMin"] - c.margin and la.min() <= c.lim["yMax"] + c.margin)
            name = "gust.%03d-%05d.nc" % (j, s)
            if not hit:
                c.skipped.append(name)
                continue
            tt = Track(raw)
            tt.trackId, tt.trackfile = (j, s), "x"
            wt = wind.WindfieldAroundTrack(tt, profileType=c.profile, windFieldType=c.field, beta=1.3, beta1=1.5, beta2=1.4,
                                           thetaMax=70.0, margin=c.margin, resolution=c.res, gridLimit=c.lim, domain="bounded")
            c.want[name] = [np.array(a, dtype=float) for a in wt.regionalExtremes(c.lim)]
        if tracks:
            ncSaveTracks(os.path.join(root, "tracks", "tracks.%05d.nc" % s), tracks)
            c.files += 1
    own = bool(rng.random() < 0.4)                          # a region of its own for the winds
    other = dict(c.lim, xMax=c.lim["xMax"] + 1.0, yMin=c.lim["yMin"] - 2.0)
    winds = {"profileType": c.profile, "windFieldType": c.field, "beta": 1.3, "beta1": 1.5, "beta2": 1.4,
             "thetaMax": 70.0, "Margin": c.margin, "Resolution": c.res, "Domain": "bounded"}
    if own:
        winds["gridLimit"] = c.lim
    c.config = synth.write_config(os.path.join(root, "c.ini"), {
        "Region": {"gridLimit": other if own else c.lim},
        "Timeseries": {"Extract": "False", "Windfields": "False"},
        "WindfieldInterface": winds,
        "Output": {"Path": root}}) or os.path.join(root, "c.ini")
    return c


def execute(chk, c, ranks=1, seed=0, mode="serial"):
    import wind
    return fakempi.run_ranks(ranks, lambda rank: wind.run(c.config), seed=seed, mode=mode)


def out(c):
    return os.path.join(c.root, "windfield")


def judge(chk, c, what, rep, only=None):
    """The windfield directory holds exactly the expected files with the expected contents."""
    from netCDF4 import Dataset
    have = sorted(f for f in os.listdir(out(c)) if not f.endswith(".png"))
    want = sorted(c.want if only is None else only)
    chk.expect(have == want, "file-set", lambda: "%s: missing %s, unexpected %s" % (
        what, sorted(set(want) - set(have))[:6], sorted(set(have) - set(want))[:6]), rep)
    for name in want:
        p = os.path.join(out(c), name)
        if not os.path.exists(p):
            continue
        try:
            with Dataset(p) as ds:
                got = {v: np.ma.filled(np.ma.asarray(ds.variables[v][:], dtype=float), np.nan) for v in list(VARS) + ["lat", "lon"]}
        except Exception as err:
            chk.violate("unreadable", "%s: %s cannot be read: %s" % (what, name, err), rep)
            continue
        ref = c.want[name]
        lat, lon = got["lat"], got["lon"]
        flip = len(lat) > 1 and lat[0] > lat[-1]
        ok = chk.close(lon, ref[5], "axes", "%s: %s longitudes" % (what, name), rep, rtol=0, atol=1e-9)
        ok = chk.close(np.sort(lat), ref[6], "axes", "%s: %s latitudes" % (what, name), rep, rtol=0, atol=1e-9) and ok
        for v, k in VARS.items():
            a = got[v][::-1] if flip else got[v]
            chk.close(a, ref[k].astype("f4"), "contents", "%s: %s %s" % (what, name, v), rep, rtol=1e-5, atol=1e-4)
        chk.evaluated((what, name), {"run": what, "file": name, "max_gust": float(ref[0].max())})


def clear(c):
    for f in os.listdir(out(c)):
        os.unlink(os.path.join(out(c), f))


def fail(chk, res, what, rep):
    from harness import trackgen
    return trackgen.failed(chk, res, "run-failed", what, rep)


def without(path, name):
    """The file as it would be without one of its variables."""
    from netCDF4 import Dataset
    with Dataset(path) as a, Dataset(path + ".part", "w") as b:
        for d in a.dimensions:
            b.createDimension(d, len(a.dimensions[d]))
        for n, v in a.variables.items():
            if n != name:
                b.createVariable(n, v.dtype, v.dimensions)[...] = v[...] if v.dimensions else 0
    os.replace(path + ".part", path)


def layouts(chk, k):
    rng = chk.rng("layout", k)
    ext.hide()
    nfiles, per = [(1, (6, 9)), (4, (1, 3)), (7, (0, 2)), (2, (2, 4)), (12, (1, 2))][k % 5]
    c = write_case(chk, rng, chk.scratch("l"), nfiles, per)
    if c.files == 0:
        return
    for ranks in ([1, 2, 3, 5, 8] if not chk.quick or k < 3 else [1, 3, 4]):
        clear(c)
        mode = str(rng.choice(["serial", "parallel"]))
        rep = {"region": c.lim, "track_files": nfiles, "processes": ranks, "mode": mode, "events": sorted(c.want), "skipped": c.skipped}
        what = "case %d, %d files on %d processes" % (k, nfiles, ranks)
        if fail(chk, execute(chk, c, ranks, int(rng.integers(1 << 30)), mode), what, rep):
            continue
        judge(chk, c, what, rep)
        chk.count("layouts")
    # again over its own output, and with part of the output gone or damaged
    for turn in range(chk.n(2, 6)):
        rep = {"region": c.lim, "track_files": nfiles, "turn": turn}
        damage = []
        for name in sorted(c.want):
            p = os.path.join(out(c), name)
            if not os.path.exists(p):
                continue
            a = int(rng.integers(6))
            if a == 0:
                os.unlink(p)
            elif a == 1:
                open(p, "w").close()
            elif a == 2:
                with open(p, "r+b") as f:
                    f.truncate(int(rng.integers(1, os.path.getsize(p))))
            elif a == 3:
                without(p, str(rng.choice(sorted(VARS))))
            damage.append((name, ["removed", "emptied", "truncated", "a variable missing", "kept", "kept"][a]))
        rep["damage"] = damage
        what = "case %d, rerun after %s" % (k, damage)
        if fail(chk, execute(chk, c, int(rng.integers(1, 5)), int(rng.integers(1 << 30))), what, rep):
            continue
        judge(chk, c, "case %d, rerun %d over damaged output" % (k, turn), rep)
        chk.count("reruns")


def crashes(chk, k):
    import wind
    from Utilities import parallel, config
    rng = chk.rng("crash", k)
    ext.hide()
    c = write_case(chk, rng, chk.scratch("c"), [1, 3, 2][k % 3], [(3, 4), (1, 2), (2, 2)][k % 3])
    if not c.want:
        return

    def go():
        wind.run(c.config)
    st, n = crash.child(go, out(c))
    rep = {"region": c.lim, "events": sorted(c.want)}
    if not chk.expect(st == "done", "run-failed", "uninterrupted run: %s" % n, rep):
        return
    judge(chk, c, "crash case %d, uninterrupted" % k, rep)
    chk.count("operations_in_clean_run", n)
    if n < 4:
        raise RuntimeError("only %d file operations seen" % n)
    todo = list(range(n))
    lim = chk.n(20, 260)
    if n > lim:
        # every kind of moment: the last operations of a file are the interesting ones
        todo = sorted(set(rng.choice(n, lim - 8, replace=False).tolist()) | set(range(n - 4, n)) | set(range(4)))
    for at in todo:
        clear(c)
        half = bool(rng.random() < 0.4)
        st, info = crash.child(go, out(c), at, half)
        rep = {"region": c.lim, "events": sorted(c.want), "killed_at_operation": at, "of": n, "half_written": half}
        if st == "done":
            chk.count("not_reached")
        elif st == "failed":
            chk.violate("run-failed", "run ended with an error: %s" % info[-300:], rep)
            continue
        else:
            chk.count("crash_points")
        left = sorted((f, os.path.getsize(os.path.join(out(c), f))) for f in os.listdir(out(c)))
        rep["left_behind"] = left
        ranks = int(rng.choice([1, 1, 2, 3]))
        what = "crash case %d, killed at operation %d of %d%s, rerun on %d" % (k, at, n, " (half written)" if half else "", ranks)
        if ranks == 1:
            st, info = crash.child(go, out(c))
            if not chk.expect(st == "done", "rerun-failed", lambda: "%s: %s" % (what, info), rep):
                continue
        elif fail(chk, execute(chk, c, ranks, at), what, rep):
            continue
        judge(chk, c, what, rep)


def item(chk, it):
    {"layout": layouts, "crash": crashes}[it[0]](chk, it[1])


def run(chk):
    import wind  # noqa: imported once, before the scenarios are forked
    import Utilities.track  # noqa
    chk.pmap(item, [("crash", k) for k in range(chk.n(3, 9))] + [("layout", k) for k in range(chk.n(5, 15))])
