"""C26: location queries against an in-memory copy of the tables."""
import os
from datetime import datetime

import numpy as np

from harness import core, synth


def make():
    return core.Check("C26", "one evaluation per query result compared with the rows that satisfy it",
                      ["the return period asked for is on record for the location", "one wind row per event and location"])


def fill(db, rng, nloc, nev):
    """Random content, written column by column; returns it."""
    c = {"loc": {}, "ev": {}, "wind": {}, "track": {}, "haz": {}}
    ids = [int(x) for x in rng.choice(np.arange(1, 5 * nloc + 2), nloc, replace=False)]
    for i in ids:
        c["loc"][i] = "Place %d" % int(rng.integers(0, max(2, nloc)))       # names may repeat
        db.execute("INSERT INTO tblLocations (locId,locCode,locName,locType,locLon,locLat,locElev,locCountry,locSource,Comments,dtCreated) "
                   "VALUES (?,?,?,?,?,?,?,?,?,?,?)", (i, str(i), c["loc"][i], "AWS", 140.0 + i, -20.0, 1.0, "X", "f", "", datetime.now()))
    for n in range(nev):
        e = "%03d-%05d" % (n % 7, n // 7 if n % 3 else 1000 + n)
        c["ev"][e] = (n, "gust.%s.nc" % e, "tracks.%s.nc" % e[4:], float(round(rng.uniform(10, 90), 2)), float(round(rng.uniform(90000, 101000), 1)))
    for e in rng.permutation(sorted(c["ev"])):
        e = str(e)
        n, f, t, v, p = c["ev"][e]
        db.execute("INSERT INTO tblEvents (eventNumber,eventId,eventFile,eventTrackFile,eventMaxWind,eventMinPressure,dtTrackFile,dtWindfieldFile,"
                   "tcrmVersion,Comments,dtCreated) VALUES (?,?,?,?,?,?,?,?,?,?,?)", (n, e, f, t, v, p, datetime(2001, 2, 3), datetime(2002, 3, 4, 5, 6), "v", "", datetime.now()))
        for i in rng.permutation(ids):
            i = int(i)
            w = tuple(float(x) for x in (round(rng.uniform(0, 80) * 4) / 4, rng.uniform(-50, 50), rng.uniform(-50, 50), rng.uniform(92000, 101000)))
            c["wind"][(i, e)] = w
            db.execute("INSERT INTO tblWindSpeed (locId,eventId,wspd,umax,vmax,pmin,Comments,dtCreated) VALUES (?,?,?,?,?,?,?,?)", (i, e) + w + (" ", datetime.now()))
            if rng.random() < 0.8:
                d = float(round(rng.uniform(0, 400)))
                c["track"][(i, e)] = d
                db.execute("INSERT INTO tblTracks (locId,eventId,distClosest,prsClosest,dtClosest,Comments,dtCreated) VALUES (?,?,?,?,?,?,?)", (i, e, d, None, None, "", datetime.now()))
    years = [float(y) for y in rng.choice([2, 5, 10, 25, 50, 100, 500, 1000], int(rng.integers(1, 6)), replace=False)]
    for y in years:
        for i in rng.permutation(ids):
            i = int(i)
            h = tuple(float(round(x * 4) / 4) for x in rng.uniform(0, 80, 3))
            if rng.random() < 0.1:
                h = (None, None, None)
            c["haz"][(i, y)] = h
            db.execute("INSERT INTO tblHazard (locId,returnPeriod,wspd,wspdUpper,wspdLower,loc,scale,shape,tcrmVersion,dtHazardFile,Comments,dtCreated) "
                       "VALUES (?,?,?,?,?,?,?,?,?,?,?,?)", (i, y) + h + (1.0, 2.0, 0.1, "v", datetime.now(), "", datetime.now()))
    db.commit()
    c["years"] = years
    return c


def plain(v):
    if v is None:
        return None
    v = v.item() if hasattr(v, "item") else v
    return None if isinstance(v, float) and np.isnan(v) else v


def rows(rec, names):
    return [tuple(plain(rec[n][k]) for n in names) for k in range(len(rec))]


def compare(chk, what, rec, names, want, order, rep):
    """The same rows, each as often as expected, in the order of the named column."""
    if not chk.expect(set(names) <= set(rec.dtype.names), "columns", lambda: "%s has columns %r" % (what, rec.dtype.names), rep):
        return
    got = rows(rec, names)
    key = lambda r: tuple((x is None, str(type(x)), x if x is not None else 0) for x in r)
    if chk.expect(sorted(got, key=key) == sorted(want, key=key), "rows", lambda: "%s gives %d rows, expected %d; unexpected %r, missing %r" % (
            what, len(got), len(want), [r for r in got if r not in want][:3], [r for r in want if r not in got][:3]), rep) and order:
        v = [r[names.index(order)] for r in got]
        v = [x for x in v if x is not None]
        chk.expect(v == sorted(v), "order", lambda: "%s is not in order of %s: %r" % (what, order, v[:12]), rep)
    chk.evaluated((what.split("(")[0], min(len(want), 3)), {"query": what, "rows": len(want)})


def case(chk, k):
    import database
    from database import queries as q
    from Utilities import config
    rng = chk.rng("case", k)
    d = chk.scratch("q")
    ini = synth.write_config(os.path.join(d, "c.ini"), {"Region": {"gridLimit": {"xMin": 100.0, "xMax": 170.0, "yMin": -30.0, "yMax": -5.0}},
                                                      "Output": {"Path": d}, "Process": {"DatFile": os.path.join(d, "p.dat"), "ExcludePastProcessed": "False"}})
    config.reset()
    db = database.HazardDatabase(ini)
    db.createDatabase()
    nloc, nev = int(rng.choice([1, 2, 5, 12])), int(rng.choice([0, 1, 3, 10, 40]))
    c = fill(db, rng, nloc, nev)
    rep = lambda: {"case": k, "locations": c["loc"], "events": len(c["ev"])}
    ask = sorted(c["loc"]) + [99999]
    if len(ask) > 5:
        ask = [int(x) for x in rng.choice(ask, 5, replace=False)]

    def get(what, fn, *args):
        ok, r = chk.call(fn, db, *args, _kind="query-fails", _what=what, _replay=rep)
        return r if ok else None

    for i in ask:
        name = c["loc"].get(i)
        mine = {e: w for (j, e), w in c["wind"].items() if j == i}
        near = {e: x for (j, e), x in c["track"].items() if j == i}
        speeds = sorted({w[0] for w in mine.values()} | {0.0, 33.3, -1.0, 200.0})
        dists = sorted(set(near.values()) | {0.0, 50.0, 10.5, 1000.0})
        what = "locationRecords(%d)" % i
        r = get(what, q.locationRecords, i)
        if r is not None:
            compare(chk, what, r, ("locId", "locName", "wspd", "umax", "vmax", "eventId"), [(i, name) + w[:3] + (e,) for e, w in mine.items()], "wspd", rep)
        for _ in range(3):
            v, x = float(rng.choice(speeds)), float(rng.choice(dists))
            what = "locationRecordsExceeding(%d, %g)" % (i, v)
            r = get(what, q.locationRecordsExceeding, i, v)
            if r is not None:
                compare(chk, what, r, ("locId", "locName", "wspd", "eventId"), [(i, name, w[0], e) for e, w in mine.items() if w[0] > v], "wspd", rep)
            what = "locationPassage(%d, %g)" % (i, x)
            r = get(what, q.locationPassage, i, x)
            if r is not None:
                compare(chk, what, r, ("locId", "locName", "eventId", "distClosest", "wspd", "eventFile"),
                        [(i, name, e, y, mine[e][0], c["ev"][e][1]) for e, y in near.items() if y < x], None, rep)
            what = "locationPassageWindSpeed(%d, %g, %g)" % (i, v, x)
            r = get(what, q.locationPassageWindSpeed, i, v, x)
            if r is not None:
                compare(chk, what, r, ("locName", "wspd", "umax", "vmax", "eventId", "distClosest", "maxwind", "pmin"),
                        [(name,) + mine[e][:3] + (e, y) + c["ev"][e][3:] for e, y in near.items() if y <= x and mine[e][0] > v], "wspd", rep)
        what = "locationPassage(%d)" % i
        r = get(what, q.locationPassage, i)
        if r is not None:
            compare(chk, what, r, ("locId", "locName", "eventId", "distClosest", "wspd", "eventFile"),
                    [(i, name, e, y, mine[e][0], c["ev"][e][1]) for e, y in near.items() if y < 50], None, rep)
        what = "locationAllReturnLevels(%d)" % i
        r = get(what, q.locationAllReturnLevels, i)
        if r is not None:
            compare(chk, what, r, ("locId", "locName", "returnPeriod", "wspd", "wspdLower", "wspdUpper"),
                    [(i, name, y, h[0], h[2], h[1]) for (j, y), h in c["haz"].items() if j == i], "returnPeriod", rep)
        for y in c["years"]:
            if i in c["loc"]:
                v = c["haz"][(i, y)][0]
                what = "locationReturnPeriodEvents(%d, %g)" % (i, y)
                r = get(what, q.locationReturnPeriodEvents, i, y if rng.random() < 0.5 else int(y))
                if r is not None:
                    compare(chk, what, r, ("locId", "locName", "wspd", "eventId"), [(i, name, w[0], e) for e, w in mine.items() if v is not None and w[0] > v], "wspd", rep)
    r = get("selectEvents", q.selectEvents)
    if r is not None and chk.expect("eventId" in r.dtype.names, "columns", "selectEvents has columns %r" % (r.dtype.names,), rep):
        names = ("eventNum", "eventId", "eventFile", "eventTrackFile", "eventMaxWind", "eventMinPressure")
        chk.expect(set(names) <= set(r.dtype.names), "columns", "selectEvents has columns %r" % (r.dtype.names,), rep)
        compare(chk, "selectEvents", r[list(names)] if len(r) else r[list(names)], names, [(n, e, f, t, v, p) for e, (n, f, t, v, p) in c["ev"].items()], "eventMaxWind", rep)
        if len(r):
            chk.expect(all(x == datetime(2001, 2, 3) for x in r["dtTrackFile"]) and all(x == datetime(2002, 3, 4, 5, 6) for x in r["dtWindfieldFile"]), "dates",
                       "dates of events %r" % (r["dtTrackFile"][:2],), rep)
    r = db.getLocations()
    compare(chk, "getLocations", r, ("locId", "locName", "locLon", "locLat"), [(i, n, 140.0 + i, -20.0) for i, n in c["loc"].items()], None, rep)
    db.close()


def group(chk, items):
    for k in items:
        case(chk, k)


def run(chk):
    import database      # noqa: F401
    from Utilities.parallel import attemptParallel
    attemptParallel()
    n = chk.n(64, 1200)
    chk.pmap(group, [list(range(a, n, 16)) for a in range(16)])
