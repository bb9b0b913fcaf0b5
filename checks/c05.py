"""C05: event footprints keep each cell's peak gust and what belongs to it."""
import configparser

import numpy as np

from harness import core, ext, windref


def make():
    return core.Check("C05", "one evaluation per (event, time step) window and per event footprint",
                      ["margins and resolutions are whole hundredths of a degree and the margin is a multiple of the resolution"])


GRIDS = [(0.05, 1.0), (0.1, 2.0), (0.02, 0.4), (0.25, 2.0), (0.5, 2.5), (0.1, 0.7), (0.05, 0.6)]
REGIONS = [(146, 150, -21, -17), (113.5, 116.25, -24.5, -21.75), (-160, -157, 15, 18), (121, 124, 12, 16),
           (-1.5, 2.0, -15, -12), (178, 183, -20, -16), (55, 58, -22.5, -19), (-62, -59, 13, 16)]


def angle(u, v):
    return np.degrees(np.arctan2(-u, -v))


def check_event(chk, what, rep, data, steps, result, lim, margin, res, profile, field, beta, tmax, full=False):
    gust, brg, U, V, P, lon, lat = [np.asarray(a, float) for a in result]
    inside = np.where((lim["xMin"] <= data["Longitude"]) & (data["Longitude"] <= lim["xMax"])
                      & (lim["yMin"] <= data["Latitude"]) & (data["Latitude"] <= lim["yMax"]))[0]
    chk.expect([s[0] for s in steps] == [data["Datetime"][i] for i in inside], "steps",
               lambda: "%s: %d time steps reported, %d lie in the region" % (what, len(steps), len(inside)), rep)
    # coverage of the requested region plus margin
    chk.expect(np.allclose(np.diff(lon), res, atol=1e-9) and np.allclose(np.diff(lat), res, atol=1e-9), "spacing",
               what + ": grid spacing is not the resolution", rep)
    ok = (abs(lon[0] - (lim["xMin"] - margin)) < 0.0101 and abs(lat[0] - (lim["yMin"] - margin)) < 0.0101
          and lim["xMax"] + margin - 0.0101 <= lon[-1] < lim["xMax"] + margin + res + 0.0101
          and lim["yMax"] + margin - 0.0101 <= lat[-1] < lim["yMax"] + margin + res + 0.0101)
    chk.expect(ok, "coverage", lambda: "%s: grid %.3f..%.3f, %.3f..%.3f for region %s margin %s"
               % (what, lon[0], lon[-1], lat[0], lat[-1], lim, margin), rep)
    shape = (len(lat), len(lon))
    for nm, a in (("gust", gust), ("bearing", brg), ("u", U), ("v", V), ("p", P)):
        chk.expect(a.shape == shape, "shape", "%s: %s has shape %s, grid %s" % (what, nm, a.shape, shape), rep)
    best = np.zeros(shape)
    minp = np.full(shape, data["EnvPressure"][0] * 100.0)
    layers = []
    for (when, g, u, v, p, wlon, wlat), i in zip(steps, inside):
        rg, ru, rv, rp, llon, llat = windref.step_field(data[i], profile, field, margin, res, beta, tmax,
                                                        axes=(wlon, wlat) if full else None)
        if full:     # the whole region, whatever the position of the storm
            reach = [(wlon[0], lim["xMin"] - margin), (wlon[-1], lim["xMax"] + margin), (wlat[0], lim["yMin"] - margin), (wlat[-1], lim["yMax"] + margin)]
            chk.expect(all(abs(a - b) < res + 0.0101 for a, b in reach), "full-coverage",
                       lambda: "%s step %d: field spans %.3f..%.3f, %.3f..%.3f" % (what, i, wlon[0], wlon[-1], wlat[0], wlat[-1]), rep)
        w = "%s step %d" % (what, i)
        if g.shape != rg.shape or (len(wlat), len(wlon)) != g.shape:
            chk.violate("window-shape", "%s: field %s on %d x %d window, expected %s" % (w, g.shape, len(wlat), len(wlon), rg.shape), rep)
            continue
        fin = np.isfinite(rg)
        sp = max(1.0, rg[fin].max())
        for nm, a, b, at in (("gust", g, rg, sp), ("u", u, ru, sp), ("v", v, rv, sp), ("p", p, rp, 1.0)):
            chk.close(np.where(fin, a, 0), np.where(fin, b, 0), "field-" + nm, "%s %s" % (w, nm), rep, rtol=1e-5, atol=1e-5 * at)
        # the window sits where the storm is
        chk.expect(np.abs(wlon - llon).max() <= res + 0.0021 + 0.01 and np.abs(wlat - llat).max() <= res + 0.0021 + 0.01, "window-place",
                   lambda: "%s: window starts at %.3f,%.3f, storm-centred grid at %.3f,%.3f" % (w, wlon[0], wlat[0], llon[0], llat[0]), rep)
        j = np.rint((wlat - lat[0]) / res).astype(int)
        k = np.rint((wlon - lon[0]) / res).astype(int)
        good = (np.abs(lat[np.clip(j, 0, len(lat) - 1)] - wlat).max() < 1e-6 and
                np.abs(lon[np.clip(k, 0, len(lon) - 1)] - wlon).max() < 1e-6)
        if not chk.expect(good, "window-grid", w + ": window nodes are not nodes of the footprint grid", rep):
            continue
        sl = np.ix_(j, k)
        layers.append((sl, g, u, v))
        best[sl] = np.fmax(best[sl], g)
        minp[sl] = np.fmin(minp[sl], p)
        chk.evaluated((what, int(i)))
    chk.close(gust, best, "peak-gust", what + ": footprint gust against the time steps", rep, rtol=2e-6, atol=1e-6)
    chk.close(P, minp, "min-pressure", what + ": footprint pressure against the time steps", rep, rtol=2e-7, atol=0.02)
    # the components belong to an instant that attains the peak
    ok = best == 0
    chk.expect(((np.abs(U) + np.abs(V))[ok] == 0).all(), "unreached", what + ": wind components in cells never reached", rep)
    for sl, g, u, v in layers:
        b = best[sl]
        att = (g >= b * (1 - 2e-6)) & (g > 0)
        da = np.abs((brg[sl] - angle(u, v) + 180) % 360 - 180)
        m = att & (np.abs(U[sl] - u) <= 1e-5 * b + 1e-6) & (np.abs(V[sl] - v) <= 1e-5 * b + 1e-6) & (da <= 1e-3)
        o = ok[sl]
        o |= m
        ok[sl] = o
    chk.expect(ok.all(), "components", lambda: "%s: %d cells whose components or bearing are not those of the peak gust"
               % (what, (~ok).sum()), rep)
    chk.evaluated((what, "footprint"), sample={"event": what, "cells": gust.size, "reached": int((best > 0).sum())})


def scenario(chk, item):
    mode, k = item
    if mode == "compiled":
        ext.install()
    else:
        ext.hide()
    import wind
    from Utilities.track import Track, ncSaveTracks
    rng = chk.rng("events", k)
    x0, x1, y0, y1 = REGIONS[k % len(REGIONS)]
    lim = {"xMin": x0, "xMax": x1, "yMin": y0, "yMax": y1}
    res, margin = GRIDS[int(rng.integers(len(GRIDS)))]
    if res < 0.05:
        lim["xMax"], lim["yMax"] = lim["xMin"] + 1, lim["yMin"] + 1
    field = ["kepert", "hubbert", "mcconochie"][k % 3]
    profile = ["powell", "holland", "schloemer", "willoughby"][(k // 3) % 4]
    beta, tmax = float(rng.uniform(1.0, 1.9)), float(rng.choice([70.0, rng.uniform(-180, 180)]))
    cfg = configparser.ConfigParser()
    tracks, keep = [], []
    while len(tracks) < chk.n(3, 5):
        d = windref.storm_track(rng, lim, int(rng.integers(1, 9)), float(rng.choice([1.0, 0.5, 3.0])), (len(tracks), 0),
                                outside=rng.random() < 0.3)
        if windref.usable(d, profile, beta):
            t = Track(d)
            t.trackId, t.trackfile = (len(tracks), k), "none"
            tracks.append(t)
            keep.append(d.copy())

    def generator(domain="bounded", limit=lim):
        return wind.WindfieldGenerator(cfg, margin=margin, resolution=res, profileType=profile, windFieldType=field,
                                       beta=beta, thetaMax=tmax, gridLimit=limit and dict(limit), domain=domain)
    singles = []
    for n, t in enumerate(tracks):
        what = "%s %s/%s region %d event %d" % (mode, field, profile, k, n)
        rep = lambda: {"track": [[str(v) for v in r] for r in keep[n]], "region": lim, "margin": margin, "resolution": res,
                       "field": field, "profile": profile, "beta": beta, "thetaMax": tmax, "mode": mode}
        steps = []

        def cb(when, g, u, v, p, wlon, wlat):
            steps.append((when, np.array(g), np.array(u), np.array(v), np.array(p), np.array(wlon), np.array(wlat)))
        good, r = chk.call(generator().calculateExtremesFromTrack, t, cb, _kind="footprint-error", _what=what, _replay=rep)
        if not good:
            return
        check_event(chk, what, rep, keep[n], steps, r[1], lim, margin, res, profile, field, beta, tmax)
        r2 = generator().calculateExtremesFromTrack(t)[1]
        for a, b in zip(r[1], r2):
            chk.expect(np.array_equal(a, b, equal_nan=True), "repeat", what + ": a second calculation differs", rep)
        singles.append([np.asarray(a, float) for a in r[1]])
        chk.expect(all(np.array_equal(t.data[f], keep[n][f]) for f in keep[n].dtype.names), "track-changed",
                   what + ": the track was modified", rep)
    # the field over the whole region at every step
    n = int(rng.integers(len(tracks)))
    what = "%s %s/%s full region %d event %d" % (mode, field, profile, k, n)
    steps = []
    good, r = chk.call(generator("full").calculateExtremesFromTrack, tracks[n], cb, _kind="footprint-error", _what=what, _replay=rep)
    if good:
        check_event(chk, what, rep, keep[n], steps, r[1], lim, margin, res, profile, field, beta, tmax, full=True)
        chk.count("events over the full region")
    # a single event without a region: the region is the track's own extent
    d = keep[n]
    own = {"xMin": np.floor(d["Longitude"].min()), "xMax": np.ceil(d["Longitude"].max()),
           "yMin": np.floor(d["Latitude"].min()), "yMax": np.ceil(d["Latitude"].max())}
    if max(own["xMax"] - own["xMin"], own["yMax"] - own["yMin"]) * (1 / res) < 400:
        what = "%s %s/%s own region %d event %d" % (mode, field, profile, k, n)
        steps = []
        good, r = chk.call(generator("bounded", None).calculateExtremesFromTrack, tracks[n], cb, _kind="footprint-error", _what=what, _replay=rep)
        if good:
            check_event(chk, what, rep, d, steps, r[1], own, margin, res, profile, field, beta, tmax)
            chk.count("events without a region")
    # several events in one file
    path = chk.scratch("tracks") + "/tracks.00001.nc"
    order = rng.permutation(len(tracks))
    copies = []
    for i in order:
        t = Track(keep[i].copy())
        t.trackId = (int(i), k)
        copies.append(t)
    ncSaveTracks(path, copies)
    good, r = chk.call(generator().calculateExtremesFromTrackfile, path, _kind="combine-error", _what="combination %d" % k)
    if not good:
        return
    gust, brg, U, V, P = [np.asarray(a, float) for a in r[:5]]
    st = [np.stack([s[i] for s in singles]) for i in range(5)]
    what = "%s combination of %d events in region %d" % (mode, len(singles), k)
    chk.close(gust, st[0].max(0), "combined-gust", what, rtol=1e-6)
    chk.close(P, st[4].min(0), "combined-pressure", what, rtol=1e-7, atol=0.02)
    att = st[0] >= st[0].max(0) * (1 - 1e-6)
    m = att & (np.abs(st[2] - U) < 1e-4) & (np.abs(st[3] - V) < 1e-4) & (np.abs((st[1] - brg + 180) % 360 - 180) < 1e-3)
    chk.expect(m.any(0).all(), "combined-components", lambda: "%s: %d cells whose components are not those of the strongest event"
               % (what, (~m.any(0)).sum()), {"region": lim, "field": field, "profile": profile})
    chk.evaluated((k, mode, "combined"))


def run(chk):
    ext.build()
    import wind  # noqa: F401  (imported before forking)
    n = chk.n(48, 240)
    chk.pmap(scenario, [(m, k) for k in range(n) for m in (("compiled", "interpreted") if k % 2 else ("compiled",))])
