"""C31: distances, bearings, destinations and grids against vector geometry on the sphere."""
import numpy as np

from harness import core

R = 6367.0


def make():
    return core.Check("C31", "one evaluation per point pair, grid value or lookup compared",
                      ["distances to 1 m plus 1e-6 of the distance, bearings where they are defined",
                       "grid resolutions, margins and limits are whole thousandths of a degree"])


def vec(lon, lat):
    lon, lat = np.radians(np.asarray(lon, float)), np.radians(np.asarray(lat, float))
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], -1)


def gdist(lon1, lat1, lon2, lat2):
    a, b = vec(lon1, lat1), vec(lon2, lat2)
    return R * np.arctan2(np.linalg.norm(np.cross(a, b), axis=-1), (a * b).sum(-1))


def azimuth(lon1, lat1, lon2, lat2):
    """Direction (degrees clockwise from north) and how well it is defined (km sideways per radian)."""
    a, b = vec(lon1, lat1), vec(lon2, lat2)
    l, p = np.radians(lon1), np.radians(lat1)
    east = np.array([-np.sin(l), np.cos(l), 0 * l])
    north = np.array([-np.sin(p) * np.cos(l), -np.sin(p) * np.sin(l), np.cos(p)])
    e, n = (b * east).sum(-1), (b * north).sum(-1)
    return np.degrees(np.arctan2(e, n)) % 360, R * np.hypot(e, n)


def adiff(a, b):
    return np.abs((np.asarray(a) - b + 180) % 360 - 180)


def place(rng):
    lat = [lambda: rng.uniform(-90, 90), lambda: rng.uniform(-40, 40), lambda: 0.0, lambda: float(rng.choice([-90, 90])),
           lambda: float(rng.choice([-1, 1])) * (90 - 10 ** rng.uniform(-6, 0))][int(rng.choice(5, p=[.3, .4, .1, .1, .1]))]()
    lon = [lambda: rng.uniform(-180, 360), lambda: float(rng.choice([0, 180, -180, 360, 90])),
           lambda: 180 + rng.normal(0, 1e-3), lambda: rng.normal(0, 1e-3)][int(rng.choice(4, p=[.7, .1, .1, .1]))]()
    return lon, lat


def pair(rng):
    lon, lat = place(rng)
    k = int(rng.integers(5))
    if k == 0:
        return lon, lat, lon, lat
    if k == 1:
        return lon, lat, lon + 180, -lat
    if k == 2:
        return lon, lat, lon + rng.normal(0, 0.01), float(np.clip(lat + rng.normal(0, 0.01), -90, 90))
    if k == 3:
        return lon, lat, lon + 360 * rng.integers(-1, 2) + rng.uniform(-5, 5), float(np.clip(lat + rng.uniform(-5, 5), -90, 90))
    return (lon, lat) + place(rng)


def pairs(chk, k):
    from Utilities import maputils as m
    rng = chk.rng("pair", k)
    x1, y1, x2, y2 = p = pair(rng)
    rep = lambda: {"from": p[:2], "to": p[2:]}
    want = float(gdist(*p))
    tol = 1e-3 + 1e-6 * want
    ok, d = chk.call(lambda: float(m.distGC([y1, y2], [x1, x2])), _kind="fails", _what="distance", _replay=rep)
    ok2, back = chk.call(lambda: float(m.distGC([y2, y1], [x2, x1])), _kind="fails", _what="distance", _replay=rep)
    if ok and ok2:
        chk.expect(abs(d - want) <= tol and d >= 0, "distance", lambda: "distance from %r to %r is %r km, expected %r" % (p[:2], p[2:], d, want), rep)
        chk.expect(abs(d - back) <= 1e-3, "symmetry", lambda: "%r km one way, %r km the other" % (d, back), rep)
    ok, g = chk.call(lambda: np.asarray(m.gridLatLonDist(x1, y1, np.array([x2]), np.array([y2]))), _kind="fails",
                     _what="grid distance", _replay=rep)
    if ok:
        g = float(g[0, 0])
        chk.expect(abs(g - want) <= tol and g >= 0, "distance", lambda: "grid distance from %r to %r is %r km, expected %r" % (p[:2], p[2:], g, want), rep)
    b, lever = azimuth(*p)
    ok, g = chk.call(lambda: np.asarray(m.gridLatLonBear(x1, y1, np.array([x2]), np.array([y2]))), _kind="fails",
                     _what="grid bearing", _replay=rep)
    if ok:
        g = float(g[0, 0])
        chk.expect(abs(g) <= np.pi + 1e-9, "bearing", lambda: "bearing %r outside -pi..pi" % g, rep)
        if lever > 1e-3:
            chk.expect(np.radians(adiff(np.degrees(g), b)) * lever <= 1e-3 + 1e-8 * lever, "bearing",
                       lambda: "bearing from %r to %r is %r, expected %r degrees" % (p[:2], p[2:], np.degrees(g), b), rep)
    # there along a bearing and back
    brg = float(rng.choice([0, 90, 180, 270, 360, rng.uniform(0, 360), rng.uniform(-180, 540)]))
    dist = [lambda: 0.0, lambda: rng.uniform(0, 300), lambda: rng.uniform(0, 19000), lambda: R * np.radians(90 - y1)][int(rng.choice(4, p=[.1, .5, .3, .1]))]()
    ok, q = chk.call(lambda: m.bear2LatLon(brg, dist, x1, y1), _kind="fails", _what="destination", _replay=lambda: [p, brg, dist])
    if ok and abs(y1) < 89.999999:
        lon, lat = float(q[0]), float(q[1])
        t, az = dist / R, np.radians(brg)
        l, f = np.radians(x1), np.radians(y1)
        east = np.array([-np.sin(l), np.cos(l), 0])
        north = np.array([-np.sin(f) * np.cos(l), -np.sin(f) * np.sin(l), np.cos(f)])
        goal = np.cos(t) * vec(x1, y1) + np.sin(t) * (np.cos(az) * north + np.sin(az) * east)
        off = R * np.linalg.norm(vec(lon, lat) - goal)
        chk.expect(abs(lat) <= 90 and off <= 2e-3, "destination",
                   lambda: "%r km along %r from %r ends at %r, off by %r km" % (dist, brg, p[:2], (lon, lat), off), rep)
        ok, d = chk.call(lambda: float(m.distGC([y1, lat], [x1, lon])), _kind="fails", _what="distance", _replay=rep)
        if ok:
            chk.expect(abs(d - min(dist, 2 * np.pi * R - dist)) <= 4e-3, "return",
                       lambda: "%r km along %r from %r measures %r km back" % (dist, brg, p[:2], d), rep)
        if lon != x1 or lat != y1:
            g = np.degrees(float(np.asarray(m.gridLatLonBear(x1, y1, np.array([lon]), np.array([lat])))[0, 0]))
            if R * np.sin(t) > 0.1 and abs(y1) < 89.999:
                chk.expect(np.radians(adiff(g, brg)) * R * np.sin(t) <= 4e-3, "return",
                           lambda: "%r km along %r from %r has bearing %r" % (dist, brg, p[:2], g), rep)
    chk.evaluated(("pair", abs(y1) > 89, abs(x2 - x1) > 180, want < 1, want > 19000), {"pair": p, "km": want})


def steps(chk, k):
    """Consecutive points of a track: local flat displacements."""
    from Utilities import maputils as m
    rng = chk.rng("steps", k)
    n = int(rng.integers(2, 8))
    lat = np.clip(rng.uniform(-60, 60) + np.cumsum(rng.normal(0, 1, n)), -80, 80)
    lon = (rng.choice([0.0, 180.0, 150.0]) + rng.normal(0, 3) + np.cumsum(rng.normal(0, 1, n)))
    wrap = int(rng.integers(3))
    lon = lon if wrap == 0 else lon % 360 if wrap == 1 else (lon + 180) % 360 - 180
    if rng.random() < 0.2:
        lat[1], lon[1] = lat[0], lon[0]
    rep = lambda: {"lat": lat, "lon": lon}
    ok, r = chk.call(lambda: m.latLon2XY(0, 0, lat, lon), _kind="fails", _what="displacements", _replay=rep)
    ok2, z = chk.call(lambda: m.latLon2Azi(lat, lon), _kind="fails", _what="bearings", _replay=rep)
    if not (ok and ok2):
        return
    north = R * np.radians(np.diff(lat))
    east = R * np.radians((np.diff(lon) + 180) % 360 - 180) * np.cos(np.radians(lat[1:]))
    chk.expect(np.allclose(r[0], north, atol=1e-6) and np.allclose(r[1], east, atol=1e-6), "displacement",
               lambda: "displacements %r, expected %r" % (r, (north, east)), rep)
    az, ln = np.asarray(z[0], float), np.asarray(z[1], float)
    size = np.hypot(north, east)
    far = size > 1e-6
    want = np.degrees(np.arctan2(east, north)) % 360
    chk.expect(np.allclose(ln, size, atol=1e-6) and az.min() >= 0 and az.max() <= 360
               and np.all(adiff(az[far], want[far]) < 1e-3), "displacement",
               lambda: "bearings %r and lengths %r, expected %r and %r" % (az, ln, want, size), rep)
    th = rng.uniform(-2 * np.pi, 2 * np.pi, 5)
    for f, g in ((m.bearing2theta, m.theta2bearing), (m.theta2bearing, m.bearing2theta)):
        a = f(th)
        chk.expect(np.all((a >= 0) & (a <= 2 * np.pi)) and np.all(adiff(np.degrees(a), 90 - np.degrees(th)) < 1e-9)
                   and np.all(adiff(np.degrees(g(a)), np.degrees(th)) < 1e-9), "angle", "bearing and angle do not correspond", lambda: th)
    la = np.concatenate([rng.uniform(-90, 90, 4), [0, 90, -90]])
    c = m.coriolis(la)
    chk.expect(np.allclose(c, 4 * np.pi / 86400 * np.sin(np.radians(la)), rtol=1e-12, atol=1e-18), "coriolis", "Coriolis factor", lambda: la)
    chk.evaluated(("steps", wrap), None, k=n)


def grids(chk, k):
    from Utilities import maputils as m
    rng = chk.rng("grid", k)
    lon, lat = float(rng.uniform(-178, 358)), float(rng.uniform(-45, 45))
    which = k % 4
    near = int(rng.integers(3))
    if near == 1:
        lon, lat = round(lon, 2), round(lat, 2)
    elif near == 2:
        lon, lat = float(rng.normal(0, 1)), float(rng.normal(0, 1))
    res = int(rng.choice([20, 50, 100, 250])) / 1000.
    margin = int(rng.integers(1, 30)) * res if rng.random() < 0.5 else int(rng.integers(500, 3000)) / 1000.
    lim = [round(float(v), 2) for v in (lon + rng.uniform(-4, 1), lat + rng.uniform(-4, 1))]
    if rng.random() < 0.4:
        i = int(rng.integers(2))
        lim[i] = 0.0
        lon, lat = (float(rng.uniform(-1, 4)), lat) if i == 0 else (lon, float(rng.uniform(-1, 4)))
    lim = (lim[0], round(lim[0] + rng.uniform(0, 3), 2), lim[1], round(lim[1] + rng.uniform(0, 3), 2))
    rep = lambda: {"function": which, "centre": (lon, lat), "margin": margin, "resolution": res, "limits": lim}
    if which == 0:
        call, box = (lambda: m.makeGrid(lon, lat, margin, res)), (lon, lon, lat, lat)
    elif which == 1:
        kw = dict(zip(("minLon", "maxLon", "minLat", "maxLat"), lim))
        if rng.random() < 0.5:
            call, box = (lambda: m.makeGridDomain(lon, lat, margin=margin, resolution=res, **kw)), lim
        else:
            call, box = (lambda: m.makeGrid(lon, lat, margin, res, **kw)), lim
    elif which == 2:
        call, box = (lambda: m.meshLatLon(lon, lat, margin, res)), (lon, lon, lat, lat)
    else:
        call, box = (lambda: m.meshLatLonDomain(*lim, margin=margin, resolution=res)), lim
    ok, got = chk.call(call, _kind="fails", _what="making a grid", _replay=rep)
    if not ok:
        return
    a, b = np.asarray(got[0], float), np.asarray(got[1], float)
    if not chk.expect(a.shape == b.shape and a.ndim == 2, "grid", lambda: "shapes %r, %r" % (a.shape, b.shape), rep):
        return
    if which < 2:
        # recover the positions from distance and direction
        t, az = a / R, np.pi / 2 - b
        f = np.radians(lat)
        s = np.clip(np.sin(f) * np.cos(t) + np.cos(f) * np.sin(t) * np.cos(az), -1, 1)
        gy = np.degrees(np.arcsin(s))
        gx = lon + np.degrees(np.arctan2(np.sin(az) * np.sin(t) * np.cos(f), np.cos(t) - np.sin(f) * s))
        chk.expect(a.min() > 0, "grid", "a distance is not positive", rep)
    else:
        gx, gy = a, b
    x, y = gx[0], gy[:, 0]
    e = 1e-6
    chk.expect(np.allclose(gx, x, atol=e) and np.allclose(gy, y[:, None], atol=e)
               and np.allclose(np.diff(x), res, atol=e) and np.allclose(np.diff(y), res, atol=e), "grid",
               lambda: "the grid is not regular with spacing %r" % res, rep)
    slack = 0.0025 + e
    for v, lo, hi, name in ((x, box[0], box[1], "longitude"), (y, box[2], box[3], "latitude")):
        chk.expect(abs(v[0] - (lo - margin)) <= slack and hi + margin - res - slack <= v[-1] <= hi + margin + res + slack, "cover",
                   lambda: "%ss from %r to %r for limits %r to %r and margin %r" % (name, v[0], v[-1], lo, hi, margin), rep)
    chk.evaluated(("grid", which, lat < 0, lon < 0, 0.0 in lim), {"shape": a.shape}, k=a.size)


def lookup(chk, k):
    from Utilities import maputils as m
    rng = chk.rng("lookup", k)
    arr = np.sort(rng.uniform(-50, 50, int(rng.integers(1, 40))))
    if rng.random() < 0.4:
        arr = arr[::-1]
    if rng.random() < 0.4:
        arr = np.arange(0, 20, 0.25)
    v = float(rng.choice([rng.uniform(-70, 70), rng.choice(arr), arr[0], arr[-1]]))
    rep = lambda: {"array": arr, "value": v}
    ok, i = chk.call(lambda: int(m.find_index(arr, v)), _kind="fails", _what="nearest index", _replay=rep)
    ok2, near = chk.call(lambda: float(m.find_nearest(arr, v)), _kind="fails", _what="nearest value", _replay=rep)
    best = np.abs(arr - v).min()
    asc = arr.size < 2 or arr[1] > arr[0]
    if ok and (asc or arr.min() <= v <= arr.max()):
        chk.expect(0 <= i < arr.size and abs(abs(arr[i] - v) - best) < 1e-12, "nearest",
                   lambda: "index %r for %r, distance %r, nearest %r" % (i, v, abs(arr[i] - v), best), rep)
        if ok2:
            chk.expect(abs(abs(near - v) - best) < 1e-12, "nearest", lambda: "value %r for %r" % (near, v), rep)
    chk.evaluated(("lookup", asc), None)


def cross(chk, k):
    from Utilities import maputils as m
    rng = chk.rng("cross", k)
    x1, y1 = float(rng.uniform(0, 359)), float(rng.uniform(-50, 50))
    x2, y2 = x1 + float(rng.uniform(-20, 20)), float(np.clip(y1 + rng.uniform(-20, 20), -70, 70))
    if abs(x1 - x2) + abs(y1 - y2) < 0.1:
        return
    lo, la = x1 + rng.uniform(-15, 15, 5), np.clip(y1 + rng.uniform(-15, 15, 4), -80, 80)
    rep = lambda: {"from": (x1, y1), "to": (x2, y2), "lon": lo, "lat": la}
    ok, d = chk.call(lambda: np.asarray(m.dist2GC(x1, y1, x2, y2, lo, la)), _kind="fails", _what="distance to a great circle", _replay=rep)
    if not ok:
        return
    pole = np.cross(vec(x1, y1), vec(x2, y2))
    pole /= np.linalg.norm(pole)
    gx, gy = np.meshgrid(lo, la)
    want = R * np.arcsin(np.clip((vec(gx, gy) * pole).sum(-1), -1, 1))
    chk.expect(d.shape == want.shape and np.allclose(np.abs(d), np.abs(want), rtol=1e-3, atol=1e-2), "cross-track",
               lambda: "distances %r, expected %r" % (d.tolist(), want.tolist()), rep)
    chk.evaluated(("cross",), None, k=want.size)


def run(chk):
    for fn, n in ((pairs, chk.n(6000, 60000)), (steps, chk.n(1500, 15000)), (grids, chk.n(600, 6000)), (lookup, chk.n(1500, 15000)),
                  (cross, chk.n(400, 4000))):
        for k in range(n):
            fn(chk, k)
