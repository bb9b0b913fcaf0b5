"""C40: geographic and UTM coordinates agree with the transverse Mercator projection."""
import io
import math
import os

import numpy as np

from harness import core


def make():
    return core.Check("C40", "one evaluation per point or grid converted",
                      ["longitudes from -180 to 360, latitudes of the UTM system", "points within 3.5 degrees of a zone's centre are judged to the centimetre"])



# Published radii and squared eccentricities (Defense Mapping Agency 1987).
TABLE = {1: (6377563, 0.00667054), 2: (6378160, 0.006694542), 3: (6377397, 0.006674372), 5: (6378206, 0.006768658), 6: (6378249, 0.006803511),
         7: (6377276, 0.006637847), 10: (6378160, 0.006694605), 11: (6378137, 0.00669438), 12: (6378200, 0.006693422), 13: (6378270, 0.00672267),
         14: (6378388, 0.00672267), 15: (6378245, 0.006693422), 22: (6378135, 0.006694318), 23: (6378137, 0.00669438)}


def kruger(lat, dlon, a, e2):
    """Transverse Mercator by Kruger's series in the third flattening."""
    f = 1 - math.sqrt(1 - e2)
    n = f / (2 - f)
    A = a / (1 + n) * (1 + n ** 2 / 4 + n ** 4 / 64)
    al = (n / 2 - 2 * n ** 2 / 3 + 5 * n ** 3 / 16 + 41 * n ** 4 / 180, 13 * n ** 2 / 48 - 3 * n ** 3 / 5 + 557 * n ** 4 / 1440,
          61 * n ** 3 / 240 - 103 * n ** 4 / 140, 49561 * n ** 4 / 161280)
    p, l, e = math.radians(lat), math.radians(dlon), math.sqrt(e2)
    t = math.sinh(math.atanh(math.sin(p)) - e * math.atanh(e * math.sin(p)))
    xi, eta = math.atan2(t, math.cos(l)), math.atanh(math.sin(l) / math.sqrt(1 + t * t))
    x = eta + sum(c * math.cos(2 * (j + 1) * xi) * math.sinh(2 * (j + 1) * eta) for j, c in enumerate(al))
    y = xi + sum(c * math.sin(2 * (j + 1) * xi) * math.cosh(2 * (j + 1) * eta) for j, c in enumerate(al))
    return 0.9996 * A * x, 0.9996 * A * y


def zone_of(lat, lon):
    """Standard zone with the exceptions for Norway and Svalbard."""
    z = int(math.floor((lon + 180) / 6)) + 1
    if 56 <= lat < 64 and 3 <= lon < 12:
        z = 32
    if 72 <= lat < 84 and 0 <= lon < 42:
        z = 31 if lon < 9 else 33 if lon < 21 else 35 if lon < 33 else 37
    return z


def wrap(x):
    return (x + 180.0) % 360.0 - 180.0


def point(chk, rng, k):
    from Utilities import lat_long_UTM_conversion as utm
    lat = float(rng.choice([rng.uniform(-80, 84), rng.uniform(-40, 40), rng.uniform(55, 84), rng.integers(-79, 83), 0.0]))
    lon = float(rng.choice([rng.uniform(-180, 180), rng.uniform(180, 360), rng.integers(-180, 360), rng.integers(-30, 60) * 6, rng.uniform(0, 45)]))
    ell = int(rng.choice(sorted(TABLE))) if rng.random() < 0.4 else 23
    a, e2 = TABLE[ell]
    rep = {"lat": lat, "lon": lon, "ellipsoid": ell}
    args = (lat, lon) if ell == 23 and rng.random() < 0.5 else (lat, lon, ell)
    forced = None
    if rng.random() < 0.2:
        forced = (zone_of(lat, wrap(lon)) - 1 + int(rng.integers(-1, 2))) % 60 + 1
    ok, got = chk.call(utm.LLtoUTM, *args, _kind="convert-fails", _what="to UTM", _replay=rep, **({} if forced is None else {"ZoneNumber": forced}))
    if not ok:
        return
    z, east, north = got
    want = forced or zone_of(lat, wrap(lon))
    chk.expect(z == want, "zone", lambda: "%r: zone %r, expected %r" % (rep, z, want), rep)
    dl = wrap(wrap(lon) - ((z - 1) * 6 - 177))
    raw = wrap(lon) - ((z - 1) * 6 - 177)
    if abs(raw) > 9.1:
        return                                  # neighbouring zone across the date line
    x, y = kruger(lat, dl, a, e2)
    x, y = x + 500000.0, y + (1e7 if lat < 0 else 0)
    tol = 0.02 if abs(dl) <= 3.5 else 0.5 if abs(dl) <= 6.1 else 10.0
    chk.expect(abs(east - x) < tol and abs(north - y) < tol, "projection", lambda: "%r: (%r, %r), expected (%r, %r)" % (rep, east, north, x, y), rep)
    ok, back = chk.call(utm.UTMtoLL, north, east, z, lat < 0, ell, _kind="convert-fails", _what="from UTM", _replay=rep)
    if ok:
        deg = tol / 1e5
        chk.expect(abs(back[0] - lat) < deg and abs(wrap(back[1] - lon)) * math.cos(math.radians(lat)) < deg, "round-trip",
                   lambda: "%r: back at %r" % (rep, back), rep)
    chk.evaluated((round(lat, 3), round(lon, 3), ell), {"point": rep, "got": [z, east, north]})


def grids(chk, rng, k):
    from Utilities.grid import grdSave
    d = chk.scratch("grid")
    lat0, lon0 = float(rng.integers(-40, 40)), float(rng.integers(0, 350))
    step = float(rng.choice([0.25, 0.5, 1.0]))
    lon, lat = lon0 + step * np.arange(int(rng.integers(2, 7))), lat0 + step * np.arange(int(rng.integers(2, 6)))
    data = rng.normal(0, 10, (lat.size, lon.size))
    name = os.path.join(d, "x.txt")
    rep = {"lon": lon, "lat": lat}
    ok, _ = chk.call(grdSave, name, data, lon, lat, step, _kind="save-fails", _what="a grid saved in UTM coordinates", _replay=rep, coords="UTM")
    if not ok:
        return
    with open(name) as f:
        head = [f.readline().split() for _ in range(6)]
        body = np.loadtxt(io.StringIO(f.read()), ndmin=2)
    head = {a.lower(): float(b) for a, b in head}
    z = zone_of(lat0, wrap(lon0))
    x, y = kruger(lat0, wrap(lon0) - ((z - 1) * 6 - 177), *TABLE[23])
    chk.expect(abs(head["xllcorner"] - x - 500000) < 0.02 and abs(head["yllcorner"] - y - (1e7 if lat0 < 0 else 0)) < 0.02, "grid-corner",
               lambda: "corner of a grid at %r: %r" % ((lon0, lat0), head), rep)
    chk.expect(abs(head["cellsize"] - step * 111190) < 0.01 * step * 111190, "grid-cell", lambda: "cells of %r degrees saved as %r m" % (step, head["cellsize"]), rep)
    chk.close(body, data, "grid-values", "values of a grid saved in UTM coordinates", rep, rtol=1e-6, atol=1e-6)
    chk.evaluated(("grid", k), None)


def group(chk, item):
    g, n = item
    rng = chk.rng("utm", g)
    for k in range(n):
        point(chk, rng, (g, k))
    for k in range(max(4, n // 100)):
        grids(chk, rng, (g, k))


def run(chk):
    import Utilities.lat_long_UTM_conversion, Utilities.grid       # noqa: F401,E401
    chk.pmap(group, [(g, chk.n(1500, 30000)) for g in range(8)])
