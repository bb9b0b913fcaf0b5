"""C21: cell numbering is a bijection between cells and in-domain regions."""
from fractions import Fraction as F
import math

import numpy as np

from harness import core


def make():
    return core.Check("C21", "one evaluation per (domain, point) and per (domain, cell number)",
                      ["limits and cell sizes are exact binary fractions that divide the domain"])


def run(chk):
    from Utilities import stats
    rng = chk.rng("domains")
    domains = [(70, -40, 5, 5, 22, 8, int), (130, -20, 2, 2, 20, 20, int), (-20, -10, 5, 5, 8, 4, int),
               (350, -5, 2.5, 2.5, 8, 8, float), (-180, -90, 10, 5, 36, 36, int), (100, 0, 1, 1, 30, 15, int)]
    for _ in range(chk.n(150, 2000)):
        dx, dy = (float(v) for v in rng.choice([0.25, 0.5, 1, 1.5, 2, 2.5, 3, 5, 7.5, 10], 2))
        nx, ny = (int(v) for v in rng.integers(1, 25, 2))
        q = float(rng.choice([1, 0.5, 0.25]))
        x0 = float(np.floor(rng.uniform(-180, 300) / q) * q)
        y0 = float(np.floor(rng.uniform(-80, 60) / q) * q)
        domains.append((x0, y0, dx, dy, nx, ny, float))
    for d, (x0, y0, dx, dy, nx, ny, typ) in enumerate(domains):
        lim = {"xMin": typ(x0), "xMax": typ(x0 + nx * dx), "yMin": typ(y0), "yMax": typ(y0 + ny * dy)}
        spc = {"x": typ(dx) if typ is float or dx == int(dx) else dx, "y": typ(dy) if typ is float or dy == int(dy) else dy}
        rep = {"limit": lim, "space": spc}
        chk.expect(stats.maxCellNum(lim, spc) == nx * ny - 1, "max-cell",
                   "max cell number %r for %dx%d cells" % (stats.maxCellNum(lim, spc), nx, ny), rep)
        pts = [(rng.uniform(lim["xMin"], lim["xMax"]), rng.uniform(lim["yMin"], lim["yMax"]))
               for _ in range(40)]
        xe = [x0 + dx * int(k) for k in rng.integers(0, nx + 1, 12)] + [x0, x0 + dx * nx]
        ye = [y0 + dy * int(k) for k in rng.integers(0, ny + 1, 12)] + [y0, y0 + dy * ny]
        for x in xe:
            for y in ye[:4] + ye[-2:]:
                pts += [(x, y), (np.nextafter(x, 1e9), y), (np.nextafter(x, -1e9), y),
                        (x, np.nextafter(y, 1e9)), (x, np.nextafter(y, -1e9))]
        pts += [(float(np.float32(a)), float(np.float32(b))) for a, b in pts[:20]]
        pts += [(np.float32(a), np.float32(b)) for a, b in pts[:20]]
        pts += [(x0 - rng.uniform(0.001, 50), y0 + dy / 2), (x0 + nx * dx + rng.uniform(0, 50), y0 + dy / 2),
                (x0 + dx / 2, y0 - rng.uniform(0, 30)), (x0 + dx / 2, y0 + ny * dy + rng.uniform(0.001, 30))]
        for lon, lat in pts:
            fx, fy = F(float(lon)), F(float(lat))
            inside = F(x0) <= fx < F(x0) + nx * F(dx) and F(y0) < fy <= F(y0) + ny * F(dy)
            r = dict(rep, lon=float(lon), lat=float(lat))
            try:
                got = stats.getCellNum(lon, lat, lim, spc)
            except ValueError:
                got = None
            except Exception as err:
                chk.violate("cell-error", "%s for (%r, %r)" % (err, lon, lat), r)
                continue
            if not inside:
                chk.expect(got is None, "outside-accepted", "point (%r, %r) outside %s given cell %r" % (lon, lat, lim, got), r)
                chk.evaluated((d, "out"))
                continue
            j = math.floor((fx - F(x0)) / F(dx))
            i = math.floor((F(y0) + ny * F(dy) - fy) / F(dy))
            want = i * nx + j
            # within rounding of an edge either neighbour in the row/column is acceptable
            ax, ay = (fx - F(x0)) % F(dx), (F(y0) + ny * F(dy) - fy) % F(dy)
            if any(0 < v < F(1, 10 ** 9) for v in (ax, ay, F(dx) - ax, F(dy) - ay)):
                chk.expect(got is not None and 0 <= got < nx * ny, "cell-number", "point (%r, %r): cell %r" % (lon, lat, got), r)
            else:
                chk.expect(got is not None and int(got) == want, "cell-number",
                           "point (%r, %r) in %s step %s: cell %r, expected %d" % (lon, lat, lim, spc, got, want), r)
            if got is not None and 0 <= got < nx * ny:
                w, n = stats.getCellLonLat(got, lim, spc)
                chk.expect(w - 1e-9 <= lon <= w + dx + 1e-9 and n - dy - 1e-9 <= lat <= n + 1e-9, "corner",
                           "cell %r has corner (%r, %r), does not contain (%r, %r)" % (got, w, n, lon, lat), r)
            chk.evaluated((d, want), {"limit": lim, "space": spc, "point": [float(lon), float(lat)], "cell": want})
        for c in list(range(min(nx * ny, 60))) + [nx * ny - 1]:
            w, n = stats.getCellLonLat(c, lim, spc)
            chk.close([w, n], [x0 + dx * (c % nx), y0 + dy * ny - dy * (c // nx)], "corner",
                      "corner of cell %d of %s" % (c, lim), rep)
            chk.expect(bool(stats.validCellNum(c, lim, spc)), "valid-cell", "cell %d rejected" % c, rep)
            back = stats.getCellNum(w, n, lim, spc)
            chk.expect(back == c, "round-trip", "corner of cell %d maps to cell %r" % (c, back), rep)
            chk.evaluated((d, c, "corner"))
        for c in (-1, -7, nx * ny, nx * ny + 3, 10 * nx * ny + 1):
            chk.expect(not stats.validCellNum(c, lim, spc), "valid-cell", "cell %d accepted" % c, rep)
            try:
                v = stats.getCellLonLat(c, lim, spc)
                chk.violate("invalid-cell-accepted", "cell %d of %d given corner %r" % (c, nx * ny, v), rep)
            except IndexError:
                pass
            chk.evaluated()
        if x0 < 0 < x0 + nx * dx:
            chk.count("domains_crossing_greenwich")
        if y0 < 0 < y0 + ny * dy:
            chk.count("domains_crossing_equator")
