"""C35: intersections and containment against exact rational geometry."""
from fractions import Fraction as F

import numpy as np

from harness import core


def make():
    return core.Check("C35", "one evaluation per pair of figures or point and polygon compared",
                      ["coordinates are small multiples of a power of two", "no tangents, no zero-length segments, circles do not pass through end points",
                       "query points off the boundary, simple polygons"])


def pts(p):
    return [F(int(v)) for v in p]


def segment(rng, m=20):
    while True:
        a, b = rng.integers(-m, m + 1, 2), rng.integers(-m, m + 1, 2)
        if tuple(a) != tuple(b):
            return tuple(map(int, a)), tuple(map(int, b))


def seg_seg(a1, a2, b1, b2):
    """Status and exact point (None where parallel)."""
    d = (a2[0] - a1[0], a2[1] - a1[1])
    e = (b2[0] - b1[0], b2[1] - b1[1])
    w = (b1[0] - a1[0], b1[1] - a1[1])
    den = d[0] * e[1] - d[1] * e[0]
    if den == 0:
        if w[0] * d[1] - w[1] * d[0] != 0:
            return "Parallel", None
        t = sorted(F((p[0] - a1[0]) * d[0] + (p[1] - a1[1]) * d[1], d[0] ** 2 + d[1] ** 2) for p in (b1, b2))
        return ("Coincident" if t[0] <= 1 and t[1] >= 0 else "apart"), None
    u, v = F(w[0] * e[1] - w[1] * e[0], den), F(w[0] * d[1] - w[1] * d[0], den)
    if 0 <= u <= 1 and 0 <= v <= 1:
        return "Intersection", (a1[0] + u * d[0], a1[1] + u * d[1])
    return "No Intersection", None


def flat(x):
    if isinstance(x, (list, tuple)):
        return [q for y in x for q in flat(y)]
    return [x]


def match(got, want, scale, tol=1e-9, once=False):
    """Same points, whatever the order (and, for polygons, however often a shared corner is listed)."""
    got = [(p.x / scale, p.y / scale) for p in flat(got)]
    want = list(want)
    if once:
        near = lambda a, b: abs(a[0] - float(b[0])) <= tol and abs(a[1] - float(b[1])) <= tol
        return all(any(near(g, w) for w in want) for g in got) and all(any(near(g, w) for g in got) for w in want)
    if len(got) != len(want):
        return False
    for g in got:
        for w in want:
            if abs(g[0] - float(w[0])) <= tol and abs(g[1] - float(w[1])) <= tol:
                want.remove(w)
                break
        else:
            return False
    return True


def lines(chk, k):
    from Utilities import Intersections as I
    rng = chk.rng("lines", k)
    a1, a2 = segment(rng)
    b1, b2 = segment(rng, int(rng.choice([4, 20])))
    kind = int(rng.integers(5))
    if kind == 0:       # parallel or collinear
        n = int(rng.integers(1, 3)) * (1 if rng.random() < 0.5 else -1)
        d = (a2[0] - a1[0], a2[1] - a1[1])
        o = (0, 0) if rng.random() < 0.5 else tuple(int(v) for v in rng.integers(-5, 6, 2))
        b1 = (a1[0] + o[0], a1[1] + o[1])
        b2 = (b1[0] + n * d[0], b1[1] + n * d[1])
    elif kind == 1:     # touching at an end point
        b1 = a1 if rng.random() < 0.5 else a2
        if b1 == b2:
            return
    status, p = seg_seg(a1, a2, b1, b2)
    rep = lambda: {"first": (a1, a2), "second": (b1, b2)}
    sc = float(rng.choice([1.0, 0.25, 0.0625]))
    P = lambda x, y: I.Point(x * sc, y * sc)
    for one, two, what in (((a1, a2), (b1, b2), ""), ((b1, b2), (a1, a2), " (swapped)"), ((a2, a1), (b1, b2), " (reversed)")):
        ok, r = chk.call(lambda: I.Crossings().LineLine(P(*one[0]), P(*one[1]), P(*two[0]), P(*two[1])), _kind="fails",
                         _what="intersecting two segments", _replay=rep)
        if not ok:
            return
        if status == "apart":
            chk.expect(not flat(r.points), "points", "points reported for separate segments", rep)
        else:
            chk.expect(r.status == status and match(r.points, [p] if p else [], sc), "segments",
                       lambda: "%r with %r%s: %s %r, expected %s %r" % (one, two, what, r.status, [(q.x, q.y) for q in flat(r.points)], status,
                                                                      p and tuple(map(float, p))), rep)
    chk.evaluated(("lines", status, kind), {"first": (a1, a2), "second": (b1, b2), "status": status})


def circ(c, r, a1, a2):
    """Status and points of a segment and a circle, None when tangent or through an end point."""
    d = (a2[0] - a1[0], a2[1] - a1[1])
    w = (a1[0] - c[0], a1[1] - c[1])
    a, b, q = d[0] ** 2 + d[1] ** 2, 2 * (d[0] * w[0] + d[1] * w[1]), w[0] ** 2 + w[1] ** 2 - r ** 2
    e = (a2[0] - c[0]) ** 2 + (a2[1] - c[1]) ** 2 - r ** 2
    disc = b * b - 4 * a * q
    if disc == 0 or q == 0 or e == 0:
        return None
    if q < 0 and e < 0:
        return "Inside", []
    if disc < 0:
        return "Outside", []
    s = float(disc) ** 0.5
    u = [(-b + s) / (2 * a), (-b - s) / (2 * a)]
    if min(abs(v - w_) for v in u for w_ in (0, 1)) < 1e-7:
        return None
    u = [v for v in u if 0 < v < 1]
    if not u:
        return "Outside", []
    return "Intersection", [(a1[0] + v * d[0], a1[1] + v * d[1]) for v in u]


def circles(chk, k):
    from Utilities import Intersections as I
    rng = chk.rng("circles", k)
    a1, a2 = segment(rng)
    c, r = tuple(int(v) for v in rng.integers(-10, 11, 2)), float(rng.integers(1, 25))
    want = circ(c, int(r), a1, a2)
    if want is None:
        return
    sc = float(rng.choice([1.0, 0.25, 0.0625]))
    P = lambda x, y: I.Point(x * sc, y * sc)
    rep = lambda: {"centre": c, "radius": r, "segment": (a1, a2)}
    for s in ((a1, a2), (a2, a1)):
        ok, got = chk.call(lambda: I.Crossings().CircleLine(P(*c), r * sc, P(*s[0]), P(*s[1])), _kind="fails", _what="intersecting a circle", _replay=rep)
        if ok:
            chk.expect(got.status == want[0] and match(got.points, want[1], sc, 1e-7), "circle",
                       lambda: "%r with circle %r %r: %s %r, expected %s %r" % (s, c, r, got.status, [(q.x, q.y) for q in flat(got.points)], want[0], want[1]), rep)
    chk.evaluated(("circle", want[0], len(want[1])), None)


def polygon(rng):
    """A simple polygon with integer corners, closed; star-shaped, often concave."""
    kind = int(rng.integers(3))
    if kind == 0:
        x = np.sort(rng.choice(np.arange(-20, 21), 2, False))
        y = np.sort(rng.choice(np.arange(-20, 21), 2, False))
        v = [(x[0], y[0]), (x[1], y[0]), (x[1], y[1]), (x[0], y[1])]
    elif kind == 1:     # comb: vertical teeth
        n = int(rng.integers(2, 5))
        v = [(0, -20)]
        for i in range(n):
            v += [(4 * i + 1, int(rng.integers(0, 20))), (4 * i + 3, int(rng.integers(-18, -2)))]
        v += [(4 * n, -20)]
    else:
        n = int(rng.integers(3, 10))
        ang = np.sort(rng.choice(np.arange(36), n, False)) * 10
        rad = rng.integers(4, 40, n)
        gap = np.diff(np.append(ang, ang[0] + 360))
        if gap.max() >= 180:
            return polygon(rng)
        v = [(int(round(r * np.cos(np.radians(a)))), int(round(r * np.sin(np.radians(a))))) for a, r in zip(ang, rad)]
    v = [tuple(map(int, p)) for p in v]
    if kind == 2 and not simple(v):
        return polygon(rng)
    o = tuple(int(t) for t in rng.integers(-3, 4, 2))
    v = [(p[0] + o[0], p[1] + o[1]) for p in v]
    if rng.random() < 0.5:
        v = v[::-1]
    s = int(rng.integers(len(v)))
    v = v[s:] + v[:s]
    return v + v[:1]


def simple(v):
    n = len(v)
    if len(set(v)) < n:
        return False
    for i in range(n):
        for j in range(i + 1, n):
            s, p = seg_seg(v[i], v[(i + 1) % n], v[j], v[(j + 1) % n])
            if s == "Coincident" and (j - i) % n not in (1, n - 1):
                return False
            if (j - i) % n in (1, n - 1):
                if s == "Coincident":
                    return False
                continue
            if s == "Intersection":
                return False
    return True


def inside(q, v):
    """Exact containment by crossing a ray; None on the boundary."""
    odd = False
    for (x1, y1), (x2, y2) in zip(v[:-1], v[1:]):
        cr = (x2 - x1) * (q[1] - y1) - (y2 - y1) * (q[0] - x1)
        if cr == 0 and min(x1, x2) <= q[0] <= max(x1, x2) and min(y1, y2) <= q[1] <= max(y1, y2):
            return None
        if (y1 <= q[1]) != (y2 <= q[1]):
            if (cr > 0) == (y2 > y1):
                odd = not odd
    return odd


def polygons(chk, k):
    from Utilities import Intersections as I
    rng = chk.rng("polygon", k)
    v = polygon(rng)
    sc = float(rng.choice([1.0, 0.25, 0.0625]))
    P = lambda x, y: I.Point(x * sc, y * sc)
    V = I.convert2vertex([p[0] * sc for p in v], [p[1] * sc for p in v])
    rep = lambda: {"polygon": v}
    for _ in range(12):
        q = tuple(int(t) for t in rng.integers(-40, 41, 2)) if rng.random() < 0.4 else tuple(int(t) + o for t, o in zip(v[int(rng.integers(len(v)))], rng.integers(-3, 4, 2)))
        want = inside(q, v)
        if want is None:
            continue
        ok, got = chk.call(lambda: I.inLand(P(*q), V), _kind="fails", _what="point in polygon", _replay=rep)
        if ok:
            chk.expect(bool(got) == want, "inside", lambda: "point %r is reported %s the polygon %r" % (q, "inside" if got else "outside", v), rep)
        chk.evaluated(("inside", want, len(v)), None)
    # segments and circles against the edges
    a1, a2 = segment(rng, 30)
    hits, skip = [], False
    for b1, b2 in zip(v[:-1], v[1:]):
        s, p = seg_seg(a1, a2, b1, b2)
        skip = skip or s == "Coincident" or s == "apart"
        if p:
            hits.append(p)
    form = int(rng.integers(2))
    other = [tuple(t + 200 for t in p) for p in v]
    arg = tuple(V) if form == 0 else [V, I.convert2vertex([p[0] * sc for p in other], [p[1] * sc for p in other])]
    if not skip:
        ok, got = chk.call(lambda: I.Crossings().LinePolygon(P(*a1), P(*a2), arg), _kind="fails", _what="line and polygon", _replay=rep)
        if ok:
            chk.expect(got.status == ("Intersection" if hits else "No Intersection") and match(got.points, hits, sc, once=True), "line-polygon",
                       lambda: "segment %r with %r: %s %r, expected %r" % ((a1, a2), v, got.status, [(q.x, q.y) for q in flat(got.points)],
                                                                           [tuple(map(float, h)) for h in hits]), rep)
        chk.evaluated(("line-polygon", bool(hits), form), None)
    c, r = tuple(int(t) for t in rng.integers(-10, 11, 2)), float(rng.integers(1, 25))
    parts = [circ(c, int(r), b1, b2) for b1, b2 in zip(v[:-1], v[1:])]
    if all(p is not None for p in parts):
        hits = [q for p in parts for q in p[1]]
        ok, got = chk.call(lambda: I.Crossings().CirclePolygon(P(*c), r * sc, arg), _kind="fails", _what="circle and polygon", _replay=rep)
        if ok:
            chk.expect(got.status == ("Intersection" if hits else "No Intersection") and match(got.points, hits, sc, 1e-7, once=True), "circle-polygon",
                       lambda: "circle %r %r with %r: %s, %d points, expected %d" % (c, r, v, got.status, len(flat(got.points)), len(hits)), rep)
        chk.evaluated(("circle-polygon", bool(hits), form), None)


def run(chk):
    for fn, n in ((lines, chk.n(3000, 60000)), (circles, chk.n(2500, 40000)), (polygons, chk.n(1200, 20000))):
        for k in range(n):
            fn(chk, k)
