"""
Calls the sanitized extensions through the package's own functions. Run as a
separate process with the sanitizer runtime preloaded; every call is written to
the log before it is made, so an abort identifies its input.
"""
import json
import os
import sys
import zlib

import numpy as np

from . import core, ext

sys.path.insert(0, core.REPO)


class Log:
    def __init__(self, path):
        self.f = open(path, "w")

    def __call__(self, kind, **kw):
        self.f.write(json.dumps(core.jsonable(dict(kw, event=kind))) + "\n")
        self.f.flush()


def exact(rng, a):
    """The values of ``a`` in some layout: exact-size, strided, reversed, column-major."""
    a = np.array(a, dtype=float)
    how = int(rng.integers(5))
    if how == 1:
        big = np.full(tuple(2 * n for n in a.shape), np.nan)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == 2:
        return np.array(a[::-1])[::-1]
    if how == 3:
        return np.asfortranarray(a)
    if how == 4:
        v = np.array(a)
        v.setflags(write=False)
        return v
    return a


def guarded(shape):
    """A writable array in the middle of a block filled with a pattern."""
    n = int(np.prod(shape))
    block = np.full(n + 16, -7.25e77)
    return block, block[8:8 + n].reshape(shape)


def main(seed, block, rounds, logpath):
    log = Log(logpath)
    rng = np.random.default_rng([seed, block, zlib.crc32(b"san")])
    mods = ext.install(san=True)
    from wind import windmodels as wm
    from PressureInterface.pressureProfile import PrsProfile
    from Utilities import maputils
    from Utilities import akima
    if type(akima.interpolate).__name__ != "builtin_function_or_method":
        log("broken", what="compiled interpolation not in use")
        return

    def attempt(what, fn, inputs, finite=True, must=None, **info):
        log("call", what=what, **info)
        keep = [np.array(a) for a in inputs]
        refs = [sys.getrefcount(a) for a in inputs]
        try:
            out = fn()
        except Exception as err:        # noqa: any Python exception is a rejection
            log("raised", what=what, error=type(err).__name__, must=must, message=str(err)[:200])
            out = None
        else:
            good = True
            if finite and out is not None:
                good = all(bool(np.isfinite(np.asarray(o)).all()) for o in (out if isinstance(out, tuple) else (out,)))
            log("returned", what=what, finite=good, must=must)
        same = all(np.array_equal(k, a, equal_nan=True) for k, a in zip(keep, inputs))
        refs2 = [sys.getrefcount(a) for a in inputs]
        if not same:
            log("changed", what=what)
        if any(b < a for a, b in zip(refs, refs2)):
            log("released", what=what, before=refs, after=refs2)
        return out

    for it in range(rounds):
        # profiles, fields, pressure: every length from 1 upward, several shapes
        n = int(rng.choice([1, 2, 3, 4, 5, 7, 8, 16, 17, rng.integers(18, 600)]))
        shape = (n,) if rng.random() < 0.4 else ((1, n) if rng.random() < 0.3 else (n, int(rng.integers(1, 9))))
        rm = float(rng.uniform(5e3, 90e3))
        R = rng.uniform(0, 4, shape) * rm
        if rng.random() < 0.3:
            R.ravel()[0] = 1e-30
        R = np.maximum(R, 1e-27)
        lat = float(rng.choice([-1, 1]) * rng.uniform(3, 45))
        pe, dp = float(rng.uniform(99500, 101500)), float(rng.uniform(1500, 9000))
        name = str(rng.choice(["holland", "powell", "schloemer", "willoughby"]))
        extra = [float(rng.uniform(1.0, 2.2))] if name == "holland" else []
        prof = wm.profile(name)(lat, 140.0, pe, pe - dp, rm, *extra)
        lam = rng.uniform(-np.pi, np.pi, shape)
        info = dict(profile=name, lat=lat, pEnv=pe, pCentre=pe - dp, rMax=rm, shape=list(shape))
        for kind in ("velocity", "vorticity"):
            x = exact(rng, R)
            try:
                a = attempt("profile " + kind, lambda: getattr(prof, kind)(x), [x], layout=str(x.flags), R=R, **info)
            except AssertionError:
                a = None
            if a is not None and np.shape(a) != x.shape:
                log("shape", what="profile " + kind, got=list(np.shape(a)), want=list(x.shape))
        x, y = exact(rng, R), exact(rng, lam)
        attempt("boundary layer field", lambda: wm.KepertWindField(prof).field(x, y, float(rng.uniform(0, 30)), 0.3), [x, y],
                finite=False, R=R, lam=lam, **info)
        x = exact(rng, R / 1000)
        pp = PrsProfile(x, pe, pe - dp, rm / 1000, lat, 140.0, 1.5)
        attempt("pressure", lambda: pp.holland(), [x], R=R, **info)

        # distance grids of every small size
        res = float(rng.choice([0.01, 0.02, 0.05, 0.5, 1.0, 2.0]))
        margin = float(rng.choice([0.0, 0.01, 0.03, 0.1, 0.5, 1.0]))
        lon, la = float(rng.uniform(-180, 360)), float(rng.uniform(-90, 90))
        attempt("distance grid", lambda: maputils.makeGrid(lon, la, margin, res), [], lon=lon, lat=la, margin=margin, resolution=res)

        # interpolation
        n = int(rng.choice([3, 4, 5, 6, rng.integers(7, 80)]))
        m = int(rng.choice([0, 1, 2, n, rng.integers(3, 200)]))
        x = np.cumsum(rng.uniform(0.1, 3, n))
        lo, hi = x[0], x[-1]
        q = rng.uniform(lo, hi, m)
        style = int(rng.integers(6))
        if style == 0:
            q = np.sort(q)
        elif style == 1:
            q = np.sort(q)[::-1]
        elif style == 2:
            q = rng.uniform(lo - 30, hi + 30, m)
        elif style == 3 and m:
            q = rng.choice(x, m)
        elif style == 4 and m:
            q[-1] = hi
            q[0] = lo
        elif m:
            q[rng.integers(m)] = rng.choice([np.nan, np.inf, -np.inf])
        nd = int(rng.integers(1, 4))
        shp = [int(rng.integers(1, 4)) for _ in range(nd)]
        ax = int(rng.integers(nd))
        shp[ax] = n
        y = rng.normal(0, 5, shp)
        xs, ys, qs = exact(rng, x), exact(rng, y), exact(rng, q)
        axis = ax if rng.random() < 0.5 else ax - nd
        if axis == -1 or axis >= 0:
            pass
        else:
            axis = ax
        out = attempt("interpolation", lambda: akima.interpolate(xs, ys, qs, axis), [xs, ys, qs], finite=style != 5,
                      x=x, y=y, x_new=q, axis=axis)
        if out is not None:
            want = list(shp)
            want[ax] = m
            if list(out.shape) != want:
                log("shape", what="interpolation", got=list(out.shape), want=want)
            blk, o = guarded(want)
            attempt("interpolation into array", lambda: akima.interpolate(xs, ys, qs, axis, o), [xs, ys, qs], finite=False,
                    x=x, y=y, x_new=q, axis=axis)
            if not (blk[:8] == -7.25e77).all() or not (blk[8 + o.size:] == -7.25e77).all():
                log("overrun", what="interpolation into array")
            if style != 5 and not np.array_equal(o, out):
                log("differs", what="interpolation into array")

        # calls that make no sense must be refused
        k = int(rng.integers(9))
        bx, by, bq, kw = x, rng.normal(0, 1, n), q[np.isfinite(q)], {}
        if k == 0:
            bx, by = x[:2], by[:2]
        elif k == 1:
            by = by[:-1]
        elif k == 2:
            kw = {"axis": int(rng.choice([1, 2, 7, -2, -3, -40]))}
        elif k == 3:
            bx = x[::-1].copy()
        elif k == 4:
            bx = x.reshape(1, -1)
        elif k == 5:
            bq = bq.reshape(1, -1)
        elif k == 6:
            kw = {"axis": 0, "out": np.empty(len(bq) + 1)}
        elif k == 7:
            kw = {"axis": 0, "out": np.empty(len(bq), dtype="f4")}
        else:
            bx, by = np.zeros(0), np.zeros(0)
        attempt("invalid interpolation", lambda: akima.interpolate(bx, by, bq, **kw), [bx, by, bq], must="raise",
                finite=False, variant=k, x=bx, y=by, x_new=bq, kw={a: str(b) for a, b in kw.items()})
        wmod, pmod, gmod = mods["wind._windmodels"], mods["PressureInterface._pressureProfile"], mods["Utilities._maputils"]
        a, b = np.zeros(5), np.ones(7)
        j = int(rng.integers(4))
        calls = [("fhollandvel", lambda: wmod.fhollandvel(a, b, 1., 1., 1., 1., 1., 1., 1., 1.)),
                 ("fhollandvort", lambda: wmod.fhollandvort(a, b, 1., 1., 1., 1., 1., 1., 1., 1.)),
                 ("fhollandpressure", lambda: pmod.fhollandpressure(a, b, 1., 1., 1., 1.)),
                 ("beardist", lambda: gmod.beardist(0., 0., b, a, np.zeros((3, 7), order="F"), np.zeros((5, 7), order="F")))]
        if any(hasattr(m, calls[j][0]) for m in (wmod, pmod, gmod)):
            attempt("mismatched " + calls[j][0], calls[j][1], [b], must="raise", finite=False)
    log("done")


if __name__ == "__main__":
    main(int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
