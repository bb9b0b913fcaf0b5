"""C33: the list of processed files against a model, with runs stopped at every write."""
import hashlib
import os
import shutil
import time

from harness import core, crash
from harness.plain import forked

PRELOAD = True


def make():
    return core.Check("C33", "one evaluation per answer or list state compared",
                      ["names and folders contain no '|' or line break", "two archived files of the same name differ in time stamp"])


def md5(path):
    with open(path, "rb") as f:
        return hashlib.md5(f.read()).hexdigest()


def script(rng, files, dat, n):
    """A random sequence of operations of one run."""
    ops = [("load", dat)] if rng.random() < 0.9 else []
    for _ in range(n):
        k = int(rng.choice(7, p=[.3, .2, .3, .05, .05, .05, .05]))
        f = files[int(rng.integers(len(files)))]
        if k == 0:
            ops.append(("record", f))
        elif k == 1:
            ops.append(("modify", f, int(rng.integers(5)), bool(rng.random() < 0.5)))
        elif k == 2:
            ops.append(("ask", f))
        elif k == 3:
            ops.append(("load", dat))
        elif k == 4:
            ops.append(("delete",))
        elif k == 5:
            ops.append(("touch", f, int(rng.integers(10 ** 9, 2 * 10 ** 9))))
        else:
            ops.append(("entry", f, "note", "v%d" % int(rng.integers(3))))
    return ops


def put(path, n, big):
    with open(path, "wb") as f:
        f.write(b"content %d\n" % n + (b"x" * 70000 + b"%d" % n if big else b""))


def perform(ops):
    """Runs the operations with the real code; list of answers."""
    from Utilities import process as p
    from Utilities.files import flGetStat
    out = []
    for op in ops:
        if op[0] == "load":
            out.append(p.pGetProcessedFiles(op[1]))
        elif op[0] == "record":
            out.append(p.pWriteProcessedFile(op[1]))
        elif op[0] == "modify":
            put(op[1], op[2], op[3])
            out.append(None)
        elif op[0] == "touch":
            os.utime(op[1], (op[2], op[2]))
            out.append(None)
        elif op[0] == "ask":
            d, f, m, _ = flGetStat(op[1])
            out.append((p.pAlreadyProcessed(d, f, "md5sum", m), d, f, m, md5(op[1])))
        elif op[0] == "delete":
            out.append((p.pDeleteDatFile() if p.GLOBAL_DATFILE else None))
        elif op[0] == "entry":
            d, f = os.path.split(op[1])
            p.pSetProcessedEntry(d, f, op[2], op[3])
            out.append((p.pGetProcessedEntry(d, f, op[2]), p.pAlreadyProcessed(d, f, op[2], op[3]), p.pAlreadyProcessed(d, f, op[2], "other")))
    return out


class Model:
    def __init__(self):
        self.disk = None        # entries in the list on disk, None when there is no list

    def run(self, ops):
        mem, dat, out = {}, None, []
        for op in ops:
            if op[0] == "load":
                dat = op[1]
                if self.disk is None:
                    out.append(0)
                else:
                    mem.update(self.disk)
                    out.append(1)
            elif op[0] == "record":
                if dat:
                    self.disk = dict(self.disk or {})
                    self.disk[op[1]] = mem[op[1]] = sig(op[1])
                out.append(1 if dat else 0)
            elif op[0] in ("modify", "touch"):
                if op[0] == "modify":
                    put(op[1], op[2], op[3])
                out.append(None)
            elif op[0] == "ask":
                out.append(mem.get(op[1]) == sig(op[1]))
            elif op[0] == "delete":
                if dat:
                    out.append(1 if self.disk is not None else 0)
                    self.disk = None
                else:
                    out.append(None)
            else:
                out.append((op[3], True, False))
        return out


def sig(path):
    return md5(path)


def sequence(chk, k):
    rng = chk.rng("sequence", k)
    d = chk.scratch("l")
    real, twin = os.path.join(d, "real"), os.path.join(d, "twin")
    names = ["a.nc", "b c.nc", "sub/a.nc", "gust.001-00001.nc", "noext", "ü.nc"]
    names = names[:int(rng.integers(1, len(names) + 1))]
    for base in (real, twin):
        os.makedirs(os.path.join(base, "sub"))
        for i, n in enumerate(names):
            put(os.path.join(base, n), i % 2, False)
    rel = rng.random() < 0.3
    dat = os.path.join(d, "dat", "processed.dat")
    os.makedirs(os.path.dirname(dat))
    model = Model()
    log = []
    for r in range(int(rng.integers(1, 5))):
        ops = script(rng, names, dat, int(rng.integers(1, 14)))
        log.append(ops)
        move = lambda base: [tuple(os.path.join(base, x) if i == 1 and o[0] != "load" and isinstance(x, str) else x for i, x in enumerate(o)) for o in ops]
        rep = lambda: {"case": k, "runs": log, "relative": rel}

        def go():
            if rel:
                os.chdir(real)
                return perform([tuple(o) for o in ops])
            return perform(move(real))
        st, got = forked(go)
        want = model.run(move(twin))
        if not chk.expect(st == "ok", "run-fails", lambda: "run %d: %s" % (r, got), rep):
            return
        for o, g, w in zip(ops, got, want):
            if o[0] == "ask":
                chk.expect(g[3] == g[4] and os.path.join(g[1], g[2]) == (o[1] if rel else os.path.join(real, o[1])), "signature",
                           lambda: "signature %r of %r, content has %r" % (g[:4], o[1], g[4]), rep)
                g = g[0]
            if o[0] in ("load", "record", "delete", "ask"):
                g = None if g is None else bool(g)
                w = None if w is None else bool(w)
            chk.expect(g == w, o[0], lambda: "run %d, %r gives %r, expected %r" % (r, o, g, w), rep)
            chk.evaluated((o[0], w if not isinstance(w, tuple) else "entry", r > 0), {"operation": o, "answer": w})


def stopped(chk, k):
    """A run stopped at each write to the list, and the list cut at every byte: later runs still work."""
    rng = chk.rng("stop", k)
    d = chk.scratch("s")
    src = os.path.join(d, "in")
    os.makedirs(src)
    n = int(rng.integers(2, 5))
    files = [os.path.join(src, "f%d.nc" % i) for i in range(n)]
    for i, f in enumerate(files):
        put(f, i, i == 1)
    dat = os.path.join(d, "dat")
    os.makedirs(dat)
    path = os.path.join(dat, "p.dat")
    shutil.copy(files[0], files[0] + ".keep")
    before = files[:int(rng.integers(0, n))]
    rest = files[len(before):]

    def first():
        perform([("load", path)] + [("record", f) for f in before])
    if before:
        forked(first)
    start = open(path, "rb").read() if os.path.exists(path) else None

    def body():
        perform([("load", path)] + [("record", f) for f in rest])

    def reset():
        if start is None:
            if os.path.exists(path):
                os.unlink(path)
        else:
            with open(path, "wb") as f:
                f.write(start)
    rep = lambda: {"case": k, "files": files, "before": len(before)}
    st, total = crash.child(body, dat)
    if not chk.expect(st == "done", "run-fails", lambda: "recording: %s" % total, rep):
        return
    whole = open(path, "rb").read()

    def later(done, what):
        """A later run: everything recorded before counts, anything claimed was recorded, and recording goes on working."""
        st, got = forked(lambda: perform([("load", path)] + [("ask", f) for f in files]))
        if not chk.expect(st == "ok", "unusable", lambda: "%s: reading the list fails: %s" % (what, got), rep):
            return
        ans = [g[0] for g in got[1:]]
        for f, a in zip(files, ans):
            i = files.index(f)
            if i < done:
                chk.expect(a, "lost", lambda: "%s: %s was recorded but is not reported" % (what, os.path.basename(f)), rep)
            elif i > done:
                chk.expect(not a, "invented", lambda: "%s: %s is reported but was not recorded" % (what, os.path.basename(f)), rep)
        add = files[-1]
        st, got = forked(lambda: perform([("load", path), ("record", add)]))
        chk.expect(st == "ok" and got[1], "unusable", lambda: "%s: recording fails: %s" % (what, got), rep)
        st, got = forked(lambda: perform([("load", path)] + [("ask", f) for f in files]))
        if chk.expect(st == "ok", "unusable", lambda: "%s: reading fails after recording again: %s" % (what, got), rep):
            again = [g[0] for g in got[1:]]
            chk.expect(again[-1] and all(b or not a for a, b in zip(ans, again)), "lost",
                       lambda: "%s: after recording %s again the answers are %r (before %r)" % (what, os.path.basename(add), again, ans), rep)
        chk.evaluated((what.split(" ")[0], done), None, k=2 * len(files))

    for at in range(1, total + 1):
        for half in (False, True):
            reset()
            st, _ = crash.child(body, dat, at=at, half=half)
            if st != "stopped":
                continue
            data = open(path, "rb").read() if os.path.exists(path) else b""
            later(data.count(b"\n"), "stopped at operation %d%s" % (at, " half-way" if half else ""))
    cuts = range(len(start or b""), len(whole) + 1)
    cuts = [c for c in cuts if c % max(1, len(cuts) // chk.n(25, 120)) == 0 or c in (len(whole) - 1, len(whole))]
    for c in cuts:
        with open(path, "wb") as f:
            f.write(whole[:c])
        later(whole[:c].count(b"\n"), "cut at byte %d" % c)


def archive(chk, k):
    rng = chk.rng("archive", k)
    d = chk.scratch("a")
    src, dst = os.path.join(d, "in"), os.path.join(d, "arch" if rng.random() < 0.5 else "deep/er/arch")
    os.makedirs(src)
    stamp = float(rng.integers(10 ** 9, 18 * 10 ** 8))
    files = {}
    for i, n in enumerate(["one.txt", "two.tar.gz", "three.nc"]):
        f = os.path.join(src, n)
        put(f, i, i == 1)
        os.utime(f, (stamp + 100000 * i,) * 2)
        files[f] = open(f, "rb").read()
    fmt = str(rng.choice(["%Y%m%d%H%M", "%Y-%m-%d"]))

    def go():
        from Utilities import process as p
        a = p.pArchiveDir(dst)
        p.pArchiveDateFormat(fmt)
        return a, p.pArchiveDir(), p.pArchiveDateFormat(), [p.pArchiveFile(f) for f in files], p.pMoveFile(os.path.join(src, "absent"), os.path.join(src, "x"))
    st, got = forked(go)
    rep = lambda: {"case": k, "format": fmt, "archive": dst}
    if not chk.expect(st == "ok", "run-fails", lambda: "archiving: %s" % got, rep):
        return
    chk.expect(got[0] == dst and got[1] == dst and got[2] == fmt and all(got[3]) and not got[4], "archive", lambda: "archiving reports %r" % (got,), rep)
    left, there = os.listdir(src), sorted(os.listdir(dst))
    want = {}
    for f, data in files.items():
        b, e = os.path.splitext(os.path.basename(f))
        want["%s.%s%s" % (b, time.strftime(fmt, time.localtime(stamp + 100000 * list(files).index(f))), e)] = data
    chk.expect(not left and there == sorted(want) and all(open(os.path.join(dst, n), "rb").read() == want[n] for n in want if n in there), "archive",
               lambda: "left %r, archived %r, expected %r" % (left, there, sorted(want)), rep)
    chk.evaluated(("archive", fmt), {"archived": there}, k=3)


def group(chk, items):
    for fn, k in items:
        {"q": sequence, "s": stopped, "a": archive}[fn](chk, k)


def run(chk):
    import Utilities.process, Utilities.files      # noqa: F401,E401
    items = [("q", k) for k in range(chk.n(160, 4000))] + [("s", k) for k in range(chk.n(6, 30))] + [("a", k) for k in range(chk.n(8, 40))]
    chk.pmap(group, [items[a::8] for a in range(8)])
