"""C44: data sets fetched over loopback HTTP from a server that misbehaves, and runs ended half way."""
import gzip
import io
import os
import socketserver
import struct
import threading
import zipfile
from http.server import BaseHTTPRequestHandler

from harness import core, crash

PRELOAD = True
FAULTS = ["cut", "reset", "404", "500", "damaged", "short-archive", "no-length", "refused"]


def make():
    return core.Check("C44", "one evaluation per data set looked at after a run",
                      ["archives hold one file", "the server tells the length of what it sends, except where that is the fault"])


class Server:
    """Serves the payloads it is given, with the fault it is told to show."""

    def __init__(self):
        self.files, self.faults, self.asked = {}, {}, []
        outer = self

        class Handler(BaseHTTPRequestHandler):
            def do_GET(self):
                name = self.path.lstrip("/")
                outer.asked.append(name)
                body, (fault, k) = outer.files[name], outer.faults.get(name, (None, 0))
                if fault in ("404", "500"):
                    self.send_error(int(fault))
                    return
                if fault == "reset":
                    import socket
                    self.request.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    self.wfile.write(b"HTTP/1.0 200 OK\r\nContent-Length: %d\r\n\r\n" % len(body) + body[:k])
                    self.request.close()
                    return
                if fault == "damaged":
                    body = body[:k] + bytes([body[k] ^ 0x55]) + body[k + 1:]
                if fault == "short-archive":
                    body = body[:k]
                self.send_response(200)
                if fault != "no-length":
                    self.send_header("Content-Length", str(len(body)))
                self.end_headers()
                self.wfile.write(body[:k] if fault == "cut" else body)

            def log_message(self, *a):
                pass

        class Quiet(socketserver.ThreadingTCPServer):
            daemon_threads = True
            allow_reuse_address = True

            def handle_error(self, *a):
                pass
        self.srv = Quiet(("127.0.0.1", 0), Handler)
        self.port = self.srv.server_address[1]
        threading.Thread(target=self.srv.serve_forever, args=(0.05,), daemon=True).start()

    def close(self):
        self.srv.shutdown()
        self.srv.server_close()


def free_port():
    import socket
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    n = s.getsockname()[1]
    s.close()
    return n


def pack(rng, comp, inner, data):
    if comp == "gz":
        out = io.BytesIO()
        with gzip.GzipFile(inner, "wb", 6, out, mtime=1) as f:
            f.write(data)
        return out.getvalue()
    if comp == "zip":
        out = io.BytesIO()
        with zipfile.ZipFile(out, "w", zipfile.ZIP_DEFLATED) as z:
            z.writestr(inner, data)
        return out.getvalue()
    return data


def scenario(chk, rng, srv, g, k):
    d = chk.scratch("data")
    where = os.path.join(d, "in [1] %d")
    os.makedirs(where)
    n = int(rng.integers(1, 4))
    sets, text = [], "[Input]\nDatasets=%s\n" % ",".join("SET%d" % i for i in range(n))
    for i in range(n):
        size = int(rng.choice([0, 1, 700, 8191, 8192, 8193, 40000, 200000]))
        data = rng.integers(32, 48 if rng.random() < 0.5 else 255, size).astype("u1").tobytes()
        comp = [None, "gz", "zip"][int(rng.integers(3))]
        inner = "obs%d-%d-%d.csv" % (i, g, k)
        url = inner + ("" if comp is None else "." + comp)
        name = inner
        text += "[SET%d]\nURL=http://127.0.0.1:%%(port)s/%s\npath=%s\n" % (i, url, where.replace("%", "%%"))
        if rng.random() < 0.5:
            name = "data set.%d.%s" % (i, rng.choice(["csv", "txt", "gz", "nc"]))
            text += "filename=%s\n" % name
        sets.append((url, os.path.join(where, name), data, comp))
        srv.files[url] = pack(rng, comp, inner, data)
        srv.faults.pop(url, None)
    text += "[Logging]\nProgressBar=%s\n[Output]\nPath=%s\n" % (rng.choice(["True", "False"]), d.replace("%", "%%"))
    ini = {}
    for label, port in (("good", srv.port), ("dead", free_port())):
        ini[label] = os.path.join(d, label + ".ini")
        with open(ini[label], "w") as f:
            f.write(text % {"port": port})

    def fetch(label="good", twice=False):
        def go():
            import tcrm
            from Utilities import config, datasets, parallel
            config.reset()
            tcrm.MPI = parallel.attemptParallel()
            tcrm.comm = tcrm.MPI.COMM_WORLD
            del datasets.DATASETS[:]
            for _ in range(1 + twice):
                tcrm.doDataDownload(ini[label])
        return go
    rep = {"sets": [{"url": u, "name": os.path.basename(f), "size": len(x), "compression": c} for u, f, x, c in sets]}
    present = lambda f: os.path.exists(f)
    same = lambda f, x: open(f, "rb").read() == x

    def faithful(what, only=None, rep=rep):
        for u, f, x, c in sets:
            if only is not None and u not in only:
                continue
            chk.evaluated((g, k, what, u), {"set": u, "after": what, "present": present(f)})
            if present(f) and not same(f, x):
                got = open(f, "rb").read()
                chk.violate("partial", "%s: %s (%s, %d bytes) left as a file of %d bytes that is not the data set" % (what, u, c or "plain", len(x), len(got)), rep)
                os.remove(f)

    def complete(what, twice=False):
        """A run against a healthy server must fetch everything."""
        for attempt in range(3):
            del srv.asked[:]
            st, info = crash.child(fetch(twice=twice), where)
            if st == "done" or "imed out" not in str(info):
                break
        chk.expect(st == "done", "healthy", lambda: "%s: a run against a healthy server failed: %s" % (what, str(info)[-300:]), rep)
        faithful(what)
        for u, f, x, c in sets:
            chk.expect(present(f), "missing", lambda: "%s: %s (%s) is not there after the run" % (what, u, c or "plain"), rep)
        return info if st == "done" else 0

    def clear():
        for u, f, x, c in sets:
            if present(f):
                os.remove(f)

    # one of the data sets is already there, as the user left it
    kept = None
    if n > 1 and rng.random() < 0.5:
        kept = sets[0]
        with open(kept[1], "wb") as f:
            f.write(b"the user's own data\n")
        sets = sets[1:]
    total = complete("first run", bool(rng.integers(2)))
    asked = list(srv.asked)
    for u, f, x, c in sets:
        chk.expect(asked.count(u) == 1, "fetches", lambda: "%s was fetched %d times" % (u, asked.count(u)), rep)
    if kept:
        chk.expect(kept[0] not in asked and open(kept[1], "rb").read() == b"the user's own data\n", "overwritten",
                   lambda: "%s was fetched although a file of that name was there" % kept[0], rep)
    # nothing is fetched again
    complete("second run")
    chk.expect(not srv.asked, "fetches", lambda: "fetched again although present: %r" % srv.asked, rep)

    # the server misbehaves
    for fault in [FAULTS[(k + j) % len(FAULTS)] for j in range(3)] if chk.quick else FAULTS:
        clear()
        u, f, x, c = sets[int(rng.integers(len(sets)))]
        size = len(srv.files[u])
        if size == 0 or fault == "damaged" and c is None or fault == "short-archive" and c is None:
            continue
        cut = int(rng.choice([0, 1, size // 2, size - 1, 8192, int(rng.integers(size))]))
        cut = min(cut, size - 1)
        srv.faults[u] = (fault, cut)
        st, info = crash.child(fetch("dead" if fault == "refused" else "good"), where)
        what = "%s at byte %d of %d of %s" % (fault, cut, size, u)
        r = dict(rep, fault=fault, at=cut, of=u)
        faithful(what, [u], r)
        chk.expect(st != "done" or present(f), "silent", lambda: "%s: the run reports success without the data set" % what, r)
        srv.faults.pop(u)
        complete("run after " + what)

    # the run is ended at a file operation
    stops = list(range(1, total + 1))
    if chk.quick and len(stops) > 5:
        stops = sorted(int(s) for s in rng.choice(stops, 5, replace=False))
    for at in stops:
        clear()
        half = bool(rng.integers(2))
        st, info = crash.child(fetch(), where, at, half)
        what = "run ended at file operation %d of %d" % (at, total)
        if st == "stopped":
            chk.count("stopped runs")
            faithful(what, None, dict(rep, at=at, half=half))
        complete("run after one ended at operation %d" % at)


def group(chk, item):
    g, n = item
    rng = chk.rng("fetch", g)
    for v in ("http_proxy", "HTTP_PROXY", "all_proxy", "ALL_PROXY"):
        os.environ.pop(v, None)
    os.environ["no_proxy"] = "*"
    srv = Server()
    try:
        for k in range(n):
            scenario(chk, rng, srv, g, k)
    finally:
        srv.close()


def run(chk):
    import tcrm, Utilities.datasets, urllib.request, http.client, gzip, zipfile       # noqa: F401,E401
    chk.pmap(group, [(g, chk.n(6, 60)) for g in range(8)])
