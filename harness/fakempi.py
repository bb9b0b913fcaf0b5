"""
A deterministic multi-process stand-in for mpi4py, used to explore schedules.

`run_ranks(n, fn, seed, ...)` forks n processes. Each sees a module `mpi4py.MPI`
whose communicator talks to a broker in the parent. The broker only lets a
blocked rank continue when every rank is blocked or finished, choosing the next
event (which rank, and for wildcard receives which message) from the seed. A state
in which no event is possible and some rank is unfinished is a deadlock.

mode: 'serial'    one rank runs at a time (total order of everything)
      'parallel'  all released ranks run concurrently between MPI calls
send: 'eager'     sends never block
      'rendezvous' sends block until the matching receive is posted
"""
import os
import pickle
import select
import signal
import socket
import struct
import sys
import time
import traceback
import types

import numpy as np

ANY_SOURCE = -1
ANY_TAG = -1


class Status:
    def __init__(self):
        self.source = -1
        self.tag = -1
        self.error = 0
        self.count = 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_error(self):
        return self.error


class _Sock:
    def __init__(self, s):
        self.s = s

    def put(self, obj):
        b = pickle.dumps(obj, protocol=4)
        self.s.sendall(struct.pack("<Q", len(b)) + b)

    def _read(self, n):
        out = b""
        while len(out) < n:
            c = self.s.recv(min(1 << 20, n - len(out)))
            if not c:
                raise EOFError
            out += c
        return out

    def get(self):
        (n,) = struct.unpack("<Q", self._read(8))
        return pickle.loads(self._read(n))


class Request:
    def __init__(self, fn=None):
        self.fn = fn
        self.done = fn is None
        self.val = None

    def wait(self, status=None):
        if not self.done:
            self.val = self.fn(status)
            self.done = True
        return self.val

    Wait = wait

    def test(self, status=None):
        return True, self.wait(status)


class Comm:
    def __init__(self, rank, size, sock):
        self.rank = rank
        self.size = size
        self._s = sock
        self.name = "fake"

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _call(self, *msg):
        self._s.put(msg)
        return self._s.get()

    def send(self, obj, dest, tag=0):
        if not (0 <= dest < self.size):
            raise RuntimeError("invalid rank %r" % (dest,))
        self._call("send", int(dest), int(tag), pickle.dumps(obj, protocol=4))

    ssend = bsend = send

    def isend(self, obj, dest, tag=0):
        self._call("isend", int(dest), int(tag), pickle.dumps(obj, protocol=4))
        return Request()

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        src, tg, data = self._call("recv", int(source), int(tag))
        if status is not None:
            status.source, status.tag, status.count = src, tg, len(data)
        return pickle.loads(data)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(lambda status: self.recv(source=source, tag=tag, status=status))

    def Send(self, buf, dest, tag=0):
        memoryview(buf[0] if isinstance(buf, (list, tuple)) else buf)
        return self.send(np.array(buf[0] if isinstance(buf, (list, tuple)) else buf), dest, tag)

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        b = buf[0] if isinstance(buf, (list, tuple)) else buf
        memoryview(b)
        b[...] = self.recv(source=source, tag=tag, status=status)

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return self._call("iprobe", int(source), int(tag))

    def probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        src, tg = self._call("probe", int(source), int(tag))
        if status is not None:
            status.source, status.tag = src, tg
        return True

    def barrier(self):
        self._call("coll", "barrier", None)

    Barrier = barrier

    def _gather(self, kind, obj):
        return [pickle.loads(b) for b in self._call("coll", kind, pickle.dumps(obj, protocol=4))]

    def allgather(self, obj):
        return self._gather("allgather", obj)

    def gather(self, obj, root=0):
        r = self._gather("gather%d" % root, obj)
        return r if self.rank == root else None

    def bcast(self, obj=None, root=0):
        return self._gather("bcast%d" % root, obj if self.rank == root else None)[root]

    def scatter(self, objs=None, root=0):
        return self._gather("scatter%d" % root, objs if self.rank == root else None)[root][self.rank]

    def allreduce(self, obj, op=None):
        r = self._gather("allreduce", obj)
        fn = op or SUM
        v = r[0]
        for x in r[1:]:
            v = fn(v, x)
        return v

    def reduce(self, obj, op=None, root=0):
        v = self.allreduce(obj, op)
        return v if self.rank == root else None

    def Abort(self, code=1):
        os._exit(70)


def SUM(a, b):
    return a + b


def MAX(a, b):
    return max(a, b)


def MIN(a, b):
    return min(a, b)


def make_module(rank, size, sock):
    m = types.ModuleType("mpi4py.MPI")
    m.COMM_WORLD = Comm(rank, size, sock)
    m.Status = Status
    m.ANY_SOURCE = ANY_SOURCE
    m.ANY_TAG = ANY_TAG
    m.SUM, m.MAX, m.MIN = SUM, MAX, MIN
    m.Finalize = lambda: None
    m.Init = lambda: None
    m.Is_initialized = lambda: True
    m.Is_finalized = lambda: False
    m.Get_processor_name = lambda: "localhost"
    pkg = types.ModuleType("mpi4py")
    pkg.MPI = m
    pkg.__path__ = []
    sys.modules["mpi4py"] = pkg
    sys.modules["mpi4py.MPI"] = m
    return m


class Result:
    def __init__(self, n):
        self.values = [None] * n
        self.errors = [None] * n     # traceback strings
        self.exitcodes = [None] * n
        self.deadlock = None
        self.timeout = False
        self.trace = []              # (event, ...)
        self.unreceived = 0

    @property
    def ok(self):
        return not self.deadlock and not self.timeout and all(e is None for e in self.errors) \
            and all(c in (0, None) for c in self.exitcodes)

    def problem(self):
        if self.deadlock:
            return "deadlock: " + self.deadlock
        for r, e in enumerate(self.errors):
            if e:
                return "rank %d failed: %s" % (r, e.strip().splitlines()[-1])
        for r, c in enumerate(self.exitcodes):
            if c not in (0, None):
                return "rank %d ended with status %s" % (r, c)
        if self.timeout:
            return "timeout"
        return None


def _child(rank, n, fn, s, mpi):
    sock = _Sock(s)
    try:
        if mpi:
            make_module(rank, n, sock)
        else:
            sys.modules["mpi4py"] = sys.modules["mpi4py.MPI"] = None      # not installed
        sock.put(("start",))
        sock.get()
        try:
            val = fn(rank)
            sock.put(("done", val))
        except SystemExit as e:
            sock.put(("exit", repr(e.code)))
        except BaseException:
            sock.put(("exc", traceback.format_exc()))
    except (EOFError, BrokenPipeError, ConnectionError):
        os._exit(71)
    except BaseException:
        traceback.print_exc()
        os._exit(72)
    sys.stdout.flush()
    os._exit(0)


def run_ranks(n, fn, seed=0, mode="serial", send="eager", timeout=600, on_exit_kill=True, mpi=None):
    """
    Run fn(rank) on n forked ranks under the schedule given by `seed`. A single
    rank runs with or without the library being installed, by `mpi` or `seed`.
    """
    if mpi is None:
        mpi = n > 1 or not seed & 2
    rng = np.random.Generator(np.random.PCG64(seed))
    res = Result(n)
    socks, pids = [], []
    sys.stdout.flush()
    sys.stderr.flush()
    for r in range(n):
        a, b = socket.socketpair()
        pid = os.fork()
        if pid == 0:
            for q in socks:
                q.s.close()
            a.close()
            _child(r, n, fn, b, mpi)
            os._exit(73)
        b.close()
        socks.append(_Sock(a))
        pids.append(pid)

    running = set(range(n))
    blocked = {}          # rank -> message
    finished = set()
    queue = []            # (order, src, dst, tag, data)
    order = 0
    t_end = time.time() + timeout

    def match(m, dst, src, tag):
        return m[2] == dst and src in (ANY_SOURCE, m[1]) and tag in (ANY_TAG, m[3])

    def release(rank, reply):
        blocked.pop(rank)
        running.add(rank)
        socks[rank].put(reply)

    def enabled():
        """List of (kind, rank, extra) events possible now."""
        ev = []
        for r, m in blocked.items():
            if m[0] == "start":
                ev.append(("go", r, True))
            elif m[0] == "ready":
                ev.append(("go", r, m[1]))
            elif m[0] in ("recv", "probe"):
                seen = set()
                for q in queue:
                    if q[1] in seen and m[1] == ANY_SOURCE or not match(q, r, m[1], m[2]):
                        continue
                    if q[1] in seen:
                        continue
                    seen.add(q[1])
                    ev.append((m[0], r, q))
            elif m[0] == "iprobe":
                ev.append(("iprobe", r, any(match(q, r, m[1], m[2]) for q in queue)))
        colls = [r for r, m in blocked.items() if m[0] == "coll"]
        if colls and len(colls) == n:
            if len({blocked[r][1] for r in colls}) == 1:
                ev.append(("coll", None, None))
        return ev

    def fire(e):
        nonlocal queue
        kind, r, x = e
        if kind == "go":
            res.trace.append(("go", r))
            release(r, x)
        elif kind == "recv":
            queue.remove(x)
            res.trace.append(("deliver", x[1], x[2], x[3]))
            if send == "rendezvous" and x[5]:
                release(x[1], True)
            release(r, (x[1], x[3], x[4]))
        elif kind == "probe":
            release(r, (x[1], x[3]))
        elif kind == "iprobe":
            release(r, x)
        elif kind == "coll":
            data = [blocked[q][2] for q in range(n)]
            res.trace.append(("coll", blocked[0][1]))
            for q in range(n):
                if mode == "serial":      # let them leave one at a time
                    blocked[q] = ("ready", data)
                else:
                    release(q, data)

    try:
        while len(finished) < n:
            if not running:
                ev = enabled()
                if not ev:
                    desc = {r: (m[0],) + tuple(v for v in m[1:] if not isinstance(v, bytes))
                            for r, m in sorted(blocked.items())}
                    res.deadlock = "ranks waiting %s, finished %s" % (desc, sorted(finished))
                    break
                if mode == "serial":
                    fire(ev[int(rng.integers(len(ev)))])
                else:
                    order_ = rng.permutation(len(ev))
                    used = set()
                    for k in order_:
                        e = ev[k]
                        if e[0] == "coll":
                            if not used:
                                fire(e)
                                used.add("all")
                            continue
                        if e[1] in used or "all" in used:
                            continue
                        if e[0] == "recv" and e[2] not in queue:
                            continue
                        used.add(e[1])
                        fire(e)
                continue
            left = t_end - time.time()
            if left <= 0:
                res.timeout = True
                break
            ready, _, _ = select.select([socks[r].s for r in running], [], [], min(left, 5.0))
            byfd = {socks[r].s: r for r in running}
            # take messages in rank order for determinism
            for r in sorted(byfd[s] for s in ready):
                try:
                    m = socks[r].get()
                except (EOFError, ConnectionError):
                    running.discard(r)
                    finished.add(r)
                    _, st = os.waitpid(pids[r], 0)
                    pids[r] = None
                    res.exitcodes[r] = -os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)
                    continue
                if m[0] in ("send", "isend"):
                    block = send == "rendezvous" and m[0] == "send"
                    queue.append((order, r, m[1], m[2], m[3], block))
                    res.trace.append(("send", r, m[1], m[2]))
                    order += 1
                    if block:
                        running.discard(r)
                        blocked[r] = ("sending", m[1], m[2])
                    else:
                        socks[r].put(True)
                elif m[0] == "done":
                    res.values[r] = m[1]
                    running.discard(r)
                    finished.add(r)
                elif m[0] in ("exc", "exit"):
                    res.errors[r] = m[1] if m[0] == "exc" else "SystemExit %s" % m[1]
                    running.discard(r)
                    finished.add(r)
                else:
                    running.discard(r)
                    blocked[r] = m
            if on_exit_kill and any(res.errors[r] or res.exitcodes[r] not in (0, None) for r in finished):
                break  # like mpirun: one failing rank takes the job down
    finally:
        for r, pid in enumerate(pids):
            if pid is None:
                continue
            if r not in finished:
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            _, st = os.waitpid(pid, 0)
            if r in finished and res.exitcodes[r] is None:
                res.exitcodes[r] = -os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)
        for s in socks:
            s.s.close()
    res.unreceived = len(queue)
    return res


def isolated(fn, *args, timeout=600):
    """Run fn in one forked process under a size-1 communicator; return Result."""
    return run_ranks(1, lambda r: fn(*args), timeout=timeout)
