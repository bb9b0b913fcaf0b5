"""
Common parts of every check: tier/seed handling, evaluation counting, violation
and known-finding reporting, evidence files, scratch directories.

Exit codes: 0 held, 1 violated (with VIOLATION lines), 3 check error or nothing
observed.
"""
import configparser
import hashlib
import json
import os
import pickle
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")

MAX_REPORTED = 8


def jsonable(x, depth=0):
    if depth > 8:
        return repr(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:200]}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(x)[:400]]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth + 1)
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)


class Stop(Exception):
    """Raised when enough violations have been collected."""


def unreadable(err):
    """
    Whether an exception in a reader comes from missing or malformed results rather
    than from the harness itself (a function that is gone or takes other arguments).
    """
    if isinstance(err, OSError):
        return "/tmp/verif-" in str(err)
    if isinstance(err, TypeError):
        return "argument" not in str(err)
    return isinstance(err, (KeyError, IndexError, ValueError, ZeroDivisionError, configparser.Error, struct.error))


class Watch:
    """
    Notices code under test that never ends. After `limit` seconds of processor time
    in one scenario (scenarios take a few) the stacks are looked at; if a function of
    the code under test is active, that is written next to the results of the
    scenario. Processor time, so that a busy machine cannot cause it.
    """
    path = limit = None
    looks = 0

    @classmethod
    def start(cls, path, limit):
        cls.path, cls.limit, cls.looks = path, limit, 0
        signal.signal(signal.SIGPROF, cls.look)
        signal.setitimer(signal.ITIMER_PROF, limit)

    @classmethod
    def again(cls):                             # in processes started by the scenario
        if cls.path:
            signal.setitimer(signal.ITIMER_PROF, cls.limit)

    @classmethod
    def look(cls, sig, frame):
        for top in [frame] + list(sys._current_frames().values()):
            f = top
            while f is not None:
                if f.f_code.co_filename.startswith(REPO + os.sep):
                    text = "".join(traceback.format_stack(top))[-3000:]
                    with open("%s.hang.%d" % (cls.path, os.getpid()), "w") as out:
                        json.dump(["%s:%s" % (os.path.relpath(f.f_code.co_filename, REPO), f.f_code.co_name), text], out)
                    os._exit(97)
                f = f.f_back
        cls.looks += 1
        if cls.looks < 20:
            signal.setitimer(signal.ITIMER_PROF, 1)


os.register_at_fork(after_in_child=Watch.again)


class Check:
    level = "exploration"

    def __init__(self, pid, rule, assumptions=()):
        self.pid = pid
        self.rule = rule
        self.assumptions = list(assumptions)
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        tier = os.environ.get("VERIF_TIER", "quick")
        self.tier = tier if tier in ("quick", "thorough") else "quick"
        self.quick = self.tier == "quick"
        self.t0 = time.time()
        self.evals = 0
        self.keys = set()
        self.samples = []
        self.counters = {}
        self.violations = []
        self.known_hits = {}
        self._scratch = []
        self.owner = os.getpid()
        with open(KNOWN) as f:
            self.known = [k for k in json.load(f)["known"] if k["property"] == pid]

    # ---- randomness -------------------------------------------------
    def rng(self, *labels):
        h = hashlib.sha256(repr((self.pid, self.seed) + labels).encode()).digest()
        return np.random.Generator(np.random.PCG64(int.from_bytes(h[:8], "little")))

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # ---- counting ---------------------------------------------------
    def count(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + int(k)

    def evaluated(self, key=None, sample=None, k=1):
        """One monitor evaluation; `key` identifies a non-trivial case."""
        self.evals += int(k)
        if key is not None:
            self.keys.add(hashlib.md5(repr(key).encode()).hexdigest())
            if sample is not None and len(self.samples) < 6:
                self.samples.append(jsonable(sample))

    # ---- verdicts ---------------------------------------------------
    def violate(self, kind, message, replay=None, key=None):
        """
        Record a violation. `kind` is a stable name of the mechanism; a known
        finding suppresses exactly that kind (and, if given, that key).
        """
        for k in self.known:
            if k["kind"] == kind and ("key" not in k or k["key"] == key):
                self.known_hits.setdefault(kind, k["what"])
                self.count("known_finding_observations")
                return
        if sum(1 for v in self.violations if v["kind"] == kind) >= 2:
            self.count("further_violations")
            return
        self.violations.append({"kind": kind, "message": message,
                                "replay": jsonable(replay), "key": key})
        if len(self.violations) >= MAX_REPORTED:
            raise Stop()

    def expect(self, cond, kind, message, replay=None, key=None):
        if not cond:
            self.violate(kind, message() if callable(message) else message,
                         replay() if callable(replay) else replay, key)
        return bool(cond)

    def close(self, got, want, kind, message, replay=None, rtol=1e-6, atol=1e-8, key=None,
              equal_nan=True):
        got = np.ma.filled(np.ma.asarray(got, dtype=float), np.nan)
        want = np.ma.filled(np.ma.asarray(want, dtype=float), np.nan)
        if got.shape != want.shape:
            self.violate(kind, "%s: shape %s, expected %s" % (message, got.shape, want.shape),
                         replay, key)
            return False
        ok = np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=equal_nan)
        if not ok.all():
            bad = np.argwhere(~ok)
            i = tuple(bad[0])
            self.violate(kind, "%s: %d of %d differ, first at %s: got %r expected %r"
                         % (message, len(bad), ok.size, i, float(got[i]), float(want[i])),
                         replay() if callable(replay) else replay, key)
            return False
        return True

    def call(self, fn, *args, _kind="unexpected-exception", _what="", _replay=None, **kw):
        """Call code under test; an exception on a valid input is a violation."""
        try:
            return True, fn(*args, **kw)
        except Stop:
            raise
        except (Exception, SystemExit) as err:
            tb = traceback.extract_tb(err.__traceback__)
            where = [f for f in tb if f.filename.startswith(REPO + os.sep)]
            if not where and not isinstance(err, SystemExit):
                if not any(True for f in tb if "site-packages" in f.filename):
                    raise
            loc = "%s:%s" % (os.path.relpath(where[-1].filename, REPO), where[-1].name) if where else "?"
            self.violate(_kind, "%s: %s: %s (at %s)" % (_what, type(err).__name__, err, loc),
                         _replay() if callable(_replay) else _replay)
            return False, None

    def escaped(self, err):
        """An exception raised inside the code under test on a valid input; None if ours."""
        tb = traceback.extract_tb(err.__traceback__)
        where = [f for f in tb if f.filename.startswith(REPO + os.sep)]
        if not where and unreadable(err):
            try:                                # the harness was reading what a run left behind
                self.violate("unreadable-result", "what a run left behind cannot be interpreted: %s: %s" % (type(err).__name__, err),
                             {"traceback": traceback.format_exc()[-3000:]})
            except Stop:
                pass
            return True
        if not where or isinstance(err, (ImportError, MemoryError, KeyboardInterrupt)):
            return False
        try:
            self.violate("unexpected-exception", "%s: %s (at %s:%s)"
                         % (type(err).__name__, err, os.path.relpath(where[-1].filename, REPO), where[-1].name),
                         {"traceback": traceback.format_exc()[-3000:]})
        except Stop:
            pass
        return True

    # ---- parallel scenarios -----------------------------------------
    def parallel(self, fn, items, workers=7, timeout=780):
        """
        Run fn(chk, item) for every item in its own forked process and merge what
        the monitors observed, in item order. A process killed by a signal inside
        the code under test is a violation of kind 'crash', one that does not end
        one of kind 'hang'.
        """
        items = list(items)
        sys.stdout.flush()
        sys.stderr.flush()
        out = self.scratch("par")
        live, nxt, status = {}, 0, {}
        deadline = time.time() + timeout
        look = time.time() + 1
        trouble = None
        while nxt < len(items) or live:
            while nxt < len(items) and len(live) < workers:
                pid = os.fork()
                if pid == 0:
                    self._child(fn, items[nxt], os.path.join(out, str(nxt)))
                    os._exit(0)
                live[pid] = nxt
                nxt += 1
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid in live:
                status[live.pop(pid)] = st
                continue
            if time.time() > look:
                look = time.time() + 1
                if any(".hang." in n for n in os.listdir(out)):
                    nxt, look = len(items), deadline    # enough is known
                    deadline = min(deadline, time.time() + 20)
            if time.time() > deadline:
                for p in live:
                    os.kill(p, signal.SIGPROF)
                time.sleep(5)
                for p in live:
                    os.kill(p, 9)
                    os.waitpid(p, 0)
                trouble = "scenario time limit exceeded for items %s" % sorted(live.values())
                break
            time.sleep(0.005)
        hung = sorted(n for n in os.listdir(out) if ".hang." in n)
        for n in hung:
            with open(os.path.join(out, n)) as f:
                where, stack = json.load(f)
            self.violate("hang", "scenario %s does not end (in %s)" % (n.split(".")[0], where),
                         {"item": items[int(n.split(".")[0])], "stack": stack})
        for i in range(len(items)):
            path = os.path.join(out, str(i))
            if not os.path.exists(path):
                if i not in status or hung:
                    continue
                st = status[i]
                if os.WIFSIGNALED(st):
                    self.violate("crash", "scenario %d: process killed by signal %d"
                                 % (i, os.WTERMSIG(st)), {"item": items[i]})
                    continue
                trouble = trouble or "scenario %d ended with status %r and no result" % (i, st)
                continue
            with open(path, "rb") as f:
                d = pickle.load(f)
            if d["error"]:
                trouble = trouble or "scenario %d: %s" % (i, d["error"])
            self.evals += d["evals"]
            self.keys |= d["keys"]
            self.samples += d["samples"][:max(0, 6 - len(self.samples))]
            for k, v in d["counters"].items():
                self.count(k, v)
            self.known_hits.update(d["known_hits"])
            for v in d["violations"]:
                self.violate(v["kind"], v["message"], v["replay"], v["key"])
            yield d["value"]
        if hung:
            raise Stop()
        if trouble:
            raise RuntimeError(trouble)

    def pmap(self, fn, items, **kw):
        return list(self.parallel(fn, items, **kw))

    def _child(self, fn, item, path):
        self.evals, self.keys, self.samples, self.counters = 0, set(), [], {}
        self.violations, self.known_hits, self._scratch = [], {}, []
        self.owner = os.getpid()
        value, err = None, None
        Watch.start(path, self.n(150, 700))
        try:
            value = fn(self, item)
        except Stop:
            pass
        except BaseException as exc:
            if not self.escaped(exc):
                err = traceback.format_exc()
        self.cleanup()
        d = dict(evals=self.evals, keys=self.keys, samples=self.samples, counters=self.counters,
                 known_hits=self.known_hits, violations=self.violations, value=value, error=err)
        with open(path + ".tmp", "wb") as f:
            pickle.dump(d, f)
        os.replace(path + ".tmp", path)
        sys.stdout.flush()

    # ---- scratch ----------------------------------------------------
    def scratch(self, label="s"):
        d = tempfile.mkdtemp(prefix="verif-%s-%s-" % (self.pid, label), dir="/tmp")
        self._scratch.append(d)
        return d

    def cleanup(self):
        if os.getpid() != self.owner:
            return
        for d in self._scratch:
            if d.startswith("/tmp/verif-"):
                shutil.rmtree(d, ignore_errors=True)

    # ---- end --------------------------------------------------------
    def finish(self, error=None):
        wall = time.time() - self.t0
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.keys),
               "rule": self.rule, "samples": self.samples}
        cov.update({"monitor_counts": self.counters})
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 3),
              "violations": len(self.violations)}
        if self.known_hits:
            ev["known_findings_observed"] = sorted(self.known_hits)
        if error:
            ev["error"] = error
        os.makedirs(EVIDENCE, exist_ok=True)
        path = os.path.join(EVIDENCE, self.pid + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
        for kind, what in sorted(self.known_hits.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        rdir = os.path.join(EVIDENCE, "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(self.violations[:25]):
            rp = os.path.join(rdir, "%s-%s-%d.json" % (self.pid, self.tier, i))
            with open(rp, "w") as f:
                json.dump(dict(v, property=self.pid, seed=self.seed, tier=self.tier,
                               rerun="VERIF_SEED=%d VERIF_TIER=%s ./run %s"
                               % (self.seed, self.tier, self.pid)), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            print("  %s: %s" % (v["kind"], v["message"]))
        if len(self.violations) > 25:
            print("  ... and %d more" % (len(self.violations) - 25))
        sys.stdout.flush()
        if self.violations:
            return 1
        if error:
            print("ERROR %s: %s" % (self.pid, error))
            return 3
        if self.evals == 0 or len(self.keys) < 2:
            print("ERROR %s: nothing observed (evaluations=%d, non-trivial=%d)"
                  % (self.pid, self.evals, len(self.keys)))
            return 3
        print("OK %s tier=%s seed=%d evaluations=%d distinct=%d %.1fs"
              % (self.pid, self.tier, self.seed, self.evals, len(self.keys), wall))
        return 0


def run_check(module):
    chk = module.make()
    code = 3
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    try:
        err = None
        try:
            module.run(chk)
        except Stop:
            pass
        except Exception as exc:
            if not chk.escaped(exc):
                err = traceback.format_exc()
        code = chk.finish(err)
        if err:
            print(err)
    finally:
        chk.cleanup()
    return code
