"""
Ends a run of the real code at a chosen file operation (see crash.c), or as soon
as every operation has been counted.

Check modules that use it set `PRELOAD = True`; the harness then restarts itself
with the shim preloaded.
"""
import ctypes
import hashlib
import os
import subprocess
import sys

from . import core

SRC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "crash.c")


def library():
    with open(SRC, "rb") as f:
        dig = hashlib.sha256(f.read()).hexdigest()[:16]
    out = os.path.join(core.VERIF, ".cache", "crash", dig + ".so")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = "%s.%d" % (out, os.getpid())
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", SRC, "-o", tmp, "-ldl"], check=True)
        os.replace(tmp, out)
    return out


def reexec():
    """Restart this program with the shim loaded."""
    lib = library()
    if lib in os.environ.get("LD_PRELOAD", ""):
        return
    os.environ["LD_PRELOAD"] = lib
    os.execv(sys.executable, [sys.executable] + sys.orig_argv[1:])


def child(fn, prefix, at=-1, half=False, timeout=300):
    """
    Run fn() in a forked child with the shim armed. Returns (status, count):
    'done' with the number of operations, 'stopped', or ('failed', text).
    """
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 70
        text = b""
        try:
            shim = ctypes.CDLL(library())
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            shim.crash_arm(os.path.realpath(prefix).encode(), ctypes.c_long(at), ctypes.c_int(int(half)))
            try:
                fn()
                text = str(shim.crash_disarm()).encode()
                code = 0
            except BaseException:
                import traceback
                shim.crash_disarm()
                text = traceback.format_exc()[-3000:].encode()
                code = 71
            os.write(w, text)
        finally:
            os._exit(code)
    os.close(w)
    out = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        out += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st):
        c = os.WEXITSTATUS(st)
        if c == 0:
            return "done", int(out)
        if c == 77:
            return "stopped", at
        return "failed", out.decode(errors="replace")
    return "failed", "signal %d" % os.WTERMSIG(st)
