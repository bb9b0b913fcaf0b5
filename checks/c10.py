"""C10: native code stays inside its arrays (AddressSanitizer, UBSan, bounds checks)."""
import json
import os
import re
import subprocess
import sys

from harness import core, ext

REPORT = re.compile(r"(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|Fortran runtime error[^\n]*)")


def make():
    return core.Check("C10", "one evaluation per call into a sanitized extension",
                      ["extensions built from the current sources with -fsanitize=address,undefined and Fortran bounds checks"])


def lib(name):
    return subprocess.run(["gcc", "-print-file-name=" + name], capture_output=True, text=True).stdout.strip()


def worker(chk, block):
    d = chk.scratch("san")
    log = os.path.join(d, "log.jsonl")
    env = dict(os.environ, LD_PRELOAD=lib("libasan.so") + ":" + lib("libubsan.so"), PYTHONMALLOC="malloc",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:malloc_fill_byte=255:max_malloc_fill_size=1048576:"
                            "allocator_may_return_null=1",
               UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=98",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TMPDIR=d)
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", "harness.sanworker", str(chk.seed), str(block), str(chk.n(60, 900)), log],
                       cwd=core.VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    text = p.stdout.decode(errors="replace")
    events = []
    if os.path.exists(log):
        with open(log) as f:
            events = [json.loads(s) for s in f if s.endswith("\n")]
    last = None
    for ev in events:
        k = ev["event"]
        if k == "call":
            last = ev
            chk.evaluated((ev["what"], block, chk.evals))
            chk.count(ev["what"])
        elif k == "raised":
            if ev.get("must") is None and ev["error"] != "AssertionError":
                chk.violate("refused", "%s refused a valid call: %s %s" % (ev["what"], ev["error"], ev["message"]), last)
        elif k == "returned":
            if ev.get("must") == "raise":
                chk.violate("accepted", "%s accepted an invalid call" % ev["what"], last)
            elif not ev["finite"]:
                chk.violate("uninitialised", "%s returned memory it did not set" % ev["what"], last)
        elif k in ("changed", "released", "overrun", "differs", "shape", "broken"):
            chk.violate(k, "%s: %s %s" % (ev["what"], k, {a: b for a, b in ev.items() if a not in ("event", "what")}), last)
    rep = REPORT.search(text)
    if rep:
        frame = re.search(r"#\d+ 0x\w+ in (\S+) (\S+/(?:\w+\.(?:c|f90)):\d+)", text)
        chk.violate("sanitizer", "%s during %s %s" % (rep.group(1), (last or {}).get("what"), frame.group(0) if frame else ""), last)
    elif p.returncode < 0 or p.returncode in (98, 99, 134, 139):
        chk.violate("crash", "process ended with status %d during %s" % (p.returncode, (last or {}).get("what")), last)
    elif not events or events[-1]["event"] != "done":
        raise RuntimeError("worker ended early (%s): %s" % (p.returncode, text[-1500:]))


def run(chk):
    ext.build(san=True)
    chk.pmap(worker, list(range(chk.n(4, 7))))
