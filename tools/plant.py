"""
Keeps one planted bug under seeded/: applies the edits to /repo, stores the diff,
runs the demonstration with and without it and the property's check with it, and
undoes the edits. Used as `from plant import plant` by hand-written scripts.
"""
import json
import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PLANT_REPO", "/repo")


def sh(cmd, cwd=REPO, timeout=1200):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def plant(bid, prop, edits, needs, breaks, demo, native=False, also=()):
    d = os.path.join(VERIF, "seeded", bid)
    os.makedirs(d, exist_ok=True)
    assert sh("git status --porcelain")[1] == "", "repo not clean"
    try:
        for path, old, new in edits:
            p = os.path.join(REPO, path)
            s = open(p, newline='').read()
            assert s.count(old) == 1, (path, old, s.count(old))
            open(p, "w", newline="").write(s.replace(old, new))
        diff = sh("git diff")[1]
        open(os.path.join(d, "patch.diff"), "w", newline="").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        open(os.path.join(d, "demo.py"), "w").write(demo)
        open(os.path.join(d, "demo.sh"), "w").write(
            '#!/bin/bash\n. /opt/vp/env.sh\nexport PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1\n'
            'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        if native:
            sh("bash /opt/vp/build.sh")
        rc, out = sh("bash %s/demo.sh" % d)
        print(bid, "demo with bug:", rc, "" if rc else "NOT SHOWN", out.strip().splitlines()[-1:] if out.strip() else "")
        for c in (prop,) + tuple(also):
            rc, out = sh("./run " + c, cwd=VERIF)
            hit = [l for l in out.splitlines() if l.startswith("VIOLATION property=" + c)]
            print(bid, c, "CAUGHT" if rc == 1 and hit else "MISSED rc=%d" % rc, [l[:150] for l in out.splitlines() if not l.startswith("VIOLATION")][:2])
    finally:
        sh("git checkout -- .")
        if native:
            sh("bash /opt/vp/build.sh")
    rc, out = sh("bash %s/demo.sh" % d)
    print(bid, "demo clean:", rc, "" if rc == 0 else out[-600:])
