"""C42: the loss tool is called exactly once for every footprint, with that footprint and its own result file."""
import os

from harness import core, synth

TOOL = """#!/bin/sh
# Stand-in for the loss tool: keeps its arguments and every file named by them.
n=$(mktemp -d "$TOOL_LOG/call.XXXXXX") || exit 9
for a in "$@"; do
  printf '%s\\n' "$a" >> "$n/args"
  f="${a#*=}"
  [ -f "$f" ] && cp "$f" "$n/settings"
done
for w in $(cat "$TOOL_LOG/fail"); do
  grep -q -F -e "$w" "$n/settings" && exit 3
done
exit 0
"""


def make():
    return core.Check("C42", "one evaluation per footprint or per run without impact",
                      ["the loss tool is replaced by a stand-in on the search path that keeps its settings"])


def calls(log):
    import yaml
    out = []
    for d in sorted(os.listdir(log)):
        if not d.startswith("call."):
            continue
        path = os.path.join(log, d, "settings")
        if not os.path.exists(path):
            out.append(None)
            continue
        with open(path) as f:
            got = yaml.safe_load(f)
        if not isinstance(got, list) or not all(isinstance(i, dict) and i for i in got):
            out.append(None)
            continue
        flat = {}
        for item in got:
            flat.update(item)
        flat["order"] = [list(i)[0] for i in got]
        out.append(flat)
    return out


def case(chk, rng, k):
    import impact
    from Utilities import config
    root = chk.scratch("imp")
    tools, log = os.path.join(root, "bin"), os.path.join(root, "log")
    work = os.path.join(root, str(rng.choice(["out", "out [1]", "a b", "x.nc", "5%d {0}"])))
    os.makedirs(tools), os.makedirs(log), os.makedirs(os.path.join(work, "windfield"))
    with open(os.path.join(tools, "hazimp"), "w") as f:
        f.write(TOOL)
    os.chmod(os.path.join(tools, "hazimp"), 0o755)
    gusts = set()
    for _ in range(int(rng.choice([0, 1, 1, 2, 5, 12]))):
        gusts.add(str(rng.choice(["gust.%03d-%05d.nc" % (rng.integers(1, 30), rng.integers(0, 2000)), "gust.interp.nc", "gust.%05d.nc" % rng.integers(0, 99)])))
    noise = [n for n in ("evolution.001-00001.nc", "gust.txt", "bearing.001-00001.nc", "gust.001-00001.nc.tmp", "gust.001-00001.csv") if rng.random() < 0.4]
    for n in sorted(gusts) + noise:
        open(os.path.join(work, "windfield", n), "w").close()
    if rng.random() < 0.4:
        os.makedirs(os.path.join(work, "impact"))
    expo = os.path.join(root, "homes %d.csv" % k[1])
    switch = [None, "True", "False"][int(rng.integers(3))]
    fail = sorted(gusts)[int(rng.integers(len(gusts)))] if gusts and rng.random() < 0.3 else None
    with open(os.path.join(log, "fail"), "w") as f:
        f.write(fail or "")
    s = {"Output": {"Path": work}, "Actions": {"ExecuteHazard": "False"}}
    if switch is not None:
        s["Actions"]["ExecuteImpact"] = switch
    if switch == "True" or rng.random() < 0.5:
        s["Impact"] = {"Exposure": expo}
    rep = {"case": k, "sections": s, "footprints": sorted(gusts), "others": noise, "failing": fail}
    ini = synth.write_config(os.path.join(root, "x.ini"), s)
    config.reset()
    cfg = config.ConfigParser()
    cfg.read(ini)
    os.environ["PATH"] = tools + os.pathsep + os.environ["PATH"]
    os.environ["TOOL_LOG"] = log
    on = switch == "True"
    direct = on and rng.random() < 0.3
    err = None
    try:
        if direct:
            impact.run(work, expo)
        else:
            impact.run_optional(cfg)
    except Exception as exc:                    # noqa: BLE001
        err = exc
    finally:
        os.environ["PATH"] = os.environ["PATH"].split(os.pathsep, 1)[1]
    got = calls(log)
    chk.count("runs with impact" if on else "runs without impact")
    if not on:
        chk.expect(not got and err is None, "not-requested", lambda: "ExecuteImpact %s: %d calls of the loss tool, %r" % (switch, len(got), err), rep)
        chk.evaluated(("off", switch, "Impact" in s), None)
        return
    if not chk.expect(None not in got, "settings", "the loss tool was called without settings", rep):
        return
    names = [os.path.basename(str(c.get("load_wind_ascii")).split(":vmax")[0]) for c in got]
    if fail is None:
        chk.expect(err is None, "impact-fails", lambda: "impact of %d footprints: %r" % (len(gusts), err), rep)
        chk.expect(sorted(names) == sorted(gusts), "footprints", lambda: "footprints %r, loss tool called for %r" % (sorted(gusts), sorted(names)), rep)
    else:
        chk.expect(err is not None, "failure-hidden", lambda: "the loss tool failed for %s and the run reported success" % fail, rep)
        chk.expect(len(set(names)) == len(names) and set(names) <= gusts and fail in names, "footprints",
                   lambda: "footprints %r, loss tool called for %r" % (sorted(gusts), sorted(names)), rep)
        chk.count("runs with a failing tool")
    for n, c in zip(names, got):
        full = os.path.join(work, "windfield", n)
        load = c.get("load_exposure") or {}
        chk.expect(c.get("load_wind_ascii") == "NetCDF:%s:vmax" % full, "hazard", lambda: "%s: hazard read from %r" % (n, c.get("load_wind_ascii")), rep)
        chk.expect((load.get("file_name"), load.get("exposure_latitude"), load.get("exposure_longitude")) == (expo, "LATITUDE", "LONGITUDE"), "exposure",
                   lambda: "%s: exposure %r" % (n, load), rep)
        chk.expect(c.get("save") == os.path.join(work, "impact", n[:-3] + ".csv"), "result-file", lambda: "%s: result %r" % (n, c.get("save")), rep)
        chk.expect(os.path.isdir(os.path.dirname(str(c.get("save")))), "result-folder", lambda: "%s: folder of %r is missing" % (n, c.get("save")), rep)
        chk.expect(c.get("template") == "wind_v3" and (c.get("calc_struct_loss") or {}).get("replacement_value_label") == "REPLACEMENT_VALUE", "template",
                   lambda: "%s: %r" % (n, c), rep)
        chk.expect(c["order"][0] == "template" and c["order"][-1] == "save", "template", lambda: "%s: steps %r" % (n, c["order"]), rep)
        chk.evaluated((n, fail is None), {"footprint": n, "settings": {a: str(b) for a, b in c.items()}})


def group(chk, item):
    g, n = item
    rng = chk.rng("impact", g)
    for k in range(n):
        case(chk, rng, (g, k))


def run(chk):
    import impact                              # noqa: F401
    chk.pmap(group, [(g, chk.n(12, 120)) for g in range(14)])
