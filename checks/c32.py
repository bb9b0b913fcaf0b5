"""C32: configuration values against the file that was written."""
import os

from harness import core

# documented defaults of the model options
DEFAULTS = {
    "Actions": {k: "True" for k in ("DataProcess", "ExecuteStat", "ExecuteTrackGenerator", "ExecuteWindfield", "ExecuteHazard",
                                    "ExecuteEvaluate", "PlotData", "PlotHazard", "CreateDatabase", "DownloadData")},
    "Region": {"gridSpace": "{'x':1.0,'y':1.0}", "gridInc": "{'x':1.0,'y':0.5}"},
    "DataProcess": {"StartSeason": "1981", "FilterSeasons": "True", "Source": "IBTRACS"},
    "StatInterface": {"kdeType": "gau", "kdeStep": "0.2", "minSamplesCell": "100"},
    "TrackGenerator": {"NumSimulations": "500", "NumTimeSteps": "360", "TimeStep": "1.0", "SeasonSeed": "1", "TrackSeed": "1"},
    "WindfieldInterface": {"profileType": "holland", "windFieldType": "kepert", "beta": "1.3", "beta1": "1.3", "beta2": "1.3",
                           "thetaMax": "70.0", "Margin": "2", "Resolution": "0.05", "PlotOutput": "False", "Domain": "bounded"},
    "Hazard": {"Years": "2,5,10,20,25,50,100,200,250,500,1000", "MinimumRecords": "50", "CalculateCI": "True", "PercentileRange": "90",
               "SampleSize": "50", "PlotSpeedUnits": "mps", "ExtremeValueDistribution": "GPD", "SmoothPlots": "True"},
    "RMW": {"GetRMWDistFromInputData": "False"},
    "Input": {"LandMask": "input/landmask.nc", "MSLPFile": "MSLP/slp.day.ltm.nc", "MSLPVariableName": "slp"},
    "Output": {"Path": "output", "Format": "txt"},
    "Timeseries": {"Extract": "False", "StationID": "WMO", "Windfields": "False"},
    "Logging": {"ProgressBar": "False", "LogFile": "main.log", "LogLevel": "INFO", "Verbose": "False", "Datestamp": "False"},
}
# options whose section listing is typed
TYPED = {"Actions": {k: "bool" for k in DEFAULTS["Actions"]},
         "TrackGenerator": {"NumSimulations": "int", "NumTimeSteps": "int", "TimeStep": "float", "SeasonSeed": "int", "TrackSeed": "int"},
         "WindfieldInterface": {"beta": "float", "beta1": "float", "beta2": "float", "thetaMax": "float", "Margin": "float", "Resolution": "float",
                                "PlotOutput": "bool", "profileType": "str", "Domain": "str"},
         "Hazard": {"Years": "list", "MinimumRecords": "int", "CalculateCI": "bool", "PercentileRange": "int", "SampleSize": "int",
                    "SmoothPlots": "bool", "PlotSpeedUnits": "str"},
         "Timeseries": {"Extract": "bool", "Windfields": "bool", "StationID": "str"},
         "Logging": {"ProgressBar": "bool", "Verbose": "bool", "Datestamp": "bool", "LogLevel": "str"},
         "Region": {"gridSpace": "eval", "gridInc": "eval"},
         "DataProcess": {"StartSeason": "int", "FilterSeasons": "bool"},
         "StatInterface": {"kdeStep": "float", "minSamplesCell": "int", "kdeType": "str"}}
TEXT = ["output", "/data/tc/run 1", "input", "input.csv", "map", "dir/x", "C:\\out", "a=b", "x:y", "%Y-%m-%d %H:%M", "A,B,C", "it's", "50%", "None here",
        "range", "type.txt", "a;b", "a # b", "max", "under_score", "tcserialno,season,num,skip,lat,lon", "Ünï"]
TRUTH = {"True": True, "true": True, "yes": True, "on": True, "1": True, "False": False, "false": False, "no": False, "off": False, "0": False}


def make():
    return core.Check("C32", "one evaluation per value requested",
                      ["option names match whatever their case, section names exactly", "list-valued defaults are not used"])


def value(rng, kind):
    if kind == "int":
        v = int(rng.choice([0, 1, -3, 42, 100000]))
        return str(v), v
    if kind == "float":
        v = float(rng.choice([0.0, 0.25, -1.5, 70.0, 1e-3, 2.0]))
        return (repr(v) if rng.random() < 0.7 else "%e" % v), v
    if kind == "bool":
        t = str(rng.choice(["True", "False"]))
        return t, t == "True"
    if kind == "eval":
        v = {"x": float(rng.integers(1, 9)) / 2, "y": float(rng.integers(1, 9))}
        return repr(v), v
    if kind == "list":
        v = [str(int(t)) for t in rng.integers(1, 2000, int(rng.integers(1, 6)))]
        return ",".join(v), v
    t = str(rng.choice(TEXT))
    return t, t


def case(rng, name):
    k = int(rng.integers(4))
    return [name, name.lower(), name.upper(), name.swapcase()][k]


def build(chk, rng, path, tag):
    """Writes a file; returns {section: {option: (text, kind, value)}} in effect, defaults included."""
    given = {}
    for sec, opts in DEFAULTS.items():
        if rng.random() < 0.5:
            given[sec] = {}
            for o in opts:
                if rng.random() < 0.5:
                    kind = TYPED.get(sec, {}).get(o, "str")
                    given[sec][o] = value(rng, kind) + (kind,)
    for i in range(int(rng.integers(1, 4))):
        given["%s%d" % (tag, i)] = {"Option%d" % j: value(rng, kd) + (kd,) for j, kd in
                                     enumerate(rng.choice(["int", "float", "bool", "eval", "list", "str", "str"], int(rng.integers(1, 6))))}
    names = list(given)
    rng.shuffle(names)
    with open(path, "w") as f:
        for s in names:
            f.write("[%s]\n" % s)
            for o, (t, _, _) in given[s].items():
                sep = str(rng.choice(["=", " = ", ": ", " ="]))
                f.write("%s%s%s\n" % (case(rng, o), sep, t))
                if rng.random() < 0.2:
                    f.write(str(rng.choice(["# comment\n", "; comment = 5\n", "\n"])))
    return given


def one(chk, k):
    import Utilities.config as config
    rng = chk.rng("config", k)
    d = chk.scratch("c")
    f1, f2 = os.path.join(d, "one.ini"), os.path.join(d, "two.ini")
    given = build(chk, rng, f1, "First")
    other = build(chk, rng, f2, "Second")
    rep = lambda: {"case": k, "file": open(f1).read(), "other": open(f2).read()}
    config.reset()
    if k % 3 == 0:
        ok, _ = chk.call(lambda: config.ConfigParser().read(f1), _kind="fails", _what="reading the file", _replay=rep)
    else:
        ok, _ = chk.call(lambda: config.cnfGetIniValue(f1, "Output", "Path", "x"), _kind="fails", _what="reading the file", _replay=rep)
    if not ok:
        return
    effect = {}
    for s, o in DEFAULTS.items():
        effect[s] = {n.lower(): (n, t, None, TYPED.get(s, {}).get(n, "str")) for n, t in o.items()}
    for s, o in given.items():
        effect.setdefault(s, {}).update({n.lower(): (n,) + v for n, v in o.items()})
    # every request answers from the first file, whichever file or accessor is named
    asks = [(s, n) for s in effect for n in effect[s]]
    asks += [(s, "absent%d" % i) for i, s in enumerate(effect)] + [("Nowhere", "option")]
    asks += [(s, o.lower()) for s in other for o in other[s]]
    asks += [(s, n) for s, n in asks if rng.random() < 0.3]
    order = rng.permutation(len(asks))
    cfg = config.ConfigParser()
    stored = {}
    for i in order:
        s, n = asks[i]
        if rng.random() < 0.2:
            chk.call(lambda: config.ConfigParser().read(f2), _kind="fails", _what="reading again", _replay=rep)
        have = effect.get(s, {}).get(n)
        name = case(rng, have[0] if have else n)
        where = f2 if rng.random() < 0.3 else f1
        if have is None or (s, n) in stored:
            if have is None:
                dflt = [7, 2.5, "text", True, {"a": 1}, None][int(rng.integers(6))]
                ok, got = chk.call(lambda: config.cnfGetIniValue(where, s, name, dflt), _kind="fails", _what="asking for %s %s" % (s, name), _replay=rep)
                # documented defaults of sections not listed above are left alone
                if ok and (s not in DEFAULTS or n.startswith("absent")):
                    chk.expect(got is dflt or got == dflt, "absent", lambda: "%s %s is not set, default %r, got %r" % (s, name, dflt, got), rep)
                chk.evaluated(("absent", type(dflt).__name__), None)
            continue
        ask(chk, rng, config, cfg, where, s, name, have, rep)
        if have[3] == "str" and rng.random() < 0.2:
            v = str(rng.choice(TEXT))
            cfg.set(s, name, v)
            stored[(s, n)] = v
    for (s, n), v in stored.items():
        for _ in range(2):
            ok, got = chk.call(lambda: config.ConfigParser().get(s, n), _kind="fails", _what="reading back a stored value", _replay=rep)
            if ok:
                chk.expect(got == v, "stored", lambda: "%s %s was set to %r and reads %r" % (s, n, v, got), rep)
        chk.evaluated(("stored",), None)
    config.reset()


def ask(chk, rng, config, cfg, where, s, name, have, rep):
    orig, text, val, kind = have
    if val is None:
        val = {"bool": lambda: text == "True", "int": lambda: int(text), "float": lambda: float(text), "eval": lambda: eval(text),
               "list": lambda: text.split(","), "str": lambda: text}[kind]()

    def want(what, fn, expected):
        ok, got = chk.call(fn, _kind="fails", _what="%s %s %s" % (what, s, name), _replay=rep)
        if ok:
            chk.expect(type(got) is type(expected) and got == expected, "value",
                       lambda: "%s: [%s] %s = %s gives %r, expected %r" % (what, s, name, text, got, expected), rep)
        chk.evaluated((what, kind), {"section": s, "option": name, "value": text})
    want("text", lambda: cfg.get(s, name), text)
    want("with text default", lambda: config.cnfGetIniValue(where, s, name, "zzz"), text)
    if kind == "int":
        want("integer", lambda: cfg.getint(s, name), val)
        want("with integer default", lambda: config.cnfGetIniValue(where, s, name, 99), val)
        want("without default", lambda: config.cnfGetIniValue(where, s, name), val)
    if kind in ("int", "float"):
        want("number", lambda: cfg.getfloat(s, name), float(val))
        want("with number default", lambda: config.cnfGetIniValue(where, s, name, 9.5), float(val))
    if kind == "bool":
        want("truth", lambda: cfg.getboolean(s, name), val)
        want("with truth default", lambda: config.cnfGetIniValue(where, s, name, not val), val)
        want("without default", lambda: config.cnfGetIniValue(where, s, name), val)
    if kind == "eval":
        want("structure", lambda: cfg.geteval(s, name), val)
        want("with structure default", lambda: config.cnfGetIniValue(where, s, name, {"z": 0}), val)
    if kind == "str" and text in TEXT:
        want("without default", lambda: config.cnfGetIniValue(where, s, name), text)
    t = TYPED.get(s, {}).get(orig)
    if t:
        want("section listing", lambda: dict(cfg.items(s))[name.lower()], val)


def truths(chk):
    import Utilities.config as config
    d = chk.scratch("t")
    p = os.path.join(d, "t.ini")
    with open(p, "w") as f:
        f.write("[T]\n" + "".join("o%d = %s\n" % (i, t) for i, t in enumerate(TRUTH)))
    config.reset()
    for i, (t, v) in enumerate(TRUTH.items()):
        got = config.cnfGetIniValue(p, "T", "o%d" % i, not v)
        chk.expect(got is v, "truth", lambda: "%s reads %r" % (t, got), {"text": t})
        chk.evaluated(("spelling",), None)
    config.reset()


def run(chk):
    truths(chk)
    for k in range(chk.n(150, 2500)):
        one(chk, k)
