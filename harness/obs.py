"""Historical track files: random records, layouts and settings, and what they mean."""
import os
from datetime import datetime, timedelta

import numpy as np

R = 6367.0
SPEED = {"mps": 1.0, "m/s": 1.0, "kph": 0.2777778, "kmh": 0.2777778, "kts": 0.5144, "mph": 0.44704}
PRESSURE = {"hPa": 1.0, "Pa": 0.01, "kPa": 10.0, "Pascals": 0.01, "mmHg": 1.3332239}
LENGTH = {"km": 1.0, "m": 0.001, "nm": 1.852, "mi": 1.60934, "deg": 111.1251}
FORMATS = ["%Y-%m-%d %H:%M:%S", "%Y%m%d%H", "%Y%m%d%H%M", "%d/%m/%Y %H:%M", "%m/%d/%Y %H:%M",
           "%Y-%m-%dT%H:%M", "%Y%m%d %H%M", "%d %b %Y %H:%M"]


def storms(rng, n, lon0=100.0, lon1=170.0, lat0=-40.0, lat1=-2.0, minutes=True, years=(1950, 2015),
           missing=True, jumps=True, wrap=False):
    """n storms in file order, each a list of records; consecutive storms never coincide."""
    out = []
    year = int(rng.integers(*years))
    num = 0
    south = lat0 < 0
    missing_rate = float(rng.choice([0, 0, 0.1, 0.5, 0.95])) if missing else 0.0
    for k in range(n):
        if k and rng.random() < 0.3:
            year += int(rng.integers(1, 3))
            num = 1 if rng.random() < 0.7 else num          # the same number again in a new season
        else:
            num += int(rng.integers(1, 3))
        m = int(rng.choice([1, 1, 2, 3, rng.integers(4, 12), rng.integers(12, 60)]))
        t = datetime(year, 1, 1) + timedelta(days=int(rng.integers(0, 360)), hours=int(rng.integers(0, 24)))
        whole = not minutes or rng.random() < 0.5
        step = float(rng.choice([1, 3, 6, 6, 6, 12, 24])) if whole else float(rng.choice([0.25, 0.5, 1.5, 2.25, 6.5]))
        lon = float(rng.uniform(lon0, lon1))
        lat = float(rng.uniform(lat0, lat1))
        if wrap and rng.random() < 0.6:
            lon = float(rng.uniform(-3, 3))
        heading = rng.uniform(0, 2 * np.pi)
        speed = rng.uniform(2, 45)
        p = rng.uniform(930, 1005)
        recs = []
        part = 0
        for i in range(m):
            obs = {"lon": round(lon, 2), "lat": round(lat, 2), "time": t, "p": round(p, 1),
                   "vmax": round(rng.uniform(5, 85), 1), "rmax": round(rng.uniform(8, 150), 1),
                   "penv": round(rng.uniform(1005, 1020), 1), "poci": round(rng.uniform(1002, 1015), 1),
                   "season": year, "num": num, "part": part,
                   "code": None}
            if rng.random() < missing_rate:
                obs["code"] = str(rng.choice(["-999", "0", "9999", ""]))
            recs.append(obs)
            h = step if rng.random() < 0.9 else step * int(rng.integers(1, 5))
            if rng.random() < 0.02:
                h = 0.0
            t = t + timedelta(hours=h)
            heading += rng.normal(0, 0.5)
            if rng.random() < 0.05:
                pass                                        # stationary
            elif rng.random() < 0.03:                       # implausibly fast, but no jump
                lon += float(rng.choice([-1, 1])) * rng.uniform(5, 9)
            else:
                d = min(speed * max(h, 1.0), 400.0) / 111.0
                lon += d * np.sin(heading)
                lat += d * np.cos(heading)
            if jumps and rng.random() < 0.03:
                if rng.random() < 0.5:
                    lon += float(rng.choice([-1, 1])) * rng.uniform(16, 40)
                else:
                    lat += float(rng.choice([-1, 1])) * rng.uniform(5.5, 12)
            lat = float(np.clip(lat, -55, -0.5) if south else np.clip(lat, 0.5, 55))
            p = float(np.clip(p + rng.normal(0, 4), 870, 1012))
        out.append(recs)
    return out


def refine(rng, sts, limit):
    """Number the pieces of each storm separated by jumps; drop positions too close to the limits."""
    for recs in sts:
        part = 0
        for a, b in zip(recs[:-1], recs[1:]):
            dlon = abs((b["lon"] - a["lon"] + 180) % 360 - 180)
            dlat = abs(b["lat"] - a["lat"])
            if 9.9 < dlon < 15.1:
                b["lon"] = a["lon"]
                dlon = 0
            if 4.9 < dlat < 5.1:
                b["lat"] = a["lat"]
                dlat = 0
            if dlon > limit or dlat > 5:
                part += 1
            b["part"] = part
    return sts


def layout(rng, ids=None, dates=None, delimiter=None):
    lay = {"id": ids or str(rng.choice(["index", "serial", "season", "num"])),
           "dates": dates or str(rng.choice(["date", "date", "ymdh", "ymdhm", "hhmm", "mdh", "age"])),
           "delimiter": delimiter or str(rng.choice([",", ",", ";", "|"])),
           "header": int(rng.choice([0, 0, 1, 3, 7])),
           "fmt": str(rng.choice(FORMATS)),
           "speed": str(rng.choice(sorted(SPEED))),
           "pressure": str(rng.choice(["hPa", "hPa", "Pa", "kPa", "Pascals", "mmHg"])),
           "length": str(rng.choice(sorted(LENGTH))),
           "vmax": bool(rng.random() < 0.6), "rmax": bool(rng.random() < 0.6),
           "penv": bool(rng.random() < 0.4), "poci": bool(rng.random() < 0.4),
           "east": bool(rng.random() < 0.4), "pad": bool(rng.random() < 0.3)}
    if lay["fmt"].find("%b") >= 0 or lay["fmt"].find("%H:") >= 0:
        pass
    cols = ["lat", "lon", "pressure"]
    cols += {"index": ["index"], "serial": ["tcserialno"], "season": ["season", "num"], "num": ["num"]}[lay["id"]]
    if lay["id"] in ("index", "serial") and rng.random() < 0.5:
        cols += ["season", "num"]
    cols += {"date": ["date"], "ymdh": ["year", "month", "day", "hour"],
             "ymdhm": ["year", "month", "day", "hour", "minute"], "hhmm": ["year", "month", "day", "hour"],
             "mdh": ["month", "day", "hour"], "age": ["age"]}[lay["dates"]]
    cols += [c for c in ("vmax", "rmax", "penv", "poci") if lay[c]]
    cols += ["skip"] * int(rng.integers(0, 4))
    rng.shuffle(cols)
    lay["columns"] = [str(c) for c in cols]
    return lay


def fit_times(lay, sts):
    """Make the times ones the layout can express."""
    coarse = lay["dates"] in ("ymdh", "mdh") or (lay["dates"] == "date" and "%M" not in lay["fmt"])
    for recs in sts:
        for r in recs:
            if coarse:
                r["time"] = r["time"].replace(minute=0)
            r["time"] = r["time"].replace(second=0, microsecond=0)


def number(v, digits=6):
    s = "%.*f" % (digits, v)
    return s.rstrip("0").rstrip(".") if "." in s else s


def write(path, rng, lay, sts):
    """Write the records; returns the flat list of records with what the file says about them."""
    d = lay["delimiter"]
    lines = []
    flat = []
    for h in range(lay["header"]):
        lines.append("heading %d %s text%s" % (h, d, d))
    for k, recs in enumerate(sts):
        for i, r in enumerate(recs):
            t = r["time"]
            age = (t - recs[0]["time"]).total_seconds() / 3600.0
            lon = r["lon"] % 360 if lay["east"] else (r["lon"] + 180) % 360 - 180
            val = {"lat": "%.2f" % r["lat"], "lon": "%.2f" % lon,
                   "index": "1" if i == 0 else "0",
                   "tcserialno": "%dS%03d" % (r["season"], k), "season": "%d" % r["season"], "num": "%d" % r["num"],
                   "date": t.strftime(lay["fmt"]), "year": "%d" % t.year, "month": "%d" % t.month,
                   "day": "%d" % t.day, "hour": "%d" % t.hour, "minute": "%d" % t.minute,
                   "age": number(age), "vmax": number(r["vmax"] / SPEED[lay["speed"]], 4),
                   "rmax": number(r["rmax"] / LENGTH[lay["length"]], 5),
                   "pressure": number(r["p"] / PRESSURE[lay["pressure"]], 4),
                   "penv": number(r["penv"] / PRESSURE[lay["pressure"]], 4),
                   "poci": number(r["poci"] / PRESSURE[lay["pressure"]], 4),
                   "skip": str(rng.choice(["NAME", "", "-1", "x y", "12:00"]))}
            if lay["dates"] == "hhmm":
                val["hour"] = "%d%02d" % (t.hour, t.minute) if rng.random() < 0.5 else "%02d%02d" % (t.hour, t.minute)
            if r["code"] is not None:
                val["pressure"] = r["code"]
            gap = lay.get("rgap", False) and rng.random() < 0.3
            if gap:
                val["rmax"] = "9223372036854775807"
            cells = [val[c] for c in lay["columns"]]
            if lay["pad"]:
                cells = [" " * int(rng.integers(0, 3)) + c + " " * int(rng.integers(0, 2)) for c in cells]
            lines.append(d.join(cells))
            lat32, lon = float("%.2f" % r["lat"]), float("%.2f" % lon) % 360
            flat.append(dict(r, storm=k, first=i == 0, rgap=gap, lat=lat32, lon=lon, age=float(val["age"]),
                             file=val, p=None if r["code"] is not None else float(val["pressure"]) * PRESSURE[lay["pressure"]],
                             vmax=float(val["vmax"]) * SPEED[lay["speed"]], rmax=float(val["rmax"]) * LENGTH[lay["length"]],
                             penv=float(val["penv"]) * PRESSURE[lay["pressure"]],
                             poci=float(val["poci"]) * PRESSURE[lay["pressure"]]))
    with open(path, "w") as f:
        f.write("\n".join(lines) + ("\n" if rng.random() < 0.9 else ""))
    return flat


def section(lay, name="SRC"):
    return ("[%s]\nColumns=%s\nFieldDelimiter=%s\nNumberOfHeadingLines=%d\nPressureUnits=%s\nLengthUnits=%s\n"
            "SpeedUnits=%s\nDateFormat=%s\n"
            % (name, lay["delimiter"].join(lay["columns"]), lay["delimiter"], lay["header"], lay["pressure"],
               lay["length"], lay["speed"], lay["fmt"]))


def step(a, b):
    """Distance (km) and bearing (degrees) from record a to record b, flat-earth with the final latitude."""
    dlon = (b["lon"] - a["lon"] + 180) % 360 - 180
    dy = R * np.radians(b["lat"] - a["lat"])
    dx = R * np.radians(dlon) * np.cos(np.radians(b["lat"]))
    return float(np.hypot(dx, dy)), float(np.degrees(np.arctan2(dx, dy)) % 360)
