"""C30: unit conversions and humidity relations."""
import numpy as np

from harness import core

# value in base unit = (x + before) * factor
KM_DEG = np.pi * 6367.0 / 180
UNITS = {
    "speed": {"mps": 1.0, "m/s": 1.0, "kph": 1 / 3.6, "kmh": 1 / 3.6, "kts": 1852 / 3600., "mph": 0.44704},
    "pressure": {"Pa": 1.0, "Pascals": 1.0, "hPa": 100.0, "kPa": 1000.0, "mmHg": 133.322387, "inHg": 3386.389},
    "length": {"m": 1.0, "km": 1000.0, "mi": 1609.344, "nm": 1852.0, "deg": KM_DEG * 1000, "rad": 6367000.0},
    "mixing": {"gkg": 0.001, "kgkg": 1.0},
}
TEMP = {"C": (0.0, 1.0), "K": (-273.15, 1.0), "F": (-32.0, 5 / 9.)}
EPS = 0.622


def make():
    return core.Check("C30", "one evaluation per converted value or humidity relation compared",
                      ["conversions hold to 0.1 per cent (0.2 degrees for temperatures)",
                       "humidity helpers: temperatures -30..50 C, pressures 500..1060 hPa"])


def values(rng, temp=False):
    n = int(rng.integers(1, 7))
    v = rng.uniform(-80, 150, n) if temp else rng.choice([1e-3, 1.0, 50.0, 1000.0]) * rng.normal(0, 1, n)
    v[rng.random(n) < 0.15] = 0
    k = int(rng.integers(5))
    if k == 0:
        return float(v[0])
    if k == 1:
        return int(round(v[0]))
    if k == 2:
        return np.ma.array(v, mask=rng.random(n) < 0.3)
    if k == 3:
        return v.reshape(1, -1)
    return v


def conversion(chk, k, quantity, a, b):
    from Utilities.metutils import convert
    rng = chk.rng("convert", k, quantity, a, b)
    temp = quantity == "temperature"
    v = values(rng, temp)
    keep = np.ma.array(v, copy=True)
    rep = lambda: {"value": np.ma.getdata(v), "from": a, "to": b}
    ok, got = chk.call(convert, v, a, b, _kind="fails", _what="converting %s to %s" % (a, b), _replay=rep)
    if not ok:
        return
    x = np.asarray(np.ma.getdata(keep), float)
    if temp:
        want = (x + TEMP[a][0]) * TEMP[a][1] / TEMP[b][1] - TEMP[b][0]
        tol = 0.2 * (1.8 if b == "F" else 1) + 1.5e-4 * np.abs(x) * (a == "F") + 1e-9
    else:
        want = x * UNITS[quantity][a] / UNITS[quantity][b]
        tol = 1e-3 * np.abs(want)
    g = np.ma.array(got)
    mask = np.ma.getmaskarray(keep)
    if not chk.expect(g.shape == np.shape(v) and np.array_equal(np.ma.getmaskarray(g), mask), "shape",
                      lambda: "%s to %s: shape or missing values changed" % (a, b), rep):
        return
    gd = np.ma.getdata(g)
    bad = ~mask & ~(np.abs(gd - want) <= tol)
    chk.expect(not bad.any(), "conversion", lambda: "%r %s is %r %s, expected %r" % (x[bad].flat[0], a, gd[bad].flat[0], b, want[bad].flat[0]), rep)
    chk.expect(np.array_equal(np.asarray(np.ma.getdata(v)), np.asarray(np.ma.getdata(keep))), "input-changed",
               lambda: "converting %s to %s changed the values passed in" % (a, b), rep)
    chk.evaluated((quantity, a, b), {"from": a, "to": b}, k=x.size)
    # there and back, and through an intermediate unit
    names = list(TEMP if temp else UNITS[quantity])
    ok, back = chk.call(convert, got, b, a, _kind="fails", _what="converting back", _replay=rep)
    c = names[int(rng.integers(len(names)))]
    ok2, via = chk.call(lambda: convert(convert(v, a, c), c, b), _kind="fails", _what="converting through %s" % c, _replay=rep)
    slack = 0.05 + 3e-4 * np.abs(x) if temp else 2e-3 * np.abs(x)
    if ok:
        chk.expect(np.all(mask | (np.abs(np.ma.getdata(back) - x) <= slack)), "round-trip",
                   lambda: "%r %s to %s and back gives %r" % (x.tolist(), a, b, np.ma.getdata(back).tolist()), rep)
    if ok2:
        s = 0.1 + 6e-4 * np.abs(x) if temp else 2e-3 * np.abs(want)
        chk.expect(np.all(mask | (np.abs(np.ma.getdata(via) - gd) <= s)), "via",
                   lambda: "%r %s to %s through %s gives %r, directly %r" % (x.tolist(), a, b, c, np.ma.getdata(via).tolist(), gd.tolist()), rep)


def svp(t):
    return np.exp((16.78 * t - 116.9) / (t + 237.3))      # kPa


def humidity(chk, k):
    import Utilities.metutils as m
    rng = chk.rng("humidity", k)
    t = float(rng.uniform(-30, 50))
    td = float(t - rng.choice([0, 0.1, 3, 25]) * rng.random())
    p = float(rng.uniform(500, 1060))
    elev = float(rng.choice([-5, 0, 10, 500, 3000]))
    rh = float(rng.uniform(0.5, 99.5))
    rep = lambda: {"temperature": t, "dew point": td, "pressure": p, "elevation": elev, "humidity": rh}

    def eq(name, fn, want, rtol=1e-9, atol=1e-9):
        ok, g = chk.call(fn, _kind="fails", _what=name, _replay=rep)
        if ok:
            chk.expect(g is not None and abs(float(g) - want) <= atol + rtol * abs(want), "relation",
                       lambda: "%s is %r, expected %r" % (name, g, want), rep)
            chk.evaluated(("relation", name), None)
        return float(g) if ok and g is not None else None
    sf = {"kPa": 1.0, "hPa": 10.0, "Pa": 1000.0}
    u = str(rng.choice(list(sf)))
    eq("saturation vapour pressure", lambda: m.satVapPr(t, u), svp(t) * sf[u])
    eq("default saturation vapour pressure", lambda: m.satVapPr(t), svp(t) * 10)
    eq("vapour pressure from dew point", lambda: m.dewPointToVapPr(td, u), svp(td) * sf[u])
    eq("dew point from vapour pressure", lambda: m.vapPrToDewPoint(svp(td) * sf[u], u), td, atol=1e-7)
    eq("air pressure", lambda: m.elevToAirPr(elev, u), 101.325 * np.exp(-0.0001184 * max(elev, 0)) * sf[u])
    air = 101.325 * np.exp(-0.0001184 * max(elev, 0))
    tw = td + (t - td) * float(rng.uniform(0, 1.1))
    w = min(tw, t)
    vp = svp(w) - 0.00066 * (1 + 0.00115 * w) * air * (t - w)
    eq("vapour pressure from wet bulb", lambda: m.wetBulbToVapPr(t, tw, elev, u), vp * sf[u], atol=1e-9 * sf[u])
    eq("humidity from wet bulb", lambda: m.wetBulbToRH(t, tw, elev), min(100.0, max(0.0, 100 * vp / svp(t))), atol=1e-7)
    if vp > 1e-3:
        eq("dew point from wet bulb", lambda: m.wetBulbToDewPoint(t, tw, elev),
           (116.9 + 237.3 * np.log(vp)) / (16.78 - np.log(vp)), atol=1e-6)
    eq("wet bulb globe temperature", lambda: m.wetBulbGlobeTemp(td, t), 0.567 * t + 0.393 * svp(td) + 3.94)
    e, es = svp(td) * 10, svp(t) * 10
    eq("humidity from vapour pressures", lambda: m.vapPrToRH(e, es), 100 * e / es)
    eq("humidity above saturation", lambda: m.vapPrToRH(es * 1.2, es), 100)
    eq("humidity below zero", lambda: m.vapPrToRH(-e, es), 0)
    eq("humidity without saturation pressure", lambda: m.vapPrToRH(e, 0), 100)
    mag = lambda x: 10 ** (7.5 * x / (237.3 + x))
    if td < t - 1e-6:
        eq("humidity from dew point", lambda: m.dewPointToRH(t, td), 100 * mag(td) / mag(t))
    d = eq("dew point from humidity", lambda: m.rHToDewPoint(rh, t),
           (lambda l: (116.9 + 237.3 * l) / (16.78 - l))(np.log(rh / 100 * svp(t))), atol=1e-6)
    if d is not None:
        eq("humidity of that dew point", lambda: m.dewPointToRH(t, d), rh, rtol=0.02)
    r = EPS * e / (p - e)
    eq("mixing ratio", lambda: m.vapPrToMixRat(e, p), r)
    eq("vapour pressure from mixing ratio", lambda: m.mixRatToVapPr(r, p), e, rtol=1e-8)
    q = EPS * e / p
    eq("specific humidity", lambda: m.vapPrToSpHum(e, p), q)
    eq("mixing ratio from specific humidity", lambda: m.spHumToMixRat(q, "kgkg"), r, rtol=1e-8)
    eq("mixing ratio from specific humidity in g/kg", lambda: m.spHumToMixRat(q * 1000), r, rtol=1e-8)
    eq("humidity from specific humidity", lambda: m.spHumToRH(q, t, p), 100 * e / es, rtol=1e-8)
    er = rh / 100 * es
    eq("mixing ratio from humidity", lambda: m.rHToMixRat(rh, t, p), EPS * er / (p - er))
    eq("mixing ratio from humidity, Kelvin", lambda: m.rHToMixRat(rh, t + 273.15, p, "K"), EPS * er / (p - er), rtol=0.02)
    eq("saturation by the other formula", lambda: m.vapour(t), 6.112 * np.exp(17.67 * t / (243.5 + t)))
    lat = float(rng.uniform(-90, 90))
    eq("Coriolis factor", lambda: m.coriolis(lat), 4 * np.pi / 86400 * np.sin(np.radians(lat)), atol=1e-18)
    z, v, sh = rng.uniform(-2e-4, 2e-4), rng.uniform(10, 90), rng.uniform(0, 40)
    eq("genesis potential", lambda: m.genesisPotential(z, rh, v, sh), abs(1e5 * z) ** 1.5 * (rh / 50) ** 3 * (v / 70) ** 3 / (1 + 0.1 * sh) ** 2)
    ok, w = chk.call(lambda: float(m.dewPointToWetBulb(t, td, p)), _kind="fails", _what="wet bulb temperature", _replay=rep)
    if ok:
        left = svp(w) * 10 - p * (t - w) * 0.00066 * (1 + 0.00115 * w)
        chk.expect(abs(left - e) < 0.06 and td - 0.1 <= w <= t + 0.1, "relation",
                   lambda: "wet bulb %r for dew point %r and temperature %r: vapour pressure %r, expected %r" % (w, td, t, left, e), rep)
        chk.evaluated(("relation", "wet bulb"), None)


def run(chk):
    n = chk.n(12, 150)
    for quantity in list(UNITS) + ["temperature"]:
        names = list(TEMP if quantity == "temperature" else UNITS[quantity])
        for a in names:
            for b in names:
                for k in range(n):
                    conversion(chk, k, quantity, a, b)
    for k in range(chk.n(800, 12000)):
        humidity(chk, k)
