"""
Reference wind and pressure models, written from the model definitions.

Independent of the code under test: the Holland core cubic is obtained by solving
its defining conditions, derivatives are derived analytically here, and fields are
assembled with explicit rotations.
"""
import numpy as np

RHO = 1.15
OMEGA = 2 * 2 * np.pi / 86400.0


def coriolis(lat):
    return OMEGA * np.sin(np.radians(lat))


def vmax_willoughby(dp):
    return 0.6252 * np.sqrt(dp)


def vmax_holland(dp, beta):
    return np.sqrt(beta * dp / (np.e * RHO))


def vmax_atkinson(pc):
    return 3.04 * (1010.0 - pc / 100.0) ** 0.644


def powell_beta(lat, rm):
    return float(np.clip(1.881093 - 0.010917 * abs(lat) - 0.005567 * (rm * 0.000539957), 0.8, 2.2))


def willoughby_beta(lat, dp, rm):
    return 1.0036 + 0.0173 * vmax_willoughby(dp) - 0.0313 * np.log(rm / 1000.0) + 0.0087 * abs(lat)


class Holland:
    """Holland (1980) with a cubic core: V(0)=0 and value, slope, curvature matched at rmax."""

    def __init__(self, lat, dp, rm, beta, vm=None):
        self.f, self.dp, self.rm, self.beta = coriolis(lat), dp, rm, beta
        self.K = beta * dp / RHO
        self.vm = vmax_holland(dp, beta) if vm is None else vm
        f, K, r = self.f, self.K, rm
        h = K / np.e + (r * f) ** 2 / 4
        h1 = r * f * f / 2
        h2 = -K * beta ** 2 / (np.e * r * r) + f * f / 2
        self.d1 = h1 / (2 * np.sqrt(h)) - abs(f) / 2
        self.d2 = h2 / (2 * np.sqrt(h)) - h1 ** 2 / (4 * h ** 1.5)
        M = np.array([[1., 1., 1.], [3., 2., 1.], [6., 2., 0.]])
        self.abc = np.linalg.solve(M, [self.vm, self.d1 * r, self.d2 * r * r])

    def _outer(self, R):
        R = np.maximum(R, self.rm * 0.01)
        d = (self.rm / R) ** self.beta
        g = self.K * d * np.exp(-d)
        s = np.sqrt(g + (R * self.f / 2) ** 2)
        return R, d, g, s

    def velocity(self, R):
        x = R / self.rm
        a, b, c = self.abc
        core = x * (x * (x * a + b) + c)
        Ro, d, g, s = self._outer(R)
        return np.sign(self.f) * np.where(R <= self.rm, core, s - Ro * abs(self.f) / 2)

    def vorticity(self, R):
        x = R / self.rm
        a, b, c = self.abc
        core = (4 * a * x * x + 3 * b * x + 2 * c) / self.rm
        Ro, d, g, s = self._outer(R)
        dg = self.K * np.exp(-d) * (1 - d) * (-self.beta * d / Ro)
        out = abs(self.f) + (dg / 2 + Ro * self.f ** 2 / 4) / s + s / Ro
        return np.sign(self.f) * np.where(R <= self.rm, core, out)


class Rankine:
    def __init__(self, lat, dp, rm):
        self.f, self.rm, self.vm = coriolis(lat), rm, vmax_willoughby(dp)

    def velocity(self, R):
        x = np.maximum(R, 1e-9) / self.rm
        return np.sign(self.f) * self.vm * np.where(x <= 1, R / self.rm, x ** -0.5)

    def vorticity(self, R):
        s = np.sign(self.f)
        Ro = np.maximum(R, 1e-9)
        out = self.velocity(R) / Ro - 0.5 * self.vm * self.rm / Ro ** 1.5
        return np.where(R <= self.rm, s * (self.vm * R / self.rm + self.vm / self.rm), out)


class Jelesnianski:
    def __init__(self, lat, dp, rm):
        self.f, self.rm, self.vm = coriolis(lat), rm, vmax_willoughby(dp)

    def velocity(self, R):
        x = R / self.rm
        return np.sign(self.f) * 2 * self.vm * x / (1 + x * x)

    def vorticity(self, R):
        r2, m2 = (R * 1000.0) ** 2, self.rm ** 2
        return np.sign(self.f) * 4 * self.vm * self.rm * m2 / (m2 + r2) ** 2


class DoubleHolland:
    def __init__(self, lat, dp, rm, b1, b2, rm2=150.0, pc=None):
        self.f, self.dp, self.rm, self.rm2 = coriolis(lat), dp, rm, rm2
        self.b1 = 7.3 - pc / 16000.0 if b1 is None else b1
        self.b2 = 7.2 - pc / 16000.0 if b2 is None else b2
        base = 800.0 + (dp - 800.0) / 2000.0
        self.dp2 = base * min(1.0, dp / 1500.0)
        self.dp1 = dp - self.dp2
        self.vmh = vmax_holland(dp, b1) if b1 is not None else None

    def d2(self):
        f, r, E = self.f, self.rm, np.e
        k1, k2 = 4 * self.dp1 / RHO, 4 * self.dp2 / RHO
        b1, b2 = self.b1, self.b2
        nu = (self.rm2 / r) ** b2
        en = np.exp(-nu)
        h = b1 * k1 / E + b2 * k2 * nu * en + (r * f) ** 2
        first = (b2 ** 2 * k2 * (nu ** 2 - nu) * en / r + 2 * r * f * f) ** 2
        h2 = b1 * k1 / E + b2 * k2 * nu * 2 + en + (r * f) ** 2
        second = (-b1 ** 3 * k1 / E + k2 * en * (b2 ** 3 * (nu - 3 * nu ** 2 + nu ** 3)
                                                     + b2 ** 2 * (nu - nu ** 2))) / r ** 2 + 2 * f * f
        return -first / (8 * h ** 1.5) + second / (4 * np.sqrt(h2))

    def parts(self, R):
        R = np.maximum(R, 1e-30)
        mu, nu = (self.rm / R) ** self.b1, (self.rm2 / R) ** self.b2
        g1 = self.b1 * self.dp1 / RHO * mu * np.exp(-mu)
        g2 = self.b2 * self.dp2 / RHO * nu * np.exp(-nu)
        return R, mu, nu, g1, g2, np.sqrt(g1 + g2 + (R * self.f / 2) ** 2)

    def velocity(self, R):
        Ro, mu, nu, g1, g2, s = self.parts(R)
        V = np.sign(self.f) * s - Ro * abs(self.f) / 2
        if self.dp < 1500.0:
            return V
        vm = np.abs(V).max()
        M = np.array([[1., 1., 1.], [3., 2., 1.], [6., 2., 0.]])
        a, b, c = np.linalg.solve(M, [vm, 0.0, self.d2() * self.rm ** 2])
        x = R / self.rm
        return np.where(x <= 1, np.sign(self.f) * x * (x * (x * a + b) + c), V)

    def vorticity(self, R):
        Ro, mu, nu, g1, g2, s = self.parts(R)
        dg = (self.b1 * self.dp1 / RHO * np.exp(-mu) * (1 - mu) * (-self.b1 * mu / Ro)
              + self.b2 * self.dp2 / RHO * np.exp(-nu) * (1 - nu) * (-self.b2 * nu / Ro))
        Z = np.sign(self.f) * s / Ro - abs(self.f) + 0.5 * (dg + Ro * self.f ** 2) / s
        if self.dp < 1500.0:
            return Z
        M = np.array([[1., 1., 1.], [3., 2., 1.], [6., 2., 0.]])
        a, b, c = np.linalg.solve(M, [np.sign(self.f) * self.vmh, 0.0, self.d2() * self.rm ** 2])
        x = R / self.rm
        return np.where(x <= 1, (4 * a * x * x + 3 * b * x + 2 * c) / self.rm, Z)


def newholland_velocity(R, lat, dp, rm, rg):
    f, h = coriolis(lat), dp / 100.0
    Bs = -0.000044 * h * h + 0.01 * h - 0.014 * abs(lat) + 1.0
    dg = (rm / rg) ** Bs
    xn = np.log(17.0) / np.log(Bs * dp * dg * np.exp(-dg) / RHO)
    x = np.where(R > rm, 0.5 + (R - rm) * (xn - 0.5) / (rg - rm), 0.5)
    Ro = np.maximum(R, 1e-30)
    d = (rm / Ro) ** Bs
    return np.sign(f) * (dp * Bs / RHO * d * np.exp(-d)) ** x


def profile(name, lat, pe, pc, rm, **kw):
    dp = pe - pc
    if name == "holland":
        return Holland(lat, dp, rm, kw["beta"])
    if name == "schloemer":
        return Holland(lat, dp, rm, 1.0)
    if name == "powell":
        return Holland(lat, dp, rm, powell_beta(lat, rm))
    if name == "willoughby":
        return Holland(lat, dp, rm, willoughby_beta(lat, dp, rm))
    if name == "rankine":
        return Rankine(lat, dp, rm)
    if name == "jelesnianski":
        return Jelesnianski(lat, dp, rm)
    if name == "doubleholland":
        return DoubleHolland(lat, dp, rm, kw["beta1"], kw["beta2"], kw.get("rMax2", 150.0), pc)
    raise KeyError(name)


# ---- surface fields ----------------------------------------------------------
# lam: direction from centre to point, anticlockwise from east (radians).

def polar_to_xy(radial_in, tangential, lam):
    """Unused orientation helper kept for clarity: returns (east, north)."""
    return (-radial_in * np.cos(lam) - tangential * np.sin(lam),
            -radial_in * np.sin(lam) + tangential * np.cos(lam))


def hubbert(V, R, lam, f, rm, vfm, theta_fm, theta_max_deg):
    inflow = np.where(R < rm, 0.0, -np.sign(f) * np.radians(25.0))
    asym = -vfm * np.cos(theta_fm + np.radians(theta_max_deg) - lam)
    S = 1.069 * (0.7 * V + asym)
    return S * np.sin(inflow - lam), S * np.cos(inflow - lam)


def mcconochie(V, R, lam, f, rm, vfm, theta_fm, theta_max_deg):
    x = R / rm
    deg = np.where(x < 1, 10 * x, np.where(x < 1.2, 10 + 75 * (x - 1), 25.0))
    inflow = -np.sign(f) * np.radians(deg)
    asym = 0.5 * (1 + np.cos(theta_fm + np.radians(theta_max_deg) - lam)) * vfm * V / np.abs(V).max()
    S = V + asym
    a = np.abs(S)
    k = np.where(a >= 45, 0.66, np.where(a >= 19.5, 0.77 - 4.31e-3 * (a - 19.5),
                                        np.where(a >= 6, 0.81 - 2.93e-3 * (a - 6), 0.81)))
    S = 1.069 * k * S
    return S * np.sin(inflow - lam), S * np.cos(inflow - lam)


def kepert(V, Z, R, lam, f, rm, vm, vfm, theta_fm):
    K, Cd = 50.0, 0.002
    sg = np.sign(f)
    U = vfm * abs(1.25 * (1 - vfm / vm)) if (vfm > 0 and vm / vfm < 5.0) else vfm
    Vt = np.where(R > 2 * rm, U * np.exp(-((R / (2 * rm)) - 1) ** 2), U)
    al, be, ga = (2 * V / R + f) / (2 * K), (f + Z) / (2 * K), V / (2 * K * R)
    q = np.sqrt(al * be)
    r = np.sqrt(al / be)
    c = np.abs(Cd / K * V)
    chi, eta, psi = c / np.sqrt(q), c / np.sqrt(q + np.abs(ga)), c / np.sqrt(np.abs(q - np.abs(ga)))
    A0 = -chi * (1 + 1j * (1 + chi)) * V / (2 * chi ** 2 + 3 * chi + 2)
    three = np.abs(ga) > q
    num = psi * (1 + 2 * r + (1 + 1j) * (1 + r) * eta) * Vt
    Am = -np.where(three, num / (r * (2 - 2j + 3 * (eta + psi) + (2 + 2j) * eta * psi)),
                   num / (r * ((2 + 2j) * (1 + eta * psi) + 3 * psi + 3j * eta)))
    Ap = -np.where(three,
                   eta * (1 - 2 * r + (1 - 1j) * (1 - r) * psi) * Vt
                   / (r * (2 + 2j + 3 * (eta + psi) + (2 - 2j) * eta * psi)),
                   eta * (1 - 2 * r + (1 + 1j) * (1 - r) * psi) * Vt
                   / (r * ((2 + 2j) * (1 + eta * psi) + 3 * eta + 3j * psi)))
    ph = (lam - theta_fm) * sg
    m, p = Am * np.exp(-1j * ph), Ap * np.exp(1j * ph)
    u = A0.real * r * sg + (m.real + p.real) * r + Vt * np.cos(lam - theta_fm)
    v = A0.imag + (m.imag + p.imag) * sg + V - Vt * np.sin(lam - theta_fm)
    # (u radially outward, v cyclonic-positive anticlockwise) to east/north
    return u * np.cos(lam) - v * np.sin(lam), u * np.sin(-lam) * -1 + v * np.cos(lam)


# ---- pressure ------------------------------------------------------------------

def pressure(name, Rkm, pe, pc, rm_km, lat, beta=1.3, beta1=None, beta2=None, rmax2=250.0):
    dp = pe - pc
    Rk = np.maximum(Rkm, 1e-30)
    if name == "doubleHolland":
        d = DoubleHolland(lat, dp, rm_km, beta1, beta2, rmax2, pc)
        with np.errstate(over="ignore"):
            return pc + d.dp1 * np.exp(-(rm_km / Rk) ** d.b1) + d.dp2 * np.exp(-(rmax2 / Rk) ** d.b2)
    if name == "willoughby":
        beta = 1.0036 + 0.0173 * vmax_willoughby(dp) - 0.313 * np.log(rm_km) + 0.0087 * abs(lat)
    elif name == "schloemer":
        beta = 1.0
    elif name == "powell":
        beta = float(np.clip(1.881093 - 0.010917 * abs(lat) - 0.005567 * rm_km, 0.8, 2.2))
    with np.errstate(over="ignore"):
        return pc + dp * np.exp(-(rm_km / Rk) ** beta)
