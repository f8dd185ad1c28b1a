"""Reference model of the photon targets (plain numpy, cgs), of external Compton scattering and
of gamma-gamma absorption; geometry from explicit three-dimensional vectors. `make` builds the
real target of a description."""
import numpy as np
import astropy.units as u
from . import ref
from .ref import C, G, KB, H, MEC2, SIGMA_T, SIGMA_SB, trapz, RULES, density

# Finke (2016), Table 5: wavelengths in Angstrom
LINES = {
    "Lyepsilon": 937.80, "Lydelta": 949.74, "CIII": 977.02, "NIII": 990.69, "Lybeta": 1025.72,
    "OVI": 1033.83, "ArI": 1066.66, "Lyalpha": 1215.67, "OI": 1304.35, "SiII": 1306.82,
    "SiIV": 1396.76, "OIV]": 1402.06, "CIV": 1549.06, "NIV": 1718.55, "AlII": 1721.89,
    "CIII]": 1908.73, "[NeIV]": 2423.83, "MgII": 2798.75, "Hdelta": 4102.89, "Hgamma": 4341.68,
    "HeII": 4687.02, "Hbeta": 4862.68, "[ClIII]": 5539.43, "HeI": 5877.29, "Halpha": 6564.61,
}  # fmt: skip
ERGS = u.Unit("erg s-1")


def make(t):
    from agnpy.targets import CMB, PointSourceBehindJet, SSDisk, SphericalShellBLR, RingDustTorus

    k = t["kind"]
    if k == "CMB":
        return CMB(t["z"])
    if k == "PS":
        return PointSourceBehindJet(t["L"] * ERGS, t["eps"])
    if k == "Disk":
        if t.get("rg_units", True):
            return SSDisk(t["M"] * u.g, t["L"] * ERGS, t["eta"], t["Rin"], t["Rout"], R_g_units=True)
        rg = G * t["M"] / C**2
        return SSDisk(t["M"] * u.g, t["L"] * ERGS, t["eta"], t["Rin"] * rg * u.cm, t["Rout"] * rg * u.cm)
    if k == "BLR":
        return SphericalShellBLR(t["L"] * ERGS, t["xi"], t["line"], t["R"] * u.cm)
    if k == "DT":
        return RingDustTorus(t["L"] * ERGS, t["xi"], t["T"] * u.K, None if t["R"] is None else t["R"] * u.cm)
    raise KeyError(k)


def set_param(obj, t, name, v):
    """change one parameter of a live target; returns a new object where quantities are derived
    from that parameter at construction"""
    k = t["kind"]
    simple = {"PS": dict(L="L_0", eps="epsilon_0"), "BLR": dict(L="L_disk", xi="xi_line", R="R_line"), "DT": dict(xi="xi_dt")}
    if name in simple.get(k, {}):
        unit = {"L": ERGS, "R": u.cm}.get(name, 1)
        setattr(obj, simple[k][name], v * unit)
        return obj
    return make(dict(t, **{name: v}))


def eps_line(t):
    if not isinstance(t["line"], str):  # a wavelength in Angstrom
        return H * C / (t["line"] * 1e-8) / MEC2
    return H * C / (LINES[t["line"]] * 1e-8) / MEC2


def theta_dt(t):
    return KB * t["T"] / MEC2


def eps_dt(t):
    return 2.7 * theta_dt(t)


def R_dt(t):
    if t["R"] is not None:
        return t["R"]
    return 3.5e18 * np.sqrt(t["L"] / 1e45) * (t["T"] / 1e3) ** -2.6


def eps_cmb(t):
    return 2.7 * KB * 2.72548 / MEC2 * (1 + t["z"])


def u_cmb(t):
    return 7.5657e-15 * 2.72548**4 * (1 + t["z"]) ** 4


class Disk:
    def __init__(self, t):
        self.M, self.L, self.eta = t["M"], t["L"], t["eta"]
        self.M8 = self.M / (1e8 * ref.MSUN)
        self.L_Edd = 1.26e46 * self.M8
        self.l_Edd = self.L / self.L_Edd
        self.m_dot = self.L / (self.eta * C**2)
        self.R_g = G * self.M / C**2
        self.a, self.b = t["Rin"], t["Rout"]

    def mu(self, r, n=100):
        rt = r / self.R_g
        return np.linspace(1 / np.sqrt(1 + (self.b / rt) ** 2), 1 / np.sqrt(1 + (self.a / rt) ** 2), n)

    def R_of_mu(self, mu, r):
        return r / self.R_g * np.sqrt(mu**-2.0 - 1)

    def eps(self, Rt):
        return 2.7e-4 * (self.l_Edd / (self.M8 * self.eta)) ** 0.25 * np.asarray(Rt, float) ** -0.75

    def phi(self, Rt):
        # null, and not negative by rounding, at the inner radius
        return 1 - np.sqrt(self.a / np.asarray(Rt, float))

    def T(self, R):
        ph = 1 - np.sqrt(self.a * self.R_g / R)
        return (3 * G * self.M * self.m_dot * ph / (8 * np.pi * R**3 * SIGMA_SB)) ** 0.25


# ----------------------------------------------------------------------------- densities
def u_lab(t, r):
    """energy density in the lab frame, for an array of distances"""
    return u_density(t, r, None)


def u_density(t, r, b, signed=True):
    """b: None, or (Gamma, beta)"""
    r = np.asarray(r, float)
    if r.ndim:
        return np.array([u_density(t, x, b, signed) for x in r.ravel()]).reshape(r.shape)
    k = t["kind"]
    if b is not None:
        Gm, be = b
    if k == "CMB":
        return u_cmb(t) * (1 if b is None else Gm**2 * (1 + be**2 / 3))
    if k == "PS":
        return t["L"] / (4 * np.pi * C * r**2) * (1 if b is None else 1 / (Gm**2 * (1 + be) ** 2))
    if k == "Disk":
        d = Disk(t)
        mu = d.mu(r)
        y = 1 / mu * (mu**-2.0 - 1) ** -1.5 * d.phi(d.R_of_mu(mu, r))
        if b is not None:
            mp = (mu - be) / (1 - be * mu)
            y = y / (Gm**6 * (1 - be * mu) ** 2 * (1 + be * mp) ** 4)
        return 3 * d.L * d.R_g / (8 * np.pi * C * d.eta * r**3) * trapz(y, mu)
    if k == "BLR":
        mu = np.linspace(-1, 1, 50)
        R = t["R"]
        x2 = R**2 * (1 - mu**2) + (r - R * mu) ** 2
        y = 1 / x2
        if b is not None:
            ms = (r - R * mu) / np.sqrt(x2)
            if not signed:
                ms = np.abs(ms)
            y = y * Gm**2 * (1 - be * ms) ** 2
        return t["xi"] * t["L"] / (8 * np.pi * C) * trapz(y, mu)
    if k == "DT":
        x2 = R_dt(t) ** 2 + r**2
        v = t["xi"] * t["L"] / (4 * np.pi * C * x2)
        if b is not None:
            v = v * (Gm * (1 - be * r / np.sqrt(x2))) ** 2
        return v
    raise KeyError(k)


# ----------------------------------------------------------------------------- thermal SEDs
def planck(nu, T):
    with np.errstate(all="ignore"):
        return 2 * H * nu**3 / C**2 / np.expm1(H * nu / (KB * T))


def disk_sed(t, nu, z, d_L, mu_s=1.0):
    nu = np.asarray(nu, float)
    d = Disk(t)
    R = np.linspace(d.a, d.b, 100) * d.R_g
    with np.errstate(all="ignore"):
        I = planck(nu.ravel() * (1 + z), d.T(R)[:, None])
    F = 2 * np.pi / d_L**2 * trapz(R[:, None] * I, R)
    return (mu_s * nu.ravel() * F).reshape(nu.shape)


def disk_norm_sed(t, nu, z, d_L):
    x = np.logspace(3, 21, 100)
    L = 2 * 4 * np.pi * d_L**2 * trapz(disk_sed(t, x, z, d_L) / x, x)
    return t["L"] / L * disk_sed(t, nu, z, d_L)


def dt_sed(t, nu, z, d_L):
    nu = np.asarray(nu, float)
    return np.pi * (R_dt(t) / d_L) ** 2 * nu * planck(nu * (1 + z), t["T"])


def dt_norm_sed(t, nu, z, d_L):
    return dt_sed(t, nu, z, d_L) * t["xi"] * t["L"] / (4 * np.pi * R_dt(t) ** 2 * SIGMA_SB * t["T"] ** 4)


# ----------------------------------------------------------------------------- Compton
def kernel(g, es, e, cospsi):
    with np.errstate(all="ignore"):
        om = 1 - cospsi
        eb = g * e * om
        y = 1 - es / g
        w = es / (g * eb * y)
        v = y + 1 / y - 2 * w + w**2
        gmin = es / 2 * (1 + np.sqrt(1 + 2 / (e * es * om)))
        return np.where((om > 0) & (g >= gmin), v, 0.0)


def cospsi(mu_s, mu, phi):
    return mu_s * mu + np.sqrt(np.maximum(1 - mu_s**2, 0)) * np.sqrt(np.maximum(1 - mu**2, 0)) * np.cos(phi)


def ec_sed(b, t, r, nu, rule="trapz", mu_size=100, phi_size=50, gamma=None, mu_s=None, noise=None):
    """b: ref.Region; nu in Hz. `noise`: of the disk, the contribution of the inner edge alone
    with such relative emissivity (it is null, but with rounding)"""
    nu = np.asarray(nu, float)
    es = (H * nu * (1 + b.z) / MEC2).ravel()
    g = np.logspace(1, 9, b.ne_size) if gamma is None else gamma
    Ng = b.V * density(b.n_e, g / b.delta_D) / g**2
    mu_s = b.mu_s if mu_s is None else mu_s
    phi = np.linspace(0, 2 * np.pi, phi_size)
    mu = np.linspace(-1, 1, mu_size)
    g4, es4, phi4 = g[:, None, None, None], es[None, None, None, :], phi[None, None, :, None]
    N4 = Ng[:, None, None, None]
    pre = SIGMA_T * es**2 * b.delta_D**3 / b.d_L**2
    I = RULES[rule]
    k = t["kind"]
    if k == "CMB":
        e0 = eps_cmb(t)
        y = N4 * kernel(g4, es4, e0, cospsi(mu_s, mu[None, :, None, None], phi4))
        v = trapz(trapz(I(y, g), mu), phi)
        out = 3 * C * u_cmb(t) * pre / (2**7 * np.pi**2 * e0**2) * v
    elif k == "PS":
        e0 = t["eps"]
        y = Ng[:, None] * kernel(g[:, None], es[None, :], e0, mu_s)
        out = 3 * t["L"] * pre / (2**7 * np.pi**2 * r**2 * e0**2) * I(y, g)
    elif k == "Disk":
        d = Disk(t)
        mu = d.mu(r, mu_size)
        Rt = d.R_of_mu(mu, r)
        e = d.eps(Rt)
        p = d.phi(Rt)
        p[-1] = 0.0
        if noise is not None:
            p = np.where(np.arange(mu_size) == mu_size - 1, noise, 0.0)
        f = p / e**2 / mu / (mu**-2.0 - 1) ** 1.5
        y = f[None, :, None, None] * N4 * kernel(g4, es4, e[None, :, None, None], cospsi(mu_s, mu[None, :, None, None], phi4))
        v = trapz(trapz(I(y, g), mu), phi)
        out = 9 * G * d.M * d.m_dot * pre / (2**9 * np.pi**3 * r**3) * v
    elif k == "BLR":
        R = t["R"]
        x2 = R**2 * (1 - mu**2) + (r - R * mu) ** 2
        ms = (r - R * mu) / np.sqrt(x2)
        y = (1 / x2)[None, :, None, None] * N4 * kernel(g4, es4, eps_line(t), cospsi(mu_s, ms[None, :, None, None], phi4))
        v = trapz(trapz(I(y, g), mu), phi)
        out = 3 * t["xi"] * t["L"] * pre / (2**9 * np.pi**3 * eps_line(t) ** 2) * v
    elif k == "DT":
        R = R_dt(t)
        x2 = R**2 + r**2
        y = Ng[:, None, None] * kernel(g[:, None, None], es[None, None, :], eps_dt(t), cospsi(mu_s, r / np.sqrt(x2), phi[None, :, None]))
        out = 3 * t["xi"] * t["L"] * pre / (2**8 * np.pi**3 * x2 * eps_dt(t) ** 2) * trapz(I(y, g), phi)
    else:
        raise KeyError(k)
    return out.reshape(nu.shape)


# ----------------------------------------------------------------------------- absorption
def sigma_gg(s):
    s = np.asarray(s, float)
    ok = s > 1
    ss = np.where(ok, s, 2.0)
    b = np.sqrt(1 - 1 / ss)
    v = 3 / 16 * SIGMA_T / ss * ((3 - b**4) * np.log((1 + b) ** 2 * ss) - 2 * b * (2 - b**2))
    return np.where(ok, v, 0.0)


REL = 1e-4  # documented exclusion around the shell


def tau_target(t, r, z, mu_s, nu, mu_size=100, phi_size=50, l_size=50):
    nu = np.asarray(nu, float)
    e1 = (H * nu * (1 + z) / MEC2).ravel()
    phi = np.linspace(0, 2 * np.pi, phi_size)
    mu = np.linspace(-1, 1, mu_size)
    k = t["kind"]
    on = mu_s == 1
    th = np.array([np.sqrt(max(1 - mu_s**2, 0)), 0.0, mu_s])
    path = (np.logspace(0, 5, l_size) - 1) * r if on else np.logspace(-5, 5, 2 * l_size) * r
    x_int = path + r if on else path  # integration variable
    ray = lambda p: np.array([0, 0, r])[:, None] + th[:, None] * p
    if k == "PS":
        if on:
            return np.zeros(nu.shape)
        P = ray(path)
        x = np.sqrt((P**2).sum(0))
        cp = (P * th[:, None]).sum(0) / x
        y = ((1 - cp) / x**2)[:, None] * sigma_gg(e1 * t["eps"] * ((1 - cp) / 2)[:, None])
        out = t["L"] / (4 * np.pi * t["eps"] * MEC2 * C) * trapz(y, x_int)
    elif k == "Disk":
        d = Disk(t)
        Rt = np.linspace(d.a, d.b, 100)
        lt = np.logspace(0, 5, l_size) * r / d.R_g
        R4, p4, l4, e4 = Rt[:, None, None, None], phi[None, :, None, None], lt[None, None, :, None], e1[None, None, None, :]
        q = R4**2 / l4**2
        m = 1 / np.sqrt(1 + q)
        cp = cospsi(mu_s, m, p4)
        e = d.eps(R4)
        y = d.phi(R4) / e / l4**2 / R4**2 * m**3 * (1 - cp) * sigma_gg(e * e4 * (1 - cp) / 2)
        out = 3 * d.L / ((4 * np.pi) ** 2 * d.eta * MEC2 * C * d.R_g) * trapz(trapz(trapz(y, Rt), phi), lt)
    elif k == "BLR":
        R = t["R"]
        e0 = eps_line(t)
        if on:
            l = x_int.copy()
            near = np.abs(l - R) <= REL * R
            l[near] += REL * R
            x_int = l
            P = np.array([0 * l, 0 * l, l])
        else:
            dist = np.sqrt((ray(x_int) ** 2).sum(0))
            near = np.abs(dist - R) <= REL * R
            x_int = np.sort(np.where(near, x_int + REL * R, x_int))
            P = ray(x_int)
        s = np.sqrt(np.maximum(1 - mu**2, 0))
        E = R * np.array([s[:, None] * np.cos(phi), s[:, None] * np.sin(phi), mu[:, None] + 0 * phi])
        D = P[:, None, None, :] - E[:, :, :, None]
        x2 = (D**2).sum(0)
        if on:
            # by symmetry the azimuth is irrelevant
            cp = D[2] / np.sqrt(x2)
        else:
            cp = (D * th[:, None, None, None]).sum(0) / np.sqrt(x2)
        w = 1 - cp
        y = (w / x2)[..., None] * sigma_gg(e1 * e0 * (w / 2)[..., None])
        out = t["xi"] * t["L"] / ((4 * np.pi) ** 2 * e0 * MEC2 * C) * trapz(trapz(trapz(y, mu), phi), x_int)
    elif k == "DT":
        R, e0 = R_dt(t), eps_dt(t)
        P = ray(path)
        E = R * np.array([np.cos(phi), np.sin(phi), 0 * phi])
        D = P[:, None, :] - E[:, :, None]
        x = np.sqrt((D**2).sum(0))
        w = 1 - (D * th[:, None, None]).sum(0) / x
        y = (w / x**2)[..., None] * sigma_gg(e1 * e0 * (w / 2)[..., None])
        out = t["xi"] * t["L"] / (8 * np.pi**2 * e0 * MEC2 * C) * trapz(trapz(y, phi), x_int)
    else:
        raise KeyError(k)
    return out.reshape(nu.shape)


def tau_synch(b, nu, size=200, margin=1e-2):
    """opacity on the synchrotron photons of the region (self-absorption included)"""
    nu = np.asarray(nu, float)
    e1 = b.eps(nu).ravel()
    lo, hi = ref.bounds(b.n_e)
    nub = ref.E_GAUSS * b.B / (2 * np.pi * ref.ME * C)
    ns = ref.logspace(nub * lo**2 * margin, nub * hi**2 * 100, size)
    obs = ns * b.delta_D / (1 + b.z)
    e = H * ns / MEC2
    n = ref.u_synch_diff(b, e, ref.synch_sed(b, obs, True)) / (e * MEC2)
    y = n[:, None] * sigma_gg(e[:, None] * e1 / 2)
    return (2 * b.R_b * trapz(y, e)).reshape(nu.shape)
