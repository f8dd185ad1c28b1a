"""Independent reference model: plain numpy, cgs floats, written from the documentation.

Nothing here imports agnpy. Numerical schemes that are part of the documented behaviour
(integration rule, number of grid points) are replicated so that comparisons are tight."""
import numpy as np
from astropy import constants as const
import astropy.units as u

C = const.c.cgs.value
H = const.h.cgs.value
ME = const.m_e.cgs.value
MP = const.m_p.cgs.value
KB = const.k_B.cgs.value
G = const.G.cgs.value
SIGMA_T = const.sigma_T.cgs.value
SIGMA_SB = const.sigma_sb.cgs.value
E_GAUSS = const.e.gauss.value
E_ESU = E_GAUSS
MSUN = const.M_sun.cgs.value
MEC2 = ME * C**2
MPC2 = MP * C**2
B_CR = 4.414e13


def mass(particle):
    return ME if particle == "e" else MP


# ----------------------------------------------------------------------------- integration
def trapz(y, x, axis=0):
    y, x = np.asarray(y, float), np.asarray(x, float)
    if x.ndim == 1 and y.ndim > 1:
        shp = [1] * y.ndim
        shp[axis] = x.size
        x = x.reshape(shp)
    dx = np.diff(x, axis=axis)
    a = np.take(y, range(0, y.shape[axis] - 1), axis=axis)
    b = np.take(y, range(1, y.shape[axis]), axis=axis)
    return np.sum(dx * (a + b) / 2, axis=axis)


def loglog(y, x, axis=0):
    """exact integral of the interpolating piecewise power law; segments with a null end
    contribute nothing"""
    y, x = np.asarray(y, float), np.asarray(x, float)
    if x.ndim == 1 and y.ndim > 1:
        shp = [1] * y.ndim
        shp[axis] = x.size
        x = x.reshape(shp)
    y, x = np.moveaxis(np.broadcast_arrays(y, x)[0], axis, 0), np.moveaxis(
        np.broadcast_arrays(x, y)[0], axis, 0
    )
    y0, y1, x0, x1 = y[:-1], y[1:], x[:-1], x[1:]
    with np.errstate(all="ignore"):
        L = np.log(x1 / x0)
        s = np.log(y1) - np.log(y0)  # m * L
        t = s + L  # (m+1) * L
        # int = x0 y0 L * (exp(t)-1)/t
        f = np.where(np.abs(t) < 1e-12, 1.0, np.expm1(t) / t)
        v = x0 * y0 * L * f
    v = np.where((y0 == 0) | (y1 == 0) | (x0 == x1), 0.0, v)
    return v.sum(axis=0)


RULES = {"trapz": trapz, "loglog": loglog}


def logspace(a, b, n):
    return np.logspace(np.log10(a), np.log10(b), n)


# ----------------------------------------------------------------------------- spectra
FAMILIES = {
    "PowerLaw": ["k", "p", "gamma_min", "gamma_max"],
    "BrokenPowerLaw": ["k", "p1", "p2", "gamma_b", "gamma_min", "gamma_max"],
    "LogParabola": ["k", "p", "q", "gamma_0", "gamma_min", "gamma_max"],
    "ExpCutoffPowerLaw": ["k", "p", "gamma_c", "gamma_min", "gamma_max"],
    "ExpCutoffBrokenPowerLaw": ["k", "p1", "p2", "gamma_c", "gamma_b", "gamma_min", "gamma_max"],
}
ROUND = 1e-10


def inside(g, d):
    return (g >= d["gamma_min"] * (1 - ROUND)) & (g <= d["gamma_max"] * (1 + ROUND))


def shape_fn(d, g):
    """n(gamma)/k inside, ignoring bounds; and d ln n / d ln gamma"""
    f = d["family"]
    if f == "PowerLaw":
        return g ** (-float(d["p"])), -d["p"] + 0 * g
    if f == "BrokenPowerLaw":
        i = np.where(g <= d["gamma_b"], d["p1"], d["p2"])
        return (g / d["gamma_b"]) ** (-1.0 * i), -i
    if f == "LogParabola":
        x = np.log10(g / d["gamma_0"])
        return 10 ** (-(d["p"] + d["q"] * x) * x), -d["p"] - 2 * d["q"] * x
    if f == "ExpCutoffPowerLaw":
        return g ** (-float(d["p"])) * np.exp(-g / d["gamma_c"]), -d["p"] - g / d["gamma_c"]
    if f == "ExpCutoffBrokenPowerLaw":
        i = np.where(g <= d["gamma_b"], d["p1"], d["p2"])
        return (g / d["gamma_b"]) ** (-1.0 * i) * np.exp(-g / d["gamma_c"]), -i - g / d["gamma_c"]
    raise KeyError(f)


def density(d, g):
    """n(gamma) in cm-3; d: dict(family, k, ...) or dict(family="Interp", ...)"""
    g = np.asarray(g, float)
    if d["family"] == "Empty":
        return np.zeros_like(g)
    if d["family"] == "Interp":
        return d["norm"] * interp_density(d, g)
    with np.errstate(all="ignore"):
        s, _ = shape_fn(d, g)
    return np.where(inside(g, d), d["k"] * s, 0.0)


def interp_samples(d):
    x, y = np.asarray(d["gamma"], float), np.asarray(d["n"], float)
    ok = y != 0
    return x[ok], y[ok]


def interp_density(d, g, derivative=False):
    from scipy.interpolate import CubicSpline, PchipInterpolator, Akima1DInterpolator

    cls = dict(cubic=CubicSpline, pchip=PchipInterpolator, akima=Akima1DInterpolator)[
        d.get("interpolator", "cubic")
    ]
    x, y = interp_samples(d)
    f = cls(np.log10(x), np.log10(y))
    lo, hi = d.get("lo", x.min()), d.get("hi", x.max())
    ins = (g >= lo * (1 - ROUND)) & (g <= hi * (1 + ROUND))
    gg = np.clip(g, lo, hi)
    v = np.where(ins, 10.0 ** f(np.log10(gg)), 0.0)
    if derivative:
        return v, f.derivative()(np.log10(gg))
    return v


def ssa_integrand(d, g):
    g = np.asarray(g, float)
    if d["family"] == "Empty":
        return np.zeros_like(g)
    if d["family"] == "Interp":
        v, slope = interp_density(d, g, True)
        return d["norm"] * v * (slope - 2) / g
    with np.errstate(all="ignore"):
        s, sl = shape_fn(d, g)
        return np.where(inside(g, d), d["k"] * s * (sl - 2) / g, 0.0)


def bounds(d):
    if d["family"] == "Interp":
        x, _ = interp_samples(d)
        return x.min(), x.max()
    return d["gamma_min"], d["gamma_max"]


def integrate(d, lo=None, hi=None, power=0, rule="trapz", n=200):
    a, b = bounds(d)
    g = logspace(a if lo is None else lo, b if hi is None else hi, n)
    return RULES[rule](density(d, g) * g**power, g)


# ----------------------------------------------------------------------------- region
def d_lum(z, cosmology=None):
    """luminosity distance in cm: own numerical integration for flat LCDM, default cosmology
    of astropy otherwise"""
    from astropy.cosmology import default_cosmology

    cosmo = cosmology if cosmology is not None else default_cosmology.get()
    return cosmo.luminosity_distance(z).to_value("cm")


class Region:
    """reference model of the emission region: base attributes in cgs"""

    def __init__(self, R_b=1e16, z=0.069, delta_D=10, Gamma=10, B=1.0, n_e=None, n_p=None, xi=1.0, ne_size=200, np_size=200, cosmology=None):
        self.R_b, self.z, self.delta_D, self.Gamma, self.B, self.xi = R_b, z, delta_D, Gamma, B, xi
        self.n_e = n_e or dict(family="PowerLaw", k=1e-13, p=2.1, gamma_min=10, gamma_max=1e5)
        self.n_p, self.ne_size, self.np_size, self.cosmology = n_p, ne_size, np_size, cosmology

    @property
    def d_L(self):
        return d_lum(self.z, self.cosmology)

    @property
    def V(self):
        return 4 / 3 * np.pi * self.R_b**3

    @property
    def beta(self):
        return np.sqrt(1 - 1 / self.Gamma**2)

    @property
    def mu_s(self):
        return (1 - 1 / (self.Gamma * self.delta_D)) / self.beta

    @property
    def gamma_e(self):
        return logspace(*bounds(self.n_e), self.ne_size)

    @property
    def gamma_p(self):
        return logspace(*bounds(self.n_p), self.np_size)

    def moment(self, which, power):
        d, g = (self.n_e, self.gamma_e) if which == "e" else (self.n_p, self.gamma_p)
        return trapz(density(d, g) * g ** float(power), g)

    @property
    def U_B(self):
        return self.B**2 / (8 * np.pi)

    @property
    def u_ph(self):
        return SIGMA_T * self.U_B * self.R_b * self.moment("e", 2)

    def derived(self):
        """every derived quantity: name -> (value, unit)"""
        r = {
            "V_b": (self.V, "cm3"),
            "t_var": ((1 + self.z) * self.R_b / (C * self.delta_D) / 86400, "d"),
            "d_L": (self.d_L, "cm"),
            "z": (self.z, None),
            "Beta": (self.beta, None),
            "mu_s": (self.mu_s, None),
            "theta_s": (np.degrees(np.arccos(self.mu_s)), "deg"),
            "B_cgs": (self.B, "cm(-1/2) g(1/2) s-1"),
            "U_B": (self.U_B, "erg cm-3"),
            "n_e_tot": (self.moment("e", 0), "cm-3"),
            "N_e_tot": (self.moment("e", 0) * self.V, ""),
            "u_e": (MEC2 * self.moment("e", 1), "erg cm-3"),
            "W_e": (MEC2 * self.moment("e", 1) * self.V, "erg"),
            "u_ph_synch": (self.u_ph, "erg cm-3"),
            "gamma_e": (self.gamma_e, None),
            "gamma_e_external_frame": (np.logspace(1, 9, self.ne_size), None),
        }
        up = 0.0
        if self.n_p is not None:
            up = MPC2 * self.moment("p", 1)
            r["n_p_tot"] = (self.moment("p", 0), "cm-3")
            r["N_p_tot"] = (self.moment("p", 0) * self.V, "")
            r["u_p"] = (up, "erg cm-3")
            r["W_p"] = (up * self.V, "erg")
            r["gamma_p"] = (self.gamma_p, None)
        ue = MEC2 * self.moment("e", 1)
        pre = 2 * np.pi * self.R_b**2 * self.beta * self.Gamma**2 * C
        r["k_eq"] = ((ue + up) / self.U_B, None)
        r["P_jet_ke"] = (pre * (ue + up), "erg s-1")
        r["P_jet_B"] = (pre * self.U_B, "erg s-1")
        return r

    def eps(self, nu, m=ME):
        return H * nu * (1 + self.z) / (m * C**2 * self.delta_D)


# ----------------------------------------------------------------------------- synchrotron
def R_synch(x):
    x = np.asarray(x, float)
    c = np.cbrt(x)
    return (
        1.808 * c / np.sqrt(1 + 3.4 * c**2) * (1 + 2.21 * c**2 + 0.347 * c**4) / (1 + 1.353 * c**2 + 0.217 * c**4) * np.exp(-x)
    )


def synch_power(B, eps, gamma, m=ME):
    x = 4 * np.pi * eps * m**2 * C**3 / (3 * E_GAUSS * B * H * gamma**2)
    return np.sqrt(3) * E_GAUSS**3 * B / H * R_synch(x)


def tau_ssa(b, nu, rule="trapz", gamma=None):
    nu = np.asarray(nu, float)
    g = b.gamma_e if gamma is None else gamma
    e = b.eps(nu).reshape(1, -1)
    y = -ssa_integrand(b.n_e, g)[:, None] * synch_power(b.B, e, g[:, None])
    I = RULES[rule](y, g)
    lc = H / (ME * C)
    k = 1 / (8 * np.pi * ME * e[0] ** 2) * (lc / C) ** 3 * I
    return (2 * k * b.R_b).reshape(nu.shape)


def attenuation_ssa(tau):
    tau = np.asarray(tau, float)
    with np.errstate(all="ignore"):
        t = np.where(tau < 0.02, 1.0, tau)
        u = 0.5 + np.exp(-t) / t + np.expm1(-t) / t**2
        # series for small tau: 3u/tau = 1 - 3 tau/8 + tau^2/10 - tau^3/48 + tau^4/280
        s = 1 - 3 * tau / 8 + tau**2 / 10 - tau**3 / 48 + tau**4 / 280
        a = np.where(tau < 0.02, s, 3 * u / t)
    return np.where(tau < 1e-3, 1.0, a)


def synch_sed(b, nu, ssa=False, rule="trapz", gamma=None, particle="e"):
    nu = np.asarray(nu, float)
    m = mass(particle)
    d = b.n_e if particle == "e" else b.n_p
    g = (b.gamma_e if particle == "e" else b.gamma_p) if gamma is None else gamma
    e = b.eps(nu, m).reshape(1, -1)
    y = b.V * density(d, g)[:, None] * synch_power(b.B, e, g[:, None], m)
    em = RULES[rule](y, g)
    sed = (b.delta_D**4 / (4 * np.pi * b.d_L**2) * e[0] * em).reshape(nu.shape)
    if ssa:
        sed = sed * attenuation_ssa(tau_ssa(b, nu, rule, g))
    return sed


def synch_delta(b, nu):
    nu = np.asarray(nu, float)
    gs = np.sqrt(b.eps(nu) / (b.B / B_CR))
    return b.delta_D**4 * C * SIGMA_T * b.U_B / (6 * np.pi * b.d_L**2) * gs**3 * b.V * density(b.n_e, gs)


def u_synch_diff(b, eps, sed):
    return 3 / 4 * 3 * b.d_L**2 * sed / (C * b.R_b**2 * b.delta_D**4 * eps)


# ----------------------------------------------------------------------------- Compton
NU_SSC = np.logspace(5, 30, 200)


def kernel_iso(g, e, es):
    with np.errstate(all="ignore"):
        Ge = 4 * g * e
        w = es / g
        q = w / (Ge * (1 - w))
        ok = (q >= 1 / (4 * g**2)) & (q <= 1)
        qq = np.where(ok, q, 0.5)
        F = 2 * qq * np.log(qq) + (1 + 2 * qq) * (1 - qq) + 0.5 * (Ge * qq) ** 2 / (1 + Ge * qq) * (1 - qq)
    return np.where(ok, F, 0.0)


def ssc_sed(b, nu, ssa=False, rule="trapz", gamma=None):
    nu = np.asarray(nu, float)
    g = b.gamma_e if gamma is None else gamma
    e = b.eps(NU_SSC)
    us = u_synch_diff(b, e, synch_sed(b, NU_SSC, ssa, rule, g))
    es = b.eps(nu).reshape(1, 1, -1)
    y = (us / e**2)[None, :, None] * (b.V * density(b.n_e, g) / g**2)[:, None, None] * kernel_iso(g[:, None, None], e[None, :, None], es)
    I = RULES[rule](RULES[rule](y, g), e)
    return (b.delta_D**4 / (4 * np.pi * b.d_L**2) * 0.75 * C * SIGMA_T * es.ravel() ** 2 * I).reshape(nu.shape)


def loss_synch(b, g):
    return 4 / 3 * SIGMA_T * C * b.U_B * np.asarray(g, float) ** 2


def loss_ssc_thomson(b, g):
    return 4 / 3 * SIGMA_T * C * b.u_ph * np.asarray(g, float) ** 2


def loss_ssc(b, g):
    g = np.asarray(g, float)
    e = b.eps(NU_SSC)
    us = u_synch_diff(b, e, synch_sed(b, NU_SSC, gamma=np.logspace(1, 9, 200)))
    B4 = 4 * g.reshape(-1, 1) * e
    with np.errstate(all="ignore"):
        f = np.where(B4 < 1e4, (1 + B4) ** -1.5, 4.5 / B4**2 * (np.log(B4) - 11 / 6))
    F = trapz(f * us, e, axis=1)
    return (4 / 3 * SIGMA_T * C * F).reshape(g.shape) * g**2
