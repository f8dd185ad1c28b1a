"""catalogue of everything that can be computed on a scene (one emission region and one target of
each kind): how to build the computing object, how to query it. Used to explore interactions of
queries, changes, input shapes and units. Grids are small, for speed."""
import copy
import numpy as np
import astropy.units as u
from . import build, scene, targets
from .build import RULE
from agnpy.emission_regions import Blob
from agnpy.synchrotron import Synchrotron, ProtonSynchrotron
from agnpy.compton import SynchrotronSelfCompton, ExternalCompton
from agnpy.absorption import Absorption, EBL
from agnpy.constraints import SpectralConstraints
from agnpy.targets import CMB, PointSourceBehindJet, SSDisk, SphericalShellBLR, RingDustTorus

# base values, in cgs
TARGETS = {
    "CMB": dict(kind="CMB", z=0.31),
    "PS": dict(kind="PS", L=2.3e46, eps=3.7e-5),
    "Disk": dict(kind="Disk", M=2.4e42, L=2.1e46, eta=0.087, Rin=7.3, Rout=230.0),
    "BLR": dict(kind="BLR", L=2.1e46, xi=0.024, line="Lyalpha", R=1.1e17),
    "DT": dict(kind="DT", L=2.1e46, xi=0.11, T=1030.0, R=6.6e18),
}
# dimension of each dimensional input -> its cgs unit and alternatives
UNITS = {
    "R_b": ["cm", "pc", "km", "AU"],
    "B": ["G", "T", "mG", "uT"],
    "k_e": ["cm-3", "m-3", "pc-3"],
    "k_p": ["cm-3", "m-3"],
    "L": ["erg s-1", "W", "Lsun"],
    "M": ["g", "Msun", "kg"],
    "T": ["K", "mK"],
    "R_disk": ["cm", "pc", "AU"],
    "R_line": ["cm", "pc", "m"],
    "R_dt": ["cm", "pc", "lyr"],
    "r": ["cm", "pc", "m"],
    "nu": ["Hz", "GHz", "1/day"],
}
BASE_UNITS = {k: v[0] for k, v in UNITS.items()}
R_POS = 2.7e17

# the region: cfg as in scene.REGION
BASE = dict(n_e="bpl", R_b=2.3e16, z=0.31, delta_D=11.3, Gamma=9.7, B=0.37, n_p="p_pl", ne_size=21, np_size=17, xi=0.8)


class World:
    """real objects of a scene"""

    def __init__(self, cfg=None, units=None, tpar=None, r=R_POS, num=None):
        """num: {dimension: (factor, unit)} values as `factor` times the base number in `unit`,
        not converted"""
        self.cfg = dict(BASE, **(cfg or {}))
        self.num = num or {}
        U = dict(BASE_UNITS, **(units or {}))
        self.units = U
        self.tpar = {k: dict(v, **((tpar or {}).get(k, {}))) for k, v in TARGETS.items()}

        def q(x, dim):
            if dim in self.num:
                f, unit = self.num[dim]
                return x * f * u.Unit(unit)
            return (x * u.Unit(UNITS[dim][0])).to(U[dim]) if UNITS[dim][0] != U[dim] else x * u.Unit(U[dim])

        self.q = q
        c = self.cfg

        def dist(name, particle, dim):
            d = copy.deepcopy(scene.DISTS[name])
            if particle == "e" and name == BASE["n_e"]:
                d.update({k[4:]: v for k, v in c.items() if k.startswith("n_e.")})
            o = build.dist(d, particle)
            if "k" in d and (U[dim] != "cm-3" or dim in self.num):
                kw = {k: v for k, v in d.items() if k not in ("family", "k")}
                o = build.CLS[d["family"]](k=q(d["k"], dim), **kw, mass=build.MASS[particle], integrator=RULE["trapz"])
            return o

        self.blob = Blob(
            R_b=q(c["R_b"], "R_b"), z=c["z"], delta_D=c["delta_D"], Gamma=c["Gamma"], B=q(c["B"], "B"),
            n_e=dist(c["n_e"], "e", "k_e"),
            n_p=None if c["n_p"] is None else dist(c["n_p"], "p", "k_p"),
            xi=c["xi"], gamma_e_size=c["ne_size"], gamma_p_size=c["np_size"],
        )  # fmt: skip
        self.r = q(r, "r")
        self.t = {k: self.target(k) for k in self.tpar}

    def target(self, k):
        p, q = self.tpar[k], self.q
        if k == "CMB":
            return CMB(p["z"])
        if k == "PS":
            return PointSourceBehindJet(q(p["L"], "L"), p["eps"])
        if k == "Disk":
            rg = targets.G * p["M"] / targets.C**2
            return SSDisk(q(p["M"], "M"), q(p["L"], "L"), p["eta"], q(p["Rin"] * rg, "R_disk"), q(p["Rout"] * rg, "R_disk"))
        if k == "BLR":
            return SphericalShellBLR(q(p["L"], "L"), p["xi"], p["line"], q(p["R"], "R_line"))
        return RingDustTorus(q(p["L"], "L"), p["xi"], q(p["T"], "T"), None if p["R"] is None else q(p["R"], "R_dt"))


def small(o, mu=7, phi=6, l=None):
    o.set_mu(mu)
    o.set_phi(phi)
    if l is not None:
        o.set_l(l)
    return o


# process: name -> (build from a world, frequencies of interest in Hz)
def _ec(k):
    return lambda w: small(ExternalCompton(w.blob, w.t[k], w.r))


def _ab(k, mu_s=1):
    return lambda w: small(Absorption(w.t[k], w.r, w.blob.z, mu_s), l=9)


RADIO, XRAY, GEV, TEV = 3.1e11, 2.2e17, 1.7e23, 6.1e26
PROCESSES = {
    "synch": (lambda w: Synchrotron(w.blob), [1.3e10, 4.4e13, 7e16, 2.2e19]),
    "synch ssa": (lambda w: Synchrotron(w.blob, ssa=True), [1.3e10, 4.4e12, 7e14, 2.2e18]),
    "synch ssa loglog": (lambda w: Synchrotron(w.blob, ssa=True, integrator=RULE["loglog"]), [1.3e10, 4.4e12, 7e14, 2.2e18]),
    "p synch": (lambda w: ProtonSynchrotron(w.blob), [1.3e8, 4.4e12, 7e15, 2.2e18]),
    "ssc": (lambda w: SynchrotronSelfCompton(w.blob), [1.3e14, 4.4e18, 7e22, 2.2e27]),
    "ssc ssa": (lambda w: SynchrotronSelfCompton(w.blob, ssa=True), [1.3e14, 4.4e18, 7e22, 2.2e25]),
    "ec CMB": (_ec("CMB"), [1.3e14, 4.4e18, 7e21, 2.2e27]),
    "ec PS": (_ec("PS"), [1.3e14, 4.4e18, 7e22, 2.2e25]),
    "ec Disk": (_ec("Disk"), [1.3e17, 4.4e19, 7e22, 2.2e25]),
    "ec BLR": (_ec("BLR"), [1.3e17, 4.4e19, 7e22, 2.2e25]),
    "ec DT": (_ec("DT"), [1.3e14, 4.4e18, 7e22, 2.2e25]),
}
ABSORBERS = {
    "abs PS": (_ab("PS", 0.95), [1.3e22, 4.4e25, 7e27, 2.2e29]),
    "abs Disk": (_ab("Disk"), [1.3e22, 4.4e25, 7e27, 2.2e29]),
    "abs BLR": (_ab("BLR"), [1.3e22, 4.4e25, 7e27, 2.2e29]),
    "abs BLR tilted": (_ab("BLR", 0.95), [1.3e22, 4.4e25, 7e27, 2.2e29]),
    "abs DT": (_ab("DT"), [1.3e22, 4.4e26, 7e27, 2.2e29]),
    "abs DT tilted": (_ab("DT", 0.95), [1.3e22, 4.4e26, 7e27, 2.2e29]),
    "abs blob": (lambda w: Absorption(w.blob), [1.3e22, 4.4e26, 7e28, 2.2e30]),
}
EBLS = {"ebl": (lambda w: EBL("franceschini_2017"), [2.1e25, 7.7e25, 3.3e26, 9.1e26])}
THERMAL = {
    "bb Disk": (lambda w: w.t["Disk"], [1.3e13, 4.4e14, 7e15, 2.2e17]),
    "bb DT": (lambda w: w.t["DT"], [1.3e12, 4.4e13, 2e14, 2.2e15]),
}
# spectral queries: name -> (process group, fn(obj, nu, world))
SPECTRAL = {}
for _n in PROCESSES:
    SPECTRAL[_n + ": sed_flux"] = (_n, lambda o, nu, w: o.sed_flux(nu))
for _n in ("synch", "p synch", "ssc ssa", "ec BLR"):
    SPECTRAL[_n + ": sed_luminosity"] = (_n, lambda o, nu, w: o.sed_luminosity(nu))
for _n in ("synch ssa", "p synch", "ssc", "ec DT"):
    SPECTRAL[_n + ": diff_energy_flux"] = (_n, lambda o, nu, w: o.diff_energy_flux(nu))
SPECTRAL["synch: sed_flux_delta_approx"] = ("synch", lambda o, nu, w: o.sed_flux_delta_approx(nu))
SPECTRAL["synch: tau_ssa"] = (
    "synch",
    lambda o, nu, w: o.evaluate_tau_ssa(
        nu, w.blob.z, w.blob.d_L, w.blob.delta_D, w.blob.B, w.blob.R_b, w.blob.n_e, *w.blob.n_e.parameters, gamma=w.blob.gamma_e
    ),
)
for _n in ABSORBERS:
    SPECTRAL[_n + ": tau"] = (_n, lambda o, nu, w: o.tau(nu))
for _n in ("abs Disk", "abs BLR", "abs DT tilted", "abs blob"):
    SPECTRAL[_n + ": absorption"] = (_n, lambda o, nu, w: o.absorption(nu))
    SPECTRAL[_n + ": absorption_homogeneous"] = (_n, lambda o, nu, w: o.absorption_homogeneous(nu))
SPECTRAL["ebl: absorption"] = ("ebl", lambda o, nu, w: o.absorption(nu, 0.31))
SPECTRAL["bb Disk: sed_flux"] = ("bb Disk", lambda o, nu, w: o.sed_flux(nu, 0.31))
SPECTRAL["bb DT: sed_flux"] = ("bb DT", lambda o, nu, w: o.sed_flux(nu, 0.31))
SPECTRAL["bb Disk: norm"] = (
    "bb Disk",
    lambda o, nu, w: o.evaluate_multi_T_bb_norm_sed(nu, 0.31, o.L_disk, o.M_BH, o.m_dot, o.R_in, o.R_out, w.blob.d_L),
)
SPECTRAL["bb DT: norm"] = (
    "bb DT",
    lambda o, nu, w: o.evaluate_bb_norm_sed(nu, 0.31, o.xi_dt * o.L_disk, o.T_dt, o.R_dt, w.blob.d_L),
)
MAKERS = {}
MAKERS.update(PROCESSES)
MAKERS.update(ABSORBERS)
MAKERS.update(EBLS)
MAKERS.update(THERMAL)

# other queries: name -> (maker or None, fn(obj, world))
GAM = np.array([[3.3, 91.0], [2.7e3, 8.8e5]])
NUS = {k: np.array(v[1]) for k, v in MAKERS.items()}
OTHER = {
    "synch: loss": (PROCESSES["synch"][0], lambda o, w: o.electron_energy_loss_rate(GAM)),
    "ssc: loss": (PROCESSES["ssc"][0], lambda o, w: o.electron_energy_loss_rate(GAM)),
    "ssc: loss thomson": (PROCESSES["ssc"][0], lambda o, w: o.electron_energy_loss_rate_thomson(GAM)),
    "synch: peak": (PROCESSES["synch"][0], lambda o, w: (o.sed_peak_flux(w.q(NUS["synch"], "nu")), o.sed_peak_nu(w.q(NUS["synch"], "nu")))),
    "synch: integrals": (
        PROCESSES["synch"][0],
        lambda o, w: (
            o.flux_integral(w.q(1.3e14, "nu"), w.q(1e18, "nu"), 7),
            o.energy_flux_integral(w.q(1.3e14, "nu"), w.q(1e18, "nu"), 7),
        ),
    ),
    "u CMB": (None, lambda o, w: (w.t["CMB"].u(), w.t["CMB"].u(w.blob))),
    "n_e": (None, lambda o, w: (w.blob.n_e(GAM), w.blob.n_e.SSA_integrand(GAM), w.blob.n_e.integrate(20.0, 3e4, 1))),
    "N_e": (None, lambda o, w: (w.blob.N_e(GAM), w.blob.N_p(GAM))),
    "str": (None, lambda o, w: (str(w.blob), *[str(w.t[k]) for k in ("Disk", "BLR", "DT")])),
}
for _k in ("PS", "Disk", "BLR", "DT"):
    OTHER[f"u {_k}"] = (None, lambda o, w, k=_k: (w.t[k].u(w.r), w.t[k].u(w.r * np.array([0.3, 2.0, 7.0])), w.t[k].u(w.r, w.blob)))
BLOB_ATTRS = [
    "V_b", "t_var", "d_L", "z", "Beta", "mu_s", "theta_s", "B_cgs", "U_B", "n_e_tot", "N_e_tot", "n_p_tot", "N_p_tot",
    "u_e", "u_p", "W_e", "W_p", "u_ph_synch", "gamma_e", "gamma_p", "gamma_e_external_frame", "k_eq", "P_jet_ke", "P_jet_B",
]  # fmt: skip
OTHER["blob"] = (None, lambda o, w: tuple(getattr(w.blob, a) for a in BLOB_ATTRS))
DISK_ATTRS = ["l_Edd", "m_dot", "R_g", "R_in", "R_out", "R_in_tilde", "R_out_tilde"]
OTHER["disk"] = (
    None,
    lambda o, w: tuple(getattr(w.t["Disk"], a) for a in DISK_ATTRS)
    + (w.t["Disk"].T(w.t["Disk"].R_g * np.array([9.0, 44.0])), w.t["Disk"].epsilon(np.array([9.0, 44.0])), w.t["Disk"].phi_disk(np.array([9.0, 44.0]))),
)
OTHER["blr and dt"] = (None, lambda o, w: (w.t["BLR"].epsilon_line, w.t["DT"].epsilon_dt, w.t["DT"].R_dt, w.t["DT"].Theta))


def _sc(o, w):
    a = [getattr(o, n) for n in ("gamma_max_larmor", "gamma_max_ballistic", "gamma_max_synch", "gamma_max_SSC", "gamma_break_synch", "gamma_break_SSC")]
    return tuple(a) + (o.gamma_max_EC_DT(w.t["DT"], w.r), o.gamma_break_EC_DT(w.t["DT"], w.r))


OTHER["constraints"] = (lambda w: SpectralConstraints(w.blob), _sc)


def cgs(v):
    """list of (float array, unit string) of a result"""
    out = []
    for x in v if isinstance(v, tuple) else (v,):
        if isinstance(x, str):
            out.append((x, None))
        elif hasattr(x, "unit"):
            out.append((np.array(x.value, dtype=float), str(x.unit)))
        else:
            out.append((np.array(x, dtype=float), None))
    return out


class Live:
    """a scene with one computing object of each kind, built once"""

    def __init__(self, world, names=None):
        self.w = world
        self.obj = {}

    def get(self, name):
        if name not in self.obj:
            mk = MAKERS[name][0] if name in MAKERS else OTHER[name][0]
            self.obj[name] = None if mk is None else mk(self.w)
        return self.obj[name]

    def query(self, name, nu=None):
        """the result of a query, as list of (values, unit)"""
        self.w.asked = nu
        if name in SPECTRAL:
            m, fn = SPECTRAL[name]
            if nu is None:
                nu = self.w.q(np.array(MAKERS[m][1]), "nu")
            self.w.asked = nu
            return cgs(fn(self.get(m), nu, self.w))
        return cgs(OTHER[name][1](self.get(name), self.w))


ALL = list(SPECTRAL) + list(OTHER)
