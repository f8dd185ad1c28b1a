"""the alphabet of emission regions: real Blob and reference Region kept in lockstep"""
import copy
import numpy as np
import astropy.units as u
from astropy.cosmology import FlatLambdaCDM
from . import ref, build
from agnpy.emission_regions import Blob

_g = np.exp(np.linspace(np.log(33.0), np.log(2.2e5), 12))
DISTS = {
    "pl": dict(family="PowerLaw", k=47.3, p=2.13, gamma_min=17.7, gamma_max=4.3e5),
    "pl_low": dict(family="PowerLaw", k=3.1e3, p=2.6, gamma_min=2, gamma_max=9e3),
    "bpl": dict(family="BrokenPowerLaw", k=2.9e-4, p1=1.83, p2=3.41, gamma_b=2.7e3, gamma_min=17.7, gamma_max=6.3e6),
    "lp": dict(family="LogParabola", k=3.3e-4, p=2.2, q=0.17, gamma_0=1.3e3, gamma_min=3.0, gamma_max=8e6),
    "ecpl": dict(family="ExpCutoffPowerLaw", k=71.0, p=2.05, gamma_c=2.9e4, gamma_min=41.0, gamma_max=1.1e6),
    "ecbpl": dict(family="ExpCutoffBrokenPowerLaw", k=1.9e-3, p1=2.0, p2=3.1, gamma_c=1.9e5, gamma_b=1.7e3, gamma_min=17.7, gamma_max=3e6),
    "interp": dict(family="Interp", gamma=list(_g), n=list(20 * _g**-2.0 * np.exp(-_g / 4e4)), norm=1.3, interpolator="cubic"),
    "empty": dict(family="Empty", gamma_min=5.0, gamma_max=2e5),
    "p_pl": dict(family="PowerLaw", k=0.93, p=2.31, gamma_min=1.7, gamma_max=3.3e7),
    "p_bpl": dict(family="BrokenPowerLaw", k=4.1e-6, p1=2.05, p2=3.1, gamma_b=1.1e4, gamma_min=5.0, gamma_max=2e9),
}
COSMO = {"default": None, "other": FlatLambdaCDM(H0=50, Om0=0.15)}

# base first
REGION = dict(
    n_e=["pl", "bpl", "lp", "ecpl", "ecbpl", "interp", "pl_low", "empty"],
    R_b=[2.3e16, 7.1e14, 3.9e17],
    z=[0.31, 0.069, 1.7],
    delta_D=[11.3, 3, 17.9],
    Gamma=[9.7, 25.3],
    B=[0.37, 1.3e-3, 47],
    n_p=[None, "p_pl", "p_bpl"],
    ne_size=[33, 20],
    np_size=[25, 18],
)

# limits of the ladders of scales
SCALES = {
    "R_b": (1e10, 1e22), "z": (1e-5, 12.0), "delta_D": (0.06, 19.3), "Gamma": (5.71, 3e3), "B": (1e-9, 1e8),
    "n_e.k": (1e-12, 1e12, DISTS["pl"]["k"]), "n_e.p": (0.3, 9.0, DISTS["pl"]["p"]),
    "n_e.gamma_min": (1.0, 4e5, DISTS["pl"]["gamma_min"]), "n_e.gamma_max": (18.0, 1e12, DISTS["pl"]["gamma_max"]),
}


def usual(cfg, dims):
    """no parameter is on a rung of its ladder"""
    return all(cfg[n] in v for n, v in dims.items()) and all(cfg.get(n, s[2]) == s[2] for n, s in SCALES.items() if len(s) == 3)


def region(cfg):
    kw = {k: cfg[k] for k in ("R_b", "z", "delta_D", "Gamma", "B", "ne_size", "np_size") if k in cfg}
    kw["n_e"] = copy.deepcopy(DISTS[cfg.get("n_e", "pl")])
    # parameters of the distribution, changed in place
    kw["n_e"].update({n[4:]: v for n, v in cfg.items() if n.startswith("n_e.")})
    if cfg.get("n_p"):
        kw["n_p"] = copy.deepcopy(DISTS[cfg["n_p"]])
    kw["xi"] = cfg.get("xi", 1.0)
    kw["cosmology"] = COSMO[cfg.get("cosmology", "default")]
    kw.setdefault("ne_size", 33)
    kw.setdefault("np_size", 25)
    for n in ("R_b", "z", "delta_D", "Gamma", "B"):
        kw.setdefault(n, REGION[n][0])
    return ref.Region(**kw)


def blob(r):
    """real object of a reference region"""
    return Blob(
        R_b=r.R_b * u.cm,
        z=r.z,
        delta_D=r.delta_D,
        Gamma=r.Gamma,
        B=r.B * u.G,
        n_e=build.dist(r.n_e, "e"),
        n_p=None if r.n_p is None else build.dist(r.n_p, "p"),
        xi=r.xi,
        gamma_e_size=r.ne_size,
        gamma_p_size=r.np_size,
        cosmology=r.cosmology,
    )


def set_blob(b, name, v):
    """mutate the live object"""
    if name == "R_b":
        b.R_b = v * u.cm
    elif name == "B":
        b.B = v * u.G
    elif name == "n_e":
        b.n_e = build.dist(copy.deepcopy(DISTS[v]), "e")
    elif name.startswith("n_e."):
        setattr(b.n_e, name[4:], v * u.Unit("cm-3") if name == "n_e.k" else v)
    elif name == "n_p":
        b.n_p = None if v is None else build.dist(copy.deepcopy(DISTS[v]), "p")
    elif name == "ne_size":
        b.gamma_e_size = v
    elif name == "np_size":
        b.gamma_p_size = v
    elif name in ("z", "delta_D", "Gamma", "xi"):
        setattr(b, name, v)
    else:
        raise KeyError(name)
