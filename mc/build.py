"""builds the real agnpy objects from the reference descriptions (public API only)"""
import numpy as np
import astropy.units as u
from astropy.constants import m_e, m_p
from agnpy.spectra import (
    PowerLaw,
    BrokenPowerLaw,
    LogParabola,
    ExpCutoffPowerLaw,
    ExpCutoffBrokenPowerLaw,
    InterpolatedDistribution,
    EmptyDistribution,
)
from agnpy.utils.math import trapz_loglog
from scipy.interpolate import CubicSpline, PchipInterpolator, Akima1DInterpolator

CLS = dict(
    PowerLaw=PowerLaw,
    BrokenPowerLaw=BrokenPowerLaw,
    LogParabola=LogParabola,
    ExpCutoffPowerLaw=ExpCutoffPowerLaw,
    ExpCutoffBrokenPowerLaw=ExpCutoffBrokenPowerLaw,
)
MASS = {"e": m_e, "p": m_p}
RULE = {"trapz": np.trapz, "loglog": trapz_loglog}
INTERP = dict(cubic=CubicSpline, pchip=PchipInterpolator, akima=Akima1DInterpolator)


def dist(d, particle="e", rule="trapz"):
    if d["family"] == "Empty":
        return EmptyDistribution(d["gamma_min"], d["gamma_max"])
    if d["family"] == "Interp":
        return InterpolatedDistribution(
            np.array(d["gamma"], float),
            np.array(d["n"], float) * u.Unit("cm-3"),
            norm=d["norm"],
            mass=MASS[particle],
            integrator=RULE[rule],
            interpolator=INTERP[d.get("interpolator", "cubic")],
        )
    kw = {k: v for k, v in d.items() if k not in ("family",)}
    kw["k"] = d["k"] * u.Unit("cm-3")
    return CLS[d["family"]](**kw, mass=MASS[particle], integrator=RULE[rule])
