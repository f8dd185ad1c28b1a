"""Fit wrappers: C32 gammapy models, C33 sherpa models, C34 their parameters, C35 flux points."""
import copy
import os
import shutil
import tempfile
import numpy as np
import astropy.units as u
from mc import build, ref, targets as tg
from mc.core import plain

_g = np.exp(np.linspace(np.log(33.0), np.log(2.2e5), 12))
DISTS = {
    "bpl": dict(family="BrokenPowerLaw", k=2.9e-4, p1=1.83, p2=3.41, gamma_b=2.7e3, gamma_min=17.7, gamma_max=6.3e6),
    "pl": dict(family="PowerLaw", k=47.3, p=2.13, gamma_min=17.7, gamma_max=4.3e5),
    "lp": dict(family="LogParabola", k=3.3e-4, p=2.2, q=0.17, gamma_0=1.3e3, gamma_min=3.0, gamma_max=8e6),
    "ecpl": dict(family="ExpCutoffPowerLaw", k=71.0, p=2.05, gamma_c=2.9e4, gamma_min=41.0, gamma_max=1.1e6),
    "ecbpl": dict(family="ExpCutoffBrokenPowerLaw", k=1.9e-3, p1=2.0, p2=3.1, gamma_c=1.9e5, gamma_b=1.7e3, gamma_min=17.7, gamma_max=3e6),
    "interp": dict(family="Interp", gamma=list(_g), n=list(20 * _g**-2.0 * np.exp(-_g / 4e4)), norm=1.3, interpolator="cubic"),
}
# alternatives of the parameters of the distributions, as the models expose them
ALT = dict(
    log10_k=-1.71, log10_norm=-0.62, p=2.71, p1=2.43, p2=2.93, q=0.37, log10_gamma_b=3.71, log10_gamma_0=2.66,
    log10_gamma_c=4.83, log10_gamma_min=1.77, log10_gamma_max=5.21,
)  # fmt: skip
# name: (unit, base, alternatives)
REGION = dict(
    z=("", 0.31, [0.069, 1.7]), delta_D=("", 11.3, [3.2, 31.0]), log10_B=("", -0.43, [-2.3, 0.7]), t_var=("s", 6.6e4, [3.1e6, 1.7e3])
)
PLACE = dict(mu_s=("", 0.9973, [1.0, 0.31]), log10_r=("", 17.23, [18.6, 16.4]))
DISK = dict(
    log10_L_disk=("", 45.31, [46.7]), M_BH=("g", 2.4e42, [7.1e41]), m_dot=("g s-1", 2.9e25, [1.7e26]),
    R_in=("cm", 1.3e14, [7.1e14]), R_out=("cm", 3.3e16, [2.1e17]),
)  # fmt: skip
BLR = dict(xi_line=("", 0.024, [0.13]), lambda_line=("Angstrom", 1215.67, [4862.1]), R_line=("cm", 1.1e17, [3.4e17, 1.3e16]))
DT = dict(xi_dt=("", 0.13, [0.61]), T_dt=("K", 1.3e3, [710.0]), R_dt=("cm", 6.1e18, [2.3e17]))
# ladders of the parameters, within the limits of the models
_lin = lambda a, b, n: np.linspace(a, b, n).tolist()
SCALES = dict(
    log10_k=_lin(-9.3, 9.1, 9), log10_norm=_lin(-2.9, 2.9, 9), log10_gamma_min=_lin(0.0, 3.9, 9), log10_gamma_max=_lin(4.05, 8.0, 9), p=_lin(1.0, 5.0, 9),
    p1=_lin(1.0, 5.0, 9), p2=_lin(1.0, 5.0, 9), q=[0.001, 0.01, 0.05, 0.5, 1.0], log10_gamma_b=_lin(2.0, 6.0, 9), log10_gamma_c=_lin(2.0, 6.0, 9),
    log10_gamma_0=_lin(2.0, 6.0, 9), z=(1e-3, 10.0), delta_D=(1.0, 100.0), log10_B=_lin(-4.0, 2.0, 13), t_var=(10.0, 3.1e7), mu_s=_lin(0.003, 1.0, 9) + [0.99, 0.99999],
    log10_r=_lin(16.04, 21.9, 13), log10_L_disk=_lin(42.1, 47.9, 9), M_BH=(2e38, 9e44), m_dot=(1e24, 1e30), R_in=(1e12, 1e16), R_out=(8e14, 1e19),
    xi_line=(1e-5, 1.0), lambda_line=_lin(901.0, 6990.0, 7), R_line=(1e16, 9.9e17), xi_dt=(1e-5, 1.0), T_dt=(1e2, 1e4), R_dt=(1e17, 1e20), norm=(1e-9, 1e9),
)  # fmt: skip
FREE = {"delta_D", "log10_B", "t_var"}  # thawed by default, as the shape of the distribution
GRID_S = np.logspace(1, 9, 200)
GRID_EC = np.logspace(1, 9, 300)
EV = ref.H / 1.602176634e-12  # eV per Hz
SUN = None

# eV: self-absorbed, synchrotron, torus, disk, SSC, EC, cut off
ENERGIES = np.array([3.7e-5, 0.013, 0.43, 9.1, 3.3e4, 4.7e8, 6.1e10])
SHORT = ENERGIES[[1, 3, 5]]


def spectral(d):
    """names and values of the parameters exposed for a distribution"""
    lo, hi = ref.bounds(d)
    out = {}
    for n in ("k", "norm", "p", "p1", "p2", "q", "gamma_c", "gamma_b", "gamma_0"):
        if n in d:
            out[n if n[0] in "pq" else "log10_" + n] = d[n] if n[0] in "pq" else np.log10(d[n])
    out["log10_gamma_min"], out["log10_gamma_max"] = np.log10(lo), np.log10(hi)
    return out


def groups(d, targets):
    """{group: {parameter: (unit, value)}} of a model; targets None for SSC"""
    g = {"spectral": {n: ("", v) for n, v in spectral(d).items()}}
    g["region"] = {n: v[:2] for n, v in REGION.items()}
    if targets is not None:
        g["region"].update({n: v[:2] for n, v in PLACE.items()})
        t = dict(DISK)
        if "blr" in targets:
            t.update(BLR)
        if "dt" in targets:
            t.update(DT)
        g["targets"] = {n: v[:2] for n, v in t.items()}
    return g


def values(d, targets):
    return {n: v for g in groups(d, targets).values() for n, (_, v) in g.items()}


_MEMO = {}


def memo(key, fn):
    if key not in _MEMO:
        if len(_MEMO) > 4000:
            _MEMO.clear()
        _MEMO[key] = fn()
    return _MEMO[key]


def expected(d, targets, p, eV, ssa=False):
    """the SED in erg cm-2 s-1 of the parameters `p` at the energies, from the reference"""
    eV = np.asarray(eV, float)
    nu = eV.ravel() / EV
    e = dict(d)
    sp = spectral(d)
    for n in sp:
        v = p[n]
        if n == "log10_gamma_min":
            e["gamma_min"] = e["lo"] = 10**v
        elif n == "log10_gamma_max":
            e["gamma_max"] = e["hi"] = 10**v
        elif n.startswith("log10_"):
            e[n[6:]] = 10**v
        else:
            e[n] = v
    e_key = repr(sorted((k, v) for k, v in e.items() if k not in ("gamma", "n")))
    R = dict(
        R_b=ref.C * p["t_var"] * p["delta_D"] / (1 + p["z"]),
        z=p["z"], delta_D=p["delta_D"], B=10 ** p["log10_B"],
    )  # fmt: skip
    b = ref.Region(**R, n_e=e)
    b.ne_size = 200
    key = (e_key, repr(R), tuple(nu))
    sed = memo(key + ("s", ssa), lambda: ref.synch_sed(b, nu, ssa, gamma=GRID_S) + ref.ssc_sed(b, nu, ssa, gamma=GRID_S))
    if targets is not None:
        L = 10 ** p["log10_L_disk"]
        r = 10 ** p["log10_r"]
        rg = ref.G * p["M_BH"] / ref.C**2
        disk = dict(kind="Disk", M=p["M_BH"], L=L, eta=L / (p["m_dot"] * ref.C**2), Rin=p["R_in"] / rg, Rout=p["R_out"] / rg)
        dk = tuple(p[n] for n in DISK) + (p["z"], tuple(nu))
        sed = sed + memo(dk, lambda: tg.disk_norm_sed(disk, nu, b.z, b.d_L))
        if "blr" in targets:
            t = dict(kind="BLR", L=L, xi=1.0, line=p["lambda_line"], R=p["R_line"])
            k = key + (p["lambda_line"], p["R_line"], r, p["mu_s"])
            sed = sed + p["xi_line"] * L * memo(k, lambda: tg.ec_sed(b, dict(t, L=1.0), r, nu, gamma=GRID_EC, mu_s=p["mu_s"]))
        if "dt" in targets:
            t = dict(kind="DT", L=L, xi=p["xi_dt"], T=p["T_dt"], R=p["R_dt"])
            k = key + (p["T_dt"], p["R_dt"], r, p["mu_s"], p["xi_dt"], L)
            sed = sed + memo(k, lambda: tg.ec_sed(b, t, r, nu, gamma=GRID_EC, mu_s=p["mu_s"]))
            sed = sed + tg.dt_norm_sed(t, nu, b.z, b.d_L)
    return (p.get("norm", 1.0) * sed).reshape(eV.shape)


def wrapper(backend, d, targets, ssa, direct=False):
    from agnpy.fit import SynchrotronSelfComptonModel, ExternalComptonModel
    from agnpy.fit import gammapy_wrapper as gw, sherpa_wrapper as sw

    n = build.dist(copy.deepcopy(d))
    if direct:
        m = gw if backend == "gammapy" else sw
        kind = "SpectralModel" if backend == "gammapy" else "RegriddableModel1D"
        if targets is None:
            return getattr(m, "SynchrotronSelfCompton" + kind)(n, ssa)
        return getattr(m, "ExternalCompton" + kind)(n, targets, ssa)
    if targets is None:
        return SynchrotronSelfComptonModel(n, ssa=ssa, backend=backend)
    return ExternalComptonModel(n, targets, ssa=ssa, backend=backend)


def put(m, backend, name, v):
    if backend == "gammapy":
        m.parameters[name].value = v
    else:
        setattr(m, name, v)


def get(m, backend, name):
    return m.parameters[name].value if backend == "gammapy" else getattr(m, name).val


def start(backend, d, targets, ssa, direct=False):
    """model with all the parameters at their base values"""
    m = wrapper(backend, d, targets, ssa, direct)
    for n, v in values(d, targets).items():
        if n not in spectral(d):
            put(m, backend, n, v)
    return m


def compare(ctx, m, backend, d, targets, p, ssa, eV=ENERGIES, rtol=1e-7):
    want = expected(d, targets, p, eV, ssa)
    if backend == "gammapy":
        got = m(np.asarray(eV) * u.eV)
        ctx.true(got.unit.is_equivalent("cm-2 s-1 eV-1"), f"flux in {got.unit}")
        got = (got * (np.asarray(eV) * u.eV) ** 2).to("erg cm-2 s-1")
    else:
        got = m(np.array(eV))
    # below 1e-60 of the maximum nothing but exponential tails
    ctx.close("SED", got, want, rtol, atol=1e-60 * np.max(want), unit="erg cm-2 s-1")


def dims_of(d, targets, backend, short=False):
    dims = {}
    for n, v in spectral(d).items():
        dims[n] = [v, ALT[n]]
        if d["family"] == "Interp" and n == "log10_gamma_max":
            dims[n] = [v, 4.77]
    groups_ = [REGION] + ([] if targets is None else [PLACE, DISK] + ([BLR] if "blr" in targets else []) + ([DT] if "dt" in targets else []))
    for g in groups_:
        for n, (_, b, alt) in g.items():
            dims[n] = [b] + (alt[:1] if short else alt)
    if backend == "gammapy":
        dims["norm"] = [1.0, 2.3]
    return dims


def kinds(ctx):
    """(distribution, targets, ssa) and deviations explored"""
    q = ctx.quick
    out = []
    for d in DISTS:
        out.append((d, None, d != "interp", 1 if q else 2))
    out.append(("bpl", None, False, 1 if q else 2))
    for t in (["blr"], ["dt"], ["blr", "dt"]):
        out.append(("bpl", t, False, 1))
    out.append(("interp", ["dt"], True, 1))
    if not q:
        for d in ("pl", "lp", "ecpl", "ecbpl"):
            out.append((d, ["blr", "dt"], True, 1))
        out.append(("pl", ["dt"], False, 2))
    return out


def wrappers(ctx, backend):
    def job(dn, targets, ssa, k, half=None):
        def run(c):
            d = DISTS[dn]
            dims = dims_of(d, targets, backend, short=c.quick and targets is not None)

            def make(cfg):
                m = start(backend, d, targets, ssa, direct=ssa)
                for n, v in cfg.items():
                    if v != dims[n][0]:
                        put(m, backend, n, v)
                return m

            def st(m, n, v, cfg):
                put(m, backend, n, v)

            eV = ENERGIES if not (c.quick and targets == ["blr", "dt"]) else SHORT
            # quick: spectra and region are scaled in SSC models only
            scales = SCALES if targets in (None, ["blr", "dt"]) else None
            if c.quick and dn not in ("bpl", "lp"):
                scales = None
            elif c.quick and targets:
                scales = {n: v for n, v in SCALES.items() if n not in spectral(d) and n not in REGION}
            names = list(dims)
            first = None if half is None else set(names[half::4])
            c.walk(
                f"{backend} {dn} {'SSC' if targets is None else '+'.join(targets)} ssa={ssa}", dims, k,
                make, st, lambda m, cfg: compare(c, m, backend, d, targets, cfg, ssa, eV, 3e-6 if ssa else 1e-7), only_first=first,
                scales=scales,
            )  # fmt: skip

        return run

    def shapes(c):
        for dn, t in (("bpl", None), ("pl", ["dt"])):
            d = DISTS[dn]
            m = start(backend, d, t, False)
            p = values(d, t)
            base = expected(d, t, p, ENERGIES)
            arr = ENERGIES

            def case(cfg):
                x = {
                    "all": arr, "reversed": arr[::-1], "shuffled": arr[[2, 0, 5, 1]], "two": arr[:2], "one": arr[3:4], "scalar": arr[3],
                    "matrix": arr[:6].reshape(2, 3), "column": arr[:6].reshape(6, 1), "cube": arr[:6].reshape(1, 3, 2), "repeated": arr[[1, 1, 4]],
                    "strided": np.repeat(arr, 2)[::2], "fortran": np.asfortranarray(arr[:6].reshape(2, 3)),
                }[cfg["shape"]]  # fmt: skip
                want = base[[int(np.flatnonzero(arr == v)[0]) for v in np.ravel(x)]].reshape(np.shape(x))
                if backend == "gammapy":
                    e = (x * u.eV).to(cfg["unit"])
                    before = e.copy()
                    got = m(e)
                    c.true(np.array_equal(e.value, before.value) and e.unit == before.unit, "the energies passed changed")
                    c.close("flux", (got * (x * u.eV) ** 2).to("erg cm-2 s-1"), want, 1e-7)
                else:
                    before = np.array(x)
                    y = x if cfg["unit"] == "eV" else np.asarray(x).tolist()
                    got = m(y)
                    if cfg["unit"] == "eV":
                        c.true(not hasattr(y, "unit") and np.array_equal(np.asarray(y), before), "the energies passed changed")
                    c.close("SED", got, want, 1e-7, unit="erg cm-2 s-1")

            units = ["eV", "TeV", "erg"] if backend == "gammapy" else ["eV", "list"]
            c.product(
                f"energies {dn}",
                dict(shape=["all", "reversed", "shuffled", "two", "one", "scalar", "matrix", "column", "cube", "repeated", "strided", "fortran"], unit=units),
                case,
                flt=lambda cfg: not (cfg["unit"] == "list" and cfg["shape"] in ("strided", "fortran")),
            )

    return job, shapes


# ------------------------------------------------------------------------------- C32
def c32(ctx):
    backend = "gammapy"
    job, shapes = wrappers(ctx, backend)

    def used(c):
        """the models as gammapy uses them"""
        from gammapy.modeling.models import SkyModel, PowerLawSpectralModel
        from gammapy.estimators import FluxPoints
        from gammapy.datasets import FluxPointsDataset
        from astropy.table import Table

        def case(cfg):
            d, t = DISTS[cfg["dist"]], cfg["targets"]
            m = start(backend, d, t, False)
            p = values(d, t)
            for n, v in cfg["changes"]:
                put(m, backend, n, v)
                p[n] = v
            w = expected(d, t, p, ENERGIES)
            flux = w / ENERGIES**2
            how = cfg["how"]
            e = ENERGIES * u.eV
            unit = "erg cm-2 s-1 eV-2"
            if how == "sky model":
                c.close(how, SkyModel(spectral_model=m).spectral_model(e), flux, 1e-7, unit=unit)
            elif how == "sum":
                pl = PowerLawSpectralModel(index=2.3, amplitude="1e-20 cm-2 s-1 eV-1", reference="1 MeV")
                s = (m + pl)(e).to_value(unit)
                c.close(how, s, flux + pl(e).to_value(unit), 1e-7)
            elif how == "dataset":
                table = Table(
                    dict(e_ref=ENERGIES * u.eV, e2dnde=w * 1.1 * u.Unit("erg cm-2 s-1"), e2dnde_errn=0.1 * w * u.Unit("erg cm-2 s-1"), e2dnde_errp=0.1 * w * u.Unit("erg cm-2 s-1"))
                )
                fp = FluxPoints.from_table(table, sed_type="e2dnde", format="gadf-sed", reference_model=PowerLawSpectralModel(index=2))
                ds = FluxPointsDataset(data=fp, name="x", models=SkyModel(spectral_model=m, name="y"))
                c.close(how, np.squeeze(ds.flux_pred()), flux, 1e-7, unit=unit)
                c.close("statistic", ds.stat_sum(), float(len(ENERGIES)), 1e-5)
            elif how == "integral":
                a, b = 0.02, 0.05
                n = int(100 * np.log10(b / a))
                x = np.geomspace(a, b, n)
                fx = expected(d, t, p, x) / x**2 / 1.602176634e-12
                want = ref.loglog(fx, x)
                c.close(how, m.integral(a * u.eV, b * u.eV), want, 1e-6, unit="cm-2 s-1")
                both = m.integral([a, 0.1] * u.eV, [b, 0.25] * u.eV)
                c.close("integrals of arrays", both[0], want, 1e-6, unit="cm-2 s-1")
                ef = m.energy_flux(a * u.eV, b * u.eV)
                c.close("energy flux", ef, ref.loglog(fx * x, x) * 1.602176634e-12, 1e-6, unit="erg cm-2 s-1")
            elif how == "frozen":
                for par in m.parameters:
                    par.frozen = not par.frozen
                c.close(how, m(e), flux, 1e-7, unit=unit)
            elif how == "quantity":
                m.parameters["t_var"].quantity = p["t_var"] / 3600 * u.h
                c.close(how, m(e), flux, 1e-7, unit=unit)
            elif how == "linked":
                o = start(backend, d, t, False)
                o.parameters["delta_D"].value = 3.2
                m.delta_D = o.delta_D
                q = dict(p, delta_D=3.2)
                c.close(how, m(e), expected(d, t, q, ENERGIES) / ENERGIES**2, 1e-7, unit=unit)
                o.parameters["delta_D"].value = 17.1
                q = dict(p, delta_D=17.1)
                c.close(how, m(e), expected(d, t, q, ENERGIES) / ENERGIES**2, 1e-7, unit=unit)

        dims = dict(
            how=["sky model", "sum", "dataset", "integral", "frozen", "quantity", "linked"],
            dist=["bpl", "ecpl"],
            targets=[None, ["dt"]],
            changes=[(), (("log10_B", -2.3), ("norm", 2.3))],
        )
        c.product("models in gammapy", dims, case)

    jobs = []
    for dn, t, ssa, k in kinds(ctx):
        if t == ["blr", "dt"] or t == ["blr"] or k == 2:
            jobs += [job(dn, t, ssa, k, i) for i in range(4)]
        else:
            jobs.append(job(dn, t, ssa, k))
    jobs.sort(key=lambda j: 0)
    ctx.parallel([used, shapes] + jobs[::-1])


c32.bounds = (
    "6 families of distributions x {SSC, EC on BLR, DT, both} x self-absorption: parameters within 1 (thorough: 2 for SSC and EC on DT) deviations, "
    "values of every parameter of the model (norm included) changed on the live model; 12 shapes of energies x 3 units; "
    "7 uses by gammapy (sky model, sum, flux-point dataset, integrals, frozen, quantities, linked parameters)"
)
c32.assumptions = ["the default cosmology is used by the models", "the integration grids of the models are those of the static evaluations (10 to 1e9, 200 and 300 points)"]


# ------------------------------------------------------------------------------- C33
def c33(ctx):
    backend = "sherpa"
    job, shapes = wrappers(ctx, backend)
    LISTS = {
        "blr": (["blr"], ("blr",), ["blr", "blr"], {"blr"}),
        "dt": (["dt"], ("dt",), ["dt", "dt", "dt"], {"dt"}),
        "blr+dt": (["blr", "dt"], ["dt", "blr"], ("dt", "blr"), ["dt", "blr", "dt"], {"blr", "dt"}, np.array(["dt", "blr"])),
    }

    def lists(c):
        def order(cfg):
            d = DISTS["pl"]
            ts = cfg["targets"].split("+")
            p = values(d, ts)
            for i, l in enumerate(LISTS[cfg["targets"]]):
                m = start(cfg["backend"], d, copy.copy(l), False)
                compare(c, m, cfg["backend"], d, ts, p, False, SHORT)

        c.product("orders of the targets", dict(targets=list(LISTS), backend=["sherpa", "gammapy"]), order)

        def refused(cfg):
            def go():
                m = start(cfg["backend"], DISTS["pl"], cfg["targets"], False) if False else wrapper(cfg["backend"], DISTS["pl"], cfg["targets"], False)
                if cfg["backend"] == "sherpa":
                    m(SHORT)
                else:
                    m(SHORT * u.eV)

            c.raises(f"targets {cfg['targets']}", ValueError, go)

        bad = [["disk"], ["cmb"], ["blr", "disk"], ["disk", "dt"], ["BLR"], ["torus"], ["blr", "dt", "corona"], [""]]
        c.product("unsupported targets", dict(targets=bad, backend=["sherpa", "gammapy"]), refused)

        def backend_(cfg):
            c.raises("backend", ValueError, lambda: wrapper(cfg["backend"], DISTS["pl"], cfg["targets"], False))

        c.product("unsupported backends", dict(backend=["Sherpa", "naima", "", None], targets=[None, ["blr"]]), backend_)

    def both(c):
        """the same as the gammapy model, through histories of changes"""

        def run(cfg):
            d, t, ssa = DISTS[cfg["dist"]], cfg["targets"], cfg["ssa"]
            s, g = start("sherpa", d, t, ssa), start("gammapy", d, t, ssa)
            for n, v in cfg["changes"]:
                put(s, "sherpa", n, v)
                put(g, "gammapy", n, v)
                x = ENERGIES.copy()
                a = s(x)
                e = ENERGIES * u.eV
                b = g(e) * e**2
                c.close("sherpa against gammapy", a.to_value("erg cm-2 s-1"), b.to_value("erg cm-2 s-1"), 1e-9, atol=1e-60 * a.value.max())

        ch = [(("delta_D", 23.1), ("log10_gamma_min", 2.03)), (("z", 0.7), ("t_var", 1.9e5), ("z", 0.2))]
        c.product("both backends", dict(dist=list(DISTS), targets=[None, ["dt"]], ssa=[False, True], changes=ch), run)

        def thawed(cfg):
            """through sherpa's own ways of setting parameters"""
            d, t = DISTS["bpl"], cfg["targets"]
            m = start("sherpa", d, t, False)
            p = values(d, t)
            how = cfg["how"]
            if how == "thawed":
                free = [q.name for q in m.pars if not q.frozen]
                new = {n: {"log10_B": -1.31, "delta_D": 7.7, "t_var": 2.3e5}.get(n, ALT.get(n)) for n in free}
                m.thawedpars = [new[n] for n in free]
                p.update(new)
            elif how == "freeze":
                m.freeze()
                m.delta_D.thaw()
                m.thawedpars = [7.7]
                p["delta_D"] = 7.7
            elif how == "val":
                for q in m.pars:
                    if q.name == "log10_B":
                        q.val = -1.31
                p["log10_B"] = -1.31
            elif how == "link":
                o = start("sherpa", d, t, False)
                m.delta_D = o.delta_D
                o.delta_D = 7.7
                p["delta_D"] = 7.7
            elif how == "calc":
                got = m.calc([p[q.name] for q in m.pars], ENERGIES.copy())
                c.close("calc", got, expected(d, t, p, ENERGIES), 1e-7, unit="erg cm-2 s-1")
                alt = dict(p, z=0.7)
                got = m.calc(np.array([alt[q.name] for q in m.pars]), ENERGIES.copy())
                c.close("calc with other parameters", got, expected(d, t, alt, ENERGIES), 1e-7, unit="erg cm-2 s-1")
            elif how == "data":
                from sherpa.data import Data1D

                got = Data1D("d", ENERGIES.copy(), np.ones_like(ENERGIES)).eval_model(m)
                c.close("model of a data set", got, expected(d, t, p, ENERGIES), 1e-7, unit="erg cm-2 s-1")
            elif how == "reset":
                put(m, "sherpa", "delta_D", 7.7)
                m(ENERGIES.copy())
                m.reset()
                p = {q.name: q.val for q in m.pars}
            compare(c, m, "sherpa", d, t, p, False)

        c.product("sherpa's setters", dict(how=["thawed", "freeze", "val", "link", "calc", "data", "reset"], targets=[None, ["blr"], ["dt"], ["blr", "dt"]]), thawed)

    jobs = []
    for dn, t, ssa, k in kinds(ctx):
        if t == ["blr", "dt"] or t == ["blr"] or k == 2:
            jobs += [job(dn, t, ssa, k, i) for i in range(4)]
        else:
            jobs.append(job(dn, t, ssa, k))
    ctx.parallel([both, lists, shapes] + jobs[::-1])


c33.bounds = (
    "6 families x {SSC, EC on BLR, DT, both} x self-absorption: parameters within 1 (thorough: 2 for SSC and EC on DT) deviations of the live model; 12 shapes of "
    "energies, arrays and lists; 13 lists of targets (orders, repetitions, tuples, sets) x 2 backends, 8 unsupported lists x 2, 4 unsupported backends; agreement with gammapy "
    "through 2 histories x 6 families x {SSC, EC} x self-absorption; 7 ways of setting parameters in sherpa x 4 models"
)
c33.assumptions = c32.assumptions


# ------------------------------------------------------------------------------- C34
# regions and targets the parameters are set from
BLOBS = {
    "A": dict(R_b=1.7e16, z=0.42, delta_D=17.3, Gamma=13.1, B=0.29, r=3.7e17),
    "B": dict(R_b=4.4e15, z=0.013, delta_D=3.9, Gamma=26.0, B=3.1e-3, r=2.2e18),
}
TARGETS = {
    "X": dict(
        Disk=dict(kind="Disk", M=3.1e42, L=2.3e46, eta=0.083, Rin=6.3, Rout=313.0),
        BLR=dict(kind="BLR", L=2.3e46, xi=0.031, line="Hbeta", R=1.9e17),
        DT=dict(kind="DT", L=2.3e46, xi=0.27, T=870.0, R=4.1e18),
    ),
    "Y": dict(
        Disk=dict(kind="Disk", M=9.7e41, L=1.1e45, eta=0.31, Rin=14.0, Rout=191.0),
        BLR=dict(kind="BLR", L=3.7e45, xi=0.11, line="CIV", R=6.1e16),
        DT=dict(kind="DT", L=7.7e45, xi=0.53, T=1430.0, R=None),
    ),
}


def real_blob(name):
    from agnpy.emission_regions import Blob

    b = dict(BLOBS[name])
    r = b.pop("r")
    return Blob(R_b=b.pop("R_b") * u.cm, B=b.pop("B") * u.G, n_e=build.dist(copy.deepcopy(DISTS["pl"])), **b), r * u.cm


def blob_values(name, ec):
    b = BLOBS[name]
    beta = np.sqrt(1 - 1 / b["Gamma"] ** 2)
    v = dict(z=b["z"], delta_D=b["delta_D"], log10_B=np.log10(b["B"]), t_var=(1 + b["z"]) * b["R_b"] / (ref.C * b["delta_D"]))
    if ec:
        v.update(mu_s=(1 - 1 / (b["Gamma"] * b["delta_D"])) / beta, log10_r=np.log10(b["r"]))
    return v


def target_values(name, targets):
    t = TARGETS[name]
    d = tg.Disk(t["Disk"])
    v = dict(log10_L_disk=np.log10(d.L), M_BH=d.M, m_dot=d.m_dot, R_in=d.a * d.R_g, R_out=d.b * d.R_g)
    if "blr" in targets:
        v.update(xi_line=t["BLR"]["xi"], lambda_line=tg.LINES[t["BLR"]["line"]], R_line=t["BLR"]["R"])
    if "dt" in targets:
        v.update(xi_dt=t["DT"]["xi"], T_dt=t["DT"]["T"], R_dt=tg.R_dt(t["DT"]))
    return v


def real_targets(name, targets):
    t = TARGETS[name]
    kw = dict(disk=tg.make(t["Disk"]))
    if "blr" in targets:
        kw["blr"] = tg.make(t["BLR"])
    if "dt" in targets:
        kw["dt"] = tg.make(t["DT"])
    return kw


def frozen(name):
    return not (name in FREE or name in ("log10_k", "log10_norm", "log10_gamma_b", "log10_gamma_0", "log10_gamma_c", "p", "p1", "p2", "q"))


def check_parameters(c, m, backend, d, targets, p, defaults=False):
    pars = list(m.parameters if backend == "gammapy" else m.pars)
    names = [q.name for q in pars]
    want = {n: un for g in groups(d, targets).values() for n, (un, _) in g.items()}
    c.equal("parameters", sorted(n for n in names if n != "norm"), sorted(want))
    c.equal("norm", "norm" in names, backend == "gammapy")
    for q in pars:
        v = q.value if backend == "gammapy" else q.val
        c.close(q.name, v, p.get(q.name, 1.0), 1e-11, atol=1e-12)
        c.close(q.name + " by its name", get(m, backend, q.name), p.get(q.name, 1.0), 1e-11, atol=1e-12)
        c.true(q.min <= v <= q.max, f"{q.name}={v} outside its limits {q.min} {q.max}")
        unit = str(q.unit if backend == "gammapy" else q.units)
        c.true(u.Unit(unit) == u.Unit(want.get(q.name, "")), f"{q.name} in {unit}")
        if defaults:
            c.equal(q.name + " frozen", bool(q.frozen), True if q.name == "norm" else frozen(q.name))
    if backend == "gammapy":
        for g, pl in groups(d, targets).items():
            sel = {"spectral": "spectral", "region": "emission_region", "targets": "targets"}[g]
            l = getattr(m, sel + "_parameters")
            c.equal(f"{sel} parameters", sorted(l.names), sorted(pl))
            for n in l.names:
                c.close(f"{n} of the {sel} parameters", l[n].value, p[n], 1e-11, atol=1e-12)


def c34(ctx):
    def job(backend, dn, targets, depth, first=None):
        d = DISTS[dn]
        ec = targets is not None
        ops = [("blob", "A"), ("blob", "B"), ("delta_D", 23.1), (next(iter(spectral(d))), ALT[next(iter(spectral(d)))]), ("copy",), ("other",), ("sed",)]
        if ec:
            ops += [("targets", "X"), ("targets", "Y"), ("disk", "X"), ("log10_r", 18.6), ("R_out", 2.1e17)]
            ops += [("T_dt", 710.0)] if "dt" in targets else [("R_line", 3.4e17)]
        if backend == "gammapy":
            ops += [("norm", 2.3)]

        def run(c):
            def make():
                m = start(backend, d, targets, False)
                return dict(m=m, old=[]), dict(values(d, targets))

            def step(s, p, op):
                m = s["m"]
                if op[0] == "blob":
                    b, r = real_blob(op[1])
                    m.set_emission_region_parameters_from_blob(*((b, r) if ec else (b,)))
                    p.update(blob_values(op[1], ec))
                elif op[0] == "targets":
                    m.set_targets_parameters_from_targets(**real_targets(op[1], targets))
                    p.update(target_values(op[1], targets))
                elif op[0] == "disk":
                    m.set_targets_parameters_from_targets(real_targets(op[1], [])["disk"])
                    p.update(target_values(op[1], []))
                elif op[0] == "copy":
                    s["old"].append((m, dict(p)))
                    s["m"] = m.copy() if backend == "gammapy" else copy.deepcopy(m)
                elif op[0] == "other":
                    # another model with the same distribution, changed
                    o = wrapper(backend, d, targets, False)
                    o._n_e = m._n_e if hasattr(m, "_n_e") else None
                    put(o, backend, "delta_D", 29.9)
                    put(o, backend, next(iter(spectral(d))), 2.91)
                elif op[0] == "sed":
                    compare(c, m, backend, d, targets, p, False, SHORT)
                else:
                    put(m, backend, *op)
                    p[op[0]] = op[1]

            def check(s, p):
                check_parameters(c, s["m"], backend, d, targets, p)
                for o, q in s["old"]:
                    check_parameters(c, o, backend, d, targets, q)

            c.sequences(f"{backend} {dn} {'SSC' if targets is None else '+'.join(targets)}", make, ops, step, depth, first=first, check=check)

        return run, ops

    SYSTEMS = dict(
        cgs=dict(l="cm", B="G", L="erg s-1", M="g", T="K"),
        si=dict(l="m", B="T", L="W", M="kg", T="K"),
        astro=dict(l="pc", B="mG", L="L_sun", M="M_sun", T="kK"),
        other=dict(l="lyr", B="uT", L="GeV / yr", M="t", T="MK"),
    )

    def units(c):
        """objects given in any unit"""
        from agnpy.emission_regions import Blob
        from agnpy.targets import SSDisk, SphericalShellBLR, RingDustTorus

        def case(cfg):
            backend, targets, d = cfg["backend"], ["blr", "dt"], DISTS["bpl"]
            b = dict(BLOBS[cfg["blob"]])
            t = TARGETS["X" if cfg["blob"] == "A" else "Y"]
            # one dimension, or all, in another system
            q = lambda v, cgs, dim, which: (v * u.Unit(cgs)).to(SYSTEMS[cfg["system"] if cfg["which"] in ("all", which) else "cgs"][dim])
            r = q(b.pop("r"), "cm", "l", "r")
            blob = Blob(R_b=q(b.pop("R_b"), "cm", "l", "R_b"), B=q(b.pop("B"), "G", "B", "B"), n_e=build.dist(copy.deepcopy(DISTS["pl"])), **b)
            rg = tg.G * t["Disk"]["M"] / tg.C**2
            objs = dict(
                disk=SSDisk(q(t["Disk"]["M"], "g", "M", "M"), q(t["Disk"]["L"], "erg s-1", "L", "L"), t["Disk"]["eta"], q(t["Disk"]["Rin"] * rg, "cm", "l", "R_disk"), q(t["Disk"]["Rout"] * rg, "cm", "l", "R_disk")),
                blr=SphericalShellBLR(q(t["BLR"]["L"], "erg s-1", "L", "L"), t["BLR"]["xi"], t["BLR"]["line"], q(t["BLR"]["R"], "cm", "l", "R_line")),
                dt=RingDustTorus(q(t["DT"]["L"], "erg s-1", "L", "L"), t["DT"]["xi"], q(t["DT"]["T"], "K", "T", "T"), q(tg.R_dt(t["DT"]), "cm", "l", "R_dt")),
            )
            m = wrapper(backend, d, targets, False)
            p = values(d, targets)
            p.update(blob_values(cfg["blob"], True))
            p.update(target_values("X" if cfg["blob"] == "A" else "Y", targets))
            if cfg["after"] == "targets":
                m.set_targets_parameters_from_targets(**objs)
                m.set_emission_region_parameters_from_blob(blob, r)
            else:
                m.set_emission_region_parameters_from_blob(blob, r)
                m.set_targets_parameters_from_targets(**objs)
            check_parameters(c, m, backend, d, targets, p)
            ssc = wrapper(backend, d, None, False)
            ssc.set_emission_region_parameters_from_blob(blob)
            p = values(d, None)
            p.update(blob_values(cfg["blob"], False))
            check_parameters(c, ssc, backend, d, None, p)

        c.product("units of the objects", dict(backend=["gammapy", "sherpa"], system=["si", "astro", "other"], which=["all", "r", "R_b", "B", "M", "L", "R_disk", "R_line", "T", "R_dt"], blob=["A", "B"], after=["targets", "region"]), case)

    def built(c):
        """parameters as built, and the SED of the objects they are set from"""

        def case(cfg):
            backend, targets = cfg["backend"], cfg["targets"]
            d = DISTS[cfg["dist"]]
            m = wrapper(backend, d, targets, False, direct=cfg["direct"])
            p = {n: get(m, backend, n) for n in values(d, targets)}
            p.update(spectral(d))
            check_parameters(c, m, backend, d, targets, p, True)

        dims = dict(dist=list(DISTS), targets=[None, ["blr"], ["dt"], ["blr", "dt"]], backend=["gammapy", "sherpa"], direct=[False, True])
        c.product("parameters of new models", dims, case)

        def objects(cfg):
            from agnpy.synchrotron import Synchrotron
            from agnpy.compton import SynchrotronSelfCompton, ExternalCompton

            backend, targets = cfg["backend"], cfg["targets"]
            # bounds on points of the grid of the models
            d = dict(DISTS[cfg["dist"]], gamma_min=GRID_S[0], gamma_max=GRID_S[174])
            b, r = real_blob(cfg["blob"])
            b.n_e = build.dist(d)
            m = wrapper(backend, d, targets, False)
            if targets is None:
                m.set_emission_region_parameters_from_blob(b)
            else:
                m.set_emission_region_parameters_from_blob(b, r)
                m.set_targets_parameters_from_targets(**real_targets(cfg["from"], targets))
            e = ENERGIES * u.eV
            nu = e.to("Hz", u.spectral())
            b.gamma_e_size = 175
            sed = Synchrotron(b).sed_flux(nu) + SynchrotronSelfCompton(b).sed_flux(nu)
            if targets is not None:
                b.gamma_e_size = 300
                t = real_targets(cfg["from"], targets)
                L = t["disk"].L_disk
                sed = sed + t["disk"].sed_flux(nu, b.z)
                for n in targets:
                    # the disk that the BLR and the torus reprocess is the one of the model
                    t[n].L_disk = L
                    sed = sed + ExternalCompton(b, t[n], r).sed_flux(nu)
                if "dt" in targets:
                    T = dict(TARGETS[cfg["from"]]["DT"], L=L.value, R=t["dt"].R_dt.value)
                    sed = sed + tg.dt_norm_sed(T, nu.value, b.z, b.d_L.to_value("cm")) * sed.unit
            got = (m(e) * e**2).to(sed.unit) if backend == "gammapy" else m(ENERGIES.copy())
            c.close("SED of the objects", got, sed.value, 1e-6, atol=1e-60 * sed.value.max(), unit=sed.unit)

        dims = dict(
            dist=["ecpl", "ecbpl"], blob=["A", "B"], targets=[None, ["blr"], ["dt"], ["blr", "dt"]], backend=["gammapy", "sherpa"],
        )  # fmt: skip
        dims["from"] = ["X", "Y"]
        c.product("SED of the objects", dims, objects, flt=lambda cfg: (cfg["targets"] is not None or cfg["from"] == "X") and (cfg["blob"] == "A") == (cfg["from"] == "X") if ctx.quick else True)

    jobs = [built, units]
    for backend in ("gammapy", "sherpa"):
        for dn, t in (("bpl", None), ("interp", None), ("lp", ["blr"]), ("ecbpl", ["dt"]), ("pl", ["blr", "dt"])):
            depth = (3 if t in (None, ["dt"]) else 2) + (0 if ctx.quick else 1 if t in (None, ["blr"]) else 0)
            run, ops = job(backend, dn, t, depth)
            if depth == 2:
                jobs.append(run)
            else:
                jobs += [job(backend, dn, t, depth, ops[i::3])[0] for i in range(3)]
    ctx.parallel(jobs)


c34.bounds = (
    "parameters of new models: 6 families x 4 lists of targets x 2 backends x 2 constructors; sequences of 3 operations (thorough 4 for SSC) among 8-14 (region set from 2 blobs, "
    "targets from 2 sets of objects, disk alone, single parameters, copy, another model of the same distribution, evaluation) for 5 models x 2 backends; "
    "regions and targets in 3 other systems of units (all dimensions, and each of 9) x 2 backends x 2 sets x 2 orders; "
    "SED of the objects: 4 families x 2 regions x 2 sets of targets x 4 models x 2 backends"
)
c34.assumptions = ["the SED of the objects is compared where the grid of Lorentz factors of these coincides with the one of the models, for distributions with an exponential cut-off"]


# ------------------------------------------------------------------------------- C35
SYNTH = {
    # instrument: (energies in eV, SED, lower and upper errors)
    "Radio": ([2.3e-5, 7.7e-5, 4.1e-4], [1.3e-14, 3.7e-14, 8.8e-14], [2e-15, 1e-15, 9e-15], [4e-15, 1e-15, 2.2e-14]),
    "Opt/R": ([1.93], [2.9e-11], [3e-13], [9e-13]),
    "X-ray(2)": ([611.0, 1703.0, 5210.0, 9333.0], [4.2e-12, 5.1e-12, 6.3e-12, 5.5e-12], [7e-13, 8e-13, 4e-13, 1.1e-12], [7e-13, 5e-13, 2e-12, 1.3e-12]),
    "LAT": ([3.1e8, 2.9e9], [6.9e-11, 2.2e-11], [1.1e-11, 9e-12], [1.4e-11, 2.3e-11]),
}


def write_synth(path):
    """the four instruments interleaved, sorted in energy as in the delivered files"""
    rows = sorted((e, y, n, p, i) for i, cols in SYNTH.items() for e, y, n, p in zip(*cols))
    with open(path, "w") as f:
        f.write(
            "# %ECSV 1.0\n# ---\n# datatype:\n# - {name: e_ref, unit: eV, datatype: float64}\n"
            "# - {name: e2dnde, unit: erg / (cm2 s), datatype: float64}\n# - {name: e2dnde_errn, unit: erg / (cm2 s), datatype: float64}\n"
            "# - {name: e2dnde_errp, unit: erg / (cm2 s), datatype: float64}\n# - {name: instrument, datatype: string}\n"
            "# meta: !!omap\n# - {SED_TYPE: e2dnde}\n# schema: astropy-2.0\ne_ref e2dnde e2dnde_errn e2dnde_errp instrument\n"
        )
        for e, y, n, p, i in rows:
            f.write(f"{e!r} {y!r} {n!r} {p!r} {i}\n")


def read_points(path):
    """{instrument: array of (energy, SED, errn, errp)}, own reader of the file"""
    out = {}
    head = True
    for line in open(path):
        if line.startswith("#") or not line.strip():
            continue
        if head:
            assert line.split() == ["e_ref", "e2dnde", "e2dnde_errn", "e2dnde_errp", "instrument"]
            head = False
            continue
        v = line.split()
        out.setdefault(" ".join(v[4:]).strip('"'), []).append([float(a) for a in v[:4]])
    return {k: np.array(v) for k, v in out.items()}


UNITS = dict(eV=1.0, keV=1e3, TeV=1e12, erg=1 / 1.602176634e-12, J=1 / 1.602176634e-19)


def c35(ctx):
    import agnpy
    import logging

    logging.getLogger("gammapy").setLevel(logging.ERROR)
    from agnpy.fit import load_gammapy_flux_points, load_sherpa_flux_points

    data = os.path.join(os.path.dirname(agnpy.__file__), "data", "mwl_seds")
    scratch = tempfile.mkdtemp(prefix="agnpy-c35-")
    try:
        paths = {"synth": os.path.join(scratch, "synth.ecsv")}
        write_synth(paths["synth"])
        paths["mrk"] = os.path.join(data, "Mrk421_2011.ecsv")
        paths["pks"] = os.path.join(data, "PKS1510-089_2015b.ecsv")
        POINTS = {k: read_points(p) for k, p in paths.items()}

        def observe(c, file, lo, hi, unit, syst):
            pts = POINTS[file]
            given = None if syst is None else dict(syst)
            fr = dict(syst or ())
            a, b = lo / UNITS[unit] * u.Unit(unit), hi / UNITS[unit] * u.Unit(unit)
            kw = {} if given is None and lo < 1 else dict(systematics_dict=given)
            # sherpa
            s = load_sherpa_flux_points(paths[file], a, b, **kw)
            want = np.concatenate([np.column_stack([p, np.full(len(p), fr.get(i, 0.0))]) for i, p in pts.items()])
            order = lambda t: t[np.lexsort(t.T[::-1])]
            full = np.column_stack([want[:, 0], want[:, 1], (want[:, 2] + want[:, 3]) / 2, want[:, 4] * want[:, 1]])
            got = np.column_stack([s.x, s.y, s.staterror, s.syserror])
            c.close("points of sherpa", order(got), order(full), 1e-9)
            keep = full[(full[:, 0] >= lo) & (full[:, 0] <= hi)]
            sel = np.column_stack([s.get_indep(filter=True)[0], s.get_y(filter=True), s.get_staterror(filter=True), s.get_syserror(filter=True)]) if len(keep) else None
            if sel is None:
                c.true(s.mask is False or not np.any(s.mask), "points selected outside the range")
            else:
                c.close("points selected by sherpa", order(sel), order(keep), 1e-9)
                tot = np.column_stack([sel[:, 0], sel[:, 1], s.get_error(filter=True)])
                c.close("total errors in sherpa", order(tot), order(np.column_stack([keep[:, 0], keep[:, 1], np.hypot(keep[:, 2], keep[:, 3])])), 1e-9)
            # gammapy
            g = load_gammapy_flux_points(paths[file], a, b, **kw)
            c.equal("instruments", sorted(g.names), sorted(pts))
            for i, p in pts.items():
                ds = g[i]
                fp = ds.data
                e = p[:, 0]
                c.close("energies of " + i, fp.energy_ref, e, 1e-9, unit="eV")
                sys = fr.get(i, 0.0) * p[:, 1]
                for what, col, w in (("SED", fp.e2dnde, p[:, 1]), ("lower error", fp.e2dnde_errn, np.hypot(p[:, 2], sys)), ("upper error", fp.e2dnde_errp, np.hypot(p[:, 3], sys))):
                    c.close(f"{what} of {i}", col.quantity.ravel(), w, 1e-9, unit="erg cm-2 s-1")
                # bins: from midway (in logarithm) to midway between the points
                if len(e) == 1:
                    el, eh = e, e
                else:
                    m = np.sqrt(e[1:] * e[:-1])
                    edges = np.concatenate([[e[0] ** 2 / m[0]], m, [e[-1] ** 2 / m[-1]]])
                    el, eh = edges[:-1], edges[1:]
                inside = (el >= lo) & (eh <= hi)
                c.equal("points selected for " + i, np.ravel(ds.mask_fit.data).tolist(), inside.tolist())
            c.equal("systematics given", given, None if syst is None else dict(syst))

        sizes = {}
        for f, path in paths.items():
            sizes[f] = open(path, "rb").read()
        # limits between the points, on these (sherpa's are inclusive), and beyond all
        names = list(SYNTH)
        allE = sorted(e for i in SYNTH for e in SYNTH[i][0])
        cuts = [1e-7] + [a * (b / a) ** 0.37 for a, b in zip(allE, allE[1:])] + [3e13]
        ranges = [(a, b) for i, a in enumerate(cuts) for b in cuts[i + 1 :]]
        fracs = dict(zip(names, (0.05, 0.31, 0.1, 1.0)))
        import itertools

        subsets = [None] + [tuple((n, fracs[n]) for n in sub) for r in range(5) for sub in itertools.permutations(names, r)]

        def job_sub(part):
            def run(c):
                c.product(
                    "subsets and orders of systematics", dict(syst=subsets[part::4], range=[(1e-7, 3e13), (1.1, 4.4e3)]),
                    lambda cfg: observe(c, "synth", *cfg["range"], "eV", cfg["syst"]),
                )  # fmt: skip

            return run

        def job_rng(part):
            def run(c):
                rr = ranges[part::3]
                c.product(
                    "energy ranges", dict(range=rr, unit=["eV", "erg"] if c.quick else list(UNITS), syst=[None, tuple(fracs.items())]),
                    lambda cfg: observe(c, "synth", *cfg["range"], cfg["unit"], cfg["syst"]),
                )  # fmt: skip

            return run

        def inclusive(c):
            # limits on the points themselves: those of sherpa are inclusive
            def case(cfg):
                e = cfg["e"]
                s = load_sherpa_flux_points(paths["synth"], e * u.eV, cfg["hi"] * u.eV)
                x = sorted(s.get_indep(filter=True)[0].tolist())
                c.close("selected", x, [a for a in allE if e <= a <= cfg["hi"]], 1e-12)

            c.product("limits on the points", dict(e=allE, hi=allE + [3e13]), case, flt=lambda cfg: cfg["e"] <= cfg["hi"])

            def unknown(cfg):
                observe(c, cfg["file"], cfg["lo"], 1e13, cfg["unit"], cfg["syst"])

            c.product(
                "instruments not in the file",
                dict(file=["synth"], lo=[1.1], unit=list(UNITS), syst=[(), (("nobody", 0.3),), (("lat", 0.3), ("LA", 0.2), ("LAT ", 0.7)), (("X-ray", 0.2), ("LAT", 0.0))]),
                unknown,
            )

        def bundled(file):
            def run(c):
                ins = list(POINTS[file])
                all_ = tuple((n, 0.05 + 0.01 * j) for j, n in enumerate(ins))
                sy = [None, (), all_, all_[::-1]] + [(a,) for a in all_]
                if not c.quick:
                    sy += [tuple(x for x in all_ if x is not a) for a in all_] + list(itertools.combinations(all_, 2))
                c.product(
                    "file " + file, dict(syst=sy, range=[(1e-7, 3e13), (3.3, 7.7e10)] if c.quick else [(1e-7, 3e13), (3.3, 7.7e10), (1e-4, 2.0)]),
                    lambda cfg: observe(c, file, *cfg["range"], "eV", cfg["syst"]),
                )  # fmt: skip

            return run

        ctx.parallel([bundled("mrk"), bundled("pks"), inclusive] + [job_sub(i) for i in range(4)] + [job_rng(i) for i in range(3)])
        for f, path in paths.items():
            ctx._begin("files")
            ctx._tick(1, 0, 1)
            ctx.guard(lambda: ctx.true(open(path, "rb").read() == sizes[f], "the file read changed"))
    finally:
        shutil.rmtree(scratch)


c35.bounds = (
    "a synthetic file of 4 instruments (10 points, asymmetric errors, a single-point instrument) x every ordered subset of the systematics (65 and none) x 2 ranges; every range between "
    "cuts separating all the points x units (2, thorough 5) x with and without systematics; limits on the points; names not in the file; the 2 bundled files x {none, empty, all, "
    "all reversed, each alone (thorough: all but one, pairs)} x 2 ranges (thorough 3); both backends"
)
c35.assumptions = [
    "files follow the documented format (eV, erg cm-2 s-1, sorted in energy)",
    "gammapy selects whole energy bins, whose limits are midway between the points of the instrument",
]
