"""C01-C04: particle distributions"""
import itertools
import numpy as np
import astropy.units as u
from mc import ref, build
from agnpy.spectra import InterpolatedDistribution, EmptyDistribution

CM3 = u.Unit("cm-3")

# alphabets: first entry = base, the rest = deviations (chosen not to be round numbers, and to
# hit the switches of the code: integer indices, index 1, break at/outside the bounds)
PARAMS = {
    "PowerLaw": dict(
        k=[3.7e-5, 1.0, 2.3e7], p=[2.13, 1.0, 2, 0.31, 4.6], gamma_min=[17.7, 1, 300.0], gamma_max=[4.3e5, 310.0, 10**7]
    ),
    "BrokenPowerLaw": dict(
        k=[3.7e-5, 2.3e7], p1=[1.83, 1.0, 2, 3.3], p2=[3.41, 4, 1.7], gamma_b=[2.7e3, 17.7, 4.3e5, 8.0, 9e6],
        gamma_min=[17.7, 1, 300.0], gamma_max=[4.3e5, 310.0, 10**7],
    ),
    "LogParabola": dict(
        k=[3.7e-5, 2.3e7], p=[2.13, 1.0, 3], q=[0.17, 0.0, 1, -0.2], gamma_0=[1.3e3, 5.0, 6e6],
        gamma_min=[17.7, 1, 300.0], gamma_max=[4.3e5, 310.0, 10**7],
    ),
    "ExpCutoffPowerLaw": dict(
        k=[3.7e-5, 2.3e7], p=[2.13, 1.0, 2, 0.31], gamma_c=[2.9e4, 55.0, 8e8],
        gamma_min=[17.7, 1, 300.0], gamma_max=[4.3e5, 310.0, 10**7],
    ),
    "ExpCutoffBrokenPowerLaw": dict(
        k=[3.7e-5, 2.3e7], p1=[1.83, 1.0, 2], p2=[3.41, 4], gamma_c=[2.9e4, 55.0, 8e8],
        gamma_b=[2.7e3, 17.7, 4.3e5, 8.0, 9e6], gamma_min=[17.7, 1, 300.0], gamma_max=[4.3e5, 310.0, 10**7],
    ),
}
# limits of the ladders of scales
SCALES = dict(
    k=(1e-40, 1e40), p=(0.01, 12.0), p1=(0.01, 12.0), p2=(0.01, 12.0), q=(1e-6, 3.0), gamma_b=(1.0, 1e13), gamma_c=(1.0, 1e15), gamma_0=(1.0, 1e13),
    gamma_min=(1.0, 4.2e5), gamma_max=(18.0, 1e14),
)


def gammas(d):
    """Lorentz factors at, around, inside and outside every switch of the definition"""
    a, b = float(d["gamma_min"]), float(d["gamma_max"])
    pts = []
    for x in (a, b):
        pts += [x * (1 - 1e-3), x * (1 - 1e-6), x * (1 - 4e-15), x, x * (1 + 4e-15), x * (1 + 1e-6), x * (1 + 1e-3)]
    for name in ("gamma_b", "gamma_0", "gamma_c"):
        if name in d:
            x = float(d[name])
            pts += [x * (1 - 1e-6), x, x * (1 + 1e-6)]
    pts += list(np.exp(np.linspace(np.log(a), np.log(b), 9)[1:-1]))
    pts += [a / 7.3, b * 11.7, 1.0]
    pts = np.array(sorted(set(pts)))
    if "gamma_b" in d:  # a rounding away from both a bound and the break: branch unspecified
        pts = pts[(pts == d["gamma_b"]) | (abs(pts / d["gamma_b"] - 1) > 1e-9)]
    return pts


def forms(g):
    """the same Lorentz factors as arrays of other shapes / order / type, with the indexing
    that maps the flat sorted values onto them"""
    n = len(g)
    idx = np.arange(n)
    yield "sorted", g.copy(), idx
    yield "reversed", g[::-1].copy(), idx[::-1]
    perm = np.array(sorted(range(n), key=lambda i: (i * 7919) % 104729 % n + i * 1e-6))
    yield "shuffled", g[perm], perm
    yield "strided view", np.repeat(g, 2)[::2], idx
    m = n // 2 * 2
    yield "2-D", g[:m].reshape(2, -1).copy(), idx[:m].reshape(2, -1)
    yield "Fortran 2-D", np.asfortranarray(g[:m].reshape(2, -1)), idx[:m].reshape(2, -1)
    yield "3-D", g[:m].reshape(1, -1, 2).copy(), idx[:m].reshape(1, -1, 2)
    yield "column", g.reshape(-1, 1).copy(), idx.reshape(-1, 1)
    yield "empty", g[:0].copy(), idx[:0]
    yield "duplicated", np.concatenate([g, g]), np.concatenate([idx, idx])


def setter(sut, name, v, cfg):
    if name == "particle":
        return build.dist(desc(cfg), cfg["particle"])
    setattr(sut, name, v * CM3 if name == "k" else v)


def desc(cfg):
    return {k: v for k, v in cfg.items() if k not in ("particle",)}


def ints(d):
    a, b = d["gamma_min"], d["gamma_max"]
    return np.array(sorted({int(np.ceil(a)), int(a * 1.7 + 1), 100, int(b), int(b) + 1, 3}), dtype=int)


def observe_values(ctx, name, fref, fobs, feval, sut, cfg, atol=0.0, rtol=1e-9):
    d = desc(cfg)
    g = gammas(d)
    want = fref(d, g)
    for label, arr, idx in forms(g):
        before = arr.copy()
        got = fobs(sut)(arr)
        ctx.true(isinstance(got, u.Quantity), f"{name} {label}: not a quantity")
        ctx.close(f"{name} of {d['family']}, {label} array", got, want[idx], rtol=rtol, atol=atol, unit="cm-3")
        out = want[idx] == 0
        ctx.true(np.all(np.asarray(got.value)[out] == 0), f"{name} {label}: not exactly null outside the bounds")
        ctx.true(np.array_equal(arr, before), f"{name} {label}: the input array was modified")
    got = feval(sut)(g.copy(), *sut.parameters)
    ctx.close(f"parametric {name} of {d['family']}", got, want, rtol=rtol, atol=atol, unit="cm-3")
    # one by one: python floats and 0-d arrays
    for i in range(0, len(g)):
        x = float(g[i]) if i % 2 else np.array(g[i])
        ctx.close(f"{name} of {d['family']} at the scalar {g[i]!r}", fobs(sut)(x), want[i], rtol=rtol, atol=atol, unit="cm-3")
    gi = ints(d)
    bi = gi.copy()
    ctx.close(f"{name} of {d['family']} at integers", fobs(sut)(gi), fref(d, gi), rtol=rtol, atol=atol, unit="cm-3")
    ctx.true(np.array_equal(gi, bi), f"{name}: integer input array was modified")
    ctx.close(f"{name} of {d['family']} at an integer", fobs(sut)(int(gi[2])), fref(d, float(gi[2])), rtol=rtol, atol=atol, unit="cm-3")


def family_walk(ctx, fam, k, observe, particles=("e", "p")):
    dims = dict(particle=list(particles), **PARAMS[fam])

    def make(cfg):
        return build.dist(dict(family=fam, **desc(cfg)), cfg["particle"])

    def set_(sut, name, v, cfg):
        return setter(sut, name, v, dict(family=fam, **cfg))

    ctx.walk(fam, dims, k, make, set_, lambda s, c: observe(s, dict(family=fam, **c)), scales=SCALES)


def _obs1(ctx, sut, cfg):
    observe_values(ctx, "n", ref.density, lambda s: s, lambda s: s.evaluate, sut, cfg)
    # parameters are reported in the documented order, and follow the attributes
    want = [cfg[n] for n in ref.FAMILIES[cfg["family"]]]
    got = [p.to_value("cm-3") if hasattr(p, "unit") else p for p in sut.parameters]
    ctx.equal("parameters", [float(x) for x in got], [float(x) for x in want])
    ctx.equal("particle", sut.particle, {"e": "electrons", "p": "protons"}[cfg["particle"]])
    ctx.close("rest energy", sut.mc2, ref.mass(cfg["particle"]) * ref.C**2, unit="erg")
    str(sut)


def c01(ctx):
    k = 2 if ctx.quick else 99
    ctx.parallel([lambda c, f=f: family_walk(c, f, k, lambda s, g: _obs1(c, s, g)) for f in PARAMS], 5)


c01.bounds = (
    "5 families x (particle, 3-6 values of each parameter): all configurations with at most 2 (quick) / 4 "
    "(thorough) deviations from a generic base, reached by mutating one live object; in each, about 30 Lorentz "
    "factors at/around/in/out of every switch, in 10 array forms, as scalars and as integers"
)


# --- C02 -------------------------------------------------------------------------------------
def c02(ctx):
    ctx.parallel(
        [lambda c, f=f: c02_norm(c, f) for f in PARAMS] + [lambda c, f=f: c02_integ(c, f) for f in PARAMS], 8
    )


def c02_norm(ctx, fam):
    pars = {k: v for k, v in PARAMS[fam].items() if k != "k"}
    # up to fourteen decades
    pars["gamma_max"] = pars["gamma_max"] + [3.3e15]
    kinds = {
        "n_tot": [("cm-3", 1.0), ("m-3", 1e-6), ("pc-3", 1 / 3.0856775814913674e18**3)],
        "u_tot": [("erg cm-3", 1.0), ("J m-3", 10.0), ("GeV m-3", 1.602176634e-3 * 1e-6)],
        "W": [("erg,cm3", 1.0), ("J,m3", 1e7 / 1e6), ("GeV,pc3", 1.602176634e-3 / 3.0856775814913674e18**3)],
        "n_gamma_1": [("cm-3", 1.0), ("m-3", 1e-6)],
    }
    dims = dict(kind=["n_tot", "u_tot", "W", "n_gamma_1"], unit=[0, 1, 2], particle=["e", "p"], value=[6.3, 2.7e-6], **pars)
    cls = build.CLS[fam]

    def make(cfg):
        return None

    def observe(_, cfg):
        opts = kinds[cfg["kind"]]
        unit, cgs = opts[min(cfg["unit"], len(opts) - 1)]
        kw = {n: cfg[n] for n in pars}
        if cfg["kind"] == "n_gamma_1":
            kw["gamma_min"] = 1  # the normalisation at gamma = 1 requires 1 within the bounds
        if kw["gamma_min"] >= kw["gamma_max"]:
            return
        m = build.MASS[cfg["particle"]]
        x = cfg["value"]
        if cfg["kind"] == "n_tot":
            sut = cls.from_total_density(x * u.Unit(unit), m, **kw)
        elif cfg["kind"] == "u_tot":
            sut = cls.from_total_energy_density(x * u.Unit(unit), m, **kw)
        elif cfg["kind"] == "W":
            a, b = unit.split(",")
            sut = cls.from_total_energy(x * u.Unit(a), 3.1 * u.Unit(b), m, **kw)
            x = x / 3.1
        else:
            sut = cls.from_density_at_gamma_1(x * u.Unit(unit), m, **kw)
        x = x * cgs
        mc2 = ref.mass(cfg["particle"]) * ref.C**2
        d = dict(family=fam, k=1.0, **kw)
        with np.errstate(all="ignore"):
            if cfg["kind"] == "n_gamma_1":
                k = x / ref.density(d, 1.0)
            else:
                p = 0 if cfg["kind"] == "n_tot" else 1
                k = x / ref.integrate(d, power=p) / (mc2 if p else 1)
        ctx.close(f"{fam} k from {cfg['kind']}", sut.k, k, unit="cm-3", rtol=1e-8)
        ctx.equal("particle", sut.particle, {"e": "electrons", "p": "protons"}[cfg["particle"]])
        for n in kw:
            ctx.equal(n, float(getattr(sut, n)), float(kw[n]))
        # the very quantity comes back
        if cfg["kind"] == "n_tot":
            ctx.close("integral of n", sut.integrate(), x, unit="cm-3", rtol=1e-8)
        elif cfg["kind"] == "n_gamma_1":
            ctx.close("n(1)", sut(1), x, unit="cm-3", rtol=1e-8)
        else:
            ctx.close("energy density", sut.integrate(gamma_power=1) * sut.mc2, x, unit="erg cm-3", rtol=1e-8)

    ctx.walk("norm " + fam, dims, 2 if ctx.quick else 4, make, lambda *a: None, observe, scales={**SCALES, "value": (1e-60, 1e60), "gamma_min": (1.01, 4.2e5)})


def c02_integ(ctx, fam):
    dims = dict(
        rule=["trapz", "loglog"], lo=[None, 1.37, 0.3], hi=[None, 0.71, 5.0], power=[0, 1, 2, -1, 0.5], particle=["e", "p"],
        **{n: v + ([3.3e15] if n == "gamma_max" else []) for n, v in PARAMS[fam].items()},
    )

    def make(cfg):
        return build.dist(dict(family=fam, **{n: cfg[n] for n in PARAMS[fam]}), cfg["particle"], cfg["rule"])

    def set_(sut, name, v, cfg):
        if name == "particle":
            return make(cfg)
        if name == "rule":
            sut.integrator = build.RULE[v]
        elif name in PARAMS[fam]:
            setattr(sut, name, v * CM3 if name == "k" else v)

    def observe(sut, cfg):
        d = dict(family=fam, **{n: cfg[n] for n in PARAMS[fam]})
        lo = None if cfg["lo"] is None else cfg["lo"] * d["gamma_min"]
        hi = None if cfg["hi"] is None else cfg["hi"] * d["gamma_max"]
        if (lo or d["gamma_min"]) >= (hi or d["gamma_max"]):
            return
        kw = {}
        if lo is not None:
            kw["gamma_low"] = lo
        if hi is not None:
            kw["gamma_up"] = hi
        if cfg["power"] != 0:
            kw["gamma_power"] = cfg["power"]
        want = ref.integrate(d, lo, hi, cfg["power"], cfg["rule"])
        got = sut.integrate(**kw)
        ctx.close(f"{fam} integral", got, want, unit="cm-3", rtol=1e-8)
        pos = sut.integrate(lo, hi, cfg["power"])
        ctx.close(f"{fam} integral, positional arguments", pos, want, unit="cm-3", rtol=1e-8)
        # closed form / fine grid, for limits within the bounds (where the integrand is smooth)
        if (cfg["lo"] or 1) >= 1 and (cfg["hi"] or 1) <= 1 and ref.density(d, d["gamma_min"] * 1.0) > 0:
            a = d["gamma_min"] if lo is None else lo
            b = d["gamma_max"] if hi is None else hi
            # error of the trapezoids on the documented grid, that gets coarse over many decades
            h = np.log(b / a) / 199
            coarse = h**2 * max(abs(cfg["power"] - d.get("p", d.get("p2", 4.6))), 1) ** 2 / 4
            fine = ref.integrate(d, lo, hi, cfg["power"], "loglog", n=20001)
            if fam == "PowerLaw":
                e = cfg["power"] - d["p"] + 1
                exact = d["k"] * (np.log(b / a) if e == 0 else (b**e - a**e) / e)
                ctx.close("closed form", got, exact, unit="cm-3", rtol=max(2e-2, coarse) if cfg["rule"] == "trapz" else 1e-6)
            elif fam in ("BrokenPowerLaw", "LogParabola") and b / a < 1e9:
                ctx.close("fine grid", got, fine, unit="cm-3", rtol=max(4e-2, coarse))

    scales = {**SCALES, "lo": (1.0, 1e4, 1.37), "hi": (1e-4, 1.0, 0.71), "power": [-3, -2, -0.01, 0.01, 0.1, 0.99, 1.01, 1.13, 2.13, 3, 4, 5.5]}
    ctx.walk("integrate " + fam, dims, 2 if ctx.quick else 3, make, set_, observe, scales=scales)


c02.bounds = (
    "5 families x {4 normalisations x 3 units x 2 particles x parameters} and x {2 rules, 3x3 limits, 5 powers, "
    "parameters}: all configurations with at most 2 (quick) / 4 and 3 (thorough) deviations, ladders of scales; mutations on a live object"
)
c02.assumptions = [
    "normalisation at unit Lorentz factor requires 1 within the bounds",
    "the documented integration grid has 200 logarithmic points",
]


# --- C03 -------------------------------------------------------------------------------------
def _obs3(ctx, sut, cfg):
    d = desc(cfg)
    observe_values(ctx, "SSA integrand", ref.ssa_integrand, lambda s: s.SSA_integrand, lambda s: s.evaluate_SSA_integrand, sut, cfg)
    # against the numerical derivative of what the object itself returns
    g = gammas(d)
    ok = (g > d["gamma_min"] * 1.0001) & (g < d["gamma_max"] * 0.9999)
    for n in ("gamma_b",):
        if n in d:
            ok &= abs(g / d[n] - 1) > 2e-4
    g = g[ok]
    if not len(g):
        return
    h = 1e-5 * g
    f = lambda x: sut(x).to_value("cm-3") / x**2
    num = g**2 * (f(g + h) - f(g - h)) / (2 * h)
    got = sut.SSA_integrand(g).to_value("cm-3")
    scale = np.abs(ref.density(d, g)) / g
    ctx.close("SSA integrand vs numerical derivative", got, num, rtol=1e-5, atol=1e-5 * scale + 1e-300)


def c03(ctx):
    k = 2 if ctx.quick else 99
    ctx.parallel([lambda c, f=f: family_walk(c, f, k, lambda s, g: _obs3(c, s, g)) for f in PARAMS] + [lambda c: c03_interp(c)], 6)


def c03_interp(ctx):
    def observe(sut, cfg):
        d = interp_desc(cfg)
        lo, hi = ref.bounds(d)
        g = np.concatenate([np.exp(np.linspace(np.log(lo), np.log(hi), 15)), [lo * 0.9, hi * 1.1]])
        for label, arr, idx in forms(g):
            ctx.close(f"SSA integrand of interpolated, {label}", sut.SSA_integrand(arr), ref.ssa_integrand(d, g)[idx], unit="cm-3", rtol=1e-8,
                      atol=1e-9 * np.abs(ref.density(d, g)[idx]) / g[idx])
        for x in g[[0, 3, 8]]:
            got = sut.SSA_integrand(x)
            ctx.close("scalar", got, ref.ssa_integrand(d, x), unit="cm-3", rtol=1e-8)

    ctx.walk("interpolated", INTERP_DIMS, 2 if ctx.quick else 5, lambda c: build.dist(interp_desc(c), c["particle"], c["rule"]), interp_set, observe)


c03.bounds = c01.bounds + "; plus interpolated distributions (see C04)"


# --- C04 -------------------------------------------------------------------------------------
INTERP_DIMS = dict(
    samples=["curved", "powerlaw", "noisy", "few"],
    nulls=["none", "head", "tail", "both", "middle"],
    norm=[1, 2.7, 1e-3],
    interpolator=["cubic", "pchip", "akima"],
    particle=["e", "p"],
    rule=["trapz", "loglog"],
)


def interp_desc(cfg):
    n = 7 if cfg["samples"] == "few" else 23
    g = np.exp(np.linspace(np.log(12.3), np.log(3.3e5), n))
    if cfg["samples"] == "curved":
        y = 4e2 * (g / 700) ** (-2.1 - 0.13 * np.log10(g / 700))
    elif cfg["samples"] == "powerlaw":
        y = 3e1 * g**-2.3
    elif cfg["samples"] == "few":
        y = 3e1 * g**-1.3 * np.exp(-g / 4e4)
    else:
        y = 3e1 * g**-2.0 * (1.5 + np.sin(1.7 * np.arange(n)))
    if cfg["nulls"] in ("head", "both"):
        y[:2] = 0
    if cfg["nulls"] in ("tail", "both"):
        y[-2:] = 0
    if cfg["nulls"] == "middle":
        y[n // 2] = 0
    return dict(family="Interp", gamma=list(g), n=list(y), norm=cfg["norm"], interpolator=cfg["interpolator"])


def interp_set(sut, name, v, cfg):
    if name == "norm":
        sut.norm = v
    elif name == "rule":
        sut.integrator = build.RULE[v]
    else:
        return build.dist(interp_desc(cfg), cfg["particle"], cfg["rule"])


def c04(ctx):
    def observe(sut, cfg):
        d = interp_desc(cfg)
        x, y = ref.interp_samples(d)
        ctx.close("sample values", sut(x.copy()), cfg["norm"] * y, unit="cm-3", rtol=1e-9)
        # null samples at the edges give zero
        allg, alln = np.array(d["gamma"]), np.array(d["n"])
        edge = (allg < x[0]) | (allg > x[-1])
        ctx.close("null edge samples", sut(allg[edge]), np.zeros(edge.sum()), unit="cm-3")
        ctx.close("lower bound", sut.gamma_min, x[0], rtol=1e-14)
        ctx.close("upper bound", sut.gamma_max, x[-1], rtol=1e-14)
        g = np.sort(np.concatenate([np.exp(np.linspace(np.log(x[0] / 2), np.log(x[-1] * 2), 31)), x[[0, -1]] * (1 - 4e-15),
                                    x[[0, -1]] * (1 + 4e-15), [x[0] * (1 - 1e-6), x[-1] * (1 + 1e-6)]]))
        want = ref.density(d, g)
        for label, arr, idx in forms(g):
            before = arr.copy()
            ctx.close(f"interpolated density, {label}", sut(arr), want[idx], unit="cm-3", rtol=1e-9)
            ctx.true(np.array_equal(arr, before), "input array modified")
        ctx.close("evaluate", sut.evaluate(g, *sut.parameters), want, unit="cm-3", rtol=1e-9)
        for xx in list(g[::9]):
            ctx.close("scalar", sut(float(xx)), ref.density(d, xx), unit="cm-3", rtol=1e-9)
        gi = np.array([20, 100, 5000])
        ctx.close("integers", sut(gi), ref.density(d, gi.astype(float)), unit="cm-3", rtol=1e-9)
        for p in (0, 1):
            ctx.close("integral", sut.integrate(gamma_power=p), ref.integrate(d, power=p, rule=cfg["rule"]), unit="cm-3", rtol=1e-8)
            ctx.close("partial integral", sut.integrate(x[0] * 1.5, x[-1] / 1.7, p), ref.integrate(d, x[0] * 1.5, x[-1] / 1.7, p, cfg["rule"]), unit="cm-3", rtol=1e-8)
        if cfg["samples"] == "powerlaw" and cfg["nulls"] != "middle" or cfg["samples"] == "powerlaw":
            gg = np.exp(np.linspace(np.log(x[0]), np.log(x[-1]), 40))
            ctx.close("a sampled power law is reproduced between the samples", sut(gg), cfg["norm"] * 3e1 * gg**-2.3, unit="cm-3", rtol=1e-8)
        str(sut)

    ctx.walk("interpolated", INTERP_DIMS, 2 if ctx.quick else 6, lambda c: build.dist(interp_desc(c), c["particle"], c["rule"]), interp_set, observe)

    def units(cfg):
        g = np.array([10.0, 100.0, 1e3, 1e4, 1e5])
        n = g**-2.0 * u.Unit(cfg["unit"])
        if cfg["unit"] == "cm-3":
            InterpolatedDistribution(g, n)
        else:
            ctx.raises(f"density in {cfg['unit']}", ValueError, lambda: InterpolatedDistribution(g, n))

    ctx.product("density unit", dict(unit=["cm-3", "m-3", "erg cm-3", "cm-2", "", "pc-3"]), units)
    other_masses(ctx)
    empty(ctx)


def other_masses(ctx):
    """only electrons and protons"""
    import agnpy.spectra as S
    from astropy.constants import m_e, m_p, m_n

    cases = [n for n in ("PowerLaw", "BrokenPowerLaw", "LogParabola", "ExpCutoffPowerLaw", "ExpCutoffBrokenPowerLaw", "InterpolatedDistribution")]

    def case(cfg):
        cls = getattr(S, cfg["model"])
        kw = dict(mass=dict(n=m_n, number=m_e.cgs.value * 2, quantity=2 * m_p)[cfg["mass"]])
        if cfg["model"] == "InterpolatedDistribution":
            make = lambda: cls(np.array([1.0, 10.0, 100.0]), np.array([3.0, 2.0, 1.0]) * u.Unit("cm-3"), **kw)
        else:
            make = lambda: cls(**kw)
        ctx.raises("another mass", ValueError, make)

    ctx.product("other masses", dict(model=cases, mass=["n", "number", "quantity"]), case)


def empty(ctx):
    import agnpy
    from agnpy.emission_regions import Blob
    from agnpy.synchrotron import Synchrotron, ProtonSynchrotron
    from agnpy.compton import SynchrotronSelfCompton, ExternalCompton
    from agnpy.targets import CMB, PointSourceBehindJet

    def mk(bounds):
        return EmptyDistribution() if bounds is None else EmptyDistribution(*bounds)

    def blob(e, **kw):
        return Blob(R_b=3e16 * u.cm, B=0.3 * u.G, n_e=e, gamma_e_size=20, **kw)

    nu = np.logspace(9, 26, 5).reshape(5, 1) * u.Hz
    zero = np.zeros((5, 1))

    def case(cfg):
        e = mk(cfg["bounds"])
        lo, hi = cfg["bounds"] or (1, 1e20)
        ctx.equal("bounds", (e.gamma_min, e.gamma_max), (lo, hi))
        use = cfg["use"]
        if use == "values":
            for g in (np.array([1.0, 5.0, 1e4]), np.array([[2, 3], [4, 5]]), 7.0, 3, np.array([])):
                for f in (e, e.SSA_integrand, lambda x: e.evaluate(x, *e.parameters), lambda x: e.evaluate_SSA_integrand(x, *e.parameters)):
                    ctx.close("empty", f(g), np.zeros(np.shape(g)), unit="cm-3")
            ctx.close("integral", e.integrate(), 0.0, unit="cm-3")
            ctx.close("integral", e.integrate(10, 20, 2), 0.0, unit="cm-3")
        elif use == "blob":
            b = blob(e)
            for q, unit in (("n_e_tot", "cm-3"), ("u_e", "erg cm-3"), ("W_e", "erg"), ("N_e_tot", ""), ("u_ph_synch", "erg cm-3"), ("P_jet_ke", "erg s-1")):
                ctx.close(q, getattr(b, q), 0.0, unit=unit)
        elif use.startswith("synch"):
            ctx.close(use, Synchrotron(blob(e), ssa="ssa" in use).sed_flux(nu), zero, unit="erg cm-2 s-1")
        elif use.startswith("ssc"):
            ctx.close(use, SynchrotronSelfCompton(blob(e), ssa="ssa" in use).sed_flux(nu), zero, unit="erg cm-2 s-1")
        elif use == "ec cmb":
            ctx.close(use, ExternalCompton(blob(e), CMB(0.3)).sed_flux(nu), zero, unit="erg cm-2 s-1")
        elif use == "ec ps":
            ctx.close(use, ExternalCompton(blob(e), PointSourceBehindJet(1e45 * u.Unit("erg s-1"), 1e-5), 1e17 * u.cm).sed_flux(nu), zero, unit="erg cm-2 s-1")

    ctx.product(
        "empty distribution",
        dict(bounds=[None, (3.0, 4e5), (10, 11)], use=["values", "blob", "synch", "synch+ssa", "ssc", "ssc++ssa", "ec cmb", "ec ps"]),
        case,
    )
    interp_use(ctx, nu)


def interp_use(ctx, nu):
    """an interpolated power law used in place of the parametric one gives the same results"""
    from agnpy.emission_regions import Blob
    from agnpy.synchrotron import Synchrotron, ProtonSynchrotron
    from agnpy.compton import SynchrotronSelfCompton, ExternalCompton
    from agnpy.targets import CMB, PointSourceBehindJet

    g = np.logspace(np.log10(15.3), np.log10(7.1e5), 60)
    uses = dict(
        synch=lambda b: Synchrotron(b).sed_flux(nu),
        synch_ssa=lambda b: Synchrotron(b, ssa=True).sed_flux(nu),
        proton=lambda b: ProtonSynchrotron(b).sed_flux(nu),
        ssc=lambda b: SynchrotronSelfCompton(b, ssa=True).sed_flux(nu),
        ec=lambda b: ExternalCompton(b, CMB(0.3)).sed_flux(nu),
        ec_ps=lambda b: ExternalCompton(b, PointSourceBehindJet(1e45 * u.Unit("erg s-1"), 1e-5), 1e17 * u.cm).sed_flux(nu),
        u_e=lambda b: b.u_e,
        n_p_tot=lambda b: b.n_p_tot,
        u_ph=lambda b: b.u_ph_synch,
    )

    def case(cfg):
        res = []
        for kind in ("parametric", "interpolated"):
            ds = []
            for particle in ("e", "p"):
                pl = dict(family="PowerLaw", k=11.0 if particle == "e" else 3.3, p=2.2, gamma_min=g[0], gamma_max=g[-1])
                if kind == "interpolated":
                    pl = dict(family="Interp", gamma=list(g), n=list(pl["k"] * g**-2.2 / cfg["norm"]), norm=cfg["norm"], interpolator=cfg["interpolator"])
                ds.append(build.dist(pl, particle))
            b = Blob(R_b=3e16 * u.cm, B=0.3 * u.G, n_e=ds[0], n_p=ds[1], gamma_e_size=40, gamma_p_size=40)
            res.append(uses[cfg["use"]](b))
        # gamma_min/max recovered by the interpolated distribution may differ by one ulp
        big = np.abs(res[0].value).max()
        ctx.close(f"{cfg['use']} on an interpolated power law", res[1], res[0], rtol=1e-6, atol=1e-9 * big)

    ctx.product("interpolated in processes", dict(use=list(uses), interpolator=["cubic", "pchip"], norm=[1, 2.5]), case)


c04.bounds = (
    "interpolated: 4 sample shapes x 5 null patterns x 3 norms x 3 interpolators x 2 particles x 2 rules, all "
    "configurations with <= 2 (quick) or all 6 (thorough) deviations, on a live object; 6 density units; empty "
    "distribution: 3 bounds x 8 uses; interpolated power law vs parametric: 10 uses x 2 interpolators x 2 norms"
)
