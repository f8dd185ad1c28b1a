"""C05: emission region"""
import copy
import numpy as np
import astropy.units as u
from mc import ref, build, scene
from agnpy.emission_regions import Blob


def sane(r):
    """the Doppler factor can be reached with this bulk Lorentz factor"""
    return r.delta_D <= r.Gamma * (1 + r.beta)


def compare(ctx, b, r, only=None):
    for name, (want, unit) in r.derived().items():
        if only and name not in only:
            continue
        if name == "theta_s" and not sane(r):
            continue
        got = getattr(b, name)
        # arccos amplifies rounding close to the axis
        ctx.close(name, got, want, unit=unit, rtol=1e-7 if name == "theta_s" else 1e-9)
    ctx.close("R_b", b.R_b, r.R_b, unit="cm")
    ctx.close("B", b.B, r.B, unit="G")
    for n in ("delta_D", "Gamma", "xi"):
        ctx.close(n, getattr(b, n), getattr(r, n))
    g = np.array([5.0, 20.0, 333.0, 7e4])
    ctx.close("N_e", b.N_e(g), r.V * ref.density(r.n_e, g), unit="")
    ctx.close("n_e", b.n_e(g), ref.density(r.n_e, g), unit="cm-3")
    if r.n_p is None:
        for q in ("n_p", "gamma_p", "n_p_tot", "u_p", "W_p", "N_p_tot"):
            ctx.raises(q + " without protons", AttributeError, lambda: getattr(b, q))
        ctx.raises("N_p without protons", AttributeError, lambda: b.N_p(g))
    else:
        ctx.close("N_p", b.N_p(g), r.V * ref.density(r.n_p, g), unit="")
    e = np.array([1e-9, 3e-4, 2.0])
    s = np.array([1e-12, 3e-13, 2e-15])
    ctx.close("u_ph_synch_diff", b.u_ph_synch_diff(e, s * u.Unit("erg cm-2 s-1")), ref.u_synch_diff(r, e, s), unit="erg cm-3")


def c05(ctx):
    dims = dict(scene.REGION, xi=[1.0, 0.02, 4.1])
    k = 2 if ctx.quick else 3

    def obs(c):
        def observe(b, cfg):
            compare(c, b, scene.region(cfg))
            str(b)

        return observe

    jobs = [
        lambda c, n=n: c.walk("attributes", dims, k, lambda cfg: scene.blob(scene.region(cfg)), lambda b, n, v, cfg: scene.set_blob(b, n, v), obs(c), only_first={n}, scales=scene.SCALES)
        for n in dims
    ]
    ops = list(OPS)
    if ctx.quick:
        ops = [o for o in ops if o not in ("R_b back", "xi")]
    depth = 3
    jobs += [lambda c, o=o: c.sequences("setter sequences", start, ops, lambda b, r, op: step(c, b, r, op), depth, first=[o], check=lambda b, r: compare(c, b, r)) for o in ops]
    if not ctx.quick:
        deep = [o for o in ops if o not in ("R_b back", "xi", "z 2", "n_e interp", "B")]
        jobs += [lambda c, o=o: c.sequences("long setter sequences", start, deep, lambda b, r, op: step(c, b, r, op), 4, first=[o], check=lambda b, r: compare(c, b, r)) for o in deep]
    jobs.append(construction)
    ctx.parallel(jobs)


def start():
    r = scene.region({"n_p": "p_pl"})
    r.ne_size = r.np_size = 9
    return scene.blob(r), r


def _setn(which, attr, value):
    def f(b, r):
        d = getattr(r, which)
        if d is None or attr not in d:
            return
        d[attr] = value
        o = getattr(b, which)
        setattr(o, attr, value * u.Unit("cm-3") if attr == "k" else value)

    return f


def _set(name, v):
    def f(b, r):
        scene.set_blob(b, name, v)
        if name in ("n_e", "n_p"):
            v2 = None if v is None else copy.deepcopy(scene.DISTS[v])
            setattr(r, name, v2)
        else:
            setattr(r, name, v)

    return f


def _delta(Gamma, theta):
    def f(b, r):
        b.set_delta_D(Gamma, theta * u.deg)
        r.Gamma = Gamma
        r.delta_D = 1 / (Gamma * (1 - r.beta * np.cos(np.radians(theta))))

    return f


def _read(b, r):
    for q in r.derived():
        getattr(b, q)
    str(b)


def _inplace(b, r):
    b.R_b = b.R_b * 1.7
    r.R_b = r.R_b * 1.7


OPS = {
    "R_b": _set("R_b", 7.1e14),
    "R_b back": _inplace,
    "z": _set("z", 1.7),
    "z 2": _set("z", 0.069),
    "delta_D": _set("delta_D", 3.3),
    "Gamma": _set("Gamma", 25.3),
    "set_delta_D": _delta(13.1, 2.9),
    "B": _set("B", 0.011),
    "xi": _set("xi", 0.02),
    "n_e": _set("n_e", "bpl"),
    "n_e interp": _set("n_e", "interp"),
    "n_e.k": _setn("n_e", "k", 0.77),
    "n_e.gamma_max": _setn("n_e", "gamma_max", 9.3e4),
    "n_p None": _set("n_p", None),
    "n_p": _set("n_p", "p_bpl"),
    "n_p.p": _setn("n_p", "p", 2.77),
    "sizes": lambda b, r: (_set("ne_size", 14)(b, r), _set("np_size", 12)(b, r)),
    "read all": _read,
}


def step(ctx, b, r, op):
    OPS[op](b, r)


def construction(ctx):
    def case(cfg):
        d = cfg["delta_D"]
        if isinstance(d, str) and d.startswith("bad"):
            bad = {"bad zero": 0, "bad negative": -3.2, "bad string": "10", "bad none": None, "bad list": [10], "bad int negative": -1, "bad -0.0": -0.0}[d]
            ctx.raises(f"delta_D={bad!r}", ValueError, lambda: Blob(delta_D=bad))
            return
        r = scene.region({"cosmology": cfg["cosmology"], "n_p": cfg["n_p"]})
        r.delta_D = {"int": 7, "float": 7.7, "np.float64": np.float64(4.4), "np.int64": np.int64(9)}[d]
        b = scene.blob(r)
        compare(ctx, b, r)
        b.z = 0.9
        r.z = 0.9
        compare(ctx, b, r)

    ctx.product(
        "construction",
        dict(
            delta_D=["int", "float", "np.float64", "np.int64", "bad zero", "bad negative", "bad string", "bad none", "bad list", "bad int negative", "bad -0.0"],
            cosmology=["default", "other"],
            n_p=[None, "p_pl"],
        ),
        case,
    )

    def defaults(cfg):
        b, r = Blob(), ref.Region()
        if cfg["change"] == "n_e":
            b.n_e = build.dist(scene.DISTS["bpl"])
            r.n_e = scene.DISTS["bpl"]
        elif cfg["change"] == "z":
            b.z = r.z = 0.7
        elif cfg["change"] == "n_p":
            b.n_p = build.dist(scene.DISTS["p_pl"], "p")
            r.n_p = scene.DISTS["p_pl"]
        compare(ctx, b, r)

    ctx.product("defaults", dict(change=["nothing", "n_e", "z", "n_p"]), defaults)

    def viewing(cfg):
        b, r = start()
        b.set_delta_D(cfg["Gamma"], (cfg["theta"] * u.deg).to(cfg["unit"]))
        r.Gamma = cfg["Gamma"]
        r.delta_D = 1 / (r.Gamma * (1 - r.beta * np.cos(np.radians(cfg["theta"]))))
        compare(ctx, b, r)
        ctx.close("viewing angle", b.theta_s, cfg["theta"], unit="deg", rtol=1e-6)

    ctx.product("viewing angle", dict(Gamma=[1.7, 10, 31.3], theta=[0.7, 3, 25.0, 88.0], unit=["deg", "rad", "arcmin"]), viewing)

    aligned_region = Blob()

    def aligned(cfg):
        # along the axis the rounding of the cosine matters: it must remain a cosine
        b, Gamma = aligned_region, cfg["Gamma"]
        b.set_delta_D(Gamma, cfg["theta"] * u.deg)
        ctx.true(-1 <= b.mu_s <= 1, f"mu_s {b.mu_s!r} is not a cosine")
        # the angle is recovered within the rounding of its cosine
        t = b.theta_s.to_value("deg")
        ctx.true(abs(t - cfg["theta"]) < 1e-5, f"theta_s {t} instead of {cfg['theta']} deg")

    grid = [1.0 + 0.002 * i for i in range(1, 1001)] + [3.0 + 0.05 * i for i in range(1, 941)]
    ctx.product("aligned regions", dict(Gamma=grid, theta=[0.0, 180.0]), aligned)


c05.bounds = (
    "walk: 10 attributes with 2-8 values, all configurations with at most 2 (quick) / 3 (thorough) deviations on one "
    "live region; sequences: every sequence of 16 (18) setters/reads of length 3 (thorough: also 13 of length 4) from a fresh region with protons, "
    "all ~25 derived quantities compared after every operation; constructors: Doppler factor types, cosmologies, defaults"
)
