"""Time evolution: C25 scheme, C26 time accounting, C27 bins, C28 subgroups, C29 consistency
of everything reported, C30 accepted and refused configurations, C31 composition.

Every explored evolution of the real code runs in lockstep with the reference simulator of
mc/evol.py, and is compared after each of its steps."""
import copy
import itertools
import numpy as np
import astropy.units as u
from mc import evol, ref, scene
from mc.evol import BASE, PROCS, KIND, compare, full, Run
from mc.core import plain

F = evol.F


def walker(ctx, name, dims, k, observe, procs=8):
    """deviation-bounded exploration of configurations, one evolution in each"""
    def job(n, v):
        def run(c):
            c.walk(name, {**dims, n: [dims[n][0], v]}, k, lambda cfg: cfg, lambda s, n_, v_, cfg: cfg, lambda s, cfg: observe(c, cfg), only_first={n}, near=False)
        return run

    if ctx.replay is not None:
        ctx.walk(name, dims, k, lambda cfg: cfg, lambda s, n, v, cfg: cfg, lambda s, cfg: observe(ctx, cfg), near=False)
        return
    ctx.parallel([job(n, v) for n in dims for v in dims[n][1:]], procs)


# limits of the ladders of scales
SCALES = dict(
    clock=(1e-9, 1e15, 1.0),  # of every duration
    amount=(1e-25, 1e25, 1.0),  # of every density
    lorentz=(0.05, 1e4, 1.0),  # of every Lorentz factor
    total=(1e-6, 1e3),
    step=(0.3, 1e9),
    size=[2, 3, 4, 5, 7, 13, 16, 17, 32, 33, 50, 64, 99, 100, 101, 128, 129, 200, 256, 257, 300, 500],
    max_en=(1e-3, 0.99),
    max_dens=(3e-3, 1e3),
    max_inj=(1e-3, 1e6),
    creep=(1e-4, 10.0),
    merge=(1e-8, 1.0),
)


def ladders(ctx, name, bases, names, case, procs=8):
    """evolutions around each of the bases, with each parameter on its ladder of scales"""
    jobs = []
    for i, b in enumerate(bases):
        for n in names:
            if n in b and b[n] in (None, "auto"):
                continue
            jobs.append(lambda c, i=i, b=b, n=n: c.ladder(f"{name} {i}", {**BASE, **b}, {n: SCALES[n]}, lambda cfg: case(c, {**b, n: cfg[n]})))
    if ctx.replay is not None:
        for j in jobs:
            j(ctx)
        return
    ctx.parallel(jobs, procs)


def lockstep(c, cfg, **kw):
    return compare(c, full(cfg), **kw)


COMBOS = [
    ("syn", "acc", "esc", "inj"),
    ("syn",),
    ("acc",),
    ("ssc", "acc", "hump"),
    ("tho", "syn", "rin"),
    ("quad", "rmix"),
    ("spread", "const"),
    ("sink", "steep", "aden"),
    ("dens", "syn", "rden", "sub"),
    ("share", "null", "flow"),
]


# ------------------------------------------------------------------------------- C25
def c25(ctx):
    dims = dict(
        procs=COMBOS,
        method=["euler", "heun"],
        dist=["pl", "bpl", "interp", "lp", "narrow", "empty"],
        grid=["default", "log", "irregular", "int", "close", "two", "samples"],
        step=[6.7, 31.0, 50.0, 2.9],
        form=["dict", "list", "tuple", "alone"],
        unit=["s", "min", "yr"],
        size=[11, 6],
    )
    walker(ctx, "scheme", dims, 2 if ctx.quick else 3, lockstep)

    ladders(ctx, "scheme", [
        dict(),
        dict(method="heun", procs=("syn", "acc", "esc", "inj"), dist="bpl", grid="default"),
        dict(step="auto", procs=("syn", "acc", "esc", "hump"), dist="interp", max_en=0.1, max_dens=0.3),
        dict(procs=("steep", "rin", "hump"), grid="log", dist="lp", unit="yr", method="heun"),
    ], ["clock", "amount", "lorentz", "total", "step", "size"], lambda c, cfg: lockstep(c, cfg, max_steps=30))

    # every combination of processes
    names = list(PROCS)
    sets = [s for n in (1, 2) for s in itertools.combinations(names, n)]
    if not ctx.quick:
        sets += list(itertools.combinations(names, 3))

    def combine(chunk):
        def run(c):
            c.product("processes", dict(procs=chunk, method=["euler", "heun"]), lambda cfg: lockstep(c, dict(cfg, grid="log")))
        return run

    ctx.parallel([combine(sets[i::16]) for i in range(16)])

    # limit of null step: analytic solutions
    b = 4 / 3 * ref.SIGMA_T * ref.C * evol.FIELD**2 / (8 * np.pi) / ref.MEC2
    tau = 93.0

    def solution(procs, g, t):
        """Lorentz factor at t, and its derivative with respect to the initial one"""
        if procs == ("syn",):
            return g / (1 + b * g * t), 1 / (1 + b * g * t) ** 2
        if procs == ("acc",):
            return g * np.exp(t / tau), np.exp(t / tau) + 0 * g
        x = b * tau + (1 / g - b * tau) * np.exp(-t / tau)
        return 1 / x, np.exp(-t / tau) / g**2 / x**2

    def limit(c, cfg):
        errs = []
        for n in (8, 16, 32, 64):
            full_ = full(dict(dist=cfg["dist"], procs=cfg["procs"], method=cfg["method"], total=cfg["total"], step=cfg["total"] / n, merge=None, size=9))
            run = Run(full_)
            n0 = ref.density(evol.EDISTS[cfg["dist"]], g0 := ref.logspace(*ref.bounds(evol.EDISTS[cfg["dist"]]), 9))
            run.go()
            if run.error:
                raise run.error
            got = run.plain(run.result)
            g, d = solution(cfg["procs"], g0, cfg["total"])
            w = n0 / d
            errs.append((np.abs(got["g"] / g - 1).max(), np.abs(got["n"] / w - 1).max()))
        c.outcome(errs)
        errs = np.array(errs)
        lo, hi = (1.7, 2.5) if cfg["method"] == "euler" else (3.2, 5.2)
        for what, e in zip(("Lorentz factors", "densities"), errs.T):
            c.true(e[-1] < (0.03 if cfg["method"] == "euler" else 3e-4), f"{what}: relative difference {e[-1]} from the analytic solution with 64 steps")
            for x, y in zip(e[:-1], e[1:]):
                # the bins have a finite width of 1e-4
                if y > (3e-7 if what != "densities" else 2e-3 if cfg["method"] == "euler" else 1e-3):
                    c.true(lo <= x / y <= hi, f"{what}: halving the step divides the difference from the analytic solution by {x / y}, {e}")

    ctx.parallel([
        lambda c, t=t: c.product("analytic", dict(procs=[("syn",), ("acc",), ("syn", "acc")], method=["euler", "heun"], dist=["pl", "bpl", "lp"], total=[t]), lambda cfg: limit(c, cfg))
        for t in ([3.0, 17.0, 41.0, 90.0] if ctx.quick else [0.3, 1.0, 3.0, 7.0, 17.0, 29.0, 41.0, 60.0, 90.0])
    ])


# ------------------------------------------------------------------------------- C26
def limits(c, cfg, run):
    """on the real steps alone"""
    cfg = full(cfg)
    ts = [0.0] + [s["t"] for s in run.steps]
    d = np.diff(ts)
    c.true(np.all(d > 0), f"elapsed times not increasing: {ts}")
    if run.result is not None:
        c.close("final time", ts[-1], cfg["total"] * cfg["clock"], 1e-12)
        if cfg["step"] != "auto":
            # all equal but the last
            c.close("steps", d[:-1], np.full(len(d) - 1, evol.step_of(cfg)), 1e-9)
            c.true(d[-1] <= evol.step_of(cfg) * (1 + 1e-9), "last step longer than the others")
    if cfg["step"] != "auto" or cfg["groups"] is not None:
        return
    for i in range(1, len(run.steps)):
        p, q = run.steps[i - 1], run.steps[i]
        en = sum(p["en"].values())
        rel = sum(p["rel"].values()) if p["rel"] else 0 * p["g"]
        ab = sum(p["ab"].values()) if p["ab"] else 0 * p["g"]
        dt = d[i]
        tol = 1 + 1e-6
        if not run.te_optimized:
            c.true(np.all(np.abs(en) * dt <= cfg["max_en"] * p["g"] * ref.MEC2 * tol), f"step {i}: energy changed by more than its limit")
            c.true(np.all(-rel * dt <= 0.5 * tol), f"step {i}: more than half of the particles escaped")
            c.true(np.all(rel * dt <= cfg["max_dens"] * tol), f"step {i}: density increased more than its limit")
            c.true(np.all(np.abs(ab) * dt <= cfg["max_inj"] * cfg["amount"] * tol), f"step {i}: injection larger than its limit")
            if not p["rel"] and not p["ab"] and len(p["g"]) == len(q["g"]) and cfg["method"] == "euler":
                with np.errstate(all="ignore"):
                    r = q["n"] / p["n"]
                r = r[p["n"] > 0]
                c.true(np.all((r <= 1 + cfg["max_dens"] * tol) & (r >= 1 / (1 + cfg["max_dens"] * tol))), f"step {i}: density changed by {r}, more than its limit")


def c26(ctx):
    def observe(c, cfg):
        cf = full(cfg)
        run, sim, snaps, verdict = compare(c, cf, max_steps=45)
        run.te_optimized = sim.opt
        limits(c, cf, run)

    fixed = dict(
        total=[31.0, 1.3, 100.0, 40.2],
        step=[6.7, 31.0, 7.75, 0.9, 1e3],
        unit=["s", "min", "h", "yr"],
        procs=[("syn", "acc", "esc", "inj"), ("syn",), ("null", "inj"), ("quad",)],
        method=["euler", "heun"],
        bounds=[None, (25.0, 2.3e5)],
        form=["dict", "list"],
    )
    walker(ctx, "fixed steps", fixed, 3 if ctx.quick else 7, observe)

    # the last step much shorter (or hardly shorter) than the others; 6.5 is exact in binary
    def rest(c, cfg):
        observe(c, dict(procs=cfg["procs"], method=cfg["method"], unit=cfg["unit"], step=6.5, total=6.5 * (cfg["n"] + cfg["rest"])))

    rests = [1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1, 0.5, 0.9, 0.99, 0.999, 1 - 1e-4, 1 - 1e-6, 1 - 1e-8]
    ctx.parallel([
        lambda c, n=n, p=p: c.product("short rests", dict(n=[n], procs=[p], rest=rests, method=["euler", "heun"], unit=["s"]), lambda cfg: rest(c, cfg))
        for n in ((0, 1, 2, 4) if ctx.quick else (0, 1, 2, 3, 4, 7, 12)) for p in (("syn", "acc", "esc", "inj"), ("null", "inj"))
    ])
    auto = dict(
        step=["auto"],
        total=[11.0, 31.0, 1.3, 77.0],
        max_en=[0.1, 0.01, 0.6],
        max_dens=[0.3, 0.05, 2.0],
        max_inj=[1.0, 0.004, 0.03],
        procs=COMBOS[:1] + [("syn",), ("acc",), ("tho", "acc", "rin", "hump"), ("quad", "rmix"), ("spread",), ("steep", "rin"), ("sink", "sub"), ("null", "esc"), ("null", "rin"), ("null", "inj"), ("null",), ("dens", "rden", "aden"), ("const",)],
        optimize=[None, False, True],
        method=["euler", "heun"],
        groups=[None, 2, 3],
        grid=["default", "close", "irregular"],
        unit=["s", "h"],
        merge=[1.5e-3, None],
    )

    def split(c, cfg):
        cfg = dict(cfg)
        if cfg["method"] == "heun" and cfg["optimize"]:
            return
        if cfg["groups"]:
            M = cfg["groups"]
            p = cfg["procs"]
            cfg["groups"] = tuple(tuple(x for j, x in enumerate(p) if (j + m) % M != M - 1 or m == 0) for m in range(M))
            if cfg["grid"] != "default":
                cfg["shares"] = "smooth"
        observe(c, cfg)

    walker(ctx, "automatic steps", auto, 2 if ctx.quick else 3, split)
    auto_ = dict(step="auto", max_en=0.1, max_dens=0.3, max_inj=0.03)
    ladders(ctx, "automatic steps", [
        dict(auto_),
        dict(auto_, optimize=False, procs=("tho", "acc", "rin", "hump"), total=11.0),
        dict(auto_, method="heun", procs=("steep", "esc", "sub"), grid="log", unit="h"),
    ], ["clock", "amount", "lorentz", "total", "size", "max_en", "max_dens", "max_inj"], lambda c, cfg: split(c, {"groups": None, "method": "euler", "grid": "default", "optimize": None, "procs": BASE["procs"], **cfg}))


# ------------------------------------------------------------------------------- C27
def bins_ok(c, cfg, run):
    cfg = full(cfg)
    for i, s in enumerate(run.steps):
        g = s["g"]
        c.true(np.all(g > 0) and np.all(np.diff(g) > 0), f"step {i + 1}: Lorentz factors {g} not increasing")
        c.true(len(g) == len(s["n"]) == s["s"].shape[1] and all(len(v) == len(g) for k in ("en", "rel", "ab") for v in s[k].values()), f"step {i + 1}: arrays of different lengths")
        c.true(np.all(s["n"] >= 0), f"step {i + 1}: negative density")
        b = cfg["bounds"]
        if b is not None:
            c.true(g[0] >= b[0] * (1 - 1e-12) and g[-1] <= b[1] * (1 + 1e-12), f"step {i + 1}: Lorentz factors {g[0]}..{g[-1]} beyond the bounds {b}")
        elif cfg["merge"] is not None:
            gaps = np.diff(np.log10(g))[1:-1]
            c.true(np.all(gaps >= cfg["merge"] * (1 - 1e-9)), f"step {i + 1}: bins closer than {cfg['merge']}: {gaps}")


def c27(ctx):
    PP = [("quad",), ("spread",), ("acc",), ("syn",), ("syn", "acc"), ("const",), ("sink",), ("steep", "inj"), ("quad", "esc", "inj"), ("acc", "hump"), ("dens", "rin")]

    def observe(c, cfg):
        cfg = dict(cfg)
        g = evol.GRIDS[cfg["grid"]] if isinstance(cfg["grid"], str) else cfg["grid"]
        b = cfg["bounds"]
        if b is not None and g is not None and (g[0] < b[0] or g[-1] > b[1]):
            return
        if cfg["method"] == "heun" and cfg["optimize"]:
            return
        if cfg["step"] != "auto":
            cfg["optimize"] = None
        if cfg["groups"]:
            p = cfg["procs"]
            cfg["groups"] = (p, p[:1])
            if g is not None:
                cfg["shares"] = "smooth"
        run, *_ = compare(c, full(cfg), max_steps=40, probe=True)
        bins_ok(c, cfg, run)

    dims = dict(
        procs=PP,
        bounds=[None, (20.0, 3e5), (31.0, 1.9e5), (90.0, 4e4)],
        creep=[0.1, 0.013, 0.37],
        merge=[1.5e-3, None, 0.31, 0.36, 0.03],
        grid=["default", "irregular", "close", "int", "log"],
        method=["euler", "heun"],
        step=[6.7, "auto", 2.3],
        optimize=[None, False],
        groups=[None, True],
        total=[31.0, 55.0],
        max_en=[0.1, 0.3],
        max_dens=[0.5],
        size=[11, 25],
    )
    walker(ctx, "bins", dims, 2 if ctx.quick else 3, observe)
    # around merging
    dims2 = {**dims, "merge": [0.31, 0.36, 0.03], "grid": ["irregular", "default", "close"], "procs": [("quad", "esc", "inj"), ("syn",), ("acc",)], "groups": [True, None], "step": ["auto", 6.7]}
    walker(ctx, "merging", dims2, 2 if ctx.quick else 3, observe)
    dims3 = {**dims, "bounds": [(31.0, 1.9e5), (20.0, 3e5), (90.0, 4e4)], "creep": [0.013, 0.1, 0.37], "procs": [("acc", "hump"), ("quad",), ("spread",), ("syn", "acc"), ("syn",)], "groups": [True, None]}
    walker(ctx, "bounds", dims3, 2 if ctx.quick else 3, observe)

    ladders(ctx, "bins", [
        dict(bounds=(20.0, 3e5), procs=("acc", "hump"), creep=0.1, step=6.7, total=55.0),
        dict(bounds=(31.0, 1.9e5), procs=("syn", "acc"), step="auto", max_en=0.3, max_dens=0.5, groups=True, total=55.0),
        dict(bounds=None, procs=("quad", "esc", "inj"), step=6.7, merge=0.03, grid="irregular"),
        dict(bounds=None, procs=("quad", "esc", "inj"), step="auto", merge=0.31, max_en=0.3, method="heun", grid="close"),
    ], ["clock", "amount", "creep", "merge", "total", "size", "max_en"], lambda c, cfg: observe(c, {"grid": "default", "method": "euler", "optimize": None, "groups": None, "bounds": None, **cfg}))

    # Lorentz factors whose logarithm is the same: the bins cannot move, and collapse
    eps = np.spacing(1.0)

    def wide(x):
        """close to x, such that the next Lorentz factors have safely the same logarithm"""
        while len({np.log10(x * (1 + i * eps)) for i in range(-2, 7)}) > 1:
            x *= 1 + 3 * eps
        return float(x)

    base = [wide(x) for x in (1.1e4, 2.3e4, 5.1e4, 1.2e5)]

    def dup(c, cfg):
        g = sorted(base + [x for j in cfg["which"] for x in (base[j] * (1 + eps * 2), base[j] * (1 + eps * 4))[: cfg["n"]]])
        l = np.log10(g)
        same = np.diff(l) == 0
        cf = full(dict(grid=np.array(g), procs=("null",) + cfg["procs"], merge=cfg["merge"], step=cfg["step"], method=cfg["method"], max_en=0.1, groups=(("null",) + cfg["procs"], ("null",)), shares="smooth", optimize=cfg["optimize"]))
        if cfg["step"] != "auto" and cfg["optimize"] is not None:
            return
        run = Run(cf, probe=True).go()
        if run.error:
            raise run.error
        bins_ok(c, cf, run)
        for s in run.steps:
            c.true(np.all(np.diff(np.log10(s["g"])) > 0), "bins of the same logarithm not merged")
            c.true(np.allclose(sorted(set(np.round(np.log10(s["g"]), 9))), sorted(set(np.round(l, 9))), atol=1e-9), "bins lost")
            c.true(np.all(np.abs(s["s"].sum(axis=0) - 1) < 1e-9), "shares do not sum to one")
        c.true(all(len(s["g"]) == len(base) for s in run.steps), "bins of the same logarithm not merged")
        c.true(np.all(same == (np.diff(np.array(g)) < 1e-12 * base[0])), "the grid is not what was meant")
        # the spectrum is that of an evolution without the repeated bins
        w = evol.initial_shares("smooth", 2, len(g))
        first = [int(np.argmin(np.abs(np.array(g) - x))) for x in base]
        r2 = Run({**cf, "grid": np.array(base), "shares": w[:, first]}).go()
        if r2.error:
            raise r2.error
        c.equal("number of steps", len(run.steps), len(r2.steps))
        if not cfg["procs"]:
            for x, y in zip(run.steps, r2.steps):
                c.close("merged densities", x["n"], y["n"], 1e-7)
                c.close("shares of the merged bins", x["s"], y["s"], 1e-7, atol=1e-9)

    ctx.parallel([
        lambda c, m=m: c.product("duplicates", dict(which=[(1,), (0,), (3,), (2,), (1, 2), (0, 3), (0, 1, 2, 3)], n=[1, 2], procs=[(), ("inj",), ("esc",)], merge=[None, 1.5e-3], step=[6.7, "auto"], optimize=[None, False], method=[m]), lambda cfg: dup(c, cfg))
        for m in ("euler", "heun")
    ])


# ------------------------------------------------------------------------------- C28
def c28(ctx):
    fns = ("syn", "acc", "esc", "inj")

    def subsets(M):
        return [t for n in range(M + 1) for t in itertools.combinations(range(M), n)]

    def groups(M, assign, names):
        return tuple(tuple(f for f, a in zip(names, assign) if m in a) for m in range(M))

    def shares_ok(c, run):
        for i, s in enumerate(run.steps):
            c.true(np.all(np.abs(s["s"].sum(axis=0) - 1) < 1e-9) and np.all(s["s"] >= 0), f"step {i + 1}: shares {s['s']} do not sum to one")

    def partition(c, cfg, M, names):
        cf = full(dict(procs=names, grid="log", groups=groups(M, [cfg[f] for f in names], names), shares=cfg["shares"], method=cfg["method"], step=cfg["step"], max_en=0.2, max_dens=0.6, total=23.0, bounds=cfg.get("bounds")))
        run, sim, snaps, verdict = compare(c, cf, max_steps=12, probe=False)
        shares_ok(c, run)

    two = subsets(2)
    shares = [None, "smooth", "half", "last"] if not ctx.quick else [None, "smooth"]
    modes = [("euler", 7.9), ("heun", 7.9), ("euler", "auto")]
    if not ctx.quick:
        modes += [("heun", "auto")]
    jobs = []
    for method, step in modes:
        for first in two:
            jobs.append(lambda c, m=method, s=step, a=first: c.product(
                "two groups", dict(syn=[a], acc=two, esc=two, inj=two, shares=shares, method=[m], step=[s]), lambda cfg: partition(c, cfg, 2, fns)))
    three = subsets(3)
    for names in (("quad", "flow", "share") if ctx.quick else ("spread", "flow", "rden", "share"),):
        for a in three:
            jobs.append(lambda c, names=names, a=a: c.product(
                "three groups", {**{n: three if i else [a] for i, n in enumerate(names)}, "shares": ["smooth"] if ctx.quick else ["smooth", "half"], "method": ["euler", "heun"], "step": [9.1], "bounds": [None]},
                lambda cfg: partition(c, cfg, 3, names)))
    # subgroups whose bins move by very different amounts, or hardly at all
    speeds = ("null", "slow", "slower", "syn")
    moving = [t for n in ((0, 1) if ctx.quick else (0, 1, 2)) for t in itertools.combinations(speeds, n)]
    for first in moving:
        jobs.append(lambda c, first=first: c.product(
            "groups of different speeds", dict(first=[first], second=moving, other=[(), ("esc", "inj")], shares=["smooth"] if ctx.quick else ["smooth", "half", "last"], grid=["log", "irregular"] if ctx.quick else ["log", "irregular", "close"], method=["euler", "heun"], step=[7.9], long=[False] if ctx.quick else [False, True]),
            lambda cfg: speed(c, cfg)))

    def speed(c, cfg):
        o = cfg["other"]
        first, second = cfg["first"] + o[:1], cfg["second"] + o[1:]
        names = tuple(dict.fromkeys(first + second))
        if not any(KIND[x] == "en" for x in names):
            names += ("null",)
        cf = full(dict(procs=names, grid=cfg["grid"], groups=(first, second), shares=cfg["shares"], method=cfg["method"], step=cfg["step"], total=300.0 if cfg["long"] else 23.0))
        run, *_ = compare(c, cf, max_steps=40 if cfg["long"] else 5, probe=False)
        shares_ok(c, run)

    def scaled(c, cfg):
        if "size" in cfg:
            cfg = dict(cfg, grid=np.exp(np.linspace(np.log(40.0), np.log(1.6e5), cfg["size"])))
        run, *_ = compare(c, full(cfg), max_steps=12, probe=False)
        shares_ok(c, run)

    ladders(ctx, "groups", [
        dict(procs=fns, grid="log", groups=(("syn", "esc"), ("acc", "inj", "esc")), shares="smooth", step=7.9, total=23.0),
        dict(procs=("acc", "hump", "esc"), grid="log", groups=(("hump", "acc"), ("acc", "esc")), shares="half", method="heun", step=7.9, total=23.0),
        dict(procs=fns, grid="irregular", groups=(("acc",), ("esc", "acc"), ("inj",)), shares="smooth", step="auto", max_en=0.2, max_dens=0.6, total=23.0),
    ], ["clock", "amount", "lorentz", "total", "step", "size"], scaled)

    # bins added and removed at the bounds
    fns2 = ("acc", "hump", "esc") if ctx.quick else ("acc", "hump", "esc", "quad")

    def edges(c, cfg):
        cf = full(dict(
            procs=fns2, grid="log", groups=groups(2, [cfg[f] for f in fns2], fns2), shares=cfg["shares"], method=cfg["method"], step=cfg["step"],
            max_en=0.2, max_dens=0.6, total=23.0, bounds=cfg["bounds"], creep=cfg["creep"], optimize=cfg["optimize"]))
        if (cfg["method"] == "heun" or cfg["step"] != "auto") and cfg["optimize"]:
            return
        run, *_ = compare(c, cf, max_steps=15, probe=False)
        shares_ok(c, run)
        bins_ok(c, cf, run)

    for method, step, optimize in [("euler", 7.9, None), ("heun", 7.9, None), ("euler", "auto", False), ("euler", "auto", None)]:
        for sh in ("half", "last", "smooth"):
            jobs.append(lambda c, m=method, s=step, o=optimize, sh=sh: c.product(
                "groups at the bounds", dict(acc=two[1:], hump=two[1:], esc=two if not ctx.quick else two[1:3], **({} if ctx.quick else {"quad": two}),
                                             shares=[sh], bounds=[(20.0, 3e5), (38.7, 1.63e5)], creep=[0.013, 0.1], method=[m], step=[s], optimize=[o]), lambda cfg: edges(c, cfg)))
    ctx.parallel(jobs)

    # equivalences, on the real code alone
    def agree(c, what, a, b, rtol=1e-9, shares=False):
        c.true((a.error is None) == (b.error is None), f"{what}: {a.error!r} / {b.error!r}")
        if a.error is not None:
            return
        c.equal(f"{what}: number of steps", len(a.steps), len(b.steps))
        for i, (x, y) in enumerate(zip(a.steps, b.steps)):
            c.close(f"{what}, step {i + 1}: elapsed time", x["t"], y["t"], 1e-9)
            c.close(f"{what}, step {i + 1}: gamma", x["g"], y["g"], rtol)
            c.close(f"{what}, step {i + 1}: density", x["n"], y["n"], 100 * rtol)

    def equivalent(c, cfg):
        p = cfg["procs"]
        kw = dict(procs=p, grid=cfg["grid"], method=cfg["method"], step=cfg["step"], max_en=0.2, max_dens=0.6, total=23.0, bounds=cfg["bounds"], merge=cfg["merge"])
        plain_ = Run(full(kw)).go()
        if plain_.error is not None:
            return
        one = Run(full(dict(kw, groups=(p,)))).go()
        agree(c, "single subgroup / none", one, plain_)
        agree(c, "order of the functions", Run(full(dict(kw, groups=(p[::-1],)))).go(), plain_)
        if "rden" not in p:  # depends on the share of the last one
            extra = Run(full(dict(kw, groups=(p, ())))).go()
            agree(c, "second subgroup without particles and processes / none", extra, plain_)
        # identical subgroups, of processes that do not depend on the shares and are linear
        lin = tuple(x for x in p if KIND[x] != "ab" and x not in ("share", "rden"))
        if set(lin) == set(p):
            for M in (2, 3):
                for sh in ("smooth", "equal", "half"):
                    agree(c, f"{M} identical subgroups, {sh} / one", Run(full(dict(kw, groups=(p,) * M, shares=sh if cfg["grid"] != "default" else None))).go(), plain_)
        # default initial shares
        if cfg["grid"] != "default":
            N = evol.ngrid(full(kw))
            s = np.zeros((2, N))
            s[0] = 1
            g2 = (p, p[:1])
            a, b = Run(full(dict(kw, groups=g2))).go(), Run(full(dict(kw, groups=g2, shares=s))).go()
            agree(c, "default initial shares", a, b)
            # names of the groups of all-other processes: the order of later subgroups is irrelevant
            w = evol.initial_shares("smooth", 3, N)
            if "share" not in p and "rden" not in p:
                a = Run(full(dict(kw, groups=(p, p[:1], p[1:]), shares=w))).go()
                b = Run(full(dict(kw, groups=(p, p[1:], p[:1]), shares=w[[0, 2, 1]]))).go()
                agree(c, "order of the later subgroups", a, b)

    procs = COMBOS + [("syn", "acc"), ("tho", "acc"), ("quad", "esc"), ("spread", "rmix"), ("steep", "rin"), ("acc", "inj"), ("syn", "esc", "hump")]
    ctx.parallel([
        lambda c, p=p: c.product("equivalences", dict(procs=[p], grid=["log", "irregular", "default"] , method=["euler", "heun"], step=[6.7, "auto"], bounds=[None] if ctx.quick else [None, (20.0, 3e5)], merge=[1.5e-3] if ctx.quick else [1.5e-3, 0.36]), lambda cfg: equivalent(c, cfg))
        for p in procs
    ])


# ------------------------------------------------------------------------------- C29
def c29(ctx):
    def observe(c, cfg):
        cfg = dict(cfg)
        g = evol.GRIDS[cfg["grid"]]
        b = cfg["bounds"]
        if b is not None and g is not None and (g[0] < b[0] or g[-1] > b[1]):
            return
        if cfg["groups"]:
            M, p = cfg["groups"], cfg["procs"]
            cfg["groups"] = tuple(tuple(x for j, x in enumerate(p) if (j + m) % 3) or p[:1] for m in range(M))
            if g is not None:
                cfg["shares"] = "smooth"
        cf = full(cfg)
        run, sim, snaps, verdict = compare(c, cf, max_steps=25, probe=True)
        n = len(snaps) - 1
        M = len(sim.groups)
        # distribution installed in the region
        for i in range(n):
            s, w = run.steps[i], snaps[i + 1]
            want = ref.density(w["n_e"], evol.probes(s["g"]))
            edges = ref.bounds(w["n_e"])
            x = evol.probes(s["g"])
            clear = np.all([np.abs(x / e - 1) > 1e-9 for e in edges], axis=0) | np.isin(x, w["g"])
            c.close(f"step {i + 1}: distribution of the region", s["probe"][clear], want[clear], 1e-6, atol=1e-15 * float(want.max() or 1))
            kept = np.array([np.min(np.abs(gg / w["n_e"].get("gamma", edges) - 1)) < 1e-9 for gg in s["g"]]) if w["n_e"]["family"] == "Interp" else np.ones(len(s["g"]), bool)
            inside = kept & ~np.isin(s["n"], [0.0])
            c.close(f"step {i + 1}: distribution of the region at the reported Lorentz factors", s["probe"][: len(s["g"])][inside], s["n"][inside], 1e-6)
        # what was handed over is not modified later
        for i, (h, s) in enumerate(zip(run.held, run.steps)):
            now = run.plain(h)
            for k in ("t", "g", "n", "s"):
                c.true(np.array_equal(now[k], s[k]), f"{k} handed to the callback at step {i + 1} changed afterwards")
            for k in ("en", "rel", "ab"):
                for p in s[k]:
                    c.true(np.array_equal(now[k][p], s[k][p]), f"rate {p} handed to the callback at step {i + 1} changed afterwards")
        if run.result is not None and run.steps:
            last, res = run.steps[-1], run.plain(run.result)
            for k in ("t", "g", "n", "s"):
                c.true(np.array_equal(last[k], res[k]), f"{k} of the result is not that of the last callback")
            for k in ("en", "rel", "ab"):
                c.equal(f"{k} rates of the result", sorted(res[k]), sorted(last[k]))
                for p in last[k]:
                    c.true(np.array_equal(last[k][p], res[k][p]), f"{p} of the result is not that of the last callback")
        # arguments of the rate functions
        G = np.concatenate([x[0] for x in sim.log])
        N = np.concatenate([x[1] for x in sim.log])
        S = np.concatenate([x[2] for x in sim.log], axis=1)
        upto = run.steps[n - 1]["ncalls"] if n else 0
        seen = {p: 0 for p in cf["procs"]}
        for name, g_, n_, s_ in run.calls[:upto]:
            seen[name] += 1
            c.true(g_.ndim == 1 and n_.shape == g_.shape and s_.shape == (M, g_.size), f"{name} called with arrays of shapes {g_.shape}, {n_.shape}, {s_.shape}")
            for j in range(g_.size):
                ok = (np.abs(G - g_[j]) <= 1e-9 * g_[j]) & (np.abs(N - n_[j]) <= 1e-6 * np.abs(n_[j]) + 1e-30)
                ok &= np.all(np.abs(S - s_[:, j : j + 1]) <= 1e-6, axis=0)
                c.true(np.any(ok), lambda: f"{name} called with gamma {g_[j]!r}, density {n_[j]!r}, shares {s_[:, j]}, which is not the state of any bin")
        # rates are those of the functions in that state (all rates up to date)
        if not sim.opt:
            for i in range(n):
                s, w = run.steps[i], snaps[i + 1]
                state = lambda: None
                state.r = sim.r
                keep, sim.r.n_e = sim.r.n_e, w["n_e"]
                for k in ("en", "rel", "ab"):
                    for p in s[k]:
                        if p in ("ssc", "tho"):
                            continue
                        v = np.broadcast_to(PROCS[p][1](state, s["g"], s["n"], s["s"]), s["g"].shape)
                        c.close(f"step {i + 1}: {p}", s[k][p], v, 1e-9, atol=1e-30)
                sim.r.n_e = keep

    dims = dict(
        procs=COMBOS,
        method=["euler", "heun"],
        step=[6.7, "auto"],
        optimize=[None],
        groups=[None, 2, 3],
        grid=["default", "log", "irregular", "close"],
        bounds=[None, (20.0, 3e5), (31.0, 1.9e5)],
        merge=[1.5e-3, None, 0.36],
        dist=["pl", "interp", "narrow"],
        form=["dict", "list"],
        max_en=[0.1, 0.3],
        max_dens=[0.5],
        size=[11, 7],
        creep=[0.1, 0.013],
    )

    def obs(c, cfg):
        if cfg["groups"] and cfg["form"] != "dict":
            return
        observe(c, cfg)

    walker(ctx, "state", dims, 2 if ctx.quick else 3, obs)


# ------------------------------------------------------------------------------- C30
def c30(ctx):
    """constructor options, valid and invalid"""
    N = 10
    G = evol.GRIDS["log"]

    def bad_sum(M, n):
        w = evol.initial_shares("smooth", M, n)
        w[-1, n // 2] += 0.01
        return w

    dims = dict(
        total=["31 s", "0.5 min", "2 m", "1e-6 yr"],
        step=["6.7 s", "auto", "0.11 min", "fast", "number", "3 cm", "AUTO"],
        method=["euler", "heun", "HEUN", "Euler", "rk4", ""],
        grid=["log", None, "unsorted", "repeated", "below", "above", "int", "reversed"],
        bounds=["wide", None, "exact"],
        optimize=[None, True, False],
        form=["dict", "list", "tuple", "alone", "generator"],
        procs=["all", "energy", "repeated energy", "repeated injection", "same name"],
        groups=[None, "two", "one", "unknown name", "overlapping", "three"],
        shares=[None, "good", "sum", "fewer bins", "more bins", "more groups", "fewer groups"],
        max_en=[0.1, 0.02],
        merge=[1.5e-3, None],
        callback=[True, False],
    )
    if ctx.quick:
        k = 2
    else:
        k = 3
    NAMES = dict(all=("syn", "acc", "esc", "inj"), energy=("syn",))

    def build(cfg):
        """(kwargs maker, valid?) from the documentation"""
        from agnpy.time_evolution.time_evolution import TimeEvolution

        blob = scene.blob(evol.fresh_region(full(dict())))
        valid = True
        procs = NAMES.get(cfg["procs"], NAMES["all"])
        run = Run(full(dict(procs=procs, form="dict" if cfg["form"] == "generator" else cfg["form"])), blob=blob)
        kw = run.functions()
        names = dict(run.names)
        if cfg["form"] == "generator":
            kw = {k_: (lambda d: (f for f in d.values()))(v) for k_, v in kw.items()}
            names = {p: str(run.fns[p]) for p in procs}
        if cfg["procs"].startswith("repeated"):
            arg = "energy_change_functions" if "energy" in cfg["procs"] else "rel_injection_functions"
            p = "syn" if "energy" in cfg["procs"] else "esc"
            if cfg["form"] in ("list", "tuple"):
                kw[arg] = list(kw[arg]) + [run.fns[p]]
                valid = False
        if cfg["procs"] == "same name":
            if cfg["form"] == "dict":
                kw["rel_injection_functions"] = {"acc": run.fns["esc"]}
                names["esc"] = "acc"
            elif cfg["form"] == "generator":
                return None
            else:
                kw["rel_injection_functions"] = [run.fns["acc"]]
                names["esc"] = names["acc"]
            valid = False
        total = u.Quantity(cfg["total"])
        if cfg["total"] == "2 m":
            valid = False
        step = cfg["step"]
        if step == "number":
            step, valid = 6.7, False
        elif step in ("fast", "AUTO"):
            valid = False
        elif step != "auto":
            if step == "3 cm":
                valid = False
            step = u.Quantity(step)
        method = cfg["method"]
        if method.lower() not in ("euler", "heun"):
            valid = False
        b = {"wide": (20.0, 3e5), None: None, "exact": (35.0, 1.7e5)}[cfg["bounds"]]
        g = {
            "log": G, None: None, "unsorted": G[[0, 2, 1, *range(3, N)]], "repeated": G[[0, 1, 1, *range(3, N)]],
            "below": np.concatenate([[9.0], G[1:]]), "above": np.concatenate([G[:-1], [3.1e5]]), "int": evol.GRIDS["int"],
            "reversed": G[::-1],
        }[cfg["grid"]]
        if cfg["grid"] in ("unsorted", "repeated", "reversed"):
            valid = False
        if cfg["grid"] in ("below", "above") and b is not None:
            valid = False
        opt = cfg["optimize"]
        if opt and (cfg["step"] != "auto" or method.lower() == "heun"):
            valid = False
        gr = cfg["groups"]
        if gr is not None:
            t = lambda ps: [names[p] for p in ps if p in names]
            gr = {
                "two": [t(("syn", "acc", "esc")), t(("syn", "inj"))],
                "one": [t(procs)],
                "overlapping": [t(procs), t(procs)],
                "three": [t(("syn",)), t(("syn", "acc")), t(("esc", "inj"))],
                "unknown name": [t(("syn",)), ["other"]],
            }[gr]
            if cfg["groups"] == "unknown name":
                valid = False
        sh = cfg["shares"]
        if sh is not None:
            M = len(gr) if gr is not None else 2
            n = len(g) if g is not None else N
            if gr is None or g is None:
                valid = False
            if sh == "good":
                w = evol.initial_shares("smooth", M, n)
            elif sh == "sum":
                w, valid = bad_sum(M, n), False
            elif sh == "fewer bins":
                w, valid = evol.initial_shares("smooth", M, n - 1), False
            elif sh == "more bins":
                w, valid = evol.initial_shares("smooth", M, n + 1), False
            elif sh == "more groups":
                w, valid = evol.initial_shares("smooth", M + 1, n), False
            else:
                w, valid = evol.initial_shares("smooth", M - 1, n) if M > 1 else np.ones((2, n)) / 2, False
            sh = w
        calls = []
        kw.update(step_duration=step, initial_gamma_array=None if g is None else g.copy(), gamma_bounds=b, optimize_recalculating_slow_rates=opt, method=method, subgroups=gr, subgroups_initial_density=sh, max_energy_change_per_interval=cfg["max_en"], max_density_change_per_interval=0.5, merge_bins_closer_than=cfg["merge"], distribution_change_callback=calls.append if cfg["callback"] else None)
        return blob, lambda: TimeEvolution(blob, total, **kw), valid, total, calls

    def observe(c, cfg):
        built = build(cfg)
        if built is None:
            return
        blob, make, valid, total, calls = built
        before = (blob.n_e, blob.B, blob.R_b, blob.z, blob.Gamma, blob.delta_D, blob.gamma_e_size)
        try:
            te = make()
        except Exception as e:
            if valid:
                raise
            c.outcome(f"{type(e).__name__}")
            te = None
        after = (blob.n_e, blob.B, blob.R_b, blob.z, blob.Gamma, blob.delta_D, blob.gamma_e_size)
        c.true(all(x is y or np.all(x == y) for x, y in zip(before, after)) and blob.n_e is before[0], "the region was changed by the construction")
        c.true((te is not None) == valid, f"{'valid' if valid else 'contradictory'} configuration {'accepted' if te is not None else 'refused'}")
        if te is None:
            return
        # runs, a few steps
        n_e = blob.n_e
        res = te.evaluate()
        c.close("total time", res.total_time.to_value("s"), total.to_value("s"), 1e-12)
        c.true(blob.n_e is not n_e, "distribution not replaced")
        c.true(bool(calls) == bool(cfg["callback"]), "callback")
        c.true(np.all(np.isfinite(res.gamma)) and np.all(np.isfinite(res.density.to_value("cm-3"))), "not finite")
        c.true(np.all(np.diff(res.gamma) > 0), "not increasing")

    walker(ctx, "options", dims, k, observe)
    # options that depend on one another
    base = {n: [v[0]] for n, v in dims.items()}
    ctx.parallel([
        lambda c, st=st: c.product("steps and methods", {**base, "step": [st], "method": dims["method"], "optimize": dims["optimize"], "groups": [None, "two"], "bounds": ["wide", None], "total": dims["total"][:2]}, lambda cfg: observe(c, cfg))
        for st in dims["step"]
    ] + [
        lambda c, g=g: c.product("grids, bounds and shares", {**base, "grid": [g], "bounds": dims["bounds"], "groups": [None, "two", "three"] if ctx.quick else dims["groups"], "shares": dims["shares"][:4] if ctx.quick else dims["shares"], "method": ["euler", "heun"] if not ctx.quick else ["euler"]}, lambda cfg: observe(c, cfg))
        for g in dims["grid"]
    ])

    # documented ways of giving the same functions, all equivalent
    def ways(c, cfg):
        p = cfg["procs"]
        kw = dict(procs=p, grid=cfg["grid"], method=cfg["method"], step=cfg["step"], max_en=0.2, max_dens=0.6, total=23.0)
        base = Run(full(dict(kw, form="dict"))).go()
        for form in ("list", "tuple", "alone"):
            r = Run(full(dict(kw, form=form))).go()
            if r.error is not None:
                raise r.error
            for x, y in zip(base.steps, r.steps):
                c.close(f"{form}: gamma", y["g"], x["g"], 1e-12)
                c.close(f"{form}: density", y["n"], x["n"], 1e-11)
            c.equal(f"{form}: steps", len(r.steps), len(base.steps))

    ctx.parallel([lambda c, p=p: c.product("forms", dict(procs=[p], grid=["log", "default"], method=["euler", "heun"], step=[6.7, "auto"]), lambda cfg: ways(c, cfg)) for p in COMBOS])

    # impossible states
    def impossible(c, cfg):
        cf = full(cfg)
        run, sim, snaps, verdict = compare(c, cf, max_steps=30)
        c.outcomes.add("impossible " + verdict)

    IMP = dict(
        procs=[("sink", "esc"), ("syn", "sub"), ("null", "sub"), ("steep", "esc"), ("null", "esc"), ("syn",), ("quad",)],
        step=["auto", 60.0, 300.0, 2.5e3],
        total=[3e3],
        dist=["pl", "empty", "narrow"],
        method=["euler", "heun"],
        grid=["default", "two", "close"],
        groups=[None, True],
        max_en=[0.3],
        max_dens=[0.9],
    )

    def imp(c, cfg):
        if cfg["groups"]:
            cfg = dict(cfg, groups=(cfg["procs"], cfg["procs"][1:]))
        impossible(c, cfg)

    ctx.parallel([lambda c, p=p: c.product("impossible", {**IMP, "procs": [p]}, lambda cfg: imp(c, cfg)) for p in IMP["procs"]])


# ------------------------------------------------------------------------------- C31
def c31(ctx):
    # consecutive runs against one
    def compositions(n):
        if n == 0:
            yield ()
        for i in range(1, n + 1):
            for rest in compositions(n - i):
                yield (i,) + rest

    n = 4 if ctx.quick else 6
    h = 5.875  # exact in binary, a sum of steps is the total time

    wholes = {}

    def chain(c, cfg):
        parts = cfg["parts"]
        cf = full(dict(procs=cfg["procs"], method=cfg["method"], bounds=cfg["bounds"], merge=cfg["merge"], grid=cfg["grid"], step=h, groups=None))
        if cfg["groups"]:
            cf["groups"] = (cf["procs"], cf["procs"][:1])
            cf["shares"] = "smooth" if cfg["grid"] != "default" else None
        b = cf["bounds"]
        g = evol.gammas(cf)
        if b is not None and g is not None and (g[0] < b[0] or g[-1] > b[1]):
            return
        key = repr(sorted((k_, repr(v)) for k_, v in cf.items()))
        whole = wholes.get(key)
        if whole is None:
            wholes.clear()
            whole = wholes[key] = Run({**cf, "total": h * n}).go()
        if whole.error is not None:
            return
        blob, last, steps, t = None, None, [], 0.0
        for k in parts:
            one = {**cf, "total": h * k}
            if last is not None:
                one["grid"] = np.array(last.gamma)
                if cf["groups"]:
                    one["shares"] = np.array(last.density_subgroups)
            r = Run(one, blob=blob).go()
            if r.error is not None:
                raise r.error
            blob, last = r.blob, r.result
            steps += [(t + s["t"], s) for s in r.steps]
            t += h * k
        c.equal("number of steps", len(steps), len(whole.steps))
        for i, ((tt, x), y) in enumerate(zip(steps, whole.steps)):
            c.close(f"step {i + 1}: elapsed time", tt, y["t"], 1e-9)
            c.close(f"step {i + 1}: gamma", x["g"], y["g"], 1e-9)
            c.close(f"step {i + 1}: density", x["n"], y["n"], 1e-7, atol=1e-15 * y["n"].max())
            c.close(f"step {i + 1}: shares", x["s"], y["s"], 1e-6, atol=1e-9)
        x = evol.probes(whole.steps[-1]["g"])
        inside = (x > whole.steps[-1]["g"][0] * (1 + 1e-9)) & (x < whole.steps[-1]["g"][-1] * (1 - 1e-9))
        c.close("distribution of the region", blob.n_e(x[inside]).to_value("cm-3"), whole.blob.n_e(x[inside]).to_value("cm-3"), 1e-6, atol=1e-15)

    parts = list(compositions(n))[:-1]
    ctx.parallel([
        lambda c, p=p: c.product("consecutive runs", dict(procs=[p], method=["euler", "heun"], bounds=[None, (20.0, 3e5)], merge=[1.5e-3, 0.31], grid=["log", "default"] if ctx.quick else ["log", "default", "irregular", "close"], groups=[False, True], parts=parts), lambda cfg: chain(c, cfg))
        for p in (COMBOS[:4] + [("quad",), ("acc", "rin")] if ctx.quick else COMBOS + [("quad",), ("acc", "rin"), ("spread", "esc"), ("const", "hump")])
    ])

    # sequences of different evolutions of the same region, in lockstep
    OPS = {
        "cool": dict(procs=("syn",), total=9.0, step=4.1),
        "accelerate": dict(procs=("acc", "inj"), total=13.0, step=5.0, method="heun"),
        "auto": dict(procs=("quad", "esc"), total=11.0, step="auto", max_en=0.1, max_dens=0.5),
        "rest": dict(procs=("null",), total=5.0, step=5.0, norm=1.7),
        "selfc": dict(procs=("tho", "acc"), total=7.0, step=3.3),
        "bounds": dict(procs=("spread", "hump"), total=11.0, step=5.2, bounds=(3.0, 2e6), creep=0.05),
        "regrid": dict(procs=("syn", "acc"), total=6.0, step=2.9, regrid=True),
        "merge": dict(procs=("quad",), total=12.0, step=6.1, merge=0.34),
    }

    def make():
        r = evol.fresh_region(full({}))
        return dict(blob=scene.blob(r), g=None), dict(r=r, dead=False)

    def step(c):
        def do(sut, model, op):
            if model["dead"]:
                return
            cf = full(OPS[op])
            regrid = cf.pop("regrid", False)
            norm = cf.pop("norm", None)
            if norm is not None:
                # the user rescales the distribution left by the previous evolution
                for d, kw in ((model["r"].n_e, "norm"), (model["r"].n_e, "k")):
                    if kw in d:
                        d[kw] *= norm
                        setattr(sut["blob"].n_e, kw, getattr(sut["blob"].n_e, kw) * norm)
            if sut["g"] is not None and not regrid:
                cf["grid"] = sut["g"]
            b = cf["bounds"]
            try:
                run, sim, snaps, verdict = compare(c, cf, r=model["r"], blob=sut["blob"], rtol=1e-6)
            except evol.Ambiguous:
                model["dead"] = True
                return
            if verdict != "ended":
                model["dead"] = True
                return
            sut["g"] = run.steps[-1]["g"]
            x = evol.probes(sut["g"])
            lo, hi = ref.bounds(model["r"].n_e)
            ok = (np.abs(x / lo - 1) > 1e-7) & (np.abs(x / hi - 1) > 1e-7)
            c.close("distribution of the region", sut["blob"].n_e(x[ok]).to_value("cm-3"), ref.density(model["r"].n_e, x[ok]), 1e-5, atol=1e-12)
            # the reference continues from the very same state (no accumulation of rounding)
            if model["r"].n_e["family"] == "Interp":
                model["r"].n_e["gamma"] = [float(v) for v in np.asarray(sut["blob"].n_e.gamma_input)]
        return do

    depth = 3 if ctx.quick else 4
    ctx.parallel([lambda c, o=o: c.sequences("different evolutions", make, list(OPS), step(c), depth, first=[o]) for o in OPS])

    # null rates, linearity
    def rest(c, cfg):
        cf = full(dict(procs=("null",), **cfg, max_en=0.1))
        run = Run(cf)
        g0 = evol.gammas(cf)
        if g0 is None:
            g0 = ref.logspace(*ref.bounds(evol.EDISTS[cfg["dist"]]), cf["size"])
        n0 = ref.density(evol.EDISTS[cfg["dist"]], g0)
        if cfg["grid"] == "irregular":
            cf["merge"] = run.cfg["merge"] = None
        run.go()
        if run.error:
            raise run.error
        got = run.plain(run.result)
        c.close("Lorentz factors", got["g"], g0, 1e-12)
        c.close("densities", got["n"], n0, 1e-9)

    ctx.parallel([lambda c, d=d: c.product("null rates", dict(dist=[d], grid=["default", "log", "irregular", "int", "close", "samples"], method=["euler", "heun"], step=["auto", 6.7, 31.0, 100.0], total=[31.0, 2e6]), lambda cfg: rest(c, cfg), lambda cfg: not (cfg["total"] == 2e6 and cfg["step"] != "auto")) for d in evol.EDISTS])

    def linear(c, cfg):
        cf = full(dict(procs=cfg["procs"], method=cfg["method"], step=cfg["step"], grid=cfg["grid"], max_en=0.1, max_dens=0.5, bounds=cfg["bounds"], groups=None))
        out = []
        for f in (1.0, cfg["factor"]):
            r = evol.fresh_region(cf)
            r.n_e["k"] *= f
            out.append(Run(cf, blob=scene.blob(r)).go())
        a, b = out
        if a.error or b.error:
            raise a.error or b.error
        c.equal("number of steps", len(a.steps), len(b.steps))
        for x, y in zip(a.steps, b.steps):
            c.close("Lorentz factors", y["g"], x["g"], 1e-11)
            c.close("densities", y["n"], cfg["factor"] * x["n"], 1e-8)

    ctx.parallel([lambda c, p=p: c.product("linearity", dict(procs=[p], factor=[7.3e-9, 0.31, 1.9e6], method=["euler", "heun"], step=["auto", 6.7], grid=["default", "log"], bounds=[None, (20.0, 3e5)]), lambda cfg: linear(c, cfg)) for p in [("syn",), ("acc",), ("syn", "acc", "esc"), ("quad", "rin"), ("spread", "rmix"), ("steep",)]])

    # number of particles
    def number(c, cfg):
        p = cfg["procs"]
        errs = []
        for m in (1, 2, 4):
            cf = full(dict(procs=p, method=cfg["method"], step=31.0 / (16 * m), dist=cfg["dist"], size=60 * m, merge=None))
            run = Run(cf)
            g0 = ref.logspace(*ref.bounds(evol.EDISTS[cfg["dist"]]), cf["size"])
            N0 = ref.loglog(ref.density(evol.EDISTS[cfg["dist"]], g0), g0)
            run.go()
            if run.error:
                raise run.error
            got = run.plain(run.result)
            N1 = ref.loglog(got["n"], got["g"])
            # rate of the relative changes is uniform
            want = N0 * np.exp(cfg["rate"] * 31.0)
            errs.append(abs(N1 / want - 1))
        c.outcome(errs)
        c.true(errs[-1] < 4e-3, f"number of particles differs by {errs} from that expected")
        c.true(errs[-1] <= 0.7 * errs[0] + 1e-4, f"number of particles does not converge: {errs}")

    evol.PROCS["uni"] = ("rel", lambda sim, g, n, s: -0.0071 + 0 * g, "h-1")
    evol.KIND["uni"] = "rel"
    cases = [(("syn",), 0.0), (("acc",), 0.0), (("syn", "acc"), 0.0), (("quad",), 0.0), (("spread",), 0.0), (("steep", "const"), 0.0), (("syn", "uni"), -0.0071), (("quad", "uni"), -0.0071), (("tho", "acc"), 0.0)]
    ctx.parallel([lambda c, p=p, r=r: c.product("number of particles", dict(procs=[p], rate=[r], method=["euler", "heun"], dist=["pl", "bpl", "interp"]), lambda cfg: number(c, cfg)) for p, r in cases])


c25.bounds = "configurations of processes, method, distribution, grid, step, form, unit, number of bins within the deviation bound; all sets of up to 2 (3) of 23 processes with either method; analytic limits with 4 refinements; ladders of scales of durations, densities, Lorentz factors, total times, steps and numbers of bins around 4 evolutions"
c26.bounds = "total times, steps, limits, processes, recalculation of slow rates, subgroups, bounds within the deviation bound; up to 45 steps compared each; last steps from 1e-9 to 1 - 1e-8 of the others; ladders of scales and of each limit around 3 automatic evolutions"
c27.bounds = "processes, bounds, creep, merging distance, grids, methods, step modes, subgroups within the deviation bound from three base states; grids of bins with equal logarithm; ladders of the distances, scales and limits around 4 evolutions"
c28.bounds = "all assignments of 4 functions to any of 2 subgroups, of 3 (4) functions to any of 3 subgroups, x initial shares x methods x step modes; pairs of subgroups of speeds differing by up to six orders of magnitude; equivalences of subgroup configurations on the real code; ladders of scales around 3 evolutions of subgroups"
c29.bounds = "processes, methods, step modes, subgroups, grids, bounds, merging, distributions within the deviation bound; every step and every call of every rate function observed"
c30.bounds = "all combinations of constructor options, valid and invalid, within the deviation bound; full products of the options that depend on one another; evolutions reaching impossible states"
c31.bounds = "all compositions of 4 (6) steps into consecutive runs x processes x methods x bounds x merging x subgroups; all sequences of 3 (4) of 8 different evolutions of one region; null, scaled and refined evolutions"
for _f in (c25, c26, c27, c28, c29, c30, c31):
    _f.assumptions = ["evolutions in which a decision (merging, removing or recalculating a bin) hinges on the last digits of a floating point number are compared only up to that step"]
