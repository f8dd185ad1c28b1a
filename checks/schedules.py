"""C37 computations in several threads, C38 interrupted computations: every place (line of agnpy) at
which a computation can be preempted by other ones, or stopped, is visited on the real code."""
import copy
import os
import numpy as np
import astropy.units as u
from mc import scene, build, sched, evol
from mc import catalog as cat
from mc.catalog import World, Live, SPECTRAL, OTHER, MAKERS, ALL, cgs
from checks import fit
from checks.interact import _mutations, same
from agnpy import spectra as sp
from agnpy.compton import kernels as kn
from agnpy.synchrotron import synchrotron as sy
from agnpy.absorption import targets_absorption as ab
from agnpy.utils import geometry as geo, conversion as conv, math as am

OTHER_SCENE = dict(R_b=3.1e16, z=0.62, delta_D=17.0, Gamma=13.0, B=1.3, n_e="lp", ne_size=27, np_size=13, xi=0.3)
OTHER_TARGETS = {
    "CMB": dict(z=0.62), "PS": dict(L=7.3e45, eps=5.1e-5), "Disk": dict(M=1.1e42, L=4.4e46, eta=0.11, Rin=8.8, Rout=310.0),
    "BLR": dict(L=4.4e46, xi=0.07, R=2.3e17), "DT": dict(L=4.4e46, xi=0.3, T=770.0, R=3.1e18),
}  # fmt: skip
MODELS = {
    "bb Disk": ("L_disk", "M_BH", "eta", "R_in", "R_out"), "PS": ("L_0", "epsilon_0"), "BLR": ("L_disk", "xi_line", "R_line", "lambda_line"),
    "DT": ("L_disk", "xi_dt", "T_dt", "R_dt"), "CMB": ("u_0", "epsilon_0"),
}  # fmt: skip


def world(variant):
    return Live(World(OTHER_SCENE, tpar=OTHER_TARGETS, r=3.9e17)) if variant else Live(World())


def base_values(L):
    """what the objects of a scene were given"""
    b, out = L.w.blob, []
    for a in ("R_b", "z", "delta_D", "Gamma", "B", "xi", "gamma_e_size", "gamma_p_size", "gamma_e"):
        out.append(getattr(b, a))
    for d in [b.n_e] + ([] if getattr(L, "no_protons", False) else [b.n_p]):
        out += [type(d).__name__, *d.parameters]
    for k, attrs in MODELS.items():
        out += [getattr(L.w.t[k.split()[-1]], a) for a in attrs]
    for o in L.obj.values():
        for a in ("mu", "phi", "l", "ssa", "r", "mu_s", "z"):
            if o is not None and isinstance(getattr(o, a, None), (float, int, np.ndarray)):
                out.append(getattr(o, a))
    return cgs(tuple(out))


class Query:
    """a query of the catalogue"""

    def __init__(self, q):
        self.name, self.q = q, q

    def make(self, variant=0):
        L = world(variant)
        L.get(SPECTRAL[self.q][0] if self.q in SPECTRAL else self.q)
        return L

    def ask(self, L, how):
        if self.q not in SPECTRAL:
            return L.query(self.q)
        A = np.array(MAKERS[SPECTRAL[self.q][0]][1])
        if how == "B":
            A = A[::-1] * (1.07 if self.q.startswith("ebl") else 1.23)
        return L.query(self.q, A * u.Hz)

    probe = staticmethod(base_values)


METHODS = [
    "sed_flux", "sed_luminosity", "diff_energy_flux", "sed_peak_flux", "sed_peak_nu", "sed_flux_delta_approx", "tau", "absorption", "absorption_homogeneous",
    "electron_energy_loss_rate", "electron_energy_loss_rate_thomson",
]  # fmt: skip


class Method:
    """a method of an object, and then all of its methods"""

    def __init__(self, maker, method):
        self.name, self.maker, self.method = f"{maker}, {method}", maker, method

    def make(self, variant=0):
        L = world(variant)
        L.get(self.maker)
        return L

    def call(self, o, m, f):
        A = np.array(MAKERS[self.maker][1]) * f
        return getattr(o, m)(np.array(G_A) * f if "loss" in m else A * u.Hz)

    def ask(self, L, how):
        o = L.get(self.maker)
        if how == "A":
            return cgs(self.call(o, self.method, 1))
        return [v for m in METHODS if hasattr(o, m) for v in cgs(self.call(o, m, 1.23))]

    probe = staticmethod(base_values)


def methods():
    L = world(0)
    return [Method(k, m) for k in ("synch ssa", "ssc ssa", "p synch", "ec BLR", "abs DT tilted", "abs blob") for m in METHODS if hasattr(L.get(k), m)]


class Func:
    """functions of an array, elementwise, of one object"""

    def __init__(self, name, make, fns, A, B, unit=None):
        self.name, self._make, self.fns = name, make, fns
        self.x = {"A": np.array(A, dtype=float), "B": np.array(B, dtype=float)}
        if unit:
            self.x = {k: v * u.Unit(unit) for k, v in self.x.items()}

    def make(self, variant=0):
        return self._make(variant)

    def ask(self, o, how):
        return cgs(tuple(f(o, self.x[how].copy()) for f in self.fns))

    def probe(self, o):
        return cgs(tuple(o.parameters)) if hasattr(o, "parameters") else []


class Fit:
    """evaluations of a model"""

    def __init__(self, backend, targets, ssa):
        self.name = f"{backend} {targets}"
        self.backend, self.targets, self.ssa = backend, targets, ssa
        self.d = fit.DISTS["bpl"]

    def make(self, variant=0):
        m = fit.start(self.backend, copy.deepcopy(self.d), copy.copy(self.targets), self.ssa)
        if variant:
            for n, v in dict(delta_D=17.0, log10_B=0.3, t_var=4e4, log10_k=-1.0).items():
                fit.put(m, self.backend, n, v)
        return m

    def ask(self, m, how):
        e = fit.ENERGIES[1::2].copy()
        if how == "B":
            e = e[::-1] * 1.3
        return cgs(m(e * u.eV) if self.backend == "gammapy" else m(e))

    def probe(self, m):
        return cgs(tuple((p.value if self.backend == "gammapy" else p.val) for p in (m.parameters if self.backend == "gammapy" else m.pars)))


class Build:
    """constructors: of a scene and of everything that computes on it"""

    def __init__(self, names):
        self.name, self.names = "construction of " + (names[0] if names else "a scene"), names

    def make(self, variant=0):
        return {"variant": variant}

    def ask(self, s, how):
        L = world(s["variant"]) if how == "A" else Live(World(dict(OTHER_SCENE, B=2.2, delta_D=8.8)))
        for n in self.names:
            L.get(n)
        return base_values(L) + L.query("N_e")

    def probe(self, s):
        return []


class Load:
    """flux points, of two files, instruments and ranges of energy"""

    def __init__(self, kind):
        self.name, self.kind = f"flux points, {kind}", kind

    def make(self, variant=0):
        return {"variant": variant, "syst": {"Fermi-LAT": 0.11, "MAGIC": 0.23}}

    def ask(self, s, how):
        import logging
        from agnpy.fit import load_gammapy_flux_points, load_sherpa_flux_points

        logging.getLogger("gammapy").setLevel(logging.ERROR)
        first = (how == "A") != bool(s["variant"])
        path = os.path.join(sched.ROOT, "data", "mwl_seds", "Mrk421_2011.ecsv" if first else "PKS1510-089_2015b.ecsv")
        a, b = (1e3, 1e11) if first else (1e-2, 1e9)
        out = []
        if self.kind == "sherpa":
            d = load_sherpa_flux_points(path, a * u.eV, b * u.eV, s["syst"])
            for k in (d.x, d.y, d.staterror, d.syserror, d.get_indep(filter=True)[0]):
                out.append((np.array(k, dtype=float), None))
        else:
            for d in load_gammapy_flux_points(path, a * u.eV, b * u.eV, s["syst"]):
                out += [(d.name, None)] + cgs((d.data.energy_ref, d.data.e2dnde.quantity, d.data.e2dnde_errn.quantity, d.data.e2dnde_errp.quantity, d.mask.astype(float)))
        return out

    def probe(self, s):
        return [x for k, v in s["syst"].items() for x in ((k, None), (np.array(v), None))]


G_A, G_B = [21.3, 444.0, 9.7e3, 2.2e5], [3.1e5, 18.9, 7.7e2, 3.3e3]
none = lambda variant: None


def functions():
    from checks.spectra import PARAMS

    out = []
    for fam in PARAMS:

        def make(variant, fam=fam):
            return build.dist(dict(family=fam, **{k: (v[min(variant, len(v) - 1)] if not k.startswith("gamma_m") else v[0]) for k, v in PARAMS[fam].items()}), "e")

        out.append(Func(fam, make, [lambda o, g: o(g), lambda o, g: o.SSA_integrand(g), lambda o, g: o.integrate(g[0] if g[0] < 2e5 else 1e2, 3e5, 1)], G_A, G_B))
    out.append(Func("InterpolatedDistribution", lambda v: build.dist(dict(scene.DISTS["interp"], norm=1.0 + v)), [lambda o, g: o(g), lambda o, g: o.SSA_integrand(g)], G_A, G_B))
    n = lambda f: lambda o, x: f(x)
    out.append(Func("normalised distributions", none, [
        lambda o, g: sp.PowerLaw.from_total_energy(g[0] * 1e44 * u.erg, 1e48 * u.Unit("cm3"), mass=build.MASS["p"], p=2.3, gamma_min=3, gamma_max=3e5)(g),
        lambda o, g: sp.LogParabola.from_total_density(g[0] * u.Unit("cm-3"), mass=build.MASS["e"], p=2.3, q=0.3, gamma_0=100, gamma_min=3, gamma_max=3e5)(g),
        lambda o, g: sp.ExpCutoffPowerLaw.from_total_energy_density(g[0] * u.Unit("erg cm-3"), mass=build.MASS["e"], p=2.3, gamma_c=1e4, gamma_min=3, gamma_max=3e5)(g),
    ], G_A, G_B))
    out.append(Func("kernels", none, [
        n(lambda g: kn.isotropic_kernel(g, 1e-6, 30.0)), n(lambda g: kn.compton_kernel(g, 30.0, 1e-6, 0.9, 0.2, 1.0)), n(lambda g: sy.R(g / 1e4)),
        n(lambda g: sy.tau_to_attenuation(g / 1e3)), n(lambda g: ab.sigma(g)), n(lambda g: am.log(g)), n(lambda g: am.trapz_loglog(g, np.sort(g))), n(lambda g: am.axes_reshaper(g, g)[1]),
    ], G_A, G_B))
    out.append(Func("geometry of angles", none, [
        n(lambda m: geo.cos_psi(0.9, m, 1.1)), n(lambda m: geo.x_re_shell(m, 1e17 * u.cm, 3e17 * u.cm)), n(lambda m: geo.mu_star_shell(m, 1e17 * u.cm, 3e17 * u.cm)),
        n(lambda m: geo.x_re_shell_mu_s(1e17 * u.cm, 3e17 * u.cm, 1.3, m, 2e17 * u.cm, 0.9)), n(lambda m: geo.phi_mu_re_shell(1e17 * u.cm, 3e17 * u.cm, 1.3, m, 2e17 * u.cm, 0.9)[1]),
    ], [-0.9, 0.1, 0.77, 0.31], [0.4, -0.2, 0.93, -0.66]))
    out.append(Func("geometry of distances", none, [
        n(lambda x: geo.x_re_ring(1e17 * u.cm, x)), n(lambda x: geo.x_re_ring_mu_s(1e17 * u.cm, 3e17 * u.cm, 1.1, x, 0.9)), n(lambda x: geo.phi_mu_re_ring(1e17 * u.cm, 3e17 * u.cm, 1.1, x, 0.9)[0]),
    ], [1e15, 3e16, 2e17, 9e18], [4e18, 2e15, 7e16, 1e17], "cm"))
    out.append(Func("conversions", none, [n(lambda x: conv.nu_to_epsilon_prime(x, 0.3, 12.0)), n(lambda x: conv.B_to_cgs(x.value * u.mG))], [1e12, 3e15, 7e22, 2e27], [5e26, 1e13, 2e17, 3e9], "Hz"))
    return out  # fmt: skip


EVO = dict(
    euler=dict(),
    heun=dict(method="heun"),
    bounds=dict(bounds=(30.0, 3e5), creep=0.05),
    auto=dict(step="auto"),
    optimize=dict(step="auto", optimize=True),
    groups=dict(procs=["quad", "const", "esc"], groups=[["quad", "esc"], ["const"]], shares="half", grid="log"),
)


class Evolution:
    """an evolution of a region"""

    def __init__(self, name):
        self.name = "evolution " + name
        self.cfg = evol.full(dict(dict(size=4, total=7.0), **EVO[name]))

    def make(self, variant=0):
        cfg = dict(self.cfg)
        if variant:
            cfg.update(dist="lp", size=3, total=6.0)
            if cfg["shares"] is not None:
                cfg["shares"] = "smooth"
        run = evol.Run(cfg)
        run.initial = run.blob.n_e
        run.build()
        return run

    def ask(self, run, how):
        run.blob.n_e = run.initial
        run.steps, run.calls = [], []
        run.result = run.te.evaluate()
        out = []
        for s in run.steps + [run.plain(run.result)]:
            out += [(np.array(s[k]), None) for k in ("t", "g", "n", "s")] + [(x, None) for d in ("en", "rel", "ab") for k, v in s[d].items() for x in (k, np.array(v))]
        return out + cgs(run.blob.n_e(evol.probes(run.result.gamma)))

    def probe(self, run):
        return base_values_of_blob(run.blob)


def base_values_of_blob(b):
    return cgs((b.R_b, b.z, b.delta_D, b.Gamma, b.B, b.gamma_e_size))


def everything(quick):
    out = [Query(q) for q in ALL] + functions() + methods()
    out += [Build([])] + [Build([m]) for m in MAKERS if m.split()[0] not in ("bb", "p", "abs") or m == "abs BLR tilted"]
    out += [Fit("gammapy", None, True), Fit("sherpa", ["dt"], False)]
    out.append(Load("sherpa"))
    if not quick:
        out += [Load("gammapy"), Fit("sherpa", None, False), Fit("gammapy", ["blr", "dt"], False)]
    return out


def shortened(ctx, x, X):
    """computations stopped at the first lines of the functions only: in the quick check, the long
    ones and those that lead to the same functions as another one"""
    if x.name in ("construction of ebl", "flux points, gammapy", "gammapy ['blr', 'dt']"):
        return True
    return ctx.quick and (isinstance(x, (Fit, Load, Method)) or x.name == "blob" or repeats(x, X))


def repeats(x, X):
    """a query of the same kind of object as a previous one"""
    same_maker = [y for y in X if isinstance(x, Query) and isinstance(y, Query) and ":" in x.name and y.q.split(":")[0] == x.q.split(":")[0]]
    return bool(same_maker) and same_maker[0] is not x


def reference(x, variant, how):
    s = x.make(variant)
    return x.ask(s, how)


def places(x, make, how="A", coarse=False):
    """lines at which the computation can be stopped: all of them, or the first ones of functions"""
    s = make()
    marks = []
    _, n = sched.count(lambda: x.ask(s, how), marks)
    return marks if coarse else list(range(n))


def stops(fn, coarse=False):
    """lines at which a computation can be interrupted"""
    marks, lines = [], []
    sched.count(fn, marks, lines)
    lines = set(lines)
    return [i for i in marks if i in lines] if coarse else sorted(lines)


def stops_of(x, coarse=False):
    s = x.make()
    return stops(lambda: x.ask(s, "A"), coarse)


# ------------------------------------------------------------------------------- C37
def preempted(c, x, coarse=False):
    """the same computation with other arguments, and the one of other objects, at each place"""
    want = {(v, h): reference(x, v, h) for v in (0, 1) for h in "AB"}
    s0 = x.make()
    base = x.probe(s0)
    evolving = isinstance(x, Evolution)

    def case(cfg):
        s = x.make()
        seen = []

        def others():
            seen.extend(x.probe(s))
            return None if evolving else x.ask(s, "B")

        r = sched.schedule([lambda: x.ask(s, "A"), others, lambda: x.ask(x.make(1), "B")], [(0, cfg["place"]), (1, sched.INF), (2, sched.INF)])
        for e in r.errors:
            if e is not None:
                raise e
        same(c, "objects, meanwhile", seen, base, 1e-13)
        same(c, "preempted", r.results[0], want[0, "A"], 1e-12)
        if not evolving:
            same(c, "same objects, other arguments", r.results[1], want[0, "B"], 1e-12)
        same(c, "other objects", r.results[2], want[1, "B"], 1e-12)

    c.product(f"{x.name}: preempted once", dict(place=places(x, x.make, coarse=coarse)), case)


def interleaved(c, x, y, coarse=True):
    """two computations on the same objects, each of them stopped once"""
    want_x, want_y = reference(x, 0, "A"), y.ask(x.make(), "B")

    def case(cfg):
        s = x.make()
        r = sched.schedule([lambda: x.ask(s, "A"), lambda: y.ask(s, "B")], [(0, cfg["first"]), (1, cfg["second"]), (0, sched.INF)])
        for e in r.errors:
            if e is not None:
                raise e
        same(c, "first", r.results[0], want_x, 1e-12)
        same(c, "second", r.results[1], want_y, 1e-12)

    c.product(f"{x.name} with {y.name}: interleaved", dict(first=places(x, x.make, coarse=coarse), second=places(y, x.make, "B", coarse=coarse)), case)


def together(c, x, ys):
    """the other computations on the same scene, at each function called"""
    want = reference(x, 0, "A")
    others = {y.name: y.ask(x.make(), "B") for y in ys}
    Y = {y.name: y for y in ys}

    def case(cfg):
        s, y = x.make(), Y[cfg["other"]]
        r = sched.schedule([lambda: x.ask(s, "A"), lambda: y.ask(s, "B")], [(0, cfg["place"]), (1, sched.INF)])
        for e in r.errors:
            if e is not None:
                raise e
        same(c, x.name, r.results[0], want, 1e-12)
        same(c, y.name, r.results[1], others[y.name], 1e-12)

    c.product(f"{x.name}: preempted by others", dict(other=list(Y), place=places(x, x.make, coarse=True)), case)


def c37(ctx):
    X = everything(ctx.quick)
    if ctx.quick:  # those that lead to the same functions as another one
        X = [x for x in X if not isinstance(x, Method) or x.method.startswith("electron") or x.maker in ("p synch", "abs DT tilted") and x.method in ("sed_luminosity", "absorption")]
    jobs = [lambda c, x=Evolution(n): preempted(c, x, ctx.quick) for n in (("euler", "bounds") if ctx.quick else EVO)]
    for x in X[::-1]:
        coarse = shortened(ctx, x, X)
        jobs.append(lambda c, x=x, coarse=coarse: preempted(c, x, coarse))
    if not ctx.quick:
        for x in X:
            if not isinstance(x, (Fit, Load, Method)) and not repeats(x, X):
                jobs.append(lambda c, x=x: interleaved(c, x, x))
        Q = [x for x in X if isinstance(x, Query) and not repeats(x, X)]
        for x in Q:
            jobs.append(lambda c, x=x: together(c, x, Q))
    ctx.parallel(jobs)


c37.bounds = (
    "schedules of three threads of the real code, one running at a time: a computation (61 queries of the catalogue, the methods of 6 processes (quick: 5 methods) followed by the other methods of the same object, 7 families of distributions, normalisations, kernels, geometry, "
    "conversions, constructors of a scene and of each process, models of both fit backends, flux points, evolutions by 2 schemes [thorough: 6]) preempted at each line of agnpy it executes "
    "(models, flux points, evolutions and queries sharing the functions of another: at the first line of each function and after each return) by one that asks the same objects with other "
    "arguments and by one that builds other objects and asks them; the values of the objects are read meanwhile. Thorough: every line of all of them, every pair of stops of two computations "
    "on the same objects (two preemptions, at the boundaries of functions), every ordered pair of queries of different kinds on the same scene (one preemption)"
)
c37.assumptions = ["threads switch between two lines of agnpy, not within a line", "objects are not changed while they are used by another thread"]


# ------------------------------------------------------------------------------- C38
def interrupted(c, x, coarse=False, how=("A",)):
    want = {h: reference(x, 0, h) for h in "AB"}
    base = x.probe(x.make())

    def case(cfg):
        s = x.make()
        if cfg["warm"]:
            x.ask(s, "B")
        hit = sched.interrupt(lambda: x.ask(s, "A"), cfg["place"])
        c.true(hit or cfg["warm"], "the interruption was lost")
        same(c, "objects after the interruption", x.probe(s), base, 1e-13)
        for h in "AB":
            same(c, "after the interruption", x.ask(s, h), want[h], 1e-12)

    c.product(f"{x.name}: interrupted", dict(warm=[False] if c.quick else [False, True], place=stops_of(x, coarse)), case)


def stopped(c, x):
    """evolutions: stopped at any line, or by a function or the callback that raises"""
    run = x.make()
    # the distributions that the region goes through
    fns = {}
    passed = []
    for cfg in (0,):
        run = x.make()
        names = dict(run.fns)
        G = np.logspace(0.5, 7, 60)

        def look():
            v = run.blob.n_e(G).to_value("cm-3")
            if not any(np.array_equal(v, p) for p in passed):
                passed.append(v)

        spy(run, look)
        look()
        want = x.ask(run, "A")
        look()
        calls, steps = len(run.calls), len(run.steps)
    c.true(len(passed) >= 3, "the evolution does not advance")
    base = x.probe(x.make())

    def after(run):
        v = run.blob.n_e(G).to_value("cm-3")
        c.true(any(np.array_equal(v, p) for p in passed), "the distribution of the region is none of those it goes through")
        same(c, "region after the interruption", x.probe(run), base, 1e-13)
        same(c, "same evolution, again", x.ask(run, "A"), want, 1e-12)
        # a new evolution of the same region
        run.blob.n_e = run.initial
        run.steps, run.calls = [], []
        run.build()
        same(c, "new evolution of the region", x.ask(run, "A"), want, 1e-12)

    def at_line(cfg):
        run = x.make()
        hit = sched.interrupt(lambda: x.ask(run, "A"), cfg["place"])
        c.true(hit, "the interruption was lost")
        after(run)

    c.product(f"{x.name}: interrupted", dict(place=stops_of(x, c.quick or x.cfg["step"] == "auto")), at_line)

    def raised(cfg):
        run = x.make()
        error = cfg["error"]("stop here")
        left = [cfg["call"]]

        def bomb():
            left[0] -= 1
            if left[0] == 0:
                raise error

        off = spy(run, bomb, cfg["where"])
        try:
            x.ask(run, "A")
        except BaseException as e:
            c.true(e is error, lambda: f"{type(e).__name__}: {e} instead of the exception raised")
        else:
            c.fail("the exception was lost")
        left[0] = 0
        after(run)

    for where, n in (("functions", calls), ("callback", steps)):
        c.product(f"{x.name}: exceptions of the {where}", dict(call=list(range(1, n + 1)), where=[where], error=[ValueError, KeyError, KeyboardInterrupt]), raised)


def spy(run, fn, where="functions"):
    """calls fn in each of the functions of rates, or in the callback"""
    if where == "callback":
        old = run.callback

        def callback(res):
            old(res)
            fn()

        run.callback = callback
    else:

        def wrap(f):
            def g(args):
                fn()
                return f(args)

            return g

        run.fns = {k: wrap(f) for k, f in run.fns.items()}
    run.build()


QS = ["blob", "N_e", "disk", "blr and dt", "u BLR", "synch: loss"]


def scene_():
    L = world(0)
    for q in QS:
        L.get(q)
    for n in ("ec BLR", "abs DT tilted"):
        L.get(n)
    return L


def look_at(L):
    out = base_values(L)
    for q in QS:
        if not (getattr(L, "no_protons", False) and q in ("blob", "N_e")):
            out += L.query(q)
    return out


def setters(c):
    """changes of a scene: interrupted and made again, or refused"""
    M = _mutations()
    twice = [op for op in M if "in place" in op or op in ("blob.R_b", "blob.B", "blob.n_e.k", "blob.n_p.k", "t.PS.L_0", "t.BLR.R_line", "t.Disk.L_disk")]

    def case(cfg):
        op, i = cfg["change"]
        L = scene_()
        M[op](L)
        after = look_at(L)
        L = scene_()
        sched.interrupt(lambda: M[op](L), i)
        M[op](L)
        same(c, "changed after the interruption", look_at(L), after, 1e-12)

    todo = []
    for op in M:
        if op not in twice:  # they do not depend on the present value
            L = scene_()
            todo += [(op, i) for i in stops(lambda: M[op](L))]
    c.product("changes interrupted, then made", dict(change=todo), case)
    bad = {
        "z": [lambda L, v=v: setattr(L.w.blob, "z", v) for v in (-0.5, -2.0, "a", None, 0.5 * u.m)],
        "viewing angle": [lambda L, v=v: L.w.blob.set_delta_D(23.0, v) for v in (3.0, None, 2 * u.m, "a")],
        "angular grid": [lambda L, f=f, v=v: getattr(L.get(o), f)(v) for o in ("ec BLR", "abs DT tilted") for f in ("set_mu", "set_phi") for v in (-3, "a", 2.5)],
    }

    spectra = ("ec BLR: sed_flux", "abs DT tilted: tau", "synch: sed_flux")

    def refused(cfg):
        L = scene_()
        before = look_at(L) if cfg["queries"] == "values" else [v for q in spectra for v in L.query(q)]
        try:
            cfg["change"][1](L)
        except Exception:
            pass
        else:
            c.fail("the change was not refused")
        after = look_at(L) if cfg["queries"] == "values" else [v for q in spectra for v in L.query(q)]
        same(c, "after a change that was refused", after, before, 1e-13)

    c.product("changes refused", dict(change=[(f"{k} {i}", f) for k, fs in bad.items() for i, f in enumerate(fs)], queries=["values", "spectra"]), refused)


def c38(ctx):
    X = everything(ctx.quick)
    jobs = [lambda c, x=Evolution(n): stopped(c, x) for n in (("euler", "bounds") if ctx.quick else EVO)]
    jobs.append(setters)
    for x in X[::-1]:
        coarse = shortened(ctx, x, X)
        jobs.append(lambda c, x=x, coarse=coarse: interrupted(c, x, coarse))
    ctx.parallel(jobs)


c38.bounds = (
    "a KeyboardInterrupt at each line of agnpy executed by each computation of C37 (quick: models, flux points and queries sharing the functions of another at the boundaries of functions; "
    "thorough: every line, with and without an earlier computation, but for flux points and one model of gammapy), then the values of the objects, the same computation and another one; evolutions by 2 schemes (thorough: 6) interrupted "
    "at the boundaries of functions (thorough: every line, but for 2 automatic ones) and by 3 exceptions raised at each call of the functions of rates and of the callback, then evaluated again, and built again on the "
    "same region; 25 changes of a scene interrupted and made again; 21 changes that are refused"
)
c38.assumptions = ["a computation is interrupted between two lines of agnpy, not within a line"]
