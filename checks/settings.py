"""C40 the process: what a computation leaves behind, and what it depends on, besides its arguments."""
import inspect
import logging
import os
import random
import sys
import tempfile
import types
import warnings
import gc
import numpy as np
import astropy.units as u
import matplotlib
from astropy.cosmology import default_cosmology
from mc import sched
from checks.interact import same
from checks.schedules import everything, shortened, stops_of, Evolution, EVO, Query, Fit, Load, world, reference
import agnpy

NU = np.logspace(9, 26, 9) * u.Hz


def constants():
    """public module-level and class-level values of agnpy, and the defaults of its functions"""
    out = {}

    def plain(v):
        return isinstance(v, (np.ndarray, float, int, str, bytes)) or (isinstance(v, tuple) and all(plain(x) for x in v))

    def defaults(name, f):
        for i, v in enumerate((f.__defaults__ or ()) + tuple((f.__kwdefaults__ or {}).values())):
            if isinstance(v, (np.ndarray, list, dict)):
                out[f"{name} default {i}"] = lambda v=v: v

    for name, m in sorted(sys.modules.items()):
        if m is None or not (name == "agnpy" or name.startswith("agnpy.")) or ".tests" in name:
            continue
        for k, v in list(vars(m).items()):
            if isinstance(v, types.FunctionType) and v.__module__ == name:
                defaults(f"{name}.{k}", v)
            if k.startswith("_"):
                continue
            if inspect.isclass(v) and v.__module__ == name:
                for a, w in list(vars(v).items()):
                    w = w.__func__ if isinstance(w, (staticmethod, classmethod)) else w
                    if isinstance(w, types.FunctionType):
                        defaults(f"{name}.{k}.{a}", w)
                    elif not a.startswith("_") and plain(w):
                        out[f"{name}.{k}.{a}"] = lambda v=v, a=a: getattr(v, a)
            elif plain(v) or isinstance(v, (dict, list)) and k.isupper():
                out[f"{name}.{k}"] = lambda m=m, k=k: getattr(m, k)
    return out


def frozen(v):
    if isinstance(v, np.ndarray):
        return (type(v).__name__, v.shape, str(getattr(v, "unit", None)), np.asarray(v).tobytes() if v.dtype != object else repr(v))
    return repr(v)


CONSTANTS = {}


def settings(figures=True):
    if not CONSTANTS:
        CONSTANTS.update(constants())
    reg = u.get_current_unit_registry()
    s = np.random.get_state()
    out = {
        "numpy error modes": np.geterr(), "numpy error call": np.geterrcall(), "print options": repr(np.get_printoptions()),
        "numpy random state": (s[0], s[1].tobytes(), *s[2:]), "random state": random.getstate(), "warning filters": list(warnings.filters),
        "showwarning": warnings.showwarning, "directory": os.getcwd(), "environment": dict(os.environ), "recursion limit": sys.getrecursionlimit(), 
        "units": (id(reg), len(reg.all_units), len(reg.equivalencies), len(reg.aliases)), "cosmology": default_cosmology.get().name,
        "rcParams": repr(list(dict.items(matplotlib.rcParams))), "loggers": loggers(), "stdout": (sys.stdout, sys.stderr), "excepthook": sys.excepthook,         "gc": gc.isenabled(), "path": list(sys.path),
    }  # fmt: skip
    if figures:
        import matplotlib.pyplot as plt

        out["figures"] = plt.get_fignums()
    for k, f in CONSTANTS.items():
        out[k] = frozen(f())
    return out


def loggers():
    L = [logging.getLogger()] + [x for n, x in sorted(logging.Logger.manager.loggerDict.items()) if isinstance(x, logging.Logger) and n.split(".")[0] in ("agnpy", "gammapy", "sherpa", "astropy")]
    return [(x.name, x.level, x.disabled, len(x.handlers), len(x.filters)) for x in L]


def unchanged(c, before, figures=True):
    after = settings(figures)
    for k, v in before.items():
        c.true(k in after and after[k] == v, lambda: f"{k} changed" + (f": {v} -> {after.get(k)}" if len(repr(v)) < 200 else ""))


class Plot:
    """figures: they may add to the present figure, nothing else"""

    def __init__(self, name):
        self.name = "plot of " + name
        self.what = name

    def make(self, variant=0):
        L = world(variant)
        L.plotted = L.get("synch")
        return L

    def ask(self, L, how):
        import matplotlib.pyplot as plt
        from agnpy.utils import plot as P

        fig, ax = plt.subplots()
        try:
            if self.what == "sed":
                P.plot_sed(NU, L.plotted.sed_flux(NU), ax=ax)
            elif self.what == "density":
                L.w.blob.n_e.plot(ax=ax, gamma_power=2)
            else:
                L.w.blob.n_p.plot(gamma=np.logspace(1, 5, 13), ax=ax)
            return [(np.array(x, dtype=float), None) for l in ax.lines for x in (l.get_xdata(), l.get_ydata())]
        finally:
            plt.close(fig)

    def probe(self, L):
        return []


class Shown:
    """printed descriptions"""

    name = "descriptions"

    def make(self, variant=0):
        return world(variant)

    def ask(self, L, how):
        return [(str(x), None) for x in (L.w.blob, L.w.blob.n_e, *L.w.t.values()) if type(x).__str__ is not object.__str__]

    def probe(self, L):
        return []


def all_of(quick):
    return everything(quick) + [Plot("sed"), Plot("density"), Plot("protons"), Shown()]


def left(c, x, coarse):
    """what a computation leaves in the process: complete, again, and stopped at each line"""
    s = x.make()
    for h in "AB":
        x.ask(s, h)  # modules imported lazily, fonts

    def whole(cfg):
        s = x.make()
        before = settings()
        for h in cfg["calls"]:
            x.ask(s, h)
        unchanged(c, before)

    c.product(f"{x.name}: what it leaves", dict(calls=["A", "AA", "AB"]), whole)

    def stopped(cfg):
        s = x.make()
        before = settings()
        sched.interrupt(lambda: x.ask(s, "A"), cfg["place"])
        unchanged(c, before)

    c.product(f"{x.name}: what it leaves, interrupted", dict(place=stops_of(x, coarse)), stopped)


class Failed(Exception):
    pass


def failures(c):
    """functions handed by the user that raise at each of their calls"""
    from agnpy.spectra import BrokenPowerLaw
    from agnpy import emission_regions, synchrotron, compton, absorption

    def bomb(n):
        k = [n]

        def integrator(*a, **kw):
            k[0] -= 1
            if k[0] == 0:
                raise Failed
            return np.trapz(*a, **kw)

        integrator.left = k
        return integrator

    def scene(L, f):
        t = L.w.t
        return {
            "synch": lambda: synchrotron.Synchrotron(L.w.blob, integrator=f).sed_flux(NU),
            "synch ssa": lambda: synchrotron.Synchrotron(L.w.blob, ssa=True, integrator=f).sed_flux(NU),
            "ssc": lambda: compton.SynchrotronSelfCompton(L.w.blob, integrator=f).sed_flux(NU),
            "ec DT": lambda: compton.ExternalCompton(L.w.blob, t["DT"], 3e17 * u.cm, integrator=f).sed_flux(NU),
            "ec BLR": lambda: compton.ExternalCompton(L.w.blob, t["BLR"], 3e17 * u.cm, integrator=f).sed_flux(NU),
            "ec CMB": lambda: compton.ExternalCompton(L.w.blob, t["CMB"], integrator=f).sed_flux(NU),
        }

    todo = []
    for k in scene(world(0), None):
        f = bomb(10**9)
        scene(world(0), f)[k]()
        todo += [(k, i) for i in range(1, 10**9 - f.left[0] + 1)]

    def case(cfg):
        L = world(0)
        k, i = cfg["call"]
        f = bomb(i)
        before = settings()
        try:
            scene(L, f)[k]()
            c.fail("the exception of the function was lost")
        except Failed:
            pass
        unchanged(c, before)

    c.product("exceptions of the integrator", dict(call=todo), case)


def descriptors(c, part):
    """files left open"""

    def case(cfg):
        x = {y.name: y for y in all_of(True)}[cfg["computation"]]
        s = x.make()
        x.ask(s, "A")
        gc.collect()
        n = len(os.listdir("/proc/self/fd"))
        for h in "BAB":
            x.ask(s, h)
        s = x.make()
        x.ask(s, "A")
        del s
        gc.collect()
        c.true(len(os.listdir("/proc/self/fd")) <= n, "files are left open")

    c.product(f"files left open {part}", dict(computation=[x.name for x in all_of(True)][part::5]), case)


def _seed(k):
    def f():
        old = np.random.get_state(), random.getstate()
        np.random.seed(k)
        random.seed(k)
        return lambda: (np.random.set_state(old[0]), random.setstate(old[1]))

    return f


def _errors(mode):
    def f():
        old = np.seterr(all=mode)
        return lambda: np.seterr(**old)

    return f


def _directory():
    old, d = os.getcwd(), tempfile.mkdtemp(prefix="agnpy_c40_")
    os.chdir(d)

    def back():
        os.chdir(old)
        os.rmdir(d)

    return back


def _print():
    old = np.get_printoptions()
    np.set_printoptions(precision=2, threshold=3, suppress=True)
    return lambda: np.set_printoptions(**old)


def _context(make):
    def f():
        m = make()
        m.__enter__()
        return lambda: m.__exit__(None, None, None)

    return f


def _warnings():
    m = warnings.catch_warnings(record=True)
    m.__enter__()
    warnings.simplefilter("always")
    return lambda: m.__exit__(None, None, None)


def _level():
    old = logging.getLogger().level
    logging.getLogger().setLevel(logging.CRITICAL)
    return lambda: logging.getLogger().setLevel(old)


def _environment():
    old = dict(os.environ)
    os.environ.update(TZ="Asia/Kathmandu", LANG="de_DE.UTF-8", LC_ALL="C", HOME="/nonexistent", COLUMNS="20")

    def back():
        os.environ.clear()
        os.environ.update(old)

    return back


def surroundings():
    from astropy.units import imperial

    return {
        "seed 1": _seed(1), "seed 12345": _seed(12345), "errors ignored": _errors("ignore"), "errors warned": _errors("warn"), "directory": _directory, "print options": _print,
        "spectral equivalencies": _context(lambda: u.add_enabled_equivalencies(u.spectral())), "more units": _context(lambda: u.add_enabled_units([imperial, u.astrophys])),
        "rcParams": _context(lambda: matplotlib.rc_context({"lines.linewidth": 7.0, "axes.grid": True, "figure.dpi": 31.0})),
        "warnings": _warnings, "logging": _level, "environment": _environment,
    }  # fmt: skip


def independent(c, x):
    """the answers do not depend on the settings of the process, when the objects are made or asked"""
    S = surroundings()
    want = reference(x, 0, "A")

    def case(cfg):
        s = None
        if cfg["when"] == "asked":
            s = x.make()
        off = S[cfg["setting"]]()
        try:
            before = settings()
            s = s if s is not None else x.make()
            got = x.ask(s, "A")
            unchanged(c, before)
        finally:
            off()
        same(c, "answer", got, want, 1e-13)
        same(c, "answer afterwards", x.ask(s, "A"), want, 1e-13)

    c.product(f"{x.name}: settings", dict(setting=list(S), when=["made", "asked"]), case)


def c40(ctx):
    X = all_of(ctx.quick)
    jobs = [failures] + [lambda c, p=p: descriptors(c, p) for p in range(5)]
    for n in ("bounds", "euler") if ctx.quick else EVO:
        e = Evolution(n)
        jobs += [lambda c, x=e: left(c, x, True), lambda c, x=e: independent(c, x)]
    for x in X[::-1]:
        coarse = ctx.quick or shortened(ctx, x, X) or isinstance(x, (Plot, Shown))
        jobs.append(lambda c, x=x, coarse=coarse: left(c, x, coarse))
        jobs.append(lambda c, x=x: independent(c, x))
    ctx.parallel(jobs)


c40.bounds = (
    "each computation of C37, 3 plots, the descriptions and evolutions by 2 schemes (thorough: 6): made once, twice, with other arguments, and interrupted at the boundaries of functions (thorough: each line); "
    "integrators of the user raising at each of their calls in 6 processes; observed: numpy error modes, print options, random states, warnings, loggers, working directory, environment, import path, "
    "units, cosmology, rcParams, figures, files left open, every public constant of the modules and classes of agnpy and the defaults of its functions; and each computation under 12 settings of the process, "
    "when the objects are made or when they are asked"
)
