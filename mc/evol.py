"""Reference simulator of the time evolution: plain floats (cgs), one object per bin.

Each bin carries its own Lorentz factor, upper edge, density, shares of the subgroups, rates
and time left before they are due to be recalculated, so that nothing is ever associated to
a bin by its index. The real evolution is compared with it after every step (callback)."""
import copy
import math
import numpy as np
import astropy.units as u
from . import ref, scene, build
from .ref import MEC2

F = 1e-4  # relative width of the bins
TIE = 3e-11


class Ambiguous(Exception):
    """a decision of the algorithm hinges on rounding"""


class Impossible(Exception):
    """the evolution has to raise"""


class Bin:
    def __init__(self, g, n, shares):
        self.g, self.up, self.n, self.s = float(g), float(g) * (1 + F), float(n), list(shares)
        self.en, self.rel, self.ab = {}, {}, {}
        self.left = 0.0
        self.stale = True


# ----------------------------------------------------------------------------- processes
def _q(x, unit, to):
    return (x * u.Unit(unit)).to(to)


def user(kind, fn, unit):
    """real function from the reference one, in another unit"""
    nat = dict(en="erg s-1", rel="s-1", ab="cm-3 s-1")[kind]

    def f(args):
        return _q(
            fn(None, np.asarray(args.gamma), args.densities.to_value("cm-3"), np.asarray(args.density_subgroups)),
            nat, unit,
        )

    return f


def quad(sim, g, n, s):  # gain below 3e3, loss above: bins converge
    return MEC2 * g * 0.011 * np.tanh(0.7 * np.log10(3e3 / g))


def spread(sim, g, n, s):  # loss below 2e3, gain above: bins diverge
    return MEC2 * g * 0.006 * np.log10(g / 2e3)


def const(sim, g, n, s):
    return MEC2 * 0.09 + 0 * g


def sink(sim, g, n, s):
    return -MEC2 * 0.21 + 0 * g


def steep(sim, g, n, s):
    return -MEC2 * g * 0.0031 * (g / 1e3) ** 0.4


def slow(sim, g, n, s):  # moves the bins by about a thousandth of the processes above
    return MEC2 * g * 1.9e-5 * (g / 1e3) ** 0.07


def slower(sim, g, n, s):
    return -MEC2 * g * 2.3e-7 * (g / 1e3) ** 0.07


def null(sim, g, n, s):
    return 0.0 * g


def dens(sim, g, n, s):
    x = n * g**2
    return -MEC2 * g * 0.01 * x / (x + 400)


def share(sim, g, n, s):
    return MEC2 * g * 0.012 * (s[0] - 0.37)


def esc(sim, g, n, s):
    return -0.0083 * (g / 1e3) ** 0.21


def rin(sim, g, n, s):
    return 0.0061 * (g / 1e3) ** -0.13


def rmix(sim, g, n, s):
    return 0.007 * np.cos(1.7 * np.log(g))


def rden(sim, g, n, s):
    x = n * g**2
    return -0.01 * x / (x + 300) * (0.3 + s[-1])


def inj(sim, g, n, s):
    return 9.0 * g**-2.2


def hump(sim, g, n, s):
    return 4.1 * g**-2.0 * np.exp(-np.log(g / 4e3) ** 2)


def sub(sim, g, n, s):
    return -1.6 * g**-2.2


def aden(sim, g, n, s):
    return 0.01 * (n * s[0] + 1e-9)


def flow(sim, g, n, s):  # what escapes (esc) from the first group
    return 0.0083 * (g / 1e3) ** 0.21 * n * s[0]


# name: (kind, reference, unit of the values returned by the real function or built-in)
PROCS = {
    "syn": ("en", lambda sim, g, n, s: -ref.loss_synch(sim.r, g), "builtin"),
    "tho": ("en", lambda sim, g, n, s: -ref.loss_ssc_thomson(sim.r, g), "builtin"),
    "ssc": ("en", lambda sim, g, n, s: -ref.loss_ssc(sim.r, g), "builtin"),
    "acc": ("en", lambda sim, g, n, s: g * MEC2 / 93.0, "builtin"),
    "quad": ("en", quad, "eV s-1"),
    "spread": ("en", spread, "erg s-1"),
    "const": ("en", const, "J h-1"),
    "sink": ("en", sink, "erg s-1"),
    "steep": ("en", steep, "erg s-1"),
    "null": ("en", null, "erg s-1"),
    "slow": ("en", slow, "eV s-1"),
    "slower": ("en", slower, "erg s-1"),
    "dens": ("en", dens, "erg s-1"),
    "share": ("en", share, "TeV yr-1"),
    "esc": ("rel", esc, "s-1"),
    "rin": ("rel", rin, "h-1"),
    "rmix": ("rel", rmix, "s-1"),
    "rden": ("rel", rden, "s-1"),
    "inj": ("ab", inj, "cm-3 s-1"),
    "hump": ("ab", hump, "m-3 h-1"),
    "sub": ("ab", sub, "cm-3 s-1"),
    "aden": ("ab", aden, "cm-3 s-1"),
    "flow": ("ab", flow, "cm-3 s-1"),
}
KIND = {n: p[0] for n, p in PROCS.items()}
KINDS = dict(en="energy_change_functions", rel="rel_injection_functions", ab="abs_injection_functions")


def clocked(fn, kind, clock, amount):
    """the process on another scale of time, and of density for the absolute injections"""
    f = amount / clock if kind == "ab" else 1 / clock
    return fn if f == 1 else lambda *args: fn(*args) * f


def real_fn(name, blob, clock=1.0, amount=1.0, time="s"):
    from agnpy import Synchrotron, SynchrotronSelfCompton
    from agnpy.time_evolution.time_evolution import (
        synchrotron_loss, ssc_loss, ssc_thomson_limit_loss, fermi_acceleration)

    kind, fn, unit = PROCS[name]
    if unit != "builtin":
        return user(kind, clocked(fn, kind, clock, amount), unit)
    return {
        "syn": lambda: synchrotron_loss(Synchrotron(blob)),
        "tho": lambda: ssc_thomson_limit_loss(SynchrotronSelfCompton(blob)),
        "ssc": lambda: ssc_loss(SynchrotronSelfCompton(blob)),
        "acc": lambda: fermi_acceleration((93.0 * clock * u.s).to(time)),
    }[name]()


# ----------------------------------------------------------------------------- simulator
def pchip(gs, ns):
    return dict(family="Interp", gamma=list(gs), n=list(ns), norm=1.0, interpolator="pchip")


def tie(a, b, rel=TIE):
    return abs(a - b) <= rel * max(abs(a), abs(b), 1e-300)


class Sim:
    def __init__(self, r, procs, total, step="auto", gammas=None, bounds=None, creep=0.1,
                 merge=1.5e-3, max_en=0.01, max_dens=0.1, max_inj=1.0, optimize=None,
                 method="euler", subgroups=None, shares=None, size=None, clock=1.0, amount=1.0):
        self.r, self.procs, self.total, self.step = r, list(procs), float(total), step
        self.bounds, self.creep, self.merge = bounds, creep, merge
        self.max_en, self.max_dens, self.max_inj = max_en, max_dens, max_inj
        self.method = method
        self.fns = {}
        for p in self.procs:
            kind, fn, unit = PROCS[p]
            self.fns[p] = fn if unit == "builtin" and p != "acc" else clocked(fn, kind, clock, amount)
        self.opt = (step == "auto" and method != "heun") if optimize is None else optimize
        self.groups = [list(self.procs)] if subgroups is None else subgroups
        if gammas is None:
            a, b = ref.bounds(r.n_e)
            if bounds is not None:
                a, b = max(a, bounds[0]), min(b, bounds[1])
            gammas = ref.logspace(a, b, size or r.ne_size)
        self.gammas = np.asarray(gammas, float)
        M = len(self.groups)
        if shares is None:
            shares = np.zeros((M, len(self.gammas)))
            shares[0] = 1
        n0 = ref.density(r.n_e, self.gammas)
        self.bins = [Bin(g, n, shares[:, i]) for i, (g, n) in enumerate(zip(self.gammas, n0))]
        self.t = 0.0
        self.log = []  # every state point at which rates are evaluated
        self.n_steps = 0
        self.events = set()

    # rates of the given bins, with the present distribution of the region
    def rates(self, bins, g=None, up=None, n=None, s=None, kinds=("en", "rel", "ab")):
        if not bins:
            return
        g = np.array([b.g for b in bins]) if g is None else g
        up = np.array([b.up for b in bins]) if up is None else up
        n = np.array([b.n for b in bins]) if n is None else n
        s = np.array([b.s for b in bins]).T if s is None else s
        both = np.stack([g, up], 1).ravel()
        n2, s2 = np.repeat(n, 2), np.repeat(s, 2, axis=1)
        out = {}
        for p in self.procs:
            k, fn = PROCS[p][0], self.fns[p]
            if k not in kinds:
                continue
            if k == "en":
                v = np.broadcast_to(fn(self, both, n2, s2), both.shape).reshape(-1, 2)
            else:
                v = np.broadcast_to(fn(self, g, n, s), g.shape)
            out[p] = v
        self.log.append((both, n2, s2))
        return out

    def refresh(self, bins):
        out = self.rates(bins)
        for i, b in enumerate(bins):
            for p in self.procs:
                k = KIND[p]
                if k == "en":
                    b.en[p] = tuple(out[p][i])
                else:
                    getattr(b, k)[p] = float(out[p][i])
            b.stale = False

    def start(self):
        self.refresh(self.bins)
        return self.snapshot()

    def group_rates(self, b):
        res = []
        for m, names in enumerate(self.groups):
            lo = sum(b.en[p][0] for p in names if KIND[p] == "en")
            hi = sum(b.en[p][1] for p in names if KIND[p] == "en")
            rel = sum(b.rel[p] for p in names if KIND[p] == "rel")
            ab = sum(b.ab[p] for p in names if KIND[p] == "ab")
            res.append((lo, hi, rel, ab))
        return res

    def max_time(self, b):
        best = math.inf
        for (lo, hi, rel, ab), sh in zip(self.group_rates(b), b.s):
            if b.n * sh == 0 and ab < 0:
                raise Impossible("escape of null density")
            for e, rate in ((b.g * MEC2, lo), (b.up * MEC2, hi)):
                if rate != 0:
                    best = min(best, self.max_en * e / abs(rate))
            w, dr = (b.up - b.g) * MEC2, hi - lo
            if dr > 0:
                best = min(best, w / dr * self.max_dens)
            elif dr < 0:
                best = min(best, -w / dr * self.max_dens / (1 + self.max_dens))
            if rel < 0:
                best = min(best, -0.5 / rel)
            elif rel > 0:
                best = min(best, self.max_dens / rel)
            if ab != 0:
                best = min(best, self.max_inj / abs(ab))
        return best

    def advance(self, per_bin, dt):
        """per_bin: for each bin, per group (lo, hi, density change rate) -> new
        (g, up, n, shares) of each bin, in the same order"""
        M, N = len(self.groups), len(self.bins)
        g = np.empty((M, N))
        up = np.empty((M, N))
        n = np.empty((M, N))
        for i, b in enumerate(self.bins):
            for m in range(M):
                lo, hi, inj_ = per_bin[i][m]
                e0, e1 = b.g * MEC2, b.up * MEC2
                f0, f1 = e0 + lo * dt, e1 + hi * dt
                if f0 <= 0 or f1 <= 0:
                    raise Impossible("negative energy")
                if abs(f1 - f0) < 1e-9 * (e1 - e0):
                    raise Ambiguous("bin of null width")
                if f1 < f0:
                    raise Impossible("bin of negative width")
                d = b.n * b.s[m] * (e1 - e0) / (f1 - f0)
                x = d + inj_ * dt
                if x != 0 and abs(x) < 1e-9 * abs(d):
                    raise Ambiguous("null density")
                if x < 0:
                    raise Impossible("negative density")
                g[m, i], up[m, i], n[m, i] = f0 / MEC2, f1 / MEC2, x
        dens_ = [n[0]]
        for m in range(1, M):
            same = np.allclose(g[m], g[0], rtol=1e-13, atol=0) and np.allclose(up[m], up[0], rtol=1e-13, atol=0)
            if np.all(n[m] == 0) or same:
                dens_.append(n[m])
                continue
            o = np.argsort(g[m])
            if np.any(np.diff(g[m][o]) <= 0) or np.any(o != np.arange(N)):
                raise Ambiguous("subgroup bins not ordered")
            if np.count_nonzero(n[m]) < 2:
                raise Impossible("a single point to interpolate")
            d = pchip(g[m], n[m])
            lo, hi = ref.bounds(d)
            for x in g[0]:
                for e in (lo, hi):
                    # a bin at the bound of the distribution of the subgroup
                    if 1e-14 < abs(x / e - 1) < 1e-9:
                        raise Ambiguous("bound of the subgroup")
            dens_.append(ref.density(d, g[0]))
        dens_ = np.array(dens_)
        tot = dens_.sum(axis=0)
        s = np.array([b.s for b in self.bins]).T
        with np.errstate(all="ignore"):
            s = np.where(tot != 0, dens_ / tot, s)
        return g[0], up[0], tot, s

    def install(self, g, n):
        """the distribution of the region after a stage"""
        o = np.argsort(g, kind="stable")
        gs, ns = list(g[o]), list(n[o])
        groups = self.duplicates(gs)
        gm = [math.exp(sum(math.log(gs[i]) for i in grp) / len(grp)) if len(grp) > 1 else gs[grp[0]] for grp in groups]
        nm = [sum(ns[i] for i in grp) / len(grp) for grp in groups]
        if all(x == 0 for x in nm):
            d = dict(family="Empty", gamma_min=gm[0], gamma_max=gm[-1])
        elif len(gm) == 1:
            raise Impossible("single point")
        elif sum(x != 0 for x in nm) == 1:
            raise Impossible("single point to interpolate")
        else:
            d = pchip(gm, nm)
        self.r.n_e = d
        return d

    def duplicates(self, gs):
        groups = [[0]]
        for i in range(1, len(gs)):
            a, b = gs[i - 1], gs[i]
            dup = math.log10(a) == math.log10(b)
            if not dup and abs(b / a - 1) < 1e-13:
                raise Ambiguous("almost the same Lorentz factor")
            if dup and abs(b / a - 1) > 3e-16 and not getattr(self, "still", False):
                raise Ambiguous("the same logarithm, after moving")
            groups[-1].append(i) if dup else groups.append([i])
        return groups

    def advance_once(self):
        if self.t >= self.total:
            return None
        for b in self.bins:
            if b.stale:
                raise AssertionError("stale bin")
        grouped = [self.group_rates(b) for b in self.bins]
        if self.step != "auto":
            dt = self.step
        else:
            if self.opt:
                for b in self.bins:
                    mt = self.max_time(b)
                    if b.left == 0:
                        b.left = mt
                dt = min(b.left for b in self.bins)
            else:
                dt = min(self.max_time(b) for b in self.bins)
        self.wanted = dt
        if dt > self.total - self.t:
            dt = self.total - self.t
            self.events.add("shortened")
        rates = [
            [(lo, hi, b.n * sh * rel + ab) for (lo, hi, rel, ab), sh in zip(gr, b.s)]
            for b, gr in zip(self.bins, grouped)
        ]
        g, up, n, s = self.advance(rates, dt)
        d = self.install(g, n)
        if self.method == "heun":
            again = self.rates(self.bins, g, up, n, s, kinds=("en",))
            avg = []
            for i, gr in enumerate(rates):
                row = []
                for m, names in enumerate(self.groups):
                    lo2 = sum(again[p][i][0] for p in names if KIND[p] == "en")
                    hi2 = sum(again[p][i][1] for p in names if KIND[p] == "en")
                    row.append(((gr[m][0] + lo2) / 2, (gr[m][1] + hi2) / 2, gr[m][2]))
                avg.append(row)
            rates = avg
            g, up, n, s = self.advance(rates, dt)
            d = self.install(g, n)
        # move the bins
        new = []
        for i, b in enumerate(self.bins):
            c = copy.copy(b)
            c.g, c.up, c.n, c.s = float(g[i]), float(up[i]), float(n[i]), [float(x) for x in s[:, i]]
            c.en, c.rel, c.ab = dict(b.en), dict(b.rel), dict(b.ab)
            c.fresh = False
            c.lead = rates[i][0]
            new.append(c)
        # bounds: rates of the first and last bins before they are sorted
        first_rate, last_rate = new[0].lead[0], new[-1].lead[0]
        order = sorted(range(len(new)), key=lambda i: (new[i].g, i))
        if order != list(range(len(new))):
            self.events.add("reordered")
        new = [new[i] for i in order]
        new = self.merge_bins(new, d)
        if self.bounds is not None:
            lo, hi = self.bounds[0], self.bounds[1] / (1 + F)
            kept = []
            for b in new:
                for e in (lo, hi):
                    if tie(b.g, e, 1e-12):
                        raise Ambiguous("bin at the bound")
                if lo <= b.g <= hi:
                    kept.append(b)
                else:
                    self.events.add("removed")
            if not kept:
                raise Impossible("no bins left")
            new = kept
            a = math.log10(new[0].g) - math.log10(lo)
            z = math.log10(self.bounds[1]) - math.log10(new[-1].g)
            for x in (a, z):
                if abs(x - self.creep) < 1e-11:
                    raise Ambiguous("creep")
            M = len(self.groups)
            fresh = []
            # a boundary bin is decided from the first subgroup
            if a >= self.creep and (new[0].lead[0] > 0) != (first_rate > 0):
                raise Ambiguous("outermost bins moving in different directions")
            if z >= self.creep and (new[-1].lead[0] < 0) != (last_rate < 0):
                raise Ambiguous("outermost bins moving in different directions")
            if a >= self.creep and first_rate > 0:
                fresh.append((0, lo))
            if z >= self.creep and last_rate < 0:
                fresh.append((1, hi))
            for where, x in fresh:
                b = Bin(x, 0.0, [1.0] + [0.0] * (M - 1))
                b.fresh = True
                self.events.add("added at the %s bound" % ("upper" if where else "lower"))
                new = new + [b] if where else [b] + new
        # time left and rates
        for b in new:
            due = True
            if self.opt:
                b.left = 0.0 if b.fresh else b.left - dt
                if not b.fresh:
                    if math.isfinite(b.left) and tie(b.left, dt, 1e-9):
                        raise Ambiguous("time left")
                    due = b.left < dt
                if due:
                    b.left = 0.0
            if due:
                b.up = b.g * (1 + F)
            b.stale = due
        self.bins = new
        self.t += dt
        self.dt = dt
        self.n_steps += 1
        if not all(b.stale for b in new):
            self.events.add("slow bins")
        self.refresh([b for b in new if b.stale])
        return self.snapshot()

    def merge_bins(self, new, d):
        gs = [b.g for b in new]
        groups = self.duplicates(gs)
        if len(groups) < len(gs):
            self.events.add("duplicates")
            out = []
            for grp in groups:
                b = new[grp[0]]
                if len(grp) > 1:
                    b.g = math.exp(sum(math.log(gs[i]) for i in grp) / len(grp))
                    b.n = float(ref.density(d, b.g))
                b.fresh = True  # everything is recalculated
                out.append(b)
            new = out
        if self.merge is None:
            return new
        gs = [b.g for b in new]
        N = len(gs)
        groups = [[0]]
        for i in range(1, N):
            gap = math.log10(gs[i]) - math.log10(gs[i - 1])
            if abs(gap - self.merge) < 1e-11 and 1 < i < N - 1:
                raise Ambiguous("gap")
            # gap i-1 among N-1, the first and the last excluded
            close = gap < self.merge and 1 < i < N - 1
            groups[-1].append(i) if close else groups.append([i])
        if len(groups) == N:
            return new
        self.events.add("merged")
        out = []
        for grp in groups:
            b = new[grp[0]]
            if len(grp) > 1:
                b.g = math.exp(sum(math.log(gs[i]) for i in grp) / len(grp))
                b.n = float(ref.density(d, b.g))
                b.fresh = True
            out.append(b)
        return out

    def snapshot(self):
        return dict(
            t=self.t,
            g=np.array([b.g for b in self.bins]),
            n=np.array([b.n for b in self.bins]),
            s=np.array([b.s for b in self.bins]).T,
            en={p: np.array([b.en[p][0] for b in self.bins]) for p in self.procs if KIND[p] == "en"},
            rel={p: np.array([b.rel[p] for b in self.bins]) for p in self.procs if KIND[p] == "rel"},
            ab={p: np.array([b.ab[p] for b in self.bins]) for p in self.procs if KIND[p] == "ab"},
            n_e=self.r.n_e,
            dt=getattr(self, "dt", 0.0),
        )

    def run(self, max_steps=10**9):
        out = [self.start()]
        while len(out) <= max_steps:
            x = self.advance_once()
            if x is None:
                break
            out.append(x)
        return out


# ----------------------------------------------------------------------------- scene
_x = np.exp(np.linspace(np.log(31.0), np.log(1.9e5), 9))
EDISTS = {
    "pl": dict(family="PowerLaw", k=911.0, p=2.13, gamma_min=31.3, gamma_max=1.87e5),
    "bpl": dict(family="BrokenPowerLaw", k=1.7e-4, p1=1.9, p2=3.1, gamma_b=2.3e3, gamma_min=31.3, gamma_max=1.87e5),
    "interp": dict(family="Interp", gamma=list(_x), n=list(500 * _x**-2.0 * np.exp(-_x / 4e4)), norm=1.3, interpolator="pchip"),
    "lp": dict(family="LogParabola", k=3.3e-4, p=2.2, q=0.17, gamma_0=1.3e3, gamma_min=31.3, gamma_max=1.87e5),
    "narrow": dict(family="PowerLaw", k=911.0, p=2.13, gamma_min=217.0, gamma_max=2.3e4),
    "empty": dict(family="Empty", gamma_min=31.3, gamma_max=1.87e5),
}
_irr = np.array([33.0, 71.0, 72.3, 188.0, 640.0, 655.0, 671.0, 2.9e3, 2.902e3, 1.1e4, 4.7e4, 4.71e4, 1.3e5])
GRIDS = {
    "default": None,
    "log": np.exp(np.linspace(np.log(40.0), np.log(1.6e5), 10)),
    "irregular": _irr,
    "int": np.array([37, 110, 470, 1203, 5001, 21007, 90013]),
    "two": np.array([60.0, 3.3e4]),
    "samples": _x.copy(),
    "close": 1500.0 * np.exp(np.linspace(-0.02, 0.02, 9)),
}
FIELD = 5.3
BASE = dict(dist="pl", grid="default", procs=("syn", "acc", "esc", "inj"), total=31.0, step=6.7, bounds=None, creep=0.1,
            merge=1.5e-3, max_en=0.01, max_dens=0.1, max_inj=1.0, optimize=None, method="euler", groups=None,
            shares=None, unit="s", form="dict", size=11, clock=1.0, amount=1.0, lorentz=1.0)


def initial_shares(kind, M, N):
    if kind is None:
        return None
    i = np.arange(N)
    if kind == "smooth":
        w = np.array([1 + 0.8 * np.sin(0.9 * i + 1.7 * m) for m in range(M)])
    elif kind == "last":
        w = np.zeros((M, N)) + 0.0
        w[-1] = 1
    elif kind == "half":  # part of the bins without any of the last subgroup
        w = np.array([1 + 0.3 * m + 0.02 * i for m in range(M)])
        w[-1, : N // 2] = 0
    elif kind == "equal":
        w = np.ones((M, N))
    return w / w.sum(axis=0)


def full(cfg):
    return {**BASE, **cfg}


def fresh_region(cfg):
    d = copy.deepcopy(EDISTS[cfg["dist"]])
    if cfg["amount"] != 1:
        n = "norm" if "norm" in d else "k"
        if n in d:
            d[n] *= cfg["amount"]
    if cfg["lorentz"] != 1:
        for n in d:
            if n.startswith("gamma"):
                d[n] = [x * cfg["lorentz"] for x in d[n]] if isinstance(d[n], list) else d[n] * cfg["lorentz"]
    # the synchrotron losses on the same scale of time
    return ref.Region(R_b=2.3e16, z=0.31, delta_D=11.3, Gamma=9.7, B=FIELD / cfg["clock"] ** 0.5, n_e=d, ne_size=cfg["size"])


def gammas(cfg):
    g = GRIDS[cfg["grid"]] if isinstance(cfg["grid"], str) else cfg["grid"]
    return g if g is None or cfg["lorentz"] == 1 else g * cfg["lorentz"]


def ngrid(cfg):
    g = gammas(cfg)
    return cfg["size"] if g is None else len(g)


def step_of(cfg):
    return "auto" if cfg["step"] == "auto" else cfg["step"] * cfg["clock"]


def groups_of(cfg):
    return None if cfg["groups"] is None else [list(g) for g in cfg["groups"]]


def sim_of(cfg, r=None):
    r = r or fresh_region(cfg)
    M = 1 if cfg["groups"] is None else len(cfg["groups"])
    sh = cfg["shares"]
    if sh is None or isinstance(sh, str):
        sh = initial_shares(sh, M, ngrid(cfg))
    return Sim(r, cfg["procs"], cfg["total"] * cfg["clock"], step_of(cfg), gammas(cfg), cfg["bounds"], cfg["creep"], cfg["merge"],
               cfg["max_en"], cfg["max_dens"], cfg["max_inj"] * cfg["amount"], cfg["optimize"], cfg["method"], groups_of(cfg), sh,
               cfg["size"], cfg["clock"], cfg["amount"])


class Stop(Exception):
    pass


class Run:
    """the real evolution, with everything observable recorded"""

    def __init__(self, cfg, blob=None, probe=False, max_steps=10**9, record=False, wrap=None):
        self.cfg = cfg
        self.blob = blob if blob is not None else scene.blob(fresh_region(cfg))
        self.calls = []  # (process, gamma, densities, shares)
        self.steps = []
        self.held = []
        self.probes = []
        self.error = None
        self.result = None
        self.max_steps = max_steps
        self.probe = probe
        self.fns = {p: self.wrap(p, wrap) for p in cfg["procs"]}

    def wrap(self, name, how):
        f = real_fn(name, self.blob, self.cfg["clock"], self.cfg["amount"], self.cfg["unit"])

        def g(args):
            self.calls.append((name, np.array(args.gamma, float), args.densities.to_value("cm-3").copy(), np.array(args.density_subgroups, float)))
            return f(args)

        return g

    def functions(self):
        """in the form asked for; names of dictionaries"""
        cfg, kw, self.names = self.cfg, {}, {}
        for k, arg in KINDS.items():
            ps = [p for p in cfg["procs"] if KIND[p] == k]
            form = cfg["form"]
            if form == "dict":
                kw[arg] = {p: self.fns[p] for p in ps}
                self.names.update({p: p for p in ps})
            else:
                self.names.update({p: str(self.fns[p]) for p in ps})
                if form == "alone" and len(ps) == 1:
                    kw[arg] = self.fns[ps[0]]
                elif form == "tuple":
                    kw[arg] = tuple(self.fns[p] for p in ps)
                else:
                    kw[arg] = [self.fns[p] for p in ps]
            if not ps and k != "en" and form != "dict":
                kw[arg] = None
        return kw

    def build(self, **more):
        from agnpy.time_evolution.time_evolution import TimeEvolution

        cfg = self.cfg
        T = u.Unit(cfg["unit"])
        kw = self.functions()
        step = step_of(cfg)
        M = 1 if cfg["groups"] is None else len(cfg["groups"])
        sh = cfg["shares"]
        if isinstance(sh, str):
            sh = initial_shares(sh, M, ngrid(cfg))
        g = gammas(cfg)
        kw.update(
            step_duration="auto" if step == "auto" else (step * u.s).to(T),
            initial_gamma_array=None if g is None else g.copy(),
            gamma_bounds=cfg["bounds"],
            max_bin_creep_from_bounds=cfg["creep"],
            merge_bins_closer_than=cfg["merge"],
            max_energy_change_per_interval=cfg["max_en"],
            max_density_change_per_interval=cfg["max_dens"],
            max_injection_per_interval=cfg["max_inj"] * cfg["amount"],
            optimize_recalculating_slow_rates=cfg["optimize"],
            method=cfg["method"],
            subgroups=None if cfg["groups"] is None else [[self.names[p] for p in grp] for grp in cfg["groups"]],
            subgroups_initial_density=None if sh is None else np.array(sh),
            distribution_change_callback=self.callback,
        )
        kw.update(more)
        self.te = TimeEvolution(self.blob, (cfg["total"] * cfg["clock"] * u.s).to(T), **kw)
        return self.te

    def plain(self, res):
        back = {v: k for k, v in self.names.items()}
        conv = lambda d, unit: {back.get(k, k): np.array(v.to_value(unit), float) for k, v in d.items()}
        return dict(
            t=float(res.total_time.to_value("s")),
            g=np.array(res.gamma, float),
            n=np.array(res.density.to_value("cm-3"), float),
            s=np.array(res.density_subgroups, float),
            en=conv(res.en_chg_rates, "erg s-1"),
            rel=conv(res.rel_inj_rates, "s-1"),
            ab=conv(res.abs_inj_rates, "cm-3 s-1"),
            ncalls=len(self.calls),
        )

    def callback(self, res):
        x = self.plain(res)
        if self.probe:
            x["probe"] = self.blob.n_e(probes(x["g"])).to_value("cm-3")
            x["type"] = type(self.blob.n_e).__name__
            x["bounds"] = (float(self.blob.n_e.gamma_min), float(self.blob.n_e.gamma_max))
        self.steps.append(x)
        self.held.append(res)
        if len(self.steps) >= self.max_steps:
            raise Stop()

    def go(self, **more):
        self.build(**more)
        try:
            self.result = self.te.evaluate()
        except Stop:
            pass
        except Exception as e:
            self.error = e
        return self


def probes(g):
    g = np.asarray(g, float)
    return np.concatenate([g, np.sqrt(g[1:] * g[:-1]), [g[0] / 1.7, g[-1] * 1.7]])


def compare(ctx, cfg, max_steps=60, rtol=1e-7, probe=False, keep=None, r=None, blob=None):
    """run both and compare every step; returns (Run, Sim, reference snapshots, verdict)"""
    sim = sim_of(cfg, r)
    if keep:
        sim.still = True
    snaps, verdict = [], "ended"
    try:
        snaps.append(sim.start())
        while len(snaps) <= max_steps:
            x = sim.advance_once()
            if x is None:
                break
            snaps.append(x)
        else:
            verdict = "cut"
    except Ambiguous as e:
        verdict = "ambiguous"
    except Impossible as e:
        verdict = "impossible"
    run = Run(cfg, blob=blob, probe=probe, max_steps=max_steps if verdict != "ambiguous" else max(len(snaps) - 1, 1)).go()
    if verdict == "impossible":
        ctx.true(run.error is not None, f"an impossible evolution did not raise")
        ctx.true(len(run.steps) == len(snaps) - 1, lambda: f"raised after {len(run.steps)} steps instead of {len(snaps) - 1}")
    elif verdict != "ambiguous" and run.error is not None:
        raise run.error
    n = len(snaps) - 1
    if verdict == "ambiguous" and len(run.steps) < n and run.error is not None:
        raise run.error
    ctx.true(len(run.steps) >= n, lambda: f"{len(run.steps)} steps instead of {n}")
    if verdict == "ended":
        ctx.true(len(run.steps) == n, lambda: f"{len(run.steps)} steps instead of {n}")
    for i in range(n):
        same_state(ctx, f"step {i + 1}", run.steps[i], snaps[i + 1], rtol)
    if verdict == "ended":
        same_state(ctx, "result", run.plain(run.result), snaps[-1], rtol)
    ctx.outcomes.update(sim.events)
    ctx.outcomes.add(verdict)
    per = ctx.per.setdefault(ctx._cur, {})
    per["evolutions " + verdict] = per.get("evolutions " + verdict, 0) + 1
    return run, sim, snaps, verdict


def same_state(ctx, what, got, want, rtol=1e-7):
    ctx.close(f"{what}: elapsed time", got["t"], want["t"], 1e-9)
    ctx.close(f"{what}: gamma", got["g"], want["g"], 1e-9)
    ctx.close(f"{what}: density", got["n"], want["n"], rtol, atol=1e-9 * rtol * float(np.max(np.abs(want["n"])) or 1))
    ctx.close(f"{what}: shares", got["s"], want["s"], rtol, atol=1e-9)
    for k in ("en", "rel", "ab"):
        ctx.equal(f"{what}: names of {k} rates", sorted(got[k]), sorted(want[k]))
        for p in want[k]:
            scale = float(np.max(np.abs(want[k][p]))) if want[k][p].size else 0
            ctx.close(f"{what}: rate of {p}", got[k][p], want[k][p], 3 * rtol, atol=1e-9 * scale)
