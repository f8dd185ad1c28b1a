"""Histories of arguments: one object is asked again and again with the same array, changed in
place between the questions, with new arrays of the same values, with views of it and after the
values returned have been overwritten. Every answer has to be the one of a new object."""
import copy
import functools
import numpy as np
import astropy.units as u
from mc.core import val
from mc import scene
from mc.catalog import World, Live, SPECTRAL, MAKERS
from agnpy.spectra import EmptyDistribution
from agnpy.synchrotron import Synchrotron
from agnpy.synchrotron import synchrotron as sy
from agnpy.compton import SynchrotronSelfCompton
from agnpy.compton import kernels as kn
from agnpy.absorption import EBL
from agnpy.absorption import targets_absorption as ab
from agnpy.utils import geometry as geo, conversion as conv, math as am

FORMS = ["same", "fill A", "fill B", "new A", "new B", "reversed", "part", "column", "spoil", "long"]


class Asked:
    def __init__(self, obj, A, unit):
        self.obj, self.unit = obj, unit
        self.buf = self.array(A)
        self.now = "A"
        self.last = None

    def array(self, x):
        x = np.array(x, dtype=float)
        return x if self.unit is None else x * u.Unit(self.unit)


def histories(c, name, make, queries, A, B, unit="Hz", depth=2, rtol=1e-9, long=1537):
    """make() -> object; queries: functions of (object, array), elementwise in the array"""
    V = {"A": np.array(A, dtype=float), "B": np.array(B, dtype=float)}
    want = {}

    def wanted(i, k):
        if (i, k) not in want:
            s = Asked(make(), V[k], unit)
            want[i, k] = np.array(val(queries[i](s.obj, s.buf)))
        return want[i, k]

    def start():
        s = Asked(make(), A, unit)
        s.last = queries[0](s.obj, s.buf)
        return s, None

    def step(s, model, op):
        form, i = op
        part = lambda x: x
        x = None
        if form.startswith("fill"):
            s.now = form[-1]
            s.buf[...] = s.array(V[s.now])
        elif form.startswith("new"):
            x, k = s.array(V[form[-1]]), form[-1]
        elif form == "reversed":
            part = lambda x: x[::-1]
        elif form == "part":
            part = lambda x: x[1:3]
        elif form == "column":
            part = lambda x: x.reshape(-1, 1)
        elif form == "long":
            part = lambda x: x[np.arange(long) % len(x)]
        elif form == "spoil" and s.last is not None and np.ndim(s.last) and s.last.flags.writeable:
            s.last *= 0
        if x is None:
            x, k = part(s.buf), s.now
        s.last = queries[i](s.obj, x)
        c.close(f"{name}, {form}", val(s.last), part(wanted(i, k)), rtol=rtol)

    c.sequences(name + ", histories of the argument", start, [(f, i) for f in FORMS if f != "long" or long for i in range(len(queries))], step, depth)


def spectral(c, names, depth=None):
    """the queries of the catalogue, each alone and in pairs sharing the object"""
    depth = depth or (2 if c.quick else 3)
    for q in names:
        m, fn = SPECTRAL[q]
        A = np.array(MAKERS[m][1])
        B = A[::-1] * 1.23
        if m == "ebl":
            B = A * 1.07

        def make():
            w = World()
            return w, Live(w).get(m)

        histories(c, q, make, [lambda s, nu, fn=fn: fn(s[1], nu, s[0])], A, B, depth=depth)


G_A, G_B = [21.3, 444.0, 9.7e3, 2.2e5], [3.1e5, 18.9, 7.7e2, 3.3e3]


def _dist(fam, ssa=False, particle="e"):
    from checks.spectra import PARAMS
    from mc import build

    def job(c):
        if fam == "InterpolatedDistribution":
            make = lambda: build.dist(scene.DISTS["interp"])
        elif fam == "EmptyDistribution":
            make = EmptyDistribution
        else:
            d = dict(family=fam, **{k: v[0] for k, v in PARAMS[fam].items()})
            make = lambda: build.dist(d, particle)
        if ssa:
            q = [lambda o, g: o.SSA_integrand(g), lambda o, g: o.evaluate_SSA_integrand(g, *o.parameters)]
        else:
            q = [lambda o, g: o(g), lambda o, g: o.evaluate(g, *o.parameters)]
        histories(c, fam, make, q, G_A, G_B, None, 2 if c.quick else 3)

    return job


def _plain(name, make, queries, A, B, unit):
    return lambda c: histories(c, name, make, queries, A, B, unit, 2 if c.quick else 3)


def _spec(q):
    return lambda c: spectral(c, [q])


def _pick(*starts):
    return [_spec(q) for q in SPECTRAL if any(q.startswith(s) for s in starts)]


@functools.lru_cache
def _ebl(m):
    return EBL(m)


def _region():
    return World({"n_p": "p_pl"}).blob


def _fn(f):
    return [lambda o, x: f(x)]


def _density(kind):
    from checks.targets import base_target
    from mc import targets as T

    def job(c):
        t, r = base_target(kind)
        b = _region()
        A = [r * q for q in (0.31, 1.0, 4.4, 17.0)]
        histories(c, "energy density of " + kind, lambda: T.make(t), [lambda o, x: o.u(x), lambda o, x: o.u(x, b)], A, [x * 1.27 for x in A[::-1]], "cm", 2 if c.quick else 3)

    return job


def _model(backend, targets):
    def job(c):
        from checks import fit

        d = fit.DISTS["bpl"]
        make = lambda: fit.start(backend, d, targets, False)
        if backend == "gammapy":
            q = [lambda m, e: m(e), lambda m, e: m.evaluate(e, **{p.name: p.quantity for p in m.parameters})]
        else:
            q = [lambda m, e: m(e), lambda m, e: m.calc([p.val for p in m.pars], e)]
        q = q if targets is None else q[:1]
        histories(c, f"{backend} model", make, q, [0.013, 9.1, 3.3e4, 4.7e8], [2.2e8, 1.7e3, 0.71, 0.4], "eV" if backend == "gammapy" else None, 2, long=0)

    return job


FAMILIES = ["PowerLaw", "BrokenPowerLaw", "LogParabola", "ExpCutoffPowerLaw", "ExpCutoffBrokenPowerLaw", "InterpolatedDistribution", "EmptyDistribution"]
SEDU = 1e-12 * u.Unit("erg cm-2 s-1")
none = lambda: None
JOBS = {
    "C01": [_dist(f) for f in FAMILIES[:5]] + [_dist(f, particle="p") for f in FAMILIES[:2]],
    "C03": [_dist(f, ssa=True) for f in FAMILIES],
    "C04": [_dist(f) for f in FAMILIES[5:]],
    "C05": [
        _plain("region", _region, [lambda b, g: b.N_e(g), lambda b, g: b.N_p(g)], G_A, G_B, None),
        _plain("region, photons", _region, [lambda b, e: b.u_ph_synch_diff(e, SEDU)], [1e-9, 3e-4, 0.2, 7.0], [4.0, 1e-3, 1e-8, 0.7], None),
    ],
    "C08": [_spec(q) for q in SPECTRAL if q.split(":")[0] in ("synch", "synch ssa", "synch ssa loglog", "p synch") and q.split(": ")[1] in ("sed_flux", "sed_flux_delta_approx", "tau_ssa")],
    "C09": _pick("ssc: sed_flux", "ssc ssa: sed_flux"),
    "C10": [_spec(q) for q in SPECTRAL if q.startswith("ec ") and q.endswith("sed_flux")],
    "C13": [_spec(q) for q in SPECTRAL if q.endswith("sed_luminosity") or q.endswith("diff_energy_flux")],
    "C14": [
        _plain("synchrotron losses", lambda: Synchrotron(_region()), [lambda o, g: o.electron_energy_loss_rate(g)], G_A, G_B, None),
        _plain("SSC losses", lambda: SynchrotronSelfCompton(_region()), [lambda o, g: o.electron_energy_loss_rate(g)], G_A, G_B, None),
    ],
    "C16": [_density(k) for k in ("PS", "Disk", "BLR", "DT")],
    "C17": _pick("bb ") + [
        _plain("disk", lambda: World().t["Disk"], [lambda o, x: o.epsilon(x), lambda o, x: o.phi_disk(x)], [7.3, 15.0, 60.3, 150.0], [99.0, 11.1, 8.8, 31.0], None),
        _plain("disk, temperature", lambda: World().t["Disk"], [lambda o, x: o.T(x)], [2.1e15, 4.0e15, 9.3e15, 3.1e16], [8.8e15, 2.7e15, 2e16, 5e15], "cm"),
    ],
    "C18": _pick("abs Disk: tau", "abs BLR: tau", "abs DT: tau"),
    "C19": _pick("abs PS: tau", "abs BLR tilted: tau", "abs DT tilted: tau"),
    "C20": _pick("abs blob: tau"),
    "C21": [_spec(q) for q in SPECTRAL if q.startswith("abs ") and "absorption" in q],
    "C22": [
        _plain(m, lambda m=m: copy.deepcopy(_ebl(m)), [lambda o, nu: o.absorption(nu, 0.31), lambda o, nu: o.absorption(nu, 0.17)], [2.1e25, 7.7e25, 3.3e26, 9.1e26], [8.3e26, 2.9e26, 2.3e25, 6.1e25], "Hz")
        for m in ("franceschini_2017", "dominguez_2011")
    ],
    "C23": [
        _plain("geometry", none, [
            lambda o, m: geo.cos_psi(0.9, m, 1.1), lambda o, m: geo.x_re_shell(m, 1e17 * u.cm, 3e17 * u.cm), lambda o, m: geo.mu_star_shell(m, 1e17 * u.cm, 3e17 * u.cm),
            lambda o, m: geo.x_re_shell_mu_s(1e17 * u.cm, 3e17 * u.cm, 1.3, m, 2e17 * u.cm, 0.9), lambda o, m: geo.phi_mu_re_shell(1e17 * u.cm, 3e17 * u.cm, 1.3, m, 2e17 * u.cm, 0.9)[1],
        ], [-0.9, 0.1, 0.77, 0.31], [0.4, -0.2, 0.93, -0.66], None),
        _plain("geometry of distances", none, [
            lambda o, x: geo.x_re_ring(1e17 * u.cm, x), lambda o, x: geo.x_re_ring_mu_s(1e17 * u.cm, 3e17 * u.cm, 1.1, x, 0.9),
            lambda o, x: geo.phi_mu_re_ring(1e17 * u.cm, 3e17 * u.cm, 1.1, x, 0.9)[0], lambda o, x: geo.phi_mu_re_shell(1e17 * u.cm, 3e17 * u.cm, 1.1, 0.4, x, 0.9)[0],
        ], [1e15, 3e16, 2e17, 9e18], [4e18, 2e15, 7e16, 1e17], "cm"),
    ],
    "C32": [_model("gammapy", t) for t in (None, ["dt"])],
    "C33": [_model("sherpa", t) for t in (None, ["dt"])],
    "C24": [
        _plain("kernels", none, [
            lambda o, g: kn.isotropic_kernel(g, 1e-6, 30.0), lambda o, g: kn.compton_kernel(g, 30.0, 1e-6, 0.9, 0.2, 1.0),
            lambda o, g: sy.R(g / 1e4), lambda o, g: sy.tau_to_attenuation(g / 1e3), lambda o, g: ab.sigma(g), lambda o, g: am.log(g), lambda o, g: kn.F_c(10.0 / g, 7.7),
        ], G_A, G_B, None),
        _plain("conversions", none, [lambda o, nu: conv.nu_to_epsilon_prime(nu, 0.3, 12.0), lambda o, nu: conv.nu_to_epsilon_prime(nu, 0.7, 3.0)], [1e12, 3e15, 7e22, 2e27], [5e26, 1e13, 2e17, 3e9], "Hz"),
    ],
}  # fmt: skip
