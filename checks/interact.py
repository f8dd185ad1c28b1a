"""Interactions: C06 isolation and absence of side effects, C07 live views, C11 elementwise results,
C12 independence of units, C13 quantities derived from the SED."""
import copy
import itertools
import numpy as np
import astropy.units as u
from mc import catalog as cat, scene, build, ref, targets
from mc.catalog import World, Live, SPECTRAL, OTHER, MAKERS, ALL, PROCESSES, ABSORBERS, TARGETS, UNITS
from mc.build import RULE
from mc.core import plain


def same(ctx, what, got, want, rtol=1e-10, units=True, physical=False):
    """two results of a query"""
    ctx.equal(f"{what}: number of values", len(got), len(want))
    for i, ((g, gu), (w, wu)) in enumerate(zip(got, want)):
        if isinstance(g, str):
            ctx.equal(what, g, w)
            continue
        if physical:
            f = u.Unit(gu or "").to(u.Unit(wu or ""))
            g = g * f
        elif units:
            ctx.true(u.Unit(gu or "") == u.Unit(wu or ""), f"{what}: in {gu} instead of {wu}")
        both = np.isnan(g) & np.isnan(w) if np.shape(g) == np.shape(w) else False
        ctx.close(f"{what}[{i}]", np.where(both, 0.0, g), np.where(both, 0.0, w), rtol)


# ------------------------------------------------------------------------------- C06
def c06(ctx):
    fresh = {}
    L0 = Live(World())
    for q in ALL:
        # each on its own new objects
        fresh[q] = Live(World()).query(q)
    # inputs of the queries of arrays
    inputs = {}

    def make():
        return Live(World()), None

    def step(sut, model, q):
        nu = None
        if q in SPECTRAL:
            nu = np.array(MAKERS[SPECTRAL[q][0]][1]) * u.Hz
            before = nu.copy()
        gam = cat.GAM.copy()
        r = sut.w.r.copy()
        got = sut.query(q, nu)
        same(ctx_.c, q, got, fresh[q], 1e-12)
        if nu is not None:
            ctx_.c.true(np.array_equal(nu.value, before.value) and nu.unit == before.unit, f"{q} changed the frequencies passed")
        ctx_.c.true(np.array_equal(gam, cat.GAM), f"{q} changed the Lorentz factors passed")
        ctx_.c.true(r == sut.w.r, f"{q} changed the distance passed")

    class ctx_:
        c = ctx

    def job(first):
        def run(c):
            ctx_.c = c
            c.sequences("queries", make, ALL, step, 2 if ctx.quick else 3, first=first)

        return run

    jobs = [job([q]) for q in ALL]

    # repeated queries, with every one queried in between
    def again(c):
        ctx_.c = c

        def fn(cfg):
            L = Live(World())
            a = L.query(cfg["q"])
            for q in ALL:
                L.query(q)
            same(c, cfg["q"], L.query(cfg["q"]), a, 1e-12)

        c.product("again after all the others", dict(q=ALL if not ctx.quick else ALL[::3]), fn)

    jobs.append(again)
    # two scenes: changing one does not affect the other
    muts = _mutations()

    def witness(c):
        ctx_.c = c

        def mk():
            a, b = Live(World()), Live(World())
            for q in ALL[::5]:
                a.query(q), b.query(q)
            return (a, b), None

        def st(sut, model, op):
            muts[op](sut[0])
            qs = ALL[hash_(op) % 4 :: 4]
            for q in qs:
                same(c, f"{q} of the other scene", sut[1].query(q), fresh[q], 1e-12)

        return mk, st

    def wjob(op):
        def run(c):
            mk, st = witness(c)
            c.sequences("separate scenes", mk, list(muts), st, 1 if ctx.quick else 2, first=[op])

        return run

    jobs += [wjob(op) for op in muts]
    # default arguments
    jobs.append(_defaults)
    # an input array is not modified, whatever its contiguity, and results are not tied to it
    jobs.append(_inputs)
    ctx.parallel(jobs)


def hash_(s):
    return sum(ord(ch) for ch in s)


def _mutations():
    """changes of the first scene, some in place"""
    m = {}

    def attr(path, fn):
        def do(L):
            o = L.w
            for p in path[:-1]:
                if p == "n_p" and getattr(L, "no_protons", False):
                    return
                o = getattr(o, p) if isinstance(p, str) and not isinstance(o, dict) else o[p]
            # a parameter of the distribution that was replaced meanwhile is left out
            if hasattr(o, path[-1]):
                setattr(o, path[-1], fn(getattr(o, path[-1])))

        m[".".join(path)] = do

    for a, f in (("R_b", lambda x: x * 3), ("z", lambda x: 1.1), ("delta_D", lambda x: 4.0), ("Gamma", lambda x: 23.0), ("B", lambda x: x * 7), ("xi", lambda x: 0.1), ("gamma_e_size", lambda x: 31), ("gamma_p_size", lambda x: 31)):
        attr(("blob", a), f)
    for a, f in (("k", lambda x: x * 5), ("p1", lambda x: 2.2), ("p2", lambda x: 2.9), ("gamma_b", lambda x: 900.0), ("gamma_min", lambda x: 2.0), ("gamma_max", lambda x: 1e5)):
        attr(("blob", "n_e", a), f)
    attr(("blob", "n_p", "k"), lambda x: x * 5)
    attr(("t", "PS", "L_0"), lambda x: x * 3)
    attr(("t", "BLR", "R_line"), lambda x: x * 3)
    attr(("t", "DT", "xi_dt"), lambda x: 0.5)
    attr(("t", "Disk", "L_disk"), lambda x: x * 3)

    def inplace(path):
        def do(L):
            o = L.w
            for p in path[:-1]:
                if p == "n_p" and getattr(L, "no_protons", False):
                    return
                o = getattr(o, p) if not isinstance(o, dict) else o[p]
            q = getattr(o, path[-1])
            q *= 3
            setattr(o, path[-1], q)

        m["in place " + ".".join(path)] = do

    for path in (("blob", "R_b"), ("blob", "B"), ("blob", "n_e", "k"), ("blob", "n_p", "k"), ("t", "PS", "L_0"), ("t", "BLR", "R_line"), ("t", "DT", "R_dt"), ("r",)):
        inplace(path)
    m["n_e"] = lambda L: setattr(L.w.blob, "n_e", build.dist(scene.DISTS["lp"]))

    def drop(L):
        L.w.blob.n_p = None
        L.no_protons = True

    m["n_p"] = drop

    def grids(L):
        for n in ("ec BLR", "ec DT", "abs BLR", "abs DT tilted"):
            o = L.get(n)
            o.set_mu(3), o.set_phi(4)
            o.mu *= 0.5
            o.phi *= 0.5

    m["angular grids"] = grids

    def settings(L):
        for n in ("synch ssa", "ssc ssa", "ec PS"):
            o = L.get(n)
            o.integrator = RULE["loglog"]
            o.ssa = False

    m["settings"] = settings
    return m


def _defaults(c):
    """every class built with its default arguments, twice: changing the first leaves the second,
    and a third built afterwards, as they would have been"""
    from agnpy.emission_regions import Blob
    from agnpy import spectra as sp
    from agnpy.compton import ExternalCompton
    from agnpy.absorption import Absorption
    from agnpy.targets import CMB, PointSourceBehindJet, RingDustTorus

    g = np.array([1.0, 33.0, 4e3, 9e4])
    FAM = ["PowerLaw", "BrokenPowerLaw", "LogParabola", "ExpCutoffPowerLaw", "ExpCutoffBrokenPowerLaw"]
    KIND = {f: (getattr(sp, f), lambda o: [o(g).to_value("cm-3"), o.SSA_integrand(g).value, o.integrate().value]) for f in FAM}

    def blob_values(b):
        d = b.n_e(g).to_value("cm-3")
        return [d] + [np.asarray(getattr(getattr(b, a), "cgs", getattr(b, a))).astype(float) if a != "theta_s" else float(b.theta_s.value) for a in cat.BLOB_ATTRS if not a.endswith("_p") and "n_p" not in a and "N_p" not in a and a not in ("u_p", "W_p", "gamma_p", "B_cgs")] + [b.B.value]

    KIND["Blob"] = (Blob, blob_values)
    blob, r = Blob(), 3e17 * u.cm
    dt = RingDustTorus(1e46 * u.Unit("erg s-1"), 0.1, 1e3 * u.K)
    nu = np.array([1e18, 1e22]) * u.Hz
    KIND["ExternalCompton"] = (lambda: ExternalCompton(blob, dt, r), lambda o: [o.sed_flux(nu).value])
    KIND["EC CMB"] = (lambda: ExternalCompton(blob, CMB(0.1)), lambda o: [o.sed_flux(nu).value])
    KIND["Absorption"] = (lambda: Absorption(dt, r), lambda o: [o.tau(nu * 1e5)])
    CH = {
        "in place": lambda o, a: setattr(o, a, _imul(getattr(o, a))),
        "set": lambda o, a: setattr(o, a, getattr(o, a) * 3),
    }
    ATTR = {f: ["k", "gamma_min", "gamma_max"] for f in FAM}
    ATTR["PowerLaw"] = ATTR["PowerLaw"] + ["p"]
    ATTR["Blob"] = ["R_b", "B", "delta_D", "Gamma", "n_e.k", "n_e.p", "n_e.gamma_max", "gamma_e_size"]
    ATTR["ExternalCompton"] = ["mu", "phi"]
    ATTR["EC CMB"] = ["mu", "phi"]
    ATTR["Absorption"] = ["mu", "phi"]
    cases = [(k, a) for k in KIND for a in ATTR[k]]

    def fn(cfg):
        mk, values = KIND[cfg["case"][0]]
        want = values(mk())
        x, y = mk(), mk()
        o, path = x, cfg["case"][1].split(".")
        for p in path[:-1]:
            o = getattr(o, p)
        CH[cfg["how"]](o, path[-1])
        for lab, z in (("another", y), ("a later one", mk())):
            for i, (a, b) in enumerate(zip(values(z), want)):
                c.close(f"{cfg['case'][0]}: value {i} of {lab}", a, b, 1e-12)

    c.product("default arguments", dict(case=cases, how=list(CH)), fn)


def _imul(x):
    x *= 3
    return x


def _inputs(c):
    """arrays passed by the caller stay as they were: strided, reversed, read-only ones included"""
    L = Live(World())

    def fn(cfg):
        q = cfg["q"]
        base = np.array(MAKERS[SPECTRAL[q][0]][1])
        want = L.query(q, base * u.Hz)
        lay = cfg["layout"]
        if lay == "strided":
            big = np.full(8, 1e20)
            big[::2] = base
            nu = u.Quantity(big, "Hz", copy=False)[::2]
        elif lay == "reversed":
            nu = u.Quantity(base[::-1].copy(), "Hz", copy=False)[::-1]
        else:
            nu = base * u.Hz
            nu.flags.writeable = False
        got = L.query(q, nu)
        same(c, f"{q} of {lay} frequencies", got, want, 1e-12)
        c.true(np.array_equal(nu.value, base), f"{q} changed the {lay} frequencies")
        # the caller may change its array afterwards
        if lay != "read-only":
            nu *= 2
            same(c, f"{q} after the frequencies were reused", L.query(q, base * u.Hz), want, 1e-12)

    c.product("input arrays", dict(q=list(SPECTRAL), layout=["strided", "reversed", "read-only"]), fn)
    _functions(c)


def _functions(c):
    """functions of the library called directly: their arguments stay as they were"""
    from agnpy.utils import math as m, geometry as geo, conversion as conv
    from agnpy.synchrotron import synchrotron as syn
    from agnpy.compton import kernels as ker

    y = np.array([0.0, 2.3, 1e-310, 0.71, 0.0, 0.0, 5.9e200, 1.3])
    y2 = np.stack([y, y[::-1] * 3, y**0], 1)
    x = np.array([1.3, 2.1, 2.1, 7.7, 19.0, 33.1, 71.0, 900.0])
    t = np.array([0.0, 1e-12, 3e-5, 0.37, 2.9, 55.0, 1e6, -0.0])
    g = np.array([0.3, 1.0, 7.3, 31.0, 910.0, 4.3e4, 2.2e5, 1e9])
    mu = np.array([-1.0, -0.93, -0.2, 0.0, 0.31, 0.77, 0.999, 1.0])
    cases = dict(
        log=(m.log, [y]),
        log2=(m.log, [y2]),
        logz=(m.log, [t]),
        loglog=(m.trapz_loglog, [y, x]),
        loglog2=(lambda a, b: m.trapz_loglog(a, b, axis=0), [y2, x]),
        loglogx=(lambda a, b: m.trapz_loglog(a, b, axis=0), [y2, x[:, None] * np.ones(3)]),
        loglogq=(lambda a, b: m.trapz_loglog(a, b, axis=0), [y * u.Unit("cm-3"), x * u.Hz]),
        reshape=(lambda *a: [z.copy() for z in m.axes_reshaper(*a)], [y, x, t]),
        power=(lambda k, a, b: m.power_law_integral(k, 2.3, a, b), [g, x, x * 30]),
        power1=(lambda k, a, b: m.power_law_integral(k, 1.0, a, b), [g, x, x * 30]),
        cos=(geo.cos_psi, [mu, mu[::-1].copy(), x]),
        shell=(lambda a, b, d: geo.x_re_shell(a, b, d), [mu, np.full(8, 2e17) * u.cm, x * 1e16 * u.cm]),
        star=(lambda a, b, d: geo.mu_star_shell(a, b, d), [mu, np.full(8, 2.1e17) * u.cm, x * 1e16 * u.cm]),
        ring=(lambda b, d: geo.x_re_ring(b, d), [np.full(8, 2e17) * u.cm, x * 1e16 * u.cm]),
        ring_s=(lambda p, v: geo.x_re_ring_mu_s(2e17 * u.cm, 3e17 * u.cm, p, v, 0.93), [x, x * 1e16 * u.cm]),
        ring_a=(lambda p, v: geo.phi_mu_re_ring(2e17 * u.cm, 3e17 * u.cm, p, v, 0.93), [x, x * 1e16 * u.cm]),
        shell_s=(lambda p, a, v: geo.x_re_shell_mu_s(2e17 * u.cm, 3e17 * u.cm, p, a, v, 0.93), [x, mu, x * 1e16 * u.cm]),
        shell_a=(lambda p, a, v: geo.phi_mu_re_shell(2e17 * u.cm, 3e17 * u.cm, p, a, v, 0.93), [x, mu, x * 1e16 * u.cm]),
        eps=(lambda n: conv.nu_to_epsilon_prime(n, 0.3, 11.3), [10 ** np.linspace(8, 28, 8) * u.Hz]),
        B=(conv.B_to_cgs, [x * u.mT]),
        R_g=(lambda r, M: conv.to_R_g_units(r, M), [x * 1e15 * u.cm, g * 1e38 * u.g]),
        R=(syn.R, [x]),
        attenuation=(syn.tau_to_attenuation, [t]),
        F_c=(ker.F_c, [np.abs(mu), x]),
        isotropic=(ker.isotropic_kernel, [g, x * 1e-6, x * 1e-3]),
        compton=(ker.compton_kernel, [g, x * 1e-6, x * 1e-3, np.full(8, 0.93), mu, x]),
    )
    for f in ("pl", "bpl", "lp", "ecpl", "ecbpl", "interp"):
        d = build.dist(scene.DISTS[f])
        cases["n_e " + f] = (d, [g])
        cases["SSA " + f] = (d.SSA_integrand, [g])
    for n, z in _maps(World()).items():
        cases[n] = z

    def call(cfg):
        f, args = cases[cfg["case"]]
        want = f(*[a.copy() for a in args])
        copies = []
        for a in args:
            a = a.copy()
            v = a.view(np.ndarray) if isinstance(a, u.Quantity) else a
            if cfg["layout"] == "strided":
                big = np.full((2 * v.shape[0],) + v.shape[1:], 7e19)
                big[::2] = v
                v = big[::2]
            elif cfg["layout"] == "fortran":
                v = np.asfortranarray(v)
            elif cfg["layout"] == "read-only":
                v.flags.writeable = False
            copies.append(u.Quantity(v, a.unit, copy=False) if isinstance(a, u.Quantity) else v)
        with np.errstate(all="ignore"):
            got = f(*copies)
        for i, (a, b) in enumerate(zip(copies, args)):
            c.true(np.array_equal(np.asarray(a), np.asarray(b)) and getattr(a, "unit", None) == getattr(b, "unit", None), f"argument {i} of {cfg['case']} changed")
        flat = lambda v: v if isinstance(v, (list, tuple)) else [v]
        for a, b in zip(flat(got), flat(want)):
            a, b = np.asarray(a, float), np.asarray(b, float)
            c.true(a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=0, equal_nan=True), f"{cfg['case']} depends on the layout of its arguments")

    c.product("functions", dict(case=list(cases), layout=["plain", "strided", "fortran", "read-only"]), call)


def _maps(w):
    """other functions of arrays, of the objects of the scene"""
    from agnpy import Synchrotron, SynchrotronSelfCompton

    g = np.array([3.1, 31.0, 910.0, 4.3e4, 2.2e5, 8e5, 1e3, 77.0])
    disk = w.t["Disk"]
    R = np.geomspace(1.01, 50, 8) * disk.R_in
    return {
        "synch loss": (Synchrotron(w.blob).electron_energy_loss_rate, [g]),
        "thomson loss": (SynchrotronSelfCompton(w.blob).electron_energy_loss_rate_thomson, [g]),
        "ssc loss": (SynchrotronSelfCompton(w.blob).electron_energy_loss_rate, [g]),
        "disk T": (disk.T, [R]),
        "u CMB": (lambda r: w.t["PS"].u(r), [np.geomspace(1e16, 1e20, 8) * u.cm]),
        "disk u": (lambda r: disk.u(r, w.blob), [np.geomspace(1e16, 1e18, 8) * u.cm]),
        "blr u": (lambda r: w.t["BLR"].u(r, w.blob), [np.geomspace(1e16, 1e18, 8) * u.cm]),
        "dt u": (lambda r: w.t["DT"].u(r, w.blob), [np.geomspace(1e16, 1e20, 8) * u.cm]),
    }


c06.bounds = (
    "all ordered pairs (thorough: triples) of the 56 queries of the catalogue on shared objects; every mutation (thorough: "
    "every pair) of a first scene with a second as witness; every class with default arguments x every attribute changed, "
    "in place or not; strided / reversed / read-only inputs of every spectral query; arguments (with zeros, denormals, repetitions) of 44 functions x 4 memory layouts"
)
c06.assumptions = ["relative differences below 1e-12 are not considered as changes"]


# ------------------------------------------------------------------------------- C07
SIMPLE = {"PS": dict(L="L_0", eps="epsilon_0"), "BLR": dict(L="L_disk", xi="xi_line", R="R_line"), "DT": dict(xi="xi_dt")}
CUNIT = {"L": "erg s-1", "R": "cm"}
TALT = {
    "CMB": dict(z=1.7),
    "PS": dict(L=7.1e45, eps=1.1e-6),
    "Disk": dict(M=1.1e42, L=3.3e45, eta=0.2, Rin=6.1, Rout=990.0),
    "BLR": dict(L=3.3e45, xi=0.09, R=4.4e17, line="Hbeta"),
    "DT": dict(L=3.3e45, xi=0.5, T=700.0, R=8e17),
}
RDIMS = dict(
    n_e=["bpl", "pl", "lp", "interp"], R_b=[2.3e16, 7.1e14], z=[0.31, 1.7], delta_D=[11.3, 3], Gamma=[9.7, 25.3], B=[0.37, 4.7],
    ne_size=[21, 33],
)  # fmt: skip
for _k, _v in (("k", 9e-4), ("p1", 2.2), ("p2", 2.9), ("gamma_b", 900.0), ("gamma_min", 3.0), ("gamma_max", 2e5)):
    RDIMS["n_e." + _k] = [scene.DISTS["bpl"][_k], _v]
GROUPS = {m: [q for q in SPECTRAL if SPECTRAL[q][0] == m] for m in MAKERS if m not in ("bb Disk", "bb DT", "ebl")}
GROUPS["synch"] += ["synch: loss", "synch: integrals"]
GROUPS["ssc"] += ["ssc: loss", "ssc: loss thomson"]
OWN = {"constraints": ["constraints"], "u": ["u CMB", "u PS", "u Disk", "u BLR", "u DT"]}
TARGET_OF = {m: m.split()[1] for m in GROUPS if m.startswith(("ec", "abs")) and "blob" not in m}


def c07(ctx):
    jobs = []
    for g in list(GROUPS) + list(OWN):
        jobs.append(lambda c, g=g: _c07(c, g, 2))
    if not ctx.quick:
        jobs = [lambda c, g=g, s=s: _c07(c, g, 3, s) for g in list(GROUPS) + list(OWN) for s in range(3)]
    jobs.append(_switch)
    ctx.parallel(jobs)


def _c07(c, g, k, part=None):
    dims = {n: list(v[: 2 if g != "synch" else None]) for n, v in RDIMS.items()}
    if g == "p synch":
        dims = {n: dims[n] for n in ("R_b", "z", "delta_D", "Gamma", "B")}
        dims["n_p"] = ["p_pl", "p_bpl"]
        dims["np_size"] = [17, 25]
    if g.startswith("abs") and g != "abs blob":
        dims = {}
    kinds = [TARGET_OF[g]] if g in TARGET_OF else {"constraints": ["DT"], "u": list(TARGETS)}.get(g, [])
    for kd in kinds:
        for p, v in TALT[kd].items():
            dims[f"t.{kd}.{p}"] = [TARGETS[kd][p], v]
    if g in TARGET_OF or g in OWN:
        dims["r"] = [cat.R_POS, 4.9e18, 6.6e16]
    if g == "constraints":
        dims["xi"] = [0.8, 0.03]
    if g.startswith("ec"):
        dims.update(mu=[7, 12], phi=[6, 9], rule=["trapz", "loglog"])
    if g.startswith("abs") and g != "abs blob":
        dims.update(mu=[7, 12], phi=[6, 9], l=[9, 14], zs=[0.31, 1.1])
        if g.split()[1] != "Disk":
            dims["mus"] = [0.95 if g.endswith("tilted") or g == "abs PS" else 1, 0.98, 1 if g.endswith("tilted") else 0.9]
    if g.startswith(("synch", "ssc")):
        dims.update(ssa=["ssa" in g, "ssa" not in g], rule=["loglog" if "loglog" in g else "trapz", "trapz" if "loglog" in g else "loglog"])
    if g == "p synch":
        dims["rule"] = ["trapz", "loglog"]

    def world(cfg):
        w = {n: v for n, v in cfg.items() if n in cat.BASE or n.startswith("n_e.")}
        tp = {}
        for n, v in cfg.items():
            if n.startswith("t."):
                _, kd, p = n.split(".")
                tp.setdefault(kd, {})[p] = v
        return World(w, tpar=tp, r=cfg.get("r", cat.R_POS))

    def settings(o, cfg):
        for n in ("mu", "phi", "l"):
            if n in cfg:
                getattr(o, "set_" + n)(cfg[n])
        if "rule" in cfg:
            o.integrator = RULE[cfg["rule"]]
        if "ssa" in cfg:
            o.ssa = cfg["ssa"]
        if "zs" in cfg:
            o.z = cfg["zs"]
        if "mus" in cfg:
            o.mu_s = cfg["mus"]

    names = GROUPS.get(g) or OWN[g]

    def make(cfg):
        L = Live(world(cfg))
        for n in names:
            L.query(n)  # the objects are built, and used, now
        return L

    def set_(L, n, v, cfg):
        o = L.get(g) if g in MAKERS else (L.get("constraints") if g == "constraints" else None)
        b = L.w.blob
        if n == "n_e":
            b.n_e = world(cfg).blob.n_e
        elif n.startswith("n_e."):
            if cfg["n_e"] == "bpl":
                setattr(b.n_e, n[4:], v * u.Unit("cm-3") if n == "n_e.k" else v)
        elif n == "r":
            L.w.r = v * u.cm
            if hasattr(o, "r"):
                o.r = v * u.cm
        elif n.startswith("t."):
            _, kd, p = n.split(".")
            if p in SIMPLE.get(kd, {}):
                setattr(L.w.t[kd], SIMPLE[kd][p], v * u.Unit(CUNIT[p]) if p in CUNIT else v)
            else:
                L.w.t[kd] = world(cfg).t[kd]
                if hasattr(o, "target"):
                    o.target = L.w.t[kd]
        elif n in ("mu", "phi", "l", "rule", "ssa", "zs", "mus"):
            settings(o, {n: v})
        else:
            scene.set_blob(b, n, v)

    def observe(L, cfg):
        F = Live(world(cfg))
        if g in MAKERS:
            settings(F.get(g), {**{kk: v for kk, v in cfg.items()}})
        for q in names:
            if q in ("synch: loss", "synch: integrals", "ssc: loss", "ssc: loss thomson"):
                # built with default settings, each on its own
                F.get(q)
            same(c, q, L.query(q), F.query(q))

    first = None if part is None else list(dims)[part::3]
    # DT radius defaults are explicit here, as a change of the derived one requires a new target
    c.walk("live " + g, dims, k, make, set_, observe, first)


def _switch(c):
    """targets of the same process replaced by ones of any other kind, in any sequence"""
    from agnpy.compton import ExternalCompton
    from agnpy.absorption import Absorption

    nu_c, nu_a = np.array([4.4e19, 7e22]) * u.Hz, np.array([4.4e26, 7e27]) * u.Hz
    kinds = list(TARGETS)

    def make():
        w = World()
        e = ExternalCompton(w.blob, w.t["Disk"], w.r)
        e.set_phi(6)
        return (w, e), None

    def step(sut, model, op):
        w, e = sut
        e.target = w.t[op]
        f = ExternalCompton(w.blob, w.t[op], w.r)
        f.set_phi(6)
        same(c, f"external Compton on {op}, after other targets", cat.cgs(e.sed_flux(nu_c)), cat.cgs(f.sed_flux(nu_c)))

    c.sequences("target switched, Compton", make, kinds, step, 3)

    def make2():
        w = World()
        return (w, cat.small(Absorption(w.t["BLR"], w.r), l=9)), None

    def step2(sut, model, op):
        w, a = sut
        a.target = w.t[op]
        f = cat.small(Absorption(w.t[op], w.r), l=9)
        same(c, f"opacity of {op}, after other targets", cat.cgs(a.tau(nu_a)), cat.cgs(f.tau(nu_a)))

    c.sequences("target switched, opacity", make2, ["BLR", "DT", "Disk", "PS"], step2, 3)

    # the region itself replaced
    def make3():
        w = World()
        L = Live(w)
        for n in PROCESSES:
            L.get(n)
        return (w, L), None

    ws = {"A": dict(), "B": dict(R_b=9e15, n_e="lp", z=0.1), "C": dict(B=2.2, n_p="p_bpl", Gamma=20.0)}

    def step3(sut, model, op):
        w, L = sut
        new = World(ws[op])
        for n in PROCESSES:
            L.get(n).blob = new.blob
        F = Live(World(ws[op]))
        L.w = w
        for n in PROCESSES:
            q = n + ": sed_flux"
            same(c, q + " with another region", L.query(q), F.query(q))

    c.sequences("region switched", make3, list(ws), step3, 2)


c07.bounds = (
    "for each of the 11 processes, 7 absorbers, the constraints and the energy densities: all states within 2 (thorough 3) "
    "deviations over every attribute of the region, parameter of its distribution, of the target, and setting of the "
    "process, reached by mutating the live object, against one freshly built; all sequences up to 3 of target "
    "replacements, up to 2 of region replacements"
)
c07.assumptions = [
    "quantities that a target derives at construction from its parameters (dimensionless energies, gravitational radius...) are those of "
    "construction: such a parameter is changed by replacing the target"
]


# ------------------------------------------------------------------------------- C11
def c11(ctx):
    depth = 3 if ctx.quick else 4

    def job(q):
        def run(c):
            L = Live(World())
            m = SPECTRAL[q][0]
            A = MAKERS[m][1]
            # alone, as array of one element
            alone = {i: L.query(q, np.array([A[i]]) * u.Hz) for i in range(len(A))}
            scal = {i: float(np.ravel(alone[i][0][0])[0]) for i in alone}
            unit = alone[0][0][1]

            def check(lab, nu, idx):
                got = L.query(q, nu)
                ctx2.true(len(got) == 1, "one value")
                ctx2.true(u.Unit(got[0][1] or "") == u.Unit(unit or ""), f"{lab}: unit {got[0][1]} instead of {unit}")
                want = np.array([scal[i] for i in np.ravel(idx)]).reshape(np.shape(idx))
                ctx2.close(f"{q}, {lab}", got[0][0], want, 1e-9)

            ctx2 = c
            seqs = [s for n in range(1, depth + 1) for s in itertools.product(range(len(A)), repeat=n)]
            c.product(
                "sequences of frequencies",
                dict(q=[q], s=seqs),
                lambda cfg: check("sequence", np.array([A[i] for i in cfg["s"]]) * u.Hz, np.array(cfg["s"])),
            )
            SH = {
                "scalar": np.array(2), "1x1": np.array([[1]]), "column": np.array([[0], [3], [1]]), "row": np.array([[2, 2, 0, 1]]),
                "2x2": np.array([[3, 0], [1, 2]]), "2x1x3": np.array([[[0, 3, 1]], [[2, 1, 3]]]), "1x3x2": np.array([[[0, 3], [1, 2], [1, 0]]]),
                "3x1x1": np.array([[[2]], [[0]], [[1]]]), "5x2": np.arange(10).reshape(5, 2) % 4, "6x3": np.arange(18).reshape(6, 3) % 4,
            }  # fmt: skip
            un = ["Hz", "GHz", "1/day", "mHz"] if not m.startswith("ebl") else ["Hz", "GHz"]

            def shaped(cfg):
                idx = SH[cfg["shape"]]
                nu = np.array(A)[idx] * u.Hz
                if cfg["scalar_type"] and idx.ndim == 0:
                    nu = float(nu.value) * u.Hz
                if cfg["unit"] != "Hz":
                    nu = nu.to(cfg["unit"])
                if cfg["order"] == "F" and idx.ndim > 1:
                    nu = u.Quantity(np.asfortranarray(nu.value), nu.unit)
                check(f"shape {idx.shape} in {cfg['unit']}", nu, idx)

            c.product("shapes and units", dict(q=[q], shape=list(SH), unit=un, order=["C", "F"], scalar_type=[True, False]), shaped, lambda f: f["scalar_type"] or f["shape"] == "scalar")
            # many frequencies: several hundreds of points, around the sizes of the integration grids

            def many(cfg):
                n = cfg["n"]
                idx = (np.arange(n) * 7 + 1) % len(A)
                check(f"{n} frequencies", np.array(A)[idx] * u.Hz, idx)

            c.product("many frequencies", dict(q=[q], n=[6, 7, 9, 17, 21, 50, 100, 200, 333, 512, 1000, 1025, 2049] + ([] if c.quick else [4096, 5003])), many)

        return run

    ctx.parallel([job(q) for q in SPECTRAL])


c11.bounds = (
    "every spectral query of the catalogue (46: SEDs, luminosities, differential fluxes, opacities, attenuations, thermal) x all "
    "sequences, with repetition, of up to 3 (thorough 4) of 4 frequencies; x 10 shapes up to 3 dimensions x 4 units x memory order; "
    "x numbers of points equal to the sizes of the integration grids"
)
c11.assumptions = ["each compared with the value of the frequency asked alone, whose correctness is for the other properties"]


# ------------------------------------------------------------------------------- C12
def c12(ctx):
    k = 2 if ctx.quick else 3
    base = Live(World())
    want = {q: base.query(q) for q in ALL if q != "str"}

    def job(q):
        def run(c):
            phys = q not in SPECTRAL and "loss" not in q and not q.startswith("u ")
            dims = {n: list(v) for n, v in UNITS.items()}
            if q not in SPECTRAL and q not in ("synch: integrals", "synch: peak"):
                del dims["nu"]

            def observe(w, cfg):
                same(c, f"{q}", Live(w).query(q), want[q], 1e-8, physical=phys)

            c.walk(f"units of {q}", dims, k, lambda cfg: World(units=cfg), lambda w, n, v, cfg: World(units=cfg), observe)

            # the same numbers in another unit: other values, even after the first were computed
            def numbers(cfg):
                d = cfg["dim"]
                for f, unit in ((1.0, f"2 {UNITS[d][0]}"), (0.5, f"2 {UNITS[d][0]}"), (1.0, UNITS[d][0])):
                    other = 2 * f if unit.startswith("2 ") else f
                    if unit.startswith("2 "):
                        unit = u.Unit(2 * u.Unit(UNITS[d][0]))
                    g = Live(World(num={d: (f, unit)})).query(q)
                    w = Live(World(num={d: (other, UNITS[d][0])})).query(q)
                    same(c, f"{q}, {f} times the base number in {unit}", g, w, 1e-8, physical=phys)
                    if other == 1:
                        same(c, f"{q}, {f} times the base number in {unit}", g, want[q], 1e-8, physical=phys)

            c.product(f"numbers of {q}", dict(dim=list(dims)), numbers)

            # the same, set afterwards on live objects
            def mk(cfg):
                return Live(World())

            def st(L, n, v, cfg):
                W = World(units=cfg)
                b = L.w.blob
                if n in ("R_b", "B"):
                    setattr(b, n, getattr(W.blob, n))
                    if n == "R_b":
                        b.R_b = (cat.BASE["R_b"] * u.cm).to(v)
                elif n == "k_e":
                    b.n_e.k = W.blob.n_e.k
                elif n == "k_p":
                    b.n_p.k = W.blob.n_p.k
                elif n == "R_line":
                    L.w.t["BLR"].R_line = W.t["BLR"].R_line
                elif n == "R_dt":
                    L.w.t["DT"].R_dt = W.t["DT"].R_dt
                elif n == "L":
                    L.w.t["PS"].L_0 = W.t["PS"].L_0
                    for kk in ("BLR", "DT", "Disk"):
                        L.w.t[kk].L_disk = W.t[kk].L_disk
                elif n == "r":
                    L.w.r = W.r
                    m = L.get(SPECTRAL[q][0]) if q in SPECTRAL else None
                    if hasattr(m, "r"):
                        m.r = W.r

            d2 = {n: v for n, v in dims.items() if n not in ("M", "T", "R_disk", "nu")}
            if q not in ("str",):
                c.walk(f"units of {q}, set afterwards", d2, 1 if ctx.quick else 2, mk, st, lambda L, cfg: same(c, q, L.query(q), want[q], 1e-8, physical=phys))

        return run

    jobs = [job(q) for q in want]
    jobs += [_norms, _arrays_units, _evol_units]
    ctx.parallel(jobs)


def _norms(c):
    """normalisation kinds x units of the quantities they take"""
    from astropy.constants import m_e, m_p

    V = 3.1e47 * u.Unit("cm3")
    KIND = {
        "from_total_density": [(312.0 * u.Unit("cm-3")).to(x) for x in ("cm-3", "m-3", "pc-3")],
        "from_total_energy_density": [(2.2e-3 * u.Unit("erg cm-3")).to(x) for x in ("erg cm-3", "J m-3", "eV cm-3")],
        "from_total_energy": [(7.3e45 * u.erg).to(x) for x in ("erg", "J", "GeV")],
        "from_density_at_gamma_1": [(3.3 * u.Unit("cm-3")).to(x) for x in ("cm-3", "m-3")],
    }
    PAR = {
        "PowerLaw": dict(p=2.1, gamma_min=1, gamma_max=1e5), "BrokenPowerLaw": dict(p1=1.9, p2=3.0, gamma_b=1e3, gamma_min=1, gamma_max=1e5),
        "LogParabola": dict(p=2.1, q=0.1, gamma_0=1e3, gamma_min=1, gamma_max=1e5), "ExpCutoffPowerLaw": dict(p=2.1, gamma_c=1e3, gamma_min=1, gamma_max=1e5),
        "ExpCutoffBrokenPowerLaw": dict(p1=1.9, p2=3.0, gamma_c=1e4, gamma_b=1e3, gamma_min=1, gamma_max=1e5),
    }  # fmt: skip
    g = np.array([1.0, 33.0, 4e3, 9e4])

    def fn(cfg):
        cls = build.CLS[cfg["family"]]
        f = getattr(cls, cfg["kind"])
        vals = KIND[cfg["kind"]]
        res = []
        for v in vals:
            for vu in ("cm3", "m3", "pc3") if cfg["kind"] == "from_total_energy" else (None,):
                a = (v,) if vu is None else (v, V.to(vu))
                res.append(f(*a, mass=build.MASS[cfg["m"]], **PAR[cfg["family"]])(g).to_value("cm-3"))
        for r in res[1:]:
            c.close(f"{cfg['kind']} in other units", r, res[0], 1e-9)

    c.product("units of the normalisations", dict(family=list(PAR), kind=list(KIND), m=["e", "p"]), fn)


def _arrays_units(c):
    """arguments of the methods: distances of the energy densities, angles, interval limits, thermal radii"""
    w = World()
    rr = np.array([[3e16, 2.7e17, 9e18]])

    def dens(cfg):
        t = w.t[cfg["t"]]
        b = (w.blob,) if cfg["blob"] else ()
        want = t.u(rr * u.cm, *b).to_value("erg cm-3")
        for x in ("pc", "m", "AU", "lyr"):
            got = t.u((rr * u.cm).to(x), *b)
            c.true(got.unit == u.Unit("erg cm-3"), f"energy density in {got.unit}")
            c.close("energy density", got.value, want, 1e-8)

    c.product("units of the distance", dict(t=["PS", "Disk", "BLR", "DT"], blob=[False, True]), dens)

    def disk(cfg):
        d = w.t["Disk"]
        R = np.array([9.0, 44.0]) * d.R_g
        c.close("temperature", d.T(R.to(cfg["x"])).to_value("K"), d.T(R).to_value("K"), 1e-9)

    c.product("units of the disk radius", dict(x=["pc", "AU", "m"]), disk)

    def sed(cfg):
        nu = np.array([4.4e13, 3e14]) * u.Hz
        dt, dk = w.t["DT"], w.t["Disk"]
        dL = w.blob.d_L
        a = dt.evaluate_bb_sed(nu, 0.31, dt.T_dt, dt.R_dt, dL).to_value("erg cm-2 s-1")
        b = dt.evaluate_bb_sed(nu, 0.31, dt.T_dt.to("mK"), dt.R_dt.to(cfg["x"]), dL.to("Mpc")).to_value("erg cm-2 s-1")
        c.close("torus", b, a, 1e-9)
        a = dk.evaluate_multi_T_bb_sed(nu, 0.31, dk.M_BH, dk.m_dot, dk.R_in, dk.R_out, dL)
        b = dk.evaluate_multi_T_bb_sed(nu, 0.31, dk.M_BH.to("Msun"), dk.m_dot.to("Msun/yr"), dk.R_in.to(cfg["x"]), dk.R_out.to(cfg["x"]), dL.to("Mpc"))
        c.close("disk", b.to_value("erg cm-2 s-1"), a.to_value("erg cm-2 s-1"), 1e-9)

    c.product("units of static thermal SEDs", dict(x=["pc", "AU", "m"]), sed)

    def ang(cfg):
        b = World().blob
        b.set_delta_D(9.7, (3.1 * u.deg).to(cfg["x"]))
        want = 1 / (9.7 * (1 - np.sqrt(1 - 1 / 9.7**2) * np.cos(np.radians(3.1))))
        c.close("Doppler factor", b.delta_D, want, 1e-9, shape=False)

    c.product("units of the viewing angle", dict(x=["deg", "rad", "arcsec", "arcmin"]), ang)

    def con(cfg):
        from agnpy.constraints import SpectralConstraints

        s = SpectralConstraints(w.blob)
        for f in ("gamma_max_EC_DT", "gamma_break_EC_DT"):
            c.close(f, getattr(s, f)(w.t["DT"], w.r.to(cfg["x"])), getattr(s, f)(w.t["DT"], w.r), 1e-9)

    c.product("units of the distance of constraints", dict(x=["pc", "m", "lyr"]), con)

    def ssa(cfg):
        # static evaluators, all arguments in other units
        from agnpy.synchrotron import Synchrotron
        from agnpy.compton import SynchrotronSelfCompton

        b = w.blob
        nu = np.array([1e11, 1e14, 1e18]) * u.Hz
        for f in (Synchrotron.evaluate_tau_ssa, Synchrotron.evaluate_sed_flux, Synchrotron.evaluate_sed_flux_delta_approx, SynchrotronSelfCompton.evaluate_sed_flux):
            kw = {} if f is Synchrotron.evaluate_sed_flux_delta_approx else dict(gamma=b.gamma_e)
            a = f(nu, b.z, b.d_L, b.delta_D, b.B, b.R_b, b.n_e, *b.n_e.parameters, **kw)
            g = f(nu.to("GHz"), b.z, b.d_L.to("Mpc"), b.delta_D, b.B.to("mT"), b.R_b.to(cfg["x"]), b.n_e, b.n_e.k.to("m-3"), *b.n_e.parameters[1:], **kw)
            same(c, f.__name__, cat.cgs(g), cat.cgs(a), 1e-9)

    c.product("units of static evaluators", dict(x=["pc", "AU", "m"]), ssa)


def _evol_units(c):
    """times, steps, rates and densities of the time evolution"""
    from agnpy.time_evolution.time_evolution import TimeEvolution

    TOT, STEP = 7000.0, 1700.0

    def run(cfg):
        b = World(dict(n_e="pl")).blob
        if cfg["k"] != "cm-3":
            b.n_e.k = b.n_e.k.to(cfg["k"])
        loss = lambda a: (-1e-12 * a.gamma**1.5 * u.Unit("erg s-1")).to(cfg["en"])
        inj = lambda a: (3e-6 * a.gamma**-1.1 * u.Unit("cm-3 s-1")).to(cfg["abs"])
        rel = lambda a: (-2e-6 * np.ones_like(a.gamma) * u.Unit("s-1")).to(cfg["rel"])
        step = (STEP * u.s).to(cfg["st"]) if cfg["auto"] is None else cfg["auto"]
        r = TimeEvolution(
            b, (TOT * u.s).to(cfg["tt"]), loss, rel_injection_functions=rel, abs_injection_functions=inj, step_duration=step,
            initial_gamma_array=np.logspace(1.5, 5, 12),
        ).evaluate()  # fmt: skip
        return r.gamma, r.density.to_value("cm-3"), b.n_e(r.gamma).to_value("cm-3")

    base = dict(k="cm-3", tt="s", st="s", en="erg s-1", abs="cm-3 s-1", rel="s-1", auto=None)
    ref_ = {a: run(dict(base, auto=a)) for a in (None, "auto")}
    dims = dict(
        auto=[None, "auto"], k=["cm-3", "m-3"], tt=["s", "h", "d"], st=["s", "min", "h"], en=["erg s-1", "eV s-1", "erg h-1"],
        abs=["cm-3 s-1", "m-3 h-1"], rel=["s-1", "h-1"],
    )  # fmt: skip

    def observe(sut, cfg):
        for a, w, n in zip(run(cfg), ref_[cfg["auto"]], ("Lorentz factors", "densities", "distribution")):
            c.close(f"evolved {n}", a, w, 1e-7)

    c.walk("units of the time evolution", dims, 2, lambda cfg: None, lambda s, n, v, cfg: None, observe)


c12.bounds = (
    "every query of the catalogue x all combinations of at most 2 (thorough 3) inputs (of 12: radii, field, densities, luminosities, "
    "masses, temperatures, distances, frequencies) expressed in each alternative unit, given at construction or (1, thorough 2) set "
    "afterwards; normalisations, static evaluators, method arguments; time evolution with 2 of 7 inputs in other units"
)
c12.assumptions = ["quantities other than SEDs, opacities, energy densities and rates are compared in physical value, in any unit"]


# ------------------------------------------------------------------------------- C13
SLOW = ("ec Disk", "ec BLR")


def c13(ctx):
    EV = (u.eV / ref.H / u.Unit("erg s")).to("Hz").value
    LIM = {
        "Hz": lambda x: x * u.Hz,
        "MHz": lambda x: (x * u.Hz).to("MHz"),
        "eV": lambda x: (x / EV) * u.eV,
        "TeV": lambda x: (x / EV * 1e-12) * u.TeV,
        "J": lambda x: (ref.H * x * 1e-7) * u.J,
        "Angstrom": lambda x: (ref.C / x * 1e8) * u.AA,
        "m": lambda x: (ref.C / x / 100) * u.m,
    }
    reg = dict(scene.REGION, n_e=["bpl", "pl", "lp"], ne_size=[21, 33], np_size=[17, 25], n_p=["p_pl", "p_bpl"], R_b=[2.3e16, 7e14], Gamma=[9.7, 25.3])

    def job(name, part, first=None):
        def run(c):
            make, A = PROCESSES[name]

            def observe_sed(o, w, nus):
                nu = np.array(nus) * u.Hz
                sed = o.sed_flux(nu).to_value("erg cm-2 s-1")
                dL = ref.d_lum(w.blob.z)
                L = o.sed_luminosity(nu)
                c.true(L.unit == u.Unit("erg s-1"), f"luminosity in {L.unit}")
                c.close("SED luminosity", L.value, sed * 4 * np.pi * dL**2, 1e-9)
                E = nus / EV
                D = o.diff_energy_flux(nu)
                c.true(D.unit == u.Unit("eV-1 cm-2 s-1"), f"differential flux in {D.unit}")
                # photons per eV: SED converted in eV
                c.close("differential energy flux", D.value, sed / 1.602176634e-12 / E**2, 1e-8)
                if hasattr(o, "sed_peak_flux"):
                    c.close("peak flux", o.sed_peak_flux(nu), sed.max(), 1e-12, unit="erg cm-2 s-1")
                    c.close("peak frequency", o.sed_peak_nu(nu), nus[np.flatnonzero(sed == sed.max())[0]], 1e-12, unit="Hz")

            dims = {n: v for n, v in reg.items() if n != "n_p"}
            dims["order"] = ["up", "down", "shuffled", "ties", "two", "one"]

            def nus(cfg):
                a = np.array(A)
                return {"up": a, "down": a[::-1], "shuffled": a[[2, 0, 3, 1]], "ties": a[[1, 2, 0, 2, 1, 3, 3]], "two": a[:2], "one": a[1:2]}[cfg["order"]]

            def mk(cfg):
                w = World({n: v for n, v in cfg.items() if n in cat.BASE})
                return w, make(w)

            def st(s, n, v, cfg):
                if n != "order":
                    scene.set_blob(s[0].blob, n, v)

            if part == "SED" or c.replay is not None:
                c.walk("SED of " + name, dims, 2 if ctx.quick else 3, mk, st, lambda s, cfg: observe_sed(s[1], s[0], nus(cfg)), only_first=first, scales=dict(z=scene.SCALES["z"], delta_D=scene.SCALES["delta_D"]) if name not in SLOW or not c.quick else None)

            def integral(cfg):
                w = World(dict(n_e=cfg["n_e"], z=cfg["z"]))
                o = make(w)
                a, b = A[cfg["ends"][0]] * 0.7, A[cfg["ends"][1]]
                n = cfg["n"]
                kw = {} if n is None else dict(nu_points=n)
                x = np.logspace(np.log10(a), np.log10(b), n or 50)
                sed = o.sed_flux(x * u.Hz).to_value("erg cm-2 s-1")
                wantE = ref.trapz(sed / x, x)
                wantN = ref.trapz(sed / (ref.H * x) ** 2, ref.H * x)
                for la, lb in cfg["units"]:
                    args = (LIM[la](a), LIM[lb](b))
                    e = o.energy_flux_integral(*args, **kw)
                    f = o.flux_integral(*args, **kw)
                    c.true(e.unit == u.Unit("erg cm-2 s-1") and f.unit == u.Unit("cm-2 s-1"), f"integrals in {e.unit}, {f.unit}")
                    c.close("energy flux integral", e.value, wantE, 1e-7)
                    c.close("flux integral", f.value, wantN, 1e-7)
                    if n is not None:
                        c.close("flux integral, positional", o.flux_integral(*args, n).value, wantN, 1e-7)

            # ranges of any width, from some rounding errors to twelve decades
            def widths(cfg):
                o = make(World({}))
                a = A[1] * cfg["at"]
                b = a * (1 + cfg["width"])
                x = np.logspace(np.log10(a), np.log10(b), cfg["n"])
                sed = o.sed_flux(x * u.Hz).to_value("erg cm-2 s-1")
                tol = 1e-7 + 3e-14 / cfg["width"]
                c.close("energy flux integral", o.energy_flux_integral(a * u.Hz, b * u.Hz, cfg["n"]).value, ref.trapz(sed / x, x), tol)
                c.close("flux integral", o.flux_integral(a * u.Hz, b * u.Hz, cfg["n"]).value, ref.trapz(sed / (ref.H * x) ** 2, ref.H * x), tol)

            if part == "widths" or c.replay is not None:
                c.product("widths, " + name, dict(width=[10.0**k for k in np.arange(-8, 12.1, 2.0 if c.quick else 0.5)], at=[1.0, 1e-3], n=[5]), widths)
                c.product("numbers of points, " + name, dict(width=[30.0], at=[0.1], n=[2, 4, 49, 50, 51, 99, 100, 101, 199, 200] + ([] if c.quick else [299, 300, 500, 512, 999, 1000])), widths)

            # ranges of the same numbers in different units, one after the other
            AMOUNT = {"Hz": u.Hz, "GHz": u.GHz, "eV": u.eV, "keV": u.keV, "MeV": u.MeV, "erg": u.erg, "um": u.um, "nm": u.nm}

            def numbers(cfg):
                o = make(World({}))
                for un in cfg["units"]:
                    lo, hi = [x * AMOUNT[un] for x in cfg["range"]]
                    x = np.logspace(*[np.log10(v.to_value("Hz", u.spectral())) for v in (lo, hi)], 9)
                    sed = o.sed_flux(x * u.Hz).to_value("erg cm-2 s-1")
                    c.close(f"energy flux in {cfg['range']} {un}", o.energy_flux_integral(lo, hi, 9).value, ref.trapz(sed / x, x), 1e-7)
                    c.close(f"flux in {cfg['range']} {un}", o.flux_integral(lo, hi, 9).value, ref.trapz(sed / (ref.H * x) ** 2, ref.H * x), 1e-7)
                    if not lo.unit.is_equivalent("Hz"):
                        continue  # the SEDs are functions of frequencies
                    c.close(f"SED at {cfg['range'][0]} {un}", o.sed_flux(lo).to_value("erg cm-2 s-1"), sed[0], 1e-9)
                    c.close(f"SED at two in {un}", o.sed_flux(u.Quantity([lo, hi])).to_value("erg cm-2 s-1"), sed[[0, -1]], 1e-9)

            pairs = list(itertools.permutations(AMOUNT, 2))
            if part == "numbers" or c.replay is not None:
                c.product("same numbers, " + name, dict(units=pairs[::1 if not ctx.quick else 3], range=[(1.3, 47.0)]), numbers)

            un = [((x, x), ("Hz", x)) for x in LIM]
            if ctx.quick:
                un = [tuple(p for q in un for p in q)]
            if part == "integrals" or c.replay is not None:
                c.product(
                  "integrals of " + name,
                  dict(ends=[(0, 1), (1, 2), (0, 3), (2, 3)][:: 2 if c.quick else 1], n=[None, 2, 3, 17][:: 1 if not c.quick else 3], n_e=["bpl", "lp"] if first is None else [first], z=[0.31, 1.7], units=un),
                  integral,
                )

        return run

    parts = ["SED", "integrals", "numbers", "widths"]
    if ctx.replay is not None:
        parts = parts[:1]
    split = [{n} for n in reg if n != "n_p"] + [{"order"}]
    # the longest ones first
    jobs = [job(n, "SED", f) for n in SLOW for f in split] if ctx.replay is None else []
    if ctx.replay is None:
        parts.remove("integrals")
        jobs = [job(n, "integrals", d) for n in ("ssc ssa", "ssc", *[n for n in PROCESSES if n[:3] != "ssc"]) for d in ("bpl", "lp")] + jobs
    jobs += [job(n, p) for p in parts[::-1] for n in sorted(PROCESSES, key=lambda n: n not in SLOW) if p != "SED" or n not in SLOW or ctx.replay is not None]
    ctx.parallel(jobs)


c13.bounds = (
    "11 processes x region states within 2 (thorough 3) deviations x orders of the frequencies (ties included); integrals over 4 "
    "intervals x 4 numbers of points x 2 distributions x 2 redshifts x limits in 7 units, mixed; widths from 1e-8 to 1e12, up to 200 (1000) points"
)
c13.assumptions = ["peaks are checked for the processes that provide them"]
