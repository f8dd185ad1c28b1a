"""C39: copies (deep, pickled) of everything are equivalent to, and independent of, the original."""
import copy
import pickle
import numpy as np
import astropy.units as u
from mc import scene, build, evol
from mc.catalog import World, Live, SPECTRAL, ALL, cgs
from checks import fit
from checks.interact import _mutations, same
from checks.schedules import base_values, functions, Fit, G_A

HOWS = {
    "deep": copy.deepcopy,
    "pickle": lambda x: pickle.loads(pickle.dumps(x)),
    "pickle 2": lambda x: pickle.loads(pickle.dumps(x, 2)),
    "deep of pickle": lambda x: copy.deepcopy(pickle.loads(pickle.dumps(x))),
    "pickle of deep": lambda x: pickle.loads(pickle.dumps(copy.deepcopy(x))),
}
FEW = [
    "blob.R_b", "blob.z", "blob.delta_D", "blob.B", "blob.n_e.k", "blob.n_e.gamma_max", "n_e", "blob.n_p.k", "t.PS.L_0", "t.BLR.R_line", "t.DT.xi_dt",
    "t.Disk.L_disk", "in place blob.B", "in place blob.n_e.k", "in place t.DT.R_dt", "in place r", "angular grids", "settings",
]  # fmt: skip


def clone(L, how):
    """a copy of a scene with everything that computes on it, and of nothing else"""
    d = HOWS[how](dict(blob=L.w.blob, t=L.w.t, r=L.w.r, obj=L.obj))
    M = copy.copy(L)
    M.w = copy.copy(L.w)
    M.w.blob, M.w.t, M.w.r, M.obj = d["blob"], d["t"], d["r"], d["obj"]
    return M


def needed(op):
    return {"angular grids": ("ec BLR", "ec DT", "abs BLR", "abs DT tilted"), "settings": ("synch ssa", "ssc ssa", "ec PS")}.get(op, ())


def start(q, ops):
    L = Live(World())
    L.get(SPECTRAL[q][0] if q in SPECTRAL else q)
    for op in ops:
        for n in needed(op):
            L.get(n)
    return L


def scenes(q):
    def run(c):
        M = _mutations()
        ops = [o for o in M if not c.quick or o in FEW]
        want = {}

        def wanted(*done):
            if done not in want:
                L = start(q, done)
                for op in done:
                    M[op](L)
                want[done] = L.query(q)
            return want[done]

        def possible(op):
            return op != "n_p" or q not in ("blob", "N_e", "p synch: sed_flux", "p synch: sed_luminosity", "p synch: diff_energy_flux")

        def case(cfg):
            op = cfg["change"]
            L = start(q, [op])
            if cfg["asked"]:
                L.query(q)
            if cfg["changed"] == "before":
                M[op](L)
                N = clone(L, cfg["how"])
                same(c, "copy of the object changed", N.query(q), wanted(op), 1e-13)
                same(c, "object copied", L.query(q), wanted(op), 1e-13)
                return
            N = clone(L, cfg["how"])
            a, b = (L, N) if cfg["changed"] == "original" else (N, L)
            M[op](a)
            same(c, "the one changed", a.query(q), wanted(op), 1e-13)
            same(c, "the other one", b.query(q), wanted(), 1e-13)

        c.product(
            f"{q}: copies", dict(change=[o for o in ops if possible(o)], changed=["original", "copy", "before"], how=["deep", "pickle"] if c.quick else list(HOWS), asked=[True] if c.quick else [True, False]), case
        )

    return run


def regions(c):
    """shallow copies of a region: attributes of the one and of the other"""
    M = _mutations()
    ops = ["blob." + a for a in ("R_b", "z", "delta_D", "Gamma", "B", "xi", "gamma_e_size", "gamma_p_size")] + ["n_e"]
    qs = ["blob", "N_e", "synch: sed_flux", "p synch: sed_flux", "ssc: sed_flux", "abs blob: tau", "constraints", "u DT"]

    def case(cfg):
        L = Live(World())
        if cfg["asked"]:
            L.query(cfg["q"])
        N = Live(copy.copy(L.w))
        N.w.blob = copy.copy(L.w.blob)
        a, b = (L, N) if cfg["changed"] == "original" else (N, L)
        for op in cfg["ops"]:
            M[op](a)
        F = Live(World())
        for op in cfg["ops"]:
            M[op](F)
        same(c, "the one changed", a.query(cfg["q"]), F.query(cfg["q"]), 1e-13)
        same(c, "the other one", b.query(cfg["q"]), Live(World()).query(cfg["q"]), 1e-13)

    k = [[o] for o in ops] if c.quick else [[o] for o in ops] + [[a, b] for a in ops for b in ops if a != b]
    c.product("shallow copies of a region", dict(q=qs, ops=k, changed=["original", "copy"], asked=[True, False]), case)


def distributions(c):
    F = {f.name: f for f in functions() if f._make(0) is not None}

    def case(cfg):
        f = F[cfg["family"]]
        o = f.make(cfg["variant"])
        want = f.ask(f.make(cfg["variant"]), "A")
        if cfg["asked"]:
            f.ask(o, "B")
        n = HOWS[cfg["how"]](o)
        same(c, "copy", f.ask(n, "A"), want, 1e-13)
        c.equal("class", type(n), type(o))
        a, b = (o, n) if cfg["changed"] == "original" else (n, o)
        name = "norm" if cfg["family"].startswith("Interp") else "k"
        if cfg["place"]:
            q = getattr(a, name)
            q *= 3
            setattr(a, name, q)
        else:
            setattr(a, name, getattr(a, name) * 3)
        got = f.ask(a, "A")
        c.close("changed", got[0][0], 3 * want[0][0], 1e-12)
        same(c, "the other one", f.ask(b, "A"), want, 1e-13)
        # as the distribution of a region
        from agnpy.emission_regions import Blob

        for x, k in ((a, 3.0), (b, 1.0)):
            N = Blob(n_e=x).N_e(np.array(G_A))
            c.close("in a region", N, k * want[0][0] * (4 / 3 * np.pi * 1e48), 1e-9)

    c.product("copies of distributions", dict(family=list(F), variant=[0, 1], how=list(HOWS), changed=["original", "copy"], place=[False, True], asked=[False, True]), case)


def evolved(c):
    """copies before and after an evolution"""
    G = np.logspace(0.5, 7, 60)

    def case(cfg):
        r = evol.full(dict(size=5, total=14.0, method=cfg["method"], bounds=cfg["bounds"]))
        one = evol.Run(r).go()
        assert one.error is None, one.error
        blob = scene.blob(evol.fresh_region(r))
        before = blob.n_e(G)
        twin = HOWS[cfg["how"]](blob)
        two = evol.Run(r, blob=twin if cfg["which"] == "copy" else blob).go()
        assert two.error is None, two.error
        other = blob if cfg["which"] == "copy" else twin
        evol.same_state(c, "evolution", one.plain(one.result), two.plain(two.result), 1e-12)
        c.close("the region that did not evolve", other.n_e(G), before, 1e-13, unit="cm-3")
        # copy of the region that evolved, and of the result
        again = HOWS[cfg["how"]](two.blob)
        c.close("copy of the region that evolved", again.n_e(G), one.blob.n_e(G), 1e-13, unit="cm-3")
        c.close("totals", again.n_e_tot, one.blob.n_e_tot, 1e-12, unit="cm-3")
        kept = HOWS[cfg["how"]](two.result)
        evol.same_state(c, "copy of the result", one.plain(one.result), two.plain(kept), 1e-13)
        res = one.plain(one.result)
        three, four = evol.Run(r, blob=again).go(), evol.Run(r, blob=one.blob).go()
        evol.same_state(c, "further evolution of the copy", four.plain(four.result), three.plain(three.result), 1e-12)
        evol.same_state(c, "result kept", res, one.plain(one.result), 1e-13)

    c.product("copies of regions that evolve", dict(method=["euler", "heun"], bounds=[None, (30.0, 3e5)], how=list(HOWS), which=["copy", "original"]), case)


def models(c):
    """the models of the fit wrappers"""
    X = {("gammapy", t): Fit("gammapy", None if t == "ssc" else ["dt"], False) for t in ("ssc", "ec")}
    X.update({("sherpa", t): Fit("sherpa", None if t == "ssc" else ["dt"], False) for t in ("ssc", "ec")})

    def case(cfg):
        x = X[cfg["backend"], cfg["kind"]]
        m = x.make()
        if cfg["asked"]:
            x.ask(m, "B")
        n = m.copy() if cfg["how"] == "copy" else HOWS[cfg["how"]](m)
        a, b = (m, n) if cfg["changed"] == "original" else (n, m)
        fit.put(a, cfg["backend"], cfg["par"], cfg["to"])
        f = x.make()
        want = x.ask(f, "A")
        fit.put(f, cfg["backend"], cfg["par"], cfg["to"])
        same(c, "the one changed", x.ask(a, "A"), x.ask(f, "A"), 1e-13)
        same(c, "the other one", x.ask(b, "A"), want, 1e-13)

    c.product(
        "copies of models",
        dict(backend=["gammapy", "sherpa"], kind=["ssc"] if c.quick else ["ssc", "ec"], how=["deep", "pickle", "copy"], changed=["original", "copy"], par=["delta_D"] if c.quick else ["delta_D", "log10_B", "log10_k", "p1", "t_var"], asked=[True, False], to=[3.3]),
        case, lambda cfg: cfg["how"] != "copy" or cfg["backend"] == "gammapy",
    )  # fmt: skip


def c39(ctx):
    ctx.parallel([models, evolved, distributions, regions] + [scenes(q) for q in ALL[::-1]])


c39.bounds = (
    "61 queries x 18 changes (thorough: 34) x original, copy or both changed x deep copy and pickle (thorough: 5 ways, two of them combined; asked before or not); shallow copies of a region: "
    "8 queries x 9 changes (thorough: pairs); 6 families of distributions x 2 parameters x 5 ways x original or copy changed, in place or not; regions copied before and after evolutions "
    "(2 schemes x 2 bounds x 5 ways); models of the fit wrappers x 3 ways"
)
