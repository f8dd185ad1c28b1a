"""C41 the amount of use: long arrays, many questions, many objects, many changes, many steps."""
import contextlib
import gc
import numpy as np
import astropy.units as u
from mc import build, evol
from mc.core import val
from mc.catalog import World, Live, SPECTRAL, MAKERS, ALL
from checks import history
from checks.evolution import lockstep
from checks.interact import same
from checks.schedules import OTHER_SCENE

ARRAYS = {k: v for k, v in history.JOBS.items()}


def cap(name, quick):
    """longest arrays, from the memory they need"""
    first = name.split(":")[0].split(",")[0]
    if first.startswith("ssc") or "model" in first:
        return 65 if quick else 513
    if first.startswith(("ec ", "abs ")):
        return 513 if quick else 4097
    if "loss" in name or first.startswith(("synch", "p synch")) or "SSC" in first:
        return 4097 if quick else 32769
    return 65537 if quick else 1048577


def sizes_up_to(n, quick):
    out = [3, 4, 5]
    k = 3
    while 2**k <= n:
        out += [2**k, 2**k + 1] if quick else [2**k - 1, 2**k, 2**k + 1]
        k += 1
    out += [10**j + d for j in range(1, 7) for d in ((0, 1) if quick else (-1, 0, 1))]
    return sorted({x for x in out if x <= n})


def spread(A, B, n):
    lo, hi = min(min(A), min(B)), max(max(A), max(B))
    return np.geomspace(lo, hi, n) if lo > 0 else np.linspace(lo, hi, n)


def arr(x, unit):
    return x if unit is None else x * u.Unit(unit)


def lengths(c, name, make, queries, A, B, unit="Hz", depth=2, rtol=1e-9, long=1537):
    """arrays of every length on the ladder: the values do not depend on the others in the array"""
    o = make()

    def case(cfg):
        n = cfg["length"]
        x = spread(A, B, n)
        pick = sorted({i % n for i in (0, 1, 2, n // 3, n // 2 - 1, n // 2, n // 2 + 1, 2 * n // 3, n - 3, n - 2, n - 1)} | {p + d for p in (127, 255, 511, 1023, 2047, 4095, 8191, 65535) for d in (0, 1) if p + d < n})
        y = queries[cfg["query"]](o, arr(x.copy(), unit))
        c.true(np.shape(val(y)) == (n,), f"shape {np.shape(val(y))} of the answer to {n} elements")
        for i in range(0, len(pick), 3):
            k = np.array(pick[i : i + 3])
            c.close(f"{name}, elements {list(k)} of {n}", np.array(val(y))[k], val(queries[cfg["query"]](make() if i == 0 else o, arr(x[k], unit))), rtol=rtol)

    c.product(name + ", long arrays", dict(query=list(range(len(queries))), length=sizes_up_to(cap(name, c.quick), c.quick)), case)


CELLS = {"ssc": 200, "ssc ssa": 200, "ec Disk": 7 * 6, "ec BLR": 42, "ec DT": 6, "abs Disk": 1500, "abs DT": 54, "abs DT tilted": 54, "ec CMB": 42, "abs PS": 9, "abs blob": 200}


def grids(c, q):
    """arrays of frequencies over fine grids of particles: the size of the work does not enter the values"""
    m, fn = SPECTRAL[q]
    A = np.array(MAKERS[m][1])

    def make(size, blocks):
        w = World({"ne_size": size, "np_size": size})
        o = Live(w).get(m)
        if blocks > 1:
            o.set_mu(7 * blocks)
        return w, o

    angular = m.startswith(("ec Disk", "ec BLR", "ec DT", "ec CMB", "abs Disk", "abs BLR", "abs DT"))
    fixed = m.startswith("abs")

    def case(cfg):
        cell = CELLS.get(m, 9 * 42 if fixed else 1) * (1 if fixed else cfg["grid"]) * cfg["blocks"]
        n = max(4, int(cfg["work"] / cell) + 1)
        w, o = make(cfg["grid"], cfg["blocks"])
        x = np.geomspace(A.min(), A.max(), n)
        y = np.array(val(fn(o, x * u.Hz, w)))
        for k in ((0, n // 3, n - 1), (n // 2, n - 2, 1)):
            k = np.array(k)
            c.close(f"{q}, {n} frequencies over {cfg['grid']} particles, elements {list(k)}", y[k], val(fn(o, x[k] * u.Hz, w)), rtol=1e-9)

    c.product(
        q + ", much work",
        dict(grid=[21] if fixed else [201, 2001] if c.quick else [64, 201, 1001, 4097], blocks=[1, 5] if angular else [1], work=[7e4, 3e5, 1.2e6, 5e6] if c.quick else [7e4, 1.5e5, 3e5, 6e5, 1.2e6, 2.5e6, 5e6, 1e7]),
        case,
    )


def shuffled(n):
    """every index once, in the order of the reversed bits"""
    b = max(1, int(np.ceil(np.log2(n))))
    return [i for i in (int(format(j, f"0{b}b")[::-1], 2) for j in range(2**b)) if i < n]


def questions(c, name, make, queries, A, B, unit="Hz", depth=2, rtol=1e-9, long=1537):
    """one object, asked many different questions"""

    def case(cfg):
        q, n = queries[cfg["query"]], cfg["questions"]
        x = spread(A, B, n)
        want = np.concatenate([np.array(val(q(make(), arr(x[i : i + 64], unit)))) for i in range(0, n, 64)])
        o = make()
        first = np.array(val(q(o, arr(np.array(A, dtype=float), unit))))
        for j in shuffled(n):
            k = np.array([j, n - 1 - j, (j + 7) % n])
            c.close(f"{name}, question {j}", val(q(o, arr(x[k], unit))), want[k], rtol=rtol)
        c.close(f"{name}, first question again", val(q(o, arr(np.array(A, dtype=float), unit))), first, rtol=rtol)

    n = [140] if c.quick else [140, 520]
    c.product(name + ", many questions", dict(query=list(range(len(queries))), questions=n), case)


def with_engine(engine, job):
    def run(c):
        old = history.histories
        history.histories = engine
        try:
            job(c)
        finally:
            history.histories = old

    return run


# ------------------------------------------------------------------ objects and changes
def variation(i):
    f = 1 + 0.013 * i
    s = dict(OTHER_SCENE, B=1.3 * f, R_b=3.1e16 / f, delta_D=9.0 + 0.07 * i, Gamma=8.0 + 0.05 * i)
    t = {"PS": dict(L=7.3e45 * f, eps=5.1e-5 * f), "Disk": dict(L=4.4e46 * f, M=1.1e42), "BLR": dict(L=4.4e46 * f, xi=0.07, R=2.3e17 / f), "DT": dict(L=4.4e46 * f, xi=0.3, T=770.0 + i, R=3.1e18)}
    return s, t


def scene_of(i):
    s, t = variation(i)
    w = World(s, tpar=t, r=3.9e17)
    w.blob.n_e.k = w.blob.n_e.k * (1 + 0.017 * i)
    return w


def change(w, i):
    """the scene becomes the i-th one"""
    v = scene_of(i)
    b, d = w.blob, v.blob
    b.B, b.R_b, b.delta_D, b.Gamma = d.B, d.R_b, d.delta_D, d.Gamma
    b.n_e.k = d.n_e.k
    for k, names in (("PS", ("L_0", "epsilon_0")), ("Disk", ("L_disk",)), ("BLR", ("L_disk", "R_line")), ("DT", ("L_disk", "T_dt"))):
        for n in names:
            setattr(w.t[k], n, getattr(v.t[k], n))


def queries_of(L, q):
    if q in SPECTRAL:
        return L.query(q, np.array(MAKERS[SPECTRAL[q][0]][1][1:3]) * u.Hz)
    return L.query(q)


def objects(c, q):
    n = 40 if c.quick else 200

    def alive(i, keep):
        L = Live(scene_of(i))
        keep.append(L)
        return queries_of(L, q)

    def case(cfg):
        keep = []
        want = [alive(i, keep) for i in range(n)]
        if cfg["use"] == "asked again":
            for i in shuffled(n):
                same(c, f"{q} of the object {i}, with {n} others", queries_of(keep[i], q), want[i], 1e-12)
        elif cfg["use"] == "discarded":  # new objects at the addresses of those that are gone
            for i in shuffled(n):
                L = Live(scene_of(i))
                same(c, f"{q} of the object {i}, after {n} others", queries_of(L, q), want[i], 1e-12)
                del L
        elif cfg["use"] == "collected":
            gc.disable()
            try:
                for i in shuffled(n)[: 12 if c.quick else n]:
                    L = Live(scene_of(i))
                    L.self = L
                    same(c, f"{q} of the object {i}", queries_of(L, q), want[i], 1e-12)
                    del L
                    gc.collect()
            finally:
                gc.enable()

    c.product(f"{q}: many objects", dict(use=["asked again", "discarded", "collected"]), case)


CHANGING = [q for q in ALL if q not in ("disk", "blr and dt", "u Disk") and not q.startswith(("ebl", "bb", "str"))]


def changes(c, q):
    n = 40 if c.quick else 200

    def case(cfg):
        w = scene_of(0)
        L = Live(w)
        for i in shuffled(n):
            change(w, i)
            if cfg["asked"] == "each time" or i % 9 == 0:
                same(c, f"{q} after {i} changes", queries_of(L, q), queries_of(Live(follow(i)), q), 1e-11)

    # built as the live one, for what is derived at the construction of the targets
    def follow(i):
        w = scene_of(0)
        change(w, i)
        return w

    c.product(f"{q}: many changes", dict(asked=["each time", "sometimes"]), case)


def distributions(c, families):
    from checks.spectra import PARAMS

    G = np.array(history.G_A)
    n = 150 if c.quick else 1000

    def case(cfg):
        d = dict(family=cfg["family"], **{k: v[0] for k, v in PARAMS[cfg["family"]].items()})

        def made(i):
            return build.dist(dict(d, k=d["k"] * (1 + 0.01 * i), gamma_max=d["gamma_max"] * (1 + 0.001 * i)), "e")

        def ask(o):
            return np.concatenate([o(G).value, o.SSA_integrand(G).value, [o.integrate().value, o.integrate(30.0, 4e3, 1).value]])

        keep = [made(i) for i in range(n)]
        want = [ask(o) for o in keep]
        for i in shuffled(n):
            c.close("asked again", ask(keep[i]), want[i], rtol=1e-12)
            o = made(i)
            c.close("another object", ask(o), want[i], rtol=1e-12)
            del o

    c.product("many distributions", dict(family=families), case)


# ------------------------------------------------------------------------------ steps
LONG = {
    "slow losses": dict(procs=("slow", "inj", "esc"), size=4),
    "growing": dict(procs=("slower", "rin"), size=3),
    "bounds": dict(procs=("const", "inj"), size=5, bounds=(40.0, 1e5)),
    "groups": dict(procs=("slow", "esc", "inj"), groups=(("slow", "esc"), ("slow", "inj")), shares="smooth", grid="log"),
    "heun": dict(procs=("slow", "hump", "esc"), method="heun", size=3),
}


def steps(c, name):
    def case(cfg):
        n = cfg["steps"]
        lockstep(c, dict(LONG[name], step=3.1 / n, total=3.1 * (1 - 0.3 / n)), max_steps=10**6)

    c.product(f"evolutions of many steps, {name}", dict(steps=[33, 130] + ([1030] if name == "growing" else []) if c.quick else [33, 65, 101, 129, 257, 513, 1001, 1025, 2049]), case)


def bins(c, name):
    """evolutions of distributions of many bins"""

    def case(cfg):
        lockstep(c, dict(LONG[name], size=cfg["bins"], step=0.31, total=2.0, method=cfg["method"]), max_steps=10**6)

    c.product(f"evolutions of many bins, {name}", dict(bins=[33, 150, 520] if c.quick else [33, 65, 101, 200, 257, 513, 1025, 2049], method=["euler", "heun"]), case)


def automatic(c):
    def case(cfg):
        lockstep(c, dict(procs=("syn", "acc", "esc", "inj"), size=3, step="auto", max_en=cfg["limit"], max_dens=cfg["limit"] * 3, total=30.0 if c.quick else 300.0, optimize=cfg["optimize"]), max_steps=10**6)

    c.product("evolutions of many automatic steps", dict(optimize=[None, True], limit=[0.01, 0.003] if c.quick else [0.01, 0.003, 1e-3, 3e-4]), case)


def evaluations(c):
    def case(cfg):
        run = evol.Run(evol.full(dict(size=4, total=7.0, **cfg["scheme"])))
        run.build()
        start, want = run.blob.n_e, None
        for i in range(10 if c.quick else 100):
            run.blob.n_e = start
            r = run.plain(run.te.evaluate())
            got = [np.array(r[k]) for k in ("t", "g", "n", "s")]
            if want is not None:
                for a, b in zip(got, want):
                    c.close(f"evaluation {i}", a, b, rtol=1e-12)
            want = got if want is None else want

    c.product("evolution evaluated many times", dict(scheme=[dict(), dict(method="heun"), dict(step="auto"), dict(step="auto", optimize=True)]), case)


def c41(ctx):
    jobs = [lambda c, n=n: steps(c, n) for n in LONG] + [lambda c, n=n: bins(c, n) for n in LONG] + [automatic, evaluations] + [lambda c, f=f: distributions(c, [f]) for f in history.FAMILIES[:5]]
    for js in ARRAYS.values():
        for j in js:
            jobs += [with_engine(lengths, j), with_engine(questions, j)]
    for q in SPECTRAL:
        if not q.startswith(("ebl", "bb ")) and q.split(": ")[1] in ("sed_flux", "tau", "tau_ssa", "sed_flux_delta_approx"):
            jobs.append(lambda c, q=q: grids(c, q))
    for q in ALL:
        if not q.startswith("ebl"):
            jobs.append(lambda c, q=q: objects(c, q))
    for q in CHANGING:
        jobs.append(lambda c, q=q: changes(c, q))
    ctx.parallel(jobs)


c41.bounds = (
    "arrays of every length 2^k and 10^k and next to them, from 3 to 65537 (thorough: a million), less where memory does not allow (synchrotron 4097, external Compton and opacities 513, self-Compton and models 65; "
    "thorough 32769, 4097, 513) and over fine grids of particles and angles, up to 5 (10) million values at once, for all the functions of arrays; 140 (thorough: 520) different questions asked one after the other to one object of each kind; 40 (200) scenes alive, discarded or collected, and "
    "as many changes of one scene, for each query of the catalogue; 150 (1000) distributions of each family; evolutions of up to 1030 (2049) fixed steps by 5 schemes, in lockstep with the reference simulator, of up to 520 (2049) bins, of many "
    "automatic steps, and evaluated 10 (100) times"
)
c41.assumptions = ["the values of new objects of a scene asked once are decided by the other checks"]
