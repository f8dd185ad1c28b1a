"""C36 figures and comparison utilities"""
import os
import shutil
import tempfile
import pathlib
import numpy as np
import astropy.units as u
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.figure import Figure
from mc import ref, build, scene
from agnpy.utils.plot import plot_sed, load_mpl_rc
import agnpy
from agnpy.utils import validation_utils as vu

UNIT = "erg cm-2 s-1"
G_DEFAULT = np.logspace(0, 8, 200)
GRIDS = {"default": None, "own": np.array([3.0, 20.0, 777.0, 4e4, 2e6]), "reversed": np.array([5e5, 3e3, 40.0]), "int": np.array([7, 3000, 5000000])}
NU = {"up": np.array([1e9, 3e14, 7e20]), "down": np.array([2e25, 1e22, 4e17, 3e11])}


def data(ax):
    """curves of the axes"""
    return [(np.array(l.get_xdata(), float), np.array(l.get_ydata(), float)) for l in ax.lines]


class Board:
    """two figures with two axes each; what is expected on each of the axes"""

    def __init__(self, fam):
        plt.close("all")
        self.axes = []
        for i in range(2):
            f, a = plt.subplots(2)
            self.axes += list(a)
        self.current = 3
        plt.sca(self.axes[3])
        self.d = dict(scene.DISTS[fam])
        self.n = build.dist(self.d)
        self.want = [[] for _ in self.axes]
        self.labels = [("", "") for _ in self.axes]
        self.legend = [False for _ in self.axes]
        self.scaled = [False for _ in self.axes]


def start(fam):
    b = Board(fam)
    return b, None


def check(c, b):
    for i, a in enumerate(b.axes):
        got = data(a)
        c.true(len(got) == len(b.want[i]), f"{len(got)} curves on axes {i}, {len(b.want[i])} expected")
        for (x, y), (wx, wy) in zip(got, b.want[i]):
            c.close(f"abscissae on axes {i}", x, wx, rtol=1e-12)
            c.close(f"ordinates on axes {i}", y, wy, rtol=1e-9, atol=1e-250)
        c.true((a.get_xlabel() != "") == (b.labels[i][0] != ""), f"label of the abscissae of axes {i}: {a.get_xlabel()!r}")
        for w in b.labels[i][1].split("|"):
            c.true(w in a.get_ylabel(), f"label of the ordinates of axes {i}: {a.get_ylabel()!r} without {w!r}")
        c.true((a.get_legend() is not None) == b.legend[i], f"legend of axes {i}")
        if b.scaled[i]:
            c.true(a.get_xscale() == a.get_yscale() == "log", f"scales of axes {i}")
    c.true(plt.gca() is b.axes[b.current], "the current axes changed")


def c36(ctx):
    ops = [("spectrum", g, p, where) for g, p, where in (("default", 0, None), ("own", 2, None), ("own", 0, 0), ("reversed", 2.7, 1), ("default", 2, 3), ("int", 3, None), ("int", -1, 2))]
    ops += [("sed", n, where, label) for n, where, label in (("up", None, None), ("down", 1, "x"), ("up", 2, None), ("down", None, "y"))]
    ops += [("current", 0), ("k", 3.7), ("gamma_min", 25.0)]

    def step(c, b, _, op):
        if op[0] == "current":
            b.current = op[1]
            plt.sca(b.axes[op[1]])
            return
        if op[0] in ("k", "gamma_min"):
            b.d[op[0]] = op[1]
            setattr(b.n, op[0], op[1] * u.Unit("cm-3") if op[0] == "k" else op[1])
            return
        if op[0] == "spectrum":
            _, g, p, where = op
            i = b.current if where is None else where
            grid = GRIDS[g]
            own = None if grid is None else grid.copy()
            kw = {} if where is None else dict(ax=b.axes[where])
            if own is not None:
                kw["gamma"] = own
            if p:
                kw["gamma_power"] = p
            r = b.n.plot(**kw)
            if own is not None:
                c.true(np.array_equal(own, grid), "the Lorentz factors passed changed")
            x = G_DEFAULT if grid is None else grid
            b.want[i].append((x, np.asarray(x, float) ** p * ref.density(b.d, np.asarray(x, float))))
            b.labels[i] = ("g", "gamma|cm" + (f"|{p}" if p else ""))
        else:
            _, n, where, label = op
            i = b.current if where is None else where
            kw = {} if where is None else dict(ax=b.axes[where])
            if label:
                kw["label"] = label
                b.legend[i] = True
            nu, sed = NU[n] * u.Hz, NU[n] ** -0.3 * u.Unit(UNIT)
            r = plot_sed(nu, sed, **kw)
            c.true(np.array_equal(nu.value, NU[n]) and nu.unit == u.Hz and sed.unit == u.Unit(UNIT), "the arrays passed changed")
            b.want[i].append((NU[n], NU[n] ** -0.3))
            b.labels[i] = ("nu", "nu|erg")
            if label:
                t = [x.get_text() for x in b.axes[i].get_legend().get_texts()] if b.axes[i].get_legend() else []
                c.true(label in t, f"legend {t} without {label}")
        b.scaled[i] = True
        c.true(r is b.axes[i], "the axes drawn on are not returned")

    jobs = []
    for fam in ("pl", "bpl") if ctx.quick else ("pl", "bpl", "lp", "ecpl", "ecbpl"):
        o = [x for x in ops if x[0] != "k"] if fam == "bpl" and ctx.quick else ops
        for f in o:
            jobs.append(lambda c, fam=fam, f=f, o=o: c.sequences(
                f"figures of {fam}", lambda: start(fam), o, lambda b, m, op: step(c, b, m, op), 2 if c.quick else 3, first=[f], check=lambda b, m: check(c, b)))
    jobs += [distributions, deviations, samples, directories, comparisons, styles]
    ctx.parallel(jobs)
    plt.close("all")


def styles(c):
    """the style of the package, loaded before, between and after the figures, and over other settings"""
    path = pathlib.Path(agnpy.__file__).parent / "utils" / "matplotlibrc"
    style = {k: v for k, v in matplotlib.rc_params_from_file(str(path), use_default_template=False).items() if not k.startswith(("backend", "interactive", "toolbar", "savefig.directory", "webagg", "tk.", "date.epoch", "timezone", "docstring"))}
    other = {"font.size": 7.5, "axes.grid": False, "lines.color": "r", "figure.facecolor": "0.9"}

    def case(cfg):
        with matplotlib.rc_context():
            if cfg["own"] == "before":
                plt.rcParams.update(other)
            b = Board("bpl")
            want = dict(plt.rcParams)
            for i, op in enumerate(cfg["order"]):
                if op == "style":
                    r = load_mpl_rc()
                    c.true(r is None, "the style returns nothing")
                    want.update(style)
                elif op == "own":
                    plt.rcParams.update(other)
                    want.update(other)
                elif op == "sed":
                    plot_sed(NU["up"] * u.Hz, NU["up"] ** -0.3 * u.Unit(UNIT))
                    b.want[3].append((NU["up"], NU["up"] ** -0.3))
                    b.labels[3], b.scaled[3] = ("nu", "nu|erg"), True
                else:
                    b.n.plot(gamma_power=2)
                    b.want[3].append((G_DEFAULT, G_DEFAULT**2 * ref.density(b.d, G_DEFAULT)))
                    b.labels[3], b.scaled[3] = ("g", "gamma|cm"), True
                now = dict(plt.rcParams)
                for k in want:
                    c.true(now[k] == want[k], f"{k} is {now[k]!r} instead of {want[k]!r} after {op}")
                check(c, b)
            plt.close("all")

    import itertools

    O = [o for n in (1, 2, 3) for o in itertools.product(("style", "own", "sed", "spectrum"), repeat=n) if "style" in o]
    c.product("style of the figures", dict(own=[None, "before"], order=O), case)


def distributions(c):
    """every family of distributions, every power"""

    def case(cfg):
        d = scene.DISTS[cfg["fam"]]
        f, ax = plt.subplots()
        g = GRIDS[cfg["grid"]]
        build.dist(d, cfg["particle"]).plot(g, cfg["power"], ax, color="k", ls=":")
        x = G_DEFAULT if g is None else g
        (gx, gy), = data(ax)
        c.close("abscissae", gx, x, rtol=1e-12)
        w = x ** float(cfg["power"]) * (0 * x if d["family"] == "Empty" else ref.density(d, x))
        c.close("ordinates", gy, w, rtol=1e-8, atol=1e-250)
        c.true(ax.lines[0].get_color() == "k" and ax.lines[0].get_linestyle() == ":", "style of the curve")
        plt.close(f)

    c.product("distributions", dict(fam=[x for x in scene.DISTS if x != "empty"], grid=list(GRIDS), power=[0, 1, 2, 2.5, -1], particle=["e", "p"]), case)


def deviations(c):
    """check_deviation is true when all the relative deviations in the range are tolerated"""
    x = np.array([1.0, 10.0, 100.0, 1e3, 1e4])
    y = np.array([3e-12, 5e-30, 2.0, 7e3, 1e20])

    def case(cfg):
        q = 1 + np.array([cfg["d0"], cfg["d1"], 0.0, cfg["d3"], 0.0])
        r = cfg["range"]
        X, Y = x, y
        if cfg["units"]:
            X, Y = x * u.Hz, y * u.Unit(UNIT)
            r = r if r is None else [v * u.Hz for v in r]
        Z = Y * q
        keep = [a.copy() for a in (X, Y, Z)]
        got = vu.check_deviation(X, Z, Y, cfg["rtol"], r)
        inside = np.ones(5, bool) if cfg["range"] is None else (x >= cfg["range"][0]) & (x <= cfg["range"][1])
        c.true(bool(got) == bool(np.all(np.abs(q - 1)[inside] <= cfg["rtol"])), f"check_deviation is {got} for the deviations {q - 1} in {cfg['range']}")
        c.true(all(np.array_equal(a, b) for a, b in zip(keep, (X, Y, Z))), "arrays passed changed")

    D = [0.0, 0.09, -0.11, 0.5]
    c.product("deviations", dict(d0=D, d1=D, d3=D, rtol=[0.1, 0.4], range=[None, [1.0, 1e4], [10.0, 1e3], [1.01, 9.99e3], [1e3, 1e3]], units=[False, True]), case)


def samples(c):
    d = tempfile.mkdtemp(prefix="agnpy_c36_")
    try:
        x, y = np.array([1.5, 2e9, 3.3e20]), np.array([4e-12, 5.5, 6e7])

        def case(cfg):
            f = os.path.join(d, "s.txt")
            with open(f, "w") as o:
                if cfg["comment"]:
                    o.write("# a, comment\n")
                for i in cfg["order"]:
                    o.write(",".join(repr(float(v)) for v in (x[i], y[i]) + ((9.0,) if cfg["third"] else ())) + "\n")
            a, b = vu.extract_columns_sample_file(f, cfg["x"], cfg["y"])
            i = list(cfg["order"])
            c.true(isinstance(a, u.Quantity) and a.unit == u.Unit(cfg["x"]), f"unit of x {getattr(a, 'unit', None)}")
            c.close("x", a.value, x[i], rtol=1e-15)
            c.true(hasattr(b, "unit") == (cfg["y"] is not None) and (cfg["y"] is None or b.unit == u.Unit(cfg["y"])), "unit of y")
            c.close("y", getattr(b, "value", b), y[i], rtol=1e-15)

        c.product("sample files", dict(comment=[False, True], third=[False, True], order=[(0, 1, 2), (2, 0, 1), (1, 2)], x=["Hz", "eV", ""], y=[None, UNIT, "cm-3"]), case)
    finally:
        shutil.rmtree(d)


NOBODY = (65534, 65534)


def contained(fn):
    """result of fn, run by an unprivileged user: whatever it removes, it can only be in the
    scratch directory"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            if os.getuid() == 0:
                os.setgroups([])
                os.setgid(NOBODY[1])
                os.setuid(NOBODY[0])
            out = "ok " + fn()
        except BaseException as e:
            out = f"raised {type(e).__name__}: {e}"
        os.write(w, out.encode())
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        out = f.read()
    os.waitpid(pid, 0)
    if not out.startswith("ok "):
        raise AssertionError(out)
    return out[3:]


def directories(c):
    """the directory made is empty; nothing else is removed"""
    top = tempfile.mkdtemp(prefix="agnpy_c36_")
    os.chmod(top, 0o755)

    def case(cfg):
        w = os.path.join(top, "w")
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(os.path.join(w, "other", "sub"))
        os.makedirs(os.path.join(w, "main"))
        for p in ("keep", "other/keep", "other/sub/keep", "main/f"):
            open(os.path.join(w, p), "w").close()
        if cfg["exists"]:
            os.makedirs(os.path.join(w, "main", "sub", "deep"))
            open(os.path.join(w, "main", "sub", "deep", "old"), "w").close()
        m = os.path.join(w, "main")
        for p, _, fs in os.walk(w):
            for x in [p] + [os.path.join(p, f) for f in fs]:
                os.chown(x, *(NOBODY if os.getuid() == 0 else (-1, -1)))
        arg = m if cfg["kind"] == "str" else pathlib.Path(m)
        got = None
        for _ in range(cfg["times"]):
            got = contained(lambda: str(vu.clean_and_make_dir(arg, cfg["sub"]) if cfg["sub"] else vu.clean_and_make_dir(arg)))
        want = os.path.join(m, cfg["sub"]) if cfg["sub"] else m
        c.true(os.path.realpath(got) == os.path.realpath(want), f"path {got}")
        c.true(os.path.isdir(want) and not os.listdir(want), "the directory is not empty")
        for p in ("keep", "other/keep", "other/sub/keep") + (("main/f",) if cfg["sub"] else ()):
            c.true(os.path.exists(os.path.join(w, p)), f"{p} was removed")

    try:
        c.product("directories", dict(kind=["str", "path"], sub=[None, "sub", "sub/deep", "new"], exists=[True, False], times=[1, 2]), case)
        c.product("other types", dict(a=[None, 3, b"x"]), lambda cfg: c.raises("types", TypeError, lambda: vu.clean_and_make_dir(cfg["a"])))
    finally:
        shutil.rmtree(top)


def comparisons(c):
    top = tempfile.mkdtemp(prefix="agnpy_c36_")
    nu = np.array([1e10, 1e14, 3e17, 2e22])

    def case(cfg):
        un = u.Unit(UNIT) if cfg["kind"] == "sed" else 1
        a, b = nu**-0.3 * (1 + 0.1 * np.sin(np.log(nu))), nu**-0.3
        seen = {}
        path = os.path.join(top, f"f_{len(os.listdir(top))}.png")
        real = Figure.savefig

        def saving(f, *args, **kw):
            seen["ax"] = [data(x) for x in f.axes]
            seen["lab"] = [(x.get_xlabel(), x.get_ylabel(), x.get_title(), [t.get_text() for t in x.get_legend().get_texts()], x.get_ylim()) for x in f.axes]
            return real(f, *args, **kw)

        kw = {}
        if cfg["second"]:
            kw.update(second_ref_x=nu[:2] * u.Hz, second_ref_y=b[:2] * 3 * un, second_ref_label="second")
        if cfg["range"]:
            kw["comparison_range"] = [2e14, 5e18]
        if cfg["yrange"]:
            kw["y_range"] = [1e-9, 1e-2]
        if cfg["kind"] == "rate":
            kw.update(x_label="X label", y_label="Y label")
        n0 = len(plt.get_fignums())
        Figure.savefig = saving
        try:
            vu.make_comparison_plot(nu * u.Hz, a * un, b * un, "comp", "ref", "title", path, cfg["kind"], **kw)
        finally:
            Figure.savefig = real
        c.true(os.path.getsize(path) > 0, "no figure")
        c.true(len(plt.get_fignums()) == n0, "figures left open")
        if not seen.get("ax"):
            return
        up, low = seen["ax"]

        def among(lines, x, y, what):
            c.true(any(len(p) == len(x) and np.allclose(p, x, rtol=1e-12, atol=0) and np.allclose(q, y, rtol=1e-9, atol=1e-15) for p, q in lines), f"no curve of the {what}")

        among(up, nu, b, "reference")
        among(up, nu, a, "comparison")
        among(low, nu, a / b - 1, "deviation")
        if cfg["second"]:
            among(up, nu[:2], 3 * b[:2], "second reference")
        c.true(len(up) == 2 + cfg["second"] + 2 * cfg["range"], f"{len(up)} curves")
        (_, y0, t0, leg, lim), (x1, _, _, _, _) = seen["lab"]
        c.true({"ref", "comp"} | ({"second"} if cfg["second"] else set()) == set(leg), f"legend {leg}")
        c.true(t0 == "title", "title")
        if cfg["yrange"]:
            c.close("limits", np.array(lim), np.array([1e-9, 1e-2]))
        if cfg["kind"] == "rate":
            c.true(x1 == "X label" and y0 == "Y label", "labels")
        else:
            c.true("nu" in x1 and ("tau" in y0) == (cfg["kind"] == "tau"), "labels")

    try:
        c.product("comparison figures", dict(kind=["sed", "tau", "rate"], second=[False, True], range=[False, True], yrange=[False, True]), case)
    finally:
        shutil.rmtree(top)


c36.bounds = (
    "every sequence of 2 (quick) / 3 (thorough) operations on two figures with four axes and one live distribution (draw a spectrum or an SED on "
    "the current or given axes, change the current axes or the distribution); 7 families x 3 grids x 5 powers x 2 particles; 1280 deviations; "
    "sample files; directories (inside a scratch one); 24 comparison figures; every sequence of 3 of style, settings and figures with the style at least once"
)
