"""C18 on-axis and C19 off-axis opacities of targets, C20 opacity of the region, C21 attenuation
factors, C22 extragalactic background light"""
import itertools
import os
import numpy as np
import astropy.units as u
from mc import ref, build, scene
from mc import targets as T
from agnpy.absorption import Absorption, EBL
from .targets import TARGETS, REGION, SCALES, base_target

NU_A = np.array([3.1e9, 2.2e22, 4.1e24, 3.7e25, 2.9e26, 5.3e27, 3.9e29, 2.1e32])


def dims_of(kind):
    d = dict(TARGETS[kind])
    d["z_obs"] = [0.31, 0, 2.2]
    d["l_size"] = [14, 9]
    if kind == "BLR":
        d["mu_size"] = [11, 6]
    if kind != "PS":
        d["phi_size"] = [8, 5]
    return d


def tparams(cfg, kind):
    t = dict(kind=kind, **{k: cfg[k] for k in TARGETS[kind] if k != "r"})
    r = cfg["r"] * ref.G * cfg["M"] / ref.C**2 if kind == "Disk" else cfg["r"]
    return t, r


def live(kind, mus):
    def make(cfg):
        t, r = tparams(cfg, kind)
        a = Absorption(T.make(t), r=r * u.cm, z=cfg["z_obs"], mu_s=mus[cfg["angle"]])
        a.set_l(cfg["l_size"])
        if "mu_size" in cfg:
            a.set_mu(cfg["mu_size"])
        if "phi_size" in cfg:
            a.set_phi(cfg["phi_size"])
        return [a]

    def set_(sut, name, v, cfg):
        a = sut[0]
        t, r = tparams(cfg, kind)
        if name == "r":
            a.r = r * u.cm
        elif name == "z_obs":
            a.z = v
        elif name == "angle":
            a.mu_s = mus[v]
        elif name == "l_size":
            a.set_l(v)
        elif name == "mu_size":
            a.set_mu(v)
        elif name == "phi_size":
            a.set_phi(v)
        else:
            a.target = T.set_param(a.target, t, name, v)
            if name == "M":
                a.r = r * u.cm

    def want(cfg, nu, **kw):
        t, r = tparams(cfg, kind)
        return T.tau_target(t, r, cfg["z_obs"], mus[cfg["angle"]], nu, mu_size=cfg.get("mu_size", 100), phi_size=cfg.get("phi_size", 50), l_size=cfg["l_size"])

    return make, set_, want


def compare(c, label, got, want, rtol=1e-7):
    c.close(label, got, want, rtol=rtol, atol=1e-14 * np.max(want, initial=0) + 1e-280)
    c.true(np.all(np.asarray(got) >= 0), lambda: f"{label}: negative opacity {got}")


MU_ON = {0: 1}


def c18(ctx):
    k = 2 if ctx.quick else 4

    def run(c, kind, first):
        dims = dict(dims_of(kind), angle=[0])
        make, set_, want = live(kind, MU_ON)

        def observe(sut, cfg):
            w = want(cfg, NU_A)
            compare(c, f"opacity of {kind}", sut[0].tau(NU_A * u.Hz), w)
            if kind != "PS" and scene.usual(cfg, dims):
                c.true(w[0] == 0 and np.any(w > 0), "threshold or opacity not covered by the alphabet")

        c.walk(kind, dims, k, make, set_, observe, only_first={first}, scales=dict(SCALES[kind], z_obs=(1e-5, 12.0)))

    kinds = ["PS", "Disk", "BLR", "DT"]
    jobs = [lambda c, kd=kd, f=f: run(c, kd, f) for kd in kinds for f in dims_of(kd)]

    def shell(c):
        """positions around, at, and such that the path crosses the shell at a grid point"""

        def case(cfg):
            t, _ = base_target("BLR")
            n = 14
            q = cfg["q"]
            if cfg["grid"]:  # the point i of the path is at this fraction of the radius
                q = q / np.logspace(0, 5, n)[cfg["grid"]]
            a = Absorption(T.make(t), r=q * t["R"] * u.cm, z=0.2)
            a.set_l(n)
            a.set_mu(12)
            a.set_phi(5)
            w = T.tau_target(t, q * t["R"], 0.2, 1, NU_A, mu_size=12, phi_size=5, l_size=n)
            compare(c, "opacity around the shell", a.tau(NU_A * u.Hz), w, 1e-6)

        qs = [1e-3, 0.1, 0.5, 0.9, 0.99, 0.9998, 0.99985, 0.99995, 1.0, 1.00005, 1.00015, 1.0002, 1.01, 1.1, 2.0, 30.0]
        c.product("shell", dict(q=qs, grid=[0, 1, 5, 12]), case)

    def static(c):
        def case(cfg):
            kind = cfg["kind"]
            t, r = base_target(kind)
            o = T.make(t)
            nu = NU_A[2:] * u.Hz
            A = Absorption
            q = r * u.cm
            if kind == "PS":
                got = A.evaluate_tau_ps_behind_blob(nu, 0.2, 1, o.epsilon_0, o.L_0, q)
            elif kind == "Disk":
                got = A.evaluate_tau_ss_disk(nu, 0.2, 1, o.M_BH, o.L_disk, o.eta, o.R_in, o.R_out, q)
            elif kind == "BLR":
                got = A.evaluate_tau_blr(nu, 0.2, 1, o.L_disk, o.xi_line, o.epsilon_line, o.R_line, q)
            else:
                got = A.evaluate_tau_dt(nu, 0.2, 1, o.L_disk, o.xi_dt, o.epsilon_dt, o.R_dt, q)
            compare(c, f"parametric opacity of {kind}", got, T.tau_target(t, r, 0.2, 1, NU_A[2:]))
            a = A(o, r=q, z=0.2)
            compare(c, f"opacity of {kind}, default grids", a.tau(nu), T.tau_target(t, r, 0.2, 1, NU_A[2:]))
            if kind in ("BLR", "DT"):
                x = a.tau(nu)
                o2 = T.make(dict(t, L=3 * t["L"], xi=t["xi"] / 2))
                c.close("linear in luminosity and fraction", A(o2, r=q, z=0.2).tau(nu), 1.5 * x)

        c.product("defaults", dict(kind=kinds), case)

        def refused(cfg):
            t = T.make(dict(kind="CMB", z=0)) if cfg["t"] == "CMB" else cfg["t"]
            c.raises("unsupported target", NotImplementedError, lambda: Absorption(t, r=1e17 * u.cm).tau(NU_A * u.Hz))

        c.product("unsupported", dict(t=["CMB", "nothing", None, 3.0]), refused)
        c.product("no distance", dict(kind=kinds), lambda g: c.raises("no distance", ValueError, lambda: Absorption(T.make(base_target(g["kind"])[0]))))

        def threshold(cfg):
            """the opacity starts at the threshold, and ends decreasing with the energy"""
            kind = cfg["kind"]
            t, r = base_target(kind)
            e0 = T.eps_line(t) if kind == "BLR" else T.eps_dt(t)
            # from inside the radius, photons are met head on in the case of the shell
            top = 2.0 if kind == "BLR" else 1.0
            x = np.array([0.2, 0.9, 0.999]) * 2 / (e0 * top) * ref.MEC2 / ref.H
            a = Absorption(T.make(t), r=(0.01 * t["R"]) * u.cm)
            c.true(np.all(a.tau(x * u.Hz) == 0), f"opacity below the threshold {a.tau(x * u.Hz)}")
            c.true(np.all(a.tau(x * 1.2 / 0.9 * u.Hz)[1:] > 0), "no opacity above the threshold")

        c.product("threshold", dict(kind=["BLR", "DT"]), threshold)

    ctx.parallel(jobs + [shell, static])


c18.bounds = (
    "point source, disk, shell, torus: 5-10 dimensions (parameters, distance, redshift, path and angular grids), all "
    "configurations with at most 2 (quick) / 4 (thorough) deviations on live target and absorber, 8 frequencies from below "
    "threshold to far above; 64 positions around, at and crossing the shell; default grids; thresholds"
)
c18.assumptions = ["the documented exclusion of 1e-4 of the radius around the shell is part of the reference"]

class _Angles(dict):
    def __missing__(self, a):
        return float(np.cos(np.radians(a)))


ANGLES = _Angles({a: float(np.cos(np.radians(a))) for a in (0.2, 1.0, 3.0, 11.0, 35.0, 90.0, 133.0)})


def c19(ctx):
    k = 2 if ctx.quick else 4
    kinds = ["PS", "BLR", "DT"]

    def run(c, kind, first):
        dims = dict(angle=[3.0, 1.0, 0.2, 11.0, 35.0, 90.0, 133.0], **dims_of(kind))
        make, set_, want = live(kind, ANGLES)

        def observe(sut, cfg):
            w = want(cfg, NU_A)
            # small angles: the cosine of the angle of the photons differs little from one
            compare(c, f"off-axis opacity of {kind}", sut[0].tau(NU_A * u.Hz), w, 1e-6)

        c.walk(kind, dims, k, make, set_, observe, only_first={first}, scales=dict(SCALES[kind], z_obs=(1e-5, 12.0), angle=(1e-3, 179.0)))

    def limit(c):
        def case(cfg):
            kind = cfg["kind"]
            t, r = base_target(kind)
            o = T.make(t)
            nu = NU_A[3:6] * u.Hz
            on = Absorption(o, r=r * u.cm, z=0.2)
            off = Absorption(o, r=r * u.cm, z=0.2, mu_s=np.cos(cfg["theta"]))
            for a in (on, off):
                a.set_l(300)
                a.set_mu(41)
                a.set_phi(11)
            x, y = on.tau(nu), off.tau(nu)
            c.true(np.any(x > 0), "no opacity")
            # (the sampling of the path matters close to the threshold)
            c.close("limit of small angles", y, x, rtol=0.03, atol=0.03 * x.max())

        c.product("limit", dict(kind=["BLR", "DT"], theta=[1e-3, 1e-4, 1e-5, 1e-7]), case)

    def static(c):
        def case(cfg):
            kind = cfg["kind"]
            t, r = base_target(kind)
            o = T.make(t)
            nu = NU_A[2:] * u.Hz
            A = Absorption
            q = r * u.cm
            ms = ANGLES[cfg["angle"]]
            if kind == "PS":
                got = A.evaluate_tau_ps_behind_blob_mu_s(nu, 0.2, ms, o.epsilon_0, o.L_0, q)
            elif kind == "BLR":
                got = A.evaluate_tau_blr_mu_s(nu, 0.2, ms, o.L_disk, o.xi_line, o.epsilon_line, o.R_line, q)
            else:
                got = A.evaluate_tau_dt_mu_s(nu, 0.2, ms, o.L_disk, o.xi_dt, o.epsilon_dt, o.R_dt, q)
            w = T.tau_target(t, r, 0.2, ms, NU_A[2:])
            compare(c, f"parametric off-axis opacity of {kind}", got, w, 1e-6)
            compare(c, f"off-axis opacity of {kind}, default grids", A(o, r=q, z=0.2, mu_s=ms).tau(nu), w, 1e-6)

        c.product("defaults", dict(kind=kinds, angle=[3.0, 35.0]), case)
        c.product(
            "unsupported", dict(kind=["Disk"]),
            lambda g: c.raises("off-axis disk", NotImplementedError, lambda: Absorption(T.make(base_target("Disk")[0]), r=1e17 * u.cm, mu_s=0.9).tau(NU_A * u.Hz)),
        )  # fmt: skip

        def shell(cfg):
            """the path crosses the shell at one of its grid points, or close to it"""
            t, _ = base_target("BLR")
            ms = ANGLES[cfg["angle"]]
            p = np.logspace(-5, 5, 28)[cfg["i"]]
            r = cfg["q"] * t["R"] / np.sqrt(1 + p**2 + 2 * p * ms)
            a = Absorption(T.make(t), r=r * u.cm, z=0.2, mu_s=ms)
            a.set_l(14)
            a.set_mu(12)
            a.set_phi(5)
            w = T.tau_target(t, r, 0.2, ms, NU_A, mu_size=12, phi_size=5, l_size=14)
            # (rounding of the positions relative to the distance from the closest element of the shell)
            compare(c, "off-axis opacity crossing the shell", a.tau(NU_A * u.Hz), w, 2e-2)

        c.product("shell", dict(i=[0, 8, 13, 15, 20, 27], q=[0.9998, 0.99995, 1.0, 1.00003, 1.0003], angle=[3.0, 11.0, 90.0]), shell)

        def near(cfg):
            kind = cfg["kind"]
            t, r = base_target(kind)
            x = Absorption(T.make(t), r=r * u.cm, mu_s=1 - cfg["d"]).tau(NU_A * u.Hz)
            c.true(np.all(np.isfinite(x)) and np.all(x >= 0), f"opacity very close to the axis {x}")

        c.product("very close to the axis", dict(kind=kinds, d=[1e-16 * 2.3**i for i in range(0, 36)]), near)

    ctx.parallel([lambda c, kd=kd, f=f: run(c, kd, f) for kd in kinds for f in ["angle"] + list(dims_of(kd))] + [limit, static])


c19.bounds = (
    "point source, shell, torus: viewing angle (7 between 0.2 and 133 degrees) and 5-9 dimensions, all configurations with at "
    "most 2 (quick) / 4 (thorough) deviations; 90 crossings of the shell at or near a grid point; default grids; limit of small angles"
)
c19.assumptions = c18.assumptions


# ----------------------------------------------------------------------------- C20
NU_B = np.array([3.1e14, 2.2e22, 4.1e24, 3.7e25, 2.9e26, 5.3e27, 3.9e29])


def c20(ctx):
    k = 2 if ctx.quick else 3
    dims = dict(REGION)
    # the bounds of an interpolated distribution are its samples

    # the same distribution, changed in place
    own = {}
    for f, ps in (("pl", dict(k=3.1, p=2.7)), ("bpl", dict(k=3.3e-4, p1=1.4, p2=3.9, gamma_b=433.0)), ("lp", dict(p=2.9, q=0.29, gamma_0=1e3))):
        d = scene.DISTS[f]
        ps = dict(ps, gamma_min=d["gamma_min"] * 3.7, gamma_max=d["gamma_max"] / 7.1)
        own[f] = dict(n_e=[f], **{"n_e." + n: [d[n], v] for n, v in ps.items()}, B=dims["B"][:2], R_b=dims["R_b"][:2], delta_D=dims["delta_D"][:2], ne_size=dims["ne_size"][:2])

    def run(c, first, family=None):
        ds, name = (dims, "region") if family is None else (own[family], f"parameters of {family}")

        def make(cfg):
            b = scene.blob(scene.region(cfg))
            return [b, Absorption(b)]

        def set_(sut, name, v, cfg):
            if name == "cosmology":
                return make(cfg)
            scene.set_blob(sut[0], name, v)

        def observe(sut, cfg):
            R = scene.region(cfg)
            b, a = sut
            want = T.tau_synch(R, NU_B)
            kw = dict(rtol=3e-6, atol=1e-250)
            # the last one is the first one of the next state
            c.close("opacity", a.tau(NU_B * u.Hz), want, unit="", **kw)
            c.close("opacity, 2-D", a.tau(NU_B[:6].reshape(2, 3) * u.Hz), want[:6].reshape(2, 3), unit="", **kw)
            c.close("opacity, scalar", a.tau(NU_B[3] * u.Hz), want[3], unit="", **kw)
            c.close("opacity, other grid again", a.tau_on_synchrotron(b, NU_B * u.Hz, nu_s_size=57, delta_margin_low=1e-5), T.tau_synch(R, NU_B, 57, 1e-5), unit="", **kw)
            c.close("opacity again", a.tau(NU_B * u.Hz), want, unit="", **kw)
            c.true(np.all(want >= 0), "negative opacity")
            if cfg["n_e"] != "empty" and scene.usual(cfg, ds):
                c.true(np.any(want > 0), "no opacity in the alphabet")

        c.walk(name, ds, k, make, set_, observe, only_first={first}, scales=None if family else scene.SCALES)

    ctx.parallel([lambda c, f=f: run(c, f) for f in dims] + [lambda c, f=f, n=n: run(c, n, f) for f in own for n in own[f] if n != "n_e"])


c20.bounds = "3 families of distributions with 8-10 parameters of theirs and of the region changed in place; 8 region dimensions: all configurations with at most 2 (quick) / 3 (thorough) deviations on a live region and absorber; 7 frequencies; two synchrotron grids"


# ----------------------------------------------------------------------------- C21
def c21(ctx):
    def reference(t):
        t = np.asarray(t, np.longdouble)
        s = 1 - t / 2 + t**2 / 6 - t**3 / 24
        with np.errstate(all="ignore"):
            return np.asarray(np.where(t < 1e-4, s, (1 - np.exp(-t)) / np.where(t == 0, 1, t)), float)

    def check(c, a, nu, label):
        t = np.asarray(u.Quantity(a.tau(nu)).to_value(""), float)
        x, h = a.absorption(nu), a.absorption_homogeneous(nu)
        c.close(f"{label} attenuation", x, np.exp(-t), rtol=1e-12, atol=1e-300, unit="" if hasattr(x, "unit") else None)
        c.close(f"{label} homogeneous attenuation", h, reference(t), rtol=1e-12, unit="" if hasattr(h, "unit") else None)
        for y in (np.asarray(x, float), np.asarray(h, float)):
            c.true(np.all((y >= 0) & (y <= 1)), f"{label}: outside [0, 1]")
            i = np.argsort(t.ravel(), kind="stable")
            c.true(np.all(np.diff(y.ravel()[i]) <= 1e-15), f"{label}: not decreasing with the opacity")
        c.true(np.all(np.asarray(h, float) >= np.asarray(x, float) - 1e-15), "homogeneous attenuation stronger than that of a screen")
        return t

    top = {}

    def targets(cfg):
        kind = cfg["kind"]
        t, r = base_target(kind)
        if cfg["scale"] == 0:
            t = dict(t, L=0.0)
            if kind == "Disk":
                return
        else:
            t = dict(t, L=t["L"] * cfg["scale"])
        a = Absorption(T.make(t), r=r * u.cm, z=0.1, mu_s=1 if kind == "Disk" else 0.97)
        a.set_l(10)
        a.set_mu(7)
        a.set_phi(5)
        x = check(ctx, a, NU_A.reshape(cfg["shape"]) * u.Hz, kind)
        if cfg["shape"] == (8,):
            check(ctx, a, np.geomspace(NU_A[0], NU_A[-1], 40 if ctx.quick else 600) * u.Hz, kind + ", many frequencies")
        top.setdefault(kind, []).append(float(x.max()))

    scales = [0, 1e-300, 1e-200, 1e-30] + [10.0**i for i in range(-20, 7)]
    ctx.product("targets", dict(kind=["PS", "BLR", "DT", "Disk"], scale=scales, shape=[(8,), (2, 4)]), targets, flt=lambda g: g["kind"] != "Disk" or 1e-30 < g["scale"] < 1e7)
    if ctx.replay is None:
        ctx.true(all(max(v) > 300 for k, v in top.items() if k != "Disk"), f"huge opacities are not covered {top}")

    def region(cfg):
        R = scene.region(dict(R_b=cfg["R_b"], B=cfg["B"], n_e=cfg["n_e"]))
        b = scene.blob(R)
        check(ctx, Absorption(b), NU_B * u.Hz, "region")
        check(ctx, Absorption(b), NU_B[2] * u.Hz, "region, scalar")

    ctx.product("region", dict(R_b=[1e12, 7e14, 2e16, 4e19], B=[1e-3, 0.37, 47], n_e=["pl", "bpl", "lp", "empty"]), region)


c21.bounds = "3 targets x 31 luminosities (null, 1e-300 to 1e6 times nominal: opacities from denormal to overflowing the exponential), disk x 27, x 2 shapes, 48 regions"


# ----------------------------------------------------------------------------- C22
EBL_FILES = {
    "franceschini_2008": "ebl_franceschini.fits.gz",
    "franceschini_2017": "ebl_franceschini_2017.fits.gz",
    "dominguez_2011": "ebl_dominguez11.fits.gz",
    "finke_2010": "frd_abs.fits.gz",
    "saldana_lopez_2021": "ebl_saldana-lopez_2021.fits.gz",
}


def table(model):
    import agnpy
    from astropy.io import fits

    path = os.path.join(os.path.dirname(agnpy.__file__), "data", "ebl_models", EBL_FILES[model])
    with fits.open(path) as f:
        lo, hi = (np.array(f["ENERGIES"].data[n], dtype=float) for n in ("ENERG_LO", "ENERG_HI"))
        z = np.array(f["SPECTRA"].data["PARAMVAL"], dtype=float)
        v = np.array(f["SPECTRA"].data["INTPSPEC"], dtype=float)
    z, i = np.unique(z, return_index=True)
    return np.sqrt(lo * hi), z, v[i]


def c22(ctx):
    keV = ref.H / 1.602176634e-9  # keV per Hz

    def run(c, model):
        E, z, V = table(model)
        e = EBL(model)
        step = 1 if not c.quick else max(1, len(z) // 400)
        En = E.copy()
        # the ends of the table, within the rounding of the conversion of units
        En[0] *= 1 + 1e-6
        En[-1] *= 1 - 1e-6

        def nodes(cfg):
            i = cfg["i"]
            got = e.absorption(En / keV * u.Hz, z[i])
            c.close(f"table at z = {z[i]}", got, V[i], rtol=1e-5, atol=1e-5)
            c.true(np.all((got >= 0) & (got <= 1)), "outside [0, 1]")
            if i + 1 < len(z):
                # between the nodes, within the corners
                zz = 0.37 * z[i] + 0.63 * z[i + 1]
                x = np.sqrt(E[1:] * E[:-1])
                g = e.absorption(x / keV * u.Hz, zz)
                cs = np.array([V[i][1:], V[i][:-1], V[i + 1][1:], V[i + 1][:-1]])
                c.true(np.all((g >= cs.min(0) - 1e-6) & (g <= cs.max(0) + 1e-6)), "an interpolated value is outside the range of its neighbours")

        c.product(model + " nodes", dict(i=list(range(0, len(z), step)) + ([len(z) - 1] if (len(z) - 1) % step else [])), nodes)

        nu = np.geomspace(E[0] * 1.01, E[-1] * 0.99, 8) / keV
        zs = float(z[len(z) // 3])
        base = e.absorption(nu * u.Hz, zs)

        def forms(cfg):
            q = (nu * u.Hz).to(cfg["unit"], equivalencies=u.spectral())
            f = dict(flat=lambda x: x, two=lambda x: x.reshape(2, 4), scalar=lambda x: x[3], rev=lambda x: x[::-1], one=lambda x: x[5:6], col=lambda x: x.reshape(-1, 1))[cfg["form"]]
            zv = zs if cfg["z"] == "float" else np.float64(zs) if cfg["z"] == "np" else np.array(zs)
            c.close("form", e.absorption(f(q), zv), f(base), rtol=1e-9, atol=1e-12)

        c.product(model + " forms", dict(unit=["Hz", "GHz", "eV", "TeV", "keV", "J", "fm"], form=["flat", "two", "scalar", "rev", "one", "col"], z=["float", "np", "0-d"]), forms)

        def outside(cfg):
            x = dict(low=nu[0] / 3, high=nu[-1] * 3, inside=nu[3])[cfg["e"]]
            zz = dict(low=z[0] / 2 if z[0] > 0 else -0.1, high=z[-1] * 1.01, inside=zs)[cfg["z"]]
            g = e.absorption(np.array([x, nu[2]]) * u.Hz, zz)
            if cfg["e"] != "inside" or cfg["z"] != "inside":
                c.true(np.isnan(g[0]), f"value {g[0]} outside of the table")
            if cfg["z"] == "inside":
                c.close("value with others outside of the table", g[1], base[2], rtol=1e-12)

        c.product(model + " outside", dict(e=["low", "inside", "high"], z=["low", "inside", "high"]), outside)

        def separate(cfg):
            others = [EBL(m) for m in EBL_FILES if m != model]
            for o in others:
                o.absorption(nu * u.Hz, 0.3)
            c.close("value after the use of the other models", e.absorption(nu * u.Hz, zs), base, rtol=0)

        c.product(model + " separate", dict(n=[1]), separate)

    def names(c):
        for m in ["", "dominguez", "Dominguez_2011", None, "finke"]:
            c.product("unknown model", dict(m=[m]), lambda g: c.raises("unknown model", ValueError, lambda: EBL(g["m"])))
        E, z, V = table("dominguez_2011")

        def default(cfg):
            x = np.geomspace(E[0] * 1.01, E[-1] * 0.99, 20) / keV * u.Hz
            c.close("default model", EBL().absorption(x, 0.5), EBL("dominguez_2011").absorption(x, 0.5), rtol=0)

        c.product("default", dict(n=[1]), default)

    # several models in one process, built and used in any order
    TAB = {}

    def orders(cfg):
        made = {}
        for i, m in enumerate(cfg["order"]):
            made[m] = EBL(m)
            if cfg["use"] == "all":
                # the last one built, then the others
                for o in list(made)[::-1]:
                    look(o, made[o])
        for m in cfg["order"]:
            look(m, made[m])

    def look(m, e):
        if m not in TAB:
            TAB[m] = table(m)
        E, z, V = TAB[m]
        i, k = len(z) // 3, slice(len(E) // 3, None, max(1, len(E) // 9))
        ctx.close(f"table of {m} at z = {z[i]}", e.absorption(E[k] / keV * u.Hz, z[i]), V[i][k], rtol=1e-5, atol=1e-5)

    ctx.product("orders of the models", dict(order=[o for n in ((2, 3) if ctx.quick else (2, 3, 4, 5)) for o in itertools.permutations(EBL_FILES, n)], use=["all", "last"]), orders)
    ctx.parallel([lambda c, m=m: run(c, m) for m in EBL_FILES] + [names])


c22.bounds = "5 models: every node of the tables (quick: every energy at about 400 redshifts per model) and the cell next to it; 126 combinations of units, shapes and kinds of redshift; 9 combinations inside/outside of the table"
