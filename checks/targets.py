"""C10 external Compton, C15 constraints, C16 energy densities, C17 derived physics of targets"""
import re
import numpy as np
import astropy.units as u
from astropy.coordinates import Distance
from mc import ref, build, scene
from mc import targets as T
from agnpy.compton import ExternalCompton
from agnpy.constraints import SpectralConstraints
from agnpy.targets import SSDisk, SphericalShellBLR, RingDustTorus, PointSourceBehindJet, CMB, lines_dictionary

# alphabets of target parameters, base first; "r" is the distance of the region
TARGETS = {
    "CMB": dict(z=[0.31, 0, 2.3], r=[None]),
    "PS": dict(L=[3.3e45, 7.1e41], eps=[1.3e-5, 4e-8, 2e-2], r=[7.7e17, 1.1e15]),
    "Disk": dict(
        M=[1.2e9 * ref.MSUN, 3.1e6 * ref.MSUN], L=[2.1e46, 4e43], eta=[0.083, 0.4], Rin=[6, 3.3], Rout=[200, 1741.5],
        rg_units=[True, False], r=[960.0, 2.1e4, 51.0],
    ),
    "BLR": dict(L=[2.1e46, 4e43], xi=[0.024, 0.3], line=["Lyalpha", "Hbeta", "MgII"], R=[1.1e17, 2.3e18], r=[4.1e17, 2.17e16, 9.7e18]),
    "DT": dict(L=[2.1e46, 4e43], xi=[0.11, 0.6], T=[1.02e3, 333.0], R=[1.57e19, None, 6e17], r=[4.1e17, 2.3e19]),
}
# limits of the ladders of scales
SCALES = {
    "CMB": dict(z_t=(1e-4, 30.0), z=(1e-4, 30.0)),
    "PS": dict(L=(1e36, 1e49), eps=(1e-13, 3.0), r=(1e12, 1e23)),
    "Disk": dict(M=(1e5 * ref.MSUN, 1e11 * ref.MSUN), L=(1e38, 1e49), eta=(1e-3, 0.99), Rin=(3.0, 190.0), Rout=(6.2, 1e5), r=(11.0, 3e4)),
    "BLR": dict(L=(1e38, 1e49), xi=(1e-7, 1.0), R=(1e13, 1e21), r=(1e12, 1e22)),
    "DT": dict(L=(1e38, 1e49), xi=(1e-7, 1.0), T=(0.3, 1e6), R=(1e14, 1e23), r=(1e12, 1e24)),
}
REGION = {k: v for k, v in scene.REGION.items() if k not in ("n_p", "np_size")}
REGION["cosmology"] = ["default", "other"]


def compare_ec(ctx, label, got, t, r, R, nu, **kw):
    """compares with the reference; returns it"""
    want = T.ec_sed(R, t, r, nu, **kw)
    atol = np.max(want, initial=0) * 1e-60 + 1e-250
    if t["kind"] == "Disk":
        d = T.Disk(t)
        # the emissivity is null at the inner edge, within the rounding of the cosine of its zenith angle
        atol = atol + T.ec_sed(R, t, r, nu, **dict(kw, noise=1e-15 * (1 + (r / d.R_g / d.a) ** 2)))
    ctx.close(label, got, want, rtol=1e-7 if t["kind"] == "Disk" else 1e-8, atol=atol, unit="erg cm-2 s-1")
    ctx.true(np.all(got.value >= 0), lambda: f"{label}: negative values")
    return want


def split(cfg, kind):
    t = dict(kind=kind, **{k: cfg[k] for k in TARGETS[kind] if k != "r"})
    # the distance from the disk is in gravitational radii: the documented integration over the
    # cosine of the zenith angle is not numerically possible at very large distances
    r = cfg["r"] * ref.G * cfg["M"] / ref.C**2 if kind == "Disk" else cfg["r"]
    return t, r


NU_EC = np.array([3.1e9, 2.2e13, 4.1e16, 7.7e19, 5.3e22, 3.9e24, 2.1e26, 6e28])


def c10(ctx):
    k = 2 if ctx.quick else 3
    nu = NU_EC * u.Hz

    def run(c, kind, first):
        dims = dict(TARGETS[kind])
        if kind in ("CMB", "BLR", "Disk"):
            dims["mu_size"] = [11, 6]
        if kind != "PS":
            dims["phi_size"] = [8, 5]
        dims["rule"] = ["trapz", "loglog"]
        zname = "z_t" if kind == "CMB" else None
        if zname:
            dims[zname] = dims.pop("z")
        dims.update({n: v for n, v in REGION.items()})

        def desc(cfg):
            c2 = dict(cfg)
            if zname:
                c2["z"] = cfg[zname]
            return split(c2, kind)

        def reg(cfg):
            return scene.region(dict(cfg))

        def make(cfg):
            t, r = desc(cfg)
            b = scene.blob(reg(cfg))
            e = ExternalCompton(b, T.make(t), None if r is None else r * u.cm, integrator=build.RULE[cfg["rule"]])
            if "mu_size" in cfg:
                e.set_mu(cfg["mu_size"])
            if "phi_size" in cfg:
                e.set_phi(cfg["phi_size"])
            return [b, e]

        def set_(sut, name, v, cfg):
            b, e = sut
            if name == "cosmology":
                return make(cfg)
            if name == "rule":
                e.integrator = build.RULE[v]
            elif name == "mu_size":
                e.set_mu(v)
            elif name == "phi_size":
                e.set_phi(v)
            elif name == "r":
                e.r = desc(cfg)[1] * u.cm
            elif name == zname or (name in TARGETS[kind] and name not in REGION):
                t, _ = desc(cfg)
                e.target = T.set_param(e.target, t, "z" if name == zname else name, v)
                if name == "M":
                    e.r = desc(cfg)[1] * u.cm
            else:
                scene.set_blob(b, name, v)

        def observe(sut, cfg):
            t, r = desc(cfg)
            R = reg(cfg)
            kw = dict(rule=cfg["rule"], mu_size=cfg.get("mu_size", 100), phi_size=cfg.get("phi_size", 50))
            want = compare_ec(c, f"EC SED on {kind}", sut[1].sed_flux(nu), t, r, R, NU_EC, **kw)
            if cfg["n_e"] != "empty" and scene.usual(cfg, dims):
                c.true((want > 0).any(), "nothing but zeros in the alphabet")

        c.walk(kind, dims, k, make, set_, observe, only_first={first}, scales={**scene.SCALES, **SCALES[kind], "z": scene.SCALES["z"]})

    jobs = []
    for kind in TARGETS:
        names = list(TARGETS[kind]) + list(REGION) + ["rule", "mu_size", "phi_size", "z_t"]
        for f in dict.fromkeys(names):
            jobs.append(lambda c, kind=kind, f=f: run(c, kind, f))
    jobs += [c10_static, c10_geometry, c10_full]
    ctx.parallel(jobs)


def base_target(kind):
    t, r = split({k: v[0] for k, v in TARGETS[kind].items()}, kind)
    return t, r


def static_ec(kind, t, r, nu, R, n, kw, obj=None):
    """parametric evaluation; R: ref.Region"""
    a = (nu, R.z, R.d_L * u.cm, R.delta_D, kw.pop("mu_s", R.mu_s), R.R_b * u.cm)
    o = obj or T.make(t)
    q = None if r is None else r * u.cm
    P = list(n.parameters)
    E = ExternalCompton
    if kind == "CMB":
        return E.evaluate_sed_flux_iso_mono(*a, o.epsilon_0, o.u_0, n, *P, **kw)
    if kind == "PS":
        return E.evaluate_sed_flux_ps_behind_jet(*a, o.epsilon_0, o.L_0, q, n, *P, **kw)
    if kind == "Disk":
        return E.evaluate_sed_flux_ss_disk(*a, o.M_BH, o.L_disk, o.eta, o.R_in, o.R_out, q, n, *P, **kw)
    if kind == "BLR":
        return E.evaluate_sed_flux_blr(*a, o.L_disk, o.xi_line, o.epsilon_line, o.R_line, q, n, *P, **kw)
    return E.evaluate_sed_flux_dt(*a, o.L_disk, o.xi_dt, o.epsilon_dt, o.R_dt, q, n, *P, **kw)


def c10_static(ctx):
    nu = NU_EC[2:6] * u.Hz

    def case(cfg):
        kind = cfg["kind"]
        t, r = base_target(kind)
        R = scene.region({"n_e": cfg["n_e"]})
        R.ne_size = 25
        n = build.dist(R.n_e)
        mu_s = np.cos(np.radians(cfg["angle"]))
        g = np.logspace(1.7, 7.3, 31)
        kw = dict(gamma=g, integrator=build.RULE[cfg["rule"]], mu_s=mu_s)
        rk = dict(rule=cfg["rule"], gamma=g, mu_s=mu_s)
        if kind in ("CMB", "BLR"):
            kw["mu"] = np.linspace(-1, 1, 9)
            rk["mu_size"] = 9
        if kind == "Disk":
            kw["mu_size"] = rk["mu_size"] = 9
        if kind != "PS":
            kw["phi"] = np.linspace(0, 2 * np.pi, 7)
            rk["phi_size"] = 7
        got = static_ec(kind, t, r, nu, R, n, kw)
        compare_ec(ctx, f"parametric EC on {kind}", got, t, r, R, NU_EC[2:6], **rk)
        if kind in ("PS", "DT", "BLR"):  # linearity
            t2 = dict(t, L=t["L"] * 2.5)
            r2 = static_ec(kind, t2, r, nu, R, n, dict(kw, mu_s=mu_s))
            ctx.close("linear in luminosity", r2, 2.5 * got, rtol=1e-9, unit="erg cm-2 s-1")

    ctx.product(
        "parametric", dict(kind=list(TARGETS), n_e=["pl", "bpl", "lp"], rule=["trapz", "loglog"], angle=[0.5, 3.0, 17.0, 60.0, 91.0, 140.0]), case
    )

    def defaults(cfg):
        kind = cfg["kind"]
        t, r = base_target(kind)
        R = scene.region({"n_e": "bpl"})
        got = static_ec(kind, t, r, nu[:2], R, build.dist(R.n_e), {})
        compare_ec(ctx, f"defaults on {kind}", got, t, r, R, NU_EC[2:4], gamma=np.logspace(1, 9, 200))

    ctx.product("defaults", dict(kind=list(TARGETS)), defaults)

    def refused(cfg):
        ctx.raises("unsupported target", NotImplementedError, lambda: ExternalCompton(scene.blob(scene.region({})), cfg["t"], 1e17 * u.cm).sed_flux(nu))

    ctx.product("unsupported", dict(t=["nothing", None, 3.0]), refused)


def c10_geometry(ctx):
    """positions of the region relative to the shell, and physical limits"""

    def shell(cfg):
        t, _ = base_target("BLR")
        r = cfg["q"] * t["R"]
        R = scene.region({"n_e": "bpl"})
        b = scene.blob(R)
        e = ExternalCompton(b, T.make(t), r * u.cm)
        e.set_mu(cfg["mu"])
        e.set_phi(6)
        n = NU_EC[2:6]
        compare_ec(ctx, "shell", e.sed_flux(n * u.Hz), t, r, R, n, mu_size=cfg["mu"], phi_size=6)

    ctx.product("shell", dict(q=[1e-3, 0.1, 0.33, 0.5, 0.73, 0.97, 1.03, 1.31, 2, 9.7, 300.0], mu=[12, 21]), shell)

    def far(cfg):
        """far from disk, shell and torus, the targets are point sources behind the jet (for
        the same photon energy and luminosity)"""
        R = scene.region({"n_e": "bpl"})
        b = scene.blob(R)
        kind = cfg["kind"]
        t, _ = base_target(kind)
        r = 3e3 * (t["R"])
        n = NU_EC[2:6] * u.Hz
        eps = T.eps_line(t) if kind == "BLR" else T.eps_dt(t)
        ps = PointSourceBehindJet(t["L"] * t["xi"] * T.ERGS, eps)
        a = ExternalCompton(b, T.make(t), r * u.cm).sed_flux(n)
        p = ExternalCompton(b, ps, r * u.cm).sed_flux(n)
        ctx.close("far away, the target is a point source", a, p, rtol=2e-2, unit="erg cm-2 s-1")

    ctx.product("far", dict(kind=["BLR", "DT"]), far)


def c10_full(ctx):
    def case(cfg):
        kind = cfg["kind"]
        t, r = base_target(kind)
        R = scene.region({"n_e": "bpl", "ne_size": 60})
        e = ExternalCompton(scene.blob(R), T.make(t), None if r is None else r * u.cm)
        n = NU_EC[[2, 4]]
        compare_ec(ctx, f"default angular grids on {kind}", e.sed_flux(n * u.Hz), t, r, R, n)

    ctx.product("default grids", dict(kind=list(TARGETS)), case)


c10.bounds = (
    "5 targets; per target 9 region dimensions, 1-6 target parameters, distance, rule, angular grids: all configurations "
    "with at most 2 (quick) / 3 (thorough) deviations on live region, target and process, 8 frequencies from below to above "
    "the kinematic range; parametric evaluation on 5 targets x 3 families x 2 rules x 6 viewing angles; 22 positions "
    "relative to the shell; default grids; far-distance limits"
)
c10.assumptions = ["targets whose derived quantities are computed at construction are replaced, not mutated, when these parameters change"]


# ----------------------------------------------------------------------------- C15
def c15(ctx):
    k = 3 if ctx.quick else 99
    dims = dict(scene.REGION, xi=[1.0, 0.037, 8e-4, 5.3], n_p=[None, "p_pl"])
    for n in ("Gamma", "delta_D"):
        dims[n] = scene.REGION[n]
    dims["np_size"] = [25]
    tg = {
        "DT": [(dict(kind="DT", L=2.1e46, xi=0.11, T=1.02e3, R=1.57e19), [0.0, 4.1e17, 2.3e19]), (dict(kind="DT", L=4e43, xi=0.5, T=333.0, R=None), [4.1e18])],
        "PS": [(dict(kind="PS", L=3.3e45, eps=1e-5), [7.7e17])],
        "BLR": [(dict(kind="BLR", L=2.1e46, xi=0.024, line="Lyalpha", R=1.1e17), [4.1e17, 9e18])],
        "Disk": [(dict(kind="Disk", M=1.2e9 * ref.MSUN, L=2.1e46, eta=0.083, Rin=6, Rout=200), [1.7e17])],
    }
    real = {(kd, i): T.make(t) for kd in tg for i, (t, _) in enumerate(tg[kd])}

    def run(c, first):
        def make(cfg):
            b = scene.blob(scene.region(cfg))
            return [b, SpectralConstraints(b)]

        def set_(sut, n, v, cfg):
            scene.set_blob(sut[0], n, v)

        def observe(sut, cfg):
            R = scene.region(cfg)
            s = sut[1]
            mec2, e, sT = ref.MEC2, ref.E_GAUSS, ref.SIGMA_T
            lar = R.R_b * e * R.B / mec2
            c.close("Larmor", s.gamma_max_larmor, lar)
            c.close("ballistic", s.gamma_max_ballistic, R.xi * lar)
            acc = R.xi * ref.C * e * R.B  # acceleration power
            lim = lambda U: np.sqrt(acc / (4 / 3 * sT * ref.C * U))
            brk = lambda U: (mec2 / (4 / 3 * sT * ref.C * U)) / (R.R_b / ref.C)
            c.close("max synchrotron", s.gamma_max_synch, lim(R.U_B))
            c.close("break synchrotron", s.gamma_break_synch, brk(R.U_B))
            if cfg["n_e"] != "empty":
                c.close("max SSC", s.gamma_max_SSC, lim(R.u_ph))
                c.close("break SSC", s.gamma_break_SSC, brk(R.u_ph))
            for kd in tg:
                for i, (t, rs) in enumerate(tg[kd]):
                    for r in rs:
                        U = T.u_density(t, r, (R.Gamma, R.beta))
                        c.close(f"max EC {kd}", s.gamma_max_EC_DT(real[kd, i], r * u.cm), lim(U), rtol=1e-8)
                        c.close(f"break EC {kd}", s.gamma_break_EC_DT(real[kd, i], r * u.cm), brk(U), rtol=1e-8)
            t = tg["DT"][0][0]
            U = T.u_density(t, 0.0, (R.Gamma, R.beta))
            c.close("max EC, default distance", s.gamma_max_EC_DT(real["DT", 0]), lim(U))
            c.close("break EC, default distance", s.gamma_break_EC_DT(real["DT", 0]), brk(U))

        c.walk("constraints", dims, min(k, 4) if not ctx.quick else 2, make, set_, observe, only_first={first}, scales=dict(scene.SCALES, xi=(1e-9, 1e3)))

    ctx.parallel([lambda c, f=f: run(c, f) for f in dims])


c15.bounds = (
    "9 region dimensions and the acceleration coefficient: all configurations with at most 2 (quick) / 4 (thorough) "
    "deviations on a live region; 6 constraints of the region, 2 x 7 target/distance combinations"
)


# ----------------------------------------------------------------------------- C16
BLOBS = {"none": None, "slow": (1.7, 1.4), "base": (9.7, 11.3), "fast": (47.3, 31.0)}


def c16(ctx):
    R_FORMS = {
        "scalar": lambda r: r[0],
        "1-D": lambda r: r,
        "reversed": lambda r: r[::-1],
        "2-D": lambda r: r.reshape(2, -1),
        "column": lambda r: r.reshape(-1, 1),
        "single": lambda r: r[:1],
        "3-D": lambda r: r.reshape(1, 2, -1),
    }
    blobs = {}
    for n, v in BLOBS.items():
        if v is None:
            blobs[n] = (None, None)
        else:
            R = scene.region(dict(Gamma=v[0], delta_D=v[1]))
            blobs[n] = (scene.blob(R), (R.Gamma, R.beta))

    def scale(t):
        k = t["kind"]
        return t["R"] if k == "BLR" else T.R_dt(t) if k == "DT" else T.Disk(t).R_g if k == "Disk" else 1.0

    def run(c, kind):
        dims = {n: v for n, v in TARGETS[kind].items() if n != "r"}
        if kind == "Disk":
            r = np.array([51.0, 960.0, 7.7, 2.1e4])
        elif kind in ("BLR", "DT"):
            r = np.array([1.3, 0.017, 0.5, 0.97, 1.02, 4.4, 300.0, 1e-4])
        else:
            r = np.array([7.7e17, 1.1e15, 4e19, 2e12])

        def case(cfg):
            t = dict(kind=kind, **{n: cfg[n] for n in dims})
            b, gb = blobs[cfg["blob"]]
            o = T.make(t)
            if kind == "CMB":
                c.close("u", o.u(b) if b else o.u(), T.u_density(t, 0.0, gb), unit="erg cm-3")
                return
            x = r * scale(t)
            x = R_FORMS[cfg["form"]](x)
            at(t, o, x, cfg["unit"], b, gb)

        def at(t, o, x, unit, b, gb):
            un = u.Unit(unit)
            q = (x * u.cm).to(un)
            got = o.u(q, b) if b else o.u(q)
            want = T.u_density(t, x, gb)
            g = got.to_value("erg cm-3")
            rt = 1e-6 if kind == "Disk" else 1e-9
            if kind == "BLR" and b is not None:
                # recorded finding: inside the shell the angles of the photons coming from ahead are unsigned
                c.true(np.shape(g) == np.shape(want), f"shape {np.shape(g)} instead of {np.shape(want)}")
                out = x > t["R"]
                c.close("u outside the shell", g[out], want[out], rtol=rt)
                uns = T.u_density(t, x, gb, signed=False)
                ok = np.abs(g - want) <= rt * want
                bad = ~ok & ~out
                if np.any(bad):
                    c.close("u inside the shell", g[bad], uns[bad], rtol=rt)
                    c.fail("u inside the shell is computed with unsigned photon angles", known="blr-u-unsigned-angles")
            else:
                c.close("u", got, want, rtol=rt, unit="erg cm-3")
            c.true(np.all(g > 0), "non-positive energy density")

        forms = ["1-D"] if kind == "CMB" else list(R_FORMS)
        units = ["cm"] if kind == "CMB" else ["cm", "pc", "m", "kpc"]
        c.product(kind, dict(dims, blob=list(BLOBS), form=forms, unit=units), case, flt=(lambda g: True) if not ctx.quick else few(dims))

        if kind != "CMB":
            # distances over all scales, asked together and one by one; bulk motions over all scales
            lo, hi = (11.0, 3e4) if kind == "Disk" else (1e-6, 1e6) if kind in ("BLR", "DT") else (1e8, 1e25)
            t0 = dict(kind=kind, **{n: v[0] for n, v in dims.items()})
            xs = np.geomspace(lo, hi, int((5 if c.quick else 23) * np.log10(hi / lo))) * scale(t0) * 1.0137
            G = np.geomspace(1.03, 1e3, 13 if c.quick else 61)
            moving = {f"{g:.5g}": (scene.blob(scene.region(dict(Gamma=g, delta_D=g))), (g, np.sqrt((g - 1) * (g + 1)) / g)) for g in G.tolist()}
            moving.update(blobs)

            def far(cfg):
                b, gb = moving[cfg["blob"]]
                o = T.make(t0)
                if cfg["together"]:
                    at(t0, o, xs, "cm", b, gb)
                else:
                    for x in xs:
                        at(t0, o, np.array([x]), "cm", b, gb)

            c.product(kind + " scales", dict(blob=list(moving), together=[True, False]), far)

            # live parameters of a live target, and scalings
            def make(cfg):
                return [T.make(dict(kind=kind, **cfg))]

            def set_(sut, name, v, cfg):
                sut[0] = T.set_param(sut[0], dict(kind=kind, **cfg), name, v)

            def observe(sut, cfg):
                t = dict(kind=kind, **cfg)
                x = r * scale(t)
                c.close("u", sut[0].u(x * u.cm), T.u_density(t, x, None), rtol=1e-6 if kind == "Disk" else 1e-9, unit="erg cm-3")

            c.walk(kind + " live", dims, 99, make, set_, observe, scales={n: v for n, v in SCALES[kind].items() if n != "Rin"})

    def few(dims):
        # quick: at most two deviations from the base configuration
        base = {n: v[0] for n, v in dims.items()}
        return lambda cfg: sum(cfg[n] != base[n] for n in dims) + (cfg["form"] != "1-D") + (cfg["unit"] != "cm") <= 3

    ctx.parallel([lambda c, kk=kk: run(c, kk) for kk in TARGETS])


c16.bounds = (
    "5 targets x full products of their parameter alphabets x 4 bulk motions (none to Gamma 47) x 7 array forms x 4 units, "
    "4-8 distances from 1e-4 to 300 times the reprocessing radius (quick: at most 3 deviations besides the motion); live targets"
)
c16.assumptions = ["the energy density of the shell diverges at its own radius, which is not part of the alphabet"]


# ----------------------------------------------------------------------------- C17
def c17(ctx):
    jobs = [c17_disk, c17_lines, c17_dt, c17_sed]
    ctx.parallel([lambda c, j=j: j(c, ctx.quick) for j in jobs])


def c17_disk(ctx, quick):
    dims = dict(
        M=[1.2e9 * ref.MSUN, 3.1e6 * ref.MSUN, 1e8 * ref.MSUN], L=[2.1e46, 4e43, 1e48], eta=[0.083, 0.4, 1 / 12],
        Rin=[6, 3.3, 10.0], Rout=[200, 1741.5, 11], rg_units=[True, False],
        mass_unit=["g", "Msun", "kg"], L_unit=["erg/s", "Lsun", "W"], R_unit=["cm", "au", "pc"],
    )  # fmt: skip

    def case(cfg):
        t = dict(kind="Disk", **{n: cfg[n] for n in ("M", "L", "eta", "Rin", "Rout")})
        d = T.Disk(t)
        M, L = (t["M"] * u.g).to(cfg["mass_unit"]), (t["L"] * T.ERGS).to(cfg["L_unit"])
        if cfg["rg_units"]:
            o = SSDisk(M, L, t["eta"], t["Rin"], t["Rout"], R_g_units=True)
        else:
            un = cfg["R_unit"]
            o = SSDisk(M, L, t["eta"], (d.a * d.R_g * u.cm).to(un), (d.b * d.R_g * u.cm).to(un))
        for n, want, un in [
            ("M_8", d.M8, None), ("L_Edd", d.L_Edd, "erg s-1"), ("l_Edd", d.l_Edd, None), ("m_dot", d.m_dot, "g s-1"),
            ("R_g", d.R_g, "cm"), ("R_in", d.a * d.R_g, "cm"), ("R_out", d.b * d.R_g, "cm"), ("R_in_tilde", d.a, None),
            ("R_out_tilde", d.b, None), ("R_tilde", np.linspace(d.a, d.b, 50), None), ("L_disk", t["L"], "erg s-1"), ("eta", t["eta"], None),
        ]:  # fmt: skip
            ctx.close(n, getattr(o, n), want, unit=un)
        x = np.linspace(d.a, d.b, 23)
        ctx.close("epsilon", o.epsilon(x), d.eps(x))
        ctx.close("epsilon 2-D", o.epsilon(x[:22].reshape(2, 11)), d.eps(x[:22]).reshape(2, 11))
        ctx.close("phi_disk", o.phi_disk(x), d.phi(x), atol=1e-14)
        ctx.close("T", o.T(x[1:] * d.R_g * u.cm), d.T(x[1:] * d.R_g), unit="K", rtol=1e-8)
        ctx.close("T, other unit", o.T((x[1:] * d.R_g * u.cm).to("pc")), d.T(x[1:] * d.R_g), unit="K", rtol=1e-8)
        ctx.close("T scalar", o.T(x[5] * d.R_g * u.cm), d.T(x[5] * d.R_g), unit="K", rtol=1e-8)
        for q in (0.3, 7.7, 4e3):
            mu = d.mu(q * d.R_g, 31)
            ctx.close("mu", SSDisk.evaluate_mu_from_r_tilde(d.a, d.b, q, 31), mu, rtol=1e-12)
            ctx.close("mu default", SSDisk.evaluate_mu_from_r_tilde(d.a, d.b, q), d.mu(q * d.R_g), rtol=1e-12)
            Rt = d.R_of_mu(mu, q * d.R_g)
            ctx.close("epsilon_mu", o.epsilon_mu(mu, q), d.eps(Rt), rtol=1e-8)
            ctx.close("phi_disk_mu", o.phi_disk_mu(mu, q), d.phi(Rt), rtol=1e-6, atol=1e-8)
        ctx.true("%.2e" % d.m_dot in str(o) and "%.2e" % t["L"] in str(o), "printed accretion rate or luminosity")

    base = {n: v[0] for n, v in dims.items()}
    ctx.product("disk", dims, case, flt=lambda g: sum(g[n] != base[n] for n in dims) <= (2 if quick else 4))
    for first in (0, 1):
        ctx.ladder(f"disk {first}", {n: v[first] for n, v in dims.items()}, {n: v for n, v in SCALES["Disk"].items() if n in dims}, case)

    def refused(cfg):
        M, L = 1e8 * u.Msun, 1e45 * T.ERGS
        bad = dict(q=1e15 * u.cm, n=6, f=6.5)
        a, b = bad[cfg["a"]], bad[cfg["b"]]
        ok = (cfg["a"] != "q" and cfg["b"] != "q") if cfg["rg"] else (cfg["a"] == "q" and cfg["b"] == "q")
        if ok:
            SSDisk(M, L, 0.1, a, b, R_g_units=cfg["rg"])
        else:
            ctx.raises("radii", TypeError, lambda: SSDisk(M, L, 0.1, a, b, R_g_units=cfg["rg"]))

    ctx.product("radii", dict(a=["q", "n", "f"], b=["q", "n", "f"], rg=[True, False]), refused)


def c17_lines(ctx, quick):
    def case(cfg):
        o = SphericalShellBLR(1e46 * T.ERGS, 0.1, cfg["line"], 1e17 * u.cm)
        ctx.close("wavelength", o.lambda_line, T.LINES[cfg["line"]], unit="Angstrom", rtol=1e-12)
        ctx.close("energy", o.epsilon_line, T.eps_line(dict(line=cfg["line"])))
        ctx.close("dictionary", lines_dictionary[cfg["line"]]["lambda"], T.LINES[cfg["line"]], unit="Angstrom", rtol=1e-12)

    ctx.product("lines", dict(line=list(T.LINES)), case)
    def printed(cfg):
        import contextlib, io

        f = io.StringIO()
        with contextlib.redirect_stdout(f):
            r = (SphericalShellBLR if cfg["of"] == "class" else SphericalShellBLR(1e46 * T.ERGS, 0.1, "Hgamma", 1e17 * u.cm)).print_lines_list()
        ctx.true(r is None, "nothing is returned")
        text = [x for x in f.getvalue().split("\n") if x]
        names = [x.split(":")[0] for x in text]
        ctx.true(sorted(names) == sorted(T.LINES), f"lines printed: {names}")
        for n, x in zip(names, text):
            ctx.true(n in T.LINES and any(abs(float(w) - T.LINES[n]) < 1e-9 * T.LINES[n] for w in re.findall(r"[0-9.]+(?:e[0-9+-]+)?", x) if w != "."), f"wavelength of {x!r}")

    ctx.product("list of the lines", dict(of=["class"]), printed)
    ctx.product(
        "unknown lines", dict(line=["", "lyalpha", "Ly alpha", "X"]),
        lambda g: ctx.raises("unknown line", NameError, lambda: SphericalShellBLR(1e46 * T.ERGS, 0.1, g["line"], 1e17 * u.cm)),
    )  # fmt: skip


def c17_dt(ctx, quick):
    def case(cfg):
        t = dict(kind="DT", L=cfg["L"], xi=cfg["xi"], T=cfg["T"], R=cfg["R"])
        o = RingDustTorus((t["L"] * T.ERGS).to(cfg["unit"]), t["xi"], (t["T"] * u.K).to(cfg["Tunit"]), None if t["R"] is None else t["R"] * u.cm)
        ctx.close("Theta", o.Theta, T.theta_dt(t))
        ctx.close("epsilon_dt", o.epsilon_dt, T.eps_dt(t))
        ctx.close("R_dt", o.R_dt, T.R_dt(t), unit="cm")
        ctx.close("xi", o.xi_dt, t["xi"])

    ctx.product("torus", dict(L=[2.1e46, 4e43, 1e45], xi=[0.1, 0.6], T=[1e3, 333.0, 2000.0], R=[None, 1e18, 3e19], unit=["erg/s", "Lsun", "W"], Tunit=["K", "mK"]), case)

    ctx.ladder("torus", dict(L=2.1e46, xi=0.1, T=1e3, R=1e18, unit="erg/s", Tunit="K"), {n: v for n, v in SCALES["DT"].items() if n != "r"}, case)
    ctx.ladder("torus of the sublimation radius", dict(L=4e43, xi=0.1, T=333.0, R=None, unit="W", Tunit="K"), {n: SCALES["DT"][n] for n in ("L", "xi", "T")}, case)

    def cmb(cfg):
        o = CMB(cfg["z"])
        t = dict(kind="CMB", z=cfg["z"])
        ctx.close("u_0", o.u_0, T.u_cmb(t), unit="erg cm-3")
        ctx.close("epsilon_0", o.epsilon_0, T.eps_cmb(t))

    ctx.product("CMB", dict(z=[0, 1e-3, 0.31, 1, 7.7]), cmb)
    ctx.ladder("CMB", dict(z=0.31), dict(z=(1e-7, 1e3)), cmb)

    def ps(cfg):
        o = PointSourceBehindJet(cfg["L"] * T.ERGS, cfg["eps"])
        ctx.close("L_0", o.L_0, cfg["L"], unit="erg s-1")
        ctx.close("epsilon_0", o.epsilon_0, cfg["eps"])

    ctx.product("point source", dict(L=[1e40, 3e46], eps=[1e-9, 1e-3]), ps)
    ctx.ladder("point source", dict(L=1e40, eps=1e-3), dict(L=(1e20, 1e60), eps=(1e-20, 1e5)), ps)


def c17_sed(ctx, quick):
    nu = np.array([3.1e9, 2.2e12, 4.1e13, 7.7e14, 5.3e15, 3.9e16, 2.1e18, 6e20])
    forms = {"1-D": nu, "scalar": nu[3], "2-D": nu.reshape(2, 4), "reversed": nu[::-1], "single": nu[4:5]}
    SED = "erg cm-2 s-1"

    def disk(cfg):
        t = dict(kind="Disk", M=cfg["M"], L=cfg["L"], eta=cfg["eta"], Rin=6, Rout=cfg["Rout"])
        o = T.make(t)
        n = forms[cfg["form"]]
        dl = Distance(z=cfg["z"]).to_value("cm")
        want = T.disk_norm_sed(t, n, cfg["z"], dl)
        top = np.max(want)
        kw = dict(unit=SED, rtol=1e-7, atol=top * 1e-40)
        ctx.close("disk SED", o.sed_flux(n * u.Hz, cfg["z"]), want, **kw)
        a = (n * u.Hz, cfg["z"])
        b = (o.M_BH, o.m_dot, o.R_in, o.R_out, dl * u.cm)
        ctx.close("disk normalised SED", SSDisk.evaluate_multi_T_bb_norm_sed(*a, o.L_disk, *b), want, **kw)
        ctx.close("disk SED", SSDisk.evaluate_multi_T_bb_sed(*a, *b), T.disk_sed(t, n, cfg["z"], dl), **kw)
        ctx.close("inclined disk SED", SSDisk.evaluate_multi_T_bb_sed(*a, *b, mu_s=0.73), 0.73 * T.disk_sed(t, n, cfg["z"], dl), **kw)

    dims = dict(M=[1.2e9 * ref.MSUN, 3.1e6 * ref.MSUN], L=[2.1e46, 4e43], eta=[0.083, 0.4], Rout=[200, 1741.5], z=[0.31, 0.01, 2.2], form=list(forms))
    ctx.product("disk SED", dims, disk)
    scales = {n: v for n, v in dict(SCALES["Disk"], z=(1e-7, 12.0)).items() if n in dims}
    for first in (0, 1):
        ctx.ladder(f"disk SED {first}", {n: v[first] for n, v in dims.items()}, scales, disk)

    def dt(cfg):
        t = dict(kind="DT", L=cfg["L"], xi=cfg["xi"], T=cfg["T"], R=cfg["R"])
        o = T.make(t)
        n = forms[cfg["form"]]
        dl = Distance(z=cfg["z"]).to_value("cm")
        want = T.dt_norm_sed(t, n, cfg["z"], dl)
        kw = dict(unit=SED, rtol=1e-8, atol=1e-250)
        ctx.close("torus SED", o.sed_flux(n * u.Hz, cfg["z"]), want, **kw)
        ctx.close("torus black body", RingDustTorus.evaluate_bb_sed(n * u.Hz, cfg["z"], o.T_dt, o.R_dt, dl * u.cm), T.dt_sed(t, n, cfg["z"], dl), **kw)
        ctx.close("torus normalised", RingDustTorus.evaluate_bb_norm_sed(n * u.Hz, cfg["z"], t["xi"] * t["L"] * T.ERGS, o.T_dt, o.R_dt, dl * u.cm), want, **kw)
        if cfg["form"] == "1-D":
            # integral luminosity
            x = np.logspace(9, 17, 4001)
            F = o.sed_flux(x * u.Hz, cfg["z"]).to_value(SED)
            Lum = 4 * np.pi * dl**2 * ref.trapz(F / x, x)
            # the black body is integrated over pi steradians of the area pi R^2
            want = t["xi"] * t["L"]
            if abs(Lum / want - 1) > 1e-3:
                # recorded finding: the factor (1 + z) is missing
                ctx.close("torus luminosity", Lum * (1 + cfg["z"]), want, rtol=1e-3)
                ctx.fail("the luminosity of the normalised torus SED is lower by (1 + z)", known="torus-luminosity-redshift")

    dims = dict(L=[2.1e46, 4e43], xi=[0.11, 0.6], T=[1.02e3, 333.0], R=[1.57e19, None], z=[0.31, 0.01, 2.2, 1e-5], form=list(forms))
    ctx.product("torus SED", dims, dt)
    scales = {n: v for n, v in dict(SCALES["DT"], z=(1e-7, 12.0), T=(3.0, 1e5)).items() if n in dims}
    ctx.ladder("torus SED", {n: v[0] for n, v in dims.items()}, scales, dt)
    del scales["R"]
    ctx.ladder("torus SED, sublimation radius", {n: v[1] for n, v in dims.items()}, scales, dt)


c17.bounds = (
    "disk: 9 dimensions (parameters, units, kind of radii), all configurations with at most 2 (quick) / 4 (thorough) "
    "deviations; 18 kinds of radii; all 25 lines; torus: 324 configurations; thermal SEDs: 240 disk and 240 torus "
    "configurations x 5 array forms of frequencies over the whole Planck law"
)
