"""C08 synchrotron, C09 synchrotron self-Compton, C14 loss rates"""
import numpy as np
import astropy.units as u
from mc import ref, build, scene
from agnpy.synchrotron import Synchrotron, ProtonSynchrotron
from agnpy.synchrotron import nu_synch_peak
from agnpy.compton import SynchrotronSelfCompton

SED = "erg cm-2 s-1"
REG = dict(scene.REGION, cosmology=["default", "other"])


def live(cls):
    """a process on a live region: sut = [blob, process]"""

    def make(cfg):
        b = scene.blob(scene.region(cfg))
        kw = dict(integrator=build.RULE[cfg["rule"]])
        if "ssa" in cfg:
            kw["ssa"] = cfg["ssa"]
        return [b, cls(b, **kw)]

    def set_(sut, name, v, cfg):
        if name == "rule":
            sut[1].integrator = build.RULE[v]
        elif name == "ssa":
            sut[1].ssa = v
        elif name == "cosmology":
            return make(cfg)
        else:
            scene.set_blob(sut[0], name, v)

    return make, set_


def compare_sed(ctx, label, got, want, rtol, nu):
    """values below 1e-40 of the maximum are compared with that absolute tolerance (exponential
    tails: the last segments of the integrals may start in an underflow)"""
    top = np.max(np.abs(want), initial=0.0)
    ctx.close(label, got, want, rtol=rtol, atol=top * 1e-40 + 1e-250, unit=SED)


NU_S = np.array([3.1e5, 4.7e8, 7.7e10, 2.9e13, 1.3e16, 4.1e18, 6.3e20, 5.1e24])


def c08(ctx):
    k = 2 if ctx.quick else 4
    nu = NU_S * u.Hz

    def electrons(c):
        dims = dict(rule=["trapz", "loglog"], ssa=[False, True], **REG)

        def observe(sut, cfg):
            r = scene.region(cfg)
            b, s = sut
            want = ref.synch_sed(r, NU_S, cfg["ssa"], cfg["rule"])
            rt = 3e-6 if cfg["ssa"] else 1e-8
            compare_sed(c, "SED", s.sed_flux(nu), want, rt, nu)
            args = (r.z, r.d_L * u.cm, r.delta_D, r.B * u.G, r.R_b * u.cm)
            kw = dict(integrator=build.RULE[cfg["rule"]])
            n = b.n_e
            tau = ref.tau_ssa(r, NU_S, cfg["rule"])
            t = Synchrotron.evaluate_tau_ssa(nu, *args, n, *n.parameters, gamma=r.gamma_e, **kw)
            c.close("SSA opacity", t, tau, rtol=1e-8, atol=1e-40 * np.max(tau, initial=0) + 1e-250)
            # parametric evaluation, on the default grid of Lorentz factors
            g = np.logspace(1, 9, 200)
            compare_sed(
                c, "parametric SED", Synchrotron.evaluate_sed_flux(nu, *args, n, *n.parameters, ssa=cfg["ssa"], **kw), ref.synch_sed(r, NU_S, cfg["ssa"], cfg["rule"], g), rt, nu
            )
            compare_sed(c, "delta approximation", s.sed_flux_delta_approx(nu), ref.synch_delta(r, NU_S), 1e-8, nu)

        make, set_ = live(Synchrotron)
        return dims, make, set_, observe

    def protons(c):
        dims = dict(rule=["trapz", "loglog"], **dict(REG, n_p=["p_pl", "p_bpl"]))

        def observe(sut, cfg):
            r = scene.region(cfg)
            b, s = sut
            compare_sed(c, "proton SED", s.sed_flux(nu), ref.synch_sed(r, NU_S, False, cfg["rule"], particle="p"), 1e-8, nu)
            args = (r.z, r.d_L * u.cm, r.delta_D, r.B * u.G, r.R_b * u.cm)
            g = np.logspace(1, 9, 200)
            kw = dict(integrator=build.RULE[cfg["rule"]])
            compare_sed(
                c, "parametric proton SED", ProtonSynchrotron.evaluate_sed_flux(nu, *args, b.n_p, *b.n_p.parameters, **kw),
                ref.synch_sed(r, NU_S, False, cfg["rule"], g, "p"), 1e-8, nu,
            )

        make, set_ = live(ProtonSynchrotron)
        return dims, make, set_, observe

    def run(c, which, first):
        dims, make, set_, observe = which(c)
        c.walk(which.__name__, dims, k, make, set_, observe, only_first={first}, scales=scene.SCALES)

    jobs = [lambda c, f=f: run(c, electrons, f) for f in ["rule", "ssa"] + list(REG)]
    jobs += [lambda c, f=f: run(c, protons, f) for f in ["rule"] + list(REG)]
    jobs.append(c08_points)
    ctx.parallel(jobs)


def c08_points(ctx):
    # fine scan of the transition from thick to thin, and of the attenuation threshold
    def thick(cfg):
        r = scene.region({"B": cfg["B"], "n_e": cfg["n_e"]})
        r.ne_size = 60
        n = np.logspace(7, 14, 71) * 1.0317
        b = scene.blob(r)
        tau = ref.tau_ssa(r, n)
        att = Synchrotron(b, ssa=True).sed_flux(n * u.Hz) / Synchrotron(b).sed_flux(n * u.Hz)
        want = ref.attenuation_ssa(tau)
        ctx.close("attenuation", att, want, rtol=3e-6, unit="")
        ctx.true(np.all(att.to_value("") <= 1 + 1e-6) and np.all(att.to_value("") >= 0), "attenuation outside [0, 1]")
        ctx.true((tau < 1e-3).any() and (tau > 30).any(), "the scan does not cover thin and thick regimes")
        ctx.close("defaults", Synchrotron(b).sed_flux(n * u.Hz), ref.synch_sed(r, n), rtol=1e-8, unit=SED)

    ctx.product("thick to thin", dict(B=[0.37, 0.05, 3.0], n_e=["pl", "bpl", "lp", "ecpl"]), thick)

    def peak(cfg):
        m = build.MASS[cfg["particle"]]
        g = np.array([3.0, 77.0, 1e5])
        B = (cfg["B"] * u.G).to(cfg["unit"])
        want = ref.E_GAUSS * cfg["B"] / (2 * np.pi * ref.mass(cfg["particle"]) * ref.C) * g**2
        ctx.close("nu peak", nu_synch_peak(B, g, m), want, unit="Hz")
        if cfg["particle"] == "e":
            ctx.close("nu peak, default mass", nu_synch_peak(B, g), want, unit="Hz")

    ctx.product("peak frequency", dict(B=[1e-3, 0.37, 50], unit=["G", "mG", "T", "nT"], particle=["e", "p"]), peak)

    def full(cfg):
        # the delivered grid sizes
        r = scene.region({"n_e": cfg["n_e"], "n_p": "p_pl", "ne_size": 200, "np_size": 200})
        b = scene.blob(r)
        n = np.logspace(8.3, 25.1, 30)
        compare_sed(ctx, "SED", Synchrotron(b, ssa=True).sed_flux(n * u.Hz), ref.synch_sed(r, n, True), 3e-6, n)
        compare_sed(ctx, "proton SED", ProtonSynchrotron(b).sed_flux(n * u.Hz), ref.synch_sed(r, n, particle="p"), 1e-8, n)

    ctx.product("full size", dict(n_e=["pl", "bpl", "lp"]), full)


c08.bounds = (
    "electrons: 12 dimensions (rule, ssa, distribution families, region attributes, cosmology), protons: 11; all "
    "configurations with at most 2 (quick) / 4 (thorough) deviations, on a live region and process, 8 frequencies from "
    "radio to beyond the cut-off; thick-thin scans of 71 frequencies x 12; default-size grids x 3"
)
c08.assumptions = ["the synchrotron attenuation is 1 below an opacity of 1e-3, as documented in the code"]

NU_C = np.array([2.9e8, 7.7e12, 3.3e17, 4.1e20, 2.3e23, 5.9e25, 1.7e27, 8e29])


def c09(ctx):
    k = 2 if ctx.quick else 4
    nu = NU_C * u.Hz
    dims = dict(rule=["trapz", "loglog"], ssa=[False, True], **{n: v for n, v in REG.items() if n not in ("np_size",)})

    def run(c, first):
        make, set_ = live(SynchrotronSelfCompton)

        def mk(cfg):
            return make(dict(cfg, np_size=9))

        def observe(sut, cfg):
            r = scene.region(cfg)
            want = ref.ssc_sed(r, NU_C, cfg["ssa"], cfg["rule"])
            compare_sed(c, "SSC SED", sut[1].sed_flux(nu), want, 3e-6 if cfg["ssa"] else 1e-8, nu)
            if cfg["n_e"] != "empty" and scene.usual(cfg, dims):
                c.true((want == 0).any() and (want > 0).any(), "no forbidden or no allowed frequency in the alphabet")

        def st(sut, name, v, cfg):
            return set_(sut, name, v, dict(cfg, np_size=9))

        c.walk("ssc", dims, k, mk, st, observe, only_first={first}, scales=scene.SCALES)

    def static(c):
        def case(cfg):
            r = scene.region({"n_e": cfg["n_e"]})
            n = build.dist(r.n_e)
            args = (r.z, r.d_L * u.cm, r.delta_D, r.B * u.G, r.R_b * u.cm)
            kw, g = {}, np.logspace(1, 9, 200)
            if cfg["gamma"]:
                g = kw["gamma"] = np.logspace(1.3, 6.1, 41)
            if cfg["rule"]:
                kw["integrator"] = build.RULE[cfg["rule"]]
            if cfg["ssa"]:
                kw["ssa"] = True
            got = SynchrotronSelfCompton.evaluate_sed_flux(nu, *args, n, *n.parameters, **kw)
            compare_sed(c, "parametric", got, ref.ssc_sed(r, NU_C, cfg["ssa"], cfg["rule"] or "trapz", g), 3e-6, nu)

        c.product("parametric", dict(n_e=["pl", "bpl"], gamma=[False, True], rule=[None, "loglog"], ssa=[False, True]), case)

        def full(cfg):
            r = scene.region({"n_e": cfg["n_e"], "ne_size": 200})
            n = np.logspace(14, 28, 9)
            compare_sed(c, "full size", SynchrotronSelfCompton(scene.blob(r)).sed_flux(n * u.Hz), ref.ssc_sed(r, n), 1e-8, n)

        c.product("full size", dict(n_e=["bpl", "lp"]), full)

    ctx.parallel([lambda c, f=f: run(c, f) for f in dims] + [static])


c09.bounds = (
    "12 dimensions (rule, ssa, families, region attributes, cosmology): all configurations with at most 2 (quick) / 4 "
    "(thorough) deviations on a live region and process; 8 frequencies over Thomson, Klein-Nishina and forbidden regimes; "
    "16 parametric evaluations; default-size grids"
)


def c14(ctx):
    k = 2 if ctx.quick else 3
    g = np.array([1.0, 3.3, 17.0, 444.0, 1.2e4, 7.7e5, 3.3e7, 9e8])
    forms = [("1-D", g), ("reversed", g[::-1].copy()), ("2-D", g.reshape(2, 4)), ("column", g.reshape(-1, 1)), ("float", 444.0), ("0-d", np.array(3.3)), ("np.float64", np.float64(1.2e4)), ("int", 500), ("ints", np.array([2, 30, 100000]))]
    dims = {n: v for n, v in REG.items() if n != "np_size"}
    dims["n_p"] = [None, "p_pl"]

    def run(c, first):
        def make(cfg):
            b = scene.blob(scene.region(cfg))
            return [b, Synchrotron(b), SynchrotronSelfCompton(b)]

        def set_(sut, name, v, cfg):
            if name == "cosmology":
                return make(cfg)
            scene.set_blob(sut[0], name, v)

        def observe(sut, cfg):
            r = scene.region(cfg)
            for label, x in forms:
                x0 = np.array(x, copy=True)
                got = sut[1].electron_energy_loss_rate(x)
                c.close(f"synchrotron loss, {label}", got, ref.loss_synch(r, x), unit="erg s-1")
                c.close(f"Thomson SSC loss, {label}", sut[2].electron_energy_loss_rate_thomson(x), ref.loss_ssc_thomson(r, x), unit="erg s-1")
                c.true(np.array_equal(x0, x), "input modified")
            want = ref.loss_ssc(r, g)
            for label, x in forms:
                if label in ("1-D", "2-D", "reversed", "column"):
                    w = ref.loss_ssc(r, x) if label == "reversed" else want.reshape(np.shape(x))
                else:
                    w = ref.loss_ssc(r, x)
                c.close(f"SSC loss, {label}", sut[2].electron_energy_loss_rate(x), w, unit="erg s-1", rtol=1e-8)
            if cfg["n_e"] != "empty" and scene.usual(cfg, dims):
                full = sut[2].electron_energy_loss_rate(g).to_value("erg s-1")
                tho = sut[2].electron_energy_loss_rate_thomson(g).to_value("erg s-1")
                c.true(np.all(full > 0) and np.all(tho > 0), "loss rate not positive")
                c.true(np.all(np.diff(full / g**2) <= 1e-12 * full[0]), "the suppression decreases with the Lorentz factor")

        c.walk("losses", dims, k, make, set_, observe, only_first={first}, scales=scene.SCALES)

    def thomson(c):
        # well sampled distributions: the suppressed rate tends to the Thomson one from below
        def case(cfg):
            r = scene.region({"n_e": cfg["n_e"], "B": cfg["B"], "ne_size": 400})
            s = SynchrotronSelfCompton(scene.blob(r))
            x = np.array([1e-4, 1.0, 1e2, 1e4, 1e6])
            q = (s.electron_energy_loss_rate(x) / s.electron_energy_loss_rate_thomson(x)).to_value("")
            c.true(np.all(q < 1.06), f"suppressed over Thomson rate {q}")
            c.true(abs(q[0] - 1) < 0.06, f"suppressed over Thomson rate at small Lorentz factors {q[0]}")
            c.true(q[-1] < 0.9, f"no suppression at high Lorentz factors {q}")

        c.product("Thomson limit", dict(n_e=["pl", "bpl", "ecpl", "ecbpl"], B=[0.03, 0.37, 5.0]), case)

    ctx.parallel([lambda c, f=f: run(c, f) for f in dims] + [thomson])


c14.bounds = (
    "9 region dimensions: all configurations with at most 2 (quick) / 3 (thorough) deviations on a live region; Lorentz "
    "factors from 1 to 9e8 in 9 array forms; Thomson limit on 12 regions"
)
c14.assumptions = ["the documented Lorentz factor grid of the suppressed rate is 200 points between 10 and 1e9"]
