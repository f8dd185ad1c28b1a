"""C23 geometry, C24 numeric kernels and conversions: every element of finite products of
arguments, against explicit three-dimensional vectors and closed forms."""
import itertools
import warnings
import numpy as np
import astropy.units as u
from astropy.constants import m_e, m_p, m_n, M_sun
from mc import ref, targets
from mc.ref import C, G, H, ME, MP, MEC2, MPC2, E_GAUSS, SIGMA_T
from agnpy.utils import geometry as geo
from agnpy.utils import math as amath
from agnpy.utils import conversion as conv
from agnpy.compton import kernels as kn
from agnpy.synchrotron import synchrotron as sy
from agnpy.absorption import targets_absorption as ab
from agnpy.utils.math import trapz_loglog, power_law_integral, axes_reshaper

LEN = {"cm": 1.0, "pc": u.pc.to("cm"), "km": 1e5, "m": 100.0}


# ------------------------------------------------------------------------------- C23
def _vec(theta_mu, phi, r=1.0):
    s = np.sqrt(np.maximum(1 - np.asarray(theta_mu, float) ** 2, 0))
    return np.array([r * s * np.cos(phi), r * s * np.sin(phi), r * theta_mu + 0 * phi])


def _q(x, unit):
    """number (unit None) or quantity expressing the length x (cm) in `unit`"""
    return x if unit is None else (x / LEN[unit]) * u.Unit(unit)


def c23(ctx):
    t = not ctx.quick
    MU = [-1.0, -0.83, -1e-3, 0.0, 0.31, 0.9, 1 - 1e-9, 1.0] + ([-0.5, 0.62, 0.77, 0.9999] if t else [])
    PHI = [0.0, 0.7, np.pi / 2, 2.3, np.pi, 4.4, 2 * np.pi] + ([1.1, 3.7, 5.5, -0.9] if t else [])
    R = [2.7e17, 6.6e15] + ([1.3e19, 8.1e17] if t else [])
    RR = [1.1e17, 2.7e17, 6.6e15, 3.9e18, 1.7e14]
    UU = [1.3e13, 2.2e17, 6.1e18, 3e21] + ([5.5e16, 1.1e18] if t else [])
    U1 = [None, "cm", "pc"]

    # cosine of the angle between two directions
    def cosp(cfg):
        ms, m, p = cfg["mu_s"], cfg["mu"], cfg["phi"]
        want = (_vec(ms, 0.0) * _vec(m, p)).sum()
        got = geo.cos_psi(ms, m, p)
        ctx.close("cos_psi", got, want, 1e-9, 1e-9)
        ctx.true(abs(got) <= 1 + 1e-12, f"cos_psi {got!r} beyond 1")

    ctx.product("cos_psi", dict(mu_s=MU + [0.97], mu=MU + [1 + 1e-16], phi=PHI), cosp)

    def cosp_arr(cfg):
        # broadcasting: every element as if computed alone
        ms, m, p = [np.asarray(v) for v in (MU, MU, PHI)]
        a, b, d = axes_reshaper(*[(ms, m, p)[i] for i in range(3)])
        args = [a, b, d]
        if cfg["scalar"] is not None:
            args[cfg["scalar"]] = float(np.asarray(args[cfg["scalar"]]).ravel()[1])
        got = geo.cos_psi(*args)
        x = np.broadcast_arrays(*args)
        v = _vec(x[0], 0 * x[2]) * _vec(x[1], x[2])
        ctx.close("cos_psi of arrays", got, v.sum(0), 1e-9, 1e-9)

    ctx.product("cos_psi, arrays", dict(scalar=[None, 0, 1, 2]), cosp_arr)

    # shell, on axis
    def shell(cfg):
        R_, r_ = _q(cfg["R"], cfg["uR"]), _q(cfg["r"], cfg["ur"])
        m = cfg["mu"]
        if m is None:
            m = np.array(MU)
        d = np.array([0, 0, cfg["r"]]).reshape((3,) + (1,) * np.ndim(m)) - _vec(np.asarray(m), 0 * np.asarray(m), cfg["R"])
        x = np.sqrt((d**2).sum(0))
        ok = x > 1e-3 * cfg["R"]
        got = geo.x_re_shell(m, R_, r_)
        gx = got.to_value("cm") if hasattr(got, "unit") else got
        ctx.close("x_re_shell", gx * ok, x * ok, 1e-9, 1e-9 * max(cfg["R"], cfg["r"]))
        if not np.any(ok):
            return
        with np.errstate(all="ignore"):
            want = d[2] / x
            gm = geo.mu_star_shell(m, R_, r_)
        gm = gm.to_value("") if hasattr(gm, "unit") else gm
        ctx.close("mu_star_shell", np.where(ok, gm, 0), np.where(ok, want, 0), 1e-7, 3e-6)
        ctx.true(np.all(np.abs(gm[ok] if np.ndim(gm) else gm) <= 1), "mu_star_shell beyond 1")

    ctx.product(
        "shell on axis",
        dict(R=R, r=RR, mu=MU + [None], uR=U1, ur=U1),
        shell,
        lambda c: (c["uR"] is None) == (c["ur"] is None),
    )

    # ring, on axis
    def ring(cfg):
        R_, r_ = _q(cfg["R"], cfg["uR"]), _q(cfg["r"], cfg["ur"])
        got = geo.x_re_ring(R_, r_)
        got = got.to_value("cm") if hasattr(got, "unit") else got
        ctx.close("x_re_ring", got, np.hypot(cfg["R"], cfg["r"]), 1e-12)
        arr = geo.x_re_ring(R_, np.array([1.0, 3.0]) * r_)
        arr = arr.to_value("cm") if hasattr(arr, "unit") else arr
        ctx.close("x_re_ring of an array", arr, np.hypot(cfg["R"], cfg["r"] * np.array([1, 3])), 1e-12)

    ctx.product("ring on axis", dict(R=R, r=RR, uR=U1, ur=U1), ring, lambda c: (c["uR"] is None) == (c["ur"] is None))

    # off axis
    def tolerances(D, scale):
        # squared distances are sums of terms of both signs: rounding is absolute
        x = np.sqrt((D**2).sum(0))
        return x, 1e-13 * scale**2 / np.maximum(x, 1e-300)

    def off(kind):
        def fn(cfg):
            us = [cfg["uR"], cfg["ur"], cfg["uu"]]
            R_, r_, u_ = _q(cfg["R"], us[0]), _q(cfg["r"], us[1]), _q(cfg["u"], us[2])
            ms, p, m = cfg["mu_s"], cfg["phi"], cfg.get("mu", 0.0)
            if cfg["arr"]:
                p = np.array(PHI).reshape(-1, 1)
                u_ = u_ * np.array([[1.0, 1.7, 0.2]])
            uv = u_.to_value("cm") if hasattr(u_, "unit") else u_
            pos = np.array([0, 0, cfg["r"]]).reshape((3,) + (1,) * np.ndim(uv)) + _vec(ms, 0.0).reshape((3,) + (1,) * np.ndim(uv)) * uv
            el = _vec(np.asarray(m, float) + 0 * p, p, cfg["R"])
            D = pos - el
            x, tol = tolerances(D, cfg["R"] + cfg["r"] + np.asarray(uv))
            ok = x > 1e-3 * cfg["R"]
            if not np.any(ok):
                return
            if kind == "ring":
                gx = geo.x_re_ring_mu_s(R_, r_, p, u_, ms)
                gp, gm = geo.phi_mu_re_ring(R_, r_, p, u_, ms)
            else:
                gx = geo.x_re_shell_mu_s(R_, r_, p, m, u_, ms)
                gp, gm = geo.phi_mu_re_shell(R_, r_, p, m, u_, ms)
            gx = gx.to_value("cm") if hasattr(gx, "unit") else gx
            gp = gp.to_value("rad") if hasattr(gp, "unit") else gp
            gm = gm.to_value("") if hasattr(gm, "unit") else gm
            ctx.close(f"distance to the {kind}", np.where(ok, gx, 0), np.where(ok, x, 0), 1e-9, np.max(np.where(ok, tol, 0)) + 1e-9 * np.min(np.where(ok, x, np.inf)))
            rel = np.max(np.where(ok, tol / x, 0)) + 1e-9
            with np.errstate(all="ignore"):
                mu = D[2] / x
            ctx.close(f"cosine of the photons from the {kind}", np.where(ok, gm, 0), np.where(ok, mu, 0), 0, 10 * rel)
            ctx.true(np.all(np.abs(np.where(ok, gm, 0)) <= 1 + 10 * rel), "cosine beyond 1")
            # the azimuth only matters through its direction, and where there is a transverse part
            rho = np.hypot(D[0], D[1])
            big = ok & (rho > 1e-6 * (cfg["R"] + np.abs(uv)))
            for f, comp in ((np.cos, D[0]), (np.sin, D[1])):
                with np.errstate(all="ignore"):
                    ctx.close(f"azimuth of the photons from the {kind}", np.where(big, f(gp), 0), np.where(big, comp / rho, 0), 1e-8, 1e-7)

        return fn

    unit_sets = [(None,) * 3, ("cm",) * 3, ("pc", "km", "cm"), ("cm", "pc", "m")]
    flt = lambda c: (c["uR"], c["ur"], c["uu"]) in unit_sets and (not c["arr"] or (c["phi"] == PHI[0]))
    common = dict(
        R=R, r=RR[:4] if not t else RR, phi=PHI, u=UU, mu_s=[1.0, 0.97, 0.31, 0.0, 1 - 1e-7, -0.62, -1.0],
        uR=[None, "cm", "pc"], ur=[None, "cm", "km", "pc"], uu=[None, "cm", "m"], arr=[False, True],
    )  # fmt: skip
    jobs = []
    for mu_s in common["mu_s"]:
        jobs.append(lambda c, mu_s=mu_s: _run(c, "ring off axis", dict(common, mu_s=[mu_s]), off("ring"), flt, ctx))
        for R_ in R:
            jobs.append(lambda c, mu_s=mu_s, R_=R_: _run(c, "shell off axis", dict(common, mu_s=[mu_s], R=[R_], mu=MU), off("shell"), flt, ctx))
    # every ratio of the lengths, over sixteen decades
    rat = [1.07 * 10**x for x in np.arange(-8, 8.01, 0.25 if t else 1.0)]
    wide = dict(common, R=[3.1e17], r=[3.1e17 * x for x in rat], u=[3.3e17 * x for x in rat], phi=PHI[:1], uR=["cm"], ur=["cm"], uu=["cm"], arr=[True])
    for mu_s in (1.0, 0.999, 0.2, -0.7):
        jobs.append(lambda c, mu_s=mu_s: _run(c, "ring off axis, scales", dict(wide, mu_s=[mu_s]), off("ring"), None, ctx))
        jobs.append(lambda c, mu_s=mu_s: _run(c, "shell off axis, scales", dict(wide, mu_s=[mu_s], mu=[-1.0, 0.31, 1 - 1e-9]), off("shell"), None, ctx))
    jobs.append(lambda c: _run(c, "shell on axis, scales", dict(R=[3.1e17], r=[3.1e17 * x for x in rat], mu=[None], uR=["cm", "pc"], ur=["cm"]), shell, None, ctx))
    jobs.append(lambda c: _run(c, "ring on axis, scales", dict(R=[3.1e17], r=[3.1e17 * x for x in rat], uR=["cm", "pc"], ur=["cm"]), ring, None, ctx))
    # the closures above compare through `ctx`: they are rebound to the worker's in _run
    ctx.parallel(jobs)


def _run(worker, name, dims, fn, flt, parent):
    """runs a product in a worker: comparisons of `fn` are made through `parent`, which, in the
    forked process, is a private copy; its counter is moved to the worker's"""
    k0, o0 = parent.comparisons, set(parent.outcomes)
    worker.product(name, dims, fn, flt)
    if worker is not parent:
        worker.comparisons += parent.comparisons - k0
        worker.outcomes |= parent.outcomes - o0


c23.bounds = (
    "full products: cos_psi over 9 zenith x 9 zenith x 7 azimuth values (and all broadcasting patterns); shell and ring on "
    "axis over radii x distances x cosines x units of each argument; off axis over radii x distances x azimuths x path "
    "lengths x viewing angles (x cosines of the shell element) x unit sets, as scalars and as broadcast arrays; ratios of the lengths over 16 decades"
)
c23.assumptions = [
    "elements closer than 1e-3 of the radius to the gamma ray are excluded: positions on the element itself have no direction",
    "azimuths are compared where the separation transverse to the axis is not negligible",
]


# ------------------------------------------------------------------------------- C24
def c24(ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            _c24(ctx)


def _piecewise(idx, ratios, y0, zero):
    """nodes and values of a piecewise power law with the given indices; and its integral"""
    x, y = [1.7], [y0]
    for i, q in zip(idx, ratios):
        x.append(x[-1] * q)
        y.append(y[-1] * q**i)
    x, y = np.array(x), np.array(y)
    if zero is not None:
        y[zero] = 0.0
    return x, y


def _exact(x, y, idx):
    s = 0.0
    for j, m in enumerate(idx):
        if y[j] == 0 or y[j + 1] == 0 or x[j] == x[j + 1]:
            continue
        L = np.log(x[j + 1] / x[j])
        t = (m + 1) * L
        s += x[j] * y[j] * L * (1.0 if abs(t) < 1e-13 else np.expm1(t) / t)
    return s


def _c24(ctx):
    t = not ctx.quick
    IDX = [-2.3, -1.0, 0.0, 1.7] + ([-1.0001, -0.5, 3.0, -7.0] if t else [])
    RAT = [1.3, 40.0, 1.0]

    def pl(cfg):
        idx = [cfg[k] for k in ("m0", "m1", "m2")]
        x, y = _piecewise(idx, cfg["ratios"], cfg["y0"], cfg["zero"])
        want = _exact(x, y, idx)
        ctx.close("trapz_loglog", trapz_loglog(y, x), want, 3e-9)
        # axes, dimensions, units
        for axis, shp in ((0, (4, 1, 1)), (1, (1, 4, 1)), (-1, (1, 1, 4)), (2, (1, 1, 4))):
            w = np.array([1.0, 2.5, 0.3]).reshape([3 if i == (axis % 3 + 1) % 3 else 1 for i in range(3)])
            yy = y.reshape(shp) * w
            y_before, x_before = yy.copy(), x.copy()
            got = trapz_loglog(yy, x, axis=axis)
            ctx.close(f"trapz_loglog on axis {axis} of 3", got, (want * np.squeeze(w, axis=axis)), 3e-9)
            ctx.true(np.array_equal(yy, y_before) and np.array_equal(x, x_before), "trapz_loglog modified its input")
            xx = np.broadcast_to(x.reshape(shp), yy.shape).copy()
            ctx.close(f"trapz_loglog with {xx.ndim}-dimensional x", trapz_loglog(yy, xx, axis=axis), (want * np.squeeze(w, axis=axis)), 3e-9)
        for ux, uy in (("cm", "erg"), ("Hz", "1/Hz"), (None, "erg"), ("Hz", None)):
            X = x if ux is None else x * u.Unit(ux)
            Y = y if uy is None else y * u.Unit(uy)
            got = trapz_loglog(Y, X)
            un = u.Unit(ux or "") * u.Unit(uy or "")
            ctx.close("trapz_loglog with units", u.Quantity(got).to_value(un), want, 3e-9)

    rats = [tuple(r) for r in itertools.product(RAT, repeat=3)]
    if not t:
        rats = [r for i, r in enumerate(rats) if i % 3 == 0 or 1.0 in r][:18]

    def job_pl(c, m0):
        c.product(
            "piecewise power laws",
            dict(m0=[m0], m1=IDX, m2=IDX, ratios=rats, y0=[1.0, 3e-40, 7e60], zero=[None, 0, 1, 3] + ([2] if t else [])),
            lambda cfg: pl(cfg),
        )

    # comparisons inside `pl` use ctx: rebind for workers
    def wrap(job):
        def run(c):
            k0, o0 = ctx.comparisons, set(ctx.outcomes)
            job(c)
            if c is not ctx:
                c.comparisons += ctx.comparisons - k0
                c.outcomes |= ctx.outcomes - o0

        return run

    jobs = [wrap(lambda c, m0=m0: job_pl(c, m0)) for m0 in IDX]

    # indices close to -1
    def near(cfg):
        m = -1 + cfg["d"] * cfg["s"]
        x, y = _piecewise([m], [cfg["ratio"]], 2.2, None)
        want = _exact(x, y, [m])
        ctx.close("trapz_loglog close to index -1", trapz_loglog(y, x), want, max(3e-9, 1e-13 / max(cfg["d"], 1e-10)))
        p = -m
        got = power_law_integral(3.3, p, 1.7, 1.7 * cfg["ratio"])
        L = np.log(cfg["ratio"])
        d = (1 - p) * L
        want = 3.3 * 1.7 ** (1 - p) * L * (1.0 if d == 0 else np.expm1(d) / d)
        ctx.close("power_law_integral close to 1", got, want, 1e-3 if abs(1 - p) < 2e-5 else 1e-9)

    jobs.append(
        wrap(
            lambda c: c.product(
                "index -1",
                dict(d=[0.0, 1e-14, 1e-11, 1e-9, 1e-6, 1e-4, 1e-2], s=[1, -1], ratio=[1.001, 2.7, 1e4]),
                near,
            )
        )
    )

    def pli(cfg):
        p, a, b = cfg["p"], cfg["a"], cfg["a"] * cfg["q"]
        k = cfg["k"] if cfg["unit"] is None else cfg["k"] * u.Unit(cfg["unit"])
        want = cfg["k"] * (np.log(b / a) if p == 1 else (b ** (1 - p) - a ** (1 - p)) / (1 - p))
        got = power_law_integral(k, p, a, b)
        ctx.close("power_law_integral", got, want, 1e-9)

    jobs.append(
        wrap(
            lambda c: c.product(
                "power law integral",
                dict(p=[-2, -1, 0, 0.5, 1, 1.0, 2, 2.3, 3, 4.7], a=[1, 17.3, 1e4], q=[1.0, 1.5, 1e3, 1e7], k=[1e-9, 2.2, 5e44], unit=[None, "cm-3"]),
                pli,
            )
        )
    )

    # Compton kernels
    GAM = np.array([1.0, 1.5, 33.0, 2.7e3, 1.1e5, 8e7, 1e9])
    EPS = np.array([1e-14, 3e-9, 1e-5, 2e-2, 0.7, 30.0])
    FR = np.array([1e-16, 1e-9, 1e-4, 0.1, 0.6, 0.99, 1 - 1e-6, 1.3, 1e3])

    def iso(cfg):
        g, e = cfg["g"], cfg["e"]
        es = cfg["f"] * g
        for A in (lambda x: x, lambda x: np.array([x])):
            got = kn.isotropic_kernel(A(g), A(e), A(es))
            Ge = 4 * g * e
            w = es / g
            q = w / (Ge * (1 - w))
            qmin = 1 / (4 * g**2)
            if abs(q / qmin - 1) < 1e-9 or abs(q - 1) < 1e-9:
                return
            want = 0.0
            if qmin <= q <= 1:
                # own writing of Jones' kernel
                want = 2 * q * np.log(q) + 1 + q - 2 * q**2 + 0.5 * (1 - q) * (Ge * q) ** 2 / (1 + Ge * q)
            ctx.close("isotropic Compton kernel", got, A(np.float64(want)), 1e-9, 1e-12)
            ctx.true(np.all(np.asarray(got) >= -1e-15), "negative Compton kernel")
        if 1e-300 < q <= 1:
            ctx.close("F_c", kn.F_c(q, Ge), 2 * q * np.log(q) + 1 + q - 2 * q**2 + 0.5 * (1 - q) * (Ge * q) ** 2 / (1 + Ge * q), 1e-9, 1e-12)

    jobs.append(wrap(lambda c: c.product("isotropic kernel", dict(g=list(GAM), e=list(EPS), f=list(FR)), iso)))

    def ani(cfg):
        g, e, es = cfg["g"], cfg["e"], cfg["f"] * cfg["g"]
        cp = ((_vec(cfg["mu_s"], 0.0)) * _vec(cfg["mu"], cfg["phi"])).sum()
        if 1 - cp < 1e-6:
            return
        om = 1 - cp
        gmin = es / 2 * (1 + np.sqrt(1 + 2 / (e * es * om)))
        ctx.close("minimum Lorentz factor", kn.get_gamma_min(es, e, cfg["mu_s"], cfg["mu"], cfg["phi"]), gmin, 1e-9)
        got = kn.compton_kernel(g, es, e, cfg["mu_s"], cfg["mu"], cfg["phi"])
        arr = kn.compton_kernel(np.array([g, g]), np.array([[es], [es]]), e, cfg["mu_s"], cfg["mu"], np.array([cfg["phi"]] * 2))
        if abs(gmin / g - 1) < 1e-9:
            return
        want = 0.0
        if g > gmin:
            # head-on Klein-Nishina in terms of the electron rest frame energy
            eb = g * e * om
            y = 1 - es / g
            want = y + 1 / y - 2 * es / (g * eb * y) + (es / (g * eb * y)) ** 2
        ctx.close("Compton kernel", got, np.float64(want), 1e-8, 1e-9)
        ctx.close("Compton kernel of arrays", arr, np.full((2, 2), want), 1e-8, 1e-9)
        ctx.true(np.all(got >= 0), "negative Compton kernel")

    for mu_s in (1.0, 0.95, 0.2):
        jobs.append(
            wrap(
                lambda c, mu_s=mu_s: c.product(
                    "angle dependent kernel",
                    dict(g=list(GAM[1:]), e=list(EPS), f=list(FR[:-2]) + [1.3], mu_s=[mu_s], mu=[-1.0, -0.3, 0.6, 0.98, 1.0], phi=[0.0, 1.9, np.pi]),
                    ani,
                )
            )
        )

    # single particle synchrotron functions
    def synch(cfg):
        x = cfg["x"]
        for A in (lambda v: v, lambda v: np.array([[v]])):
            ctx.close("R(x)", sy.R(A(np.float64(x))), A(ref.R_synch(x)), 1e-9)
        # the exact function, within the documented accuracy (0.2%) of the approximation
        m, M = (m_e, ME) if cfg["m"] == "e" else (m_p, MP)
        B, g, e = cfg["B"], cfg["g"], cfg["e"]
        Bq = conv.B_to_cgs(B * u.G)
        xc = 4 * np.pi * e * M**2 * C**3 / (3 * E_GAUSS * B * H * g**2)
        ctx.close("calc_x", sy.calc_x(Bq, e, g, m), xc, 1e-9)
        ctx.close("calc_x of arrays", sy.calc_x(Bq, np.array([[e, 2 * e]]), np.array([[g], [3 * g]]), m), np.array([[xc, 2 * xc], [xc / 9, 2 * xc / 9]]), 1e-9)
        P = np.sqrt(3) * E_GAUSS**3 * B / H * ref.R_synch(xc)
        ctx.close("single particle power", sy.single_particle_synch_power(Bq, e, g, m).cgs, P, 1e-9)
        # peak frequency: the gyration frequency times gamma^2, for any unit of B
        nu = E_GAUSS * B / (2 * np.pi * M * C) * g**2
        for un, f in (("G", 1.0), ("T", 1e-4), ("mG", 1e3), ("uT", 100.0)):
            ctx.close("nu_synch_peak", sy.nu_synch_peak(B * f * u.Unit(un), g, m), nu, 1e-9, unit="Hz")
            ctx.close("B_to_cgs", conv.B_to_cgs(B * f * u.Unit(un)).value, B, 1e-12)
            ctx.close("epsilon_B", sy.epsilon_B(B * f * u.Unit(un)), B / 4.414e13, 1e-9)
        arr = sy.nu_synch_peak(B * u.G, np.array([g, 2 * g]), m)
        ctx.close("nu_synch_peak of an array", arr, np.array([nu, 4 * nu]), 1e-9, unit="Hz")

    for m in "ep":
        jobs.append(
            wrap(
                lambda c, m=m: c.product(
                    "synchrotron functions",
                    dict(x=[1e-30, 1e-9, 1e-3, 0.1, 0.29, 1.0, 7.0, 300.0, 1e4], B=[1e-5, 0.37, 47.0], g=[1.0, 3.3e3, 8e8], e=[1e-16, 2e-6, 5e3], m=[m]),
                    synch,
                )
            )
        )

    # accuracy of the approximation against the defining integral
    def exact_R(cfg):
        from scipy.integrate import quad
        from scipy.special import kv

        x = cfg["x"]
        # CS(x) = (x/2) int_0^pi sin(t) int_{x/sin t}^inf K_5/3
        # = x/2 [ W_{0,4/3} W_{0,1/3} - ...]: closed form of Crusius & Schlickeiser via K
        h = x / 2
        k43, k13 = kv(4 / 3, h), kv(1 / 3, h)
        cs = x**2 / 2 * (k43 * k13 - 0.3 * x * (k43**2 - k13**2))
        ctx.close("R(x) against the exact angle-averaged function", sy.R(x), cs, 5e-3)

    jobs.append(wrap(lambda c: c.product("R against Bessel functions", dict(x=[1e-4, 3e-3, 0.05, 0.29, 1.0, 2.2, 4.0, 8.0, 15.0]), exact_R)))

    def att(cfg):
        got = sy.tau_to_attenuation(np.array([cfg["tau"], 2 * cfg["tau"]]))
        ctx.close("tau_to_attenuation", got, ref.attenuation_ssa(np.array([cfg["tau"], 2 * cfg["tau"]])), 3e-6 if cfg["tau"] < 0.1 else 1e-9)
        ctx.true(np.all((got > 0) & (got <= 1 + 1e-6)) or cfg["tau"] == 0, "attenuation not a probability")

    jobs.append(wrap(lambda c: c.product("self-absorption attenuation", dict(tau=[0.0, 1e-12, 4e-4, 1.1e-3, 2e-3, 0.011, 0.13, 1.0, 3.3, 40.0, 1e3, 1e9, 1e100]), att)))

    # pair production cross section
    def sig(cfg):
        s = np.array([cfg["s"], 4.4, 0.2])
        ctx.close("pair production cross section", ab.sigma(s).to("cm2"), targets.sigma_gg(s), 1e-7 if cfg["s"] > 1 + 1e-4 else 1e-4, 1e-34, unit="cm2")
        ctx.close("pair production cross section, scalar", ab.sigma(np.float64(cfg["s"])).to("cm2"), targets.sigma_gg(cfg["s"]), 1e-7 if cfg["s"] > 1 + 1e-4 else 1e-4, 1e-34, unit="cm2")

    jobs.append(
        wrap(
            lambda c: c.product(
                "pair production",
                dict(s=[0.0, 1e-12, 0.3, 1 - 1e-9, 1.0, 1 + 1e-7, 1.001, 1.4, 2.0, 3.7, 20.0, 1e3, 1e6, 1e9, 1e14, 1e17, 1e25]),
                sig,
            )
        )
    )

    # conversions
    def convs(cfg):
        nu, z, d = cfg["nu"], cfg["z"], cfg["d"]
        for m, E in ((None, MEC2), (m_e, MEC2), (m_p, MPC2)):
            want = H * nu * (1 + z) / (E * d)
            for un, f in (("Hz", 1.0), ("MHz", 1e-6), ("1/day", 86400.0)):
                kw = {} if m is None else dict(m=m)
                ctx.close("nu_to_epsilon_prime", conv.nu_to_epsilon_prime(nu * f * u.Unit(un), z, d, **kw).to_value(""), want, 1e-9)
            a = conv.nu_to_epsilon_prime(np.array([[nu], [2 * nu]]) * u.Hz, z, d, **({} if m is None else dict(m=m)))
            ctx.close("nu_to_epsilon_prime of an array", a.to_value(""), np.array([[want], [2 * want]]), 1e-9)
            eq = conv.epsilon_equivalency(**({} if m is None else dict(m=m)))
            ctx.close("frequency to energy", (nu * u.Hz).to_value("", equivalencies=eq), H * nu / E, 1e-9)
            ctx.close("energy to frequency", (H * nu / E * u.Unit("")).to_value("Hz", equivalencies=eq), nu, 1e-9)
        if z == 0 and d == 1:
            ctx.close("default frame", conv.nu_to_epsilon_prime(nu * u.Hz).to_value(""), H * nu / MEC2, 1e-9)
        ctx.raises("another mass", ValueError, lambda: conv.nu_to_epsilon_prime(nu * u.Hz, z, d, m=m_n))

    jobs.append(wrap(lambda c: c.product("frequency conversions", dict(nu=[1e5, 3.3e14, 2e30], z=[0, 0.31, 6.7], d=[1, 0.4, 27.7]), convs)))

    def rg(cfg):
        M = cfg["M"]
        for un in ("g", "kg", "Msun"):
            for ul in LEN:
                got = conv.to_R_g_units((cfg["r"] / LEN[ul]) * u.Unit(ul), (M * u.g).to(un))
                ctx.close("to_R_g_units", got.to_value(""), cfg["r"] * C**2 / (G * M), 1e-9)
        got = conv.to_R_g_units(np.array([1.0, 2.0]) * cfg["r"] * u.cm, M * u.g)
        ctx.close("to_R_g_units of an array", got.to_value(""), np.array([1, 2]) * cfg["r"] * C**2 / (G * M), 1e-9)

    jobs.append(wrap(lambda c: c.product("gravitational radii", dict(r=[1e12, 2.2e17, 7e21], M=[2e39, 2.4e42]), rg)))

    # reshaping
    def resh(cfg):
        sizes = [s for s in cfg["sizes"]]
        arrs = [np.arange(s) + 10.0 * i for i, s in enumerate(sizes)]
        if cfg["unit"]:
            arrs = [a * u.Hz for a in arrs]
        if cfg["nd"] and arrs:
            arrs[-1] = arrs[-1].reshape(1, -1)
        out = axes_reshaper(*arrs)
        ctx.equal("number of reshaped arrays", len(out), len(arrs))
        for i, (a, o) in enumerate(zip(arrs, out)):
            shp = [1] * len(sizes)
            shp[i] = sizes[i]
            ctx.equal("reshaped shape", o.shape, tuple(shp))
            ctx.true(np.array_equal(np.ravel(a), np.ravel(o)), "values changed by axes_reshaper")
            ctx.true(not cfg["unit"] or o.unit == u.Hz, "unit lost by axes_reshaper")

    sizes = [s for n in (1, 2, 3, 4) for s in itertools.product((1, 2, 5), repeat=n)]
    jobs.append(wrap(lambda c: c.product("axes_reshaper", dict(sizes=sizes, unit=[False, True], nd=[False, True]), resh)))

    def clog(cfg):
        x = cfg["x"]
        got = amath.log(np.array([x, 1.0]))
        want = np.log(x) if x > 0 else np.log(np.finfo(float).tiny)
        ctx.close("log", got, np.array([want, 0.0]), 1e-12)
        ctx.close("log of a scalar", amath.log(x), np.float64(want), 1e-12)

    # every regime of the functions: fine ladders of arguments
    n = 400 if t else 60
    lad = lambda lo, hi: np.logspace(lo, hi, (hi - lo) * n + 1)

    def fine(cfg):
        f = cfg["f"]
        if f == "R(x)":
            x = lad(-40, 2)
            ctx.close(f, sy.R(x), ref.R_synch(x), 1e-9)
        elif f == "attenuation":
            x = lad(-12, 14)
            ctx.close(f, sy.tau_to_attenuation(x), ref.attenuation_ssa(x), np.where(x < 0.1, 3e-6, 1e-9))
        elif f == "cross section":
            s_ = np.concatenate([1 + lad(-4, 0), lad(0, 30)[1:] * 2])
            ctx.close(f, ab.sigma(s_).to("cm2"), targets.sigma_gg(s_), 1e-7, 1e-36, unit="cm2")
            s_ = 1 - lad(-4, 0)
            ctx.close(f + " below the threshold", ab.sigma(s_).to("cm2"), 0 * s_, 0, unit="cm2")
        elif f == "logarithm":
            x = lad(-300, 300)[::7]
            ctx.close(f, amath.log(x), np.log(x), 1e-12)
        elif f == "isotropic kernel":
            g, e = lad(0, 9)[:: n // 6], lad(-16, 3)[:: n // 6]
            w = np.concatenate([lad(-20, 0)[:: n // 10][:-1], 1 - lad(-9, -1)[:: n // 6]])
            g, e, w = g.reshape(-1, 1, 1), e.reshape(1, -1, 1), np.sort(w).reshape(1, 1, -1)
            got = kn.isotropic_kernel(g, e, w * g)
            w = w * g / g  # as rounded
            Ge = 4 * g * e
            q = w / (Ge * (1 - w))
            qmin = 1 / (4 * g**2)
            edge = (np.abs(q / qmin - 1) < 1e-6) | (np.abs(q - 1) < 1e-6)
            want = np.where((q >= qmin) & (q <= 1), 2 * q * np.log(q) + 1 + q - 2 * q**2 + 0.5 * (1 - q) * (Ge * q) ** 2 / (1 + Ge * q), 0)
            ctx.close(f, np.where(edge, 0, got), np.where(edge, 0, want), 1e-7, 1e-9)
        elif f == "angle dependent kernel":
            g, e = lad(0, 9)[1 :: n // 6].reshape(-1, 1, 1), lad(-16, 3)[:: n // 6].reshape(1, -1, 1)
            w = np.concatenate([lad(-20, 0)[:: n // 10][:-1], 1 - lad(-6, -1)[:: n // 6]]).reshape(1, 1, -1)
            es = w * g
            for mu_s, mu, phi in ((1.0, -0.3, 0.7), (0.3, 0.97, 0.05), (0.9999, -1.0, 2.0), (0.6, 0.2, 3.0)):
                om = 1 - (_vec(mu_s, 0.0) * _vec(mu, phi)).sum()
                gmin = es / 2 * (1 + np.sqrt(1 + 2 / (e * es * om)))
                ctx.close("minimum Lorentz factor", kn.get_gamma_min(es, e, mu_s, mu, phi), gmin, 1e-9)
                got = kn.compton_kernel(g, es, e, mu_s, mu, phi)
                eb, y = g * e * om, 1 - es / g
                x = es / (g * eb * y)
                want = np.where(g > gmin, y + 1 / y - 2 * x + x**2, 0)
                edge = np.abs(gmin / g - 1) < 1e-6
                ctx.close(f, np.where(edge, 0, got), np.where(edge, 0, want), 1e-7, 1e-7)
        elif f == "power law integral":
            P = np.round(np.arange(-5, 9, 0.01 if t else 0.05), 6)
            for p_ in P:
                for a, b in ((1.0, 1e7), (17.3, 20.0), (1e4, 3e15)):
                    want = np.log(b / a) if p_ == 1 else (b ** (1 - p_) - a ** (1 - p_)) / (1 - p_)
                    ctx.close(f"{f}, index {p_}", power_law_integral(1.0, p_, a, b), want, 1e-8)
        elif f == "piecewise power laws":
            for m in np.round(np.arange(-12, 12, 0.01 if t else 0.05), 6):
                for q in (1.01, 3.0, 50.0):
                    x, y = _piecewise([m, -m], [q, q], 1.3, None)
                    ctx.close(f"{f}, index {m}", trapz_loglog(y, x), _exact(x, y, [m, -m]), 3e-9)
        elif f == "conversions":
            nu = lad(-5, 40)[:: n // 20]
            for z, d in ((0.0, 1.0), (0.31, 27.7), (1e-9, 1e-3), (1e3, 1e4)):
                ctx.close(f, conv.nu_to_epsilon_prime(nu * u.Hz, z, d).to_value(""), H * nu * (1 + z) / (MEC2 * d), 1e-9)
                ctx.close(f, conv.nu_to_epsilon_prime(nu * u.Hz, z, d, m=m_p).to_value(""), H * nu * (1 + z) / (MPC2 * d), 1e-9)
            B = lad(-12, 15)[:: n // 6]
            ctx.close("fields", conv.B_to_cgs(B * u.T).value, B * 1e4, 1e-12)
            ctx.close("fields", conv.B_to_cgs(B * u.G).value, B, 1e-12)
        elif f == "single particle power":
            for M, m in ((ME, m_e), (MP, m_p)):
                B, g, e = 10.0 ** np.arange(-9, 9, 0.5 if t else 1.5), 10.0 ** np.arange(0, 12, 0.3 if t else 0.7).reshape(-1, 1), 10.0 ** np.arange(-20, 9, 0.5 if t else 0.9)
                for b in B:
                    xc = 4 * np.pi * e * M**2 * C**3 / (3 * E_GAUSS * b * H * g**2)
                    Bq = conv.B_to_cgs(b * u.G)
                    ctx.close("calc_x", sy.calc_x(Bq, e, g, m), xc, 1e-9)
                    P = np.sqrt(3) * E_GAUSS**3 * b / H * ref.R_synch(xc)
                    ctx.close(f, sy.single_particle_synch_power(Bq, e, g, m).cgs, P, 1e-8, 1e-290)

    jobs.append(wrap(lambda c: c.product("fine ladders", dict(f=["R(x)", "attenuation", "cross section", "logarithm", "power law integral", "piecewise power laws", "conversions", "single particle power"]), fine)))
    jobs.append(wrap(lambda c: c.product("fine ladders of kernels", dict(f=["isotropic kernel", "angle dependent kernel"]), fine)))

    jobs.append(wrap(lambda c: c.product("clipped logarithm", dict(x=[0.0, -3.0, 1e-300, 1e-9, 1.0, 2.2, 1e300]), clog)))
    ctx.parallel(jobs)


c24.bounds = (
    "full products: three-segment piecewise power laws (4 indices each, 18 segment-ratio triples with equal abscissae, "
    "3 scales, null samples at each position) x all axes of 1-3 dimensions x units; indices at 0..1e-2 of -1; power-law "
    "integrals 10 indices; kernels over 7 Lorentz factors x 6 energies x 9 scattered fractions (x directions); synchrotron "
    "functions x masses x units; cross section at 17 energies; conversions x units x frames; "
    "ladders of 60 (thorough 400) arguments per decade of every function over its whole range, and 6 per decade of each argument of the kernels"
)
c24.assumptions = [
    "within 1e-10 of index -1 the rule is exact only to the rounding of its closed form",
    "power_law_integral switches to the logarithm within 1e-5 of index 1, where a relative accuracy of 1e-3 is required",
]
