"""C15: a converged run returns an equilibrium of the requested plasma."""
from types import SimpleNamespace

import numpy as np
from hypothesis import strategies as st

from checks.c12_radial_profiles import reference, torflux, torflux_d
from vp import eqref, repo, solve
from vp.harness import Prop, check

PROPERTY = "C15"
RULE = ("A case is a generated fixed-boundary problem (see vp/solve.py; in addition aphi flux profiles, nzeta > 1 with ntor = 0, repeated ns values, reversed and shifted poloidal angles, "
        "1-4 threads); converges: well-posed problems (mild shape, low pressure, transform prescribed or driven) must be solved. Non-trivial: converged and asymmetric, three-dimensional or with pressure.")
ASSUMPTIONS = ["fixed boundary; ns <= 13, mpol <= 6, ntor <= 3; outside the well-posed class, problems the solver reports as not converged are skipped and counted",
               "energy stationarity is compared with a bound for the radial discretisation error (1.5 % of the minor radius at ns = 5, falling with 1/(ns-1)); the largest seen is 0.3 %"]
V = None
MU0 = eqref.MU0


def setup():
    global V
    V, _ = repo.full(PROPERTY, [])
    import scipy.interpolate  # noqa: F401


@st.composite
def case(draw):
    d = draw(solve.problem())
    k = draw(st.integers(0, 5))
    if k == 0:
        a = draw(st.integers(-30, 30)) / 100
        d["aphi"] = draw(st.sampled_from([[1 - a, a], [1 - a, 0.0, a], [2 * (1 - a), 2 * a]]))
    if k == 1 and d["ntor"] == 0:
        d["nzeta"] = draw(st.integers(1, 8))
    if k == 2:
        d["ns_array"] = [d["ns_array"][0]] * 2
        d["ftol_array"], d["niter_array"] = [1e-6, d["ftol_array"][-1]], [2000, 2000]
    if k == 3 and d["lasym"]:
        # shift the poloidal angle of the boundary
        dl = draw(st.integers(-12, 12)) / 10
        T = {n: {(q["m"], q["n"]): q["value"] for q in d[n]} for n in ("rbc", "zbs", "rbs", "zbc")}
        o = {n: [] for n in T}
        for m, n in sorted(set().union(*T.values())):
            c, s = np.cos(m * dl), np.sin(m * dl)
            g = lambda x: T[x].get((m, n), 0.0)  # noqa: E731, B023
            for t, v in (("rbc", g("rbc") * c + g("rbs") * s), ("rbs", g("rbs") * c - g("rbc") * s), ("zbs", g("zbs") * c - g("zbc") * s), ("zbc", g("zbc") * c + g("zbs") * s)):
                o[t].append({"m": m, "n": n, "value": float(v)})
        d.update(o)
    d["threads"] = draw(st.sampled_from([1, 1, 2, 3, 4]))
    return d


def curve(c, s, zc, zs, xm, xn, u, v):
    a = xm[:, None, None] * u[None, :, None] - xn[:, None, None] * v[None, None, :]
    C, S = np.cos(a), np.sin(a)
    e = lambda t, F: 0.0 if t is None else np.einsum("m,muv->uv", t, F)  # noqa: E731
    return e(c, C) + e(s, S), e(zs, S) + e(zc, C)


def geom(d):
    """Numbers of modes kept in R, Z."""
    mg, ng = d.get("mpol_geometry", -1), d.get("ntor_geometry", -1)
    return (mg if 1 <= mg < d["mpol"] else d["mpol"]), (ng if 0 <= ng < d["ntor"] else d["ntor"])


def run_honours(c):
    d = dict(c)
    th = d.pop("threads")
    inp, o = solve.converged(V, d, th)
    w, la = o.wout, d["lasym"]
    ns, mp, nt, nf = d["ns_array"][-1], d["mpol"], d["ntor"], d["nfp"]
    close = solve.close
    check((w.ns, w.mpol, w.ntor, w.nfp, bool(w.lasym), bool(w.lfreeb)) == (ns, mp, nt, nf, la, False), "resolution in wout: %s", (w.ns, w.mpol, w.ntor, w.nfp, w.lasym, w.lfreeb))
    check(w.ier_flag == 0, "ier_flag %d", w.ier_flag)
    check(w.ftolv == d["ftol_array"][-1], "ftolv %r", w.ftolv)
    for k in ("fsqr", "fsqz", "fsql"):
        check(0 <= getattr(w, k) <= w.ftolv, "%s = %r after convergence to %r", k, getattr(w, k), w.ftolv)
    for k in ("force_residual_r", "force_residual_z", "force_residual_lambda", "fsqt", "delbsq", "restart_reason_timetrace", "wdot"):
        check(len(getattr(w, k)) == w.itfsq and w.itfsq > 0 and np.isfinite(getattr(w, k)).all(), "history %s", k)
    wd = np.asarray(w.wdot)
    en = wd[0] / np.prod(1 - wd[1:])
    last = w.wb + w.wp / (w.gamma - 1)
    check(abs(en - last) <= 1e-2 * abs(last), "the energy history ends with %r, the energy of the equilibrium is %r", en, last)
    close("fsqt", w.fsqt, np.asarray(w.force_residual_r) + w.force_residual_z + w.force_residual_lambda, tol=1e-14)
    check(0 < w.niter <= d["niter_array"][-1], "niter %d", w.niter)
    # the boundary is the prescribed one, up to the choice of the poloidal angle
    nu = 2 * mp + 6
    u, v = 2 * np.pi * np.arange(nu) / nu + 0.1, 2 * np.pi * np.arange(max(1, 2 * nt + 3)) / max(1, 2 * nt + 3) + 0.2
    xm, xn = np.asarray(w.xm, int), np.asarray(w.xn, int) // nf
    got = curve(w.rmnc[:, -1], w.rmns[:, -1] if la else None, w.zmnc[:, -1] if la else None, w.zmns[:, -1], xm, xn, u, v)
    mg, ng = geom(d)
    for k in ("rmnc", "zmns") + (("rmns", "zmnc") if la else ()):
        check(not np.any(getattr(w, k)[(xm >= mg) | (np.abs(xn) > ng)]), "%s has modes beyond the geometry resolution", k)
    T = {k: np.zeros((mp, 2 * nt + 1)) for k in ("rbc", "zbs", "rbs", "zbc")}
    for k in T:
        for q in (d.get(k) or []) if (la or k in ("rbc", "zbs")) else []:
            if q["m"] < mg and abs(q["n"]) <= ng:
                T[k][q["m"], q["n"] + nt] = q["value"]
    m2, n2 = np.repeat(np.arange(mp), 2 * nt + 1), np.tile(np.arange(-nt, nt + 1), mp)
    fl = {k: t.ravel() for k, t in T.items()}
    dl = np.arctan2(T["rbs"][1, nt] - T["zbc"][1, nt], T["rbc"][1, nt] + T["zbs"][1, nt]) if la else 0.0
    best = np.inf
    size = T["rbc"][0, nt]
    for flip, f in ((False, lambda t: t), (True, lambda t: np.pi - t), (True, lambda t: -t)):
        for shift in {0.0, float(dl), float(-dl)}:
            ref = curve(fl["rbc"], fl["rbs"], fl["zbc"], fl["zbs"], m2, n2, f(u) + shift, v)
            e = max(np.abs(got[0] - ref[0]).max(), np.abs(got[1] - ref[1]).max())
            if e < best:
                best, flipped = e, flip
    check(best <= 1e-11 * size, "the last closed flux surface deviates by %.3g from the prescribed boundary of size %.3g", best, size)
    check(w.signgs == -1, "signgs %r", w.signgs)
    E = eqref.Eq(w, d.get("ntheta", 0), d.get("nzeta", 0))
    check((E.g < 0).all(), "the Jacobian changes sign inside the plasma")
    # flux
    a = d.get("aphi", [1.0])
    tot = torflux(a, 1.0)
    s, sh = E.s, E.sh
    close("phi", w.phi, d["phiedge"] * (2 * np.pi * 0 + 1) * np.concatenate([[0], np.cumsum(torflux_d(a, sh) * np.ones(ns - 1))]) * E.ds / tot, tol=1e-11)
    if len(a) <= 2:  # the midpoint rule is exact
        close("phi at the edge", w.phi[-1], d["phiedge"], tol=1e-11)
    close("phipf", w.phipf, d["phiedge"] * torflux_d(a, s) * np.ones(ns) / tot, tol=1e-11)
    tf = np.minimum(torflux(a, sh), 1.0)
    prof = lambda kind, x, integ=False: np.array([reference(d.get("p%s_type" % kind[0], "power_series"), d.get(kind[1]) or [0.0], d.get(kind[1] + "_aux_s"), d.get(kind[1] + "_aux_f"), integ, y) for y in x])  # noqa: E731
    # iota or current
    if d["ncurr"] == 0:
        close("iota", np.asarray(w.iotas)[1:], prof(("iota", "ai"), tf) * (-1 if flipped else 1), tol=1e-11)
    else:
        edge = prof(("curr", "ac"), [1.0], True)[0]
        bl = d.get("bloat", 1.0)
        want = w.signgs * MU0 * d.get("curtor", 0.0) / (2 * np.pi) * prof(("curr", "ac"), np.minimum(tf * bl, 1.0), True) / prof(("curr", "ac"), [min(bl, 1.0)], True)[0] if edge else np.zeros(ns - 1)
        close("toroidal current inside the surfaces", np.asarray(w.buco)[1:], want, tol=1e-9, scale=np.sqrt(E.guu.max() * E.b2.max()))
    # pressure
    ped = np.minimum(torflux(a, np.minimum(sh, d.get("spres_ped", 1.0))), 1.0)
    if d.get("bloat", 1.0) == 1.0:
        p = prof(("mass", "am"), ped) * d.get("pres_scale", 1.0)
        gam = d.get("gamma", 0.0)
        mass = p * (np.abs(d["phiedge"] / (2 * np.pi) * torflux_d(a, sh) / tot) * size)**gam
        close("mass", np.asarray(w.mass)[1:], mass, tol=1e-11)
        close("pressure", np.asarray(w.pres)[1:], mass / np.abs(E.vp)**gam, tol=1e-9)
    # metadata
    for k, n, pad in (("am", 21, 0.0), ("ac", 21, 0.0), ("ai", 21, 0.0), ("am_aux_s", 101, -1.0), ("am_aux_f", 101, 0.0), ("ac_aux_s", 101, -1.0), ("ac_aux_f", 101, 0.0), ("ai_aux_s", 101, -1.0), ("ai_aux_f", 101, 0.0)):
        src = np.asarray(getattr(inp, k), float)
        x = np.full(n, pad)
        x[:len(src)] = src
        check(np.array_equal(getattr(w, k), x), "wout.%s is not the input", k)
    for k in ("pcurr_type", "pmass_type", "piota_type", "gamma"):
        check(getattr(w, k) == getattr(inp, k), "wout.%s is not the input", k)
    return {"labels": solve.labels(d) + ["flipped" if flipped else "not flipped", "threads%d" % th] + ["aphi"] * ("aphi" in d) + ["shift"] * int(abs(dl) > 0), "nontrivial": solve.nontrivial(d)}


KEYS = "ns mpol ntor nfp lasym signgs xm xn rmnc zmns lmns_full rmns zmnc lmnc_full phipf phips iotas pres mass gamma".split()


def energy(b, nt, nz):
    E = eqref.Eq(b, nt, nz)
    p = np.asarray(b.mass)[1:] * MU0 / np.abs(E.vp)**b.gamma
    return E.ds * (E.mean(np.abs(E.g) * E.b2 / 2) + np.abs(E.vp) * p / (b.gamma - 1)).sum()


@st.composite
def direction(draw):
    d = draw(case())
    d["dir"] = draw(st.lists(st.tuples(st.integers(0, 2**30), st.booleans()), min_size=1, max_size=3))
    return d


def run_stationary(c):
    d = dict(c, ns_array=[max(n, 8) for n in c["ns_array"]])
    th, dirs = d.pop("threads"), d.pop("dir")
    inp, o = solve.converged(V, d, th)
    w, la = o.wout, d["lasym"]
    b = SimpleNamespace(**{k: getattr(w, k) for k in KEYS})
    nt, nz = d.get("ntheta", 0), d.get("nzeta", 0)
    s, a = np.linspace(0, 1, w.ns), w.Aminor_p
    W0 = energy(b, nt, nz)
    mg, ng = geom(d)
    for seed, lam in dirs:
        rng = np.random.default_rng(seed)
        x = {}
        for k in (["lmns_full"] + ["lmnc_full"] * la) if lam else (["rmnc", "zmns"] + ["rmns", "zmnc"] * la):
            x[k] = np.zeros_like(getattr(w, k))
            for mn, (m, n) in enumerate(zip(w.xm, w.xn)):
                co = rng.normal() / (1 + m + abs(n / w.nfp))**2 * (0.3 if lam else a)
                if m == 0 and n == 0 and (lam or k in ("zmns", "rmns")):
                    continue
                if not lam and (m >= mg or abs(n) > ng * w.nfp):
                    continue
                x[k][mn] = co * (s**(m / 2) if not lam or m else s) * (1.0 if lam else 1 - s)
                if lam:
                    x[k][mn, 0] = 0

        def at(e):
            return energy(SimpleNamespace(**{**b.__dict__, **{k: getattr(w, k) + e * t for k, t in x.items()}}), nt, nz)  # noqa: B023
        h = 1e-4
        p, m = at(h), at(-h)
        g, c2 = (p - m) / (2 * h), (p + m - 2 * W0) / h**2
        lim = (0.05 if c.get("aphi") or c.get("gamma") else 0.0225) * 4 / (w.ns - 1)
        check(c2 > 0, "the energy is not at a minimum: its second derivative along a %s perturbation is %.3g", "lambda" if lam else "geometry", c2)
        check(abs(g) <= lim * c2, "the energy is lowered by moving %.3g minor radii along a %s perturbation (limit %.3g)", abs(g / c2), "lambda" if lam else "geometry", lim)
    return {"labels": solve.labels(d) + ["lambda" if q[1] else "geometry" for q in dirs], "nontrivial": solve.nontrivial(d)}


@st.composite
def benign(draw):
    """Well-posed problems: mild shaping, low pressure, many iterations."""
    d = draw(solve.problem(special=False))
    a = [q["value"] for q in d["rbc"] if (q["m"], q["n"]) == (1, 0)][0]
    for k in ("rbc", "zbs", "rbs", "zbc"):
        for q in d[k] or []:
            if (q["m"], q["n"]) == (1, 0) and k == "zbs":
                q["value"] = float(np.sign(q["value"]) * np.clip(abs(q["value"]), 0.9 * a, 1.4 * a))
            elif (k, q["m"], q["n"]) not in (("rbc", 0, 0), ("rbc", 1, 0)):
                q["value"] *= 0.4
    if "pres_scale" in d:
        d["pres_scale"] *= 0.3
    for k in ("raxis_c", "zaxis_s"):
        d.pop(k, None)
    if d.get("curtor") == 0:  # without rotational transform there may be no equilibrium
        d.update(ncurr=0, ai=[0.6, -0.1])
    if draw(st.integers(0, 5)) == 0:
        d["iteration_style"] = "parvmec"
    d["ftol_array"] = [min(1e-8, f * 100) for f in d["ftol_array"]]
    d["niter_array"] = [8000] * len(d["ns_array"])
    d["threads"] = draw(st.integers(1, 4))
    return d


def run_benign(c):
    d = dict(c)
    th = d.pop("threads")
    err = []
    for more in ({}, {"delt": 0.4, "iteration_style": "vmec_8_52"}, {"delt": 0.2, "curtor": 0.7 * d.get("curtor", 0.0)}):
        try:
            o = V.run(solve.make(V, dict(d, **more)), max_threads=th, verbose=False)
            break
        except RuntimeError as e:
            err.append(str(e)[:120])
    check(len(err) < 3, "a well-posed problem was not solved, nor with a smaller time step: %s", "".join(err[:1]))
    check(max(o.wout.fsqr, o.wout.fsqz, o.wout.fsql) <= d["ftol_array"][-1], "the residuals of the result exceed ftol")
    return {"labels": solve.labels(d) + ["threads%d" % th, d.get("iteration_style", "vmec_8_52")] + ["retried"] * bool(err), "nontrivial": True}


PROPS = [
    Prop("converges", benign, run_benign, quick=120, thorough=3000, isolate=True, shards=2, budget=40, thorough_budget=400, timeout=120),
    Prop("honours", case, run_honours, quick=320, thorough=5000, isolate=True, shards=4, budget=80, thorough_budget=700, timeout=120),
    Prop("stationary", direction, run_stationary, quick=240, thorough=4000, isolate=True, shards=4, budget=80, thorough_budget=700, timeout=120),
]
