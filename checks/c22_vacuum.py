"""C22: the free-boundary vacuum field solves the exterior problem and free-boundary equilibria are consistent with their coils."""
import numpy as np
from hypothesis import strategies as st

from vp import repo, vacref
from vp.harness import Prop, Skip, Violation, check

PROPERTY = "C22"
RULE = ("exterior: a generated toroidal surface (symmetric or not, axisymmetric or 3D), external vacuum field and plasma current; the field returned by the solver must be tangential, carry the prescribed currents and, continued by the "
        "surface current it implies (extinction theorem), cancel the external field at interior points. relation: the same problem with other threads, combined linearly, scaled, reversed, shifted in either angle, mirrored, with lasym, with other field periods, "
        "after other problems and with stored matrices. converge: single helical deformations at high resolution. Non-trivial: the external field has a non-toroidal part / the relation applies.")
ASSUMPTIONS = ["toroidal grid spacing at most about the minor radius (where the accuracy of the field is checked)", "surfaces with deformations up to 15 % of the minor radius", "external field given exactly on the grid points (its interpolation is C21)",
               "an update with stored matrices is compared at unchanged field and geometry only, because it reuses source terms by design"]
V = VX = None
MU0 = vacref.MU0


def setup():
    global V, VX
    V, [VX] = repo.full(PROPERTY, ["vx_nestor"])


@st.composite
def problem(draw, la=None, dim=None):
    la = draw(st.booleans()) if la is None else la
    nt = draw(st.sampled_from([0, 1, 2, 3])) if dim is None else dim
    return {"la": la, "nfp": 1 if nt == 0 and draw(st.booleans()) else draw(st.integers(1, 5)), "mpol": draw(st.integers(5, 8)), "ntor": nt,
            "ntheta": draw(st.sampled_from([0, 18, 20, 23, 24, 30])), "nzeta": 1 if nt == 0 else draw(st.sampled_from([2 * nt + 8, 12, 13, 15, 16, 18])),
            "r0": draw(st.floats(3, 6)), "elong": draw(st.floats(0.7, 1.5)), "shape": draw(st.sampled_from([0.0, 0.05, 0.1, 0.15])), "flat": draw(st.booleans()),
            "seed": draw(st.integers(0, 10 ** 6)), "current": draw(st.sampled_from([0.0, 1e6, -3e5, 2e7])), "fieldseed": draw(st.integers(0, 10 ** 6)),
            "size": draw(st.sampled_from([1.0, 1.0, 0.1, 7.0])), "threads": draw(st.sampled_from([1, 1, 2, 3, 5, 8])), "flip": draw(st.booleans())}


def coeffs(c):
    rng = np.random.default_rng(c["seed"])
    nt, la = c["ntor"], c["la"]
    co = {k: np.zeros((c["mpol"], nt + 1)) for k in vacref.KEYS}
    co["rcc"][0, 0], co["rcc"][1, 0], co["zsc"][1, 0] = c["r0"], 1, c["elong"]
    q = 0 if c["flat"] else min(nt, 2)
    for k in vacref.KEYS:
        y = rng.uniform(-1, 1, size=(3, 3)) * c["shape"] / (1 + np.arange(3)[:, None] ** 2) / (1 + np.arange(3)[None] ** 2)
        if k in ("rsc", "rcs", "zcc", "zss") and not la:
            continue
        co[k][:3, :q + 1] += y[:, :q + 1]
    for k in ("rss", "zss", "rsc", "zsc"):
        co[k][0] = 0
    for k in ("rss", "zss", "rcs", "zcs"):
        co[k][:, 0] = 0
    return {k: v * c["size"] for k, v in co.items()}


def amplitudes(c, seed=None):
    rng = np.random.default_rng(c["fieldseed"] if seed is None else seed)
    a = rng.normal(size=10) * np.array([5, 1, .3, .3, .3, 0, .3, .3, .3, 0])
    if not c["la"]:
        a[6:] = 0
    if c["ntor"] == 0:
        a[[3, 4, 7, 8]] = 0
    return a


def geometry(c, S, co):
    nz, full = S.nZeta, S.nThetaEven
    th, ze = 2 * np.pi * np.arange(S.nThetaEff) / full, 2 * np.pi * np.arange(nz) / nz
    (R, _, _), (Z, _, _) = vacref.surface(co, c["nfp"], th, ze)
    n = np.arange(c["ntor"] + 1)
    C, Sn = np.cos(np.outer(n, ze)), np.sin(np.outer(n, ze))
    return R, Z, np.broadcast_to(ze / c["nfp"], R.shape), co["rcc"][0] @ C + co["rcs"][0] @ Sn, co["zcc"][0] @ C + co["zcs"][0] @ Sn


def solver(c, nestor=True, **kw):
    c = dict(c, **kw)
    return VX.Solver(c["la"], c["nfp"], c["mpol"], c["ntor"], c["ntheta"], c["nzeta"], c["threads"], nestor)


def update(S, co, f, ax, current, skip=0):
    r = S.update([co[k].T.reshape(-1).copy() for k in vacref.KEYS], ax[0], ax[1], current, *[np.ascontiguousarray(x).reshape(-1) for x in f], skip, -1)
    if r["granted"] < 1:
        raise Skip("no threads")
    for k in ("br", "bp", "bz", "bsq"):
        check(np.isfinite(r[k]).all(), "vacuum field not finite (%s)", k)
        r[k] = np.array(r[k]).reshape(-1, S.nZeta)
    r["B"] = np.array([r["br"], r["bp"], r["bz"]])
    return r


def resolved(c):
    """Toroidal spacing of the grid points at most about the minor radius."""
    if c["ntor"] and c["nzeta"] * c["nfp"] < 8 * c["r0"]:
        c = dict(c, nzeta=int(np.ceil(8 * c["r0"] / c["nfp"])) + c["nzeta"] % 2)
    return dict(c, ntheta=max(c["ntheta"], 20), mpol=max(c["mpol"], 6))


def start(c, current=None, **kw):
    c = dict(c, **kw)
    S = solver(c)
    co = coeffs(c)
    R, Z, P, rax, zax = geometry(c, S, co)
    a = amplitudes(c)
    f = vacref.field(a, c["nfp"], c["r0"] * c["size"], R, Z, P)
    r = update(S, co, f, (rax, zax), c["current"] * c["size"] if current is None else current)
    if r["granted"] != c["threads"]:
        raise Skip("threads not granted")
    return S, co, f, (rax, zax), a, r, (R, Z, P)


def labels(c):
    return ["asym" if c["la"] else "sym", "3d" if c["ntor"] else "2d", "threads%d" % c["threads"]] + (["axisymmetric surface"] if c["flat"] or c["shape"] == 0 else []) + \
        (["odd nzeta"] if c["nzeta"] % 2 and c["ntor"] else []) + (["current"] if c["current"] else [])


def run_exterior(c):
    c = resolved(c)
    S, co, f, ax, a, r, (R, Z, P) = start(c)
    B = r["B"]
    # definitions
    scale = np.sqrt(2 * r["bsq"].max())
    check(np.abs(r["bsq"] - 0.5 * (B ** 2).sum(0)).max() <= 1e-10 * r["bsq"].max(), "magnetic pressure is not |B|^2 / 2 of the returned field")
    (R2, Ru, Rv), (Z2, Zu, Zv) = vacref.surface(co, c["nfp"], 2 * np.pi * np.arange(S.nThetaEff) / S.nThetaEven, 2 * np.pi * np.arange(S.nZeta) / S.nZeta)
    N = np.cross(np.array([Ru, 0 * R, Zu]), np.array([Rv, R, Zv]), axis=0)
    check(np.abs((N * B).sum(0)).max() <= 1e-9 * scale * np.abs(N).max(), "total vacuum field crosses the surface: B.n / |B||n| = %.2e", np.abs((N * B).sum(0)).max() / scale / np.abs(N).max())
    full = B if c["la"] else np.array(vacref.unfold(list(B), S.nThetaEven))
    # the currents that the field carries are those prescribed
    nz = S.nZeta
    th, ze = 2 * np.pi * np.arange(S.nThetaEven) / S.nThetaEven, 2 * np.pi * np.arange(nz) / nz
    (FR, FRu, FRv), (FZ, FZu, FZv) = vacref.surface(co, c["nfp"], th, ze)
    bu = (full[0] * FRu + full[2] * FZu).mean() * 2 * np.pi
    bv = (full[0] * FRv + full[1] * FR + full[2] * FZv).mean()
    cur = c["current"] * c["size"]
    lscale = scale * c["size"]
    check(abs(-bu - MU0 * cur) <= 2e-3 * lscale, "toroidal current enclosed by the surface: %.6g, prescribed %.6g", -bu / MU0, cur)
    check(abs(abs(r["bsubu"]) - MU0 * abs(cur)) <= 2e-3 * lscale, "bsubuvac %.6g, prescribed current * mu0 %.6g", r["bsubu"], MU0 * cur)
    rb = a[0] * c["r0"] * c["size"]
    check(abs(abs(r["bsubv"]) - abs(rb)) <= 2e-3 * lscale, "bsubvvac %.6g, R*Bphi of the coils %.6g", r["bsubv"], rb)
    check(abs(bv - rb) <= 2e-3 * lscale, "poloidal current of the field %.6g, of the coils %.6g", bv, rb)
    # extinction at interior points
    pts = [(ax[0][k] + 0.25 * c["size"] * np.cos(t), 2 * np.pi * k / nz / c["nfp"], ax[1][k] + 0.25 * c["size"] * np.sin(t)) for k, t in ((0, 0.3), (nz // 3, 2.0), (nz // 2, 4.0))]
    b = vacref.casing(co, c["nfp"], full, pts)
    ex = np.array([vacref.field(a, c["nfp"], c["r0"] * c["size"], p[0], p[2], p[1]) for p in pts])
    err = np.abs(b + ex).max() / scale
    flat = c["flat"] or c["shape"] == 0 or c["ntor"] == 0
    check(err <= (TOL2 if flat else TOL3), "the field outside the surface does not cancel the external field inside: error %.3g of |B|", err)
    return {"labels": labels(c) + ["err<%g" % next(t for t in (1e-3, 3e-3, 1e-2, 1) if err < t)], "nontrivial": bool(np.abs(a[1:]).max() > 0)}


TOL2, TOL3 = 0.015, 0.02


def close(a, b, tol, what, *args):
    s = max(np.abs(a).max(), np.abs(b).max())
    d = np.abs(a - b).max()
    check(d <= tol * s, what + ": difference %.3g of |B|", *(list(args) + [d / (s or 1)]))


@st.composite
def relation(draw):
    c = draw(problem())
    c["rel"] = draw(st.sampled_from(["threads", "linear", "scale", "asym", "theta", "zeta", "reverse", "partial", "again", "periods", "coils", "mirror"]))
    c["k"] = draw(st.integers(1, 40))
    c["x"] = draw(st.sampled_from([2.0, -1.0, 0.3, 17.0]))
    return c


def shifted(co, ntor, dth, dze):
    """Coefficients of the surface X(theta + dth, zeta + dze)."""
    mp = co["rcc"].shape[0]
    m, n = np.arange(mp)[:, None], np.arange(ntor + 1)[None]
    cm, sm, cn, sn = np.cos(m * dth), np.sin(m * dth), np.cos(n * dze), np.sin(n * dze)

    def sh(cc, ss, sc, cs):
        # cos(m(t+d)) = cos mt cm - sin mt sm ; sin(m(t+d)) = sin mt cm + cos mt sm
        def theta(cx, sx):
            return cx * cm + sx * sm, sx * cm - cx * sm
        ccx, scx = theta(cc, sc)
        csx, ssx = theta(cs, ss)
        # now toroidal: (c?, s?) pairs over n
        def zeta(xc, xs):
            return xc * cn + xs * sn, xs * cn - xc * sn
        ccx, csx = zeta(ccx, csx)
        scx, ssx = zeta(scx, ssx)
        return ccx, ssx, scx, csx
    o = {}
    o["rcc"], o["rss"], o["rsc"], o["rcs"] = sh(co["rcc"], co["rss"], co["rsc"], co["rcs"])
    o["zcc"], o["zss"], o["zsc"], o["zcs"] = sh(co["zcc"], co["zss"], co["zsc"], co["zcs"])
    return o


def run_relation(c):
    rel = c["rel"]
    L = labels(c) + [rel]
    if rel in ("theta", "zeta", "mirror"):
        c = dict(c, la=True)
    if rel == "zeta" and c["ntor"] == 0:
        return {"labels": L, "nontrivial": False}
    S, co, f, ax, a, r, (R, Z, P) = start(c)
    cur = c["current"] * c["size"]
    B, nz = r["B"], S.nZeta
    if rel == "threads":
        r2 = start(c, threads=1)[5]
        close(B, r2["B"], 1e-8, "the field on %d threads differs from that on one", c["threads"])
        close(np.array([r["bsubu"], r["bsubv"]]), np.array([r2["bsubu"], r2["bsubv"]]), 1e-8, "currents on %d threads", c["threads"])
    elif rel == "again":  # another problem in between, then the same again, full update
        co2 = coeffs(dict(c, seed=c["seed"] + 1))
        R2, Z2, P2, rax2, zax2 = geometry(c, S, co2)
        update(S, co2, vacref.field(amplitudes(c, c["fieldseed"] + 1), c["nfp"], c["r0"] * c["size"], R2, Z2, P2), (rax2, zax2), 3e5)
        close(B, update(S, co, f, ax, cur)["B"], 1e-10, "a full update depends on the updates before it")
    elif rel == "partial":  # nothing changed: the stored response matrix and integrals must reproduce the full update
        rp = update(S, co, f, ax, cur, skip=1 + c["k"] % 3)
        close(rp["B"], B, 1e-8, "update with the stored response matrix at unchanged geometry and field differs from the full update")
        close(np.array([rp["bsubu"], rp["bsubv"]]), np.array([r["bsubu"], r["bsubv"]]), 1e-8, "currents of the partial update")
    elif rel == "linear":
        a2 = amplitudes(c, c["fieldseed"] + 3)
        f2 = vacref.field(a2, c["nfp"], c["r0"] * c["size"], R, Z, P)
        x, y = c["x"], 0.7
        r2 = update(solver(c), co, f2, ax, -0.4 * cur)
        r3 = update(solver(c), co, [x * p + y * q for p, q in zip(f, f2)], ax, x * cur - 0.4 * y * cur)
        s = max(np.abs(x * B).max(), np.abs(r2["B"]).max(), np.abs(r3["B"]).max())
        d = np.abs(x * B + y * r2["B"] - r3["B"]).max()
        check(d <= 1e-8 * s, "the vacuum field is not linear in the external field and the current: %.3g", d / s)
    elif rel == "scale":
        x = abs(c["x"])
        r2 = update(solver(c), {k: v * x for k, v in co.items()}, f, (ax[0] * x, ax[1] * x), cur * x)
        close(B, r2["B"], 1e-8, "scaling all lengths by %g changed the field", x)
        close(np.array([r["bsubu"], r["bsubv"]]) * x, np.array([r2["bsubu"], r2["bsubv"]]), 1e-8, "currents of the scaled problem")
    elif rel == "reverse":
        r2 = update(solver(c), co, [-x for x in f], ax, -cur)
        close(B, -r2["B"], 1e-9, "reversing the external field and the current did not reverse the field")
    elif rel == "asym":
        cs = dict(c, la=False)
        S, co, f, ax, a, r, _ = start(cs)
        Sa = VX.Solver(True, c["nfp"], c["mpol"], c["ntor"], c["ntheta"], c["nzeta"], c["threads"], True)
        ca = dict(c, la=True)
        R2, Z2, P2, rax2, zax2 = geometry(ca, Sa, co)
        f2 = vacref.field(a, c["nfp"], c["r0"] * c["size"], R2, Z2, P2)
        r2 = update(Sa, co, f2, (rax2, zax2), cur)
        full = np.array(vacref.unfold(list(r["B"]), S.nThetaEven))
        close(full, r2["B"], 1e-7, "a symmetric problem solved with lasym gives another field")
    elif rel in ("theta", "zeta"):
        nth = S.nThetaEff
        k = c["k"] % (nth if rel == "theta" else nz)
        dth, dze = (2 * np.pi * k / nth, 0.0) if rel == "theta" else (0.0, 2 * np.pi * k / nz)
        co2 = shifted(co, c["ntor"], dth, dze)
        axis = 0 if rel == "theta" else 1
        f2 = [np.roll(np.asarray(x), -k, axis=axis) for x in f]
        ax2 = ax if rel == "theta" else tuple(np.roll(x, -k) for x in ax)
        r2 = update(solver(c), co2, f2, ax2, cur)
        close(np.roll(B, -k, axis=1 + axis), r2["B"], 1e-7, "shifting the origin of %s by %d grid points changed the field", rel, k)
    elif rel == "mirror":  # z -> -z, theta -> -theta keeps the orientation: B -> (-Br, -Bphi, Bz) as a pseudovector
        sg = {"rcc": 1, "rss": -1, "rsc": -1, "rcs": 1, "zcc": -1, "zss": 1, "zsc": 1, "zcs": -1}
        co2 = {k: v * sg[k] for k, v in co.items()}
        nth = S.nThetaEff
        idx = (-np.arange(nth)) % nth
        f2 = [-np.asarray(f[0])[idx], -np.asarray(f[1])[idx], np.asarray(f[2])[idx]]
        r2 = update(solver(c), co2, f2, (ax[0], -ax[1]), cur)
        close(np.array([-B[0][idx], -B[1][idx], B[2][idx]]), r2["B"], 1e-7, "mirroring the problem did not mirror the field")
    elif rel == "periods":  # the same torus described with one field period
        k = c["nfp"]
        if c["ntor"] * k > 6 or nz * k > 40 or k == 1:
            return {"labels": L + ["skipped"], "nontrivial": False}
        c2 = dict(c, nfp=1, ntor=c["ntor"] * k, nzeta=nz * k if c["ntor"] else 1)
        S2 = VX.Solver(c2["la"], 1, c2["mpol"], c2["ntor"], c2["ntheta"], c2["nzeta"], c2["threads"], True)
        co2 = {}
        for q, v in co.items():
            w = np.zeros((c["mpol"], c2["ntor"] + 1))
            w[:, ::k] = v
            co2[q] = w
        k = k if c["ntor"] else 1
        f2 = [np.tile(np.asarray(x), (1, k)) for x in f]
        r2 = update(S2, co2, f2, (np.tile(ax[0], k), np.tile(ax[1], k)), cur)
        close(np.tile(B, (1, 1, k)), r2["B"], 0.04 if c["ntor"] else 1e-8, "the torus described with one field period instead of %d has another field", c["nfp"])
    elif rel == "coils":
        S2 = solver(c, nestor=False)
        r2 = update(S2, co, f, ax, 0.0)
        close(np.array([np.asarray(x) for x in f]), r2["B"], 1e-12, "the coils-only model does not return the field of the coils")
        check(np.abs(r2["bsq"] - 0.5 * (r2["B"] ** 2).sum(0)).max() <= 1e-10 * r2["bsq"].max(), "magnetic pressure of the coils-only model")
    return {"labels": L, "nontrivial": True}


@st.composite
def helical(draw):
    la = draw(st.booleans())
    return {"la": la, "nfp": draw(st.sampled_from([1, 3])), "mode": draw(st.sampled_from([["rcc", 0, 1], ["zcs", 0, 1], ["rcc", 1, 1], ["zsc", 1, 1], ["rss", 1, 1], ["zcs", 1, 1]] + ([["rcs", 1, 1], ["zss", 1, 1], ["rsc", 1, 1], ["zcc", 1, 1]] if la else []))),
            "amp": draw(st.sampled_from([0.05, 0.1])), "threads": 4}


def run_converge(c):
    c = dict(c, mpol=8, ntor=3, ntheta=32, nzeta=36 if c["nfp"] == 1 else 24, r0=4.0, size=1.0, current=0.0)
    S = VX.Solver(c["la"], c["nfp"], 8, 3, 32, c["nzeta"], c["threads"], True)
    co = {k: np.zeros((8, 4)) for k in vacref.KEYS}
    co["rcc"][0, 0], co["rcc"][1, 0], co["zsc"][1, 0] = 4.0, 1.0, 1.2
    k, m, n = c["mode"]
    co[k][m, n] += c["amp"]
    a = np.array([3.0, 0.3])
    R, Z, P, rax, zax = geometry(c, S, co)
    f = vacref.field(a, c["nfp"], 4.0, R, Z, P)
    r = update(S, co, f, (rax, zax), 0.0)
    if r["granted"] != c["threads"]:
        raise Skip("threads not granted")
    full = r["B"] if c["la"] else np.array(vacref.unfold(list(r["B"]), S.nThetaEven))
    pts = [(4, 0.2, 0.1), (3.9, 0.4, -0.2), (4.2, 0.1, 0.3)]
    b = vacref.casing(co, c["nfp"], full, pts)
    ex = np.array([vacref.field(a, c["nfp"], 4.0, p[0], p[2], p[1]) for p in pts])
    err = np.abs(b + ex).max() / np.sqrt(2 * r["bsq"].max())
    L = ["%s_%d%d" % (k, m, n), "err<%g" % next(t for t in (5e-4, 1e-3, 3e-3, 1e-2, 1) if err < t)]
    if err > 8e-4:
        # Known finding: the singular part pairs the two helicities with the wrong metric combination, which leaves up to 0.5 % on helical surfaces (g_uv != 0).
        raise Violation("field error %.2e of |B| on a helical surface (%s_%d%d) does not go away with resolution" % (err, k, m, n), key="nestor-helicity" if err < 8e-3 and (m, n) != (0, 0) else None)
    return {"labels": L, "nontrivial": True}


@st.composite
def metrics(draw):
    nt = draw(st.sampled_from([0, 1, 3, 6, 12]))
    return {"la": draw(st.booleans()), "mpol": draw(st.sampled_from([2, 5, 9, 14])), "ntor": nt, "twist": draw(st.sampled_from([0.3, 0.8, 0.95])), "ratio": draw(st.sampled_from([0.0, 0.5, 2.0])),
            "threads": draw(st.integers(1, 3)), "seed": draw(st.integers(0, 10 ** 6)), "scale": draw(st.sampled_from([1.0, 1e-3, 50.0]))}


GL = np.polynomial.legendre.leggauss(400)


def run_integrals(c):
    """T_l = int t^l / sqrt(q), S_l = int t^l Q / q^(3/2) over -1..1, with q and Q the quadratic forms of the metric along the diagonals."""
    rng = np.random.default_rng(c["seed"])
    ntheta, nzeta = 2 * c["mpol"] + 6, (2 * c["ntor"] + 4 if c["ntor"] else 1)
    n = (ntheta if c["la"] else ntheta // 2 + 1) * nzeta
    a = np.exp(rng.uniform(-1, 1, n) * c["ratio"]) * c["scale"]
    cc = np.exp(rng.uniform(-1, 1, n) * c["ratio"]) * c["scale"]
    b2 = 2 * np.sqrt(a * cc) * rng.uniform(-1, 1, n) * c["twist"]
    A, B2, C = rng.normal(size=(3, n)) * 3
    r = VX.integrals(c["la"], c["mpol"], c["ntor"], ntheta, nzeta, [a, b2, cc, A, B2, C], c["threads"] - 1, c["threads"])
    m = r["n"]
    t, w = GL
    nback = 0
    for sign, kT, kS in ((1, "Tp", "Sp"), (-1, "Tm", "Sm")):
        hi, lo, Hi, Lo = (x[:m, None] for x in (a + sign * b2 + cc, a - sign * b2 + cc, A + sign * B2 + C, A - sign * B2 + C))
        d, D = (cc - a)[:m, None], (C - A)[:m, None]
        q, Q = hi * t * t + 2 * d * t + lo, Hi * t * t + 2 * D * t + Lo
        if q.min() < 1e-3 * (hi + lo).max():
            raise Skip("nearly degenerate metric")
        T, S = np.array(r[kT])[:, :m], np.array(r[kS])[:, :m]
        L = c["mpol"] + c["ntor"] + 2
        check(min(len(T), len(S)) >= L, "%d integrals for mpol=%d ntor=%d", len(S), c["mpol"], c["ntor"])
        nback += int((np.log(lo / hi) * (L - 1) > 23).sum())
        for l in range(L):
            x, y = (w * t ** l / np.sqrt(q)).sum(1), (w * t ** l * Q / q ** 1.5).sum(1)
            sx, sy = (w / np.sqrt(q)).sum(1), (w * (np.abs(Q) + q) / q ** 1.5).sum(1)
            e, f = (np.abs(T[l] - x) / sx).max(), (np.abs(S[l] - y) / sy).max()
            STAT[0], STAT[1] = max(STAT[0], e), max(STAT[1], f)
            check(e <= TOLT, "integral %s of order %d is wrong by %.2e (relative to the one of order 0)", kT, l, e)
            check(f <= TOLS, "integral %s of order %d is wrong by %.2e", kS, l, f)
    return {"labels": ["asym" if c["la"] else "sym", "3d" if c["ntor"] else "2d"] + (["growing recurrence"] if nback else []), "nontrivial": c["twist"] > 0.5}


STAT = [0, 0]
TOLT, TOLS = 1e-7, 1e-5

PROPS = [
    Prop("integrals", metrics, run_integrals, quick=400, thorough=20000, budget=20, thorough_budget=120),
    Prop("exterior", problem, run_exterior, quick=1500, thorough=60000, shards=2, budget=40, thorough_budget=600),
    Prop("relation", relation, run_relation, quick=2000, thorough=60000, shards=3, budget=40, thorough_budget=600),
    Prop("converge", helical, run_converge, quick=40, thorough=80, budget=30, thorough_budget=60),
]
