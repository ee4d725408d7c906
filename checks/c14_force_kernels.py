"""C14: the local force-chain kernels compute the stated geometry, field and force; the MHD force is minus the gradient of the energy."""
import numpy as np
from hypothesis import strategies as st

from vp import repo
from vp.harness import Prop, check

PROPERTY = "C14"
RULE = ("A case is a radial grid, angle grid, 2D/3D, thread split, boundary mode and random torus-like geometry, lambda and pressure. "
        "Oracle: numpy formulas for Jacobian, metric, field, pressure, lambda and constraint force; complex-step derivative of the "
        "discretised energy W for the MHD force (each force component = -dW/dx, +dW for the zeta-derivatives); direct Fourier "
        "projection for the constraint bandpass; thread splits agree with a single thread. Non-trivial: every case (random dense data).")
ASSUMPTIONS = ["Jacobian bounded away from zero, as the solver requires before it computes forces"]
X = None


def setup():
    global X
    X, = repo.modules(PROPERTY, ["vx_kern"])


@st.composite
def case(draw):
    ns = draw(st.integers(3, 14))
    return {"ns": ns, "nt": draw(st.integers(1, max(1, ns // 2))), "free": draw(st.booleans()), "vac": draw(st.booleans()),
            "n3d": draw(st.booleans()), "nznt": draw(st.integers(1, 24)), "seed": draw(st.integers(0, 10**6)), "flip": draw(st.booleans()),
            "noise": draw(st.sampled_from([0.0, 0.02, 0.1, 0.3])), "blend": draw(st.sampled_from(["zero", "one", "profile"]))}


def geometry(c):
    r = np.random.default_rng(c["seed"])
    ns, n = c["ns"], c["nznt"]
    s = np.linspace(0, 1, ns)[:, None]
    sq = np.sqrt(s)
    th = r.uniform(0, 2 * np.pi, n)[None, :]
    a, b = r.uniform(0.4, 1.2, 2)
    e = c["noise"]

    def nz():
        return e * r.uniform(-1, 1, (ns, n))
    sg = -1.0 if c["flip"] else 1.0
    x = {"r1_e": 3 + 0.2 * s + nz(), "r1_o": a * np.cos(th) + 0 * s + nz(), "z1_e": 0.1 * s + nz(), "z1_o": sg * (b * np.sin(th) + nz()),
         "ru_e": nz(), "ru_o": -a * np.sin(th) + nz(), "zu_e": nz(), "zu_o": sg * (b * np.cos(th) + nz())}
    for k in ("rv_e", "rv_o", "zv_e", "zv_o", "lv_e", "lv_o"):
        x[k] = r.uniform(-0.5, 0.5, (ns, n))
    x["lu_e"], x["lu_o"] = 1 + 0.2 * r.uniform(-1, 1, (ns, n)), 0.2 * r.uniform(-1, 1, (ns, n))
    p = {"ds": 1.0 / (ns - 1), "sF": np.sqrt(np.linspace(0, 1, ns)), "sH": np.sqrt((np.arange(ns - 1) + 0.5) / (ns - 1)),
         "pk": r.uniform(0, 2, (ns - 1, n)), "dsi": 0.25}
    return x, p, r


def ref_jac(x, p):
    sH = p["sH"][:, None]
    i = {k: v[:-1] for k, v in x.items()}
    o = {k: v[1:] for k, v in x.items()}
    av = lambda k: 0.5 * (i[k + "_e"] + o[k + "_e"] + sH * (i[k + "_o"] + o[k + "_o"]))  # noqa: E731
    df = lambda k: (o[k + "_e"] - i[k + "_e"] + sH * (o[k + "_o"] - i[k + "_o"])) / p["ds"]  # noqa: E731
    d = {"r12": av("r1"), "ru12": av("ru"), "zu12": av("zu"), "rs": df("r1"), "zs": df("z1")}
    t2 = sum(q["ru_o"] * q["z1_o"] - q["zu_o"] * q["r1_o"] + (q["ru_e"] * q["z1_o"] - q["zu_e"] * q["r1_o"]) / sH for q in (i, o))
    d["tau"] = d["ru12"] * d["zs"] - d["rs"] * d["zu12"] + p["dsi"] * t2
    return d


def ref_metric(x, p, j, three):
    """g_uu, g_uv, g_vv interpolated to the half grid: sqrt(s) factors expanded so that even and odd parts are averaged separately."""
    sH = p["sH"][:, None]
    sF = (p["sF"]**2)[:, None]

    def dot(ab):
        even = odd = cross = 0.0
        for a, b in ab:
            ae, ao, be, bo = (x[k] for k in (a + "_e", a + "_o", b + "_e", b + "_o"))
            even = even + ae * be
            odd = odd + sF * ao * bo
            cross = cross + ae * bo + ao * be
        f = even + odd
        return 0.5 * (f[:-1] + f[1:]) + 0.5 * sH * (cross[:-1] + cross[1:])
    g = {"gsqrt": j["tau"] * j["r12"], "guu": dot([("ru", "ru"), ("zu", "zu")]), "gvv": dot([("r1", "r1")])}
    if three:
        g["gvv"] = g["gvv"] + dot([("rv", "rv"), ("zv", "zv")])
        g["guv"] = dot([("ru", "rv"), ("zu", "zv")])
    else:
        g["guv"] = np.zeros_like(g["guu"])
    return g


def parts(c):
    return [X.sizes(False, 1, 2, 0, 0, 0, c["ns"], c["nt"], t, c["free"]) for t in range(c["nt"])]


def flat(d, lo, hi, keys=None):
    return {k: np.ascontiguousarray(v[lo:hi]).ravel() for k, v in d.items() if keys is None or k in keys}


def cmp(name, got, want, scale, t, lo, n):
    g = np.asarray(got).reshape(-1, n)
    check(g.shape == want.shape, "%s has shape %r", name, g.shape)
    d = np.abs(g - want)
    if not d.size:
        return
    i = np.unravel_index(int(np.argmax(d)), d.shape)
    s = scale if np.isscalar(scale) else scale[i]
    check(np.isfinite(g).all() and d[i] <= s, "%s on thread %d: %r instead of %r at surface %d, point %d", name, t, g[i], want[i], lo + i[0], i[1])


def run_field(c):
    x, p, r = geometry(c)
    n, three = c["nznt"], c["n3d"]
    J = ref_jac(x, p)
    G = ref_metric(x, p, J, three)
    g = np.where(np.abs(G["gsqrt"]) < 0.05, 0.3, G["gsqrt"])
    sH = p["sH"][:, None]
    av = lambda k: 0.5 * (x[k + "_e"][:-1] + x[k + "_e"][1:] + sH * (x[k + "_o"][:-1] + x[k + "_o"][1:]))  # noqa: E731
    B = {"bsupv": av("lu") / g, "bsupu": av("lv") / g if three else np.zeros_like(g)}
    S = {"bsubu": G["guu"] * B["bsupu"] + G["guv"] * B["bsupv"], "bsubv": G["guv"] * B["bsupu"] + G["gvv"] * B["bsupv"]}
    P = 0.5 * (B["bsupu"] * S["bsubu"] + B["bsupv"] * S["bsubv"])
    for t, z in enumerate(parts(c)):
        f0, f1, h0, h1 = z["nsMinF1"], z["nsMaxF1"], z["nsMinH"], z["nsMaxH"]
        a = flat(x, f0, f1)
        a["sqrtSF"], a["sqrtSH"] = p["sF"][f0:f1].copy(), p["sH"][h0:h1].copy()
        out = X.jacobian(a, p["ds"], p["dsi"], n, f0, h0, h1)
        for k in J:
            cmp(k, out[k], J[k][h0:h1], 1e-12 * c["ns"] * 50, t, h0, n)
        a.update(flat(J, h0, h1))
        out = X.metric(a, three, n, f0, h0, h1)
        for k in ("gsqrt", "guu", "gvv") + (("guv",) if three else ()):
            cmp(k, out[k], G[k][h0:h1], 1e-12 * c["ns"] * 100, t, h0, n)
        a["gsqrt"] = g[h0:h1].ravel().copy()
        out = X.bcontra(a, three, n, f0, h0, h1)
        for k in B:
            cmp(k, out[k], B[k][h0:h1], 1e-12 * (1 + np.abs(1 / g).max()), t, h0, n)
        a.update(flat(G, h0, h1, ("guu", "guv", "gvv")))
        a.update(flat(B, h0, h1))
        out = X.bco(a, three)
        for k in S:
            cmp(k, out[k], S[k][h0:h1], 1e-12 * (1 + np.abs(S[k]).max()) * 10, t, h0, n)
        a.update(flat(S, h0, h1))
        cmp("magnetic pressure", X.pressure(a)["p"], P[h0:h1], 1e-11 * (1 + np.abs(P).max()), t, h0, n)
    return {"labels": ["3d" if three else "2d", "threads" if c["nt"] > 1 else "single"]}


def energy(x, p, fu, fv, three):
    J = ref_jac(x, p)
    G = ref_metric(x, p, J, three)
    g = G["gsqrt"]
    return (G["guu"] * fu**2 + 2 * G["guv"] * fu * fv + G["gvv"] * fv**2) / (2 * g) - p["pk"] * g


FORCE = {"armn": ("r1", -1), "azmn": ("z1", -1), "brmn": ("ru", -1), "bzmn": ("zu", -1), "crmn": ("rv", 1), "czmn": ("zv", 1)}


def run_force(c):
    x, p, r = geometry(c)
    n, three, ns = c["nznt"], c["n3d"], c["ns"]
    J = ref_jac(x, p)
    tau_sign = np.sign(np.median(J["tau"]))
    bad = np.abs(J["tau"]) < 0.02
    if bad.any() or (J["r12"] < 0.5).any():
        return {"labels": ["small jacobian"], "nontrivial": False}
    G = ref_metric(x, p, J, three)
    sH = p["sH"][:, None]
    av = lambda k: 0.5 * (x[k + "_e"][:-1] + x[k + "_e"][1:] + sH * (x[k + "_o"][:-1] + x[k + "_o"][1:]))  # noqa: E731
    chip = r.uniform(-1, 1, (ns - 1, 1))
    fv, fu = av("lu"), chip + (av("lv") if three else 0.0)
    g = G["gsqrt"]
    half = dict(J, gsqrt=g, bsupu=fu / g, bsupv=fv / g)
    half["totalPressure"] = (G["guu"] * fu**2 + 2 * G["guv"] * fu * fv + G["gvv"] * fv**2) / (2 * g * g) + p["pk"]
    # -dW/dx for every force component, by complex step; points are independent, surfaces are taken one of three at a time
    want, scale = {}, {}
    h = 1e-30
    for f, (q, sg) in FORCE.items():
        if f[0] == "c" and not three:
            continue
        for par in ("_e", "_o"):
            d = np.zeros((ns, n))
            sc = np.zeros((ns, n))
            for k in range(2):
                y = {a: v.astype(complex) for a, v in x.items()}
                sel = np.arange(ns) % 2 == k
                y[q + par] = y[q + par] + 1j * h * sel[:, None]
                w = energy(y, p, fu, fv, three).imag / h  # contributions per half-grid point
                wm = np.vstack([np.zeros((1, n)), w, np.zeros((1, n))])
                d[sel] = (wm[:-1] + wm[1:])[sel]
                sc[sel] = (np.abs(wm[:-1]) + np.abs(wm[1:]))[sel]
            want[f + par], scale[f + par] = sg * d, sc
    W = np.abs(half["totalPressure"]).max() * (1 + max(np.abs(J[k]).max() for k in ("rs", "zs", "tau"))) * 10 / p["ds"]
    # the derivative above perturbs both neighbours' half-grid cells only through the surface itself: even/odd surfaces never share a cell side
    for t, z in enumerate(parts(c)):
        f0, f1, h0, h1 = z["nsMinF1"], z["nsMaxF1"], z["nsMinH"], z["nsMaxH"]
        lo = z["nsMinF"]
        hi = min(z["nsMaxF"], ns if c["free"] and c["vac"] else ns - 1)
        a = flat(x, f0, f1)
        a.update(flat(half, h0, h1))
        a["sqrtSF"], a["sqrtSH"] = p["sF"][f0:f1].copy(), p["sH"][h0:h1].copy()
        out = X.mhd_force(a, p["ds"], n, lo, f0, h0, h1, hi, three)
        for k in want:
            cmp(k, out[k], want[k][lo:hi], (1e-11 * (scale[k] + 1e-3 * W))[lo:hi], t, lo, n)
    return {"labels": ["3d" if three else "2d", "threads" if c["nt"] > 1 else "single", "sign%+d" % tau_sign,
                       "edge" if c["free"] and c["vac"] else "interior"]}


def run_lambda(c):
    x, p, r = geometry(c)
    n, three, ns = c["nznt"], c["n3d"], c["ns"]
    H = {k: r.uniform(-1, 1, (ns - 1, n)) for k in ("bsubu", "bsubv", "gvv", "guv", "bsupu")}
    H["gsqrt"] = r.uniform(0.3, 1, (ns - 1, n)) * (-1 if c["flip"] else 1)
    bl = {"zero": np.zeros(ns), "one": np.ones(ns), "profile": r.uniform(0, 1, ns)}[c["blend"]]
    lam = r.uniform(0.1, 3)
    pad = lambda a: np.vstack([np.zeros((1, n)), a, np.zeros((1, n))])  # noqa: E731
    mean = lambda a: 0.5 * (pad(a)[:-1] + pad(a)[1:])  # noqa: E731
    q = H["gvv"] / H["gsqrt"]
    alt = mean(q) * x["lu_e"] + mean(q * p["sH"][:, None]) * x["lu_o"]
    if three:
        alt = alt + mean(H["guv"] * H["bsupu"])
    f = -lam * np.ones((ns, 1))
    f[0] = 1.0
    bv = f * ((1 - bl[:, None]) * mean(H["bsubv"]) + bl[:, None] * alt)
    cv = f * mean(H["bsubu"])
    sF = p["sF"][:, None]
    want = {"blmn_e": bv, "blmn_o": bv * sF}
    if three:
        want.update({"clmn_e": cv, "clmn_o": cv * sF})
    for t, z in enumerate(parts(c)):
        f0, f1, h0, h1, lo, hi = (z[k] for k in ("nsMinF1", "nsMaxF1", "nsMinH", "nsMaxH", "nsMinF", "nsMaxFIncludingLcfs"))
        a = flat(x, f0, f1, ("lu_e", "lu_o"))
        a.update(flat(H, h0, h1))
        a.update(sqrtSF=p["sF"][f0:f1].copy(), sqrtSH=p["sH"][h0:h1].copy(), radialBlending=bl[f0:f1].copy())
        out = X.lambda_force(a, lam, three, n, lo, f0, h0, h1, hi)
        for k in want:
            cmp(k, out[k], want[k][lo:hi], 1e-12 * (1 + lam) * 20, t, lo, n)
    return {"labels": ["3d" if three else "2d", c["blend"]]}


def run_constraint(c):
    r = np.random.default_rng(c["seed"])
    n, ns = c["nznt"], c["ns"]
    F = {k: r.uniform(-1, 1, (ns, n)) for k in ("rCon", "rCon0", "zCon", "zCon0", "ruFull", "zuFull", "gCon")}
    sF = np.sqrt(np.linspace(0, 1, ns))
    dr, dz = F["rCon"] - F["rCon0"], F["zCon"] - F["zCon0"]
    eff = dr * F["ruFull"] + dz * F["zuFull"]
    s = sF[:, None]
    want = {"brmn_e": 0.5 + dr * F["gCon"], "bzmn_e": 0.5 + dz * F["gCon"], "frcon_e": F["ruFull"] * F["gCon"], "fzcon_e": F["zuFull"] * F["gCon"]}
    want.update(brmn_o=0.5 + dr * F["gCon"] * s, bzmn_o=0.5 + dz * F["gCon"] * s, frcon_o=want["frcon_e"] * s, fzcon_o=want["fzcon_e"] * s)
    for t, z in enumerate(parts(c)):
        lo, hi, hl, f0, f1 = z["nsMinF"], z["nsMaxF"], z["nsMaxFIncludingLcfs"], z["nsMinF1"], z["nsMaxF1"]
        a = flat(F, lo, hl)
        g = np.asarray(X.constraint_eff(a, n, lo, hl)["gConEff"]).reshape(-1, n)
        k = 1 if lo == 0 else 0  # nothing is defined on the axis
        cmp("gConEff", g[k:], eff[lo + k:hl], 1e-13 * 10, t, lo + k, n)
        a["sqrtSF"] = sF[f0:f1].copy()
        out = X.constraint_add(a, n, lo, f0, hi)
        for q in want:
            cmp(q, out[q], want[q][lo:hi], 1e-13 * 10, t, lo, n)
    return {"labels": ["threads" if c["nt"] > 1 else "single"]}


@st.composite
def dcase(draw):
    ns = draw(st.integers(3, 8))
    mpol, ntor = draw(st.integers(1, 7)), draw(st.integers(0, 5))
    return {"lasym": draw(st.booleans()), "nfp": draw(st.integers(1, 5)), "mpol": mpol, "ntor": ntor, "ntheta": draw(st.integers(0, 2 * mpol + 12)),
            "nzeta": draw(st.integers(0, 2 * ntor + 8)), "ns": ns, "nt": draw(st.integers(1, max(1, ns // 2))), "free": draw(st.booleans()),
            "seed": draw(st.integers(0, 10**6))}


def run_dealias(c):
    r = np.random.default_rng(c["seed"])
    args = (c["lasym"], c["nfp"], c["mpol"], c["ntor"], c["ntheta"], c["nzeta"], c["ns"], c["nt"])
    z = X.sizes(*args, 0, c["free"])
    L, E, K, LE, ns = z["nThetaReduced"], z["nThetaEff"], z["nZeta"], z["nThetaEven"], c["ns"]
    g = r.uniform(-1, 1, (ns, K, E))
    fac, tc = r.uniform(-1, 1, c["mpol"]), r.uniform(0, 2, ns)
    th, ze = 2 * np.pi * np.arange(E) / LE, 2 * np.pi * np.arange(K) / K
    w = np.full(L, 1.0 / (K * (L - 1)))
    w[[0, -1]] /= 2
    if c["lasym"]:
        rev = g[:, (-np.arange(K)) % K][:, :, (-np.arange(LE)) % LE]
        odd, even = 0.5 * (g - rev), 0.5 * (g + rev)
    else:
        odd, even = g, 0 * g
    want = np.zeros_like(g)
    for m in range(1, c["mpol"] - 1):
        for n in range(c["ntor"] + 1):
            sc = 2.0 * (2.0 if n else 1.0)
            for u, v, src in ((np.sin, np.cos, odd), (np.cos, np.sin, odd)) + (((np.cos, np.cos, even), (np.sin, np.sin, even)) if c["lasym"] else ()):
                co = np.einsum("jkl,l,k->j", src[:, :, :L], u(m * th[:L]) * w, v(n * ze), optimize=True)
                want += (tc * co * fac[m] * sc)[:, None, None] * (v(n * ze)[:, None] * u(m * th)[None, :])[None]
    want[0] = 0
    for t in range(c["nt"]):
        z = X.sizes(*args, t, c["free"])
        lo, hi = z["nsMinF"], z["nsMaxF"]
        out = X.dealias(*args, t, c["free"], fac, tc[lo:].copy(), g[lo:].ravel().copy())
        cmp("bandpass-filtered constraint force", out, want[lo:hi].reshape(hi - lo, -1), 1e-12 * (1 + c["mpol"] * (c["ntor"] + 1)) * 4, t, lo, K * E)
    return {"labels": ["lasym" if c["lasym"] else "sym"], "nontrivial": c["mpol"] > 2}


PROPS = [
    Prop("field", case, run_field, quick=400, thorough=6000, shards=2, budget=40),
    Prop("force_is_energy_gradient", case, run_force, quick=400, thorough=6000, shards=2, budget=40),
    Prop("lambda_force", case, run_lambda, quick=300, thorough=5000, shards=1, budget=40),
    Prop("constraint", case, run_constraint, quick=200, thorough=3000, shards=1, budget=40),
    Prop("bandpass", dcase, run_dealias, quick=250, thorough=4000, shards=2, budget=40),
]
