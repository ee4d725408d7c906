"""C11: the Fourier transforms of geometry and forces equal the Fourier sums they stand for."""
import numpy as np
from hypothesis import strategies as st

from vp import repo
from vp.harness import Prop, Skip, check

PROPERTY = "C11"
RULE = ("A case is a 3D resolution (symmetric or not), a radial grid, a thread split, boundary/vacuum mode and Fourier or real-space data "
        "(random, single mode, or a decaying spectrum). Oracle: numpy evaluation of the Fourier sums and their derivatives / of the "
        "projection integrals on the angle grid; FFT path = DFT path; each thread sees the same values as a single thread. "
        "Non-trivial: data not all zero and mpol > 1.")
ASSUMPTIONS = []
X = None
FFT_NZ = [16, 20, 24, 28, 32, 36, 40]
FFT_M = [6, 8, 10, 12, 14, 16, 18]
GEO = [q + p for q in ("r1", "ru", "rv", "z1", "zu", "zv", "lu", "lv") for p in ("_e", "_o")] + ["rCon", "zCon"]
FOR = [q + p for q in ("armn", "azmn", "blmn", "brmn", "bzmn", "clmn", "crmn", "czmn", "frcon", "fzcon") for p in ("_e", "_o")]


def setup():
    global X
    X, = repo.modules(PROPERTY, ["vx_dft"])


@st.composite
def case(draw):
    how = draw(st.sampled_from(["dft", "dft", "fft", "fft", "asym"]))
    if how == "fft":
        nz, mpol = draw(st.sampled_from(FFT_NZ)), draw(st.sampled_from(FFT_M))
        ntor = draw(st.integers(1, min(nz // 2 - 2, 18)))
        ntheta = draw(st.sampled_from([0, 0, 2 * mpol + 10]))
    else:
        mpol, ntor = draw(st.integers(1, 9)), draw(st.integers(1, 6))
        ntheta = draw(st.integers(0, 2 * mpol + 12))
        nz = draw(st.integers(0, 2 * ntor + 9))
    ns = draw(st.integers(3, 12))
    return {"how": how, "lasym": how == "asym" or (how == "dft" and draw(st.booleans())), "nfp": draw(st.integers(1, 6)), "mpol": mpol,
            "ntor": ntor, "ntheta": ntheta, "nzeta": nz, "ns": ns, "nt": draw(st.integers(1, max(1, ns // 2))), "free": draw(st.booleans()),
            "vac": draw(st.sampled_from(["off", "initializing", "initialized", "active"])),
            "fill": draw(st.sampled_from(["all", "all", "one", "edge", "decay"])), "seed": draw(st.integers(0, 10**6)),
            "pq": draw(st.sampled_from(["vmec", "random"]))}


def threads(c):
    return [X.T(c["lasym"], c["nfp"], c["mpol"], c["ntor"], c["ntheta"], c["nzeta"], c["ns"], c["nt"], t, c["free"]) for t in range(c["nt"])]


def fft(ts):
    if not ts[0].fft_available():
        raise Skip("no FFT kernel for this shape")


def basis(c, z):
    L, K, M, N = z["nThetaReduced"], z["nZeta"], c["mpol"], c["ntor"]
    m, n = np.arange(M), np.arange(N + 1)
    th, ze = 2 * np.pi * np.arange(L) / z["nThetaEven"], 2 * np.pi * np.arange(K) / K
    ms, ns = np.where(m == 0, 1, np.sqrt(2))[:, None], np.where(n == 0, 1, np.sqrt(2))[:, None]
    cu, su = np.cos(np.outer(m, th)) * ms, np.sin(np.outer(m, th)) * ms
    cv, sv = np.cos(np.outer(n, ze)) * ns, np.sin(np.outer(n, ze)) * ns
    return cu, su, cv, sv, m[:, None] * 1.0, n[:, None] * 1.0 * c["nfp"]


def fill(c, r, shape, kind):
    v = r.uniform(-1, 1, shape)
    if kind == "coef":
        M, N1 = shape[1], shape[2]
        if c["fill"] == "one":
            k = np.zeros((M, N1), bool)
            k[r.integers(M), r.integers(N1)] = True
            v = v * k
        elif c["fill"] == "edge":
            k = np.zeros((M, N1), bool)
            k[-1, :] = k[:, -1] = True
            v = v * k
        elif c["fill"] == "decay":
            v = v * np.exp(-np.arange(M)[:, None] - np.arange(N1)[None, :])
    return v


def pq(c, r):
    m = np.arange(c["mpol"])
    return m * (m - 1.0) if c["pq"] == "vmec" else r.uniform(-2, 2, c["mpol"])


def run_real(c):
    r = np.random.default_rng(c["seed"])
    ts = threads(c)
    z0 = ts[0].sizes()
    if c["how"] == "fft":
        fft(ts)
    M, N1, ns = c["mpol"], c["ntor"] + 1, c["ns"]
    xm = pq(c, r)
    sym = c["how"] != "asym"
    names = ("rmncc", "rmnss", "zmnsc", "zmncs", "lmnsc", "lmncs") if sym else ("rmnsc", "rmncs", "zmncc", "zmnss", "lmncc", "lmnss")
    coef = {k: fill(c, r, (ns, M, N1), "coef") for k in names}
    junk = {}
    if c["lasym"]:
        for k in ("rmncc", "rmnss", "zmnsc", "zmncs", "lmnsc", "lmncs", "rmnsc", "rmncs", "zmncc", "zmnss", "lmncc", "lmnss"):
            if k not in coef:
                junk[k] = r.uniform(-1, 1, (ns, M, N1))
    cu, su, cv, sv, mm, nn = basis(c, z0)
    L, K, E = z0["nThetaReduced"], z0["nZeta"], z0["nThetaEff"]

    def mask(a):
        a = a.copy()
        a[0, 2:] = 0
        return a

    def e(a, u, v):  # sum over n -> (ns, m, K, L)
        return np.einsum("jmn,ml,nk->jmkl", mask(a), u, v, optimize=True)

    want = {}
    pairs = {"r": (("cc", cu, cv), ("ss", su, sv)), "z": (("sc", su, cv), ("cs", cu, sv))} if sym else \
            {"r": (("sc", su, cv), ("cs", cu, sv)), "z": (("cc", cu, cv), ("ss", su, sv))}
    pairs["l"] = pairs["z"]
    du = {id(cu): -mm * su, id(su): mm * cu}
    dv = {id(cv): -nn * sv, id(sv): nn * cv}
    sq = np.sqrt(np.arange(ns) / (ns - 1.0))
    for q, (a, b) in pairs.items():
        f = {"": 0, "u": 0, "v": 0}
        for suf, u, v in (a, b):
            x = coef[q + "mn" + suf]
            f[""] = f[""] + e(x, u, v)
            f["u"] = f["u"] + e(x, du[id(u)], v)
            f["v"] = f["v"] + e(x, u, dv[id(v)])
        for d, nm in (("", "1"), ("u", "u"), ("v", "v")):
            if q == "l" and d == "":
                continue
            sgn = -1 if (q, d) == ("l", "v") else 1
            want[q + nm + "_e"] = sgn * f[d][:, 0::2].sum(1)
            want[q + nm + "_o"] = sgn * f[d][:, 1::2].sum(1)
        if q != "l":
            w = f[""] * xm[None, :, None, None]
            want[q + "Con"] = w[:, 0::2].sum(1) + w[:, 1::2].sum(1) * sq[:, None, None]
    scale = (1 + M + c["ntor"] * c["nfp"]) * (1 + np.abs(xm).max()) * M * N1 * 4
    for t, T in enumerate(ts):
        z = T.sizes()
        a, b = z["nsMinF1"], z["nsMaxF1"]
        got = T.to_real(c["how"], {k: v[a:b].ravel() for k, v in {**coef, **junk}.items()}, xm)
        for k in GEO:
            lo, hi = (a, b) if "Con" not in k else (z["nsMinF"], z["nsMaxFIncludingLcfs"])
            g = np.asarray(got[k]).reshape(hi - lo, K, E)
            d = np.abs(g[:, :, :L] - want[k][lo:hi])
            i = np.unravel_index(int(np.argmax(d)), d.shape)
            check(d.max() <= 1e-13 * scale, "%s %s on thread %d/%d: %r instead of %r at surface %d, zeta %d, theta %d", c["how"], k, t, c["nt"],
                  g[i], want[k][lo:hi][i], lo + i[0], i[1], i[2])
            check(not g[:, :, L:].any(), "%s %s: values beyond the reduced poloidal range", c["how"], k)
    return {"labels": [c["how"], c["fill"], "threads" if c["nt"] > 1 else "single"], "nontrivial": M > 1}


def run_fourier(c):
    r = np.random.default_rng(c["seed"])
    ts = threads(c)
    z0 = ts[0].sizes()
    if c["how"] == "fft":
        fft(ts)
    M, N1, ns = c["mpol"], c["ntor"] + 1, c["ns"]
    L, K, E = z0["nThetaReduced"], z0["nZeta"], z0["nThetaEff"]
    xm = pq(c, r)
    F = {k: r.uniform(-1, 1, (ns, K, E)) for k in FOR}
    cu, su, cv, sv, mm, nn = basis(c, z0)
    w = np.full(L, 1.0 / (K * (L - 1)))
    wc = w.copy()
    wc[[0, -1]] /= 2
    cui, sui = cu * wc, su * w
    dcu, dsu = -mm * sui, mm * cui
    dcv, dsv = -nn * sv, nn * cv

    def par(name):  # (ns, m, K, L): the even or odd part for each m
        e, o = F[name + "_e"][:, :, :L], F[name + "_o"][:, :, :L]
        return np.stack([e if m % 2 == 0 else o for m in range(M)], 1)

    x4 = xm[None, :, None, None]
    R, Z = par("armn") + x4 * par("frcon"), par("azmn") + x4 * par("fzcon")

    def pr(f, u, v):
        return np.einsum("jmkl,ml,nk->jmn", f, u, v, optimize=True)

    def full(a, b, cc, u, ud, v, vd):
        s = pr(b, ud, v) - pr(cc, u, vd)
        return s if a is None else s + pr(a, u, v)

    uv = {"cc": (cui, dcu, cv, dcv), "ss": (sui, dsu, sv, dsv), "sc": (sui, dsu, cv, dcv), "cs": (cui, dcu, sv, dsv)}
    sym = c["how"] != "asym"
    rs, zs = (("cc", "ss"), ("sc", "cs")) if sym else (("sc", "cs"), ("cc", "ss"))
    want = {}
    for q, sufs, a, b, cc in (("fr", rs, R, "brmn", "crmn"), ("fz", zs, Z, "bzmn", "czmn"), ("fl", zs, None, "blmn", "clmn")):
        for s in sufs:
            want[q + s] = full(a, par(b), par(cc), *uv[s])
            if q == "fl":
                want[q + s][0] = 0
            else:
                want[q + s][0, 1:] = 0
                if not (c["free"] and c["vac"] in ("initialized", "active")):
                    want[q + s][ns - 1] = 0
    scale = (1 + M + c["ntor"] * c["nfp"]) * (1 + np.abs(xm).max()) * 8
    for t, T in enumerate(ts):
        z = T.sizes()
        lo, hi = z["nsMinF"], z["nsMaxFIncludingLcfs"]
        got = T.to_fourier(c["how"], {k: v[lo:hi].ravel() for k, v in F.items()}, xm, X.vac[c["vac"]])
        for k, v in got.items():
            g = np.asarray(v).reshape(-1, M, N1)
            n = min(len(g), hi - lo)
            check(n >= z["nsMaxF"] - lo, "%s has %d surfaces", k, len(g))
            ref = want[k][lo:lo + n] if k in want else np.zeros_like(g[:n])
            if k.startswith("fl"):
                check(n == hi - lo, "%s has %d surfaces", k, len(g))
            d = np.abs(g[:n] - ref)
            i = np.unravel_index(int(np.argmax(d)), d.shape)
            check(d.max() <= 1e-13 * scale, "%s %s on thread %d/%d: %r instead of %r at surface %d, m=%d, n=%d", c["how"], k, t, c["nt"], g[i],
                  ref[i], lo + i[0], i[1], i[2])
    return {"labels": [c["how"], "vac" if c["free"] and c["vac"] in ("initialized", "active") else "fixed"], "nontrivial": M > 1}


PROPS = [
    Prop("to_real", case, run_real, quick=1000, thorough=8000, shards=6, budget=60, timeout=120),
    Prop("to_fourier", case, run_fourier, quick=1000, thorough=8000, shards=6, budget=60, timeout=120),
]
