"""C10: Fourier basis tables and conversions represent the same function in every basis and layout."""
import numpy as np
from hypothesis import strategies as st

from vp import gen as G
from vp import repo
from vp.harness import Prop, check

PROPERTY = "C10"
RULE = ("A case is a resolution (symmetric or not, nfp, mpol, ntor, ntheta, nzeta), an index layout and a coefficient set (random, "
        "single mode, or only the corner modes). Oracle: direct evaluation of sum f_mn cos/sin(m theta - n zeta) and of the product "
        "form on random angles; closed formulas for the tables; identity after converting there and back. Non-trivial: a "
        "non-zero coefficient.")
ASSUMPTIONS = []
X = None


def setup():
    global X
    X, = repo.modules(PROPERTY, ["vx_basis"])


@st.composite
def case(draw):
    mpol, ntor = draw(st.integers(1, 12)), draw(st.integers(0, 9))
    return {"lasym": draw(st.booleans()), "nfp": draw(st.integers(1, 9)), "mpol": mpol, "ntor": ntor,
            "ntheta": draw(st.integers(0, 3 * mpol + 12)), "nzeta": draw(st.integers(0, 3 * ntor + 10)),
            "layout": draw(st.sampled_from(["FastPoloidal", "FastToroidal"])),
            "nyq": draw(st.booleans()), "fill": draw(st.sampled_from(["all", "all", "one", "corner", "negative_n", "m0"])),
            "seed": draw(st.integers(0, 10**6)), "at": draw(st.integers(0, 10**6))}


def make(c):
    return getattr(X, c["layout"])(c["lasym"], c["nfp"], c["mpol"], c["ntor"], c["ntheta"], c["nzeta"])


def modes(ms, ns):
    return [(0, n) for n in range(ns + 1)] + [(m, n) for m in range(1, ms) for n in range(-ns, ns + 1)]


def run_tables(c):
    b = make(c)
    t = b.tables()
    M, N, L, K = t["mnyq2"] + 1, t["nnyq2"] + 1, t["nThetaReduced"], t["nZeta"]
    ms = np.where(np.arange(M) == 0, 1.0, np.sqrt(2.0))
    ns = np.where(np.arange(N) == 0, 1.0, np.sqrt(2.0))
    check(np.array_equal(t["mscale"], ms) and np.array_equal(t["nscale"], ns), "scale factors")
    m, l = np.meshgrid(np.arange(M), np.arange(L), indexing="ij")
    th = 2 * np.pi * l / t["nThetaEven"]
    ip = np.array([[b.pol(int(i), int(j), M, L) for j in range(L)] for i in range(M)])
    check(sorted(ip.ravel().tolist()) == list(range(M * L)), "poloidal index is not a bijection")
    w = np.full(L, 1.0 / (K * (L - 1)))
    wc = w.copy()
    wc[[0, -1]] /= 2
    want = {"cosmu": np.cos(m * th) * ms[:, None], "sinmu": np.sin(m * th) * ms[:, None]}
    want["cosmum"] = m * want["cosmu"]
    want["sinmum"] = -m * want["sinmu"]
    want["cosmui"] = want["cosmu"] * wc
    want["sinmui"] = want["sinmu"] * w
    want["cosmumi"] = m * want["cosmui"]
    want["sinmumi"] = -m * want["sinmui"]
    for k, v in want.items():
        a = np.asarray(t[k])
        check(a.size == M * L, "size of %s", k)
        d = np.abs(a[ip] - v).max()
        check(d < 1e-11 * (1 + M), "%s is off by %g", k, d)
    n, k_ = np.meshgrid(np.arange(N), np.arange(K), indexing="ij")
    ze = 2 * np.pi * k_ / K
    it = np.array([[b.tor(int(i), int(j), N, K) for j in range(K)] for i in range(N)])
    check(sorted(it.ravel().tolist()) == list(range(N * K)), "toroidal index is not a bijection")
    want = {"cosnv": np.cos(n * ze) * ns[:, None], "sinnv": np.sin(n * ze) * ns[:, None]}
    want["cosnvn"] = n * c["nfp"] * want["cosnv"]
    want["sinnvn"] = -n * c["nfp"] * want["sinnv"]
    for k, v in want.items():
        a = np.asarray(t[k])
        check(a.size == N * K, "size of %s", k)
        d = np.abs(a[it] - v).max()
        check(d < 1e-11 * (1 + N * c["nfp"]), "%s is off by %g", k, d)
    for xm, xn, a, bb in (("xm", "xn", c["mpol"], c["ntor"]), ("xm_nyq", "xn_nyq", t["mnyq"] + 1, t["nnyq"])):
        mo = modes(a, bb)
        check(list(t[xm]) == [i for i, _ in mo], "%s = %r", xm, list(t[xm]))
        check(list(t[xn]) == [j * c["nfp"] for _, j in mo], "%s = %r", xn, list(t[xn]))
        check(b.mnMax(a, bb) == len(mo), "mnMax(%d, %d)", a, bb)
    for i, (mm, nn) in enumerate(modes(c["mpol"], c["ntor"])):
        check(b.mnIdx(mm, nn) == i, "mnIdx(%d, %d) = %d, expected %d", mm, nn, b.mnIdx(mm, nn), i)
    return {"labels": [c["layout"]]}


def coeffs(c, mo, off=0):
    v = np.array(G.pattern(c["seed"] + off, len(mo)))
    if c["fill"] == "one":
        keep = np.arange(len(mo)) == c["at"] % len(mo)
    elif c["fill"] == "corner":
        mm = max(m for m, _ in mo)
        nn = max(n for _, n in mo)
        keep = np.array([m == mm or abs(n) == nn for m, n in mo])
    elif c["fill"] == "negative_n":
        keep = np.array([n < 0 or m == 0 for m, n in mo])
    elif c["fill"] == "m0":
        keep = np.array([m == 0 for m, _ in mo])
    else:
        keep = np.ones(len(mo), bool)
    return np.where(keep, v, 0.0)


def run_conv(c):
    b = make(c)
    t = b.tables()
    ms, ns = (t["mnyq"] + 1, t["nnyq"]) if c["nyq"] else (c["mpol"], c["ntor"])
    mo = modes(ms, ns)
    rng = np.random.default_rng(c["seed"])
    th, ze = rng.uniform(0, 2 * np.pi, (2, 7))
    msc = np.where(np.arange(ms) == 0, 1.0, np.sqrt(2.0))
    nsc = np.where(np.arange(ns + 1) == 0, 1.0, np.sqrt(2.0))
    prod = np.array([[b.prod(m, n, ms, ns) for n in range(ns + 1)] for m in range(ms)])
    check(sorted(prod.ravel().tolist()) == list(range(ms * (ns + 1))), "product index is not a bijection")
    m2, n2 = np.meshgrid(np.arange(ms), np.arange(ns + 1), indexing="ij")
    sc = msc[:, None] * nsc[None, :]

    def series(f, kind):
        g = np.cos if kind == "cos" else np.sin
        return np.array([sum(x * g(m * a - n * z) for x, (m, n) in zip(f, mo)) for a, z in zip(th, ze)])

    def product(pq, kind):
        p, q = (np.asarray(x)[prod] * sc for x in pq)
        out = []
        for a, z in zip(th, ze):
            if kind == "cos":
                out.append((p * np.cos(m2 * a) * np.cos(n2 * z) + q * np.sin(m2 * a) * np.sin(n2 * z)).sum())
            else:
                out.append((p * np.sin(m2 * a) * np.cos(n2 * z) + q * np.cos(m2 * a) * np.sin(n2 * z)).sum())
        return np.array(out)

    for kind, fwd, bwd in (("cos", b.cos_to_cc_ss, b.cc_ss_to_cos), ("sin", b.sin_to_sc_cs, b.sc_cs_to_sin)):
        f = coeffs(c, mo, 0 if kind == "cos" else 17)
        scale = np.abs(f).sum() + 1e-300
        r, p, q = fwd(list(f), ns, ms)
        check(r == len(mo), "%s forward returned %d", kind, r)
        d = np.abs(series(f, kind) - product((p, q), kind)).max()
        check(d <= 1e-12 * scale, "%s: product form differs by %g (scale %g)", kind, d, scale)
        r, back = bwd(p, q, ns, ms)
        check(r == len(mo), "%s backward returned %d", kind, r)
        want = f.copy()
        if kind == "sin":
            want[0] = 0.0
        d = np.abs(np.array(back) - want).max()
        check(d <= 1e-13 * scale, "%s: there and back differs by %g at %r", kind, d, mo[int(np.argmax(np.abs(np.array(back) - want)))])
        # from arbitrary product coefficients to the combined basis (product coefficients that no function uses are free)
        u = np.array(G.pattern(c["seed"] + 5, ms * (ns + 1)))
        v = np.array(G.pattern(c["seed"] + 6, ms * (ns + 1)))
        r, comb = bwd(list(u), list(v), ns, ms)
        scale = np.abs(u).sum() + np.abs(v).sum()
        d = np.abs(series(comb, kind) - product((u, v), kind)).max()
        check(d <= 1e-12 * scale, "%s: combined form of product coefficients differs by %g (scale %g)", kind, d, scale)
    return {"labels": [c["layout"], c["fill"], "nyquist" if c["nyq"] else "spectral"], "nontrivial": bool(scale > 0)}


PROPS = [
    Prop("tables", case, run_tables, quick=120, thorough=2500, shards=2, budget=40, timeout=60),
    Prop("conversions", case, run_conv, quick=300, thorough=5000, shards=4, budget=40, timeout=60),
]
