"""C09: grid sizes follow the documented formulas; thread partitions cover the work exactly once."""
import numpy as np
from hypothesis import strategies as st

from vp import repo
from vp.harness import Prop, check

PROPERTY = "C09"
RULE = ("Cases: (ns, threads, fixed/free boundary), histories of re-partitioning one object, (points, threads), and grid "
        "resolutions. Oracle: the union of the parts is the whole range, parts are disjoint, ordered, balanced to one element, the "
        "overlap regions are exactly one surface to each side, sizes follow closed formulas. Non-trivial: more than one thread "
        "(partitions) or any resolution (sizes).")
ASSUMPTIONS = []
X = None


def setup():
    global X
    X, = repo.modules(PROPERTY, ["vx_parts"])


@st.composite
def rad(draw):
    ns = draw(st.one_of(st.integers(3, 40), st.integers(3, 2000)))
    free = draw(st.booleans())
    top = max(1, ns // 2)
    nt = draw(st.one_of(st.integers(1, min(top, 12)), st.integers(1, top), st.just(top)))
    return {"ns": ns, "free": free, "nt": nt}


def run_radial(c):
    ns, nt, free = c["ns"], c["nt"], c["free"]
    p = X.radial(nt, ns, free)
    check(len(p) == nt, "count")
    end = ns if free else ns - 1
    at = 0
    lens = []
    for t, d in enumerate(p):
        lo, hi = d["nsMinF"], d["nsMaxF"]
        check(lo == at and hi > lo, "thread %d starts at %d, expected %d (ends %d)", t, lo, at, hi)
        at = hi
        lens.append(hi - lo)
        check(d["nsMinF1"] == max(0, lo - 1) and d["nsMaxF1"] == min(ns, hi + 1), "F1 range of thread %d: %r", t, d)
        check(d["nsMinH"] == d["nsMinF1"] and d["nsMaxH"] == d["nsMaxF1"] - 1, "H range of thread %d: %r", t, d)
        check(d["nsMinFi"] == max(1, lo) and d["nsMaxFi"] == min(ns - 1, hi), "interior range of thread %d: %r", t, d)
        last = t == nt - 1
        check(d["nsMaxFIncludingLcfs"] == (ns if last else hi), "LCFS range of thread %d: %r", t, d)
        check(d["has_boundary"] == last, "has_boundary of thread %d", t)
        check(d["num_threads"] == nt and d["thread_id"] == t, "ids")
    check(at == end, "threads cover [0, %d) instead of [0, %d)", at, end)
    check(max(lens) - min(lens) <= 1, "unbalanced partition: %r", lens)
    # every half-grid point is seen by exactly the threads owning a neighbouring full-grid surface
    seen = [0] * (ns - 1)
    for d in p:
        for j in range(d["nsMinH"], d["nsMaxH"]):
            check(0 <= j < ns - 1, "half-grid index out of range")
            seen[j] += 1
    check(min(seen) >= 1 and max(seen) <= 2, "half-grid coverage %r", seen)
    return {"nontrivial": nt > 1, "labels": ["free" if free else "fixed", "max_threads" if nt == ns // 2 else "fewer"]}


@st.composite
def hist(draw):
    out = []
    for _ in range(draw(st.integers(2, 6))):
        c = draw(rad())
        out.append([c["nt"], draw(st.integers(0, c["nt"] - 1)), c["ns"], c["free"]])
    return {"steps": out}


def run_hist(c):
    got = X.radial_history([tuple(s) for s in c["steps"]])
    for s, g in zip(c["steps"], got):
        nt, t, ns, free = s
        d = X.radial(nt, ns, free)[t]
        want = tuple(d[k] for k in ("nsMinF1", "nsMaxF1", "nsMinH", "nsMaxH", "nsMinFi", "nsMaxFi", "nsMinF", "nsMaxF",
                                    "nsMaxFIncludingLcfs", "has_boundary"))
        check(tuple(g) == want, "re-partitioned object: %r, fresh one: %r at step %r", g, want, s)
    return {}


@st.composite
def tan(draw):
    n = draw(st.one_of(st.integers(1, 60), st.integers(1, 5000)))
    return {"n": n, "nt": draw(st.one_of(st.integers(1, min(n, 9)), st.integers(1, min(n, 200)), st.just(min(n, 300))))}


def run_tan(c):
    p = X.tangential(c["n"], c["nt"])
    at, lens = 0, []
    for t, (a, b) in enumerate(p):
        check(a == at and b >= a, "thread %d gets [%d, %d), expected to start at %d", t, a, b, at)
        at = b
        lens.append(b - a)
    check(at == c["n"], "cover [0, %d) of [0, %d)", at, c["n"])
    check(min(lens) >= 1 and max(lens) - min(lens) <= 1, "unbalanced: %r", lens)
    return {"nontrivial": c["nt"] > 1}


@st.composite
def thr(draw):
    return {"mt": draw(st.one_of(st.integers(1, 8), st.integers(1, 1000))), "n": draw(st.one_of(st.integers(2, 50), st.integers(2, 2000)))}


def run_thr(c):
    a = X.adjust(c["mt"], c["n"])
    check(a == min(c["mt"], c["n"] // 2), "adjust(%d, %d) = %d", c["mt"], c["n"], a)
    v = X.adjust_vac(c["mt"], c["n"])
    check(v == min(c["mt"], c["n"]), "adjust_vac(%d, %d) = %d", c["mt"], c["n"], v)
    check(X.signum(c["mt"]) == 1 and X.signum(-c["mt"]) == -1 and X.signum(0) == 0, "signum")
    # the number of threads allowed is accepted by the partitioner
    for ns in (c["n"],):
        if ns >= 3:
            X.radial(X.adjust(min(c["mt"], 64), ns), ns, bool(c["mt"] % 2))
    return {}


@st.composite
def siz(draw):
    mpol, ntor = draw(st.integers(1, 16)), draw(st.integers(0, 14))
    return {"lasym": draw(st.booleans()), "nfp": draw(st.integers(1, 12)), "mpol": mpol, "ntor": ntor,
            "ntheta": draw(st.one_of(st.just(0), st.integers(0, 4 * mpol + 20))),
            "nzeta": draw(st.one_of(st.just(0), st.integers(0, 4 * ntor + 20))),
            "mg": draw(st.integers(-1, mpol + 2)), "ng": draw(st.integers(-1, ntor + 2))}


def run_siz(c):
    d = X.sizes(c["lasym"], c["nfp"], c["mpol"], c["ntor"], c["ntheta"], c["nzeta"], c["mg"], c["ng"])
    nt = max(c["ntheta"], 2 * c["mpol"] + 6)
    if c["ntor"] == 0:
        nz = 1  # no toroidal variation
    else:
        nz = max(c["nzeta"], 2 * c["ntor"] + 4)
    ev = nt - nt % 2
    red = ev // 2 + 1
    eff = ev if c["lasym"] else red
    mnyq = max(ev // 2, c["mpol"] - 1)
    nnyq = max(nz // 2, c["ntor"])
    want = dict(lasym=c["lasym"], nfp=c["nfp"], mpol=c["mpol"], ntor=c["ntor"],
                mpolGeometry=c["mg"] if 1 <= c["mg"] <= c["mpol"] else c["mpol"],
                ntorGeometry=c["ng"] if 0 <= c["ng"] <= c["ntor"] else c["ntor"],
                ntheta=nt, nZeta=nz, lthreed=c["ntor"] > 0, num_basis=(2 if c["ntor"] else 1) * (2 if c["lasym"] else 1),
                nThetaEven=ev, nThetaReduced=red, nThetaEff=eff, nZnT=nz * eff, mnsize=c["mpol"] * (c["ntor"] + 1),
                mnmax=c["mpol"] * (2 * c["ntor"] + 1) - c["ntor"], mnyq2=2 * mnyq, nnyq2=2 * nnyq, mnyq=mnyq, nnyq=nnyq,
                mnmax_nyq=(mnyq + 1) * (2 * nnyq + 1) - nnyq)
    for k, v in want.items():
        check(d[k] == v, "%s = %r, expected %r", k, d[k], v)
    w = np.array(d["wInt"])
    check(len(w) == eff and (w > 0).all(), "weights")
    check(abs(w.sum() * nz - 1.0) < 1e-13, "poloidal weights sum to %r", w.sum() * nz)
    # the quadrature is exact for the cosine modes the grid resolves
    th = 2 * np.pi * np.arange(eff) / ev
    for m in range(1, min(ev, 2 * c["mpol"] + 2)):
        q = (w * np.cos(m * th)).sum() * nz
        check(abs(q) < 1e-12, "quadrature of cos(%d theta) = %g", m, q)
    return {"labels": ["lasym" if c["lasym"] else "sym", "3D" if c["ntor"] else "2D"]}


PROPS = [
    Prop("radial", rad, run_radial, quick=400, thorough=6000, budget=30),
    Prop("radial_history", hist, run_hist, quick=150, thorough=2000, budget=30),
    Prop("tangential", tan, run_tan, quick=400, thorough=6000, budget=30),
    Prop("threads", thr, run_thr, quick=200, thorough=2000, budget=20),
    Prop("sizes", siz, run_siz, quick=400, thorough=6000, budget=30),
]
