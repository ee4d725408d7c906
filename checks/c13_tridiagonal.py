"""C13: the tridiagonal solvers return the solution of the stated system."""
import numpy as np
from hypothesis import strategies as st

from vp import gen as G
from vp import repo
from vp.harness import Prop, check

PROPERTY = "C13"
RULE = ("A case is a diagonally dominant tridiagonal system per mode (sizes, first/last active row per mode, right-hand sides), a "
        "number of threads and per-thread start delays. Oracle: numpy dense solve of the active block, zero before the first "
        "row; the parallel solver must agree with it for every thread count and be reproducible. Non-trivial: at least two active "
        "rows.")
ASSUMPTIONS = ["systems are diagonally dominant, as the preconditioner's are (no pivoting in the code under test)"]
X = None


def setup():
    global X
    X, = repo.modules(PROPERTY, ["vx_tri"])


def system(seed, n, boost):
    r = np.random.default_rng(seed)
    a, b = r.uniform(-1, 1, n), r.uniform(-1, 1, n)
    scale = 10.0 ** r.integers(-6, 7)
    d = (np.abs(a) + np.abs(b) + boost) * np.where(r.random(n) < 0.5, -1, 1)
    return a * scale, d * scale, b * scale


def solve(a, d, b, c, lo, hi):
    n = hi - lo
    A = np.zeros((n, n))
    for i in range(n):
        j = lo + i
        A[i, i] = d[j]
        if i + 1 < n:
            A[i, i + 1] = a[j]
        if i:
            A[i, i - 1] = b[j]
    return np.linalg.solve(A, c[lo:hi])


@st.composite
def ser(draw):
    n = draw(st.integers(2, 40))
    lo = draw(st.integers(0, min(n - 2, 3)))
    return {"n": n, "lo": lo, "hi": draw(st.integers(max(lo + 1, n - 3), n)), "extra": draw(st.integers(0, 3)),
            "nrhs": draw(st.integers(1, 4)), "seed": draw(st.integers(0, 10**6)), "boost": draw(st.sampled_from([0.05, 0.5, 3.0]))}


def run_ser(c):
    n, lo, hi = c["n"], c["lo"], c["hi"]
    a, d, b = system(c["seed"], n, c["boost"])
    rhs = [np.array(G.pattern(c["seed"] + k, n)) for k in range(c["nrhs"])]
    # rows outside [lo, hi) are not part of the system: their content must not matter
    a[:lo] = b[:lo] = 13.0
    got = X.serial(list(a), list(d), list(b), [list(r) for r in rhs], n + c["extra"], lo, hi)
    for k, r in enumerate(rhs):
        g = np.array(got[k])
        want = solve(a, d, b, r, lo, hi)
        check(np.abs(g[lo:hi] - want).max() <= 1e-8 * np.abs(want).max() + 1e-300, "right-hand side %d: %r instead of %r", k, g[lo:hi], want)
        check((g[:lo] == 0).all(), "rows before the first active one are %r, not 0", g[:lo])
        check((g[hi:n] == r[hi:]).all() and (g[n:] == -77.0).all(), "wrote behind the last row")
    return {"nontrivial": hi - lo >= 2}


@st.composite
def omp(draw):
    ns = draw(st.integers(3, 30))
    nt = draw(st.integers(1, max(1, min(ns // 2, 6))))
    free = draw(st.booleans())
    mn = draw(st.integers(1, 5))
    return {"ns": ns, "nt": nt, "free": free, "jmin": [draw(st.integers(0, 1)) for _ in range(mn)],
            "jmax": ns if free else ns - 1, "nrhs": draw(st.integers(1, 4)),
            "seed": draw(st.integers(0, 10**6)), "boost": draw(st.sampled_from([0.05, 0.5, 3.0])),
            "delays": [draw(st.sampled_from([0, 0, 300, 2000])) for _ in range(nt)]}


def run_omp(c):
    ns, mn, nr = c["ns"], len(c["jmin"]), c["nrhs"]
    sysr = [system(c["seed"] + 7 * i, ns, c["boost"]) for i in range(mn)]
    sysz = [system(c["seed"] + 7 * i + 3, ns, c["boost"]) for i in range(mn)]
    cr = [[G.pattern(c["seed"] + 31 * k + i, ns) for i in range(mn)] for k in range(nr)]
    cz = [[G.pattern(c["seed"] + 31 * k + i + 500, ns) for i in range(mn)] for k in range(nr)]
    col = lambda s, i: [list(x[i]) for x in s]
    xr, xz, same = X.openmp(col(sysr, 0), col(sysr, 1), col(sysr, 2), cr, col(sysz, 0), col(sysz, 1), col(sysz, 2), cz,
                            c["jmin"], c["jmax"], ns, c["free"], c["nt"], c["delays"], 2)
    check(same, "two runs on the same data differ")
    hi = c["jmax"]
    for what, sy, rhs, x in (("R", sysr, cr, xr), ("Z", sysz, cz, xz)):
        for k in range(nr):
            for i in range(mn):
                lo = c["jmin"][i]
                a, d, b = sy[i]
                want = solve(a, d, b, np.array(rhs[k][i]), lo, hi)
                g = np.array(x[k][i])
                check(np.abs(g[lo:hi] - want).max() <= 1e-8 * np.abs(want).max() + 1e-300,
                      "%s, right-hand side %d, mode %d: %r instead of %r", what, k, i, g[lo:hi], want)
                check((g[:lo] == 0).all(), "rows before the first active one are not 0")
    return {"labels": ["threads%d" % c["nt"]]}


PROPS = [
    Prop("serial", ser, run_ser, quick=400, thorough=8000, shards=2, budget=30),
    Prop("openmp", omp, run_omp, quick=300, thorough=4000, shards=2, budget=40, timeout=30),
]
