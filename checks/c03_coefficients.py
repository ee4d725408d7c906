"""C03: Fourier coefficient arrays keep every (m, n) value where it belongs when resized or converted."""
import json
import math
import os

import numpy as np
from hypothesis import strategies as st

from vp import gen as G
from vp import indata as M
from vp import repo
from vp.harness import Prop, Violation, check

PROPERTY = "C03"
RULE = ("A case is a coefficient array (random shape, values incl. denormals, 0 and -0.0) with a history of 1..6 "
        "resizes, or a sparse list. Oracle: a dict {(m, n): value}; after each step the array holds exactly the entries of the dict "
        "that fit into every resolution passed so far, at column n+ntor, and 0 elsewhere. Non-trivial: at least one non-zero value.")
ASSUMPTIONS = []
VX = V = U = None


def setup():
    global VX, V, U
    V, (VX,) = repo.full(PROPERTY, ["vx_indata"])
    from vmecpp import _util
    U = _util


@st.composite
def grid(draw, nonneg_zero=True):
    mpol, ntor = draw(st.integers(1, 7)), draw(st.integers(0, 5))
    n = mpol * (2 * ntor + 1)
    if draw(st.booleans()):
        v = draw(st.lists(G.finite, min_size=n, max_size=n)) if n <= 30 else G.pattern(draw(st.integers(0, 10**6)), n)
    else:
        v = [x if (i * 3 + draw_seed) % 4 else 0.0 for draw_seed in [draw(st.integers(0, 9))]
             for i, x in enumerate(G.pattern(draw(st.integers(0, 10**6)), n))]
    return {"mpol": mpol, "ntor": ntor, "v": v}


def model(g):
    w = 2 * g["ntor"] + 1
    return {(i // w, i % w - g["ntor"]): x for i, x in enumerate(g["v"])}


def to_array(d, mpol, ntor):
    a = [[0.0] * (2 * ntor + 1) for _ in range(mpol)]
    for (m, n), v in d.items():
        if 0 <= m < mpol and abs(n) <= ntor:
            a[m][n + ntor] = v
    return a


def eq2(a, b):
    a = [list(r) for r in a]
    return len(a) == len(b) and all(G.same_list(x, y) for x, y in zip(a, b))


steps = st.lists(st.tuples(st.integers(1, 9), st.integers(0, 7)).map(list), min_size=1, max_size=6)


@st.composite
def hist_case(draw):
    return {"lasym": draw(st.booleans()), "set_asym": draw(st.booleans()), "g": draw(grid()), "seed": draw(st.integers(0, 10**6)), "steps": draw(steps)}


def run_cpp(c):
    g = c["g"]
    mpol, ntor = g["mpol"], g["ntor"]
    n = mpol * (2 * ntor + 1)
    names2 = ["rbc", "zbs"] + (["rbs", "zbc"] if c["lasym"] and c["set_asym"] else [])
    names1 = ["raxis_c", "zaxis_s"] + (["raxis_s", "zaxis_c"] if c["lasym"] and c["set_asym"] else [])
    d = {"mpol": mpol, "ntor": ntor, "lasym": c["lasym"]}
    two, one = {}, {}
    for i, k in enumerate(names2):
        gg = dict(g, v=g["v"] if i == 0 else G.pattern(c["seed"] + i, n))
        two[k] = model(gg)
        d[k] = to_array(two[k], mpol, ntor)
    for i, k in enumerate(names1):
        one[k] = G.pattern(c["seed"] + 10 + i, ntor + 1)
        d[k] = one[k]
    if c["lasym"] and not c["set_asym"]:
        for k in ("rbs", "zbc"):
            two[k] = {}
        for k in ("raxis_s", "zaxis_c"):
            one[k] = [0.0] * (ntor + 1)
    out = VX.resize(d, [tuple(s) for s in c["steps"]])
    for (mp, nt), got in zip(c["steps"], out):
        check(got["mpol"] == mp and got["ntor"] == nt, "mpol/ntor not updated")
        for k in two:
            two[k] = {q: v for q, v in two[k].items() if q[0] < mp and abs(q[1]) <= nt}
            check(eq2(got[k], to_array(two[k], mp, nt)), "%s after resize to (%d, %d): %r", k, mp, nt, got[k].tolist())
        for k in one:
            one[k] = (one[k] + [0.0] * (nt + 1))[:nt + 1]
            check(G.same_list(got[k], one[k]), "%s after resize to ntor %d: %r", k, nt, got[k])
        if not c["lasym"]:
            check(all(got[k] is None for k in ("rbs", "zbc", "raxis_s", "zaxis_c")), "asymmetric arrays appeared")
    return {"nontrivial": any(g["v"])}


def run_py(c):
    g = c["g"]
    want = model(g)
    a = np.array(to_array(want, g["mpol"], g["ntor"]))
    keep = a.copy()
    for mp, nt in c["steps"]:
        want = {q: v for q, v in want.items() if q[0] < mp and abs(q[1]) <= nt}
        a = V.VmecInput.resize_2d_coeff(a, mpol_new=mp, ntor_new=nt)
        check(eq2(a, to_array(want, mp, nt)), "resize_2d_coeff to (%d, %d): %r", mp, nt, a.tolist())
    ax = np.array(G.pattern(c["seed"], g["ntor"] + 1))
    for _, nt in c["steps"]:
        if nt + 1 < len(ax):
            try:
                V.VmecInput.resize_1d_axis_coeff(ax, ntor_new=nt)
            except ValueError:
                continue
            raise Violation("an axis array of length %d was truncated to ntor=%d" % (len(ax), nt))
        r = V.VmecInput.resize_1d_axis_coeff(ax, ntor_new=nt)
        check(G.same_list(r, list(ax) + [0.0] * (nt + 1 - len(ax))), "resize_1d_axis_coeff: %r", r)
    # the model resizes on construction
    mp, nt = c["steps"][-1]
    sym = to_array(model(g), g["mpol"], g["ntor"])
    kw = dict(mpol=max(mp, 2), ntor=nt, rbc=np.array(sym), zbs=-np.array(sym))
    if g["ntor"] <= nt:
        kw["raxis_c"] = ax
    if c["lasym"]:
        kw["lasym"] = True
        kw["rbs"] = 2 * np.array(sym) if all(abs(x) < 1e300 for x in g["v"]) else np.array(sym)
        fac = 2 if all(abs(x) < 1e300 for x in g["v"]) else 1
    inp = V.VmecInput(**kw)
    ref = np.array(to_array(model(g), max(mp, 2), nt))
    check(eq2(inp.rbc, ref.tolist()) and eq2(inp.zbs, to_array({q: -v for q, v in model(g).items()}, max(mp, 2), nt)), "VmecInput boundary resize")
    if c["lasym"]:
        check(eq2(inp.rbs, (fac * ref).tolist()), "VmecInput rbs resize")
        check(eq2(inp.zbc, np.zeros_like(ref).tolist()), "VmecInput zbc default")
    if "raxis_c" in kw:
        check(G.same_list(inp.raxis_c, list(ax) + [0.0] * (nt + 1 - len(ax))), "VmecInput axis padding")
    check(len(inp.zaxis_s) == nt + 1, "zaxis_s length")
    check(np.array_equal(keep, np.array(sym), equal_nan=True), "input array modified")
    return {"nontrivial": any(g["v"])}


# ---- sparse <-> dense
@st.composite
def sparse_case(draw):
    g = draw(grid())
    mpol, ntor = draw(st.integers(1, 8)), draw(st.integers(0, 6))
    e = draw(st.lists(st.fixed_dictionaries({
        "m": st.integers(-2, 9), "n": st.integers(-7, 7), "value": G.finite}), max_size=7))
    return {"g": g, "entries": e, "mpol": mpol, "ntor": ntor}


def run_sparse(c):
    g = c["g"]
    a = np.array(to_array(model(g), g["mpol"], g["ntor"]))
    s = U.dense_to_sparse_coefficients(a)
    want = {q: v for q, v in model(g).items() if v != 0}
    got = {(e["m"], e["n"]): e["value"] for e in s}
    check(len(s) == len(got) and set(got) == set(want) and all(G.same(got[q], want[q]) for q in want),
          "dense_to_sparse: %r instead of %r", s, want)
    check(all(type(e["m"]) is int and type(e["n"]) is int and type(e["value"]) is float for e in s), "types")
    json.dumps(s)
    b = U.sparse_to_dense_coefficients(s, g["mpol"], g["ntor"])
    check(np.array_equal(a, b), "sparse -> dense does not restore the array")
    bi = U.sparse_to_dense_coefficients_implicit(s)
    M_, N_ = max([q[0] for q in want], default=0), max([abs(q[1]) for q in want], default=0)
    check(eq2(bi, to_array(want, M_ + 1, N_)), "implicit sparse -> dense: %r", bi.tolist())
    check(U.sparse_to_dense_coefficients_implicit(a) is a, "a dense array is returned as it is")
    # arbitrary lists: out-of-range entries are an error, never dropped
    mpol, ntor, e = c["mpol"], c["ntor"], c["entries"]
    bad = any(not 0 <= x["m"] < mpol or abs(x["n"]) > ntor for x in e)
    try:
        r = U.sparse_to_dense_coefficients(e, mpol, ntor)
    except ValueError:
        check(bad, "a valid list was refused")
        return {"labels": ["refused"]}
    check(not bad, "out-of-range entries were dropped or misplaced")
    d = {}
    for x in e:
        d[(x["m"], x["n"])] = x["value"]
    check(eq2(r, to_array(d, mpol, ntor)), "sparse_to_dense: %r", r.tolist())
    return {"labels": ["ok"], "nontrivial": len(e) > 0 or len(want) > 0}


@st.composite
def pad_case(draw):
    return {"v": draw(st.lists(G.finite, max_size=8)), "n": draw(st.integers(0, 12)), "d": draw(G.finite)}


def run_pad(c):
    v, n, dflt = np.array(c["v"], dtype=float), c["n"], c["d"]
    want = list(c["v"]) + [dflt] * (n - len(v))
    r = U.right_pad(v, n, dflt)
    check(G.same_list(r, want), "right_pad: %r", list(r))
    try:
        r = U.pad_to_target(v, n, dflt)
        check(len(v) <= n, "too long an array was accepted")
        check(G.same_list(r, want), "pad_to_target: %r", list(r))
    except ValueError:
        check(len(v) > n, "pad_to_target refused a short array")
    return {"nontrivial": 0 < len(v) < n}


PROPS = [
    Prop("cpp_history", hist_case, run_cpp, quick=500, thorough=6000, shards=2, budget=60),
    Prop("python_history", hist_case, run_py, quick=400, thorough=6000, shards=2, budget=60),
    Prop("sparse", sparse_case, run_sparse, quick=500, thorough=6000, shards=2, budget=60),
    Prop("padding", pad_case, run_pad, quick=200, thorough=2000, budget=30),
]
