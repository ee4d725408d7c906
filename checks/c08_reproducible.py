"""C08: a run depends on its input only: not on threads, verbosity, memory contents, earlier runs."""
import ctypes
import os

import numpy as np
from hypothesis import strategies as st

from vp import repo, solve
from vp.harness import Prop, Violation, check

PROPERTY = "C08"
RULE = ("history: a problem is run, then a generated sequence of other runs (other resolutions and symmetries, failing and non-converging inputs, warm starts, other verbosity), then again; every number of every "
        "output must be bit-identical (single thread), also with allocated memory pre-filled with a random byte pattern. threads: the same problem with 1 and with n threads. Non-trivial: converged and 3D, asymmetric or with pressure.")
ASSUMPTIONS = ["thread schedules are those the OpenMP runtime produces on 8 cores", "results of different thread counts are compared to 1e-6 (largest difference seen 1e-10), because sums over threads are reordered"]
V = None
LIBC = None


def setup():
    global V, LIBC
    V, _ = repo.full(PROPERTY, [])
    LIBC = ctypes.CDLL(None)


def snap(o):
    out = {}
    for part in ("wout", "jxbout", "mercier", "threed1_volumetrics", "threed1_first_table", "threed1_geometric_magnetic", "threed1_axis", "threed1_betas", "threed1_shafranov_integrals"):
        for k, v in solve.arrays(getattr(o, part)).items():
            out[part + "." + k] = v
    return out


def quiet(f):
    """Run with the terminal output thrown away."""
    d, n = os.dup(1), os.open("/dev/null", os.O_WRONLY)
    os.dup2(n, 1)
    try:
        return f()
    finally:
        os.dup2(d, 1)
        os.close(d)
        os.close(n)


def attempt(inp, **kw):
    try:
        return snap(quiet(lambda: V.run(inp, **kw)))
    except RuntimeError as e:
        return "failed: " + str(e).split("\n")[0]


STEP = st.one_of(st.tuples(st.just("run"), solve.problem()), st.tuples(st.just("few iterations"), solve.problem(multi=False)), st.tuples(st.just("bad"), solve.problem(multi=False)),
                 st.tuples(st.just("unconverged output"), solve.problem(multi=False)), st.tuples(st.just("warm"), st.none()), st.tuples(st.just("same"), st.none()))


@st.composite
def history(draw):
    return {"p": draw(solve.problem()), "steps": [list(s) for s in draw(st.lists(STEP, min_size=0, max_size=3))], "fill": draw(st.sampled_from([0, 0x5A, 0xFF, 1, 0x7F])), "verbose": draw(st.sampled_from([0, 1, 2, 3])),
            "maxit": draw(st.sampled_from([0, 0, 0, 30]))}


def run_history(c):
    d = dict(c["p"])
    if c["maxit"]:
        d["niter_array"] = [c["maxit"]] * len(d["ns_array"])
        d["return_outputs_even_if_not_converged"] = True
    inp = solve.make(V, d)
    before = inp.model_dump_json()
    first = attempt(inp, max_threads=1, verbose=False)
    check(inp.model_dump_json() == before, "run() modified its input")
    names = []
    for kind, q in c["steps"]:
        names.append(kind)
        if kind == "warm":
            try:
                o = V.run(inp, max_threads=1, verbose=False)
                one = inp.model_copy(deep=True)
                one.ns_array, one.ftol_array, one.niter_array = inp.ns_array[-1:], inp.ftol_array[-1:], inp.niter_array[-1:]
                attempt(one, max_threads=1, verbose=False, restart_from=o)
            except RuntimeError:
                pass
        elif kind == "same":
            attempt(inp, max_threads=1, verbose=False)
        else:
            q = dict(q)
            if kind == "few iterations":
                q["niter_array"] = [5]
            if kind == "unconverged output":
                q["niter_array"] = [5]
                q["return_outputs_even_if_not_converged"] = True
            if kind == "bad":
                q["zbs"] = [dict(x, value=0.0) for x in q["zbs"]]
            attempt(solve.make(V, q), max_threads=1, verbose=False)
    if c["fill"]:
        LIBC.mallopt(-6, c["fill"])
    mode = [False, True, getattr(V.OutputMode, "LEGACY", True) if hasattr(V, "OutputMode") else True, False][c["verbose"]]
    again = attempt(inp, max_threads=1, verbose=mode)
    LIBC.mallopt(-6, 0)
    if isinstance(first, str) or isinstance(again, str):
        check(first == again, "the same input first gave %r, later %r", first if isinstance(first, str) else "a result", again if isinstance(again, str) else "a result")
        return {"labels": ["failed"] + names, "nontrivial": False}
    check(first.keys() == again.keys(), "different outputs")
    for k in first:
        if not np.array_equal(first[k], again[k], equal_nan=True):
            raise Violation("%s differs between two runs of the same input (steps between: %s, memory fill %d, verbose %s)" % (k, names, c["fill"], mode))
    return {"labels": solve.labels(d) + names + ["fill"] * bool(c["fill"]), "nontrivial": solve.nontrivial(d)}


@st.composite
def threads(draw):
    return {"p": draw(solve.problem(ns=(5, 17))), "n": draw(st.sampled_from([2, 3, 4, 5, 6, 8, 16, 0]))}


MAIN = ["rmnc", "zmns", "lmns_full", "gmnc", "bmnc", "bsupumnc", "bsupvmnc", "bsubvmnc", "iotas", "iotaf", "bvco", "vp", "phi", "pres", "presf", "mass", "over_r", "aspect", "volume", "wb", "b0", "rbtor", "volavgB", "Rmajor_p", "Aminor_p", "betatotal", "wp"]


def run_threads(c):
    d, n = dict(c["p"]), c["n"]
    inp = solve.make(V, d)
    a = attempt(inp, max_threads=1, verbose=False)
    b = attempt(inp, max_threads=n or None, verbose=False)
    if isinstance(a, str) != isinstance(b, str):  # close to the iteration limit
        inp = solve.make(V, d, niter_array=[4 * x for x in d["niter_array"]])
        a, b = attempt(inp, max_threads=1, verbose=False), attempt(inp, max_threads=n or None, verbose=False)
    if isinstance(a, str) or isinstance(b, str):
        check(isinstance(a, str) and isinstance(b, str), "1 thread: %s, %d threads: %s", a if isinstance(a, str) else "converged", n, b if isinstance(b, str) else "converged")
        return {"labels": ["failed"], "nontrivial": False}
    for k in MAIN + (["rmns", "zmnc", "lmnc_full", "gmns", "bmns", "bsupumns", "bsupvmns"] if d["lasym"] else []):
        x, y = a["wout." + k], b["wout." + k]
        sc = {"lmns_full": 1e-2, "lmnc_full": 1e-2, "rmns": a["wout.Aminor_p"], "zmnc": a["wout.Aminor_p"], "gmns": np.abs(a["wout.gmnc"]).max(), "bmns": np.abs(a["wout.bmnc"]).max(), "bsupumnc": np.abs(a["wout.bsupvmnc"]).max(),
              "bsupumns": np.abs(a["wout.bsupvmnc"]).max(), "bsupvmns": np.abs(a["wout.bsupvmnc"]).max(), "iotas": 0.1, "iotaf": 0.1}.get(k)
        solve.close("wout.%s with %d threads" % (k, n), y, x, tol=1e-6, scale=sc)
    na, nb = float(a["wout.niter"]), float(b["wout.niter"])
    check(abs(na - nb) <= 2 + 0.05 * na, "%d iterations with one thread, %d with %d threads", na, nb, n)
    check(a["wout.restart_reason_timetrace"].size == a["wout.fsqt"].size, "history lengths")
    return {"labels": solve.labels(d) + ["threads%d" % n], "nontrivial": solve.nontrivial(d)}


PROPS = [
    Prop("history", history, run_history, quick=220, thorough=4000, isolate=True, shards=6, budget=90, thorough_budget=700, timeout=180),
    Prop("threads", threads, run_threads, quick=120, thorough=2500, isolate=True, shards=2, budget=90, thorough_budget=700, timeout=180),
]
