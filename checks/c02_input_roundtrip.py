"""C02: an input survives every trip (C++ JSON, HDF5, copy, Python JSON, Python <-> C++) unchanged."""
import json
import os

import numpy as np
from hypothesis import strategies as st

from vp import gen as G
from vp import indata as M
from vp import repo
from vp.harness import Prop, Violation, check

PROPERTY = "C02"
RULE = ("A case is a complete valid input object (all fields random within the documented limits, lasym on and off, "
        "mpol 2..9, ntor 0..5). It goes through one of the conversions (C++ to_json/from_json, HDF5 write/load, copy, "
        "VmecInput JSON dump/validate, save/from_file, VmecInput <-> VmecINDATA) and every field is compared bit for "
        "bit with the original (in boundary arrays -0.0 equals 0.0: the sparse form does not store zeros). Non-trivial: "
        "at least one non-zero boundary coefficient or lasym.")
ASSUMPTIONS = ["finite numbers only: JSON has no infinities"]
VX = V = None


def setup():
    global VX, V
    V, (VX,) = repo.full(PROPERTY, ["vx_indata"])


def tmp(name):
    return os.path.join(os.environ["VERIF_SCRATCH"], "%s-%d" % (name, os.getpid()))


@st.composite
def obj(draw, python=False):
    d = draw(M.valid_doc(full=True, wild=False))
    if python:
        for k in ("pmass_type", "piota_type", "pcurr_type"):
            d[k] = draw(st.sampled_from(["power_series", "cubic_spline", "x" * 20, ""]))
    if draw(st.booleans()):
        n, k = 2 * d["ntor"] + 1, d["mpol"]
        seed = draw(st.integers(0, 10**6))
        for i, name in enumerate(["rbc", "zbs"] + (["rbs", "zbc"] if d["lasym"] else [])):
            v = G.pattern(seed + i, n * k)
            d[name] = [{"m": q // n, "n": q % n - d["ntor"], "value": v[q]} for q in range(n * k) if (q * 7 + seed) % 5]
    f = M.parse(d)
    for k in M.BND + M.BND_ASYM:   # the sparse form does not keep the sign of zero
        if f[k] is not None:
            f[k] = [[x + 0.0 for x in r] for r in f[k]]
    return f


def some(f):
    return {k: v for k, v in f.items() if v is not None}


def trivial(f):
    return not f["lasym"] and not any(x for r in f["rbc"] + f["zbs"] for x in r)


def plain(d):
    return {k: M.plain(v) for k, v in d.items()}


def compare(got, want, what):
    d = M.diff(plain(got), want)
    check(d is None, "%s: %s", what, d)


def run_cpp(f):
    d = some(f)
    compare(VX.fields(d), f, "field access")
    ok, text = VX.to_json(d)
    check(ok, "ToJson: %s", text)
    ok, back = VX.from_json(text)
    check(ok, "FromJson refuses what ToJson wrote: %s", back)
    compare(back, f, "ToJson -> FromJson")
    ok, text2 = VX.to_json(some(plain(back)))
    check(ok and json.loads(text2) == json.loads(text), "ToJson is not stable")
    ref = M.parse(json.loads(text))
    compare(ref, f, "ToJson as read by the reference parser")
    p = tmp("x.h5")
    ok, msg = VX.h5_write(d, p)
    check(ok, "WriteTo: %s", msg)
    ok, back = VX.h5_load(p)
    check(ok, "LoadInto: %s", back)
    compare(back, f, "HDF5")
    compare(VX.copy(d), f, "Copy")
    check(VX.equal(d, d), "an object differs from itself")
    return {"nontrivial": not trivial(f), "labels": ["lasym"] if f["lasym"] else []}


# operator== sees a change in any field
@st.composite
def change_case(draw):
    f = draw(obj())
    # (arrays of unequal length are left out: comparing them is a precondition violation in Eigen itself)
    k = draw(st.sampled_from([k for k in M.ALL if f[k] is not None and f[k] != []]))
    v = f[k]
    if k in M.BOOL:
        w = not v
    elif k in M.INT:
        w = v - 1 if v > 0 else v + 1
    elif k in M.DBL:
        w = 1.0 if v != 1.0 else 2.0
    elif k in M.STR:
        w = v + "x"
    elif k in M.ENUM:
        w = next(x for x in M.ENUM[k] if x != v)
    elif k in M.BND + M.BND_ASYM:
        w = [list(r) for r in v]
        i, j = draw(st.integers(0, len(w) - 1)), draw(st.integers(0, len(w[0]) - 1))
        w[i][j] = 0.25 if w[i][j] != 0.25 else 0.5
    else:
        w = list(v)
        i = draw(st.integers(0, len(v) - 1))
        w[i] = 4 if v[i] != 4 else 5
    return {"f": f, "k": k, "w": w}


def run_change(c):
    g = dict(c["f"])
    g[c["k"]] = c["w"]
    check(not VX.equal(some(c["f"]), some(g)), "objects that differ in %s compare equal", c["k"])
    return {"labels": [c["k"]]}


def to_python(f):
    kw = {}
    for k, v in f.items():
        if isinstance(v, list):
            v = np.array(v, dtype=np.int64 if k in M.VINT else np.float64)
        kw[k] = v
    return V.VmecInput(**kw)


def py_fields(inp):
    out = {}
    for k in M.ALL:
        v = M.plain(getattr(inp, k))
        out[k] = v.value if k in M.ENUM and hasattr(v, "value") else v
    return out


def cpp_fields(c):
    out = {}
    for k in M.ALL:
        v = getattr(c, k)
        if k in M.ENUM:
            v = v.name.lower()
        out[k] = M.plain(v)
    return out


def run_py(f):
    inp = to_python(f)
    compare(py_fields(inp), f, "VmecInput")
    text = inp.to_json()
    compare(py_fields(V.VmecInput.model_validate_json(text)), f, "VmecInput JSON")
    compare(py_fields(V.VmecInput.model_validate(json.loads(text))), f, "VmecInput JSON dict")
    compare(M.parse(json.loads(text)), f, "VmecInput JSON as read by the reference parser")
    p = tmp("case.json")
    inp.save(p)
    compare(py_fields(V.VmecInput.from_file(p)), f, "save -> from_file")
    cpp = inp._to_cpp_vmecindata()
    compare(cpp_fields(cpp), f, "VmecInput -> VmecINDATA")
    compare(py_fields(V.VmecInput._from_cpp_vmecindata(cpp)), f, "VmecInput -> VmecINDATA -> VmecInput")
    ok, back = VX.from_json(cpp.to_json())
    check(ok, "VmecINDATA.to_json of a valid object is refused: %s", back)
    compare(back, f, "VmecINDATA.to_json")
    compare(cpp_fields(type(cpp).from_json(cpp.to_json())), f, "VmecINDATA.from_json")
    compare(cpp_fields(type(cpp).from_file(p)), f, "VmecINDATA.from_file")
    # a copy is independent
    cp = cpp.copy()
    cp.rbc[0, 0] = 123.5
    cp.raxis_c[0] = 321.5
    cp.am = np.array([9.0, 8.0])
    cp.phiedge = 77.0
    cp.mgrid_file = "other"
    compare(cpp_fields(cpp), f, "original after changing its copy")
    inp2 = V.VmecInput._from_cpp_vmecindata(cpp)
    inp2.rbc[0, 0] = 1e3
    inp2.phiedge = -1.0
    compare(py_fields(inp), f, "original input after changing a converted one")
    d = V.VmecInput.default()
    want = M.defaults()
    for k in M.BND:
        want[k] = M.dense([], 6, 0)
    compare(py_fields(d), want, "VmecInput defaults")
    compare(cpp_fields(type(cpp)()), want, "VmecINDATA defaults")
    return {"nontrivial": not trivial(f), "labels": ["lasym"] if f["lasym"] else []}


PROPS = [
    Prop("cpp", obj, run_cpp, quick=500, thorough=8000, shards=3, budget=60),
    Prop("equality", change_case, run_change, quick=300, thorough=3000, shards=2, budget=60),
    Prop("python", lambda: obj(True), run_py, quick=300, thorough=4000, shards=3, budget=90),
]
