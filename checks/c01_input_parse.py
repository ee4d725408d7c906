"""C01: a JSON input is either understood exactly (every field, defaults, padding) or rejected with an error."""
import json
import os

from hypothesis import strategies as st

from vp import gen as G
from vp import indata as M
from vp import repo
from vp.harness import Prop, Violation, check

PROPERTY = "C01"
RULE = ("A case is a JSON input document: valid ones (random subset of all fields, boundary lists with duplicate, zero, "
        "incomplete and out-of-range modes, short axis arrays), valid ones with 1-3 mutations (values on and just over "
        "every documented limit, wrong types, wrong lengths, missing fields), and byte-mangled texts. Oracle: an "
        "independent Python parser plus the documented consistency rules decide accept/reject and the value of every "
        "field, bit for bit; built with Eigen and libstdc++ bounds checks on, so an out-of-range access is a failure. "
        "Non-trivial: the document has at least 5 fields.")
ASSUMPTIONS = ["numbers are finite doubles (JSON has no others)", "Python's json module parses the documents correctly"]
VX = None


def setup():
    global VX
    VX, = repo.modules(PROPERTY, ["vx_indata"], flags=["-DVASSERT=1"], opt="-O1")


def compare(doc, via_file):
    text = json.dumps(doc)
    try:
        want = M.parse(doc)
    except M.Reject as e:
        want = None
        why = str(e)
    if via_file:
        p = os.path.join(os.environ["VERIF_SCRATCH"], "in-%d.json" % os.getpid())
        with open(p, "w") as f:
            f.write(text)
        try:
            got = VX.from_file(p)
            ok = True
        except RuntimeError as e:
            ok, got = False, str(e)
    else:
        ok, got = VX.from_json(text)
    no_bnd = want is not None and (want["rbc"] is None or want["zbs"] is None)
    if want is None:
        check(not ok, "accepted, although it breaks a rule (%s)", why)
        check(len(got) > 0, "rejected without a message")
        return "rejected"
    if not ok and no_bnd and (want["mpol"], want["ntor"]) != (6, 0):
        return "no boundary"
    check(ok, "rejected a valid document: %s", got)
    for k in M.BND:
        if want[k] is None:
            want[k] = M.dense([], want["mpol"], want["ntor"])
    got = {k: M.plain(v) for k, v in got.items()}
    d = M.diff(got, want)
    check(d is None, "%s", d)
    return "accepted"


def run_doc(c):
    lab = compare(c["doc"], c["file"])
    return {"labels": [lab], "nontrivial": isinstance(c["doc"], dict) and len(c["doc"]) >= 5}


def case(doc):
    return st.fixed_dictionaries({"doc": doc, "file": st.sampled_from([False, False, False, True])})


@st.composite
def raw_case(draw):
    t = json.dumps(draw(M.valid_doc()))
    ops = draw(st.lists(st.tuples(st.sampled_from(["del", "dup", "set", "cut"]), st.integers(0, 10**6),
                                  st.integers(1, 6), st.sampled_from("{}[],:\"0-.eE \\nt\u00e9")), min_size=1, max_size=4))
    for op, at, n, ch in ops:
        if not t:
            break
        at %= len(t)
        if op == "del":
            t = t[:at] + t[at + n:]
        elif op == "dup":
            t = t[:at + n] + t[at:]
        elif op == "set":
            t = t[:at] + ch + t[at + 1:]
        else:
            t = t[:at]
    return {"text": t}


def run_raw(c):
    try:
        ok, got = VX.from_json(c["text"])
    except (RuntimeError, ValueError) as e:
        return {"labels": ["syntax error"]}
    if not ok:
        return {"labels": ["rejected"]}
    fields = {k: v for k, v in got.items() if v is not None}
    ok2, msg = VX.consistent(fields, True)
    check(ok2, "accepted an input that IsConsistent refuses: %s", msg)
    return {"labels": ["accepted"]}


# objects assembled field by field (as the Python bindings do): IsConsistent decides, and never reads out of range
@st.composite
def object_case(draw):
    d = draw(M.valid_doc(full=True, wild=False))
    f = M.parse(d)
    for k in M.BND:
        if f[k] is None:
            f[k] = M.dense([], f["mpol"], f["ntor"])
    for _ in range(draw(st.integers(0, 2))):
        k = draw(st.sampled_from(["ftol_array", "niter_array", "ns_array", "raxis_c", "zaxis_s", "raxis_s", "zaxis_c",
                                  "rbc", "zbs", "rbs", "zbc", "lasym", "mpol", "ntor", "am_aux_s"]))
        if k == "lasym":
            f[k] = not f[k]
        elif k in ("mpol", "ntor"):
            f[k] = f[k] + draw(st.sampled_from([-1, 1]))
        elif f[k] is None:
            f[k] = [0.0] * (f["ntor"] + 1) if k in M.AXIS_ASYM else M.dense([], f["mpol"], f["ntor"])
        elif k in M.BND + M.BND_ASYM:
            f[k] = draw(st.sampled_from([f[k][:-1], f[k] + [f[k][0]], [r + [0.0] for r in f[k]],
                                         None if k in M.BND_ASYM else f[k][:-1]]))
        elif k in M.AXIS_ASYM:
            f[k] = draw(st.sampled_from([f[k][:-1], f[k] + [0.0], None]))
        else:
            f[k] = draw(st.sampled_from([f[k][:-1], f[k] + (f[k][-1:] or [5]), []]))
    return f


def run_object(f):
    want = True
    try:
        M.rules(f)
    except M.Reject:
        want = False
    shape = (f["mpol"], 2 * f["ntor"] + 1)
    for k in M.AXIS:
        want = want and len(f[k]) == f["ntor"] + 1
    for k in M.BND:
        want = want and (len(f[k]), len(f[k][0]) if f[k] else 0) == shape
    for k in M.AXIS_ASYM:
        want = want and ((f[k] is not None and len(f[k]) == f["ntor"] + 1) if f["lasym"] else f[k] is None)
    for k in M.BND_ASYM:
        want = want and ((f[k] is not None and (len(f[k]), len(f[k][0]) if f[k] else 0) == shape) if f["lasym"]
                         else f[k] is None)
    d = {k: v for k, v in f.items() if v is not None}
    for info in (False, True):
        ok, msg = VX.consistent(d, info)
        check(ok == want, "IsConsistent says %s (%s), the rules say %s", ok, msg, want)
    return {"labels": ["consistent" if want else "inconsistent"]}


# boundary_from_json.h
@st.composite
def bnd_case(draw):
    mpol, ntor = draw(st.integers(1, 6)), draw(st.integers(0, 4))
    e = draw(M.entries(mpol, ntor))
    bad = draw(st.sampled_from([None, None, None, "entry", "field", "notlist", "absent"]))
    doc = {"rbc": e, "other": 1}
    if bad == "entry":
        doc["rbc"] = e + [draw(st.sampled_from([1, None, "x", [1], True]))]
    elif bad == "field" and e:
        k = draw(st.sampled_from(["m", "n", "value"]))
        x = {"m": 0, "n": 0, "value": 1.0}
        x[k] = draw(st.sampled_from(["x", None, True, [1], 2**31 if k != "value" else "1"]))
        doc["rbc"] = e + [x]
    elif bad == "notlist":
        doc["rbc"] = draw(st.sampled_from([1, None, "x", {}, {"m": 0, "n": 0, "value": 1}]))
    elif bad == "absent":
        del doc["rbc"]
    return {"doc": doc, "mpol": mpol, "ntor": ntor}


def run_bnd(c):
    text = json.dumps(c["doc"])
    ok, got = VX.boundary_entries(text, "rbc")
    if "rbc" not in c["doc"]:
        check(ok and got is None, "absent boundary: %r", got)
        return {"nontrivial": False}
    try:
        want = M._entries(c["doc"]["rbc"])
    except M.Reject as e:
        check(not ok, "malformed boundary accepted (%s): %r", e, got)
        return {"labels": ["rejected"]}
    check(ok, "valid boundary rejected: %s", got)
    check([(m, n, G.bits(v)) for m, n, v in got] == [(m, n, G.bits(v)) for m, n, v in want],
          "entries %r instead of %r", got, want)
    dense = VX.boundary_dense(text, "rbc", c["mpol"], c["ntor"])
    ref = [x for r in M.dense(want, c["mpol"], c["ntor"]) for x in r]
    check(G.same_list(dense, ref), "dense %r instead of %r", dense, ref)
    return {"labels": ["accepted"], "nontrivial": len(want) > 0}


PROPS = [
    Prop("valid", lambda: case(M.valid_doc()), run_doc, quick=600, thorough=8000, shards=2, budget=60),
    Prop("mutated", lambda: case(M.mutated_doc()), run_doc, quick=1600, thorough=20000, shards=4, budget=60),
    Prop("raw", raw_case, run_raw, quick=300, thorough=6000, budget=60),
    Prop("object", object_case, run_object, quick=500, thorough=6000, budget=60),
    Prop("boundary", bnd_case, run_bnd, quick=400, thorough=6000, budget=60),
]
