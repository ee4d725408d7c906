"""C05: the INDATA namelist made from a VMEC++ JSON input means the same; file helpers keep names and clean up."""
import json
import os
import tempfile
from pathlib import Path

import f90nml
import numpy as np
from hypothesis import strategies as st

from vp import gen as G
from vp import indata as M
from vp import repo
from vp.harness import Prop, Violation, check

PROPERTY = "C05"
RULE = ("A case is a VMEC++ JSON input document (random subset of fields, boundary lists, axis arrays, strings with quotes, blanks and "
        "comment characters). It is converted with vmecpp_json_to_indata / ensure_vmec2000_input and read back with f90nml, an independent namelist parser; every "
        "field of the document must come back with the same value under the VMEC2000 name, and nothing else. Non-trivial: the document has a "
        "boundary coefficient or an axis array.")
ASSUMPTIONS = ["f90nml reads namelists as Fortran does", "strings are printable ASCII without line breaks"]
V = U = None
NAMES = {"raxis_c": "raxis_cc", "zaxis_s": "zaxis_cs", "raxis_s": "raxis_cs", "zaxis_c": "zaxis_cc"}
SCALAR = ["lasym", "nfp", "mpol", "ntor", "ntheta", "nzeta", "delt", "tcon0", "lforbal", "nstep", "phiedge", "pmass_type",
          "pres_scale", "gamma", "spres_ped", "ncurr", "piota_type", "pcurr_type", "curtor", "bloat", "lfreeb", "mgrid_file",
          "nvacskip"]
VEC = ["ns_array", "ftol_array", "niter_array", "aphi", "am", "am_aux_s", "am_aux_f", "ai", "ai_aux_s", "ai_aux_f", "ac",
       "ac_aux_s", "ac_aux_f", "extcur"]


def setup():
    global V, U
    V, _ = repo.full(PROPERTY)
    from vmecpp import _util
    U = _util


strings = st.one_of(st.sampled_from(["power_series", "mgrid_cth.nc", "/a b/c!d.nc", "it's", "x'", "''", "a,b", "a/b", "&x", "%", "a\"b"]),
                    st.text("abcXYZ019_./ '-!", min_size=1, max_size=12))


@st.composite
def doc_case(draw):
    d = draw(M.valid_doc(wild=False))
    for k in M.STR:
        if k in d:
            d[k] = draw(strings)
    # the conversion is defined for distinct modes
    for k in M.BND + M.BND_ASYM:
        if k in d:
            seen = {}
            for e in d[k]:
                seen[(e["m"], e["n"])] = e
            d[k] = list(seen.values())
    for k in ("raxis_s", "zaxis_c", "rbs", "zbc"):
        if draw(st.integers(0, 9)) == 0:
            d[k] = None
    return d


def same_num(a, b):
    return isinstance(a, (int, float)) and not isinstance(a, bool) and G.same(float(a), float(b))


def compare(text, doc):
    nml = f90nml.Parser().reads(text)
    check(list(nml.keys()) == ["indata"], "groups %r", list(nml.keys()))
    g = nml["indata"]
    want = {}
    for k in SCALAR:
        if k in doc:
            want[k] = doc[k]
            v = g.get(k)
            if isinstance(doc[k], bool):
                check(v is doc[k], "%s = %r instead of %r", k, v, doc[k])
            elif isinstance(doc[k], str):
                check(v == doc[k], "%s = %r instead of %r", k, v, doc[k])
            elif k in M.INT:
                check(type(v) is int and v == doc[k], "%s = %r instead of %r", k, v, doc[k])
            else:
                check(same_num(v, doc[k]), "%s = %r instead of %r", k, v, doc[k])
    for k in VEC + list(NAMES):
        if doc.get(k):
            f = NAMES.get(k, k)
            want[f] = 1
            v = g.get(f)
            v = v if isinstance(v, list) else [v]
            check(len(v) == len(doc[k]) and all(same_num(a, b) for a, b in zip(v, doc[k])), "%s = %r instead of %r", f, v, doc[k])
    for k in M.BND + M.BND_ASYM:
        if doc.get(k):
            want[k] = 1
            v = g.get(k)
            check(v is not None, "%s is missing", k)
            n0, m0 = g.start_index[k]
            got = {}
            for i, row in enumerate(v):
                for j, x in enumerate(row if isinstance(row, list) else [row]):
                    if x is not None:
                        got[(m0 + i, n0 + j)] = x
            exp = {(e["m"], e["n"]): e["value"] for e in doc[k]}
            check(set(got) == set(exp) and all(same_num(got[q], exp[q]) for q in exp), "%s: %r instead of %r", k, got, exp)
    extra = set(g.keys()) - set(want)
    check(not extra, "unexpected entries %r", extra)


def run_doc(doc):
    before = json.dumps(doc)
    compare(U.vmecpp_json_to_indata(doc), doc)
    check(json.dumps(doc) == before, "the document was modified")
    return {"nontrivial": any(doc.get(k) for k in M.BND + list(NAMES))}


# ---- file level helpers
@st.composite
def file_case(draw):
    name = draw(st.sampled_from("abN7")) + draw(st.text("abcXYZ019_.-", max_size=8))
    return {"doc": draw(doc_case()), "name": name, "style": draw(st.sampled_from(["%s.json", "input.%s", "input.%s.json", "%s"])),
            "lead": draw(st.sampled_from(["", "\n", "! comment\n\n", "  ! x\n"])), "throw": draw(st.booleans())}


class Boom(Exception):
    pass


def run_file(c):
    d = Path(tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"]))
    p = d / (c["style"] % c["name"])
    p.write_text(json.dumps(c["doc"]))
    before = sorted(os.listdir(d))
    check(V.is_vmec2000_input(p) is False, "a JSON file is taken for an INDATA file")
    out = None
    try:
        with V.ensure_vmec2000_input(p) as q:
            out = q
            check(V.is_vmec2000_input(q), "the converted file does not look like INDATA")
            base = p.name.removesuffix(".json").removeprefix("input.")
            check(q.name == "input." + base, "converted file is called %s", q.name)
            compare(q.read_text(), c["doc"])
            with V.ensure_vmec2000_input(q) as q2:
                check(Path(q2) == q, "an INDATA file is not passed through")
            check(q.exists(), "the passed-through file was removed")
            if c["throw"]:
                raise Boom
    except Boom:
        pass
    check(out is not None and not out.exists() and not out.parent.exists(), "the temporary file was left behind")
    check(sorted(os.listdir(d)) == before, "files were left beside the input: %r", os.listdir(d))
    check(p.read_text() == json.dumps(c["doc"]), "the input file was modified")
    with V.ensure_vmecpp_input(p) as q:
        check(Path(q) == p, "a JSON input is not passed through")
    check(p.exists(), "the input file was removed")
    ind = d / "input.foo"
    ind.write_text(c["lead"] + "&INDATA\n/\n")
    check(V.is_vmec2000_input(ind), "INDATA file not recognised")
    return {}


@st.composite
def name_case(draw):
    name = draw(st.text("abcXYZ019_.- ", min_size=1, max_size=10))
    return {"name": name, "style": draw(st.sampled_from(["%s.json", "input.%s", "wout_%s.nc", "%s", "wout_%s", "%s.nc"])),
            "depth": draw(st.integers(0, 3)), "throw": draw(st.booleans())}


def run_name(c):
    n = c["style"] % c["name"]
    if n.endswith(".json"):
        want = n[:-5]
    elif n.startswith("input."):
        want = n[6:]
    elif n.startswith("wout_") and n.endswith(".nc"):
        want = n[5:-3]
    else:
        want = None
    try:
        got = U.get_vmec_configuration_name(Path("/x/y") / n)
    except ValueError:
        got = None
    check(got == want, "configuration name of %r is %r instead of %r", n, got, want)
    base = Path(tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"]))
    here = Path.cwd()

    def nest(k):
        if k == 0:
            if c["throw"]:
                raise Boom
            return
        t = base / ("l%d" % k)
        t.mkdir(exist_ok=True)
        mine = Path.cwd()
        with U.change_working_directory_to(t):
            check(Path.cwd() == t.resolve(), "working directory not changed")
            nest(k - 1)
        check(Path.cwd() == mine, "working directory not restored")
    try:
        nest(c["depth"])
    except Boom:
        pass
    check(Path.cwd() == here, "working directory not restored after an exception")
    return {}


PROPS = [
    Prop("namelist", doc_case, run_doc, quick=800, thorough=8000, shards=4, budget=60),
    Prop("files", file_case, run_file, quick=200, thorough=2000, shards=2, budget=60),
    Prop("names", name_case, run_name, quick=200, thorough=2000, budget=60),
]
