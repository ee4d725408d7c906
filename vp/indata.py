"""Reference model of the VMEC++ input file: defaults, rules, parser; and generators of documents."""
import math

from hypothesis import strategies as st

from vp import gen as G

INT = ["nfp", "mpol", "ntor", "mpol_geometry", "ntor_geometry", "ntheta", "nzeta", "ncurr", "nvacskip", "nstep"]
DBL = ["phiedge", "pres_scale", "gamma", "spres_ped", "curtor", "bloat", "delt", "tcon0"]
BOOL = ["lasym", "lfreeb", "lforbal", "return_outputs_even_if_not_converged"]
STR = ["pmass_type", "piota_type", "pcurr_type", "mgrid_file"]
ENUM = {"free_boundary_method": ["nestor", "only_coils", "biest"], "iteration_style": ["vmec_8_52", "parvmec"]}
VINT = ["ns_array", "niter_array"]
VDBL = ["ftol_array", "am", "am_aux_s", "am_aux_f", "ai", "ai_aux_s", "ai_aux_f", "ac", "ac_aux_s", "ac_aux_f",
        "extcur", "aphi"]
AXIS = ["raxis_c", "zaxis_s"]
AXIS_ASYM = ["raxis_s", "zaxis_c"]
BND = ["rbc", "zbs"]
BND_ASYM = ["rbs", "zbc"]
ALL = INT + DBL + BOOL + STR + list(ENUM) + VINT + VDBL + AXIS + AXIS_ASYM + BND + BND_ASYM


def defaults():
    return dict(
        lasym=False, nfp=1, mpol=6, ntor=0, mpol_geometry=-1, ntor_geometry=-1, ntheta=0, nzeta=0,
        ns_array=[31], ftol_array=[1e-10], niter_array=[100], phiedge=1.0, ncurr=0,
        pmass_type="power_series", am=[], am_aux_s=[], am_aux_f=[], pres_scale=1.0, gamma=0.0, spres_ped=1.0,
        piota_type="power_series", ai=[], ai_aux_s=[], ai_aux_f=[],
        pcurr_type="power_series", ac=[], ac_aux_s=[], ac_aux_f=[], curtor=0.0, bloat=1.0,
        lfreeb=False, mgrid_file="NONE", extcur=[], nvacskip=1, free_boundary_method="nestor",
        nstep=10, aphi=[1.0], delt=1.0, tcon0=1.0, lforbal=False, iteration_style="vmec_8_52",
        return_outputs_even_if_not_converged=False,
        raxis_c=[0.0], zaxis_s=[0.0], raxis_s=None, zaxis_c=None, rbc=None, zbs=None, rbs=None, zbc=None)


class Reject(Exception):
    pass


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def _int(v):
    if not is_int(v) or not -2**31 <= v < 2**31:
        raise Reject("int")
    return v


def _dbl(v):
    if not is_num(v):
        raise Reject("double")
    return float(v)


def _entries(v):
    """(m, n, value) of a boundary list; entries without one of the three are skipped."""
    if not isinstance(v, list):
        raise Reject("boundary is not a list")
    out = []
    for e in v:
        if not isinstance(e, dict):
            raise Reject("boundary entry is not an object")
        if "m" not in e:
            continue
        m = _int(e["m"])
        if "n" not in e:
            continue
        n = _int(e["n"])
        if "value" not in e:
            continue
        out.append((m, n, _dbl(e["value"])))
    return out


def dense(entries, mpol, ntor):
    a = [[0.0] * (2 * ntor + 1) for _ in range(mpol)]
    for m, n, v in entries:
        if 0 <= m < mpol and -ntor <= n <= ntor:
            a[m][n + ntor] = v
    return a


def rules(d):
    """The documented consistency rules (vmec_indata.h / IsConsistent), without the array shapes."""
    if d["nfp"] <= 0 or d["mpol"] < 2 or d["ntor"] < 0 or d["ntheta"] < 0 or d["nzeta"] < 0:
        raise Reject("resolution")
    ns = d["ns_array"]
    if len(ns) == 0 or any(x < 3 for x in ns) or any(b < a for a, b in zip(ns, ns[1:])):
        raise Reject("ns_array")
    if len(d["ftol_array"]) != len(ns) or any(x < 0 for x in d["ftol_array"]):
        raise Reject("ftol_array")
    if len(d["niter_array"]) != len(ns) or any(x <= 0 for x in d["niter_array"]):
        raise Reject("niter_array")
    if d["phiedge"] == 0 or d["ncurr"] not in (0, 1) or d["pres_scale"] < 0 or d["gamma"] == 1:
        raise Reject("physics")
    if not 0 < d["spres_ped"] <= 1:
        raise Reject("spres_ped")
    if d["ncurr"] == 0 and d["bloat"] != 1:
        raise Reject("bloat")
    if d["lfreeb"] and (d["nvacskip"] < 1 or d["free_boundary_method"] not in ("nestor", "only_coils")):
        raise Reject("free boundary")
    if d["nstep"] <= 0 or not 0 < d["delt"] <= 10 or not 0 <= d["tcon0"] <= 1:
        raise Reject("tweaking")


def parse(doc):
    """What VMEC++ has to understand; raises Reject. rbc/zbs may stay None (document without boundary)."""
    if not isinstance(doc, dict):
        raise Reject("root")
    d = defaults()
    for k in INT:
        if k in doc:
            d[k] = _int(doc[k])
    for k in DBL:
        if k in doc:
            d[k] = _dbl(doc[k])
    for k in BOOL:
        if k in doc:
            if not isinstance(doc[k], bool):
                raise Reject(k)
            d[k] = doc[k]
    for k in STR:
        if k in doc:
            if not isinstance(doc[k], str):
                raise Reject(k)
            d[k] = doc[k]
    for k, vals in ENUM.items():
        if k in doc:
            if doc[k] not in vals or not isinstance(doc[k], str):
                raise Reject(k)
            d[k] = doc[k]
    for k in VINT:
        if k in doc:
            if not isinstance(doc[k], list):
                raise Reject(k)
            d[k] = [_int(x) for x in doc[k]]
    for k in VDBL:
        if k in doc:
            if not isinstance(doc[k], list):
                raise Reject(k)
            d[k] = [_dbl(x) for x in doc[k]]
    for p in ("am", "ai", "ac"):
        if len(d[p + "_aux_s"]) != len(d[p + "_aux_f"]):
            raise Reject(p + "_aux")
    if d["ntor"] < 0 or d["mpol"] < 2:
        raise Reject("resolution")
    for k in AXIS + (AXIS_ASYM if d["lasym"] else []):
        v = doc.get(k, [])
        if not isinstance(v, list):
            raise Reject(k)
        v = [_dbl(x) for x in v]
        if len(v) > d["ntor"] + 1:
            raise Reject(k + " too long")
        d[k] = v + [0.0] * (d["ntor"] + 1 - len(v))
    for k in BND + (BND_ASYM if d["lasym"] else []):
        if k in doc:
            d[k] = dense(_entries(doc[k]), d["mpol"], d["ntor"])
        elif k in BND_ASYM:
            d[k] = dense([], d["mpol"], d["ntor"])
    rules(d)
    return d


# ---------------------------------------------------------------- generators
def text(n):
    """Names as a user can type them; NUL cannot be part of a C string in HDF5."""
    return st.text(st.characters(exclude_characters="\0", exclude_categories=["Cs"]), max_size=n)


name_s = st.one_of(st.sampled_from(["power_series", "cubic_spline", "akima_spline", "line_segment", "two_power",
                                    "sum_atan", "", "Power_Series", "pedestal_\u00e9"]), text(6))
pos = st.one_of(st.floats(1e-300, 1e300), st.sampled_from([1e-15, 1e-10, 5e-324]))


def arr(max_size=5, element=G.finite):
    return st.lists(element, max_size=max_size)


VALID = {
    "lasym": st.booleans(), "nfp": st.one_of(st.integers(1, 9), st.just(2**31 - 1)),
    "mpol_geometry": st.integers(-1, 9), "ntor_geometry": st.integers(-1, 9),
    "ntheta": st.one_of(st.integers(0, 40), st.just(2**31 - 1)), "nzeta": st.integers(0, 40),
    "phiedge": G.finite.filter(lambda x: x != 0), "ncurr": st.integers(0, 1),
    "pmass_type": name_s, "piota_type": name_s, "pcurr_type": name_s,
    "am": arr(), "ai": arr(), "ac": arr(), "aphi": arr(), "extcur": arr(),
    "pres_scale": st.one_of(st.just(0.0), pos), "gamma": G.finite.filter(lambda x: x != 1),
    "spres_ped": st.one_of(st.floats(0, 1, exclude_min=True), st.sampled_from([1.0, 5e-324, 0.5])),
    "curtor": G.finite, "lfreeb": st.booleans(), "mgrid_file": st.one_of(st.sampled_from(["NONE", "mgrid_x.nc"]), text(8)),
    "nvacskip": st.one_of(st.integers(1, 20), st.just(2**31 - 1)), "free_boundary_method": st.sampled_from(["nestor", "only_coils"]),
    "nstep": st.one_of(st.integers(1, 300), st.just(2**31 - 1)),
    "delt": st.one_of(st.floats(0, 10, exclude_min=True), st.sampled_from([10.0, 5e-324, 0.9])),
    "tcon0": st.one_of(st.floats(0, 1), st.sampled_from([0.0, 1.0, -0.0])),
    "lforbal": st.booleans(), "iteration_style": st.sampled_from(["vmec_8_52", "parvmec"]),
    "return_outputs_even_if_not_converged": st.booleans(),
}


@st.composite
def entries(draw, mpol, ntor, wild=True):
    """A boundary list: duplicates, zeros, out-of-range modes, incomplete entries included."""
    out = []
    for _ in range(draw(st.integers(0, 6))):
        m = st.integers(0, mpol - 1)
        n = st.integers(-ntor, ntor)
        if wild:
            m = st.one_of(m, m, m, st.integers(-2, mpol + 2), st.sampled_from([2**31 - 1, -2**31, -1, mpol]))
            n = st.one_of(n, n, n, st.integers(-ntor - 2, ntor + 2), st.sampled_from([2**31 - 1, -2**31, -ntor - 1, ntor + 1]))
        e = {"m": draw(m), "n": draw(n), "value": draw(st.one_of(G.finite, st.integers(-3, 3)))}
        if wild and draw(st.integers(0, 14)) == 0:
            del e[draw(st.sampled_from(["m", "n", "value"]))]
        if wild and draw(st.integers(0, 14)) == 0:
            e["comment"] = "x"
        out.append(e)
    return out


@st.composite
def valid_doc(draw, full=False, wild=True):
    """A document that has to be accepted."""
    d = {}

    def want():
        return full or draw(st.integers(0, 3)) > 0
    if want() or draw(st.booleans()):
        d["mpol"] = draw(st.integers(2, 9))
        d["ntor"] = draw(st.integers(0, 5))
    mpol, ntor = d.get("mpol", 6), d.get("ntor", 0)
    for k, s in VALID.items():
        if want():
            d[k] = draw(s)
    if want():
        n = draw(st.integers(1, 4))
        d["ns_array"] = sorted(draw(st.lists(st.integers(3, 99), min_size=n, max_size=n)))
        d["ftol_array"] = draw(st.lists(st.one_of(pos, st.just(0.0)), min_size=n, max_size=n))
        d["niter_array"] = draw(st.lists(st.one_of(st.integers(1, 9999), st.just(2**31 - 1)), min_size=n, max_size=n))
    for p in ("am", "ai", "ac"):
        if want():
            n = draw(st.integers(0, 4))
            d[p + "_aux_s"] = draw(st.lists(G.finite, min_size=n, max_size=n))
            d[p + "_aux_f"] = draw(st.lists(G.finite, min_size=n, max_size=n))
    if d.get("ncurr", 0) == 1 and want():
        d["bloat"] = draw(G.finite)
    elif want():
        d["bloat"] = 1.0
    for k in AXIS + AXIS_ASYM:
        if k in AXIS_ASYM and not d.get("lasym") and not wild:
            continue
        if want():
            n = ntor + 1 if draw(st.booleans()) else draw(st.integers(0, ntor + 1))
            d[k] = draw(st.lists(G.finite, min_size=n, max_size=n))
    for k in BND + BND_ASYM:
        if k in BND_ASYM and not d.get("lasym") and not wild:
            continue
        if k in BND or want():
            d[k] = draw(entries(mpol, ntor, wild))
    if wild and draw(st.integers(0, 4)) == 0:   # unknown keys are ignored
        d["comment_" + draw(G.ident)] = draw(st.one_of(st.integers(), st.text(max_size=3)))
    return d


junk = st.one_of(st.none(), st.booleans(), st.text(max_size=3), st.integers(-3, 3), st.floats(-3, 3),
                 st.sampled_from([2**31, -2**31 - 1, 2**63, 1.5, "1", "true", [], {}, [1], [1.5], ["a"], [None],
                                  [[1]], {"m": 1}]))
EDGE = {
    "nfp": [0, -1, -2**31, 1], "mpol": [1, 0, -1, 2, -5], "ntor": [-1, -2, -7, 0], "ntheta": [-1, 0], "nzeta": [-1, 0],
    "ns_array": [[], [2], [3], [0], [-1], [5, 3], [3, 3], [5, 9, 8]], "ftol_array": [[], [-1.0], [0.0], [1e-8, 1e-9], [-5e-324], [-0.0]],
    "niter_array": [[], [0], [-1], [1], [1, 1]], "phiedge": [0, 0.0, -0.0, 5e-324], "ncurr": [2, -1, 0, 1],
    "pres_scale": [-1.0, -5e-324, 0, -0.0], "gamma": [1, 1.0, 1.0000000000000002, 0.9999999999999999],
    "spres_ped": [0, -0.1, 1, 1.0000000000000002, 5e-324, 2], "bloat": [1, 1.0000000000000002, 0.5, 0],
    "nvacskip": [0, -1, 1], "free_boundary_method": ["biest", "NESTOR", "", "nestor "], "iteration_style": ["VMEC_8_52", "", "parvmec2"],
    "nstep": [0, -1, 1], "delt": [0, -1, 10, 10.000000000000002, 5e-324, 11], "tcon0": [-5e-324, 1.0000000000000002, 1, 0, 2],
    "am_aux_s": [[0.5], []], "ai_aux_f": [[0.1, 0.2]], "ac_aux_s": [[1]], "lfreeb": [True], "lasym": [True, False],
    "raxis_c": [[1.0] * 9, []], "zaxis_s": [[0.0] * 9, []], "raxis_s": [[1.0] * 9, []], "zaxis_c": [[0.0] * 9],
}


@st.composite
def mutated_doc(draw):
    """A valid document with 1..3 changes, each of which may or may not make it invalid."""
    d = draw(valid_doc())
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
        kind = draw(st.integers(0, 5))
        if kind <= 1:
            k = draw(st.sampled_from(sorted(EDGE)))
            d[k] = draw(st.sampled_from(EDGE[k]))
        elif kind == 2:
            d[draw(st.sampled_from(ALL))] = draw(junk)
        elif kind == 3 and d:
            d.pop(draw(st.sampled_from(sorted(d))))
        elif kind == 4:
            k = draw(st.sampled_from([x for x in d if isinstance(d[x], list) and d[x]] or ["ns_array"]))
            if d.get(k):
                i = draw(st.integers(0, len(d[k]) - 1))
                v = list(d[k])
                if isinstance(v[i], dict) and v[i] and draw(st.booleans()):
                    e = dict(v[i])
                    kk = draw(st.sampled_from(sorted(e)))
                    if kk in ("m", "n", "value") and all(x in e for x in ("m", "n", "value")):
                        e[kk] = draw(junk)
                    v[i] = e
                else:
                    v[i] = draw(junk)
                d[k] = v
        else:
            k = draw(st.sampled_from([x for x in d if isinstance(d[x], list)] or ["am"]))
            d[k] = list(d.get(k, [])) + [draw(st.one_of(G.finite, st.integers(3, 9)))]
    return d


def as_fields(d):
    """The reference's idea of the parsed object, as vx_indata.fields() reports it."""
    return d


def field_equal(k, a, b):
    if a is None or b is None:
        return a is None and b is None
    if k in INT or k in BOOL or k in STR or k in ENUM:
        return type(a) is type(b) and a == b
    if k in DBL:
        return G.same(a, b)
    if k in BND + BND_ASYM:
        a = [list(r) for r in a]
        b = [list(r) for r in b]
        return len(a) == len(b) and all(G.same_list(x, y) for x, y in zip(a, b))
    if k in VINT:
        return [int(x) for x in a] == [int(x) for x in b]
    return G.same_list(a, b)


def diff(a, b, fields=ALL, zero_sign=True):
    for k in fields:
        if not field_equal(k, a[k], b[k]):
            return "field %s: %r instead of %r" % (k, _short(a[k]), _short(b[k]))
    return None


def _short(v):
    s = repr(v)
    return s if len(s) < 300 else s[:300] + "..."


def plain(v):
    """numpy / nested -> plain python"""
    import numpy as np
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, np.generic):
        return v.item()
    return v
