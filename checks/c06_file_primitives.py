"""C06: the low-level readers/writers return exactly what the file holds, or an error."""
import json
import math
import os

import netCDF4
import numpy as np
from hypothesis import strategies as st

from vp import gen as G
from vp import repo
from vp.harness import Prop, Violation, check

PROPERTY = "C06"
RULE = ("A case is one generated document/file (JSON text, netCDF file in one of four on-disk formats, HDF5 dataset, "
        "raw bytes) plus a read request; oracle: the Python value the file was written from (json / netCDF4 / bytes), "
        "bit for bit, or an error for a missing name / wrong kind / wrong rank. Non-trivial: the request names something "
        "stored in the file and its value has at least one element (arrays) or the request is one that has to be rejected.")
ASSUMPTIONS = ["netCDF4-python and nlohmann-json write/parse correctly", "numbers in JSON are within double range"]
VX = None


def setup():
    global VX
    VX, = repo.modules(PROPERTY, ["vx_util"])


def tmp(name):
    return os.path.join(os.environ["VERIF_SCRATCH"], "%s-%d" % (name, os.getpid()))


# ---------------------------------------------------------------- JSON
scalar_json = st.one_of(
    st.none(), st.booleans(), G.finite, st.integers(-10**6, 10**6),
    st.integers(-2**63, 2**64 - 1), st.sampled_from([2**31, 2**31 - 1, -2**31, -2**31 - 1, 2**32 + 6]),
    st.text(max_size=8), st.sampled_from(["true", "1", "1.5", "\u00e9\u4e2d", "a\nb", "\"", "\\"]))
json_value = st.one_of(
    scalar_json,
    st.lists(st.one_of(st.integers(-9, 9), G.int32), max_size=6),
    st.lists(st.one_of(G.finite, st.integers(-2**33, 2**33)), max_size=6),
    st.lists(scalar_json, max_size=5),
    st.integers(100, 1500).map(lambda n: G.pattern(n, n)),
    st.integers(100, 1500).map(lambda n: [(i * 7919) % 10007 - 5000 for i in range(n)]),
    st.dictionaries(G.ident, st.integers(-3, 3), max_size=2))


@st.composite
def json_case(draw):
    names = draw(st.lists(G.ident, min_size=1, max_size=4, unique=True))
    doc = {n: draw(json_value) for n in names}
    name = draw(st.one_of(st.sampled_from(names), st.sampled_from(names), st.sampled_from(names), G.ident))
    return {"doc": doc, "name": name, "indent": draw(st.sampled_from([None, 1]))}


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def in32(v):
    return -2**31 <= v <= 2**31 - 1


def in64(v):
    return -2**63 <= v <= 2**64 - 1


def run_json(c):
    text = json.dumps(c["doc"], indent=c["indent"])
    name = c["name"]
    present = name in c["doc"]
    v = c["doc"].get(name)
    labels = []

    def one(kind, fn, accept, expected, eq):
        ok, got = fn(text, name)
        if not present:
            check(ok and got is None, "%s: missing element '%s' is not reported as absent: %r", kind, name, (ok, got))
        elif accept:
            check(ok and got is not None, "%s: valid element rejected: %s", kind, got)
            check(eq(got, expected), "%s: read %r, the document says %r", kind, got, expected)
            labels.append(kind)
        else:
            check(not ok, "%s: element %r is not of that kind but was read as %r", kind, v, got)
            check(name in got, "%s: error does not name the element: %r", kind, got)

    one("bool", VX.json_bool, isinstance(v, bool), v, lambda a, b: a is b)
    one("int", VX.json_int, is_int(v) and in32(v), v, lambda a, b: a == b)
    one("double", VX.json_double, is_num(v), float(v) if is_num(v) else None, G.same)
    one("string", VX.json_string, isinstance(v, str), v, lambda a, b: a == b)
    lst = isinstance(v, list)
    one("vint", VX.json_vint, lst and all(is_int(x) and in32(x) for x in v), v,
        lambda a, b: list(map(int, a)) == b)
    one("vdouble", VX.json_vdouble, lst and all(is_num(x) for x in v),
        [float(x) for x in v] if lst and all(is_num(x) for x in v) else None, G.same_list)
    return {"labels": labels, "nontrivial": present}


# ---------------------------------------------------------------- netCDF
FORMATS = ["NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF4", "NETCDF4_CLASSIC"]


@st.composite
def nc_case(draw):
    nvar = draw(st.integers(1, 4))
    vs = []
    for i in range(nvar):
        kind = draw(st.sampled_from(["d", "d", "d", "f", "i", "c", "bool", "s"]))
        name = "v%d" % i + draw(st.sampled_from(["", "_x", "_b"]))
        if kind in "dfi":
            rank = draw(st.integers(0, 4))
            big = draw(st.integers(0, 5)) == 0
            shape = [draw(st.integers(1, ([1, 3000, 70, 20, 5][rank]) if big else 4)) for _ in range(rank)]
            n = int(np.prod(shape)) if shape else 1
            el = {"d": G.any_double, "f": st.floats(width=32), "i": G.int32}[kind]
            if n <= 64:
                data = draw(st.lists(el, min_size=n, max_size=n))
            else:
                data = {"pattern": draw(st.integers(0, 10**6)), "n": n}
            vs.append({"name": name, "kind": kind, "shape": shape, "data": data})
        elif kind == "bool":
            vs.append({"name": name, "kind": "bool", "value": draw(st.sampled_from([0, 1, 1, -1, 7, 2**31 - 1, 256]))})
        else:
            s = draw(st.one_of(
                st.text("abcXYZ 019.,_-\t", min_size=1, max_size=12),
                st.text("ab ", min_size=1, max_size=3),
                st.text("abc \t,0", min_size=60, max_size=400),
                st.text("abcXYZ019", min_size=1, max_size=1)))
            vs.append({"name": name, "kind": "s", "value": s})
    return {"format": draw(st.sampled_from(FORMATS)), "vars": vs}


def expand(d):
    if isinstance(d, dict):
        return [float(np.float32(int(1000 * x))) for x in G.pattern(d["pattern"], d["n"])]
    return d


def run_nc(c):
    path = tmp("f.nc")
    for v in c["vars"]:
        if "data" in v:
            v["data"] = expand(v["data"])
    with netCDF4.Dataset(path, "w", format=c["format"]) as f:
        f.set_auto_mask(False)
        for v in c["vars"]:
            if v["kind"] in ("d", "f", "i"):
                dims = []
                for k, n in enumerate(v["shape"]):
                    d = "%s_%d" % (v["name"], k)
                    f.createDimension(d, n)
                    dims.append(d)
                x = f.createVariable(v["name"], {"d": "f8", "f": "f4", "i": "i4"}[v["kind"]], tuple(dims),
                                     fill_value=False)
                arr = np.array(v["data"], dtype={"d": "f8", "f": "f4", "i": "i4"}[v["kind"]]).reshape(v["shape"])
                x[...] = arr
            elif v["kind"] == "bool":
                x = f.createVariable(v["name"] + "__logical__", "i4", ())
                x[...] = v["value"]
            else:
                b = v["value"].encode("ascii")
                d = v["name"] + "_len"
                f.createDimension(d, len(b))
                x = f.createVariable(v["name"], "S1", (d,))
                x[:] = np.frombuffer(b, dtype="S1")
    labels = []
    for v in c["vars"]:
        n = v["name"]
        res = {k: getattr(VX, "nc_" + k)(path, n) for k in ("bool", "int", "double", "1d", "2d", "3d", "string", "char")}
        if v["kind"] == "bool":
            check(res["bool"] == (True, v["value"] != 0), "bool %r read as %r", v["value"], res["bool"])
            for k in ("int", "double", "1d", "2d", "3d", "string", "char"):
                check(not res[k][0], "'%s' does not exist but was read as %s: %r", n, k, res[k])
            labels.append("bool")
            continue
        check(not res["bool"][0], "no logical variable '%s' but read as bool", n)
        if v["kind"] == "s":
            ok, got = res["string"]
            check(ok, "string rejected: %s", got)
            exp = v["value"].encode().strip(b" \t\n\r\f\v")
            check(got == exp, "string read as %r, file holds %r", got, v["value"])
            ok, got = res["char"]
            if len(v["value"]) == 1:
                check(ok and got == ord(v["value"]), "char read as %r, file holds %r", got, v["value"])
                labels.append("char")
            else:
                check(not ok, "char read from a length-%d array", len(v["value"]))
            for k in ("int", "double", "2d", "3d", "1d"):
                check(not res[k][0], "text variable read as %s: %r", k, res[k])
            labels.append("string")
            continue
        rank = len(v["shape"])
        arr = np.array(v["data"], dtype={"d": "f8", "f": "f4", "i": "i4"}[v["kind"]]).reshape(v["shape"])
        for k, r in (("double", 0), ("1d", 1), ("2d", 2), ("3d", 3)):
            ok, got = res[k]
            if rank == r:
                check(ok, "rank-%d array '%s' rejected: %s", r, n, got)
                g = np.array(got, dtype=float)
                check(list(g.shape) == v["shape"], "shape %s read as %s", v["shape"], g.shape)
                check(G.same_list(g.ravel(), arr.astype(float).ravel()), "%s '%s' (%s): read %r, file holds %r",
                      k, n, v["kind"], g.tolist(), arr.tolist())
                labels.append("%s:%s" % (k, v["kind"]))
            else:
                check(not ok, "rank-%d variable was read as %s", rank, k)
        ok, got = res["int"]
        if rank == 0 and v["kind"] == "i":
            check(ok and got == int(arr), "int read as %r, file holds %r", got, int(arr))
            labels.append("int")
        elif rank != 0:
            check(not ok, "rank-%d variable was read as int", rank)
        for k in ("string", "char"):
            check(not res[k][0], "numeric variable was read as %s: %r", k, res[k])
    for k in ("bool", "int", "double", "1d", "2d", "3d", "string", "char"):
        ok, got = getattr(VX, "nc_" + k)(path, "no_such_variable")
        check(not ok and "no_such_variable" in got, "missing variable read as %s: %r", k, got)
    os.unlink(path)
    return {"labels": labels}


# ---------------------------------------------------------------- HDF5
@st.composite
def h5_case(draw):
    kind = draw(st.sampled_from(["matrix", "vd", "vi", "svd", "svi", "vs", "s", "d", "i", "b", "nd", "ndi",
                                 "mat_ext", "vec_ext"]))
    txt = st.text(st.characters(blacklist_characters="\0", blacklist_categories=["Cs"]), max_size=draw(st.sampled_from([8, 8, 40, 300])))
    if kind in ("matrix", "mat_ext"):
        lo, hi = 0 if kind == "matrix" else 1, draw(st.sampled_from([5, 5, 5, 60]))
        r, cc = draw(st.integers(lo, hi)), draw(st.integers(lo, hi))
        return {"kind": kind, "rows": r, "cols": cc, "x": draw(G.doubles(r * cc))}
    if kind in ("vd", "svd", "vec_ext"):
        n = draw(st.integers(1 if kind == "vec_ext" else 0, draw(st.sampled_from([12, 12, 12, 3000]))))
        return {"kind": kind, "x": draw(G.doubles(n))}
    if kind in ("vi", "svi"):
        return {"kind": kind, "x": draw(st.lists(G.int32, max_size=12))}
    if kind == "vs":
        return {"kind": kind, "x": draw(st.lists(txt, max_size=5))}
    if kind == "s":
        return {"kind": kind, "x": draw(txt)}
    if kind == "d":
        return {"kind": kind, "x": draw(G.any_double)}
    if kind == "i":
        return {"kind": kind, "x": draw(G.int32)}
    if kind == "b":
        return {"kind": kind, "x": draw(st.booleans())}
    dims = draw(st.lists(st.integers(1, 4), min_size=1, max_size=4))
    n = int(np.prod(dims))
    return {"kind": kind, "dims": dims,
            "x": draw(st.lists(G.any_double if kind == "nd" else G.int32, min_size=n, max_size=n))}


def run_h5(c):
    p = tmp("f.h5")
    k, x = c["kind"], c["x"]
    nontriv = True
    if k == "matrix":
        a = np.array(x, dtype=float).reshape(c["rows"], c["cols"])
        g = VX.h5_matrix(p, a)
        check(g.shape == a.shape, "matrix shape %s read back as %s", a.shape, g.shape)
        check(G.same_list(g.ravel(), a.ravel()), "matrix %r read back as %r", a.tolist(), g.tolist())
        nontriv = a.size > 1
    elif k == "mat_ext":  # written here, read by an independent HDF5 reader, and the other way round
        a = np.array(x, dtype=float).reshape(c["rows"], c["cols"])
        VX.h5_write_matrix(p, a)
        with netCDF4.Dataset(p) as f:
            f.set_auto_mask(False)
            g = np.array(f.variables["x"][...])
        check(g.shape == a.shape and G.same_list(g.ravel(), a.ravel()), "matrix file holds %r instead of %r", g, a)
        with netCDF4.Dataset(p, "w") as f:
            f.createDimension("r", a.shape[0])
            f.createDimension("c", a.shape[1])
            f.createVariable("y", "f8", ("r", "c"))[...] = a
        g = VX.h5_read_matrix(p, "y")
        check(g.shape == a.shape and G.same_list(g.ravel(), a.ravel()), "matrix %r read as %r", a, g)
    elif k == "vec_ext":
        a = np.array(x, dtype=float)
        VX.h5_write_vd(p, a)
        with netCDF4.Dataset(p) as f:
            f.set_auto_mask(False)
            g = np.array(f.variables["x"][...])
        check(G.same_list(g, a), "vector file holds %r instead of %r", g, a)
        with netCDF4.Dataset(p, "w") as f:
            f.createDimension("r", a.shape[0])
            f.createVariable("y", "f8", ("r",))[...] = a
        check(G.same_list(VX.h5_read_vd(p, "y"), a), "vector %r read as %r", a, VX.h5_read_vd(p, "y"))
    elif k in ("vd", "svd"):
        g = getattr(VX, "h5_" + k)(p, x)
        check(G.same_list(np.ravel(g), x), "%r read back as %r", x, g)
        nontriv = len(x) > 0
    elif k in ("vi", "svi"):
        g = getattr(VX, "h5_" + k)(p, x)
        check([int(v) for v in np.ravel(g)] == x, "%r read back as %r", x, g)
        nontriv = len(x) > 0
    elif k == "d":
        check(G.same(VX.h5_d(p, x), x), "double %r read back as %r", x, VX.h5_d(p, x))
    elif k in ("nd", "ndi"):
        g, d, rank = getattr(VX, "h5_" + k)(p, x, c["dims"])
        check(list(d) == c["dims"] and rank == len(c["dims"]), "extent %s read back as %s rank %d", c["dims"], d, rank)
        check(G.same_list(g, x) if k == "nd" else list(g) == x, "%r read back as %r", x, g)
    else:
        g = getattr(VX, "h5_" + k)(p, x)
        check(g == x, "%r read back as %r", x, g)
    os.unlink(p)
    return {"labels": [k], "nontrivial": nontriv}


# ---------------------------------------------------------------- plain files
file_case = st.one_of(
    st.binary(max_size=200).map(lambda b: {"hex": b.hex(), "rep": 1}),
    st.tuples(st.binary(min_size=1, max_size=64), st.integers(50, 40000)).map(lambda t: {"hex": t[0].hex(), "rep": t[1]}))


def run_file(c):
    b = bytes.fromhex(c["hex"]) * c["rep"]
    p = tmp("plain")
    with open(p, "wb") as f:
        f.write(b)
    ok, got = VX.read_file(p)
    check(ok and got == b, "file contents not read back (%d bytes)", len(b))
    q = p + ".out"
    with open(q, "wb") as f:
        f.write(b"previous contents" * 400)
    check(VX.write_file(q, b), "write failed")
    with open(q, "rb") as f:
        check(f.read() == b, "file holds something else than what was written (%d bytes)", len(b))
    ok, got = VX.read_file(p + ".missing")
    check(not ok, "a missing file was read")
    check(not VX.write_file(p + ".nodir/x", b), "writing into a missing directory reported success")
    os.unlink(p)
    os.unlink(q)
    return {"nontrivial": len(b) > 0}


# ---------------------------------------------------------------- tolerance comparison
@st.composite
def close_case(draw):
    n = draw(st.integers(0, 4))
    a = draw(st.lists(G.any_double, min_size=n, max_size=n))
    tol = draw(st.sampled_from([0.0, 1e-12, 1e-6, 1e-2, 0.5]))
    b = []
    for x in a:
        how = draw(st.sampled_from(["same", "same", "near", "any"]))
        if how == "same" or (how == "near" and not math.isfinite(x)):
            b.append(x)
        elif how == "near":
            b.append(x + draw(st.sampled_from([-2, -0.5, 0.5, 2])) * tol * (1 + abs(x)))
        else:
            b.append(draw(G.any_double))
    if draw(st.integers(0, 4)) == 0:
        b = b + [0.0] if draw(st.booleans()) else b[:-1]
    return {"a": a, "b": b, "tol": tol}


def run_close(c):
    a, b, t = c["a"], c["b"], c["tol"]

    def close(e, g):
        """True / False / None when the definition leaves it to rounding or infinities."""
        if math.isnan(e) or math.isnan(g):
            return math.isnan(e) and math.isnan(g)
        if math.isinf(e) or math.isinf(g):
            return None
        err = abs(g - e) / (1 + abs(e))
        if math.isinf(abs(g - e)) or math.isnan(err):
            return None
        if abs(err - t) <= 1e-9 * t:
            return None
        return err <= t
    if len(a) == len(b):
        rs = [close(x, y) for x, y in zip(a, b)]
        for x, y, r in zip(a, b, rs):
            if r is not None:
                check(VX.is_close(x, y, t) == r, "is_close(%r, %r, %g) != %s", x, y, t, r)
        exp = None if None in rs and all(r in (None, True) for r in rs) else all(r is True for r in rs)
    else:
        exp = False
    if exp is not None:
        check(VX.is_vclose(a, b, t) == exp, "vector comparison of %r, %r, %g != %s", a, b, t, exp)
        check(VX.is_evclose(np.array(a), np.array(b), t) == exp, "vector comparison of %r, %r, %g != %s", a, b, t, exp)
    return {"nontrivial": len(a) > 0, "labels": [str(exp)]}


PROPS = [
    Prop("json", json_case, run_json, quick=2000, thorough=40000, shards=2, budget=40),
    Prop("netcdf", nc_case, run_nc, quick=1000, thorough=20000, shards=2, budget=40),
    Prop("hdf5", h5_case, run_h5, quick=1500, thorough=20000, shards=2, budget=40),
    Prop("file", lambda: file_case, run_file, quick=300, thorough=3000, budget=30),
    Prop("tolerance", close_case, run_close, quick=800, thorough=8000, budget=30),
]
