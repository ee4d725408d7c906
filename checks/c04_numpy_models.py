"""C04: BaseModelWithNumpy models survive JSON, whatever the declared container and the stored numbers."""
import json
import math
from typing import Annotated, Any, Literal, Optional, Union

import jaxtyping as jt
import numpy as np
import pydantic
from hypothesis import strategies as st

from vp import gen as G
from vp import repo
from vp.harness import Prop, Violation, check

PROPERTY = "C04"
RULE = ("A case is a model type (1..4 fields, each a declared type built from arrays with shape/dtype annotations, Optional, Union, list, "
        "tuple, dict, nested models, Literal, Annotated, scalars) and a value for it (float64 incl. NaN, +-inf, denormals, int64 up to the "
        "limits, bool; 1..3 dimensions). It is dumped with model_dump_json and model_dump(mode='json'), and read back; values, "
        "shapes and dtypes must be identical and the JSON must be strict (no bare NaN). Non-trivial: some array with at least two elements.")
ASSUMPTIONS = ["arrays with zero elements are one-dimensional float arrays; zero-dimensional arrays are not declared"]
B = None


def setup():
    global B
    repo.pure()
    from vmecpp import _pydantic_numpy
    B = _pydantic_numpy
    global jnp
    import jax
    jax.config.update("jax_enable_x64", True)
    import jax.numpy as jnp


int64 = st.one_of(st.integers(-2**63, 2**63 - 1), st.integers(-3, 3), st.sampled_from([2**53 + 1, -2**53 - 1]))


@st.composite
def arr(draw, dt=None):
    dt = dt or draw(st.sampled_from(["f", "f", "i", "b"]))
    nd = draw(st.integers(1, 3))
    shape = draw(st.lists(st.integers(1, 3), min_size=nd, max_size=nd))
    if nd == 1 and draw(st.integers(0, 5)) == 0:
        shape = [draw(st.integers(0, 12))] if dt == "f" else [draw(st.integers(1, 12))]
    n = math.prod(shape)
    el = {"f": G.any_double, "i": int64, "b": st.booleans()}[dt]
    v = draw(st.lists(el, min_size=n, max_size=n))
    return {"a": dt, "shape": shape, "v": [enc(x) for x in v]}


def enc(x):
    if isinstance(x, float) and (math.isnan(x) or math.isinf(x)):
        return {"f": repr(x)}
    return x


def dec(x):
    return float(x["f"]) if isinstance(x, dict) else x


scalar_types = {"int": (int, st.integers(-2**60, 2**60)), "float": (float, G.any_double), "str": (str, st.text(max_size=5)),
                "bool": (bool, st.booleans())}


@st.composite
def field(draw, depth=0):
    """-> {"t": type description, "v": value description}"""
    kinds = ["arr", "arr", "jarr", "opt", "scalar", "lit", "uni"]
    if depth < 2:
        kinds += ["list", "tuple", "ntuple", "dict", "model", "ann", "deepopt"]
    k = draw(st.sampled_from(kinds))
    if k == "arr":
        return {"t": ["arr"], "v": draw(arr())}
    if k == "jarr":
        a = draw(arr())
        return {"t": ["jarr", a["a"], len(a["shape"])], "v": a}
    if k == "opt":
        return {"t": ["opt", ["arr"]], "v": draw(st.one_of(st.none(), arr()))}
    if k == "scalar":
        n = draw(st.sampled_from(sorted(scalar_types)))
        return {"t": ["scalar", n], "v": enc(draw(scalar_types[n][1]))}
    if k == "lit":
        return {"t": ["lit"], "v": draw(st.sampled_from(["a", "b", 3]))}
    if k == "uni":
        return {"t": ["uni"], "v": draw(st.one_of(arr("f"), st.text(max_size=4), st.floats(allow_nan=False, allow_infinity=False)))}
    if k == "ann":
        a = draw(arr())
        return {"t": ["list", ["ann"]], "v": {"list": [a]}}
    if k == "model":
        f = draw(field(depth + 1))
        return {"t": ["model", f["t"]], "v": {"model": f["v"]}}
    inner = draw(field(depth + 1))
    if k == "deepopt":
        return {"t": ["opt", ["list", inner["t"]]], "v": draw(st.sampled_from([None, {"list": [inner["v"], inner["v"]]}, {"list": []}]))}
    if k == "list":
        return {"t": ["list", inner["t"]], "v": {"list": [inner["v"]] * draw(st.integers(0, 3))}}
    if k == "tuple":
        return {"t": ["tuple", inner["t"]], "v": {"tuple": [inner["v"]] * draw(st.integers(0, 3))}}
    if k == "ntuple":
        return {"t": ["ntuple", inner["t"]], "v": {"tuple": [inner["v"], 5, "x"]}}
    return {"t": ["dict", inner["t"]], "v": {"dict": {q: inner["v"] for q in draw(st.lists(G.ident, max_size=3, unique=True))}}}


def mk_type(t):
    k = t[0]
    if k == "arr":
        return np.ndarray
    if k == "jarr":
        dims = " ".join("dim%d" % i for i in range(t[2]))
        return {"f": jt.Float, "i": jt.Int, "b": jt.Bool}[t[1]][np.ndarray, dims]
    if k == "opt":
        return mk_type(t[1]) | None if t[1][0] in ("arr",) else Optional[mk_type(t[1])]
    if k == "scalar":
        return scalar_types[t[1]][0]
    if k == "lit":
        return Literal["a", "b", 3]
    if k == "uni":
        return Union[str, np.ndarray, float]
    if k == "ann":
        return Annotated[np.ndarray, "meta"]
    if k == "list":
        return list[mk_type(t[1])]
    if k == "tuple":
        return tuple[mk_type(t[1]), ...]
    if k == "ntuple":
        return tuple[mk_type(t[1]), int, str]
    if k == "dict":
        return dict[str, mk_type(t[1])]
    if k == "model":
        return pydantic.create_model("Inner", __base__=B.BaseModelWithNumpy, x=(mk_type(t[1]), ...))
    raise AssertionError(k)


def mk_value(v, typ):
    if isinstance(v, dict) and "a" in v:
        return np.array([dec(x) for x in v["v"]], dtype={"f": np.float64, "i": np.int64, "b": np.bool_}[v["a"]]).reshape(v["shape"])
    if isinstance(v, dict) and "f" in v:
        return dec(v)
    if isinstance(v, dict) and "list" in v:
        return [mk_value(x, None) for x in v["list"]]
    if isinstance(v, dict) and "tuple" in v:
        return tuple(mk_value(x, None) for x in v["tuple"])
    if isinstance(v, dict) and "dict" in v:
        return {q: mk_value(x, None) for q, x in v["dict"].items()}
    if isinstance(v, dict) and "model" in v:
        return {"x": mk_value(v["model"], None)}
    return v


def same(a, b):
    if isinstance(a, pydantic.BaseModel):
        return same({k: getattr(a, k) for k in type(a).model_fields}, {k: getattr(b, k) for k in type(b).model_fields})
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if type(a) is not type(b) or a.dtype != b.dtype or a.shape != b.shape:
            return False
        return G.same_list(a.ravel(), b.ravel()) if a.dtype.kind == "f" else np.array_equal(a, b)
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return G.same(a, b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b


def strict(x):
    return json.loads(json.dumps(x, allow_nan=False))


@st.composite
def model_case(draw):
    return {"fields": draw(st.lists(field(), min_size=1, max_size=4))}


def count(v):
    if isinstance(v, dict):
        return len(v["v"]) if set(v) == {"a", "shape", "v"} else sum(count(x) for x in v.values() if isinstance(x, (dict, list)))
    if isinstance(v, list):
        return sum(count(x) for x in v)
    return 0


def run_model(c):
    types = {"f%d" % i: (mk_type(f["t"]), ...) for i, f in enumerate(c["fields"])}
    Model = pydantic.create_model("Model", __base__=B.BaseModelWithNumpy, **types)
    m = Model(**{"f%d" % i: mk_value(f["v"], None) for i, f in enumerate(c["fields"])})
    keep = {k: (getattr(m, k).copy() if isinstance(getattr(m, k), np.ndarray) else getattr(m, k)) for k in Model.model_fields}
    text = m.model_dump_json()
    d = json.loads(text, parse_constant=lambda s: (_ for _ in ()).throw(Violation("bare %s in the JSON" % s)))
    check(same(Model.model_validate_json(text), m), "JSON text: %s", text[:300])
    dj = m.model_dump(mode="json")
    try:
        check(strict(dj) == d, "model_dump(mode='json') %r differs from model_dump_json %r", dj, d)
    except ValueError as e:
        raise Violation("model_dump(mode='json') is not strict JSON: %s" % e)
    check(same(Model.model_validate(dj), m), "JSON dict: %r", dj)
    py = m.model_dump()
    check(same(Model.model_validate(py), m), "python dump")
    for k in Model.model_fields:
        if isinstance(keep[k], np.ndarray):
            check(same(keep[k], getattr(m, k)), "field %s was modified by serialization", k)
    return {"labels": sorted({f["t"][0] for f in c["fields"]}), "nontrivial": sum(count(f["v"]) for f in c["fields"]) >= 2}


# ---- what must be refused, and what is converted
@st.composite
def reject_case(draw):
    return {"kind": draw(st.sampled_from(["dtype", "rank", "float_as_int", "int_as_float", "jax", "ragged", "spell"])), "a": draw(arr("f")),
            "dtype": draw(st.sampled_from(["float32", "complex128", "int32", "uint8", "<U3", "object"])), "nd": draw(st.integers(1, 3))}


def run_reject(c):
    a = mk_value(c["a"], None)
    k = c["kind"]

    class Plain(B.BaseModelWithNumpy):
        x: np.ndarray
    if k == "dtype":
        src = np.where(np.isfinite(a), np.clip(a, 0, 5), 0.0)
        m = Plain(x=src.astype(c["dtype"]))
        for f in (m.model_dump_json, lambda: m.model_dump(mode="json")):
            try:
                f()
            except (ValueError, pydantic.ValidationError, Exception) as e:
                check("dtype" in str(e), "refused, but the message does not mention the dtype: %s", e)
                continue
            raise Violation("an array of dtype %s was serialized" % c["dtype"])
        return {"labels": [k]}
    if k == "rank":
        T = jt.Float[np.ndarray, " ".join("d%d" % i for i in range(c["nd"]))]
        Model = pydantic.create_model("R", __base__=B.BaseModelWithNumpy, x=(T, ...))
        ok = a.ndim == c["nd"]
        text = json.dumps(Plain(x=a).model_dump(mode="json"))
        for f in (lambda: Model(x=a), lambda: Model.model_validate_json(text)):
            try:
                f()
                check(ok, "an array of rank %d was accepted as rank %d", a.ndim, c["nd"])
            except pydantic.ValidationError:
                check(not ok, "an array of the declared rank %d was refused", a.ndim)
        return {"labels": [k]}
    if k == "float_as_int":
        Model = pydantic.create_model("R", __base__=B.BaseModelWithNumpy, x=(jt.Int[np.ndarray, "..."], ...))
        try:
            Model(x=a)
        except pydantic.ValidationError:
            return {"labels": [k]}
        raise Violation("a float array was accepted where integers are declared")
    if k == "int_as_float":
        Model = pydantic.create_model("R", __base__=B.BaseModelWithNumpy, x=(jt.Int[np.ndarray, "..."], ...))
        src = np.where(np.isfinite(a), np.clip(a, -5, 5), 0.0).astype(np.int64)
        if src.size == 0:
            return {"nontrivial": False}
        r = Model.model_validate({"x": src.tolist()})
        check(r.x.dtype == np.int64 and np.array_equal(r.x, src), "an integer list became %r", r.x)
        return {"labels": [k]}
    if k == "jax":
        class J(B.BaseModelWithNumpy):
            x: np.ndarray | jt.Float[jt.Array, "..."]
        if a.size == 0:
            return {"nontrivial": False}
        m = J(x=jnp.asarray(a))
        r = J.model_validate_json(m.model_dump_json())
        # XLA flushes denormals to zero on the way in: compare with what the jax array holds
        check(same(r.x, np.asarray(m.x)), "jax array: %r instead of %r", r.x, np.asarray(m.x))
        return {"labels": [k]}
    if k == "ragged":
        try:
            r = Plain.model_validate({"x": [[1.0, 2.0], [3.0]]})
        except (pydantic.ValidationError, ValueError):
            return {"labels": [k]}
        raise Violation("a ragged list was accepted: %r" % (r.x,))
    r = Plain.model_validate({"x": [None, "NaN", "nan", "Infinity", "inf", "-Infinity", "-inf", 1.5, 2]})
    check(same(r.x, np.array([np.nan] * 3 + [np.inf] * 2 + [-np.inf] * 2 + [1.5, 2.0])), "spellings: %r", r.x)
    return {"labels": [k]}


PROPS = [
    Prop("roundtrip", model_case, run_model, quick=900, thorough=12000, shards=5, budget=60),
    Prop("reject", reject_case, run_reject, quick=300, thorough=3000, shards=2, budget=60),
]
