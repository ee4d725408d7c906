"""C07: results survive every way of storing them: wout netCDF files, HDF5 results files, JSON, C++/Python conversion; failing saves leave nothing behind."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vp import repo, solve
from vp.harness import Prop, Skip, Violation, check

PROPERTY = "C07"
RULE = ("netcdf/cpp: wout objects with generated sizes (square tables included), symmetry, strings, profile lengths and numbers (NaN, infinities, denormals) are saved and read back, the file also by netCDF4 directly; "
        "hdf5/parts: every array of a results object is replaced by generated numbers and sizes, saved and loaded; outputs: results of generated runs through all paths; old: result files in the layout of earlier versions load with the documented defaults; faults: saves interrupted at a generated write. Non-trivial: asymmetric, square tables, long profiles or special numbers.")
ASSUMPTIONS = ["fields that the HDF5 writer documents as not stored (histories, input_extension, lrfp, itfsq, bdotb of wout) are not compared there", "trusts netCDF4-python as independent reader"]
V = X = CPP = None


def setup():
    global V, X, CPP
    V, (X,) = repo.full(PROPERTY, ["vx_oq"])
    import vmecpp.cpp._vmecpp as cpp
    CPP = cpp


SPECIAL = [0.0, -0.0, float("nan"), float("inf"), float("-inf"), 5e-324, 1e308, -1e-300, 9.96920996838687e+36]
num = st.one_of(st.floats(-10, 10), st.sampled_from(SPECIAL))


def ident(a, b):
    """Same type of value, shape and bits (NaN equals NaN)."""
    if a is None or b is None:
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "US" or b.dtype.kind in "US":
        return bool((a == b).all())
    a, b = a.astype(float), b.astype(float)
    return bool(((a == b) | (np.isnan(a) & np.isnan(b))).all() and (np.signbit(a) == np.signbit(b))[~np.isnan(a)].all())


def fields():
    """name -> (dims or kind, optional)"""
    import typing
    out = {}
    for k, f in V.VmecWOut.model_fields.items():
        out[k] = f
    return out


N1 = {"n_surfaces": "ns", "mn_mode": "mn", "mn_mode_nyq": "mnq", "ntor_plus_1": "nt", "time": "time", "_preset": "preset", "_ndfmax": "aux", "ext_current": "ext"}


def dims_of(f):
    import typing
    a = f.annotation
    for cand in [a] + list(typing.get_args(a)):
        s = getattr(cand, "dim_str", None)
        if s is not None:
            return s.split(), "Int" in repr(cand) or "Int" in str(getattr(cand, "__name__", ""))
    return None, False


@st.composite
def synth(draw):
    ns = draw(st.integers(2, 9))
    mn = draw(st.one_of(st.integers(1, 9), st.just(ns), st.just(ns - 1)))
    mnq = draw(st.one_of(st.integers(mn, mn + 9), st.just(ns), st.just(ns - 1), st.just(mn)))
    return {"ns": ns, "mn": max(1, mn), "mnq": max(1, mnq), "nt": draw(st.integers(1, 4)), "time": draw(st.sampled_from([0, 1, 7, ns])), "preset": [draw(st.sampled_from([21, 21, 1, 2, 25, ns])) for _ in range(3)],
            "aux": draw(st.sampled_from([101, 101, 3, 120])), "ext": draw(st.sampled_from([0, 1, 3, ns])), "lasym": draw(st.booleans()), "seed": draw(st.integers(0, 10**9)), "special": draw(st.booleans()),
            "strings": [draw(st.text("abcXYZ019_./- ", max_size=n)) for n in (100, 200)], "scalars": draw(st.lists(num, min_size=30, max_size=30)), "ints": draw(st.lists(st.integers(-2**31, 2**31 - 1), min_size=8, max_size=8)),
            "profiles": [draw(st.sampled_from(["power_series", "cubic_spline_ip", "two_lorentz", "line_segment"])) for _ in range(3)], "extra": draw(st.sampled_from([[], ["note"], ["note", "table"]])),
            "missing": draw(st.booleans())}


class Numbers:
    def __init__(self, c):
        self.r, self.special = np.random.default_rng(c["seed"]), c["special"]

    def arr(self, *shape):
        x = self.r.standard_normal(shape) * 10.0**self.r.integers(-5, 6, shape)
        if self.special and x.size:
            m = self.r.random(shape) < 0.2
            x = np.where(m, self.r.choice(SPECIAL, shape), x)
        return x


ASYM = ["raxis_cs", "zaxis_cc", "rmns", "zmnc", "lmnc_full", "bsubsmnc", "lmnc", "gmns", "bmns", "bsubumns", "bsubvmns", "bsupumns", "bsupvmns", "currumns", "currvmns"]


def build(c):
    """A VmecWOut with generated content; sizes as in the case."""
    g = Numbers(c)
    kw, sc, ii, pre = {}, list(c["scalars"]), list(c["ints"]), list(c["preset"])
    for k, f in V.VmecWOut.model_fields.items():
        dims, _ = dims_of(f)
        if k in ASYM and not c["lasym"]:
            continue
        if dims is not None:
            shape = []
            for d in dims:
                shape.append(pre.pop(0) if d == "_preset" else c[N1[d]])
            if k in ("xm", "xn", "xm_nyq", "xn_nyq", "restart_reason_timetrace"):
                kw[k] = g.r.integers(-20, 20, shape) if k[0] == "x" else g.r.integers(1, 5, shape)
            else:
                kw[k] = g.arr(*shape)
        elif k in ("lasym",):
            kw[k] = c["lasym"]
        elif k == "lfreeb":
            kw[k] = bool(c["ext"])
        elif k == "lrfp":
            kw[k] = bool(c["seed"] % 2)
        elif k == "mgrid_mode":
            kw[k] = ["R", "S", ""][c["seed"] % 3]
        elif k == "input_extension":
            kw[k] = c["strings"][0].strip()
        elif k == "mgrid_file":
            kw[k] = c["strings"][1].strip()
        elif k in ("pcurr_type", "pmass_type", "piota_type"):
            kw[k] = c["profiles"][("pcurr_type", "pmass_type", "piota_type").index(k)]
        elif k == "ns":
            kw[k] = c["ns"]
        elif k == "mnmax":
            kw[k] = c["mn"]
        elif k == "mnmax_nyq":
            kw[k] = c["mnq"]
        elif k == "nextcur":
            kw[k] = c["ext"]
        elif k == "version_":
            kw[k] = 9.0
        elif f.annotation is int:
            kw[k] = ii[len(kw) % 8]
        elif f.annotation is float:
            kw[k] = sc[len(kw) % 30]
        elif f.annotation is str:
            kw[k] = "s"
        elif not f.is_required():
            continue
        else:
            raise Skip("unknown field %s: %s" % (k, f.annotation))
    return V.VmecWOut(**kw)


def same_model(name, a, b, skip=()):
    for k in type(a).model_fields:
        if k in skip:
            continue
        x, y = getattr(a, k), getattr(b, k)
        check(ident(x, y), "%s: %s is %s instead of %s", name, k, short(y), short(x))


def short(x):
    s = np.array2string(np.asarray(x), threshold=12) if isinstance(x, np.ndarray) else repr(x)
    return ("%s " % (x.shape,) if isinstance(x, np.ndarray) else "") + s[:160].replace("\n", " ")


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vpc07")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


# fields whose stored form differs from the name or value in memory
STORED = {"lasym": "lasym__logical__", "lfreeb": "lfreeb__logical__", "lrfp": "lrfp__logical__", "volume": "volume_p"}


def raw(path):
    """Everything in the file, read with netCDF4 only."""
    import netCDF4
    out = {}
    with netCDF4.Dataset(path) as f:
        f.set_auto_mask(False)
        for k, v in f.variables.items():
            out[k] = v[()]
        return out, f.data_model


def check_file(w, path):
    r, model = raw(path)
    check(model == "NETCDF3_CLASSIC", "the file is %s, not NETCDF3_CLASSIC", model)
    for k, f in type(w).model_fields.items():
        v, name = getattr(w, k), f.alias or k
        if v is None:
            check(name not in r, "symmetric file contains %s", name)
            continue
        check(name in r, "%s is missing in the file", name)
        x = r[name]
        if isinstance(v, str):
            check(x.tobytes().decode().strip("\0").strip() == v.strip(), "%s is %r in the file instead of %r", name, x.tobytes(), v)
        elif k == "extcur" and v.size == 0:
            continue
        elif isinstance(v, np.ndarray):
            check(ident(x.T, v) if v.ndim == 2 else ident(x, v), "%s in the file is %s instead of %s", name, short(x), short(v))
        else:
            check(ident(float(x), float(v)), "%s in the file is %r instead of %r", name, x, v)


def run_netcdf(c):
    w = build(c)
    if "note" in c["extra"]:
        w = type(w)(**{**{k: getattr(w, k) for k in type(w).model_fields}, "note": 3.25})
    with Scratch() as d:
        p = os.path.join(d, "wout_x.nc")
        if c["missing"]:
            with open(p, "wb") as f:
                f.write(b"older contents")
        w.save(p)
        check(os.listdir(d) == ["wout_x.nc"], "saving left %s in the directory", os.listdir(d))
        check_file(w, p)
        b = V.VmecWOut.from_wout_file(p)
        same_model("read back", w, b)
        if "note" in c["extra"]:
            check(float(getattr(b, "note", np.nan)) == 3.25, "an additional field is lost")
        same_model("read back twice", b, V.VmecWOut.from_wout_file(p))
    return info(c)


def info(c):
    lab = ["asym" if c["lasym"] else "sym"] + (["square"] if c["ns"] in (c["mn"], c["mnq"]) else []) + (["special"] if c["special"] else []) + (["long profiles"] if max(c["preset"]) > 21 else []) + (["knots"] if c["aux"] > 101 else [])
    return {"labels": lab, "nontrivial": len(lab) > 1 or c["lasym"]}


def run_cpp(c):
    """Conversion to the C++ object and back."""
    w = build(c)
    o = w._to_cpp_wout()
    b = V.VmecWOut._from_cpp_wout(o)
    same_model("through the C++ object", w, b)
    q = CPP.WOutFileContents(o)
    o.ns = 77
    same_model("copy of the C++ object", w, V.VmecWOut._from_cpp_wout(q))
    # JSON
    j = V.VmecWOut.model_validate_json(w.model_dump_json())
    same_model("through JSON", w, j, skip=("extcur",))
    return info(c)


UNSAVED = {"input_extension", "lrfp", "itfsq", "fsqt", "force_residual_r", "force_residual_z", "force_residual_lambda", "delbsq", "restart_reason_timetrace", "wdot", "bdotb"}
BASE = None
PARTS = ("jxbout", "mercier", "threed1_first_table", "threed1_geometric_magnetic", "threed1_volumetrics", "threed1_axis", "threed1_betas", "threed1_shafranov_integrals")


def public(o):
    return [k for k in dir(o) if not k.startswith("_") and not callable(getattr(o, k))]


def base():
    inp = V.VmecInput(rbc=np.array([[3.0], [1.0], [0.0]]), zbs=np.array([[0.0], [1.0], [0.0]]), mpol=3, ntor=0, ns_array=np.array([4]), ftol_array=np.array([1e-5]), niter_array=np.array([300]), ai=np.array([0.5]), phiedge=1.0,
                      return_outputs_even_if_not_converged=True)
    return CPP.run(inp._to_cpp_vmecindata(), max_threads=1, verbose=CPP.OutputMode.SILENT)


def compare_oq(a, b):
    for k in public(a.wout):
        if k not in UNSAVED:
            if k in ("nextcur", "extcur") and not a.wout.lfreeb:
                continue
            check(ident(getattr(a.wout, k), getattr(b.wout, k)), "HDF5: wout.%s is %s instead of %s", k, short(getattr(b.wout, k)), short(getattr(a.wout, k)))
    for p in PARTS:
        x, y = getattr(a, p), getattr(b, p)
        for k in public(x):
            check(ident(getattr(x, k), getattr(y, k)), "HDF5: %s.%s is %s instead of %s", p, k, short(getattr(y, k)), short(getattr(x, k)))
    same_model("HDF5: input", V.VmecInput._from_cpp_vmecindata(a.indata), V.VmecInput._from_cpp_vmecindata(b.indata))


def run_hdf5(c):
    oq = base()
    w = build(c)._to_cpp_wout()
    g = Numbers(c)
    for k in public(w):
        setattr(oq.wout, k, getattr(w, k))
    if not c["lasym"]:
        for k in ASYM:
            setattr(oq.wout, k, np.zeros((0, 0)) if k[1:5] != "axis" else np.zeros(0))
    with Scratch() as d:
        p = os.path.join(d, "r.h5")
        if c["missing"]:
            with open(p, "wb") as f:
                f.write(b"older contents")
        oq.save(p)
        b = CPP.OutputQuantities.load(p)
        compare_oq(oq, b)
        q = os.path.join(d, "again.h5")
        b.save(q)
        compare_oq(oq, CPP.OutputQuantities.load(q))
    return info(c)


RENAMED = {"signgs": "sign_of_jacobian", "niter": "maximum_iterations", "betatotal": "betatot", "volavgB": "VolAvgB", "volume": "volume_p", "iotaf": "iota_full", "q_factor": "safety_factor", "presf": "pressure_full", "phi": "toroidal_flux",
           "chi": "poloidal_flux", "specw": "spectral_width", "DShear": "Dshear", "DWell": "Dwell", "DCurr": "Dcurr", "DGeod": "Dgeod", "raxis_cc": "raxis_c", "zaxis_cs": "zaxis_s", "raxis_cs": "raxis_s", "zaxis_cc": "zaxis_c"}
HALF = {"iotas": "iota_half", "mass": "mass", "pres": "pressure_half", "beta_vol": "beta", "buco": "buco", "bvco": "bvco", "vp": "dVds", "phips": "phips", "over_r": "overr"}
FULL2 = ["rmnc", "zmns", "lmns_full", "rmns", "zmnc", "lmnc_full", "currumnc", "currvmnc", "currumns", "currvmns"]
HALF2 = ["lmns", "gmnc", "bmnc", "bsubumnc", "bsubvmnc", "bsupumnc", "bsupvmnc", "lmnc", "gmns", "bmns", "bsubumns", "bsubvmns", "bsupumns", "bsupvmns"]
OLDS = ["bsubsmns", "bsubsmnc"]  # were on the full grid in old files


@st.composite
def old(draw):
    c = draw(synth())
    c["currents"] = draw(st.booleans())
    return c


def run_old(c):
    """A results file in the layout of earlier releases (other names, half-grid arrays without the first element, transposed tables) gives the same results."""
    oq = base()
    w = build(c)._to_cpp_wout()
    for k in public(w):
        setattr(oq.wout, k, getattr(w, k))
    if not c["lasym"]:
        for k in ASYM:
            setattr(oq.wout, k, np.zeros((0, 0)) if k[1:5] != "axis" else np.zeros(0))
    o, K = oq.wout, "/wout/"
    o.version_ = 9.0
    for k in HALF:
        a = np.array(getattr(o, k))
        a[0] = 0.0
        setattr(o, k, a)
    for k in HALF2:
        a = np.array(getattr(o, k))
        if a.size:
            a[:, 0] = 0.0
            setattr(o, k, a)
    vec, tab, gone, moved = {}, {}, [K + "version_", K + "iotas"], [(K + a, K + b) for a, b in RENAMED.items()]
    for a, b in HALF.items():
        vec[K + b] = np.array(getattr(o, a))[1:]
        if K + a not in gone:
            gone.append(K + a)
    for k in FULL2 + HALF2 + OLDS:
        a = np.array(getattr(o, k))
        if not a.size:
            continue
        gone.append(K + k)
        if k.startswith("curr") and not c["currents"]:
            setattr(o, k, np.zeros((0, 0)))
        else:
            tab[K + k] = np.ascontiguousarray(a[:, 1:].T if k in HALF2 else a.T)
    gone += ["/vmec_internal_results/chipH", "/vmec_internal_results/currH"]
    with Scratch() as d:
        p = os.path.join(d, "r.h5")
        oq.save(p)
        if not c["currents"]:
            gone += [K + k for k in ("currumnc", "currvmnc", "currumns", "currvmns") if K + k not in gone]
        X.edit(p, gone, moved, vec, tab, {K + "version": "9.0"})
        b = CPP.OutputQuantities.load(p)
    compare_oq(oq, b)
    return info(c)


def run_parts(c):
    with Scratch() as d:
        a, b = X.roundtrip(os.path.join(d, "r.h5"), c["seed"])
    check(set(a) == set(b) and len(a) > 200, "members differ")
    for k in a:
        check(ident(a[k], b[k]), "HDF5: %s is %s instead of %s", k, short(b[k]), short(a[k]))
    return {"labels": ["filled"], "nontrivial": True}


@st.composite
def real(draw):
    d = draw(solve.problem(ns=(4, 9)))
    if draw(st.booleans()):  # as many surfaces as modes
        m = d["ntor"] + 1 + (d["mpol"] - 1) * (2 * d["ntor"] + 1)
        if 4 <= m <= 16:
            d["ns_array"][-1] = m
            d["ns_array"] = sorted(min(n, m) for n in d["ns_array"])
    return {"p": d, "iters": draw(st.sampled_from([3, 3, 200])), "long": draw(st.sampled_from([0, 0, 24, 30]))}


def run_real(c):
    d = dict(c["p"])
    d["niter_array"] = [c["iters"]] * len(d["ns_array"])
    if c["long"] and d.get("pmass_type", "power_series") == "power_series":
        d["am"] = list(d["am"]) + [0.0] * (c["long"] - len(d["am"]))
    inp = solve.make(V, d, return_outputs_even_if_not_converged=True)
    try:
        oq = CPP.run(inp._to_cpp_vmecindata(), max_threads=1, verbose=CPP.OutputMode.SILENT)
    except RuntimeError as e:
        raise Skip(str(e)[:60]) from None
    w = V.VmecWOut._from_cpp_wout(oq.wout)
    for k in public(oq.wout):
        v = getattr(w, k, None)
        if v is None or k.endswith(("_aux_s", "_aux_f")):
            check(d["lasym"] is False and k in ASYM or k.endswith(("_aux_s", "_aux_f")) or not hasattr(w, k), "wout.%s is lost in Python", k)
            continue
        check(ident(v, getattr(oq.wout, k)), "wout.%s differs between C++ and Python", k)
    with Scratch() as t:
        p = os.path.join(t, "wout_a.nc")
        w.save(p)
        check_file(w, p)
        same_model("read back", w, V.VmecWOut.from_wout_file(p))
        h = os.path.join(t, "a.h5")
        oq.save(h)
        b = CPP.OutputQuantities.load(h)
        compare_oq(oq, b)
    out = V.run(inp, max_threads=1, verbose=False)
    j = V.VmecOutput.model_validate_json(out.model_dump_json())
    for k in ("rbc", "zbs", "rbs", "zbc"):  # zero coefficients are left out of the sparse form, so their sign is not kept
        if getattr(out.input, k) is not None:
            check(ident(getattr(out.input, k) + 0.0, getattr(j.input, k) + 0.0), "VmecOutput.input.%s through JSON", k)
    same_model("VmecOutput.input through JSON", out.input, j.input, skip=("rbc", "zbs", "rbs", "zbc"))
    for part in ("wout", "jxbout", "mercier", "threed1_volumetrics", "threed1_first_table", "threed1_geometric_magnetic", "threed1_axis", "threed1_betas", "threed1_shafranov_integrals"):
        same_model("VmecOutput.%s through JSON" % part, getattr(out, part), getattr(j, part), skip=("extcur",))
    for part in PARTS:
        x, y = getattr(oq, part), getattr(out, part)
        for k in type(y).model_fields:
            check(ident(getattr(x, k if hasattr(x, k) else k.rstrip("_"), None), getattr(y, k)), "%s.%s differs between C++ and Python", part, k)
    m = len(w.xm)
    return {"labels": solve.labels(d) + ["square"] * (m == w.ns), "nontrivial": solve.nontrivial(d)}


@st.composite
def fault(draw):
    return {"w": draw(synth()), "at": draw(st.integers(1, 170)), "what": draw(st.sampled_from(["createVariable", "createDimension", "string", "rank", "directory", "h5"])), "old": draw(st.booleans())}


class Boom(Exception):
    pass


def run_fault(c):
    import netCDF4
    w = build(c["w"])
    real_ds = netCDF4.Dataset
    count = [0]

    class Failing(real_ds):
        def createVariable(self, *a, **k):
            if c["what"] == "createVariable":
                count[0] += 1
                if count[0] == c["at"]:
                    raise Boom()
            return super().createVariable(*a, **k)

        def createDimension(self, *a, **k):
            if c["what"] == "createDimension":
                count[0] += 1
                if count[0] == 1 + c["at"] % 8:
                    raise Boom()
            return super().createDimension(*a, **k)

    with Scratch() as d:
        p = os.path.join(d, "wout_x.nc")
        old = None
        if c["old"]:
            build(dict(c["w"], seed=c["w"]["seed"] + 1)).save(p)
            old = open(p, "rb").read()
        target = p
        if c["what"] == "string":
            w.mgrid_file = "\u00e9" + w.mgrid_file
        elif c["what"] == "rank":
            w = type(w)(**{**{k: getattr(w, k) for k in type(w).model_fields}, "cube": np.zeros((2, 2, 2))})
        elif c["what"] == "directory":
            target = os.path.join(d, "absent", "wout_x.nc")
        elif c["what"] == "h5":
            target = os.path.join(d, "wout_x.h5")
        failed = True
        netCDF4.Dataset = Failing
        try:
            w.save(target)
            failed = False
        except Exception:  # any exception counts as a reported failure
            pass
        finally:
            netCDF4.Dataset = real_ds
        if c["what"] in ("string", "rank", "directory", "h5"):
            check(failed, "saving with %s did not fail", c["what"])
        names = sorted(os.listdir(d))
        if failed:
            check(names == (["wout_x.nc"] if c["old"] else []), "a failed save left %s", names)
            if c["old"]:
                check(open(p, "rb").read() == old, "a failed save changed the existing file")
        else:
            check(names == ["wout_x.nc"], "a save left %s", names)
            same_model("read back", w, V.VmecWOut.from_wout_file(p))
    return {"labels": [c["what"], "failed" if failed else "saved"], "nontrivial": failed}


PROPS = [
    Prop("netcdf", synth, run_netcdf, quick=300, thorough=6000, shards=2, budget=60, thorough_budget=500),
    Prop("cpp", synth, run_cpp, quick=250, thorough=6000, shards=1, budget=60, thorough_budget=500),
    Prop("hdf5", synth, run_hdf5, quick=150, thorough=5000, isolate=True, shards=2, budget=60, thorough_budget=500, timeout=120),
    Prop("old", old, run_old, quick=120, thorough=4000, isolate=True, shards=2, budget=60, thorough_budget=400, timeout=120),
    Prop("parts", lambda: st.fixed_dictionaries({"seed": st.integers(0, 2**40)}), run_parts, quick=60, thorough=3000, isolate=True, shards=1, budget=60, thorough_budget=500, timeout=120),
    Prop("outputs", real, run_real, quick=100, thorough=3000, isolate=True, shards=2, budget=60, thorough_budget=500, timeout=120),
    Prop("faults", fault, run_fault, quick=120, thorough=3000, shards=1, budget=60, thorough_budget=500),
]
