"""C21: the external field on a grid: response tables, mgrid files, loading and interpolation."""
import json
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from vp import biot, repo
from vp.harness import Prop, Skip, check
from checks import c20_field

PROPERTY = "C21"
RULE = ("A case is a grid definition (extents, resolutions, field periods, normalised or raw, with or without assumed symmetry) with a coil set; or a "
        "history of loads (mgrid file written by vmecpp or by netCDF4, in-memory table, fixed field, corrupted files and tables) and interpolations on "
        "any sub-range of boundary points. Oracle: Biot-Savart quadrature at the grid points in cylindrical components; mirror symmetry; netCDF4 "
        "reading; sum of current times table; bilinear interpolation with clamping in numpy. Non-trivial: a table with a non-zero field, or a "
        "history with at least one successful load and one interpolation.")
ASSUMPTIONS = c20_field.ASSUMPTIONS
X = VM = nc = None
KEYS = ["normalize_by_currents", "assume_stellarator_symmetry", "number_of_field_periods", "r_grid_minimum", "r_grid_maximum",
        "number_of_r_grid_points", "z_grid_minimum", "z_grid_maximum", "number_of_z_grid_points", "number_of_phi_grid_points"]


def setup():
    global X, VM, nc
    VM, (X,) = repo.full(PROPERTY, ["vx_coils"])
    import netCDF4
    nc = netCDF4


@st.composite
def params(draw, maxn=6):
    r0, z0 = draw(st.floats(0.5, 4)), draw(st.floats(-3, 1))
    return dict(zip(KEYS, [draw(st.booleans()), draw(st.booleans()), draw(st.integers(1, 6)), r0, r0 + draw(st.floats(0.1, 4)), draw(st.integers(2, maxn)),
                           z0, z0 + draw(st.floats(0.1, 4)), draw(st.integers(2, maxn)), draw(st.integers(1, 6))]))


def grid(p):
    r = np.linspace(p["r_grid_minimum"], p["r_grid_maximum"], p["number_of_r_grid_points"])
    z = np.linspace(p["z_grid_minimum"], p["z_grid_maximum"], p["number_of_z_grid_points"])
    f = 2 * np.pi * np.arange(p["number_of_phi_grid_points"]) / p["number_of_phi_grid_points"] / p["number_of_field_periods"]
    F, Z, R = np.meshgrid(f, z, r, indexing="ij")
    return R.ravel(), F.ravel(), Z.ravel()


def cyl(v, f):
    c, s = np.cos(f), np.sin(f)
    return np.stack([v[:, 0] * c + v[:, 1] * s, v[:, 1] * c - v[:, 0] * s, v[:, 2]])


@st.composite
def table_case(draw):
    p = draw(params(4))
    p["number_of_phi_grid_points"] = draw(st.integers(1, 6))
    sym = p["assume_stellarator_symmetry"]
    if sym and draw(st.integers(0, 4)):
        p["number_of_phi_grid_points"] = draw(st.sampled_from([2, 4, 6]))
    cfg = draw(c20_field.config(line=False))
    for s in cfg["circuits"]:
        s["current"] = s["current"] or 0.0
        for k in s["coils"]:
            k["carriers"] = k["carriers"] or []
    symm = sym and draw(st.booleans())
    if symm:  # a coil set with the symmetry that is assumed, on a grid symmetric in z
        p["z_grid_minimum"] = -p["z_grid_maximum"] if p["z_grid_maximum"] > 0 else -p["z_grid_maximum"]
        p["z_grid_minimum"], p["z_grid_maximum"] = -abs(p["z_grid_maximum"]) - 0.1, abs(p["z_grid_maximum"]) + 0.1
    return {"p": p, "cfg": cfg, "symm": symm}


def symmetrise(cfg, nfp):
    """Coil set invariant under the rotation by a period and the flip (x, y, z) -> (x, -y, -z) with reversed current."""
    out = json.loads(json.dumps(cfg))
    for s in out["circuits"]:
        for k in s["coils"]:
            full = []
            for q in k["carriers"]:
                for j in range(nfp):
                    a = 2 * np.pi * j / nfp
                    rot = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
                    for flip in (0, 1):
                        # flipping: B transforms to (-r, p, z) when the wire's direction is kept under the rotation about x by pi and reversed
                        m = rot @ np.diag([1.0, -1.0, -1.0]) if flip else rot
                        t = dict(q)
                        if q["type"] == "polygon":
                            vs = [(m @ np.array(v)).tolist() for v in q["vertices"]]
                            t["vertices"] = vs[::-1] if flip else vs
                        elif q["type"] == "circle":
                            t["center"] = (m @ np.array(q["center"])).tolist()
                            t["normal"] = ((-1 if flip else 1) * (m @ np.array(q["normal"]))).tolist()
                        full.append(t)
            k["carriers"] = full
    return out


def run_table(c):
    p, cfg = c["p"], c["cfg"]
    if c["symm"]:
        cfg = symmetrise(cfg, p["number_of_field_periods"])
    R, F, Z = grid(p)
    x = np.stack([R * np.cos(F), R * np.sin(F), Z], 1)
    sym, nphi = p["assume_stellarator_symmetry"], p["number_of_phi_grid_points"]
    lab = ["norm" if p["normalize_by_currents"] else "raw", "sym" if sym else "full", "coilsym" if c["symm"] else "anycoil"]
    bad = sym and nphi % 2
    try:
        g = X.grid(p)
    except ValueError:
        check(bad, "valid grid rejected")
        for fn in (X.response, X.vector_potential):
            try:
                fn(p, cfg)
            except ValueError:
                continue
            check(False, "odd number of phi planes accepted with assumed symmetry")
        return {"labels": lab + ["odd"], "nontrivial": False}
    check(not bad, "odd number of phi planes accepted with assumed symmetry")
    n = p["number_of_z_grid_points"] * p["number_of_r_grid_points"]
    ne = (nphi // 2 + 1) * n if sym else nphi * n
    check(g.shape == (3, ne) and np.abs(g.T - x[:ne]).max() <= 1e-12, "grid points differ: %r, expected %r", g.T.tolist(), x[:ne].tolist())
    if biot.clearance(cfg, x) < 0.1:
        raise Skip("grid point close to a wire")
    zero = p["normalize_by_currents"] and any(s["coils"] and s["coils"][0]["windings"] == 0.0 for s in cfg["circuits"])
    big = 0.0
    for pot, fn in ((False, X.response), (True, X.vector_potential)):
        try:
            *t, pp = fn(p, cfg)
        except ValueError:
            check(zero, "response table refused")
            return {"labels": lab + ["zero"], "nontrivial": False}
        check(not zero, "normalisation by zero windings accepted")
        check(pp == p, "parameters of the table: %r", pp)
        for i, s in enumerate(cfg["circuits"]):
            if p["normalize_by_currents"]:
                w0 = (1.0 if s["coils"][0]["windings"] is None else s["coils"][0]["windings"]) if s["coils"] else 1.0
                want = cyl(biot.circuit_field(s, x, pot, 1.0), F) / w0
                lim = max([abs((1 if k["windings"] is None else k["windings"]) / w0) * len(k["carriers"]) for k in s["coils"]] + [0.0])
            else:
                want = cyl(biot.circuit_field(s, x, pot), F)
                lim = max([abs(s["current"] * (1 if k["windings"] is None else k["windings"])) * len(k["carriers"]) for k in s["coils"]] + [0.0])
            got = np.array([q[i] for q in t])
            check(got.shape == want.shape, "table has shape %r", got.shape)
            tol = 3e-9 * (np.abs(want).max() + 1e-6 * lim)
            if sym and not c["symm"]:
                # the half that is not evaluated is the mirror image
                W = want.reshape(3, nphi, p["number_of_z_grid_points"], -1)
                for k in range(nphi // 2 + 1, nphi):
                    W[:, k] = W[:, nphi - k, ::-1] * np.array([-1, 1, 1])[:, None, None]
                want = W.reshape(3, -1)
            e = np.abs(got - want).max()
            j = np.unravel_index(np.argmax(np.abs(got - want)), got.shape)
            check(e <= tol, "%s of circuit %d off by %g (scale %g) at component, point %r", "potential" if pot else "field", i, e, np.abs(want).max(), j)
            big = max(big, np.abs(want).max())
        check(len(t[0]) == len(cfg["circuits"]), "number of tables")
    return {"labels": lab, "nontrivial": bool(big > 0)}


@st.composite
def json_case(draw):
    p = draw(params())
    edit = draw(st.sampled_from(["none", "none", "drop", "type", "value", "value", "text", "missing", "extra", "array"]))
    key = draw(st.sampled_from(KEYS))
    return {"p": p, "edit": edit, "key": key, "v": draw(st.sampled_from([0, -1, 1, 1.5, "x", None, True, [], 2, 10**12])), "cut": draw(st.integers(1, 60))}


def valid(p):
    return (p["number_of_field_periods"] > 0 and p["r_grid_maximum"] > p["r_grid_minimum"] and p["z_grid_maximum"] > p["z_grid_minimum"]
            and p["number_of_r_grid_points"] > 1 and p["number_of_z_grid_points"] > 1 and p["number_of_phi_grid_points"] > 0)


def run_json(c):
    p, k = dict(c["p"]), c["key"]
    edit = c["edit"]
    ok = True
    if edit == "drop":
        del p[k]
        ok = False
    elif edit == "type":
        p[k] = c["v"]
        T = type(c["p"][k])
        if type(c["v"]) is not T and not (T is float and isinstance(c["v"], (int, float)) and not isinstance(c["v"], bool)):
            ok = False
        if T is int and type(c["v"]) is int and abs(c["v"]) > 2**31 - 1:
            ok = False
    elif edit == "value":
        i = [q for q in KEYS if type(c["p"][q]) is not bool]
        k = i[KEYS.index(k) % len(i)]
        p[k] = {"number_of_r_grid_points": 1, "number_of_z_grid_points": 1, "number_of_phi_grid_points": 0, "number_of_field_periods": 0,
                "r_grid_minimum": p["r_grid_maximum"], "r_grid_maximum": p["r_grid_minimum"] - 0.1, "z_grid_minimum": p["z_grid_maximum"] + 1, "z_grid_maximum": p["z_grid_minimum"]}[k]
    elif edit == "extra":
        p["comment"] = "x"
    ok = ok and valid(p)
    s = json.dumps(p)
    if edit == "text":
        s = s[:-c["cut"]]
        ok = False
    if edit == "array":
        s = "[%s]" % s
        ok = False
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "p.json")
        if edit == "missing":
            ok = False
        else:
            open(f, "w").write(s)
        outs = []
        for fn in (lambda: X.params_file(f), lambda: X.params_json(s) if edit != "missing" else X.params_file(f + "x"), lambda: VM.MakegridParameters.from_file(f).model_dump()):
            try:
                outs.append(fn())
            except Exception:  # noqa: BLE001 (any Python exception is a rejection)
                outs.append(None)
    want = {q: p[q] for q in KEYS} if ok else None
    for o in outs:
        check(o == want, "parameters read as %r, expected %r", o, want)
    if "p" in c and set(KEYS) <= set(p) and all(type(p[q]) in (type(c["p"][q]),) and (type(p[q]) is not int or abs(p[q]) < 2**31) for q in KEYS):
        check(X.valid({q: p[q] for q in KEYS}) == valid(p), "validity of %r", p)
    if ok:
        m = VM.MakegridParameters(**want)
        check({q: getattr(m._to_cpp_makegrid_parameters(), q) for q in KEYS} == want, "conversion to the solver's parameters")
        check(VM.MakegridParameters._from_cpp_makegrid_parameters(m._to_cpp_makegrid_parameters()).model_dump() == want, "conversion back")
    return {"labels": [edit, "ok" if ok else "bad"], "nontrivial": True}


@st.composite
def history(draw):
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.sampled_from(["table", "table", "file", "file", "ncfile", "fixed", "interp", "interp", "interp", "interp", "badfile", "badtable"]))
        o = {"op": k, "seed": draw(st.integers(0, 10**6))}
        if k in ("table", "file", "ncfile", "badfile", "badtable"):
            o["p"] = draw(params())
            o["n"] = draw(st.integers(1, 4))
            if draw(st.integers(0, 9)) == 0:
                o["n"] = draw(st.sampled_from([12, 100, 101]))
                for q in KEYS:
                    if q.startswith("number_of") and q != "number_of_field_periods":
                        o["p"][q] = 2
            o["pot"] = draw(st.booleans())
        if k == "ncfile":
            o["format"] = draw(st.sampled_from(["NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF4", "NETCDF4_CLASSIC"]))
            o["f4"] = draw(st.booleans())
        if k == "badfile":
            o["how"] = draw(st.sampled_from(["missing", "truncate", "novar", "shape", "currents", "ir", "extent"]))
            o["which"] = draw(st.integers(0, 100))
        if k == "badtable":
            o["how"] = draw(st.sampled_from(["currents", "br", "bp", "bz", "cols", "params"]))
        if k == "fixed":
            o["n"] = draw(st.integers(1, 40))
        if k == "interp":
            o.update(nz=draw(st.integers(1, 6)), nt=draw(st.integers(1, 6)), a=draw(st.integers(0, 35)), b=draw(st.integers(0, 36)), edge=draw(st.sampled_from(["in", "in", "node", "out"])))
        ops.append(o)
        if k in ("table", "file", "ncfile") and draw(st.integers(0, 3)):
            ops.append({"op": "interp", "seed": o["seed"], "nz": 1, "nt": draw(st.integers(1, 6)), "a": draw(st.integers(0, 35)), "b": draw(st.integers(0, 36)), "edge": draw(st.sampled_from(["in", "node", "out"]))})
    return {"ops": ops}


def interp_ref(S, k, r, z):
    p, B = S
    nr, nz = p["number_of_r_grid_points"], p["number_of_z_grid_points"]
    B = B.reshape(3, p["number_of_phi_grid_points"], nz, nr)
    dr, dz = (p["r_grid_maximum"] - p["r_grid_minimum"]) / (nr - 1), (p["z_grid_maximum"] - p["z_grid_minimum"]) / (nz - 1)
    u = np.clip((r - p["r_grid_minimum"]) / dr, 0, nr - 1)
    v = np.clip((z - p["z_grid_minimum"]) / dz, 0, nz - 1)
    i = np.minimum(u.astype(int), nr - 2)
    j = np.minimum(v.astype(int), nz - 2)
    fu, fv = u - i, v - j
    return ((1 - fu) * (1 - fv) * B[:, k, j, i] + fu * (1 - fv) * B[:, k, j, i + 1] + (1 - fu) * fv * B[:, k, j + 1, i] + fu * fv * B[:, k, j + 1, i + 1])


def ncwrite(f, o, t, cur, fmt, f4, pot=None):
    p = o["p"]
    d = nc.Dataset(f, "w", format=fmt)
    n = len(cur)
    for name, k in (("stringsize", 30), ("external_coil_groups", n), ("dim_00001", 1), ("external_coils", n), ("rad", p["number_of_r_grid_points"]), ("zee", p["number_of_z_grid_points"]), ("phi", p["number_of_phi_grid_points"])):
        d.createDimension(name, k)
    for name, val in (("ir", "number_of_r_grid_points"), ("jz", "number_of_z_grid_points"), ("kp", "number_of_phi_grid_points"), ("nfp", "number_of_field_periods")):
        d.createVariable(name, "i4", ())[...] = p[val]
    d.createVariable("nextcur", "i4", ())[...] = n
    for name, val in (("rmin", "r_grid_minimum"), ("rmax", "r_grid_maximum"), ("zmin", "z_grid_minimum"), ("zmax", "z_grid_maximum")):
        d.createVariable(name, "f8", ())[...] = p[val]
    d.createVariable("mgrid_mode", "S1", ("dim_00001",))[:] = np.array([b"S" if p["normalize_by_currents"] else b"R"])
    d.createVariable("raw_coil_cur", "f8", ("external_coils",))[:] = cur
    for i in range(n):
        for name, q in zip(("br", "bp", "bz"), t):
            d.createVariable("%s_%03d" % (name, i + 1), "f4" if f4 else "f8", ("phi", "zee", "rad"))[:] = q[i].reshape(p["number_of_phi_grid_points"], p["number_of_z_grid_points"], p["number_of_r_grid_points"])
    d.close()


def run_history(c):
    G = X.MGrid()
    S = None  # (params, total field) or ("fixed", arrays)
    tainted = False
    done = set()
    with tempfile.TemporaryDirectory() as d:
        for step, o in enumerate(c["ops"]):
            k = o["op"]
            r = np.random.default_rng(o["seed"])
            if "p" in o:
                p = o["p"]
                n = o["n"]
                N = p["number_of_r_grid_points"] * p["number_of_z_grid_points"] * p["number_of_phi_grid_points"]
                t = r.standard_normal((3, n, N))
                cur = r.standard_normal(n) * 10.0 ** r.integers(-2, 6)
                f = os.path.join(d, "m%d.nc" % step)
            if k == "table":
                G.load_fields(p, *t, cur)
                S, tainted = (p, np.einsum("cnk,n->ck", t, cur)), False
            elif k in ("file", "ncfile"):
                if k == "ncfile" and o["f4"]:
                    t = t.astype("f4").astype("f8")
                if k == "file":
                    a = r.standard_normal((3, n, N)) if o["pot"] else None
                    X.write(f, p, cur, *t, None if a is None else tuple(a))
                    q = nc.Dataset(f)
                    shape = (p["number_of_phi_grid_points"], p["number_of_z_grid_points"], p["number_of_r_grid_points"])
                    scal = {"ir": shape[2], "jz": shape[1], "kp": shape[0], "nfp": p["number_of_field_periods"], "nextcur": n, "rmin": p["r_grid_minimum"], "rmax": p["r_grid_maximum"], "zmin": p["z_grid_minimum"], "zmax": p["z_grid_maximum"]}
                    for name, v in scal.items():
                        check(q[name][...] == v, "%s in the file is %r, expected %r", name, q[name][...], v)
                    check(bytes(q["mgrid_mode"][:].data.tobytes()) == (b"S" if p["normalize_by_currents"] else b"R"), "mgrid_mode")
                    check(np.array_equal(q["raw_coil_cur"][:], cur), "raw_coil_cur")
                    for i in range(n):
                        for name, v in zip(("br", "bp", "bz"), t):
                            w = q["%s_%03d" % (name, i + 1)][:]
                            check(w.shape == shape and np.array_equal(w, v[i].reshape(shape)), "%s of circuit %d in the file", name, i + 1)
                        if a is not None:
                            for name, v in zip(("ar", "ap", "az"), a):
                                check(np.array_equal(q["%s_%03d" % (name, i + 1)][:], v[i].reshape(shape)), "%s of circuit %d in the file", name, i + 1)
                    check((a is None) == ("ar_001" not in q.variables), "vector potential in the file")
                    q.close()
                else:
                    ncwrite(f, o, t, cur, o["format"], o["f4"])
                use = r.standard_normal(n) * 10.0 ** r.integers(-2, 6)
                G.load_file(f, use)
                S, tainted = (p, np.einsum("cnk,n->ck", t, use)), False
                check(G.state()["mode"].strip("\x00 ") == ("S" if p["normalize_by_currents"] else "R"), "mode %r", G.state()["mode"])
            elif k == "fixed":
                t = r.standard_normal((3, o["n"]))
                G.fixed(*t)
                S, tainted = ("fixed", t), False
            elif k == "badfile":
                how = o["how"]
                use = cur
                if how != "missing":
                    ncwrite(f, o, t, cur, "NETCDF3_CLASSIC", False)
                if how == "truncate":
                    raw = open(f, "rb").read()
                    open(f, "wb").write(raw[:o["which"] % 40])
                elif how == "currents":
                    use = np.append(cur, 1.0) if o["which"] % 2 else cur[:-1]
                elif how in ("ir", "extent", "shape", "novar"):
                    q = nc.Dataset(f, "a")
                    if how == "ir":
                        name, v = [("ir", 1), ("jz", 0), ("kp", 0), ("ir", -3), ("jz", 1)][o["which"] % 5]
                        q[name][...] = v
                    elif how == "extent":
                        name, v = [("rmin", p["r_grid_maximum"]), ("zmax", p["z_grid_minimum"] - 1)][o["which"] % 2]
                        q[name][...] = v
                    elif how == "shape":
                        name = ["ir", "jz", "kp"][o["which"] % 3]
                        q[name][...] = int(q[name][...]) + 1
                    else:
                        vs = sorted(v for v in q.variables if v != "raw_coil_cur")
                        q.renameVariable(vs[o["which"] % len(vs)], "gone")
                    q.close()
                try:
                    G.load_file(f, use)
                except ValueError:
                    tainted = True  # what an earlier load provided is not promised after a failed one
                    done.add("rejected")
                    continue
                check(False, "file with defect %s loaded", how)
            elif k == "badtable":
                how = o["how"]
                p = dict(p)
                b = list(t)
                use = cur
                if how == "currents":
                    use = np.append(cur, 0.0)
                elif how == "params":
                    p["number_of_z_grid_points"] += 1
                elif how == "cols":
                    b = [q[:, :-1] for q in b]
                else:
                    i = ["br", "bp", "bz"].index(how)
                    b[i] = b[i][:, :-1] if r.integers(2) else b[i][:-1]
                try:
                    G.load_fields(p, *b, use)
                except ValueError:
                    tainted = True
                    done.add("rejected")
                    continue
                check(False, "table with defect %s loaded", how)
            else:
                if S is None or tainted:
                    continue
                if S[0] == "fixed":
                    N = S[1].shape[1]
                    a, b = sorted((o["a"] % (N + 1), o["b"] % (N + 1)))
                    br, bp, bz, _ = G.interpolate(a, b, o["nz"], np.zeros(N), np.zeros(N))
                    check(np.array_equal([br, bp, bz], S[1][:, a:b]), "fixed field at points %d..%d", a, b)
                    done.add("fixed")
                    continue
                p = S[0]
                nz = p["number_of_phi_grid_points"]
                N = nz * o["nt"]
                a, b = sorted((o["a"] % (N + 1), o["b"] % (N + 1)))
                lo, hi = np.array([p["r_grid_minimum"], p["z_grid_minimum"]]), np.array([p["r_grid_maximum"], p["z_grid_maximum"]])
                x = r.uniform(0, 1, (N, 2)) * (hi - lo) + lo
                if o["edge"] == "node":
                    nn = np.array([p["number_of_r_grid_points"], p["number_of_z_grid_points"]]) - 1
                    x = lo + r.integers(0, nn + 1, (N, 2)) * ((hi - lo) / nn)
                elif o["edge"] == "out":
                    x += r.uniform(-1, 1, (N, 2)) * (hi - lo)
                br, bp, bz, text = G.interpolate(a, b, nz, x[:, 0].copy(), x[:, 1].copy())
                kk = np.arange(a, b) % nz
                want = interp_ref(S, kk, x[a:b, 0], x[a:b, 1])
                e = np.abs(np.array([br, bp, bz]) - want).max(initial=0)
                check(e <= 1e-9 * np.abs(S[1]).max(), "interpolated field off by %g, points %d..%d of %d: %r, expected %r", e, a, b, N, [br, bp, bz], want)
                out = ((x[a:b] < lo) | (x[a:b] > hi)).any()
                if o["edge"] != "node":
                    check(bool(out) == ("exceeded" in text), "warning about leaving the grid: %r", text)
                done.add("interp-" + o["edge"])
                if b > a:
                    done.add("points")
            check(G.loaded() == (S is not None), "loaded state")
    return {"labels": sorted(done) or ["none"], "nontrivial": "points" in done or "fixed" in done}


@st.composite
def pytable(draw):
    return {"p": draw(params(3)), "n": draw(st.integers(1, 3)), "edit": draw(st.sampled_from(["none", "params", "swap", "inplace", "row", "new", "json"])), "seed": draw(st.integers(0, 10**6))}


def run_pytable(c):
    p = c["p"]
    r = np.random.default_rng(c["seed"])
    N = p["number_of_r_grid_points"] * p["number_of_z_grid_points"] * p["number_of_phi_grid_points"]
    t = r.standard_normal((3, c["n"], N))
    m = VM.MagneticFieldResponseTable(parameters=VM.MakegridParameters(**p), b_r=t[0].copy(), b_p=t[1].copy(), b_z=t[2].copy())
    cpp = m._to_cpp_magnetic_field_response_table()
    m = VM.MagneticFieldResponseTable._from_cpp_magnetic_field_response_table(cpp)
    want = t.copy()
    e = c["edit"]
    if e == "params":
        m.parameters = VM.MakegridParameters(**dict(p, number_of_field_periods=p["number_of_field_periods"] + 1))
        p = dict(p, number_of_field_periods=p["number_of_field_periods"] + 1)
    elif e == "swap":
        m.b_r, m.b_z = m.b_z, m.b_r
        want = want[[2, 1, 0]]
    elif e == "inplace":
        m.b_p[...] = m.b_p * 2
        want[1] *= 2
    elif e == "row":
        m.b_r, m.b_p, m.b_z = m.b_r[:1], m.b_p[:1], m.b_z[:1]
        want = want[:, :1]
    elif e == "new":
        m.b_z = -m.b_z
        want[2] *= -1
    elif e == "json":
        m = VM.MagneticFieldResponseTable.model_validate_json(m.model_dump_json())
    del cpp
    out = m._to_cpp_magnetic_field_response_table()
    check(np.array_equal([out.b_r, out.b_p, out.b_z], want), "table given to the solver differs after %s", e)
    check({q: getattr(out.parameters, q) for q in KEYS} == p, "parameters given to the solver differ after %s", e)
    return {"labels": [e], "nontrivial": True}


PROPS = [Prop("table", table_case, run_table, quick=400, thorough=8000, isolate=True, budget=60),
         Prop("parameters", json_case, run_json, quick=400, thorough=10000, isolate=True, budget=30),
         Prop("history", history, run_history, quick=300, thorough=8000, isolate=True, budget=60),
         Prop("python_table", pytable, run_pytable, quick=100, thorough=2000, isolate=True, budget=20)]
