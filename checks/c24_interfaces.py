"""C24: the SIMSOPT wrapper and the command line give the results of the plain interface."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from vp import repo, solve
from vp.harness import Prop, Skip, Violation, check

PROPERTY = "C24"
RULE = ("history: a generated sequence of operations on a vmecpp.simsopt_compat.Vmec object (boundary coefficients, degrees of freedom, new resolution, replaced boundary, run, hot restart, queries, get_input, write_input) against a model that is a "
        "dictionary of coefficients by (m, n) and the scalar parameters; every result must be that of vmecpp.run on the modelled input, runs happen exactly when something changed, quantities must match their definitions and the geometry of the boundary surface. "
        "cli: the command line on a generated input file against vmecpp.run / VmecInput. name: output file names. program, makegrid: the C++ programs in their own process against vmecpp.run and MagneticFieldResponseTable.from_coils_file, with bad arguments and files. surface: the boundary surface of an input file against the Fourier sums. Non-trivial: at least two runs with different inputs / the file was written.")
ASSUMPTIONS = ["fixed boundary", "replaced boundary surfaces have the field periods and the symmetry of the input", "the output of a changed input that does not converge is an ObjectiveFailure"]
V = S = X = SZ = None
KEYS = ("rbc", "zbs", "rbs", "zbc")
SHORT = {"rbc": "rc", "zbs": "zs", "rbs": "rs", "zbc": "zc"}
DOFS = ("delt", "tcon0", "phiedge", "curtor", "gamma")


def setup():
    global V, S, X, SZ
    V, (X,) = repo.full(PROPERTY, ["vx_mains"])
    import vmecpp.simsopt_compat as s
    S = s
    import importlib.util as iu
    spec = iu.spec_from_file_location("vx_surface", os.path.join(str(repo.REPO), "src/vmecpp/cpp/vmecpp/simsopt_compat/_indata_to_surfacerzfourier.py"))
    SZ = iu.module_from_spec(spec)
    spec.loader.exec_module(SZ)


@st.composite
def base(draw):
    d = draw(solve.problem(multi=draw(st.booleans()), ns=(4, 7)))
    for k in ("mpol_geometry", "ntor_geometry"):
        d.pop(k, None)
    n = len(d["ns_array"])
    d["ftol_array"] = [1e-6 if i < n - 1 else 1e-8 for i in range(n)]
    d["niter_array"] = [1000 + 100 * i for i in range(n)]
    if d["lasym"] and draw(st.booleans()):
        d["raxis_s"] = [0.0] + [0.01] * d["ntor"]
        d["zaxis_c"] = [0.01] * (d["ntor"] + 1)
    return d


@st.composite
def op(draw):
    k = draw(st.sampled_from(["coef", "coef", "dof", "query", "query", "query", "run", "resize", "replace", "input", "write", "touch", "restart", "hot", "wout"]))
    return [k, draw(st.integers(0, 10 ** 6)), draw(st.floats(-1, 1).map(lambda x: round(x, 3)))]


@st.composite
def history(draw):
    return {"p": draw(base()), "ops": draw(st.lists(op(), min_size=1, max_size=8)), "name": draw(st.sampled_from(["x.json", "input.y.json", "input.a.b.json"])), "keep": draw(st.booleans())}


class Model:
    def __init__(self, d):
        self.input = solve.make(V, d)
        self.mpol, self.ntor, self.la = d["mpol"], d["ntor"], d["lasym"]
        self.co = {k: {} for k in KEYS[:4 if self.la else 2]}
        for k, c in self.co.items():
            for q in d.get(k) or []:
                if q["m"] < self.mpol and abs(q["n"]) <= self.ntor:
                    c[q["m"], q["n"]] = q["value"]
        self.dof = [float(getattr(self.input, k)) for k in DOFS]
        self.smpol, self.sntor = self.mpol, self.ntor  # resolution of the boundary surface (m < smpol)

    def make(self):
        i = self.input.model_copy(deep=True)
        i.mpol, i.ntor = self.mpol, self.ntor
        for k in self.co:
            x = np.zeros((self.mpol, 2 * self.ntor + 1))
            for (m, n), v in self.co[k].items():
                if m < self.mpol and abs(n) <= self.ntor:
                    x[m, n + self.ntor] = v + 0.0  # the surface has no negative zeros
            setattr(i, k, x)
        for k in ("raxis_c", "zaxis_s") + (("raxis_s", "zaxis_c") if self.la else ()):
            setattr(i, k, np.zeros(self.ntor + 1))
        for k, v in zip(DOFS, self.dof):
            setattr(i, k, v)
        return i


def Other(boundary):
    """Another object of an optimization that depends on the boundary."""
    class O(S.Optimizable):
        def __init__(self):
            self.rung = self.lost = False
            S.Optimizable.__init__(self, x0=np.zeros(0), depends_on=[boundary])

        def recompute_bell(self, parent=None):
            self.rung = True
    return O()


def same_input(a, b, what):
    for k in type(a).model_fields:
        x, y = getattr(a, k), getattr(b, k)
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            check(x is not None and y is not None and np.shape(x) == np.shape(y) and np.array_equal(x, y), "%s: %s is\n%s\ninstead of\n%s", what, k, x, y)
        else:
            check(x == y, "%s: %s is %r instead of %r", what, k, x, y)


PATH = ("wdot", "itfsq", "niter", "force_residual_r", "force_residual_z", "force_residual_lambda", "fsqt", "restart_reasons", "delbsq")


def same_wout(a, b, what):
    a, b = solve.arrays(a), solve.arrays(b)
    check(set(a) == set(b), "%s: other quantities", what)
    for k in a:
        same = a[k].shape == b[k].shape
        if same and not np.array_equal(a[k], b[k], equal_nan=True):
            same = k.startswith("fsq") or k in PATH or np.allclose(a[k], b[k], rtol=0, atol=1e-6 * max(np.nanmax(np.abs(b[k])), 1e-6), equal_nan=True)
        check(same, "%s: %s differs from that of vmecpp.run on the same input (%s)", what, k, np.abs(a[k] - b[k]).max() if a[k].shape == b[k].shape and a[k].size else "shape")


def definitions(v, w, geometry=True):
    """Quantities of the wrapper against their definitions on the output."""
    ns = len(w.iotas)
    sh = (np.arange(1, ns) - 0.5) / (ns - 1)
    it = np.asarray(w.iotas, float)[1:]
    tol = 1e-9

    def eq(name, got, want, t=tol):
        check(abs(float(got) - float(want)) <= t * max(abs(float(want)), 1e-6), "%s() is %.15g instead of %.15g", name, float(got), float(want))
    eq("aspect", v.aspect(), w.aspect)
    eq("volume", v.volume(), w.volume)
    eq("iota_axis", v.iota_axis(), w.iotaf[0])
    eq("iota_edge", v.iota_edge(), w.iotaf[-1])
    eq("mean_iota", v.mean_iota(), it.sum() / len(it))
    x = sh - sh.mean()
    slope = (x * it).sum() / (x * x).sum()
    check(abs(v.mean_shear() - slope) <= 1e-8 * (abs(slope) + np.abs(it).max()), "mean_shear() is %.12g instead of %.12g", v.mean_shear(), slope)
    i00 = int(np.flatnonzero((np.asarray(w.xm_nyq) == 0) & (np.asarray(w.xn_nyq) == 0))[0])
    dv = np.abs(np.asarray(w.gmnc)[i00, 1:])
    v0, v1 = 1.5 * dv[0] - 0.5 * dv[1], 1.5 * dv[-1] - 0.5 * dv[-2]
    check(abs(v.vacuum_well() - (v0 - v1) / v0) <= 1e-9, "vacuum_well() is %.12g instead of %.12g", v.vacuum_well(), (v0 - v1) / v0)
    check(abs(v.external_current() - 2 * np.pi * w.rbtor / (4e-7 * np.pi)) <= 1e-9 * abs(v.external_current()) + 1e-3, "external_current() is %.9g A, R*Bphi at the edge needs %.9g A", v.external_current(), w.rbtor * 5e6)
    check(np.allclose(v.s_full_grid, np.arange(ns) / (ns - 1), atol=1e-13) and np.allclose(v.s_half_grid, sh, atol=1e-13) and abs(v.ds - 1 / (ns - 1)) < 1e-13, "radial grids of the wrapper")


def run_history(c):
    d, L = c["p"], []
    scratch = tempfile.mkdtemp(prefix="c24")
    cwd = os.getcwd()
    real = V.run
    calls = []

    def counted(*a, **k):
        calls.append(1)
        return real(*a, **k)
    os.chdir(scratch)
    try:
        M = Model(d)
        (Path(scratch) / c["name"]).write_text(M.input.model_dump_json())
        v = S.Vmec(c["name"], verbose=False, keep_all_files=c["keep"])
        V.run = counted
        dirty, ref, nruns, distinct = True, None, 0, 0
        start = [v.boundary.mpol, v.boundary.ntor, v.boundary.nfp, v.boundary.stellsym]
        check(start == [d["mpol"] - 1, d["ntor"], d["nfp"], not d["lasym"]], "boundary surface has mpol, ntor, nfp, stellsym %s", start)
        other = Other(v.boundary)
        ops = []
        for k, i, x in c["ops"]:  # a hot restart needs a solution and a change
            ops += [["query", 0, 0.0], ["coef", i, 0.1 * x], ["restart", i, x]] if k == "hot" else [[k, i, x]]
        for k, i, x in ops + [["query", 0, 0.0]]:
            L.append(k)
            other.rung = False
            b = v.boundary
            if k == "coef":
                name = sorted(M.co)[i % len(M.co)]
                m, n = (i // 7) % M.smpol, (i // 101) % (2 * M.sntor + 1) - M.sntor
                if m == 0 and (n < 0 or n == 0 and name in ("zbs", "rbs")):
                    m, n = 1, 0
                old = M.co[name].get((m, n), 0.0)
                new = old + 0.02 * x * d["rbc"][0]["value"] / 8
                getattr(b, "set_" + SHORT[name])(m, n, new)
                M.co[name][m, n] = new
                check(other.rung or other.lost, "another object that depends on the boundary was not told of its change")
                dirty = True
            elif k == "dof":
                j = i % 5
                new = [0.5 + 0.3 * abs(x), 0.7 + 0.3 * x, M.dof[2] * (1 + 0.1 * x), 0.0 if x < 0 else M.dof[3] * (1 + 0.1 * x), 0.1 * x][j]
                if i % 2:
                    q = np.array(v.local_full_x)
                    q[j] = new
                    v.local_full_x = q
                else:
                    v.unfix(DOFS[j])
                    v.set(DOFS[j], new)
                M.dof[j] = float(new)
                dirty = True
            elif k == "resize":
                mp, nt = 3 + i % 4, (i // 4) % 3 if d["ntor"] else 0
                v.set_mpol_ntor(mp, nt)
                M.mpol, M.ntor, M.smpol, M.sntor = mp, nt, mp, nt
                M.co = {q: {(m, n): y for (m, n), y in t.items() if m < mp and abs(n) <= nt} for q, t in M.co.items()}
                check((v.indata.mpol, v.indata.ntor) == (mp, nt), "set_mpol_ntor(%d, %d): indata has %s, %s", mp, nt, v.indata.mpol, v.indata.ntor)
                dirty = True
            elif k == "replace":
                mp, nt = 3 + i % 4, (i // 4) % 3 if d["ntor"] else 0
                nb = S.SurfaceRZFourier(nfp=d["nfp"], stellsym=not d["lasym"], mpol=mp - 1, ntor=nt)
                co = {q: {} for q in M.co}
                for q in co:
                    for m in range(mp):
                        for n in range(-nt, nt + 1):
                            y = M.co[q].get((m, n), 0.0) * (1 + 0.01 * x)
                            if y and not (m == 0 and n < 0):
                                getattr(nb, "set_" + SHORT[q])(m, n, y)
                                co[q][m, n] = y
                for m, n in ((0, 0), (1, 0)):  # a new surface is a torus with R = 1, a = 0.1
                    nb.set_rc(m, n, co["rbc"].get((m, n), 0.0))
                nb.set_zs(1, 0, co["zbs"].get((1, 0), 0.0))
                v.boundary = nb
                other.lost = True  # it keeps the old surface
                M.co, M.smpol, M.sntor = co, mp, nt
                dirty = True
            elif k == "touch":
                v.recompute_bell()
                dirty = True
            elif k == "input":
                same_input(V.VmecInput.model_validate_json(v.get_input()), M.make(), "get_input")
            elif k == "write":
                v.write_input("written.json")
                same_input(V.VmecInput.from_file("written.json"), M.make(), "write_input")
            elif k == "wout" and c["keep"] and ref is not None and not dirty:
                f = "wout_%s.nc" % {"x.json": "x", "input.y.json": "y", "input.a.b.json": "a.b"}[c["name"]]
                check(os.path.exists(f) and v.output_file == f, "the output was not saved as %s (%s)", f, v.output_file)
                u = S.Vmec(f, verbose=False)
                definitions(u, ref.wout)
                check(not u.runnable and not u.need_to_run_code, "an object made from a wout file can be run")
                vol = abs(u.boundary.volume())
                check(abs(u.volume() - vol) <= 0.02 * vol, "volume() of the wout file is %.6g, that of its boundary surface %.6g", u.volume(), vol)
                rc = np.array([[u.boundary.get_rc(m, n) - M.co["rbc"].get((m, n), 0.0) for n in range(0 if m == 0 else -M.ntor, M.ntor + 1)][-1] for m in range(M.mpol)])
                flipped = np.sign(M.co["zbs"].get((1, 0), 1.0)) * np.sign(M.co["rbc"].get((1, 0), 1.0)) < 0
                check(flipped or d["lasym"] or np.abs(rc).max() < 1e-9, "the boundary of the wout file is not the one that was run")
                u.boundary.set_rc(1, 0, 0.5)
                try:
                    u.run()
                except RuntimeError:
                    pass
                else:
                    raise Violation("an object made from a wout file was run after its boundary changed")
            elif k in ("run", "query", "restart"):
                n0, hot = len(calls), None
                changed = dirty
                if k == "restart" and ref is not None and dirty and ref.wout.mpol == M.mpol and ref.wout.ntor == M.ntor:
                    hot = ref
                want, err, got = None, None, None
                if changed:
                    inp = M.make()
                    if hot is not None:
                        inp.ns_array, inp.ftol_array, inp.niter_array = inp.ns_array[-1:], inp.ftol_array[-1:], inp.niter_array[-1:]
                    try:
                        want = real(inp, max_threads=1, verbose=False, restart_from=hot)
                    except RuntimeError as e:
                        err = e
                try:
                    if k == "query":
                        v.aspect()
                    elif hot is not None:
                        v.run(restart_from=hot)
                    else:
                        v.run()
                except S.ObjectiveFailure as e:
                    got = e
                check(len(calls) - n0 == (1 if changed else 0), "%d runs of the solver after %s", len(calls) - n0, "a change" if changed else "no change")
                check((got is None) == (err is None), "vmecpp.run: %r, wrapper: %r", err, got)
                if err is not None:
                    L.append("failed")
                    continue
                if changed:
                    ref, dirty, nruns = want, False, nruns + 1
                same_wout(v.wout, ref.wout, k)
                same_input(v.indata, M.make(), "indata after " + k)
                definitions(v, ref.wout)
                check(len(calls) - n0 == (1 if changed else 0), "asking for results ran the solver again")
                # geometry of the surface the user sees (only what the run could use of it)
                if M.smpol <= M.mpol and M.sntor <= M.ntor:
                    vol = abs(v.boundary.volume())
                    check(abs(v.volume() - vol) <= 0.02 * vol, "volume() is %.6g, that of the boundary surface %.6g", v.volume(), vol)
        return {"labels": sorted(set(L)) + (["asym"] if d["lasym"] else []), "nontrivial": nruns >= 2}
    finally:
        V.run = real
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


@st.composite
def cli(draw):
    return {"p": draw(base()), "what": draw(st.sampled_from(["run", "run", "convert"])), "threads": draw(st.sampled_from([None, 1, 2])), "out": draw(st.sampled_from(["-q", "--legacy", ""])),
            "name": draw(st.sampled_from(["x.json", "some.case.json", "wout_like.json"])), "sub": draw(st.booleans())}


def run_cli(c):
    import importlib.metadata as im

    import vmecpp.__main__ as main
    scratch = tempfile.mkdtemp(prefix="c24")
    cwd, argv, ver = os.getcwd(), sys.argv, im.version
    im.version = lambda n: "0" if n == "vmecpp" else ver(n)
    os.chdir(scratch)
    try:
        inp = solve.make(V, c["p"])
        f = Path("sub" if c["sub"] else ".") / c["name"]
        f.parent.mkdir(exist_ok=True)
        f.write_text(inp.model_dump_json())
        before = sorted(str(p) for p in Path(".").rglob("*"))
        sys.argv = ["vmecpp"] + (["convert"] if c["what"] == "convert" else []) + [str(f)]
        if c["what"] == "run":
            sys.argv += (["-t", str(c["threads"])] if c["threads"] else []) + ([c["out"]] if c["out"] else [])
            try:
                want = V.run(inp, max_threads=c["threads"], verbose=False)
            except RuntimeError:
                raise Skip("not converged") from None
        sys.stdout.flush()
        real, threads = V.run, []

        def recorded(*a, **k):
            threads.append(k.get("max_threads"))
            return real(*a, **k)
        V.run = recorded
        keep, null = os.dup(1), os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        try:
            main.main()
        finally:
            V.run = real
            sys.stdout.flush()
            os.dup2(keep, 1)
            os.close(keep)
            os.close(null)
        new = sorted(set(str(p) for p in Path(".").rglob("*")) - set(before))
        if c["what"] == "run":
            check(threads in ([], [c["threads"]]), "the solver was given max_threads = %s instead of %s", threads, c["threads"])
            o = "wout_%s.nc" % c["name"][:-5]
            check(new == [o], "the command line wrote %s instead of %s", new, o)
            got = V.VmecWOut.from_wout_file(Path(o))
            want.wout.save(Path("ref.nc"))
            a, b = solve.arrays(got), solve.arrays(V.VmecWOut.from_wout_file(Path("ref.nc")))
            exact = c["threads"] == 1
            for k in b:
                s = np.abs(b[k]).max() if b[k].size else 0
                check(a[k].shape == b[k].shape and (np.array_equal(a[k], b[k], equal_nan=True) if exact else k.startswith(("rmn", "zmn", "iota", "xm", "xn")) is False or np.abs(a[k] - b[k]).max(initial=0) <= 1e-5 * max(s, 1e-3)), "the saved %s is not that of vmecpp.run", k)
        else:
            check(len(new) == 1 and new[0].endswith(".json"), "convert wrote %s", new)
            same_input(V.VmecInput.from_file(new[0]), inp, "convert")
        return {"labels": [c["what"], c["out"] or "progress", str(c["threads"])], "nontrivial": True}
    finally:
        os.chdir(cwd)
        sys.argv, im.version = argv, ver
        shutil.rmtree(scratch, ignore_errors=True)


STEM = st.text(alphabet="ab1._-", min_size=1, max_size=6)


@st.composite
def name(draw):
    return {"stem": draw(st.one_of(STEM, st.sampled_from(["input", "json", "input.x", "x.json"]))), "form": draw(st.sampled_from(["input.%s", "%s.json", "input.%s.json", "input.json", "%s.nc"])), "dir": draw(st.sampled_from(["", "/a/b/", "input.d/"]))}


def run_name(c):
    f = c["form"] % c["stem"] if "%s" in c["form"] else c["form"]
    # the documented rules: "input." in front and ".json" at the end are dropped
    if f == "input.json":
        want = "wout_input.nc"
    elif f.startswith("input.") or f.endswith(".json"):
        t = f[6:] if f.startswith("input.") else f
        want = "wout_%s.nc" % (t[:-5] if t.endswith(".json") else t)
        if t in (".json", "json"):
            raise Skip("no name")
    else:
        want = None
    try:
        got = S._make_wout_filename(c["dir"] + f)
    except RuntimeError:
        got = None
    check(got == want, "the output of %r is called %r instead of %r", c["dir"] + f, got, want)
    return {"labels": [c["form"]], "nontrivial": want is not None}


def call(args):
    """Run one of the C++ programs in a process of its own."""
    code = "import sys; sys.path.insert(0, %r); import vx_mains; vx_mains.%s(sys.argv)" % (os.path.dirname(X.__file__), args[0])
    env = dict(os.environ, OMP_NUM_THREADS="2")
    return subprocess.run([sys.executable, "-c", code] + args[1:], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=150).returncode


@st.composite
def program(draw):
    return {"p": draw(base()), "threads": draw(st.sampled_from([None, 1, 2])), "name": draw(st.sampled_from(["x.json", "a.b.json", "plain"])), "bad": draw(st.sampled_from([None] * 7 + ["args", "missing", "text"]))}


def run_program(c):
    """The stand-alone C++ program."""
    import vmecpp.cpp._vmecpp as cpp
    scratch, cwd = tempfile.mkdtemp(prefix="c24"), os.getcwd()
    os.chdir(scratch)
    try:
        inp = solve.make(V, c["p"])
        f = c["name"]
        if c["bad"] != "missing":
            Path(f).write_text(inp.model_dump_json()[:-1 if c["bad"] == "text" else None])
        args = ["vmec_standalone", f] + ([str(c["threads"])] if c["threads"] else [])
        rc = call(args + ["1", "1"] if c["bad"] == "args" else args)
        out = f.removesuffix(".json") + ".out.h5"
        new = sorted(set(os.listdir(".")) - {f})
        try:
            want = None if c["bad"] else V.run(inp, max_threads=c["threads"], verbose=False)
        except RuntimeError:
            want = None
        if want is None:
            check(rc != 0 and new == [], "the program ended with %d and wrote %s for an input that cannot be solved", rc, new)
            return {"labels": ["refused", str(c["bad"])], "nontrivial": True}
        check(rc == 0 and new == [out], "the program ended with %d and wrote %s instead of %s", rc, new, out)
        got = V.VmecWOut._from_cpp_wout(cpp.OutputQuantities.load(out).wout)
        a, b = solve.arrays(got), solve.arrays(want.wout)
        for k in ("rmnc", "zmns", "lmns", "iotas", "iotaf", "pres", "vp", "bmnc", "phi", "xm", "xn", "wb", "aspect") + (("rmns", "zmnc") if c["p"]["lasym"] else ()):
            s = np.abs(b[k]).max()
            check(a[k].shape == b[k].shape and np.abs(a[k] - b[k]).max() <= (1e-9 if c["threads"] == 1 else 1e-5) * max(s, 1e-3), "%s of the program is not that of vmecpp.run", k)
        return {"labels": ["solved", str(c["threads"])], "nontrivial": True}
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


@st.composite
def grid(draw):
    n = draw(st.integers(1, 3))
    return {"coils": [[round(draw(st.floats(0.6, 1.4)), 3), round(draw(st.floats(-0.5, 0.5)), 3), round(draw(st.floats(-3e4, 3e4)), 1) or 1e3, draw(st.integers(4, 8))] for _ in range(n)], "nfp": draw(st.integers(1, 3)), "sym": draw(st.booleans()),
            "norm": draw(st.booleans()), "nr": draw(st.integers(2, 5)), "nz": draw(st.integers(2, 5)), "np": draw(st.integers(1, 4)), "name": draw(st.sampled_from(["coils.x", "coils.a_b", "coils.q.1"])),
            "bad": draw(st.sampled_from([None] * 7 + ["args", "params", "coils", "cut"]))}


def run_grid(c):
    """The stand-alone program that tabulates the coil field."""
    import netCDF4
    scratch, cwd = tempfile.mkdtemp(prefix="c24"), os.getcwd()
    os.chdir(scratch)
    try:
        L = ["periods %d" % c["nfp"], "begin filament", "mirror NIL"]
        for i, (r, z, cur, m) in enumerate(c["coils"]):
            for k in range(m + 1):
                t = 2 * np.pi * (k % m) / m
                L.append("%r %r %r %r" % (float(4 * r * np.cos(t)), float(4 * r * np.sin(t)), z, cur if k < m else 0.0) + (" %d c%d" % (i + 1, i) if k == m else ""))
        L.append("end")
        Path(c["name"]).write_text("\n".join(L if c["bad"] != "cut" else L[1:-2]) + "\n")
        par = {"normalize_by_currents": c["norm"], "assume_stellarator_symmetry": c["sym"], "number_of_field_periods": c["nfp"], "r_grid_minimum": 0.5, "r_grid_maximum": 1.5, "number_of_r_grid_points": c["nr"], "z_grid_minimum": -1.0,
               "z_grid_maximum": 1.0, "number_of_z_grid_points": c["nz"], "number_of_phi_grid_points": c["np"]}
        if c["bad"] == "params":
            par["number_of_phi_grid_points"] = 0
        Path("p.json").write_text(json.dumps(par))
        args = ["makegrid", "p.json", c["name"] if c["bad"] != "coils" else "coils.none"] + (["x"] if c["bad"] == "args" else [])
        rc = call(args)
        new = sorted(set(os.listdir(".")) - {"p.json", c["name"]})
        if c["bad"] or c["sym"] and c["np"] % 2:
            check(rc != 0 and new == [], "the program ended with %d and wrote %s for bad input (%s)", rc, new, c["bad"])
            return {"labels": [str(c["bad"])], "nontrivial": True}
        out = "mgrid_%s.nc" % c["name"][6:]
        check(rc == 0 and new == [out], "the program ended with %d and wrote %s instead of %s", rc, new, out)
        t = V.MagneticFieldResponseTable.from_coils_file(Path(c["name"]), V.MakegridParameters(**par))
        q = netCDF4.Dataset(out)
        shape = (c["np"], c["nz"], c["nr"])
        n = len(c["coils"])
        check(int(q["nextcur"][...]) == n == len(q["raw_coil_cur"][:]), "%s circuits in the file", q["nextcur"][...])
        check(int(q["nfp"][...]) == c["nfp"] and (int(q["kp"][...]), int(q["jz"][...]), int(q["ir"][...])) == shape, "sizes in the file")
        for i in range(n):
            for name, want in (("br", t.b_r), ("bp", t.b_p), ("bz", t.b_z)):
                w = np.asarray(q["%s_%03d" % (name, i + 1)][:]).reshape(-1)
                check(np.allclose(w, np.asarray(want)[i].reshape(-1), rtol=1e-9, atol=1e-12 * np.abs(t.b_z).max()), "%s of circuit %d is not that of from_coils_file", name, i + 1)
        q.close()
        return {"labels": ["written"], "nontrivial": True}
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


@st.composite
def surface(draw):
    mpol, ntor = draw(st.integers(2, 5)), draw(st.integers(0, 3))
    co = {}
    for k in ("rbc", "zbs"):
        co[k] = [{"m": m, "n": n, "value": (5.0 if k == "rbc" and m == n == 0 else 1.0 if m == 1 and n == 0 else round(draw(st.floats(-0.2, 0.2)), 3))} for m in range(mpol) for n in range(-ntor, ntor + 1)
                 if (m, n) in ((0, 0), (1, 0)) or (m > 0 or n > 0) and draw(st.booleans())]
    return {"mpol": mpol, "ntor": ntor, "nfp": draw(st.integers(1, 5)), "co": co, "ntheta": draw(st.sampled_from([None, 7, 16])), "nphi": draw(st.sampled_from([None, 4, 9])), "range": draw(st.sampled_from([None, "full torus", "half period", "field period"])),
            "form": draw(st.sampled_from(["json", "json", "any json", "fortran", "lasym"])), "ext": draw(st.sampled_from(["x.json", "input.x"]))}


def run_surface(c):
    """The surface of an input file, at the points that the arguments ask for."""
    scratch = tempfile.mkdtemp(prefix="c24")
    try:
        f = Path(scratch) / c["ext"]
        co = c["co"]
        if c["form"] == "fortran":
            L = ["&INDATA", "LASYM = F", "NFP = %d" % c["nfp"], "MPOL = %d" % c["mpol"], "NTOR = %d" % c["ntor"]]
            L += ["%s(%d,%d) = %r" % (k.upper(), q["n"], q["m"], q["value"]) for k in co for q in co[k]] + ["/"]
            f.write_text("\n".join(L) + "\n")
        else:
            f.write_text(json.dumps({"lasym": c["form"] == "lasym", "nfp": c["nfp"], "mpol": c["mpol"], "ntor": c["ntor"], **co}))
        get = SZ.surfacerzfourier_from_vmecppindata if c["form"] == "json" else SZ.surfacerzfourier_from_any_vmec_indata
        kw = {k: c[k] for k in ("ntheta", "nphi", "range") if c["form"] != "fortran"}
        try:
            s = get(f, **kw)
        except NotImplementedError:
            check(c["form"] == "lasym", "the boundary was refused")
            return {"labels": ["lasym"], "nontrivial": True}
        check(c["form"] != "lasym", "an asymmetric boundary was accepted")
        check(s.nfp == c["nfp"] and s.stellsym and (c["form"] == "fortran" or (s.mpol, s.ntor) == (c["mpol"] - 1, c["ntor"])), "sizes of the surface")
        t, p = np.asarray(s.quadpoints_theta), np.asarray(s.quadpoints_phi)
        if c["form"] != "fortran" and (c["ntheta"] or c["nphi"]):
            check(len(t) == (c["ntheta"] or 62) and len(p) == (c["nphi"] or 61), "%d x %d points", len(p), len(t))
            n, r = len(p), c["range"] or "full torus"
            want = {"full torus": np.arange(n) / n, "field period": np.arange(n) / n / c["nfp"], "half period": (np.arange(n) + 0.5) / n / 2 / c["nfp"]}[r]
            check(np.allclose(p, want, atol=1e-13) and np.allclose(t, np.arange(len(t)) / len(t), atol=1e-13), "points %s for %s", p, r)
        T, P = np.meshgrid(2 * np.pi * t, 2 * np.pi * p)
        R = sum(q["value"] * np.cos(q["m"] * T - q["n"] * c["nfp"] * P) for q in co["rbc"])
        Z = sum(q["value"] * np.sin(q["m"] * T - q["n"] * c["nfp"] * P) for q in co["zbs"])
        g = s.gamma()
        check(np.allclose(g, np.stack([R * np.cos(P), R * np.sin(P), Z], -1), atol=1e-12), "the surface is not the boundary of the file")
        return {"labels": [c["form"], str(c["range"])], "nontrivial": True}
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


PROPS = [
    Prop("name", name, run_name, quick=300, thorough=5000, isolate=False, budget=10, thorough_budget=30),
    Prop("history", history, run_history, quick=800, thorough=6000, isolate=True, shards=6, budget=60, thorough_budget=800, timeout=180),
    Prop("cli", cli, run_cli, quick=30, thorough=400, isolate=True, shards=1, budget=40, thorough_budget=200, timeout=180),
    Prop("program", program, run_program, quick=60, thorough=1000, isolate=True, shards=1, budget=40, thorough_budget=200, timeout=180),
    Prop("makegrid", grid, run_grid, quick=80, thorough=2000, isolate=True, shards=1, budget=30, thorough_budget=200, timeout=180),
    Prop("surface", surface, run_surface, quick=300, thorough=6000, isolate=False, budget=20, thorough_budget=100),
]
