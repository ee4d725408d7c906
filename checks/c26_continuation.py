"""C26: resolution continuation keeps the solution: remapping, radial interpolation and the schedule of steps."""
import numpy as np
from hypothesis import strategies as st

from vp import repo
from vp.harness import Prop, check

PROPERTY = "C26"
RULE = ("A case is a source resolution, a target resolution and random mode data, or a whole schedule of (ns, mpol, ntor, ftol, niter) steps. "
        "Oracle: a dictionary keyed by (m, n); interpolation in sqrt(s) written out per point; exactness for functions linear in sqrt(s); "
        "identity at equal resolution; preservation of the surfaces both grids share; the recorded sequence of single-resolution runs. "
        "Non-trivial: the resolution changes.")
ASSUMPTIONS = ["the schedule check replaces the solver by a recorder; that the solver itself works is checked elsewhere"]
V = CT = OUT = INP = None


def setup():
    global V, CT, OUT, INP
    import os
    V, _ = repo.full(PROPERTY)
    import vmecpp._continuation as CT_
    CT = CT_
    INP = V.VmecInput.from_file(os.path.join(repo.TEST_DATA, "solovev.json"))
    INP.ns_array, INP.ftol_array, INP.niter_array = np.array([5]), np.array([1e-8]), np.array([400])
    OUT = V.run(INP, verbose=False, max_threads=1)


def table(mpol, ntor):
    return [(m, n) for m in range(mpol) for n in (range(ntor + 1) if m == 0 else range(-ntor, ntor + 1))]


@st.composite
def case(draw):
    d = {"src": [draw(st.integers(1, 8)), draw(st.integers(0, 5)), draw(st.integers(3, 25))], "nfp": draw(st.integers(1, 6)),
         "dst": [draw(st.integers(1, 8)), draw(st.integers(0, 5)), draw(st.integers(3, 40))], "seed": draw(st.integers(0, 10**6)),
         "lasym": draw(st.booleans()), "kind": draw(st.sampled_from(["random", "random", "linear", "same", "refine"]))}
    if d["kind"] == "same":
        d["dst"] = list(d["src"])
    if d["kind"] == "refine":
        d["dst"][2] = (d["src"][2] - 1) * draw(st.integers(1, 4)) + 1
    return d


def ref_radial(v, m, ns_new):
    """one mode's radial profile on the new grid, point by point"""
    n = len(v)
    if n == ns_new:
        return v.copy()
    x = np.sqrt(np.arange(n) / (n - 1.0))
    y = v.astype(float).copy()
    if m % 2:
        y[1:] = v[1:] / x[1:]
        y[0] = 2 * y[1] - y[2] if n >= 3 else v[0] / x[1]
    out = np.empty(ns_new)
    for j in range(ns_new):
        t = np.sqrt(j / (ns_new - 1.0))
        k = min(max(int(np.searchsorted(x, t, side="right")) - 1, 0), n - 2)
        w = (t - x[k]) / (x[k + 1] - x[k])
        f = y[k] * (1 - w) + y[k + 1] * w
        out[j] = f * t if m % 2 else f
    if m % 2:
        out[0] = 0.0
    return out


FIELDS = ("rmnc", "zmns", "lmns", "lmns_full", "rmns", "zmnc", "lmnc", "lmnc_full")


def run_interp(c):
    r = np.random.default_rng(c["seed"])
    (mp, nt, ns), (mp2, nt2, ns2), nfp = c["src"], c["dst"], c["nfp"]
    A, B = table(mp, nt), table(mp2, nt2)
    xm, xn = CT._state_mode_table(mp, nt, nfp)
    check([(int(a), int(b)) for a, b in zip(xm, xn)] == [(m, n * nfp) for m, n in A], "mode table of mpol=%d ntor=%d", mp, nt)
    # shuffled source order: the tables, not the positions, say which mode is which
    w = OUT.wout.model_copy(deep=True)
    x = np.sqrt(np.linspace(0, 1, ns))
    data = {}
    for f in FIELDS:
        if not c["lasym"] and f in ("rmns", "zmnc", "lmnc", "lmnc_full"):
            data[f] = None
            continue
        v = r.uniform(-1, 1, (len(A), ns))
        if c["kind"] == "linear":
            ab = r.uniform(-1, 1, (len(A), 2))
            v = ab[:, :1] + ab[:, 1:] * x
            v = np.where(np.array([m % 2 for m, _ in A])[:, None] == 1, v * x, v)
        data[f] = v
    ax = {f: r.uniform(-1, 1, nt + 1) for f in ("raxis_cc", "zaxis_cs", "raxis_cs", "zaxis_cc")}
    d = dict(w.__dict__)
    d.update(data)
    d.update(ax if c["lasym"] else dict(ax, raxis_cs=None, zaxis_cc=None))
    d.update(nfp=nfp, xm=np.array([m for m, _ in A]), xn=np.array([n * nfp for _, n in A]), ns=ns, mpol=mp, ntor=nt, mnmax=len(A))
    aux = r.uniform(-1, 1, ns)
    d.update(presf=aux, iotaf=aux * 2)
    wo = type(w).model_construct(**d)
    src = type(OUT).model_construct(**dict(OUT.__dict__, wout=wo))
    before = {k: None if v is None else v.copy() for k, v in data.items()}
    tgt = INP.model_copy(deep=True)
    tgt.__dict__.update(mpol=mp2, ntor=nt2, nfp=nfp, ns_array=np.array([ns2]))

    class Out:  # the fields of a VmecOutput, without validating the untouched ones again
        def __init__(self, **kw):
            self.__dict__.update(kw)
    keep = V.VmecOutput
    V.VmecOutput = Out
    try:
        got = CT.interpolate_solution(src, tgt).wout
    finally:
        V.VmecOutput = keep
    check([(int(a), int(b)) for a, b in zip(got.xm, got.xn)] == [(m, n * nfp) for m, n in B], "target mode table")
    check((int(got.ns), int(got.mpol), int(got.ntor), int(got.mnmax)) == (ns2, mp2, nt2, len(B)), "target sizes %r", (got.ns, got.mpol, got.ntor, got.mnmax))
    at = {k: i for i, k in enumerate(A)}
    x2 = np.sqrt(np.linspace(0, 1, ns2))
    for f in FIELDS:
        g = getattr(got, f)
        if data[f] is None:
            check(g is None, "%s appeared", f)
            continue
        check(np.array_equal(data[f], before[f]), "%s of the source was changed", f)
        g = np.asarray(g)
        check(g.shape == (len(B), ns2), "%s has shape %r", f, g.shape)
        for i, (m, n) in enumerate(B):
            if (m, n) not in at:
                check(not g[i].any(), "%s: new mode (%d, %d) is not zero", f, m, n)
                continue
            v = data[f][at[(m, n)]]
            want = ref_radial(v, m, ns2)
            e = np.abs(g[i] - want).max()
            check(e < 1e-12, "%s mode (%d, %d): off by %g", f, m, n, e)
            if ns == ns2:
                check(np.array_equal(g[i], v), "%s mode (%d, %d) changed at equal resolution", f, m, n)
            elif (ns2 - 1) % (ns - 1) == 0:
                k = (ns2 - 1) // (ns - 1)
                e = np.abs(g[i][k::k] - v[1:]).max()
                check(e < 1e-12, "%s mode (%d, %d): shared surfaces changed by %g", f, m, n, e)
            if c["kind"] == "linear":
                ab = np.polyfit(x[1:], v[1:] / (x[1:] if m % 2 else 1), 1) if ns > 2 else None
                w_ = np.polyval(ab, x2) * (x2 if m % 2 else 1)
                sel = x2 >= x[1] - 1e-12  # nearer the axis the value at s = 0 is extrapolated by index
                check(np.abs(g[i] - w_)[sel].max() < 1e-8, "%s mode (%d, %d): not exact for a function linear in sqrt(s)", f, m, n)
    for f, v in ax.items():
        g = getattr(got, f)
        if not c["lasym"] and f in ("raxis_cs", "zaxis_cc"):
            check(g is None, "%s appeared", f)
            continue
        want = np.zeros(nt2 + 1)
        k = min(nt, nt2) + 1
        want[:k] = v[:k]
        check(np.array_equal(np.asarray(g), want), "axis %s: %r", f, g)
    for f, v in (("presf", aux), ("iotaf", 2 * aux)):
        g = np.asarray(getattr(got, f))
        check(len(g) == ns2 and np.allclose(g, np.interp(np.linspace(0, 1, ns2), np.linspace(0, 1, ns), v), rtol=0, atol=1e-12), "profile %s", f)
    return {"labels": [c["kind"], "lasym" if c["lasym"] else "sym"], "nontrivial": c["src"] != c["dst"]}


@st.composite
def sched(draw):
    n = draw(st.integers(1, 5))
    seq = lambda lo, hi: [draw(st.integers(lo, hi)) for _ in range(n)]  # noqa: E731
    mpol = draw(st.one_of(st.integers(2, 8), st.just(None)))
    ntor = draw(st.one_of(st.integers(0, 4), st.just(None)))
    if mpol is not None and ntor is not None:
        mpol = None
    return {"ns": seq(3, 99), "mpol": mpol if mpol is not None else seq(2, 8), "ntor": ntor if ntor is not None else seq(0, 4), "niter": seq(1, 9999),
            "ftol": [10.0 ** -k for k in seq(2, 16)], "seed": draw(st.integers(0, 10**6)), "restart": draw(st.booleans()), "lasym": draw(st.booleans()),
            "bad": draw(st.sampled_from([None] * 6 + ["mpol", "ntor"])), "threads": draw(st.sampled_from([None, 1, 3]))}


def run_sched(c):
    r = np.random.default_rng(c["seed"])
    n = len(c["ns"])
    mps = c["mpol"] if isinstance(c["mpol"], list) else [c["mpol"]] * n
    nts = c["ntor"] if isinstance(c["ntor"], list) else [c["ntor"]] * n
    M, N = mps[-1], nts[-1]
    b = {k: r.uniform(-1, 1, (M, 2 * N + 1)) for k in ("rbc", "zbs", "rbs", "zbc")}
    ax = {k: r.uniform(-1, 1, N + 1) for k in ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c")}
    inp = V.VmecInput.default()
    inp = inp.model_copy(deep=True)
    if not c["lasym"]:
        b["rbs"] = b["zbc"] = ax["raxis_s"] = ax["zaxis_c"] = None
    inp.__dict__.update(b, **ax)
    mpv = np.array(mps + ([7] if c["bad"] == "mpol" else [])) if isinstance(c["mpol"], list) else c["mpol"]
    ntv = np.array(nts + ([3] if c["bad"] == "ntor" else [])) if isinstance(c["ntor"], list) else c["ntor"]
    bad = (c["bad"] == "mpol" and isinstance(c["mpol"], list)) or (c["bad"] == "ntor" and isinstance(c["ntor"], list))
    inp.__dict__.update(lasym=c["lasym"], mpol=mpv, ntor=ntv, ns_array=np.array(c["ns"]), ftol_array=np.array(c["ftol"]), niter_array=np.array(c["niter"]), nfp=1)
    calls = []

    class Res:
        def __init__(self, k):
            self.k, self.input = k, None

        def model_copy(self, update):
            q = Res(self.k)
            q.__dict__.update(update)
            return q
    run0, it0 = V.run, CT.interpolate_solution

    def fake_run(i, mf=None, *, max_threads=None, verbose=None, restart_from=None):
        calls.append((i, mf, max_threads, verbose, restart_from))
        return Res(len(calls))
    V.run = fake_run
    CT.interpolate_solution = lambda src, tgt: ("guess", src, tgt)
    seed = Res(0) if c["restart"] else None
    try:
        try:
            out = CT._run_fourier_continuation(inp, "field", max_threads=c["threads"], verbose=2, restart_from=seed)
        except ValueError as e:
            check(bad, "a consistent schedule is rejected: %s", e)
            check(not calls, "steps were run before the schedule was rejected")
            return {"labels": ["rejected"]}
    finally:
        V.run, CT.interpolate_solution = run0, it0
    check(not bad, "a schedule with a wrong number of entries is accepted")
    check(len(calls) == n, "%d steps for %d entries", len(calls), n)
    check(out.k == n and out.input is inp, "the result is not that of the last step with the original input")
    for i, (s, mf, th, vb, rs) in enumerate(calls):
        check(mf == "field" and th == c["threads"] and vb == 2, "step %d: field, threads or verbosity not passed on", i)
        check(isinstance(s.mpol, int) and isinstance(s.ntor, int) and (s.mpol, s.ntor) == (mps[i], nts[i]), "step %d runs at mpol=%r ntor=%r", i, s.mpol, s.ntor)
        check(list(s.ns_array) == [c["ns"][i]] and list(s.ftol_array) == [c["ftol"][i]] and list(s.niter_array) == [c["niter"][i]], "step %d: schedule %r %r %r", i,
              s.ns_array, s.ftol_array, s.niter_array)
        if i == 0 and seed is None:
            check(rs is None, "the first step does not start cold")
        else:
            check(rs is not None and rs[0] == "guess" and rs[1].k == (0 if i == 0 else i) and rs[2] is s, "step %d is not restarted from the step before", i)
        for k, v in b.items():
            g = getattr(s, k)
            if v is None:
                check(g is None, "%s appeared in step %d", k, i)
                continue
            want = np.zeros((mps[i], 2 * nts[i] + 1))
            for m in range(min(M, mps[i])):
                for q in range(-min(N, nts[i]), min(N, nts[i]) + 1):
                    want[m, q + nts[i]] = v[m, q + N]
            check(np.array_equal(np.asarray(g), want), "boundary %s of step %d", k, i)
        for k, v in ax.items():
            g = getattr(s, k)
            if v is None:
                check(g is None, "%s appeared in step %d", k, i)
                continue
            want = np.zeros(nts[i] + 1)
            q = min(N, nts[i]) + 1
            want[:q] = v[:q]
            check(np.array_equal(np.asarray(g), want), "axis %s of step %d", k, i)
    check(all(np.array_equal(getattr(inp, k), v) for k, v in b.items() if v is not None) and np.array_equal(inp.ns_array, c["ns"]), "the input was modified")
    return {"labels": ["steps%d" % n, "restart" if c["restart"] else "cold"], "nontrivial": n > 1}


PROPS = [
    Prop("interpolate", case, run_interp, quick=500, thorough=6000, shards=3, budget=60, timeout=60),
    Prop("schedule", sched, run_sched, quick=400, thorough=5000, shards=3, budget=60, timeout=60),
]
