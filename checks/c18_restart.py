"""C18: every route to an equilibrium (warm start, multigrid, stepwise Python loop, other time-step controls) gives the same equilibrium."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vp import repo, solve
from vp.harness import Prop, Skip, Violation, check

PROPERTY = "C18"
RULE = ("same: a converged problem is started again from its own result (in memory, through JSON, through a wout file; n threads): it must be recognised as converged at once. changed: a result is used to start a modified "
        "problem; the cold start of that problem must agree. refused: a state of other resolution, symmetry or shape is rejected with an exception. stepwise: the Python multigrid loop against the C++ run (residual history, "
        "restarts, final state); styles: the time-step controls agree exactly when nothing was reverted, and on the equilibrium otherwise. refine: refine_to against a numpy model of the three interpolants. "
        "control: the three styles of the Python loop on a stand-in model with generated residual histories, against a reference state machine. Non-trivial: 3D, asymmetric or with pressure (refine: every case).")
ASSUMPTIONS = ["fixed boundary (free boundary: C22)", "different converged routes are compared to 1 % of the minor radius, because ftol bounds the force, not the distance to the equilibrium"]
V = CPP = IT = None


def setup():
    global V, CPP, IT
    V, _ = repo.full(PROPERTY, [])
    import vmecpp._iteration as it
    import vmecpp.cpp._vmecpp as c
    CPP, IT = c, it


def geo(w):
    out = [w.rmnc, w.zmns]
    if w.lasym:
        out += [w.rmns, w.zmnc]
    return np.concatenate([np.asarray(x, float) for x in out])


def single(inp, **kw):
    one = inp.model_copy(deep=True)
    one.ns_array, one.ftol_array, one.niter_array = inp.ns_array[-1:], inp.ftol_array[-1:], inp.niter_array[-1:]
    for k, v in kw.items():
        setattr(one, k, v)
    return one


def free_origin(d):
    """Asymmetric boundaries given with a reversed poloidal angle: the origin of theta inside the plasma is not determined, so different routes may end with different origins."""
    return d["lasym"] and any(q["m"] == 1 and q["n"] == 0 and q["value"] < 0 for q in d["zbs"])


def run(inp, **kw):
    try:
        return V.run(inp, verbose=False, **kw)
    except RuntimeError as e:
        raise Skip("not converged: %s" % str(e)[:80]) from None


@st.composite
def same(draw):
    return {"p": draw(solve.problem()), "via": draw(st.sampled_from(["memory", "memory", "json", "wout"])), "threads": draw(st.sampled_from([1, 1, 2, 3, 5])), "more": draw(st.sampled_from([0, 0, 0, 3, 8]))}


def run_same(c):
    d = c["p"]
    inp = solve.make(V, d)
    o = run(inp, max_threads=c["threads"])
    state = o
    if c["via"] != "memory":
        tmp = tempfile.mkdtemp()
        try:
            if c["via"] == "json":
                state = V.VmecOutput.model_validate_json(o.model_dump_json())
            else:
                o.wout.save(os.path.join(tmp, "wout.nc"))
                w = V.VmecWOut.from_wout_file(os.path.join(tmp, "wout.nc"))
                state = o.model_copy(update={"wout": w})
        finally:
            shutil.rmtree(tmp)
    one = single(inp)
    before = state.wout.rmnc.copy()
    if c["more"]:  # continue on a finer grid after the restarted stage
        n = int(inp.ns_array[-1])
        one.ns_array, one.ftol_array, one.niter_array = np.array([n, n + c["more"]]), np.array([inp.ftol_array[-1]] * 2), np.array([inp.niter_array[-1]] * 2)
    if c["more"]:
        o2 = run(one, max_threads=c["threads"], restart_from=state)
    else:
        try:
            o2 = V.run(one, verbose=False, max_threads=c["threads"], restart_from=state)
        except RuntimeError as e:
            raise Violation("a converged equilibrium started again from its own result did not converge: %s" % str(e)[:120]) from None
    check(np.array_equal(before, state.wout.rmnc), "the run modified the state it was started from")
    if c["more"] and free_origin(d):
        check(o2.wout.ns == one.ns_array[-1], "the restarted run ended with %d surfaces", int(o2.wout.ns))
    elif c["more"]:
        for ftol in (None, 1e-14, 1e-16):
            if ftol:
                one.ftol_array, one.niter_array = np.array([ftol] * 2), np.array([8000] * 2)
                o2 = run(one, max_threads=c["threads"], restart_from=state)
            o3 = run(single(one), max_threads=c["threads"])
            a, b = geo(o2.wout), geo(o3.wout)
            if a.shape != b.shape or np.abs(a - b).max() <= 0.01 * o3.wout.Aminor_p:
                break
        check(a.shape == b.shape and np.abs(a - b).max() <= 0.01 * o3.wout.Aminor_p, "warm start and refinement to %d surfaces differs from the direct solution by %.3g of the minor radius", int(one.ns_array[-1]), np.abs(a - b).max() / o3.wout.Aminor_p)
    else:
        first = max([float(x[0]) for x in (o2.wout.force_residual_r, o2.wout.force_residual_z, o2.wout.force_residual_lambda) if len(x)], default=0.0)
        check(first <= 10 * float(inp.ftol_array[-1]), "a converged equilibrium (ftol %g) started again from its own result with a residual of %.3g and needed %d iterations (cold: %d)", float(inp.ftol_array[-1]), first, int(o2.wout.niter), int(o.wout.niter))
        dr = np.abs(geo(o.wout) - geo(o2.wout)).max() / o.wout.Aminor_p
        check(dr <= 1e-3, "the geometry moved by %.3g of the minor radius in a restart from the same equilibrium", dr)
        x, y = [np.concatenate([np.asarray(w.lmns_full)] + ([np.asarray(w.lmnc_full)] if d["lasym"] else [])) for w in (o.wout, o2.wout)]
        check(np.abs(x - y).max() <= 1e-3, "lambda changed by %.3g in a restart from the same equilibrium", np.abs(x - y).max())
        for k in ("iotaf", "presf", "b0", "volume", "wb", "betatotal", "ctor"):
            p, q = np.asarray(getattr(o.wout, k), float), np.asarray(getattr(o2.wout, k), float)
            s = {"iotaf": 0.1, "betatotal": 1e-3, "ctor": abs(o.wout.b0) * o.wout.Aminor_p / solve.MU0}.get(k, 0.0)
            check(np.abs(p - q).max() <= 1e-3 * max(np.abs(p).max(), s), "%s changed from %r to %r in a restart from the same equilibrium", k, p, q)
    return {"labels": solve.labels(d) + [c["via"], "threads%d" % c["threads"]] + ["refined"] * bool(c["more"]), "nontrivial": solve.nontrivial(d)}


@st.composite
def changed(draw):
    d = draw(solve.problem(multi=False, special=False))
    return {"p": dict(d, ftol_array=[1e-12]), "what": draw(st.lists(st.sampled_from(["boundary", "pressure", "phiedge", "profile", "nfp", "asym"]), min_size=1, max_size=3, unique=True)), "f": draw(solve.fl(0.7, 1.4)), "threads": draw(st.sampled_from([1, 1, 3]))}


def run_changed(c):
    d, f = c["p"], c["f"]
    if free_origin(d):
        raise Skip("origin of theta not determined")
    o = run(solve.make(V, d), max_threads=c["threads"])
    e = dict(d)
    for w in c["what"]:
        if w == "boundary":
            e["rbc"] = [dict(q, value=q["value"] * (1.0 + 0.1 * (f - 1.0) * (q["m"] + abs(q["n"])))) for q in e["rbc"]]
        elif w == "pressure" and e.get("pres_scale"):
            e["pres_scale"] = e["pres_scale"] * f
        elif w == "phiedge":
            e["phiedge"] = e["phiedge"] * f
        elif w == "profile" and d["ncurr"] == 0:
            e["ai"] = [e["ai"][0] * (1.0 + 0.3 * (f - 1.0))] + list(e["ai"][1:])
        elif w == "profile":
            e["curtor"] = e["curtor"] * f
        elif w == "nfp" and e["ntor"]:
            e["nfp"] = e["nfp"] + 1
        elif w == "asym" and d["lasym"]:
            e["zbc"] = [dict(q, value=q["value"] * f) for q in e["zbc"] or []]
    for ftol in (1e-12, 1e-14, 1e-16):  # ftol bounds the force only: a difference has to persist when the tolerance shrinks
        e["ftol_array"], e["niter_array"] = [ftol], [8000]
        inp = solve.make(V, e)
        cold = run(inp, max_threads=1)
        try:
            warm = V.run(inp, max_threads=c["threads"], verbose=False, restart_from=o)
        except RuntimeError:
            try:
                warm = V.run(solve.make(V, dict(e, delt=0.3)), max_threads=c["threads"], verbose=False, restart_from=o)
            except RuntimeError as x:
                if d["ncurr"] or d["lasym"]:  # these may converge slowly from anywhere
                    raise Skip("warm start did not converge") from None
                raise Violation("the cold start converges, the warm start of the same input does not: %s" % str(x)[:120]) from None
        dr = np.abs(geo(warm.wout) - geo(cold.wout)).max() / cold.wout.Aminor_p
        if dr <= 0.01:
            break
    check(dr <= 0.01, "warm and cold start of the same input differ by %.3g of the minor radius (changed: %s)", dr, c["what"])
    i, j = (cold.wout.ns - 1), slice(None)
    for k in ("rmnc", "zmns") + (("rmns", "zmnc") if e["lasym"] else ()):
        x, y = np.asarray(getattr(warm.wout, k))[j, i], np.asarray(getattr(cold.wout, k))[j, i]
        check(np.abs(x - y).max() <= 1e-9 * cold.wout.Rmajor_p, "the warm start has another boundary (%s)", k)
    for k in ("iotaf", "presf", "b0", "volume", "wb"):
        p, q = np.asarray(getattr(cold.wout, k), float), np.asarray(getattr(warm.wout, k), float)
        check(np.abs(p - q).max() <= 0.02 * max(np.abs(p).max(), 0.1 if k == "iotaf" else 0.0), "%s is %r from a cold start, %r from a warm start (changed: %s)", k, p, q, c["what"])
    return {"labels": solve.labels(d) + c["what"], "nontrivial": solve.nontrivial(d)}


@st.composite
def refused(draw):
    return {"p": draw(solve.problem(multi=False, special=False, ns=(5, 8))), "what": draw(st.sampled_from(["mpol", "ntor", "lasym", "ns", "old ns", "surfaces", "modes", "threads"])), "n": draw(st.integers(1, 30)), "sign": draw(st.sampled_from([-1, 1]))}


def run_refused(c):
    d, what, n = c["p"], c["what"], c["n"] * c["sign"]
    inp = solve.make(V, d)
    o = run(inp, max_threads=1)
    e = dict(d)
    kw = {"max_threads": 1}
    if what == "mpol":
        e["mpol"] = d["mpol"] + (1 + c["n"] % 3)
    elif what == "ntor":
        e["ntor"] = d["ntor"] + (1 + c["n"] % 3)
    elif what == "lasym":
        e.update(lasym=not d["lasym"])
    elif what == "ns":
        m = max(3, d["ns_array"][0] + n)
        e["ns_array"] = [m if m != d["ns_array"][0] else m + 1]
    elif what == "old ns":
        m = max(3, d["ns_array"][0] + n)
        m = m if m != d["ns_array"][0] else m + 1
        e["ns_array"] = [m]
        old = inp.model_copy(deep=True)
        old.ns_array = np.array([m])
        o = o.model_copy(update={"input": old})
    elif what in ("surfaces", "modes"):
        w = o.wout.model_copy(deep=True)
        for k in ("rmnc", "zmns", "lmns_full") + (("rmns", "zmnc", "lmnc_full") if d["lasym"] else ()):
            x = np.asarray(getattr(w, k))
            y = np.zeros((x.shape[0], max(1, x.shape[1] - c["n"])) if what == "surfaces" else (max(1, x.shape[0] - c["n"]), x.shape[1]))
            y[:] = x[:y.shape[0], :y.shape[1]]
            setattr(w, k, y)
        o = o.model_copy(update={"wout": w})
    elif what == "threads":
        kw["max_threads"] = -c["n"] + 1
    try:
        V.run(solve.make(V, e), verbose=False, restart_from=o, **kw)
    except Exception as x:  # any Python exception is a clean rejection
        check("converge" not in str(x), "a state with another %s was used to start a run", what)
        return {"labels": [what], "nontrivial": True}
    raise Violation("a run was started from a state with another %s" % what)


@st.composite
def stepwise(draw):
    d = draw(solve.problem())
    return {"p": d, "maxit": draw(st.sampled_from([0, 0, 0, 20, 60])), "style": draw(st.sampled_from([None, None, "vmec_8_52", "parvmec"]))}


def rel(a, b, floor=1e-15):
    return np.abs(np.asarray(a) - np.asarray(b)) / (np.abs(np.asarray(b)) + floor)


def reasons(w):
    r = getattr(w, "restart_reasons", None)
    return None if r is None else [x for x in r]


def run_stepwise(c):
    d = dict(c["p"])
    if c["style"]:
        d["iteration_style"] = c["style"]
    if len(set(d["ns_array"])) < len(d["ns_array"]):
        d["ns_array"] = [d["ns_array"][0], d["ns_array"][0] + 2]
    if c["maxit"]:
        d["niter_array"] = [c["maxit"]] * len(d["ns_array"])
        d["return_outputs_even_if_not_converged"] = True
    inp = solve.make(V, d)
    w = run(inp, max_threads=1).wout
    seen = []
    m, rs = IT.solve_multigrid(inp, iteration_style=c["style"], callback=seen.append)
    check(len(rs) == len(d["ns_array"]) and m.ns == d["ns_array"][-1], "stages %s solved as %d stages, final ns %d", d["ns_array"], len(rs), m.ns)
    # huge forces in the very first iteration make the C++ loop keep its velocity over the new axis guess; the Python loop starts at rest there
    huge = any(len(r.restart_reasons) and r.restart_reasons[0] == 4 and r.axis_reguesses for r in rs)
    for part in () if huge else ("force_residual_r", "force_residual_z", "force_residual_lambda"):
        a = np.concatenate([getattr(r, part) for r in rs])
        b = np.asarray(getattr(w, part), float)
        check(len(a) == len(b), "%d recorded force iterations in Python, %d in C++ (stages %s)", len(a), len(b), [r.num_iterations for r in rs])
        k = min(len(a), 50)
        e1, e2 = rel(a[:k], b[:k]).max(initial=0), rel(a, b).max(initial=0)
        check(e1 <= 1e-6 and e2 <= 1e-2, "%s: histories of the Python and the C++ loop differ by %.3g (first 50) and %.3g (all)", part, e1, e2)
    r = rs[-1]
    check((r.num_iterations == len(r.force_residual_r)) and not r.failed, "result of the Python loop is inconsistent")
    if not c["maxit"]:
        ftol = d["ftol_array"][-1]
        check(r.converged and max(r.fsqr, r.fsqz, r.fsql) <= ftol, "C++ converged but the Python loop reports converged=%s with residuals %.3g %.3g %.3g (ftol %g)", r.converged, r.fsqr, r.fsqz, r.fsql, ftol)
        check(huge or abs(w.fsqr - r.fsqr) <= 1e-2 * w.fsqr + 1e-15 and abs(w.fsqz - r.fsqz) <= 1e-2 * w.fsqz + 1e-15, "final residuals: C++ %.6g %.6g, Python %.6g %.6g", w.fsqr, w.fsqz, r.fsqr, r.fsqz)
    one = single(inp)
    hot = CPP.HotRestartState(wout=w._to_cpp_wout(), indata=one._to_cpp_vmecindata())
    ref = np.asarray(CPP.VmecModel.create(one._to_cpp_vmecindata(), m.ns, hot).get_state())
    x = np.asarray(m.get_state())
    if not c["maxit"] and d.get("mpol_geometry") is None:
        nm = d["mpol"] * (d["ntor"] + 1)
        nb = (2 if d["ntor"] else 1) * (2 if d["lasym"] else 1)
        X, Y = x.reshape(3, nb, m.ns, nm), ref.reshape(3, nb, m.ns, nm)
        dr = np.abs(X[:2] - Y[:2])[:, :, 1:].max() / w.Aminor_p
        check(dr <= 1e-4 or huge and (dr <= 0.05 or free_origin(d)), "final geometry of the Python loop differs from that of the C++ run by %.3g of the minor radius", dr)
    check([s.iteration for s in seen] == sorted(s.iteration for s in seen) or len(rs) > 1, "iterations reported out of order")
    for s in seen:
        check(abs(s.fsq_invariant - (s.fsqr + s.fsqz + s.fsql)) <= 1e-12 * abs(s.fsq_invariant), "fsq_invariant is not the sum of the residuals")
        check(s.fsq_preconditioned == s.fsqr1 + s.fsqz1 + s.fsql1 or not np.isfinite(s.fsq_preconditioned), "fsq_preconditioned is not the sum of the residuals")
        check(s.delt > 0 and s.iter1 <= s.iter2, "callback state delt %g iter1 %d iter2 %d", s.delt, s.iter1, s.iter2)
    return {"labels": solve.labels(d) + [str(d.get("iteration_style")), "restarts" if sum(r.restarts for r in rs) else "", "reguess" if sum(r.axis_reguesses for r in rs) else "", "cut" if c["maxit"] else "", "huge" if huge else ""], "nontrivial": solve.nontrivial(d)}


@st.composite
def styles(draw):
    return {"p": draw(solve.problem(multi=False)), "interp": draw(st.sampled_from([None, "linear", "cubic", "cubic_rho"])), "coarse": draw(st.integers(3, 7))}


def run_styles(c):
    d = dict(c["p"])
    if free_origin(d):
        raise Skip("origin of theta not determined")
    d.pop("iteration_style", None)
    for ftol in (1e-12, 1e-14, 1e-16):
        d["ftol_array"], d["niter_array"] = [ftol], [8000]
        inp = solve.make(V, d)
        a = run(inp, max_threads=1).wout.Aminor_p
        out = {}
        for s in ("vmec_8_52", "parvmec", "robust"):
            m, r = IT.iterate(inp, iteration_style=s)
            check(r.iteration_style == s, "iteration_style %r reported as %r", s, r.iteration_style)
            if r.converged:
                out[s] = (np.asarray(m.get_state()), r)
        check("vmec_8_52" in out, "the C++ solver converged but not the Python loop in the same style")
        two = inp.model_copy(deep=True)
        n = int(inp.ns_array[-1])
        if c["coarse"] < n:
            two.ns_array, two.ftol_array, two.niter_array = np.array([c["coarse"], n]), np.array([1e-10, ftol]), np.array([8000, 8000])
            m, rs = IT.solve_multigrid(two, interpolation=c["interp"])
            if rs[-1].converged:
                out["grid"] = (np.asarray(m.get_state()), rs[-1])
        x0, r0 = out["vmec_8_52"]
        third, bad = len(x0) // 3, None
        for s, (x, r) in out.items():
            if s == "vmec_8_52":
                continue
            if s != "grid" and r0.restarts == r.restarts == 0 and r0.axis_reguesses == r.axis_reguesses == 0:
                check(np.array_equal(x, x0), "%s and vmec_8_52 did not revert anything but end in different states", s)
            dr = np.abs(x - x0)[:2 * third].max() / a
            if not dr <= 0.01:
                bad = "%s converged to a geometry that differs by %.3g of the minor radius from that of vmec_8_52" % (s, dr)
        if not bad:
            break
    check(not bad, bad or "")
    return {"labels": solve.labels(d) + sorted(out) + [str(c["interp"])], "nontrivial": solve.nontrivial(d)}


@st.composite
def refine(draw):
    d = draw(solve.problem(multi=False, special=False, ns=(3, 9)))
    return {"p": d, "new": d["ns_array"][0] + draw(st.integers(-2, 14)), "interp": draw(st.sampled_from([None, "LINEAR", "CUBIC", "CUBIC_RHO"])), "seed": draw(st.integers(0, 2**31))}


def lagrange(nodes, t):
    return np.array([np.prod([(t - nodes[q]) / (nodes[k] - nodes[q]) for q in range(len(nodes)) if q != k]) for k in range(len(nodes))])


def run_refine(c):
    d = c["p"]
    n0, n1 = d["ns_array"][0], c["new"]
    inp = solve.make(V, d)
    m = CPP.VmecModel.create(inp._to_cpp_vmecindata(), n0)
    x = np.asarray(m.get_state()).copy()
    nb = (2 if d["ntor"] else 1) * (2 if d["lasym"] else 1)
    X = x.reshape(3 * nb, n0, d["mpol"], d["ntor"] + 1)
    X += np.random.default_rng(c["seed"]).normal(size=X.shape) * 0.1
    X[:, 0, 1::2] = 0.0
    m.set_state(x)
    sch = None if c["interp"] is None else getattr(CPP.MultigridInterpolationScheme, c["interp"])
    if n1 <= n0:
        try:
            m.refine_to(n1, sch)
        except RuntimeError:
            check(np.array_equal(m.get_state(), x) and m.ns == n0, "a refused refinement changed the state")
            return {"labels": ["refused"], "nontrivial": True}
        raise Violation("refinement from %d to %d surfaces was accepted" % (n0, n1))
    m.refine_to(n1, sch)
    check(m.ns == n1, "ns after refinement is %d instead of %d", m.ns, n1)
    s0, s1 = np.arange(n0) / (n0 - 1), np.arange(n1) / (n1 - 1)
    odd = np.arange(d["mpol"]) % 2 == 1
    f0, f1 = np.sqrt(np.maximum(s0, s0[1])), np.sqrt(np.maximum(s1, s1[1]))
    Y = X.copy()
    Y[:, :, odd] /= f0[None, :, None, None]
    Y[:, 0, odd] = 2 * Y[:, 1, odd] - Y[:, 2, odd]
    Z = np.zeros((3 * nb, n1, d["mpol"], d["ntor"] + 1))
    for j, s in enumerate(s1):
        k = (j * (n0 - 1)) // (n1 - 1)
        if c["interp"] in (None, "LINEAR") or n0 < 4:
            k = min(k, n0 - 2)
            idx, t, nodes = [k, k + 1], s, s0[k:k + 2]
        else:
            k = min(max(k - 1, 0), n0 - 4)
            idx = list(range(k, k + 4))
            t, nodes = (s, s0[idx]) if c["interp"] == "CUBIC" else (np.sqrt(s), np.sqrt(s0[idx]))
        Z[:, j] = np.tensordot(lagrange(nodes, t), Y[:, idx], axes=(0, 1))
    Z[:, :, odd] *= f1[None, :, None, None]
    Z[:, 0, odd] = 0.0
    got = np.asarray(m.get_state()).reshape(Z.shape)
    e = np.abs(got - Z)
    i = np.unravel_index(e.argmax(), e.shape)
    check(e.max() <= 1e-9 * np.abs(Y).max(), "refinement %d -> %d (%s): coefficient block %d, surface %d, m=%d, n=%d is %r instead of %r", n0, n1, c["interp"], i[0], i[1], i[2], i[3], got[i], Z[i])
    return {"labels": solve.labels(d)[:2] + [str(c["interp"])], "nontrivial": True}


@st.composite
def control(draw):
    """A residual history: segments of (length, growth per iteration of the preconditioned and of the invariant residual), events by evaluation."""
    seg = st.tuples(st.integers(1, 60), st.floats(-0.4, 1.5), st.floats(-0.4, 1.5))
    ev = st.tuples(st.one_of(st.integers(0, 3), st.integers(0, 250)), st.sampled_from(["bad", "bad", "huge", "nan", "jump", "zero", "badrun"]))
    return {"style": draw(st.sampled_from(["vmec_8_52", "parvmec", "robust"])), "default": draw(st.booleans()), "segments": [list(x) for x in draw(st.lists(seg, min_size=1, max_size=6))], "events": [list(x) for x in draw(st.lists(ev, max_size=6))],
            "start": draw(st.floats(-6, 3)), "niter": draw(st.sampled_from([1, 5, 60, 200, 400])), "ftol": draw(st.sampled_from([1e-12, 1e-4])), "delt": draw(st.sampled_from([0.9, 0.5])), "ns": draw(st.sampled_from([3, 11]))}


class Fake:
    """A model without physics: residuals and restart reasons come from the generated history, every operation is recorded."""

    def __init__(self, c):
        self.c, self.log, self.n = c, [], 0
        self.ftolv, self.niterv, self.delt, self.ns = c["ftol"], c["niter"], c["delt"], c["ns"]
        self.iteration_style = c["style"] if c["default"] else "vmec_8_52"
        self.mhd_energy, self.restart_reason = 1.0, 0
        self.pre, self.inv = [c["start"]], [c["start"] - 1]
        self.ev = {}
        for i, k in c["events"]:
            for q in range(i, i + (40 if k == "badrun" else 1)):
                self.ev.setdefault(q, k)
        self.states = []

    def at(self, n):
        a = b = 0.0
        i = 0
        for length, p, q in self.c["segments"]:
            k = min(length, max(0, n - i))
            a, b, i = a + p * k, b + q * k, i + length
        e = self.ev.get(n)
        if e == "jump":
            a, b = a + 3, b + 5
        pre, inv = (10.0 ** min(max(self.c["start"] + x, -14), 8) for x in (a, b))
        if n > 380:
            pre = inv = 1e-13
        v = [0.5 * inv, 0.3 * inv, 0.2 * inv, 0.5 * pre, 0.25 * pre, 0.25 * pre]
        if e == "zero":
            v[3:] = [0.0, 0.0, 0.0]
        if e == "nan":
            v[1] = float("nan")
        return v, {"bad": 2, "badrun": 2, "huge": 4}.get(e, 0)

    def evaluate(self, iter1, iter2, **kw):
        v, rr = self.at(self.n)
        if rr == 4 and iter2 > 1:  # only the very first forces can be huge
            rr = 0
        self.n += 1
        self.fsqr, self.fsqz, self.fsql, self.fsqr1, self.fsqz1, self.fsql1 = v
        self.restart_reason = rr
        self.log.append(("evaluate", iter1, iter2))
        self.states.append((v, rr))

    def reinitialize(self):
        self.log.append(("reinitialize",))

    def save_backup(self):
        self.log.append(("save",))

    def restore_backup(self):
        self.log.append(("restore",))

    def perform_time_step(self, velocity_scale, conjugation_parameter, time_step):
        self.log.append(("step", velocity_scale, conjugation_parameter, time_step))


def predicted(c, fake):
    """The documented control, written as one flat loop over evaluations. Returns the log of operations and the outcome."""
    log, style = [], c["style"]
    dt, tau, last, res0, res1, iter1, jac, n = c["delt"], [0.0] * 10, 1.0, -1.0, -1.0, 1, 0, 0
    it, skipped, retries, outcome, trace, restarts, guesses, fresh = 1, 0, 1, "limit", [], 0, 0, None
    it2 = 1
    while it <= c["niter"]:
        it2 = it - skipped
        v, rr = fake.at(n)
        if rr == 4 and it2 > 1:
            rr = 0
        n += 1
        log.append(("evaluate", iter1, it2))
        inv, pre = sum(v[:3]), v[3] + v[4] + v[5]
        bad = it2 == 1 and rr == 2 or not np.isfinite(inv)
        if not bad and max(v[:3]) <= c["ftol"]:
            outcome = "converged"
            break
        if not bad:
            if it2 == iter1:
                tau = [0.15 / dt] * 10
            new = tau[-1]
            if it2 > iter1 and pre != 0.0:
                new = min(abs(np.log(pre / last)) if last else np.inf, 0.15) / dt
            tau = tau[1:] + [new]
            last = pre
            trace.append((v[0], v[1], v[2], rr))
            half = dt * sum(tau) / 10 / 2
            log.append(("step", 1 / (1 + half), 1 - half, dt))
        retry = None
        if jac == 0 and (bad or rr == 4):
            jac, guesses, retry = 1, guesses + 1, "guess"
        elif bad:
            outcome = "failed"
            break
        elif jac in (25, 50):
            log.append(("restore",))
            jac, iter1, restarts, retry = jac + 1, it2, restarts + 1, "again"
            dt = (0.98 if jac < 50 else 0.96) * c["delt"]
        elif jac >= 75:
            outcome = "failed"
            break
        if retry:
            if retries >= c["niter"]:
                break
            retries += 1
            if retry == "guess":
                log += [("reinitialize",), ("save",)]
            it, skipped = it2, 0
            continue
        if it2 == iter1 or res0 == -1.0:
            res0, res1 = pre, inv
        res0, res1 = min(res0, pre), min(res1, inv)
        best = pre <= res0 and (inv <= res1 or style == "vmec_8_52")
        slow = it2 - iter1 > 12 and it2 > 50 and v[0] + v[1] > 1e-2
        leash = {"vmec_8_52": 100.0, "parvmec": 1e4, "robust": 1e3}[style]
        grown = pre > leash * res0 or style != "vmec_8_52" and inv > leash * res1
        grown = grown and (it2 > iter1 if style == "vmec_8_52" else it2 - iter1 > 10)
        hard = rr == 2 or style == "vmec_8_52" and grown
        gentle = grown if style == "parvmec" else slow if style == "vmec_8_52" else grown or slow
        if style == "parvmec" and grown and not best:
            hard = False
        if rr == 4:
            log.append(("save",))
            iter1, skipped = it2, skipped + 1
        elif hard:
            log.append(("restore",))
            dt, jac, iter1, restarts = dt * 0.9, jac + 1, it2, restarts + 1
            skipped += not (style == "parvmec" and best)
        elif best and (style != "vmec_8_52" or it2 - iter1 > 10):
            log.append(("save",))
        elif gentle and not (best and style != "vmec_8_52"):
            log.append(("restore",))
            dt, iter1, restarts, skipped = dt / 1.03, it2, restarts + 1, skipped + 1
        it += 1
    return log, outcome, trace, restarts, guesses


def run_control(c):
    fake = Fake(c)
    if any(k == "zero" for _, k in c["events"]) and c["style"]:
        pass
    seen = []
    try:
        r = IT.solve_equilibrium(fake, style=None if c["default"] else c["style"], callback=seen.append)
    except (ZeroDivisionError, ValueError):
        # the logarithm of a ratio with an exact zero: a residual that vanishes completely without convergence is not physical
        check(any(k == "zero" for _, k in c["events"]), "the iteration raised an exception")
        raise Skip("exact zero") from None
    log, outcome, trace, restarts, guesses = predicted(c, fake)
    for i, (a, b) in enumerate(zip(fake.log, log)):
        same = a[0] == b[0] and len(a) == len(b) and all(abs(x - y) <= 1e-9 * abs(y) for x, y in zip(a[1:], b[1:]))
        check(same, "%s: operation %d of the iteration is %s instead of %s (before: %s)", c["style"], i, a, b, fake.log[max(0, i - 4):i])
    check(len(fake.log) == len(log), "%s: %d operations instead of %d; last %s / %s", c["style"], len(fake.log), len(log), fake.log[-3:], log[-3:])
    check((r.converged, r.failed) == (outcome == "converged", outcome == "failed"), "outcome is converged=%s failed=%s instead of %s", r.converged, r.failed, outcome)
    check((r.restarts, r.axis_reguesses, r.num_iterations) == (restarts, guesses, len(trace)), "restarts, guesses, iterations are %s instead of %s", (r.restarts, r.axis_reguesses, r.num_iterations), (restarts, guesses, len(trace)))
    got = list(zip(r.force_residual_r, r.force_residual_z, r.force_residual_lambda, r.restart_reasons))
    check([tuple(x) for x in got] == trace, "the recorded residual history is not that of the evaluations")
    check(r.iteration_style == c["style"], "style %r is reported as %r", c["style"], r.iteration_style)
    n = 0
    for s in seen:  # callbacks describe the decision of their iteration
        check(s.restarted is False or s.n_restarts > n, "a restart is reported but not counted")
        n = s.n_restarts
        check(s.fsq_invariant == s.fsqr + s.fsqz + s.fsql and s.fsq_preconditioned == s.fsqr1 + s.fsqz1 + s.fsql1, "sums in the callback")
    return {"labels": [c["style"], outcome, "restarts" if restarts else "", "escalated" if restarts > 25 else "", "guess" if guesses else ""], "nontrivial": restarts + guesses > 0}


PROPS = [
    Prop("control", control, run_control, quick=1500, thorough=60000, isolate=False, shards=1, budget=30, thorough_budget=300),
    Prop("same", same, run_same, quick=160, thorough=3000, isolate=True, shards=2, budget=70, thorough_budget=600, timeout=180),
    Prop("changed", changed, run_changed, quick=80, thorough=2000, isolate=True, shards=1, budget=70, thorough_budget=600, timeout=180),
    Prop("refused", refused, run_refused, quick=80, thorough=1000, isolate=True, shards=1, budget=40, thorough_budget=300, timeout=180),
    Prop("stepwise", stepwise, run_stepwise, quick=120, thorough=2500, isolate=True, shards=2, budget=70, thorough_budget=600, timeout=180),
    Prop("styles", styles, run_styles, quick=60, thorough=1200, isolate=True, shards=1, budget=70, thorough_budget=600, timeout=180),
    Prop("refine", refine, run_refine, quick=150, thorough=4000, isolate=True, shards=1, budget=40, thorough_budget=300, timeout=180),
]
