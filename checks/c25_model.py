"""C25: VmecModel (the step-by-step forward model) is a pure function of its state with consistent derivatives and exact state primitives."""
import numpy as np
from hypothesis import strategies as st

from vp import repo, solve
from vp.harness import Prop, Skip, Violation, check

PROPERTY = "C25"
RULE = ("history: a generated sequence of operations (set_state, evaluate, time steps, backups, resets, axis re-guesses, refinement, Hessian products, preconditioner applications, failing calls) against a numpy model of the state, "
        "velocity, backup and evaluation counter; every evaluation must equal, bit for bit, that of a freshly created model. gradient: raw forces against finite differences of mhd_energy at a perturbed state. "
        "hvp: hessian_vector_product against central differences of the raw forces and linearity. precond: the preconditioner applied to the raw force is the preconditioned force; linear. refused: wrong lengths and resolutions raise. solve: VmecModel.solve against vmecpp.run, with its getters and traces. "
        "Non-trivial: the history evaluated at least 2 states / the state has a valid Jacobian.")
ASSUMPTIONS = ["fixed boundary", "after an evaluation with a bad Jacobian (restart_reason != 1) the forces are unspecified", "gradient: tcon0 = 0 and prescribed iota (otherwise the force is not the gradient of mhd_energy alone)",
               "the (m=1, first interior surface) force and lambda forces off the plasma edge are not compared to the gradient (axis extrapolation, lambda scaling)"]
V = CPP = None


def setup():
    global V, CPP
    V, _ = repo.full(PROPERTY, [])
    import vmecpp.cpp._vmecpp as c
    CPP = c


def small(draw, **kw):
    d = draw(solve.problem(multi=False, ns=(4, 9), **kw))
    return {k: q for k, q in d.items() if k not in ("mpol_geometry", "ntor_geometry")}  # these freeze part of the state


def shape(d, ns):
    return (3, (2 if d["ntor"] else 1) * (2 if d["lasym"] else 1), ns, d["mpol"], d["ntor"] + 1)


def model(d, ns=None, **kw):
    m = CPP.VmecModel.create(solve.make(V, d, **kw)._to_cpp_vmecindata(), ns or d["ns_array"][0])
    return m


def vec(m):
    return np.array(m.get_state(), float)


def force(m):
    return np.array(m.get_forces(), float)


def res(m):
    return np.array([m.fsqr, m.fsqz, m.fsql, m.mhd_energy])


def noise(d, ns, seed, amp):
    """Smooth random change of the interior: scale amp times the minor radius, decaying with m and n, correct at the axis."""
    sh = shape(d, ns)
    a = [q["value"] for q in d["rbc"] if (q["m"], q["n"]) == (1, 0)][0]
    y = np.random.default_rng(seed).normal(size=sh) * amp * a
    y[2] *= 0.3 / a
    mm, nn = np.arange(sh[3])[:, None], np.arange(sh[4])[None, :]
    y = y / (1 + mm + nn) ** 2
    y[:, :, 0, 1:] = 0
    y[:2, :, -1] = 0
    return y.reshape(-1)


@st.composite
def history(draw):
    d = small(draw, ntor=st.sampled_from([0, 0, 1, 2]))
    ops = [{"op": "reinit", "seed": 0}] if draw(st.integers(0, 3)) else []
    for _ in range(draw(st.integers(3, 14))):
        k = draw(st.sampled_from(["perturb"] * 4 + ["evaluate"] * 6 + ["step"] * 3 + ["save", "restore", "stop", "reset", "axis", "reinit", "hvp", "precond", "refine", "badlen", "badstate", "badhvp", "solve", "zerocount"]))
        o = {"op": k, "seed": draw(st.integers(0, 10**6))}
        if k == "perturb":
            o["amp"] = draw(st.sampled_from([1e-6, 1e-3, 1e-2, 0.03, 0.1, 2.0]))
        elif k == "evaluate":
            o.update(k=draw(st.sampled_from([2, 2, 3, 50, 1000])), pre=draw(st.booleans()))
        elif k == "step":
            o.update(vs=draw(st.sampled_from([1.0, 0.5, 0.97, 0.0])), c=draw(st.sampled_from([0.9, 0.2, 1.0, 0.0, -0.5])), dt=draw(st.sampled_from([0.9, 1e-3, 0.1, 0.0])))
        elif k in ("badlen", "badhvp"):
            o["by"] = draw(st.sampled_from([-1, 1, -7, 100, -10**6]))
        elif k == "refine":
            o["by"] = draw(st.integers(-3, 6))
        elif k == "badstate":
            o["what"] = draw(st.sampled_from(["nan", "zero", "flip"]))
        ops.append(o)
    ops.append({"op": "evaluate", "k": 2, "pre": draw(st.booleans()), "seed": 0})
    return {"p": d, "ops": ops}


def raises(f, *a):
    try:
        f(*a)
    except (RuntimeError, ValueError):
        return True
    return False


def run_history(c):
    d = c["p"]
    ns = d["ns_array"][0]
    m = model(d)
    x0 = vec(m)
    check(x0.size == np.prod(shape(d, ns)), "state has %d elements", x0.size)
    x, v, backup, count, guess, evals, labels = x0.copy(), np.zeros_like(x0), None, 0, x0.copy(), 0, set()
    known = False  # the velocity is only known once something has set it
    m.zero_velocity()
    last = None

    def same(y, what):
        z = vec(m)
        check(z.shape == y.shape and np.array_equal(z, y, equal_nan=True), "state after %s differs from its definition by %.3g", what, np.nanmax(np.abs(z - y)) if z.shape == y.shape else -1)

    for i, o in enumerate(c["ops"]):
        k = o["op"]
        labels.add(k)
        if k == "perturb":
            x = (x if o["seed"] % 3 else guess) + noise(d, ns, o["seed"], o["amp"])
            m.set_state(x)
        elif k == "badstate":
            if o["what"] == "nan":
                x = np.where(np.random.default_rng(o["seed"]).random(x.size) < 0.1, np.nan, x)
            elif o["what"] == "zero":
                x = np.zeros_like(x)
            else:
                x = -x
            m.set_state(x)
        elif k == "evaluate":
            try:
                m.evaluate(o["k"], o["k"], o["pre"])
                failed = None
            except RuntimeError as e:
                failed = str(e)
            count += 1
            f = model(d, ns)
            f.set_state(x)
            try:
                f.evaluate(2, 2, o["pre"])
                ffailed = None
            except RuntimeError as e:
                ffailed = str(e)
            y = vec(m)  # the innermost surface is extrapolated to the axis in place
            check(np.array_equal(y, vec(f), equal_nan=True), "operation %d: evaluate leaves another state than in a new model", i)
            Y = y.reshape(shape(d, ns))
            check(np.array_equal(Y[:, :, 1:], x.reshape(Y.shape)[:, :, 1:], equal_nan=True) and np.array_equal(Y[:2, :, 0, 0], x.reshape(Y.shape)[:2, :, 0, 0], equal_nan=True), "operation %d: evaluate changed the state", i)
            x = y
            check((failed is None) == (ffailed is None), "operation %d: evaluate gives %r after this history, %r in a new model", i, failed, ffailed)
            if failed is None:
                check(m.restart_reason == f.restart_reason, "operation %d: restart_reason %d after this history, %d in a new model", i, m.restart_reason, f.restart_reason)
                if m.restart_reason == 1:
                    a, b = force(m), force(f)
                    check(np.array_equal(a, b, equal_nan=True), "operation %d: the forces depend on the history of the model (relative difference %.3g)", i, np.nanmax(np.abs(a - b)) / max(np.nanmax(np.abs(b)), 1e-300))
                    check(np.array_equal(res(m), res(f), equal_nan=True), "operation %d: residuals or energy %s after this history, %s in a new model", i, res(m), res(f))
                    if o["pre"]:
                        p, q = [np.array([y.fsqr1, y.fsqz1, y.fsql1]) for y in (m, f)]
                        check(np.array_equal(p, q, equal_nan=True), "operation %d: preconditioned residuals %s after this history, %s in a new model", i, p, q)
                    evals += 1
                    labels.add("valid")
                else:
                    labels.add("bad jacobian")
        elif k == "step":
            F = force(m)
            if not np.all(np.isfinite(F)) or not np.all(np.isfinite(x)):
                continue
            m.perform_time_step(o["vs"], o["c"], o["dt"])
            v = o["vs"] * (o["c"] * v + o["dt"] * F)
            y = x + o["dt"] * v
            z = vec(m)
            sc = np.abs(x).max() + np.abs(o["dt"] * v).max()
            moved = np.isfinite(z)
            X, Y, Z = [q.reshape(shape(d, ns)) for q in (x, y, z)]
            check(np.array_equal(np.isfinite(Y), np.isfinite(Z)) and np.abs(Z - Y).max() <= 1e-13 * sc, "operation %d: time step (%g, %g, %g) moved the state by %.3g, v=vs(c v+dt F), x+=dt v by %.3g (difference %.3g)", i, o["vs"], o["c"], o["dt"], np.abs(Z - X).max(), np.abs(Y - X).max(), np.abs(Z - Y).max())
            x = z
        elif k == "save":
            m.save_backup()
            backup = x.copy()
            same(x, k)
        elif k == "restore":
            if backup is None:
                continue
            m.restore_backup()
            x, v = backup.copy(), np.zeros_like(x)
            same(x, k)
        elif k == "stop":
            m.zero_velocity()
            v = np.zeros_like(x)
            same(x, k)
        elif k == "reset":
            m.reset_to_initial_guess()
            same(guess, "reset_to_initial_guess")
            x = guess.copy()
        elif k in ("axis", "reinit"):
            g = model(d, ns)
            g.reinitialize()
            if k == "axis":
                m.recompute_axis()
                same(x, "recompute_axis")
                m.reset_to_initial_guess()
            else:
                m.reinitialize()
                v, backup = np.zeros_like(x), None
                m.zero_velocity()
            guess = vec(g)
            check(np.abs(vec(m) - guess).max() <= 1e-12 * np.abs(guess).max(), "operation %d: the guessed axis depends on the history (difference %.3g)", i, np.abs(vec(m) - guess).max())
            x = vec(m)
            guess = x.copy()
        elif k in ("hvp", "badhvp"):
            if not np.all(np.isfinite(x)):
                continue
            w = noise(d, ns, o["seed"], 1.0)
            if k == "badhvp":
                n = max(0, x.size + o["by"])
                check(raises(m.hessian_vector_product, np.ones(n)), "hessian_vector_product accepted a vector of length %d instead of %d", n, x.size)
            else:
                before = m.force_eval_count
                try:
                    m.hessian_vector_product(w)
                except RuntimeError:
                    pass
                check(1 <= m.force_eval_count - before <= 2, "hessian_vector_product counted %d force evaluations", m.force_eval_count - before)
                count += m.force_eval_count - before
            same(x, "hessian_vector_product")
        elif k == "precond":
            m.apply_preconditioner(noise(d, ns, o["seed"], 1.0))
            same(x, "apply_preconditioner")
        elif k == "badlen":
            n = max(0, x.size + o["by"])
            check(raises(m.set_state, np.ones(n)), "set_state accepted %d numbers instead of %d", n, x.size)
            check(raises(m.apply_preconditioner, np.ones(n)), "apply_preconditioner accepted %d numbers instead of %d", n, x.size)
            same(x, "a refused set_state")
        elif k == "refine":
            n = ns + o["by"]
            if n <= ns:
                check(raises(m.refine_to, n), "refine_to(%d) accepted at ns=%d", n, ns)
                check(m.ns == ns, "a refused refine_to changed ns")
                same(x, "a refused refine_to")
            else:
                if not np.all(np.isfinite(x)):
                    continue
                m.refine_to(n)
                ns = n
                check(m.ns == ns, "ns is %d after refine_to(%d)", m.ns, ns)
                x = vec(m)
                check(x.size == np.prod(shape(d, ns)), "state has %d elements after refine_to", x.size)
                v, backup = np.zeros_like(x), None
                m.zero_velocity()
                m.reset_to_initial_guess()
                guess = vec(m)
                m.set_state(x)
        elif k == "solve":
            if not np.all(np.isfinite(x)) or ns > 9:
                continue
            n = m.force_eval_count
            try:
                m.solve()
            except RuntimeError:
                pass
            check(m.force_eval_count >= n, "solve reduced the evaluation counter")
            x, v, backup = vec(m), np.zeros_like(x), None
            m.zero_velocity()
            guess = None
            m.recompute_axis()
            m.reset_to_initial_guess()
            guess = vec(m)
            m.set_state(x)
            count = m.force_eval_count
        elif k == "zerocount":
            m.reset_force_eval_count()
            count = 0
        check(m.force_eval_count == count, "operation %d (%s): force_eval_count is %d after %d evaluations", i, k, m.force_eval_count, count)
        check((m.mpol, m.ntor, bool(m.lasym), bool(m.lthreed), m.ns) == (d["mpol"], d["ntor"], d["lasym"], d["ntor"] > 0, ns), "resolution reported wrongly")
    return {"labels": sorted(labels) + solve.labels(d), "nontrivial": evals >= 2}


@st.composite
def gradient(draw):
    return {"p": small(draw, ncurr=0, ntor=st.sampled_from([0, 0, 1, 2])), "seed": draw(st.integers(0, 10**6)), "amp": draw(st.sampled_from([1e-3, 1e-2, 0.03])), "dirs": draw(st.integers(2, 4))}


def start(d, seed, amp, **kw):
    m = model(d, **kw)
    m.reinitialize()
    x = vec(m)
    for s in range(4):
        y = x + noise(d, d["ns_array"][0], seed, amp / 10**s)
        m.set_state(y)
        try:
            m.evaluate(2, 2, False)
        except RuntimeError:
            continue
        if m.restart_reason == 1 and np.all(np.isfinite(force(m))):
            return m, vec(m)
    raise Skip("no state with a valid Jacobian")


def run_gradient(c):
    d = c["p"]
    ns = d["ns_array"][0]
    m, x = start(d, c["seed"], c["amp"], tcon0=0.0)
    sh = shape(d, ns)
    F = force(m).reshape(sh).copy()
    W = m.mhd_energy
    # comparable components
    use = np.zeros(sh, bool)
    use[:2, :, 1:-1] = True
    use[:2, :, 0, 0] = ns > 3
    use[:2, :, 1, 1] = False
    use[:2, :, 0] = False
    scale = np.ones(sh)
    three, asym = d["ntor"] > 0, d["lasym"]
    # gauge: the R and Z coefficients of m=1 that are constrained to be equal
    gR = ([1] if three else []) + ([2 if three else 1] if asym else [])
    for b in gR:
        scale[0, b, :, 1] = 1 / np.sqrt(2)
        check(np.abs(F[1, b, :, 1]).max() <= 1e-12 * np.abs(F[:2]).max(), "the constrained m=1 Z force is not zero (%.3g)", np.abs(F[1, b, :, 1]).max())
        use[1, b, :, 1] = False
    check(np.all(F[:2, :, -1] == 0), "a fixed boundary has a force on it")
    rng = np.random.default_rng(c["seed"] + 1)
    idx = np.argwhere(use.reshape(-1))[:, 0]
    # a few single coefficients of large force, and random directions
    big = idx[np.argsort(-np.abs(F.reshape(-1)[idx]))[:40]]
    picks = [rng.choice(big) for _ in range(c["dirs"])] + [rng.choice(idx) for _ in range(c["dirs"])]
    dirs = []
    for i in picks:
        e = np.zeros(x.size)
        e[i] = 1
        dirs.append((e, i))
    e = np.where(use.reshape(-1), rng.normal(size=x.size), 0.0) / (1 + np.arange(sh[3])[None, None, None, :, None] ** 2 + np.zeros(sh)).reshape(-1)
    dirs.append((e / np.linalg.norm(e), None))
    a = [q["value"] for q in d["rbc"] if (q["m"], q["n"]) == (1, 0)][0]
    Fs = (F / scale).reshape(-1)
    tol = np.linalg.norm(Fs[idx])
    for e, i in dirs:
        g = []
        for h in (1e-4 * a, 5e-5 * a):
            w = []
            for s in (1, -1):
                m.set_state(x + s * h * e)
                m.evaluate(2, 2, False)
                if m.restart_reason != 1:
                    raise Skip("bad Jacobian")
                w.append(m.mhd_energy)
            g.append((w[0] - w[1]) / (2 * h) * (ns - 1))
        ref = (4 * g[1] - g[0]) / 3
        err = abs(g[1] - g[0]) + 1e-11 * abs(W) / (1e-4 * a) * (ns - 1)
        got = float(Fs @ e)
        check(abs(got - ref) <= 1e-5 * abs(ref) + 1e-7 * tol + 3 * err, "the force on %s is %.9g, the energy gradient is %.9g (mhd_energy %.6g)", "coefficient %s (R/Z, block, surface, m, n)" % (np.unravel_index(i, sh),) if i is not None else "a random direction", got, ref, W)
    return {"labels": solve.labels(d) + ["amp=%g" % c["amp"]], "nontrivial": True}


@st.composite
def hvp(draw):
    return {"p": small(draw, ntor=st.sampled_from([0, 0, 1, 2])), "seed": draw(st.integers(0, 10**6)), "amp": draw(st.sampled_from([1e-3, 1e-2, 0.03])), "scale": draw(st.sampled_from([1.0, -3.0, 1e-4, 1e5]))}


def run_hvp(c):
    d = c["p"]
    ns = d["ns_array"][0]
    m, x = start(d, c["seed"], c["amp"])
    w = noise(d, ns, c["seed"] + 1, 1.0)
    u = noise(d, ns, c["seed"] + 2, 1.0)
    f = model(d)

    def raw(y):
        f.set_state(y)
        f.evaluate(2, 2, False)
        if f.restart_reason != 1:
            raise Skip("bad Jacobian")
        return force(f)
    eps = 1e-6 * (1 + np.linalg.norm(x)) / np.linalg.norm(w)
    ref = (raw(x + eps * w) - raw(x - eps * w)) / (2 * eps)
    ref2 = (raw(x + 2 * eps * w) - raw(x - 2 * eps * w)) / (4 * eps)
    m.set_state(x)
    h = np.array(m.hessian_vector_product(w))
    sc = np.abs(ref).max()
    noise_f = 1e-14 * max(np.abs(raw(x)).max(), m.mhd_energy) / (1e-7 * (1 + np.linalg.norm(x)) / np.linalg.norm(w))
    tol = 1e-4 * sc + np.abs(ref2 - ref).max() + 100 * noise_f
    check(np.abs(h - ref).max() <= tol, "H v is %.3g away from the central difference of the force (size %.3g)", np.abs(h - ref).max(), sc)
    check(np.array_equal(vec(m), x), "hessian_vector_product changed the state")
    hs = np.array(m.hessian_vector_product(c["scale"] * w)) / c["scale"]
    check(np.abs(hs - h).max() <= tol, "H(%g v) / %g differs from H v by %.3g (size %.3g)", c["scale"], c["scale"], np.abs(hs - h).max(), sc)
    hu = np.array(m.hessian_vector_product(u))
    hsum = np.array(m.hessian_vector_product(u + w))
    tol2 = 3 * tol + 3e-4 * (np.abs(hu).max() + sc)
    check(np.abs(hsum - h - hu).max() <= tol2, "H(u+v) - Hu - Hv is %.3g (size %.3g)", np.abs(hsum - h - hu).max(), sc)
    n = m.force_eval_count
    z = np.array(m.hessian_vector_product(np.zeros_like(x)))
    check(np.all(z == 0) and m.force_eval_count == n, "H 0 is not 0 at no cost")
    return {"labels": solve.labels(d) + ["amp=%g" % c["amp"]], "nontrivial": True}


def run_precond(c):
    d = c["p"]
    ns = d["ns_array"][0]
    m, x = start(d, c["seed"], c["amp"])
    raw = force(m)
    m.evaluate(2, 2, True)
    pre = force(m)
    got = np.array(m.apply_preconditioner(raw))
    # the force seen by the preconditioner has its constrained parts already fixed in both cases
    check(np.abs(got - pre).max() <= 1e-10 * np.abs(pre).max(), "the preconditioner applied to the raw force is not the preconditioned force (difference %.3g of %.3g)", np.abs(got - pre).max(), np.abs(pre).max())
    check(np.array_equal(force(m), pre) and np.array_equal(vec(m), x), "apply_preconditioner changed the model")
    u, w = noise(d, ns, c["seed"] + 1, 1.0), noise(d, ns, c["seed"] + 2, 1.0)
    pu, pw = np.array(m.apply_preconditioner(u)), np.array(m.apply_preconditioner(w))
    s = c["scale"]
    pl = np.array(m.apply_preconditioner(u + s * w))
    check(np.abs(pl - pu - s * pw).max() <= 1e-9 * (np.abs(pu).max() + abs(s) * np.abs(pw).max()), "apply_preconditioner is not linear (%.3g)", np.abs(pl - pu - s * pw).max())
    check(np.array_equal(np.array(m.apply_preconditioner(u)), pu), "apply_preconditioner depends on earlier applications")
    check(np.linalg.norm(pu) > 0, "preconditioner is zero")
    return {"labels": solve.labels(d), "nontrivial": True}


@st.composite
def refused(draw):
    return {"p": small(draw, ntor=st.sampled_from([0, 1, 2])), "what": draw(st.sampled_from(["ok", "state ns", "state mpol", "ok", "ns"])), "n": draw(st.integers(-4, 8)), "threads": 1}


def run_refused(c):
    d, what = c["p"], c["what"]
    ns = d["ns_array"][0]
    ci = solve.make(V, d)._to_cpp_vmecindata()
    if what == "ns":
        n = min(2, c["n"])
        check(raises(CPP.VmecModel.create, ci, n), "a model with %d surfaces was created", n)
    else:
        try:
            o = V.run(solve.make(V, d), max_threads=1, verbose=False)
        except RuntimeError:
            raise Skip("not converged") from None
        hot = CPP.HotRestartState(wout=o.wout._to_cpp_wout(), indata=ci)
        if what == "state mpol":
            ci = solve.make(V, dict(d, mpol=d["mpol"] + 1))._to_cpp_vmecindata()
        n = ns + c["n"] if what == "state ns" and c["n"] else ns
        if n == ns and what in ("ok", "state ns"):
            m = CPP.VmecModel.create(ci, ns, hot)
            m.evaluate(2, 2, True)
            f = d["ftol_array"][-1]
            check(m.restart_reason == 1 and max(m.fsqr, m.fsqz, m.fsql) <= 10 * f + 1e-16, "the state of a converged run has residuals %g %g %g in the model (ftol %g)", m.fsqr, m.fsqz, m.fsql, f)
            check(abs(m.mhd_energy * 4 * np.pi**2 - o.wout.wb * 4 * np.pi**2 - o.wout.wp * 4 * np.pi**2 / (d.get("gamma", 0.0) - 1.0)) <= 1e-8 * abs(m.mhd_energy * 4 * np.pi**2), "mhd_energy %.12g, wout.wb %.12g, wout.wp %.12g", m.mhd_energy, o.wout.wb, o.wout.wp)
        else:
            check(raises(CPP.VmecModel.create, ci, max(n, 3), hot) or max(n, 3) == ns, "a model with ns=%d mpol=%d was created from a state with ns=%d mpol=%d", max(n, 3), d["mpol"] + (what == "state mpol"), ns, d["mpol"])
    return {"labels": [what], "nontrivial": True}


@st.composite
def whole(draw):
    return {"p": small(draw), "maxit": draw(st.sampled_from([0, 0, 0, 10, 40])), "threads": 1, "reason": draw(st.sampled_from([0, 5, -1, 7, 100, 2**31 - 1, -2**31]))}


def run_whole(c):
    """solve() of a fresh model is the run of the solver."""
    d = dict(c["p"])
    if c["maxit"]:
        d["niter_array"], d["return_outputs_even_if_not_converged"] = [c["maxit"]], True
    inp = solve.make(V, d)
    m = CPP.VmecModel.create(inp._to_cpp_vmecindata(), d["ns_array"][0])
    check((m.ns, m.mpol, m.ntor, m.lasym, m.lthreed) == (d["ns_array"][0], d["mpol"], d["ntor"], d["lasym"], d["ntor"] > 0), "sizes of the model")
    check((m.ftolv, m.niterv, m.delt) == (d["ftol_array"][0], d["niter_array"][0], d["delt"]), "tolerance, iterations and time step of the model")
    for r in (2, 3, 4, 1):
        m.restart_reason = r
        check(m.restart_reason == r, "restart_reason reads %d after it was set to %d", m.restart_reason, r)
    check(raises(setattr, m, "restart_reason", c["reason"]) and m.restart_reason == 1, "restart_reason accepted %d and reads %d", c["reason"], m.restart_reason)
    x = vec(m)
    a, b = np.asarray(d.get("raxis_c") or [], float), np.asarray(m.raxis_c, float)
    check(len(b) == d["ntor"] + 1 and (not np.any(a) or np.allclose(a, b[:len(a)])), "raxis_c of a new model is %s, of the input %s", b, a)
    err = None
    try:
        m.solve()
    except RuntimeError as e:
        err = e
    try:
        w = V.run(inp, max_threads=1, verbose=False).wout
    except RuntimeError as e:
        check(err is not None or max(m.fsqr, m.fsqz, m.fsql) > m.ftolv or not np.isfinite(m.fsqr), "vmecpp.run failed (%s) but solve() of the same input converged (%g %g %g)", str(e)[:60], m.fsqr, m.fsqz, m.fsql)
        return {"labels": ["failed"], "nontrivial": True}
    check(err is None, "solve() failed (%s) but vmecpp.run of the same input did not", err)
    check(not m.need_restart, "need_restart in a fixed-boundary model")
    n = len(m.force_residual_r)
    check(len(m.force_residual_z) == len(m.force_residual_lambda) == len(m.restart_reasons) == n, "traces have different lengths")
    for k in ("force_residual_r", "force_residual_z", "force_residual_lambda"):
        p, q = np.asarray(getattr(m, k)), np.asarray(getattr(w, k), float)
        check(len(p) == len(q), "%s: %d entries in the model, %d in the output", k, len(p), len(q))
        check(np.allclose(p, q, rtol=1e-3, atol=1e-14), "%s of solve() differs from that of the run", k)
    check(abs(m.fsqr - w.fsqr) <= 1e-3 * w.fsqr + 1e-16 and abs(m.fsqz - w.fsqz) <= 1e-3 * w.fsqz + 1e-16 and abs(m.fsql - w.fsql) <= 1e-3 * w.fsql + 1e-16, "residuals %g %g %g of solve(), %g %g %g of the run", m.fsqr, m.fsqz, m.fsql, w.fsqr, w.fsqz, w.fsql)
    check(c["maxit"] or max(m.fsqr, m.fsqz, m.fsql) <= m.ftolv, "solve() returned with residuals %g %g %g above ftol", m.fsqr, m.fsqz, m.fsql)
    check(set(m.restart_reasons) <= {1, 2, 3, 4}, "restart reasons %s", set(m.restart_reasons))
    hot = CPP.HotRestartState(wout=w._to_cpp_wout(), indata=inp._to_cpp_vmecindata())
    ref, got = vec(CPP.VmecModel.create(inp._to_cpp_vmecindata(), m.ns, hot)).reshape(shape(d, m.ns)), vec(m).reshape(shape(d, m.ns))
    if not c["maxit"]:
        dr = np.abs(ref - got)[:2, :, 1:].max() / w.Aminor_p
        check(dr <= 1e-4, "geometry after solve() differs from that of the run by %.3g of the minor radius", dr)
    check(not np.array_equal(x, vec(m)), "solve() did not change the state")
    return {"labels": solve.labels(d) + (["cut"] if c["maxit"] else []) + (["guess"] if m.ijacob else []), "nontrivial": n > 1}


PROPS = [
    Prop("solve", whole, run_whole, quick=150, thorough=3000, budget=40, thorough_budget=400),
    Prop("history", history, run_history, quick=700, thorough=20000, shards=2, budget=40, thorough_budget=600),
    Prop("gradient", gradient, run_gradient, quick=500, thorough=12000, budget=40, thorough_budget=500),
    Prop("hvp", hvp, run_hvp, quick=300, thorough=8000, budget=40, thorough_budget=500),
    Prop("precond", hvp, run_precond, quick=300, thorough=8000, budget=40, thorough_budget=400),
    Prop("refused", refused, run_refused, quick=120, thorough=2500, budget=40, thorough_budget=400),
]
