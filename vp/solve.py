"""Generated equilibrium problems that the solver can normally converge, and small helpers around running them."""
import numpy as np
from hypothesis import strategies as st

MU0 = 4e-7 * np.pi


def fl(a, b):
    return st.floats(a, b).map(lambda x: round(x, 4))


@st.composite
def problem(draw, lasym=None, ntor=None, multi=True, ncurr=None, ns=(5, 13), beta=True, axis=True, flip=True, special=True, nfp=None):
    la = draw(st.sampled_from([False, False, False, True])) if lasym is None else lasym
    mp = draw(st.integers(3, 6))
    nt = draw(st.sampled_from([0, 1, 2, 3, 0, 1, 2])) if ntor is None else (draw(ntor) if hasattr(ntor, "example") else ntor)
    nf = draw(st.integers(1, 5)) if nfp is None else nfp
    fft = bool(nt) and not la and draw(st.integers(0, 7)) == 0  # a shape for which FFT kernels exist
    if fft:
        mp = 6
    R0 = draw(fl(2, 8))
    asp = draw(fl(3.5, 9)) if nt == 0 else draw(fl(5, 10))
    a = R0 / asp
    kap = draw(fl(0.8, 1.7))
    rbc, zbs, rbs, zbc = {}, {}, {}, {}
    rbc[0, 0] = R0
    rbc[1, 0], zbs[1, 0] = a, a * kap
    if mp > 2 and draw(st.booleans()):
        rbc[2, 0] = a * draw(fl(-0.12, 0.12))
    if nt:
        ex = a * draw(fl(-0.4, 0.4))
        rbc[0, 1], zbs[0, 1] = ex, -ex * draw(fl(0.5, 1.2))
        el = a * draw(fl(-0.25, 0.25))
        rbc[1, 1], zbs[1, 1] = el, -el
    for _ in range(draw(st.integers(0, 3))):
        m, n = draw(st.integers(0, mp - 1)), draw(st.integers(-nt, nt))
        if m == 0 and n <= 0:
            continue
        e = a * draw(fl(-0.03, 0.03)) / max(1, m)
        (rbc if draw(st.booleans()) else zbs)[m, n] = (rbc if draw(st.booleans()) else zbs).get((m, n), 0.0) * 0 + e if (m, n) not in ((1, 0),) else rbc[1, 0]
    rbc[1, 0], zbs[1, 0] = a, a * kap
    if la:
        for _ in range(draw(st.integers(1, 3))):
            m, n = draw(st.integers(0, min(3, mp - 1))), draw(st.integers(-nt, nt))
            if m == 0 and n < 0:
                continue
            e = a * draw(fl(-0.08, 0.08)) / max(1, m)
            (rbs if draw(st.booleans()) else zbc)[m, n] = e
    if flip and draw(st.integers(0, 3)) == 0:
        for d in (zbs, rbs):
            for k in list(d):
                d[k] = -d[k]
        # theta -> -theta: cos(m th - n ze) -> cos(m th + n ze)
        rbc, zbs, rbs, zbc = [{(m, -n if m else n): v for (m, n), v in d.items()} for d in (rbc, zbs, rbs, zbc)]
        for d in (zbs, rbs):  # m = 0 terms do not depend on theta
            for k in d:
                if k[0] == 0:
                    d[k] = -d[k]
    B = draw(fl(0.5, 5))
    phi = B * np.pi * a * a * kap * draw(st.sampled_from([1, -1, 1]))
    stages = draw(st.integers(1, 2)) if multi else 1
    nss = sorted(draw(st.integers(*ns)) for _ in range(stages))
    d = {"lasym": la, "nfp": nf, "mpol": mp, "ntor": nt, "ns_array": nss, "ftol_array": [1e-8] * (stages - 1) + [draw(st.sampled_from([1e-10, 1e-11, 1e-12]))],
         "niter_array": [2000] * stages, "phiedge": float(phi), "delt": draw(st.sampled_from([0.9, 0.7, 0.5])), "tcon0": draw(st.sampled_from([1.0, 1.0, 0.5])),
         "nstep": draw(st.sampled_from([10, 50, 200])), "rbc": rbc, "zbs": zbs, "rbs": rbs if la else None, "zbc": zbc if la else None,
         "ncurr": draw(st.integers(0, 1)) if ncurr is None else ncurr}
    if draw(st.integers(0, 3)) == 0:
        d["ntheta"] = 2 * mp + 6 + draw(st.integers(0, 6))
    if fft:
        d["nzeta"] = 16
    elif nt and draw(st.integers(0, 3)) == 0:
        d["nzeta"] = 2 * nt + 4 + draw(st.integers(0, 5))
    if beta and draw(st.integers(0, 4)):
        p0 = draw(fl(0.001, 0.03)) * B * B / (2 * MU0)
        shape = draw(st.sampled_from(["power_series", "two_power", "cubic_spline", "line_segment"] if special else ["power_series"]))
        if shape == "power_series":
            d["am"] = draw(st.sampled_from([[1.0, -1.0], [1.0, 0.0, -0.8], [1.0, -2.0, 1.0], [0.5]]))
        elif shape == "two_power":
            d["am"] = [1.0, float(draw(st.integers(1, 3))), float(draw(st.integers(1, 3)))]
        else:
            d["am_aux_s"] = [0.0, 0.2, 0.4, 0.6, 0.8, 1.0]
            d["am_aux_f"] = [1.0, 0.85, 0.66, 0.4, 0.2, 0.05]
        d["pmass_type"] = shape
        d["pres_scale"] = float(p0)
        if special and draw(st.integers(0, 5)) == 0:
            d["gamma"] = draw(st.sampled_from([5.0 / 3.0, 1.4]))
        if special and draw(st.integers(0, 5)) == 0:
            d["spres_ped"] = draw(fl(0.5, 0.99))
    else:
        d["am"] = [0.0]
    if d["ncurr"] == 0:
        i0 = draw(fl(0.3, 1.1)) * draw(st.sampled_from([1, -1, 1]))
        d["ai"] = [i0, round(-0.3 * i0 * draw(fl(-1, 1)), 5)]
        if special and draw(st.integers(0, 5)) == 0:
            d.update(piota_type="cubic_spline", ai_aux_s=[0.0, 0.25, 0.5, 0.75, 1.0], ai_aux_f=[i0, i0 * 0.95, i0 * 0.9, i0 * 0.8, i0 * 0.75])
    else:
        d["curtor"] = float(draw(fl(0.3, 1.0)) * draw(st.sampled_from([1, -1])) * B * a * 2 * np.pi / MU0 * a / R0) if nt == 0 or draw(st.booleans()) else 0.0
        d["ac"] = draw(st.sampled_from([[1.0, -1.0], [1.0], [1.0, 0.0, -0.9]]))
        if special and draw(st.integers(0, 5)) == 0:
            d["bloat"] = draw(st.sampled_from([1.0, 1.02]))
    if axis and draw(st.integers(0, 2)) == 0:
        d["raxis_c"] = [R0 + a * 0.05] + [rbc.get((0, n), 0.0) for n in range(1, nt + 1)]
        d["zaxis_s"] = [0.0] + [-zbs.get((0, n), 0.0) for n in range(1, nt + 1)]
    if special and draw(st.integers(0, 9)) == 0:
        d["lforbal"] = True
    if special and draw(st.integers(0, 11)) == 0:
        d["iteration_style"] = "parvmec"
    if special and draw(st.integers(0, 6)) == 0:
        d["aphi"] = draw(st.sampled_from([[0.7, 0.3], [1.2, -0.2], [0.5, 0.2, 0.3]]))
    if special and draw(st.integers(0, 11)) == 0:
        d["mpol_geometry"] = draw(st.integers(3, 6))
        if nt > 1:
            d["ntor_geometry"] = draw(st.integers(1, 3))
    return enc(d)


def enc(d):
    d = dict(d)
    for k in ("rbc", "zbs", "rbs", "zbc"):
        if d.get(k) is not None:
            d[k] = [{"m": m, "n": n, "value": v} for (m, n), v in sorted(d[k].items())]
    return d


def make(VM, d, **kw):
    """VmecInput of a problem dictionary."""
    d = dict(d)
    d.update(kw)
    mp, nt, la = d["mpol"], d["ntor"], d["lasym"]
    out = {k: v for k, v in d.items() if k not in ("rbc", "zbs", "rbs", "zbc") and v is not None}
    for k in ("rbc", "zbs", "rbs", "zbc"):
        if k in ("rbs", "zbc") and not la:
            continue
        x = np.zeros((mp, 2 * nt + 1))
        for q in d.get(k) or []:
            if q["m"] < mp and abs(q["n"]) <= nt:
                x[q["m"], q["n"] + nt] = q["value"]
        out[k] = x
    for k in ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c"):
        if k in ("raxis_s", "zaxis_c") and not la:
            continue
        x = np.zeros(nt + 1)
        for i, v in enumerate((d.get(k) or [])[:nt + 1]):
            x[i] = v
        out[k] = x
    return VM.VmecInput(**out)


def arrays(obj):
    """All numeric content of a pydantic output model, flattened to {name: array}."""
    out = {}
    for k in type(obj).model_fields:
        v = getattr(obj, k)
        if isinstance(v, (bool, int, float)) and not isinstance(v, bool):
            out[k] = np.array(float(v))
        elif isinstance(v, np.ndarray) and v.dtype.kind in "fiu":
            out[k] = v.astype(float)
    return out


def converged(VM, d, threads=1, **kw):
    """Run a problem; Skip when the solver reports that it did not converge."""
    from vp.harness import Skip
    inp = make(VM, d, **kw)
    try:
        return inp, VM.run(inp, max_threads=threads, verbose=False)
    except RuntimeError as e:
        raise Skip("not converged: %s" % str(e)[:80]) from None


def labels(d):
    out = ["asym" if d["lasym"] else "sym", "3d" if d["ntor"] else "2d", "current" if d["ncurr"] else "iota", "stages%d" % len(d["ns_array"])]
    if d.get("pres_scale"):
        out.append("beta")
    if d.get("nzeta") == 16 and d["mpol"] == 6 and not d["lasym"]:
        out.append("fft")
    if d.get("nzeta", 0) % 2:
        out.append("odd nzeta")
    if d.get("ntheta"):
        out.append("ntheta")
    if d.get("aphi"):
        out.append("aphi")
    return out


def nontrivial(d):
    return bool(d["lasym"] or d["ntor"] or d.get("pres_scale"))


def close(name, got, ref, tol=1e-8, scale=None):
    """Compare up to tol times the largest magnitude (or the given cancellation scale); NaN in ref means unspecified."""
    from vp.harness import Violation
    got, ref = np.asarray(got, float), np.asarray(ref, float)
    if got.shape != ref.shape:
        raise Violation("%s has shape %s instead of %s" % (name, got.shape, ref.shape))
    ok = ~np.isnan(ref)
    if not ok.any():
        return
    s = np.abs(ref[ok]).max()
    if scale is not None:
        s = max(s, np.abs(np.asarray(scale)).max())
    dif = np.where(ok, np.abs(got - ref), 0.0)
    if not (dif <= tol * s + 1e-300).all():
        i = np.unravel_index(np.argmax(np.where(np.isnan(dif), np.inf, dif)), dif.shape) if dif.ndim else ()
        raise Violation("%s%s is %r, recomputed from the equilibrium %r (scale %.3g)" % (name, list(map(int, i)), float(got[i]), float(ref[i]), s))
