"""C16: equilibria of related inputs are related: units, orientation, labels and origin of the angles, redundant descriptions."""
import copy

import numpy as np
from hypothesis import strategies as st

from vp import relate as rl
from vp import repo, solve
from vp.harness import Prop, check

PROPERTY = "C16"
RULE = ("each case runs a generated fixed-boundary problem and a transformed copy of it, and compares every Fourier table and profile of the second run with the transformed tables of the first. "
        "exact: relations the discretised model has exactly (units, field reversal, mirror image, angle conventions and origins, field-period relabelling, asymmetric description of a symmetric plasma, padding). "
        "same: redundant descriptions of one equilibrium (time step, axis guess, stages, pressure offset, current instead of iota profile and back), compared within the solver tolerance. "
        "Non-trivial: both runs converged and the problem is 3D, asymmetric or has pressure.")
ASSUMPTIONS = ["both runs converge; a pair of which only one converges is retried with four times the iterations and then reported", "tables are compared to 1e-4 of their size (largest difference seen 3e-6), invariants of loosely related runs to 1 % and their axis to 2 % of the minor radius"]
V = None


def setup():
    global V
    V, _ = repo.full(PROPERTY, [])


def run(d, n=1):
    try:
        return V.run(solve.make(V, d, niter_array=[n * x for x in d["niter_array"]]), max_threads=1, verbose=False)
    except RuntimeError:
        return None


# quantity: (cos table, sin table, power of length, power of field)
TAB = {"R": ("rmnc", "rmns", 1, 0), "Z": ("zmnc", "zmns", 1, 0), "lambda": ("lmnc_full", "lmns_full", 0, 0), "lambda half": ("lmnc", "lmns", 0, 0), "g": ("gmnc", "gmns", 3, 0), "B": ("bmnc", "bmns", 0, 1),
       "B^u": ("bsupumnc", "bsupumns", -1, 1), "B^v": ("bsupvmnc", "bsupvmns", -1, 1), "B_u": ("bsubumnc", "bsubumns", 1, 1), "B_v": ("bsubvmnc", "bsubvmns", 1, 1)}
# profile or scalar: power of length, power of field
PRO = {"iotas": (0, 0), "iotaf": (0, 0), "phi": (2, 1), "phipf": (2, 1), "pres": (0, 2), "presf": (0, 2), "vp": (3, 0), "bvco": (1, 1), "buco": (1, 1), "volume": (3, 0), "aspect": (0, 0), "Rmajor_p": (1, 0),
       "Aminor_p": (1, 0), "betatotal": (0, 0), "betapol": (0, 0), "wb": (3, 2), "wp": (3, 2), "b0": (0, 1), "rbtor": (1, 1), "ctor": (1, 1), "volavgB": (0, 1), "over_r": (-1, 0)}


def tables(w):
    """{quantity: {(m, n): (C, S)}} with m = 0 only for n >= 0."""
    out = {}
    for q, (c, s, _, _) in TAB.items():
        ct, stb = getattr(w, c, None), getattr(w, s, None)
        big = q in ("g", "B", "B^u", "B^v", "B_u", "B_v")
        xm, xn = (np.asarray(w.xm_nyq, int), np.asarray(w.xn_nyq, int)) if big else (np.asarray(w.xm, int), np.asarray(w.xn, int))
        z = np.zeros_like(np.asarray(ct if ct is not None else stb)[0])
        out[q] = {(int(m), int(n) // w.nfp): (np.asarray(ct)[i] if ct is not None else z, np.asarray(stb)[i] if stb is not None else z) for i, (m, n) in enumerate(zip(xm, xn))}
    return out


class Rel:
    """sign: factors per quantity or profile (default 1); L, b: scales; move: (m, n, C, S) -> (m', n', C', S'); tables: compared or only the profiles."""
    def __init__(self, d, L=1.0, b=1.0, sign=None, move=None, tables=True, skip=()):
        self.d, self.L, self.b, self.sign, self.tables, self.skip = d, L, b, sign or {}, tables, skip
        self.move = move or (lambda m, n, C, S: (m, n, C, S))


def phase(a):
    c, s = np.cos(a), np.sin(a)
    return lambda C, S: (C * c - S * s, C * s + S * c)


def compare(name, rel, o, o2, tol=1e-4):
    w, w2 = o.wout, o2.wout
    amin = w2.Aminor_p
    if rel.tables:
        t, t2 = tables(w), tables(w2)
        for q in TAB:
            if q in rel.skip:
                continue
            f = rel.sign.get(q, 1.0) * rel.L**TAB[q][2] * rel.b**TAB[q][3]
            full = max(np.abs(v).max() for cs in t2[q].values() for v in cs)
            if q in ("R", "Z"):
                full = amin
            if q.startswith("lambda"):
                full = max(full, 0.1)
            if q == "B^u":
                full = max(full, max(np.abs(v).max() for cs in t2["B^v"].values() for v in cs))
            if q == "B_u":
                full = max(full, amin / w2.Rmajor_p * max(np.abs(v).max() for cs in t2["B_v"].values() for v in cs))
            M, N = max(m for m, n in t[q]), max(n for m, n in t[q])
            for (m, n), (C, S) in t[q].items():
                if len(t[q]) > len(t["R"]) and (m == M or (N and abs(n) == N)):
                    continue  # Nyquist modes carry an arbitrary weight
                m2, n2, C2, S2 = rel.move(m, n, C, S)
                if m2 == 0 and n2 < 0:
                    n2, S2 = -n2, -S2
                if (m2, n2) not in t2[q]:
                    check(q in ("g", "B", "B^u", "B^v", "B_u", "B_v"), "%s: mode (%d, %d) of %s is missing", name, m2, n2, q)
                    continue
                for part, x, y in zip(("cos", "sin"), t2[q][m2, n2], (C2, S2)):
                    e = np.abs(x - f * y).max()
                    check(e <= tol * full, "%s: %s %s(%d, %d) differs by %.3g (scale %.3g) from the transformed run", name, q, part, m2, n2, e, full)
    for k, (pl, pb) in PRO.items():
        if k in rel.skip:
            continue
        x, y = np.asarray(getattr(w2, k), float), np.asarray(getattr(w, k), float) * rel.sign.get(k, 1.0) * rel.L**pl * rel.b**pb
        check(x.shape == y.shape, "%s: %s has another shape", name, k)
        sc = max(np.abs(y).max(), {"iotas": 0.1, "iotaf": 0.1}.get(k, 0.0), abs(w2.rbtor) * (amin / w2.Rmajor_p)**2 * (2e6 if k == "ctor" else 1) if k in ("buco", "ctor") else 0.0,
                 1e-6 * abs(w2.wb) if k == "wp" else 0.0, 1e-4 if k.startswith("beta") else 0.0, 1e-4 * (w2.b0 * rel.b)**2 / 4e-7 if k.startswith("pres") else 0.0)
        e = np.abs(x - y).max()
        check(e <= tol * sc, "%s: %s differs by %.3g (scale %.3g) from the transformed run", name, k, e, sc)


def flipped(d):
    g = lambda k: sum(q["value"] for q in d[k] if (q["m"], q["n"]) == (1, 0))
    return g("rbc") + g("zbs") < 0


def reversed_theta(d):
    g = lambda k: sum(q["value"] for q in d[k] if (q["m"], q["n"]) == (1, 0))
    return g("rbc") * g("zbs") <= 0


def rel_scale(d, p):
    L, b = p["L"], p["b"]
    return Rel(rl.scale(d, L, b), L, b)


def rel_field(d, p):
    s = {k: -1.0 for k in ("B^u", "B^v", "B_u", "B_v", "phi", "phipf", "bvco", "buco", "rbtor", "ctor", "b0")}
    return Rel(rl.reverse_field(d), sign=s)


def rel_mirror(d, p):
    s = {k: -1.0 for k in ("B^u", "B_u", "iotas", "iotaf", "buco", "ctor")}
    return Rel(rl.mirror(d), sign=s, move=lambda m, n, C, S: (m, -n, C, S))


def rel_shift(d, p):
    if d.get("nzeta", 0) % 2:  # half a period is not a whole number of grid planes
        return rel_mirror(d, p)
    return Rel(rl.shift(d), move=lambda m, n, C, S: (m, n, C * (-1)**n, S * (-1)**n), skip=("b0",))


def rel_negn(d, p):
    return Rel(rl.negative_n(d))


def rel_relabel(d, p):
    k = p["k"]
    if d["nfp"] % k or d["ntor"] * k > 4:
        k = d["nfp"] if d["ntor"] == 0 else 1
    return Rel(rl.relabel(d, k), move=lambda m, n, C, S: (m, n * k, C, S))


def rel_asym(d, p):
    if d["lasym"]:
        return rel_negn(d, p)
    f = flipped(d)
    return Rel(rl.asym(d), move=lambda m, n, C, S: (m, n, C * (-1)**m, S * (-1)**m) if f else (m, n, C, S))


def rel_theta(d, p):
    """theta -> -theta in the user's description; asymmetric runs choose their own angle, so only the profiles are compared there."""
    r = Rel(rl.reverse_theta(d), move=lambda m, n, C, S: (m, n, C * (-1)**m, S * (-1)**m), tables=not d["lasym"], skip=tuple(k for k in PRO if k not in INV) if d["lasym"] else ())
    r.tol = gauge_tol(d) if d["lasym"] else None
    return r


def rel_pi(d, p):
    """theta -> theta + pi."""
    if d["lasym"] and reversed_theta(d):  # the angle chosen for a reversed boundary is not unique
        return rel_field(d, p)
    o = rl.modes(d, lambda k, m, n, v: (m, n, v * (-1)**m))
    q = 1 if d["lasym"] else -1
    return Rel(o, move=lambda m, n, C, S: (m, n, C * q**m, S * q**m))


def rotated(d, f):
    """Boundary coefficients (C, S) -> f(m, n, C, S)."""
    o = copy.deepcopy(d)
    for c, s in (("rbc", "rbs"), ("zbc", "zbs")):
        t = {}
        for k, i in ((c, 0), (s, 1)):
            for q in d.get(k) or []:
                t.setdefault((q["m"], q["n"]), [0.0, 0.0])[i] += q["value"]
        new = {mn: f(*mn, *cs) for mn, cs in sorted(t.items())}
        for k, i in ((c, 0), (s, 1)):
            o[k] = [{"m": m, "n": n, "value": float(v[i])} for (m, n), v in new.items()]
    for k in ("raxis_c", "raxis_s", "zaxis_c", "zaxis_s"):
        o.pop(k, None)
    return o


def rel_origin(d, p):
    """Another origin of theta in an asymmetric description."""
    if not d["lasym"] or "mpol_geometry" in d or reversed_theta(d):
        return rel_pi(d, p)
    a = 2 * np.pi * p["angle"]
    d0 = rotated(d, lambda m, n, C, S: (C, S))
    r = Rel(rotated(d, lambda m, n, C, S: phase(-m * a)(C, S)))
    r.base = d0
    return r


def rel_rotate(d, p):
    """Another origin of zeta, by a whole number of grid planes."""
    if not d["lasym"] or not d["ntor"]:
        return rel_shift(d, p)
    nz = max(d.get("nzeta", 0), 2 * d["ntor"] + 4)
    a = 2 * np.pi * p["plane"] / nz
    d0 = rotated(d, lambda m, n, C, S: (C, S))
    r = Rel(rotated(d, lambda m, n, C, S: phase(n * a)(C, S)), move=lambda m, n, C, S: (m, n) + phase(n * a)(C, S), skip=("b0",))
    r.base = d0
    return r


def rel_lift(d, p):
    """A vertical displacement."""
    if not d["lasym"]:
        return rel_negn(d, p)
    h = p["L"]
    o = rotated(d, lambda m, n, C, S: (C, S))
    r = Rel(o)
    r.base = copy.deepcopy(o)
    z = {(q["m"], q["n"]): q["value"] for q in o["zbc"]}
    z[0, 0] = z.get((0, 0), 0.0) + h
    o["zbc"] = [{"m": m, "n": n, "value": v} for (m, n), v in sorted(z.items())]
    r.lift = h
    return r


EXACT = {"units": rel_scale, "field reversed": rel_field, "mirror image": rel_mirror, "half period": rel_shift, "m=0 with -n": rel_negn, "periods relabelled": rel_relabel, "asymmetric description": rel_asym, "theta reversed": rel_theta,
         "theta + pi": rel_pi, "origin of theta": rel_origin, "origin of zeta": rel_rotate, "lifted": rel_lift}


@st.composite
def exact(draw):
    return {"p": draw(solve.problem(ns=(5, 11))), "rel": draw(st.sampled_from(sorted(EXACT))), "L": draw(st.sampled_from([2.0, 0.37, 10.0])), "b": draw(st.sampled_from([4.0, 1.7, 0.05])), "k": draw(st.sampled_from([2, 3])),
            "angle": draw(st.floats(0.02, 0.98)), "plane": draw(st.integers(1, 5))}


def pair(name, d, d2):
    o, o2 = run(d), run(d2)
    if (o is None) != (o2 is None):
        o, o2 = run(d, 4), run(d2, 4)
    check((o is None) == (o2 is None), "%s: the run %s, the transformed run %s", name, "fails" if o is None else "converges", "fails" if o2 is None else "converges")
    return o, o2


def run_exact(c):
    d, name = c["p"], c["rel"]
    rel = EXACT[name](d, c)
    d = getattr(rel, "base", d)
    tol = getattr(rel, "tol", None)
    o, o2 = (run(d, 3), run(rel.d, 3)) if tol else pair(name, d, rel.d)
    if o is None or o2 is None:
        return {"labels": ["failed"], "nontrivial": False}
    if hasattr(rel, "lift"):
        t = np.array(o2.wout.zmnc)
        i = int(np.flatnonzero((np.asarray(o.wout.xm) == 0) & (np.asarray(o.wout.xn) == 0))[0])
        check(np.abs(t[i] - o.wout.zmnc[i] - rel.lift).max() <= 1e-4 * o.wout.Aminor_p, "the displaced plasma is not displaced by %r", rel.lift)
        t[i] -= rel.lift
        o2.wout.zmnc = t
    if name in ("units", "field reversed", "mirror image"):  # the residuals are normalised: they do not depend on units and signs
        T = [np.array([getattr(x.wout, "force_residual_" + k)[:3] for k in ("r", "z", "lambda")]) for x in (o, o2)]
        n = min(t.shape[1] for t in T)
        if n:
            a, b = [t[:, :n] for t in T]
            check(np.abs(a - b).max() <= 1e-6 * np.abs(a).max() and (np.abs(a - b)[:, 0] <= 1e-6 * a[:, 0] + 1e-12 * np.abs(a).max()).all(), "%s: the force residuals of the first iterations are %s and %s", name, a.tolist(), b.tolist())
    compare(name, rel, o, o2, tol or 1e-4)
    return {"labels": solve.labels(d) + [name], "nontrivial": solve.nontrivial(d)}


INV = {"volume", "aspect", "iotas", "vp", "wb", "phi", "pres", "bvco", "buco", "rbtor", "betatotal", "Rmajor_p", "Aminor_p"}


def same_delt(d, p):
    return dict(d, delt={0.9: 0.6, 0.7: 0.95, 0.5: 0.8}[d["delt"]]), ()


def same_axis(d, p):
    o = copy.deepcopy(d)
    for k in ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c"):
        o.pop(k, None)
    if "raxis_c" not in d:
        g = lambda n: sum(q["value"] for q in d["rbc"] if (q["m"], q["n"]) == (0, n))
        h = lambda n: sum(q["value"] for q in d["zbs"] if (q["m"], q["n"]) == (0, n))
        o["raxis_c"], o["zaxis_s"] = [g(n) for n in range(d["ntor"] + 1)], [-h(n) for n in range(d["ntor"] + 1)]
    return o, ()


def same_stages(d, p):
    if len(d["ns_array"]) > 1:
        return dict(d, ns_array=d["ns_array"][-1:], ftol_array=d["ftol_array"][-1:], niter_array=d["niter_array"][-1:]), ()
    n = d["ns_array"][0]
    return dict(d, ns_array=[max(5, (n + 1) // 2), n], ftol_array=[1e-8, d["ftol_array"][0]], niter_array=[2000, d["niter_array"][0]]), ()


def same_offset(d, p):
    """Only the pressure gradient enters the force balance."""
    if d.get("gamma") or d.get("pmass_type", "power_series") != "power_series" or not d.get("pres_scale"):
        return same_stages(d, p)
    return dict(d, am=[d["am"][0] + 0.7] + list(d["am"][1:])), ("pres", "betatotal")


SAME = {"time step": same_delt, "axis guess": same_axis, "stages": same_stages, "pressure offset": same_offset}


@st.composite
def same(draw):
    d = draw(solve.problem(ns=(5, 11)))
    d["ftol_array"][-1] = 1e-13
    return {"p": d, "rel": draw(st.sampled_from(sorted(SAME)))}


def gauge_tol(d):
    """The m=1 part of the poloidal angle is frozen at its value when the residual first becomes small, so in 3D or without symmetry the route matters at the level of the resolution."""
    return 4e-2 if d["ntor"] or d["lasym"] else 1e-2


def run_same(c):
    d, name = c["p"], c["rel"]
    d2, skip = SAME[name](d, c)
    o, o2 = run(d, 3), run(d2, 3)
    if o is None or o2 is None:  # another path to the solution may fail
        return {"labels": ["failed"], "nontrivial": False}
    if np.abs(o.wout.iotas[1:]).min() < 0.05:  # without rotational transform the vacuum field does not fix an axis
        return {"labels": ["no transform"], "nontrivial": False}
    compare(name, Rel(d2, tables=False, skip=tuple(k for k in PRO if k not in INV) + tuple(skip)), o, o2, tol=gauge_tol(d))
    a = float(np.abs(o.wout.raxis_cc - o2.wout.raxis_cc).max() + np.abs(o.wout.zaxis_cs - o2.wout.zaxis_cs).max())
    check(a <= 2e-2 * o.wout.Aminor_p, "%s: the axes differ by %.3g minor radii", name, a / o.wout.Aminor_p)
    return {"labels": solve.labels(d) + [name], "nontrivial": solve.nontrivial(d)}


@st.composite
def dual(draw):
    d = draw(solve.problem(ns=(5, 11), multi=False))
    d.pop("bloat", None)
    d["ftol_array"][-1] = 1e-13
    return {"p": d}


def run_dual(c):
    """iota profile -> current profile -> iota profile, and the reverse."""
    d = c["p"]
    o = run(d, 3)
    if o is None:
        return {"labels": ["failed"], "nontrivial": False}
    w, ns = o.wout, o.wout.ns
    half = (np.arange(1, ns) - 0.5) / (ns - 1)
    if d.get("aphi"):  # the profiles are functions of the normalised toroidal flux
        half = sum(x * half ** (i + 1) for i, x in enumerate(d["aphi"])) / sum(d["aphi"])
    d2 = copy.deepcopy(d)
    if d["ncurr"] == 0:
        # enclosed current of every half-grid surface, extended to the edge
        cur = np.asarray(w.buco)[1:] * 2 * np.pi * w.signgs / (4e-7 * np.pi)
        edge = 1.5 * cur[-1] - 0.5 * cur[-2]
        if abs(edge) < 1e-3 * abs(w.rbtor) * 2.5e6 * (w.Aminor_p / w.Rmajor_p)**2:
            return {"labels": ["no net current"], "nontrivial": False}
        d2.update(ncurr=1, pcurr_type="line_segment_i", ac_aux_s=[0.0] + list(half) + [1.0], ac_aux_f=[0.0] + list(cur) + [float(edge)], curtor=float(edge))
        d2["ac_aux_s"], d2["ac_aux_f"] = list(map(float, d2["ac_aux_s"])), list(map(float, d2["ac_aux_f"]))
        for k in ("ai", "ai_aux_s", "ai_aux_f", "piota_type"):
            d2.pop(k, None)
    else:
        s = -1.0 if reversed_theta(d) else 1.0
        io = np.asarray(w.iotas)[1:] * s
        d2.update(ncurr=0, piota_type="line_segment", ai_aux_s=[0.0] + list(map(float, half)) + [1.0], ai_aux_f=[float(io[0])] + list(map(float, io)) + [float(io[-1])])
        for k in ("ac", "curtor"):
            d2.pop(k, None)
    o2 = run(d2, 3)
    if o2 is None:
        return {"labels": ["failed"], "nontrivial": False}
    compare("current and iota profile exchanged", Rel(d2, tables=False, skip=tuple(k for k in PRO if k not in INV)), o, o2, tol=gauge_tol(d))
    return {"labels": solve.labels(d), "nontrivial": solve.nontrivial(d)}


PROPS = [
    Prop("exact", exact, run_exact, quick=240, thorough=5000, isolate=True, shards=5, budget=90, thorough_budget=700, timeout=180),
    Prop("same", same, run_same, quick=70, thorough=2000, isolate=True, shards=2, budget=90, thorough_budget=700, timeout=180),
    Prop("dual", dual, run_dual, quick=40, thorough=1000, isolate=True, shards=1, budget=90, thorough_budget=700, timeout=180),
]
