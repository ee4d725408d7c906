"""C20: the field and vector potential of a coil set are those of its currents (Biot-Savart)."""
import numpy as np
from hypothesis import strategies as st

from vp import biot, repo
from vp.harness import Prop, Skip, check

PROPERTY = "C20"
RULE = ("A case is a coil set (circuits with currents, coils with or without windings, polygon, circular and straight filaments in any orientation), "
        "evaluation points at least 0.25 away from every wire, and a prior content of the result array; or a coil set with an axis curve. Oracle: "
        "Gauss quadrature of the Biot-Savart integrals along each wire, added to the prior content; superposition over single circuits; curl of the "
        "vector potential by finite differences; Ampere's law for the linking current. Non-trivial: at least one current-carrying wire.")
ASSUMPTIONS = ["The filament formulas of the external ABSCAB library are supplied by /verif/shim (the library is not available offline)"]
X = None


def setup():
    global X
    X, = repo.modules(PROPERTY, ["vx_coils"])


C3 = st.one_of(*[st.lists(st.floats(-2, 2), min_size=3, max_size=3)] * 3, st.tuples(*[st.sampled_from([0.0, 0.0, 1.0, -1.5])] * 3).map(list), st.floats(-2, 2).map(lambda z: [0.0, 0.0, z]))
CUR = st.one_of(st.floats(-1e6, -1.0), st.floats(1.0, 1e6), st.floats(1.0, 1e4), st.floats(-1e4, -1.0), st.sampled_from([None, 0.0]))
WIN = st.one_of(st.sampled_from([None, None, 0.0]), st.sampled_from([1.0, -1.0, 16.0]), st.floats(-50, -0.01), st.floats(0.01, 50))


@st.composite
def carrier(draw, line=True):
    t = draw(st.sampled_from(["polygon", "polygon", "circle", "circle"] + (["line"] if line else []) + ["none"]))
    if t == "polygon":
        v = draw(st.lists(C3, min_size=2, max_size=6))
        if draw(st.booleans()):
            v = v + [v[0]]
        return {"type": t, "name": None, "vertices": v}
    if t == "circle":
        n = draw(C3)
        if sum(x * x for x in n) < 0.01:
            n = [0.0, 0.0, 1.0]
        return {"type": t, "name": None, "center": draw(C3), "normal": n, "radius": draw(st.floats(0.2, 3))}
    if t == "line":
        n = draw(C3)
        if sum(x * x for x in n) < 0.01:
            n = [0.0, 1.0, 0.0]
        return {"type": t, "name": None, "origin": draw(C3), "direction": n}
    return {"type": "none"}


@st.composite
def config(draw, line=True):
    cs = []
    for _ in range(draw(st.sampled_from([1, 2, 3, 2, 0]))):
        cs.append({"name": None, "current": draw(CUR), "coils": [{"name": None, "windings": draw(WIN), "carriers": [draw(carrier(line)) for _ in range(draw(st.sampled_from([1, 2, 1, 0])))]}
                                                                 for _ in range(draw(st.sampled_from([1, 2, 3, 1, 0])))]})
    return {"name": None, "nfp": draw(st.integers(1, 5)), "circuits": cs}


@st.composite
def case(draw):
    return {"cfg": draw(config()), "pts": draw(st.lists(C3.map(lambda p: [1.7 * x for x in p]), min_size=1, max_size=6)), "prior": draw(st.booleans()), "seed": draw(st.integers(0, 10**6))}


def alive(cfg):
    return [q for s in cfg["circuits"] if s["current"] for k in s["coils"] if k["windings"] != 0.0 for q in k["carriers"] if q["type"] != "none"]


def run(c):
    cfg = c["cfg"]
    x = np.array(c["pts"])
    keep = [i for i in range(len(x)) if biot.clearance(cfg, x[i:i + 1]) > 0.25]
    if not keep:
        raise Skip("no point clear of the wires")
    x = x[keep]
    r = np.random.default_rng(c["seed"])
    want = biot.field(cfg, x)
    s = np.abs(want).max() or 1.0
    prior = r.uniform(-1, 1, x.shape) * s if c["prior"] else np.zeros(x.shape)
    parts = [biot.circuit_field(q, x) for q in cfg["circuits"]]
    tol = 1e-9 * max([np.abs(p).max() for p in parts] + [s]) * max(1, sum(len(k["carriers"]) for q in cfg["circuits"] for k in q["coils"]))
    tol = max(tol, 1e-9 * max([abs((q["current"] or 0) * (1 if k["windings"] is None else k["windings"])) for q in cfg["circuits"] for k in q["coils"]] + [0]) * 2e-7)
    got = np.array(X.field(cfg, x.tolist(), prior.tolist()))
    e = np.abs(got - prior - want).max()
    check(e <= tol, "field off by %g (scale %g): %r, Biot-Savart %r", e, s, (got - prior).tolist(), want.tolist())
    one = np.zeros(x.shape)
    for q in cfg["circuits"]:
        one += np.array(X.field(dict(cfg, circuits=[q]), x.tolist(), (0 * prior).tolist()))
    check(np.abs(got - prior - one).max() <= tol, "field is not the sum over the circuits")
    lines = any(q["type"] == "line" for s_ in cfg["circuits"] for k in s_["coils"] for q in k["carriers"])
    lab = ["line" if lines else "noline"] + sorted({q["type"] for q in alive(cfg)})
    if not lines:
        want = biot.field(cfg, x, True)
        got = np.array(X.potential(cfg, x.tolist(), prior.tolist()))
        e = np.abs(got - prior - want).max()
        check(e <= tol * 10, "vector potential off by %g: %r, expected %r", e, (got - prior).tolist(), want.tolist())
    # single carriers, with the wire's own current
    for q in alive(cfg)[:2]:
        okk, b = X.carrier_field(q, 2.5, x.tolist(), prior.tolist(), False)
        w = 2.5 * biot.carrier_field(q, x)
        check(okk and np.abs(np.array(b) - prior - w).max() <= 1e-9 * (np.abs(w).max() + np.abs(prior).max() + 1e-6), "field of a single filament")
        if q["type"] != "line":
            okk, b = X.carrier_field(q, 2.5, x.tolist(), prior.tolist(), True)
            w = 2.5 * biot.carrier_field(q, x, True)
            check(okk and np.abs(np.array(b) - prior - w).max() <= 1e-9 * (np.abs(w).max() + np.abs(prior).max() + 1e-6), "vector potential of a single filament")
    return {"labels": lab, "nontrivial": bool(alive(cfg))}


@st.composite
def link(draw):
    n = draw(st.integers(0, 4))
    modes = [[k, draw(st.floats(-0.2, 0.2)), draw(st.floats(-0.3, 0.3)), draw(st.floats(-0.2, 0.2)), draw(st.floats(-0.3, 0.3))] for k in range(1, n + 1)]
    perm = draw(st.permutations(range(n + 1)))
    return {"r0": draw(st.floats(3, 6)), "modes": modes, "perm": list(perm), "cfg": draw(config()), "nfp": draw(st.integers(1, 5)), "z": draw(st.booleans()), "iz": draw(st.floats(-1e5, 1e5))}


def run_link(c):
    cfg = dict(c["cfg"], nfp=c["nfp"])
    rows = [[0, c["r0"], 0.0, 0.0, 0.1]] + c["modes"]
    rows = [rows[i] for i in c["perm"]]
    csv = "n,raxis_c,zaxis_s,raxis_s,zaxis_c\n" + "\n".join(",".join(repr(v) for v in q) for q in rows)
    npts = 2 * (2 * len(c["modes"]) + 1) * c["nfp"]
    if c["z"]:  # straight wire on the z axis and a circular axis: exactly the current of the wire
        cfg = {"name": None, "nfp": c["nfp"], "circuits": [{"name": None, "current": c["iz"], "coils": [{"name": None, "windings": None, "carriers": [{"type": "line", "name": None, "origin": [0.0, 0.0, 0.3], "direction": [0.0, 0.0, 2.0]}]}]}]}
    p = 2 * np.pi * np.arange(npts) / npts
    R = sum(q[1] * np.cos(q[0] * p) + q[3] * np.sin(q[0] * p) for q in rows)
    Z = sum(q[2] * np.sin(q[0] * p) + q[4] * np.cos(q[0] * p) for q in rows)
    dR = sum(q[0] * (-q[1] * np.sin(q[0] * p) + q[3] * np.cos(q[0] * p)) for q in rows)
    dZ = sum(q[0] * (q[2] * np.cos(q[0] * p) - q[4] * np.sin(q[0] * p)) for q in rows)
    x = np.stack([R * np.cos(p), R * np.sin(p), Z], 1)
    t = np.stack([dR * np.cos(p) - R * np.sin(p), dR * np.sin(p) + R * np.cos(p), dZ], 1)
    if biot.clearance(cfg, x) < 0.25:
        raise Skip("axis close to a wire")
    b = biot.field(cfg, x)
    want = (b * t).sum() * 2 * np.pi / npts / biot.MU0
    got = X.linking(cfg, csv)
    tol = 1e-8 * (np.abs(b).max() * np.abs(t).max() * 2 * np.pi / biot.MU0) + 1e-9
    check(abs(got - want) <= tol, "linking current %r, line integral gives %r", got, want)
    if c["z"]:
        check(abs(got - c["iz"]) <= 1e-6 * abs(c["iz"]) + 1e-6 if not c["modes"] else True, "linking current %r of a wire with current %r", got, c["iz"])
    return {"labels": ["wire" if c["z"] else "coils", "modes%d" % len(c["modes"])], "nontrivial": bool(alive(cfg))}


PROPS = [Prop("field", case, run, quick=600, thorough=12000, isolate=True, budget=40),
         Prop("linking", link, run_link, quick=250, thorough=5000, isolate=True, budget=30)]
