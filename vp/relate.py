"""Input transformations with a known effect on the equilibrium: each returns (problem', f) with f: (m, n, table) -> expected table of problem'."""
import copy

import numpy as np

TABS = {"rbc": "rmnc", "rbs": "rmns", "zbs": "zmns", "zbc": "zmnc"}


def modes(d, f):
    """Apply f(name, m, n, value) -> (m, n, value) to every boundary coefficient."""
    o = copy.deepcopy(d)
    for k in ("rbc", "zbs", "rbs", "zbc"):
        if o.get(k):
            acc = {}
            for q in o[k]:
                m, n, v = f(k, q["m"], q["n"], q["value"])
                acc[m, n] = acc.get((m, n), 0.0) + v
            o[k] = [{"m": m, "n": n, "value": v} for (m, n), v in sorted(acc.items())]
    return o


def coef(w, name, m, n):
    """Coefficient of cos/sin(m u - n nfp v) of every surface; m = 0 modes are stored for n >= 0."""
    xm, xn = np.asarray(w.xm, int), np.asarray(w.xn, int) // w.nfp
    s = 1.0
    if m == 0 and n < 0:
        n = -n
        if name in ("rmns", "zmns", "lmns_full", "lmns"):
            s = -1.0
    i = np.flatnonzero((xm == m) & (xn == n))
    t = getattr(w, name)
    return s * np.asarray(t)[i[0]] if len(i) and t is not None else np.zeros(w.ns)


def scale(d, L, b):
    o = modes(d, lambda k, m, n, v: (m, n, v * L))
    o["phiedge"] = d["phiedge"] * b * L * L
    for k in ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c"):
        if o.get(k):
            o[k] = [v * L for v in o[k]]
    if "pres_scale" in o:
        o["pres_scale"] *= b**(2.0 - o.get("gamma", 0.0))  # mass is normalised with (flux x major radius)^gamma
    if "curtor" in o:
        o["curtor"] *= b * L
    return o


def reverse_field(d):
    o = copy.deepcopy(d)
    o["phiedge"] = -d["phiedge"]
    if "curtor" in o:
        o["curtor"] = -o["curtor"]
    return o


def reverse_theta(d):
    """theta -> -theta; the transform keeps its meaning relative to the user's angle, so iota changes sign."""
    def f(k, m, n, v):
        s = -1 if k in ("zbs", "rbs") else 1
        return (m, -n, v * s) if m else (m, n, v)
    o = modes(d, f)
    return negate_iota(o)


def mirror(d):
    """zeta -> -zeta."""
    def f(k, m, n, v):
        return (m, -n, v) if m else (m, n, v * (-1 if k in ("zbs", "rbs") else 1))
    o = modes(d, f)
    for k in ("zaxis_s", "raxis_s"):
        if o.get(k):
            o[k] = [-v for v in o[k]]
    if "curtor" in o:
        o["curtor"] = -o["curtor"]
    return negate_iota(o)


def negate_iota(o):
    o = copy.deepcopy(o)
    if "ai" in o:
        o["ai"] = [-v for v in o["ai"]]
    if "ai_aux_f" in o:
        o["ai_aux_f"] = [-v for v in o["ai_aux_f"]]
    return o


def shift(d):
    """zeta -> zeta + pi / nfp."""
    o = modes(d, lambda k, m, n, v: (m, n, v * (-1)**n))
    for k in ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c"):
        if o.get(k):
            o[k] = [v * (-1)**n for n, v in enumerate(o[k])]
    return o


def relabel(d, k):
    """The same torus described with nfp / k field periods."""
    o = modes(d, lambda t, m, n, v: (m, n * k, v))
    o["nfp"] = d["nfp"] // k
    o["ntor"] = d["ntor"] * k
    if d["ntor"]:
        o["nzeta"] = k * max(d.get("nzeta", 0), 2 * d["ntor"] + 4)
        o["nzeta"] = k * (o["nzeta"] // k)
    for a in ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c"):
        if o.get(a):
            x = [0.0] * (o["ntor"] + 1)
            for n, v in enumerate(o[a]):
                if n * k < len(x):
                    x[n * k] = v
            o[a] = x
    if "ntor_geometry" in o:
        o["ntor_geometry"] *= k
    return o


def asym(d):
    o = copy.deepcopy(d)
    o["lasym"], o["rbs"], o["zbc"] = True, [], []
    return o


def negative_n(d):
    """m = 0 coefficients written with -n."""
    def f(k, m, n, v):
        return (m, -n, v * (-1 if k in ("zbs", "rbs") else 1)) if m == 0 else (m, n, v)
    return modes(d, f)
