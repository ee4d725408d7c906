"""C12: pressure, iota and current profiles have the value the chosen parameterisation defines."""
import json

import numpy as np
from hypothesis import strategies as st

from vp import repo
from vp.harness import Prop, check

PROPERTY = "C12"
RULE = ("A case is a profile type with coefficients or spline knots (random size, positions, values), bloat/pedestal/flux/gamma "
        "settings, a radial resolution and a thread count. Oracle: the closed formula (numpy), scipy's Hermite/clamped cubic splines, "
        "numpy.interp, Gauss-Legendre quadrature; per-thread arrays are compared with the single-grid reference. Non-trivial: the "
        "reference profile is not constant zero.")
ASSUMPTIONS = ["spline knots are strictly increasing", "10-point Gauss-Legendre quadrature is part of the definition of the integrated "
               "analytic current profiles, as in VMEC"]
X = None
MU0 = 4e-7 * np.pi
NAMES = ["---invalid---", "power_series", "power_series_i", "gauss_trunc", "sum_atan", "two_lorentz", "two_power", "two_power_gs",
         "akima_spline", "akima_spline_i", "akima_spline_ip", "cubic_spline", "cubic_spline_i", "cubic_spline_ip", "pedestal",
         "rational", "line_segment", "line_segment_i", "line_segment_ip", "nice_quadratic", "sum_cossq_s", "sum_cossq_sqrts",
         "sum_cossq_s_free"]
PRES = ["power_series", "gauss_trunc", "two_lorentz", "two_power", "two_power_gs", "akima_spline", "cubic_spline", "pedestal",
        "rational", "line_segment"]
IOTA = ["power_series", "sum_atan", "akima_spline", "cubic_spline", "rational", "line_segment", "nice_quadratic"]
CURR = ["power_series", "power_series_i", "gauss_trunc", "sum_atan", "two_power", "two_power_gs", "akima_spline_i",
        "akima_spline_ip", "cubic_spline_i", "cubic_spline_ip", "pedestal", "rational", "line_segment_i", "line_segment_ip"]
NOT_IMPLEMENTED = ["sum_cossq_s", "sum_cossq_sqrts", "sum_cossq_s_free"]
GX, GW = np.polynomial.legendre.leggauss(10)
GX, GW = (GX + 1) / 2, GW / 2


def setup():
    global X
    X, = repo.modules(PROPERTY, ["vx_prof"])
    import scipy.interpolate  # noqa: F401  (once, not in every forked case)


# ---- reference ------------------------------------------------------------------------------------------------
def akima(k, y):
    from scipy.interpolate import CubicHermiteSpline
    k, y = np.asarray(k, float), np.asarray(y, float)
    m = np.diff(y) / np.diff(k)
    m = np.concatenate([[0, 0], m, [0, 0]])
    m[1] = 2 * m[2] - m[3]
    m[0] = 2 * m[1] - m[2]
    m[-2] = 2 * m[-3] - m[-4]
    m[-1] = 2 * m[-2] - m[-3]
    t = np.zeros(len(k))
    amb = False
    for i in range(len(k)):
        w1, w2 = abs(m[i + 3] - m[i + 2]), abs(m[i + 1] - m[i])
        # nearly equal slopes on both sides: the weights are round-off, any mix of the two slopes is right
        amb = amb or w1 + w2 < 1e-9 * (np.abs(m).max() + 1e-300)
        t[i] = (w1 * m[i + 1] + w2 * m[i + 2]) / (w1 + w2) if w1 + w2 > 0 else 0.5 * (m[i + 1] + m[i + 2])
    return CubicHermiteSpline(k, y, t), amb


def cubic(k, y):
    from scipy.interpolate import CubicSpline
    k, y = np.asarray(k, float), np.asarray(y, float)

    def slope(i0, i1, i2):  # derivative at i0 of the parabola through three knots
        a, b, c = k[i0], k[i1], k[i2]
        return (y[i0] * (2 * a - b - c) / ((a - b) * (a - c)) + y[i1] * (a - c) / ((b - a) * (b - c))
                + y[i2] * (a - b) / ((c - a) * (c - b)))
    return CubicSpline(k, y, bc_type=((1, slope(0, 1, 2)), (1, slope(-1, -2, -3))))


def line_int(k, y, x):
    k, y = np.asarray(k, float), np.asarray(y, float)
    g = np.unique(np.concatenate([[0.0, x], k[(k > 0) & (k < x)]]))
    return float(np.trapezoid(np.interp(g, k, y), g)) if x > 0 else 0.0


def poly(c, x):
    return sum(v * x**i for i, v in enumerate(c))


def reference(name, c, k, y, integrate, x):
    c = list(c)
    p = lambda i: c[i] if i < len(c) else 0.0
    gl = lambda f: x * sum(w * f(x * g) for w, g in zip(GW, GX))
    if name == "power_series":
        return sum(v * x**(i + 1) / (i + 1) for i, v in enumerate(c)) if integrate else poly(c, x)
    if name == "power_series_i":
        return sum(v * x**(i + 1) for i, v in enumerate(c))
    if name == "gauss_trunc":
        e = np.exp(-1 / c[1]**2)
        f = lambda s: c[0] * (np.exp(-(s / c[1])**2) - e)
        return gl(f) if integrate else f(x) / (1 - e)
    if name == "sum_atan":
        r = p(0)
        for j in range(1, 18, 4):
            if x >= 1:
                r += p(j)
            elif len(c) >= j + 4:
                r += 2 / np.pi * p(j) * np.arctan(p(j + 1) * x**p(j + 2) / (1 - x)**p(j + 3))
        return r
    if name == "two_lorentz":
        def lor(a, b, g):
            f = lambda s: (1 + (s / a**2)**b)**-g
            return (f(x) - f(1.0)) / (1 - f(1.0))
        return c[0] * (c[1] * lor(c[2], c[3], c[4]) + (1 - c[1]) * lor(c[5], c[6], c[7]))
    if name in ("two_power", "two_power_gs"):
        def f(s):
            r = c[0] * (1 - s**c[1])**c[2]
            if name == "two_power_gs":
                r *= 1 + sum(p(i) * np.exp(-((s - p(i + 1)) / p(i + 2))**2) for i in range(3, 19, 3) if p(i) != 0)
            return r
        return gl(f) if integrate else f(x)
    if name.startswith("akima") or name.startswith("cubic"):
        s = akima(k, y)[0] if name.startswith("akima") else cubic(k, y)
        if name.endswith("_ip"):
            if name.startswith("akima"):
                return float(s.integrate(k[0], min(max(x, k[0]), k[-1])))
            return float(s.integrate(k[0], x)) if k[0] <= x <= k[-1] else 0.0
        return float(s(x)) if k[0] <= x <= k[-1] else 0.0
    if name == "pedestal":
        if integrate:
            r = sum(v * x**(i + 1) / (i + 1) for i, v in enumerate(c[:8]))
            if p(11) > 0:
                w, z = p(11), p(10)
                r += p(8) * (np.tanh(2 * z / w) - np.tanh(2 * (z - np.sqrt(x)) / w)) / (np.tanh(2 * z / w) - np.tanh(2 * (z - 1) / w))
            for a, z, w in ((13, 15, 16), (17, 19, 20)):
                ww = max(p(w), 0.01)
                r += p(a) * (np.tanh((x - p(z)) / ww) - np.tanh(-p(z) / ww))
            return r
        r = poly(c[:16], x)
        if p(19) > 0:
            w, z = p(19), p(18)
            r += p(17) * (np.tanh(2 * (z - np.sqrt(x)) / w) - np.tanh(2 * (z - 1) / w)) / (np.tanh(2 * z / w) - np.tanh(2 * (z - 1) / w))
        return r
    if name == "rational":
        d = poly(c[10:], x)
        return poly(c[:10], x) / d if d != 0 else np.finfo(float).max
    if name in ("line_segment", "line_segment_i"):
        return float(np.interp(x, k, y))
    if name == "line_segment_ip":
        return line_int(k, y, x)
    if name == "nice_quadratic":
        return p(0) * (1 - x) + p(1) * x + 4 * p(2) * x * (1 - x)
    raise KeyError(name)


# ---- generators -------------------------------------------------------------------------------------------------
val = st.floats(-3, 3, allow_nan=False).map(lambda v: round(v, 6))
pos = st.floats(0.05, 3, allow_nan=False).map(lambda v: round(v, 6))


@st.composite
def profile(draw, names):
    name = draw(st.sampled_from(names))
    c, k, y = [], [], []
    if name in ("power_series", "power_series_i", "nice_quadratic"):
        c = draw(st.lists(val, min_size=0 if name != "nice_quadratic" else 1, max_size=21 if name != "nice_quadratic" else 4))
    elif name == "gauss_trunc":
        c = [draw(val), draw(pos)]
    elif name == "sum_atan":
        n = draw(st.sampled_from([0, 1, 5, 9, 13, 17, 21]))
        c = ([draw(val)] + [draw(pos) for _ in range(n - 1)]) if n else []
    elif name == "two_lorentz":
        c = [draw(val), draw(st.floats(0, 1))] + [draw(pos) for _ in range(6)]
    elif name in ("two_power", "two_power_gs"):
        c = [draw(val), draw(pos), draw(pos)]
        if name == "two_power_gs":
            for _ in range(draw(st.integers(0, 6))):
                c += [draw(val), draw(st.floats(0, 1)), draw(pos)]
    elif name == "pedestal":
        c = draw(st.lists(val, min_size=0, max_size=21))
        for i in ((18, 10) if True else ()):
            if i < len(c):
                c[i] = draw(st.floats(0, 1))
        for i in (19, 11):
            if i < len(c):
                c[i] = draw(st.one_of(st.just(-1.0), pos, st.just(0.0)))
    elif name == "rational":
        n = draw(st.integers(10, 21))
        c = [draw(val) for _ in range(n)]
        if n > 10:
            c[10] = draw(pos)
            c[11:] = [abs(v) for v in c[11:]]
    else:
        n = draw(st.integers(2 if name.startswith("line") else 4, 12))
        gaps = [draw(st.floats(0.02, 1)) for _ in range(n - 1)]
        lo, hi = draw(st.sampled_from([(0.0, 1.0), (0.0, 1.0), (0.0, 1.0), (-0.1, 1.2), (0.15, 1.0), (0.0, 0.8), (0.2, 0.7)]))
        k = [lo + (hi - lo) * g for g in np.cumsum([0] + gaps) / sum(gaps)]
        y = [draw(val) for _ in range(n)]
        k = [float(v) for v in k]
    return {"name": name, "c": c, "k": k, "y": y}


@st.composite
def case(draw):
    return {"p": draw(profile(PRES)), "i": draw(profile(IOTA)), "j": draw(profile(CURR)),
            "x": [draw(st.floats(0, 1)) for _ in range(6)], "bloat": draw(st.sampled_from([1.0, 1.0, 0.7, 1.3])),
            "pres_scale": draw(st.sampled_from([1.0, 2.5e4, 0.0, 1e-3])),
            "knot": draw(st.integers(0, 20)), "aphi": draw(st.lists(st.floats(0.05, 2), min_size=1, max_size=5)),
            "spres_ped": draw(st.sampled_from([1.0, 1.0, 0.6, 0.3])), "gamma": draw(st.sampled_from([0.0, 0.0, 5 / 3, 2.0])),
            "curtor": draw(st.sampled_from([0.0, 1e5, -3e4])), "phiedge": draw(st.sampled_from([1.0, -2.5, 0.3])),
            "ncurr": draw(st.sampled_from([0, 1])), "ns": draw(st.integers(3, 30)), "nt": draw(st.integers(1, 5)),
            "sign": draw(st.sampled_from([-1, 1])), "flip": draw(st.booleans()), "r00": draw(st.floats(0.5, 12)),
            "ntor": draw(st.integers(0, 3))}


def bloat(c):
    return c["bloat"] if c["ncurr"] == 1 else 1.0


def doc(c):
    d = {"mpol": 3, "ntor": c["ntor"], "ns_array": [c["ns"]], "ncurr": c["ncurr"], "bloat": bloat(c), "pres_scale": c["pres_scale"],
         "aphi": c["aphi"], "spres_ped": c["spres_ped"], "gamma": c["gamma"], "curtor": c["curtor"], "phiedge": c["phiedge"],
         "pmass_type": c["p"]["name"], "piota_type": c["i"]["name"], "pcurr_type": c["j"]["name"],
         "rbc": [{"m": 0, "n": 0, "value": c["r00"]}, {"m": 1, "n": 0, "value": 0.3}], "zbs": [{"m": 1, "n": 0, "value": 0.3}]}
    for pre, q in (("am", c["p"]), ("ai", c["i"]), ("ac", c["j"])):
        d[pre] = q["c"]
        d[pre + "_aux_s"] = q["k"]
        d[pre + "_aux_f"] = q["y"]
    return json.dumps(d)


def close(a, b, scale, msg, *args):
    if np.isfinite(b):
        check(abs(a - b) <= 1e-10 * (abs(b) + scale) + 1e-300, msg + ": %r instead of %r", *args, a, b)


def size(q):
    return sum(abs(v) for v in q["c"]) + max([abs(v) for v in q["y"]] + [0])


def amb(q):
    return q["name"].startswith("akima") and akima(q["k"], q["y"])[1]


def run_values(c):
    ctx = X.Ctx(doc(c), c["ns"], 1, c["sign"], 0.05)
    ctx.setup()
    t = ctx.types()
    check(t == (NAMES.index(c["p"]["name"]), NAMES.index(c["i"]["name"]), NAMES.index(c["j"]["name"])), "profile types %r", t)
    big = False
    for what, q, integ in (("mass", c["p"], False), ("iota", c["i"], False), ("curr", c["j"], True)):
        if amb(q):
            continue
        xs = [0.0, 1.0] + c["x"]
        if q["k"]:
            kk = q["k"][c["knot"] % len(q["k"])]
            xs += [v for v in (kk, kk - 1e-7, kk + 1e-7, np.nextafter(kk, 0), np.nextafter(kk, 2)) if 0 <= v <= 1]
        got = ctx.values(what, xs)
        for x, g in zip(xs, got):
            e = x if what == "iota" else min(abs(x * bloat(c)), 1.0)
            w = reference(q["name"], q["c"], q["k"], q["y"], integ, e)
            if what == "mass":
                w *= MU0 * c["pres_scale"]
            sc = size(q) * (MU0 * abs(c["pres_scale"]) if what == "mass" else 1.0)
            if q["name"] == "rational":
                sc = 0.0
            if q["name"] == "two_lorentz" and abs(w) > 1e6 * sc:
                continue
            if "spline" in q["name"]:
                # the value at the very end of the knot range may fall on either side of it by rounding
                if abs(e - q["k"][0]) < 1e-12 or abs(e - q["k"][-1]) < 1e-12:
                    if x not in (0.0, 1.0) and e not in q["k"]:
                        continue
                hmin = min(np.diff(q["k"]))
                sc /= max(hmin, 1e-3)
            big = big or w != 0
            close(g, w, sc * 10, "%s profile %s at %r", what, q["name"], x)
    return {"labels": [c["p"]["name"], c["i"]["name"], c["j"]["name"]], "nontrivial": bool(big)}


def torflux(a, x):
    return sum(v * x**(i + 1) for i, v in enumerate(a))


def torflux_d(a, x):
    return sum((i + 1) * v * x**i for i, v in enumerate(a))


def run_arrays(c):
    if any(amb(c[q]) for q in "pij"):
        from vp.harness import Skip
        raise Skip("akima with locally linear data")
    nt = min(c["nt"], max(1, c["ns"] // 2))
    ns = c["ns"]
    ctx = X.Ctx(doc(c), ns, nt, c["sign"], 0.05)
    ctx.setup()
    parts, rms = ctx.evaluate(c["flip"])
    one = X.Ctx(doc(c), ns, 1, c["sign"], 0.05)
    one.setup()
    ref_i = lambda x: one.values("iota", [x])[0]
    ref_m = lambda x: one.values("mass", [x])[0]
    ref_c = lambda x: one.values("curr", [x])[0]
    a = c["aphi"]
    mx = c["sign"] * c["phiedge"] / (2 * np.pi) / torflux(a, 1.0)
    edge = ref_c(1.0)
    itor = c["sign"] * MU0 * c["curtor"] / (2 * np.pi * edge) if abs(edge) > np.finfo(float).eps * abs(c["curtor"]) else 0.0
    want_rms = 0.0
    fin = lambda v: np.isfinite(v) and abs(v) < 1e200

    def cmp(what, got, w):
        if fin(w):
            check(abs(got - w) <= 1e-11 * max(abs(w), 1e-30), "%s: %r instead of %r", what, got, w)
    for jh in range(ns - 1):
        s = (jh + 0.5) / (ns - 1)
        want_rms += (mx * torflux_d(a, s))**2
        tf = min(torflux(a, s), 1.0)
        sg = -1 if c["flip"] else 1
        w = dict(sqrtSH=np.sqrt(s), phipH=mx * torflux_d(a, s), iotaH=sg * ref_i(tf), chipH=sg * mx * ref_i(tf) * torflux_d(a, s),
                 currH=itor * ref_c(tf),
                 massH=ref_m(min(torflux(a, min(s, c["spres_ped"])), 1.0)) * (abs(mx * torflux_d(a, s)) * c["r00"])**c["gamma"],
                 sm=np.sqrt(s) / np.sqrt((jh + 1) / (ns - 1)),
                 sp=np.sqrt(s) / np.sqrt(jh / (ns - 1)) if jh else np.sqrt(s) / np.sqrt((jh + 1) / (ns - 1)))
        for d in parts:
            if d["nsMinH"] <= jh < d["nsMaxH"]:
                for k, v in w.items():
                    cmp("%s at half-grid point %d" % (k, jh), d[k][jh - d["nsMinH"]], v)
    for jf in range(ns):
        s = jf / (ns - 1)
        tf = min(torflux(a, s), 1.0)
        w = dict(sqrtSF=np.sqrt(s), phipF=mx * torflux_d(a, s), radialBlending=0.1 * (1 - s))
        if not c["flip"]:
            w.update(iotaF=ref_i(tf), chipF=mx * ref_i(tf) * torflux_d(a, s))
        for d in parts:
            if d["nsMinF1"] <= jf < d["nsMaxF1"]:
                i = jf - d["nsMinF1"]
                for k, v in w.items():
                    cmp("%s at full-grid point %d" % (k, jf), d[k][i], v)
                cmp("even scaling", d["scalxc"][2 * i], 1.0)
                cmp("odd scaling at %d" % jf, d["scalxc"][2 * i + 1], 1 / np.sqrt(max(s, 1 / (ns - 1))))
    cmp("sum of phip^2 over the grid with %d threads" % nt, rms, want_rms)
    d = parts[0]
    cmp("maximum toroidal flux", d["maxToroidalFlux"], mx)
    cmp("current", d["currv"], MU0 * c["curtor"])
    cmp("current scaling", d["Itor"], itor)
    xs = c["x"]
    for x, g, gd in zip(xs, one.values("torflux", xs), one.values("torfluxDeriv", xs)):
        cmp("torflux", g, torflux(a, x))
        cmp("torfluxDeriv", gd, torflux_d(a, x))
    return {"labels": ["threads%d" % nt, "flip" if c["flip"] else "noflip"]}


@st.composite
def names(draw):
    return {"name": draw(st.one_of(st.sampled_from(NAMES), st.text("abcdefghijklmnopqrstuvwxyz_ ", max_size=18))), "t": draw(st.integers(0, 2))}


def run_names(c):
    ctx = X.Ctx(json.dumps({"mpol": 3, "ntor": 0, "rbc": [{"m": 0, "n": 0, "value": 1.0}], "zbs": []}), 5, 1, -1, 0.05)
    ok = {0: PRES, 1: CURR + NOT_IMPLEMENTED, 2: IOTA}[c["t"]]
    want = NAMES.index(c["name"]) if c["name"] in ok else 0
    got = ctx.find(c["name"], c["t"])
    check(got == want, "profile name %r for kind %d resolves to %d, expected %d", c["name"], c["t"], got, want)
    return {"nontrivial": c["name"] in NAMES}


PROPS = [
    Prop("values", case, run_values, quick=1200, thorough=10000, shards=4, budget=60),
    Prop("arrays", case, run_arrays, quick=500, thorough=4000, shards=3, budget=60),
    Prop("names", names, run_names, quick=150, thorough=1000, budget=20),
]
