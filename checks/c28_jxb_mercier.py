"""C28: current density, force balance (jxbout) and Mercier tables follow from the equilibrium fields."""
import numpy as np
from hypothesis import strategies as st

from vp import eqref, repo, solve
from vp.harness import Prop, check

PROPERTY = "C28"
RULE = "the converged equilibrium is asymmetric, three-dimensional or has finite pressure"
ASSUMPTIONS = "Random sampling of converged fixed-boundary equilibria with ns <= 13, mpol <= 6, ntor <= 3; problems that do not converge are skipped and counted. Quantities that are differences of nearly equal numbers are compared relative to the size of those numbers."
V = None


def setup():
    global V
    V, _ = repo.full(PROPERTY, [])


def case():
    return st.tuples(solve.problem(), st.sampled_from([1, 1, 2, 3])).map(lambda t: dict(t[0], threads=t[1]))


def scales(E, q):
    """Cancellation scales of the jxbout quantities."""
    w, ds, mu = E.w, E.ds, eqref.MU0
    vp = np.asarray(w.vp)[1:]
    ovp = 1 / vp.min() / (4 * np.pi**2)
    bu, bv, bs = np.sqrt(E.guu.max() * E.b2.max()), np.sqrt(E.gvv.max() * E.b2.max()), np.abs(E.bsubs).max()
    m, n = w.mpol, max(1, w.ntor) * w.nfp
    it, iz = (bv / ds + n * bs) / mu, (bu / ds + m * bs) / mu
    sup = np.abs(E.bsupv).max() + np.abs(E.bsupu).max()
    jx = ovp * (it + iz) * sup
    bk = it * bu + iz * bv
    pn = np.abs(np.diff(np.asarray(w.pres)[1:])).min() / ds * ovp + np.finfo(float).eps
    return {"itheta": it, "izeta": iz, "bdotk": bk, "jcrossb": jx, "jxb_gradp": jx, "avforce": jx, "jdotb": bk * ovp * 4 * np.pi**2, "jpar2": bk**2 * ovp * 4 * np.pi**2 / np.abs(E.g * E.b2).min(),
            "amaxfor": 100 * jx / pn, "aminfor": 100 * jx / pn, "jsupu3": ovp * it, "jsupv3": ovp * iz, "jdotb_sqrtg": ovp * bk, "jsups3": ovp * (n * bu + m * bv) / mu, "bsubu3": bu, "bsubs3": bs,
            "bsupu3": sup, "jperp2": (np.abs(np.diff(np.asarray(w.pres)[1:])).max() / ds)**2 * 4 * np.pi**2 * ovp / E.b2.min() / np.abs(E.g).min() * 0 + np.abs(q["jperp2"]).max(),
            "pprim": np.abs(np.asarray(w.pres)).max() / ds * ovp}


def run(c):
    d = dict(c)
    th = d.pop("threads")
    inp, o = solve.converged(V, d, th)
    E = eqref.Eq(o.wout, d.get("ntheta", 0), d.get("nzeta", 0))
    q = E.jxb()
    sc = scales(E, q)
    for k, v in q.items():
        got = getattr(o.jxbout, k)
        loose = k in ("jdotb", "bdotb", "bdotgradv", "pprim", "izeta") and True
        solve.close("jxbout." + k, got, E.grid(v) if v.ndim == 3 else v, tol=1e-10 if k in sc and not loose else 1e-8, scale=sc.get(k))
    w = o.wout
    bu = np.sqrt(E.guu.max() * E.b2.max())
    m = E.mercier()
    pf = np.abs(E.phips).min() * 2 * np.pi
    ms = dict(E.mscale)
    tc = 2 * np.pi * bu
    vr = 4 * np.pi**2 * np.abs(np.asarray(w.vp)[1:]).max() / pf
    ms.update(toroidal_current=tc, d_toroidal_current_d_s=tc / (pf * E.ds) / vr, shear=np.abs(w.iotas).max() / (pf * E.ds) / vr, well=vr / (pf * E.ds), d_pressure_d_s=np.abs(w.pres).max() * eqref.MU0 / (pf * E.ds) / vr)
    for k, v in m.items():
        s = ms.get(k)
        tol = 1e-8
        if k in ("Dcurr", "Dgeod", "DMerc"):
            s = sum(np.abs(ms[x]).max() for x in ("Dcurr", "Dgeod", "Dwell")) + np.abs(m["Dshear"]).max()
            tol = 1e-7
        solve.close("mercier." + k, getattr(o.mercier, k), v, tol=tol, scale=s)
    check(np.all(np.asarray(o.mercier.Dshear) >= 0), "Dshear is negative")
    return {"labels": solve.labels(d) + ["threads%d" % th], "nontrivial": solve.nontrivial(d)}


PROPS = [
    Prop("tables", case, run, quick=320, thorough=5000, isolate=True, shards=6, budget=90, thorough_budget=700, timeout=120),
]
