"""C17: the tables and profiles of wout belong to the geometry, lambda and flux profiles it contains."""
import numpy as np
from hypothesis import strategies as st

from vp import eqref, repo, solve
from vp.harness import Prop, check

PROPERTY = "C17"
RULE = "the converged equilibrium is asymmetric, three-dimensional or has finite pressure"
ASSUMPTIONS = "Random sampling of converged fixed-boundary equilibria with ns <= 13 (25 thorough), mpol <= 6, ntor <= 3; a problem the solver rejects or does not converge is skipped and counted. wout.specw is compared to 5 % because it belongs to the last stored backup state."
V = None


def setup():
    global V
    V, _ = repo.full(PROPERTY, [])


def case():
    return st.tuples(solve.problem(), st.sampled_from([1, 1, 2, 3])).map(lambda t: dict(t[0], threads=t[1]))


def split(c):
    d = dict(c)
    return d, d.pop("threads")


def run_fields(c):
    d, th = split(c)
    inp, o = solve.converged(V, d, th)
    w = o.wout
    la = d["lasym"]
    E = eqref.Eq(w, d.get("ntheta", 0), d.get("nzeta", 0))
    H = lambda n: getattr(w, n)[:, 1:] if getattr(w, n) is not None else None  # noqa: E731
    rec = lambda c_, s_: E.nyq(H(c_), H(s_) if la else None)  # noqa: E731
    close = solve.close
    mb = np.sqrt(np.abs(E.b2))
    close("sqrt(g)", rec("gmnc", "gmns"), E.g)
    close("B^u", rec("bsupumnc", "bsupumns"), E.bsupu, scale=mb.max() / np.sqrt(E.guu.max()))
    close("B^v", rec("bsupvmnc", "bsupvmns"), E.bsupv)
    close("|B|", rec("bmnc", "bmns"), mb)
    su, sv = np.sqrt(E.guu.max()) * mb.max(), np.sqrt(E.gvv.max()) * mb.max()
    close("B_u", rec("bsubumnc", "bsubumns"), E.lowpass(E.bsubu), scale=su)
    close("B_v", rec("bsubvmnc", "bsubvmns"), E.lowpass(E.bsubv), scale=sv)
    close("B_s", E.nyq(H("bsubsmnc") if la else None, H("bsubsmns")), E.bsubs, scale=np.abs(E.bsubs).max() + 1e-3 * sv)
    for n in ("gmnc", "bmnc", "bsupumnc", "bsupvmnc", "bsubumnc", "bsubvmnc"):
        check(np.all(getattr(w, n)[:, 0] == 0), "%s has values at the unused first half-grid point", n)
    x = w.bsubsmns
    close("bsubsmns on the axis", x[:, 0], 2 * x[:, 1] - x[:, 2], scale=np.abs(x).max())
    for n in ("lmns",) + (("lmnc",) if la else ()):
        close(n, getattr(w, n), E.half_lambda(getattr(w, n + "_full")), scale=1e-6)
    js = sv / E.ds / eqref.MU0
    for sgn, (bs, bu, bv, ju, jv) in ((-1, ("bsubsmns", "bsubumnc", "bsubvmnc", "currumnc", "currvmnc")), (1, ("bsubsmnc", "bsubumns", "bsubvmns", "currumns", "currvmns"))):
        if sgn == 1 and not la:
            continue
        a, b = E.currents(getattr(w, bs), getattr(w, bu), getattr(w, bv), sgn)
        close(ju, getattr(w, ju), a, scale=js)
        close(jv, getattr(w, jv), b, scale=su / E.ds / eqref.MU0)
    if not la:
        for n in ("rmns", "zmnc", "lmnc", "lmnc_full", "gmns", "bmns", "bsubumns", "bsubvmns", "bsubsmnc", "bsupumns", "bsupvmns", "currumns", "currvmns"):
            v = getattr(w, n)
            check(v is None or np.size(v) == 0 or not np.any(v), "%s is set in a symmetric run", n)
    # mode numbers
    mp, nt, nf = d["mpol"], d["ntor"], d["nfp"]
    want = [(0, n * nf) for n in range(nt + 1)] + [(m, n * nf) for m in range(1, mp) for n in range(-nt, nt + 1)]
    check([(int(a), int(b)) for a, b in zip(w.xm, w.xn)] == want, "mode numbers xm, xn")
    my, ny = E.nt // 2, (E.nz // 2 if nt else 0)
    want = [(0, n * nf) for n in range(ny + 1)] + [(m, n * nf) for m in range(1, my + 1) for n in range(-ny, ny + 1)]
    check([(int(a), int(b)) for a, b in zip(w.xm_nyq, w.xn_nyq)] == want, "mode numbers xm_nyq, xn_nyq")
    check(w.mnmax == len(w.xm) and w.mnmax_nyq == len(w.xm_nyq), "mnmax, mnmax_nyq")
    for n, t in (("raxis_cc", w.rmnc), ("zaxis_cs", w.zmns)) + ((("raxis_cs", w.rmns), ("zaxis_cc", w.zmnc)) if la else ()):
        close(n, getattr(w, n)[:nt + 1], t[:nt + 1, 0], tol=1e-12)
    return {"labels": solve.labels(d) + ["threads%d" % th], "nontrivial": solve.nontrivial(d)}


def run_profiles(c):
    d, th = split(c)
    inp, o = solve.converged(V, d, th)
    w = o.wout
    E = eqref.Eq(w, d.get("ntheta", 0), d.get("nzeta", 0))
    p, _, sc = E.profiles()
    for k, v in p.items():
        solve.close(k, getattr(w, k), v, tol=5e-2 if k == "specw" else 1e-8, scale=sc.get(k))
    q = np.asarray(w.q_factor)
    it = np.asarray(w.iotaf)
    solve.close("q_factor", q[it != 0] * it[it != 0], np.ones((it != 0).sum()))
    b2 = E.mean(np.abs(E.g) * E.b2 / 2).sum() * E.ds
    solve.close("wb", w.wb, b2)
    pr = np.asarray(w.pres)[1:] * eqref.MU0
    solve.close("wp", w.wp, E.ds * (E.vp * pr).sum() / (w.gamma - 1) * (w.gamma - 1), scale=1e-12 * b2)
    # mass = p * vp^gamma
    solve.close("mass", np.asarray(w.mass)[1:], np.asarray(w.pres)[1:] * np.abs(E.vp)**w.gamma, tol=1e-7)
    ml = o.mercier
    for a, b in (("DMerc", ml.DMerc), ("DShear", ml.Dshear), ("DWell", ml.Dwell), ("DCurr", ml.Dcurr), ("DGeod", ml.Dgeod), ("jdotb", o.jxbout.jdotb), ("bdotb", o.jxbout.bdotb), ("bdotgradv", o.jxbout.bdotgradv)):
        check(np.array_equal(getattr(w, a), b), "%s differs between the outputs", a)
    return {"labels": solve.labels(d) + ["threads%d" % th], "nontrivial": solve.nontrivial(d)}


PROPS = [
    Prop("fields", case, run_fields, quick=260, thorough=4000, isolate=True, shards=4, budget=70, thorough_budget=700, timeout=120),
    Prop("profiles", case, run_profiles, quick=200, thorough=3000, isolate=True, shards=4, budget=50, thorough_budget=600, timeout=120),
]
