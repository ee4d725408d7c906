"""C29: global quantities and the threed1 tables follow from the equilibrium."""
import numpy as np
from hypothesis import strategies as st

from vp import eqref, repo, solve
from vp.harness import Prop, check

PROPERTY = "C29"
RULE = "the converged equilibrium is asymmetric, three-dimensional or has finite pressure"
ASSUMPTIONS = "Random sampling of converged fixed-boundary equilibria with ns <= 13, mpol <= 6, ntor <= 3; problems that do not converge are skipped and counted. height and the shape profiles (ygeo, yinden, yellip, ytrian, yshift) are compared for symmetric runs with both symmetry planes on the grid. Spectral widths are compared to 5 %."
V = None


def setup():
    global V
    V, _ = repo.full(PROPERTY, [])


def case():
    return st.tuples(solve.problem(), st.sampled_from([1, 1, 2, 3])).map(lambda t: dict(t[0], threads=t[1]))


def run(c):
    d = dict(c)
    th = d.pop("threads")
    inp, o = solve.converged(V, d, th)
    w = o.wout
    E = eqref.Eq(w, d.get("ntheta", 0), d.get("nzeta", 0))
    _, t, sc = E.profiles()
    ft = o.threed1_first_table
    for k, v in t.items():
        solve.close("first_table." + k, getattr(ft, k), v, tol=5e-2 if k == "spectral_width" else 1e-8, scale=sc.get(k))
    check(np.array_equal(ft.j_dot_b, o.jxbout.jdotb) and np.array_equal(ft.b_dot_b, o.jxbout.bdotb), "<J.B>, <B.B> differ between the outputs")
    g = o.threed1_geometric_magnetic
    parts = E.threed1(o.jxbout, inp.curtor)
    for (q, s), ob, n in zip(parts, (g, o.threed1_volumetrics, o.threed1_betas, o.threed1_shafranov_integrals), ("geometric", "volumetrics", "betas", "shafranov")):
        for k, v in q.items():
            solve.close(n + "." + k, getattr(ob, k), v, scale=s.get(k))
    q = parts[0][0]
    be = parts[2][0]
    for a, b in (("rmax_surf", "rmax_surf"), ("rmin_surf", "rmin_surf"), ("zmax_surf", "zmax_surf"), ("aspect", "aspect"), ("betapol", "betapol"), ("betator", "betator"), ("betatotal", "betatot"),
                 ("b0", "b0"), ("rbtor", "rbtor"), ("rbtor0", "rbtor0"), ("IonLarmor", "IonLarmor"), ("volavgB", "VolAvgB"), ("ctor", "toroidal_current"), ("Aminor_p", "Aminor_p"), ("Rmajor_p", "Rmajor_p"), ("volume", "volume_p")):
        check(float(getattr(w, a)) == float(getattr(g, b)), "wout.%s is %r, threed1 says %r", a, getattr(w, a), getattr(g, b))
    solve.close("betaxis", w.betaxis, be["betaxis"], scale=parts[2][1]["betaxis"])
    # independent geometric facts
    solve.close("volume from dV/ds", g.volume_p, 4 * np.pi**2 * E.ds * E.vp.sum(), tol=0.2)
    ax = o.threed1_axis
    for n, tname in (("raxis_symm", "raxis_cc"), ("zaxis_symm", "zaxis_cs")) + ((("raxis_asym", "raxis_cs"), ("zaxis_asym", "zaxis_cc")) if d["lasym"] else ()):
        check(np.array_equal(getattr(ax, n), getattr(w, tname)[:d["ntor"] + 1]), "axis table %s differs from wout", n)
    return {"labels": solve.labels(d) + ["threads%d" % th], "nontrivial": solve.nontrivial(d)}


PROPS = [
    Prop("tables", case, run, quick=320, thorough=5000, isolate=True, shards=6, budget=90, thorough_budget=700, timeout=120),
]
