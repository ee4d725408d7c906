"""C23: free-boundary equilibria are consistent with the coils and follow changes of them."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from vp import repo, solve, vacref
from vp.harness import Prop, Skip, Violation, check

PROPERTY = "C23"
RULE = ("A case is a free-boundary problem: a tokamak (coils.solovev) or a stellarator (coils.cth_like) with generated coil currents, flux, pressure, rotational transform or current, resolution, thread count and vacuum-update interval, plus one relation. "
        "casing: by the virtual-casing principle the field that the equilibrium carries at its edge must imply exactly the field of the coils at points inside the plasma. Other relations: the final edge run as fixed boundary, threads, field and length scaling, reversal, "
        "restart, mgrid file instead of table, lasym, relabelled periods, other start, other update interval, coils displaced, mirrored or turned. Non-trivial: both runs converged.")
ASSUMPTIONS = ["asymmetric stellarators: converged runs only (others are skipped and counted); all other problems of these families have to converge", "the mgrid table encloses the plasma"]
V = None
COILS = {"tok": "solovev", "stel": "cth_like"}
BASE = {}


def setup():
    global V
    V, _ = repo.full(PROPERTY, [])
    for fam, name in COILS.items():
        td = repo.TEST_DATA
        par = V.MakegridParameters.from_file(os.path.join(td, "makegrid_parameters_%s.json" % name))
        inp = V.VmecInput.from_file(os.path.join(td, "%s_free_bdy.json" % name))
        BASE[fam] = (par, inp)


TABLES = {}


def table(fam, nphi):
    if (fam, nphi) not in TABLES:
        par = BASE[fam][0].model_copy(update=dict(number_of_r_grid_points=61, number_of_z_grid_points=61, number_of_phi_grid_points=nphi))
        if nphi % 2:
            par = par.model_copy(update=dict(assume_stellarator_symmetry=False))
        TABLES[fam, nphi] = V.MagneticFieldResponseTable.from_coils_file(os.path.join(repo.TEST_DATA, "coils." + COILS[fam]), par)
    return TABLES[fam, nphi]


RELS = ["casing", "casing", "casing", "fixed", "threads", "field", "length", "reverse", "restart", "file", "asym", "periods", "start", "skip", "shift", "mirror", "turn"]


@st.composite
def case(draw):
    fam = draw(st.sampled_from(["tok", "tok", "stel"]))
    f = lambda a, b: round(draw(st.floats(a, b)), 4)  # noqa: E731
    c = {"fam": fam, "ns": draw(st.integers(7, 16)), "lasym": draw(st.integers(0, 3)) == 0, "flux": f(0.85, 1.05), "pres": draw(st.sampled_from([0.0, 0.5, 1.0, 1.3])), "threads": draw(st.sampled_from([1, 1, 2, 3, 4])),
         "nvacskip": draw(st.integers(1, 9)), "ntheta": draw(st.sampled_from([0, 0, 20, 23, 28])), "rel": draw(st.sampled_from(RELS)), "k": draw(st.integers(1, 30)), "x": draw(st.sampled_from([2.0, 0.5, 3.0, 0.7])), "coil": [f(-0.01, 0.01) for _ in range(2)]}
    if fam == "tok":
        c.update(mpol=draw(st.integers(5, 9)), nfp=draw(st.sampled_from([1, 1, 2, 5])), current=draw(st.booleans()), iota=f(0.85, 1.1), nzeta=1)
    else:
        c.update(mpol=draw(st.integers(4, 5)), ntor=draw(st.integers(3, 4)), nzeta=draw(st.sampled_from([12, 14, 15, 18])), current=f(0.0, 1.1))
    return c


def build(c, **kw):
    """VmecInput and response table of a case."""
    fam = c["fam"]
    inp = BASE[fam][1].model_copy(deep=True)
    t = table(fam, c["nzeta"])
    mp, nt = c["mpol"], c.get("ntor", 0)
    d = inp.model_dump()
    out = {k: d[k] for k in ("aphi", "am", "ac", "ai", "pmass_type", "pcurr_type", "piota_type", "ncurr", "delt", "tcon0", "nstep", "gamma", "spres_ped", "bloat")}
    full = np.asarray(inp.rbc), np.asarray(inp.zbs)
    onm, ont = inp.mpol, inp.ntor
    la = c["lasym"]
    for name, x in zip(("rbc", "zbs"), full):
        y = np.zeros((mp, 2 * nt + 1))
        for m in range(min(mp, onm)):
            for n in range(-min(nt, ont), min(nt, ont) + 1):
                y[m, n + nt] = x[m, n + ont]
        out[name] = y
    out["raxis_c"] = np.pad(np.asarray(inp.raxis_c), (0, nt + 1))[:nt + 1]
    out["zaxis_s"] = np.pad(np.asarray(inp.zaxis_s), (0, nt + 1))[:nt + 1]
    if la:
        out["rbs"], out["zbc"] = np.zeros((mp, 2 * nt + 1)), np.zeros((mp, 2 * nt + 1))
        out["raxis_s"], out["zaxis_c"] = np.zeros(nt + 1), np.zeros(nt + 1)
    ext = np.array(inp.extcur, float)
    if fam == "tok":
        ext[1:] *= 1 + c["coil"][0]
        if c["current"]:
            out.update(ncurr=1, pcurr_type="power_series", ac=np.array([1.0, -1.0]), curtor=CURTOR * c["iota"])
        else:
            out["ai"] = np.array(inp.ai) * c["iota"]
    else:
        ext *= 1 + 3 * np.array(c["coil"])
        out["curtor"] = inp.curtor * c["current"]
    out.update(lasym=la, nfp=c.get("nfp", inp.nfp), mpol=mp, ntor=nt, ntheta=c["ntheta"], nzeta=c["nzeta"], ns_array=np.array([c["ns"]]), ftol_array=np.array([1e-12]), niter_array=np.array([4000]), phiedge=inp.phiedge * c["flux"],
               pres_scale=inp.pres_scale * c["pres"], lfreeb=True, mgrid_file="none", extcur=ext, nvacskip=c["nvacskip"])
    out.update(kw)
    return V.VmecInput(**out), t


CURTOR = -95227.0


def run(inp, t, threads=1, **kw):
    try:
        return V.run(inp, t, max_threads=threads, verbose=False, **kw)
    except RuntimeError as e:
        if inp.ntor and inp.lasym:
            raise Skip("not converged: %s" % str(e)[:60]) from None
        try:
            return V.run(inp.model_copy(update=dict(delt=0.4, niter_array=np.array([12000]))), t, max_threads=threads, verbose=False, **kw)
        except RuntimeError:
            raise Violation("a well-posed free-boundary problem was not solved: %s" % str(e)[:120]) from None


def edge_table(w, name, th, ze):
    c = np.asarray(getattr(w, name + "mnc"))
    c = 1.5 * c[:, -1] - 0.5 * c[:, -2]
    arg = np.asarray(w.xm_nyq)[:, None, None] * th[None, :, None] - (np.asarray(w.xn_nyq) / w.nfp)[:, None, None] * ze
    o = np.einsum("m,muv->uv", c, np.cos(arg))
    if w.lasym:
        s = np.asarray(getattr(w, name + "mns"))
        o = o + np.einsum("m,muv->uv", 1.5 * s[:, -1] - 0.5 * s[:, -2], np.sin(arg))
    return o


def shape(w, j=-1):
    co = {k: np.zeros((w.mpol, w.ntor + 1)) for k in vacref.KEYS}
    for i, (m, n) in enumerate(zip(np.asarray(w.xm, int), np.asarray(w.xn, int) // w.nfp)):
        a, sg = abs(n), np.sign(n)
        g = lambda nm: np.asarray(getattr(w, nm))[i, j]  # noqa: B023,E731
        co["rcc"][m, a] += g("rmnc")
        co["rss"][m, a] += sg * g("rmnc")
        co["zsc"][m, a] += g("zmns")
        co["zcs"][m, a] -= sg * g("zmns")
        if w.lasym:
            co["rsc"][m, a] += g("rmns")
            co["rcs"][m, a] -= sg * g("rmns")
            co["zcc"][m, a] += g("zmnc")
            co["zss"][m, a] += sg * g("zmnc")
    return co


def coil_field(t, cur, r, z, k):
    p = t.parameters
    dr = (p.r_grid_maximum - p.r_grid_minimum) / (p.number_of_r_grid_points - 1)
    dz = (p.z_grid_maximum - p.z_grid_minimum) / (p.number_of_z_grid_points - 1)
    x, y = (r - p.r_grid_minimum) / dr, (z - p.z_grid_minimum) / dz
    i, j = int(x), int(y)
    a, b = x - i, y - j
    o = []
    for q in (t.b_r, t.b_p, t.b_z):
        f = np.tensordot(cur, np.asarray(q), 1).reshape(p.number_of_phi_grid_points, p.number_of_z_grid_points, p.number_of_r_grid_points)[k]
        o.append(f[j, i] * (1 - a) * (1 - b) + f[j, i + 1] * a * (1 - b) + f[j + 1, i] * (1 - a) * b + f[j + 1, i + 1] * a * b)
    return o


def casing_error(w, inp, t):
    nz = 1 if w.ntor == 0 else 24
    th, ze = 2 * np.pi * np.arange(48) / 48, 2 * np.pi * np.arange(nz) / nz
    co = shape(w)
    (R, Ru, Rv), (Z, Zu, Zv) = vacref.surface(co, w.nfp, th, ze)
    bu, bv = edge_table(w, "bsupu", th, ze), edge_table(w, "bsupv", th, ze)
    B = [bu * Ru + bv * Rv, bv * R, bu * Zu + bv * Zv]
    ca, K = shape(w, 0), t.parameters.number_of_phi_grid_points
    pts, ext = [], []
    n = np.arange(w.ntor + 1)
    for k, a in ((0, 0.5), (K // 3, 2.0), (K // 2, 4.0)):
        v = 2 * np.pi * k / K
        r = ca["rcc"][0] @ np.cos(n * v) + ca["rcs"][0] @ np.sin(n * v) + 0.25 * w.Aminor_p * np.cos(a)
        z = ca["zcc"][0] @ np.cos(n * v) + ca["zcs"][0] @ np.sin(n * v) + 0.25 * w.Aminor_p * np.sin(a)
        pts.append((r, v / w.nfp, z))
        ext.append(coil_field(t, np.asarray(inp.extcur), r, z, k))
    b = vacref.casing(co, w.nfp, B, pts)
    e = np.abs(b + np.array(ext))
    pol = np.sqrt(np.mean(B[0] ** 2 + B[2] ** 2))
    return e[:, 1].max() / np.abs(B[1]).max(), e[:, [0, 2]].max() / pol


def same(a, b, tol, what, L=1.0, F=1.0, dz=0.0):
    """Geometry and field of run b equal those of run a (lengths times L, fields times F)."""
    m = a.Aminor_p * L
    for nm in ("rmnc", "zmns") + (("rmns", "zmnc") if a.lasym and b.lasym else ()):
        x, y = np.array(getattr(a, nm)) * L, np.array(getattr(b, nm))
        if nm == "zmnc":
            x[0] += dz
        d = np.abs(x - y).max() / m
        check(d <= tol, "%s: %s differs by %.3g of the minor radius", what, nm, d)
    for nm in ("bmnc",) + (("bmns",) if a.lasym and b.lasym else ()):
        x, y = np.array(getattr(a, nm)) * F, np.array(getattr(b, nm))
        d = np.abs(x[:, 1:] - y[:, 1:]).max() / np.abs(F * np.asarray(a.bmnc)[:, 1:]).max()
        check(d <= tol, "%s: %s differs by %.3g", what, nm, d)
    x, y = np.array(a.iotaf), np.array(b.iotaf)
    check(np.abs(x - y).max() <= 3 * tol, "%s: iota differs by %.3g", what, np.abs(x - y).max())


def moved(t, **kw):
    return t.model_copy(update=dict(parameters=t.parameters.model_copy(update=kw)))


def run_case(c):
    rel = c["rel"]
    tok = c["fam"] == "tok"
    if rel in ("shift", "mirror", "turn"):
        c = dict(c, lasym=True)
    if rel == "asym":
        c = dict(c, lasym=False)
    L = [c["fam"], rel, "asym" if c["lasym"] else "sym", "threads%d" % c["threads"]]
    if (rel == "periods" and not tok) or (rel == "turn" and tok):
        rel = "casing"
    inp, t = build(c)
    out = run(inp, t, c["threads"])
    w = out.wout
    n = {"labels": L, "nontrivial": True}
    tol = TOL
    if rel == "casing":
        et, ep = casing_error(w, inp, t)
        n["labels"].append("pol err<%g" % next(q for q in (1e-3, 3e-3, 1e-2, 3e-2, 1e9) if ep < q))
        check(et <= 0.01, "the edge field does not imply the toroidal field of the coils: error %.3g", et)
        check(ep <= POL[c["fam"]], "the edge field does not imply the poloidal field of the coils: error %.3g of the edge poloidal field", ep)
    elif rel == "fixed":
        kw = dict(lfreeb=False)
        co = {k: np.zeros((c["mpol"], 2 * w.ntor + 1)) for k in ("rbc", "zbs", "rbs", "zbc")}
        for i, (m, q) in enumerate(zip(np.asarray(w.xm, int), np.asarray(w.xn, int) // w.nfp)):
            for a, b in (("rbc", "rmnc"), ("zbs", "zmns")) + ((("rbs", "rmns"), ("zbc", "zmnc")) if w.lasym else ()):
                co[a][m, q + w.ntor] = np.asarray(getattr(w, b))[i, -1]
        kw.update({k: v for k, v in co.items() if c["lasym"] or k in ("rbc", "zbs")})
        i2 = inp.model_copy(update=kw)
        same(w, run(i2, None, c["threads"]).wout, 5 * tol, "the free-boundary result and the fixed-boundary run of its edge")
    elif rel == "threads":
        same(w, run(inp, t, 1 + c["k"] % 6).wout, tol, "%d threads" % (1 + c["k"] % 6))
    elif rel in ("field", "reverse"):
        x = -1.0 if rel == "reverse" else c["x"]
        i2 = inp.model_copy(update=dict(extcur=np.asarray(inp.extcur) * x, phiedge=inp.phiedge * x, curtor=inp.curtor * x, pres_scale=inp.pres_scale * x * x))
        same(w, run(i2, t, c["threads"]).wout, tol, "all currents and the flux times %g, pressure times %g" % (x, x * x), F=abs(x))
    elif rel == "length":
        x = c["x"]
        p = t.parameters
        t2 = moved(t, r_grid_minimum=p.r_grid_minimum * x, r_grid_maximum=p.r_grid_maximum * x, z_grid_minimum=p.z_grid_minimum * x, z_grid_maximum=p.z_grid_maximum * x)
        i2 = inp.model_copy(update=dict(phiedge=inp.phiedge * x * x, curtor=inp.curtor * x, **{k: np.asarray(getattr(inp, k)) * x for k in ("rbc", "zbs", "raxis_c", "zaxis_s") + (("rbs", "zbc", "raxis_s", "zaxis_c") if c["lasym"] else ())}))
        same(w, run(i2, t2, c["threads"]).wout, tol, "all lengths times %g" % x, L=x)
    elif rel == "restart":
        o2 = run(inp, t, c["threads"], restart_from=out)
        same(w, o2.wout, tol, "restarted from its own result")
    elif rel == "file":
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "mgrid.nc")
            write_mgrid(t, f, len(inp.extcur))
            i2 = inp.model_copy(update=dict(mgrid_file=f))
            o2 = run(i2, None, c["threads"])
        same(w, o2.wout, 1e-12 if c["threads"] == 1 else tol, "mgrid file instead of the table in memory")
    elif rel == "asym":
        i2, _ = build(dict(c, lasym=True))
        w2 = run(i2, t, c["threads"]).wout
        same(w, w2, tol, "the symmetric plasma described with lasym")
        check(max(np.abs(w2.rmns).max(), np.abs(w2.zmnc).max()) <= tol * w.Aminor_p, "a symmetric plasma got asymmetric coefficients with lasym")
    elif rel == "periods":
        k = 1 + c["k"] % 5
        w2 = run(inp.model_copy(update=dict(nfp=k)), t, c["threads"]).wout
        same(w, w2, tol, "the tokamak described with %d periods" % k)
    elif rel == "start":
        x = 1 + 0.02 * np.sin(c["k"])
        i2 = inp.model_copy(update=dict(rbc=np.asarray(inp.rbc) * np.where(np.arange(c["mpol"]) == 0, 1, x)[:, None], zbs=np.asarray(inp.zbs) * np.where(np.arange(c["mpol"]) == 0, 1, x)[:, None]))
        same(w, run(i2, t, c["threads"]).wout, 10 * tol if w.lasym else tol, "another initial boundary")  # the origin of theta moves with little force
    elif rel == "skip":
        same(w, run(inp.model_copy(update=dict(nvacskip=1 + c["k"] % 7)), t, c["threads"]).wout, tol, "another interval of full vacuum updates")
    elif rel == "shift":
        dz = w.Aminor_p * 0.3 * np.sin(c["k"])
        p = t.parameters
        t2 = moved(t, z_grid_minimum=p.z_grid_minimum + dz, z_grid_maximum=p.z_grid_maximum + dz)
        nt = w.ntor
        zbc, zax = np.array(inp.zbc), np.array(inp.zaxis_c)
        zbc[0, nt] += dz
        zax[0] += dz
        same(w, run(inp.model_copy(update=dict(zbc=zbc, zaxis_c=zax)), t2, c["threads"]).wout, tol, "coils and plasma displaced vertically", dz=dz)
    elif rel == "mirror":  # z -> -z with theta -> -theta; pseudovector field; with asymmetric start
        p = t.parameters
        K, nz_, nr = p.number_of_phi_grid_points, p.number_of_z_grid_points, p.number_of_r_grid_points
        fl = lambda q, s: s * np.asarray(q).reshape(-1, K, nz_, nr)[:, :, ::-1].reshape(len(q), -1)  # noqa: E731
        t2 = t.model_copy(update=dict(b_r=fl(t.b_r, -1), b_p=fl(t.b_p, -1), b_z=fl(t.b_z, 1), parameters=p.model_copy(update=dict(z_grid_minimum=-p.z_grid_maximum, z_grid_maximum=-p.z_grid_minimum))))
        r, z = np.asarray(inp.rbc), np.asarray(inp.zbs)
        i2 = inp.model_copy(update=dict(rbc=r[:, ::-1], zbs=z[:, ::-1], zaxis_s=-np.asarray(inp.zaxis_s), phiedge=-inp.phiedge, ai=-np.asarray(inp.ai)))
        w2 = run(i2, t2, c["threads"]).wout
        for s in ("Aminor_p", "Rmajor_p", "volume_p", "wb"):
            a, b = getattr(w, s), getattr(w2, s)
            check(abs(a - b) <= tol * abs(a), "mirrored coils: %s %.10g became %.10g", s, a, b)
        check(np.abs(np.asarray(w.iotaf) + np.asarray(w2.iotaf)).max() <= 3 * tol, "mirrored coils: iota did not change sign")
    elif rel == "turn":  # origin of the toroidal angle moved by k planes
        p = t.parameters
        K = p.number_of_phi_grid_points
        k = c["k"] % K
        rl = lambda q: np.roll(np.asarray(q).reshape(len(q), K, -1), -k, axis=1).reshape(len(q), -1)  # noqa: E731
        t2 = t.model_copy(update=dict(b_r=rl(t.b_r), b_p=rl(t.b_p), b_z=rl(t.b_z)))
        al = 2 * np.pi * k / K  # v -> v + al ; cos(mu - n(v+al)) = cos(mu-nv)cos(n al) + sin(mu-nv) sin(n al)
        nn = np.arange(-w.ntor, w.ntor + 1)
        cn, sn = np.cos(nn * al), np.sin(nn * al)
        r, z = np.asarray(inp.rbc), np.asarray(inp.zbs)
        n0 = np.arange(w.ntor + 1)
        ra, za = np.asarray(inp.raxis_c), np.asarray(inp.zaxis_s)
        # axis conventions: raxis_c cos(n v) + raxis_s sin(-n v) as for m = 0 modes
        i2 = inp.model_copy(update=dict(rbc=r * cn, rbs=r * sn, zbs=z * cn, zbc=-z * sn, raxis_c=ra * np.cos(n0 * al), raxis_s=ra * np.sin(n0 * al), zaxis_s=za * np.cos(n0 * al), zaxis_c=-za * np.sin(n0 * al)))
        w2 = run(i2, t2, c["threads"]).wout
        for s in ("Aminor_p", "Rmajor_p", "volume_p", "wb"):
            a, b = getattr(w, s), getattr(w2, s)
            check(abs(a - b) <= tol * abs(a), "origin of the toroidal angle moved by %d planes: %s %.10g became %.10g", k, s, a, b)
        check(np.abs(np.asarray(w.iotaf) - np.asarray(w2.iotaf)).max() <= 3 * tol, "origin of the toroidal angle moved: iota changed")
    return n


def write_mgrid(t, f, n):
    import netCDF4
    p = t.parameters
    K, nz_, nr = p.number_of_phi_grid_points, p.number_of_z_grid_points, p.number_of_r_grid_points
    with netCDF4.Dataset(f, "w", format="NETCDF3_CLASSIC") as d:
        for a, b in (("phi", K), ("zee", nz_), ("rad", nr), ("dim_00001", 1), ("stringsize", 30), ("external_coil_groups", n), ("external_coils", n)):
            d.createDimension(a, b)
        for a, b in (("ir", nr), ("jz", nz_), ("kp", K), ("nfp", p.number_of_field_periods), ("nextcur", n)):
            d.createVariable(a, "i4")[...] = b
        for a, b in (("rmin", p.r_grid_minimum), ("rmax", p.r_grid_maximum), ("zmin", p.z_grid_minimum), ("zmax", p.z_grid_maximum)):
            d.createVariable(a, "f8")[...] = b
        v = d.createVariable("coil_group", "S1", ("external_coil_groups", "stringsize"))
        v[:] = np.array([list("coil%02d" % i + " " * 24) for i in range(n)], "S1")
        v = d.createVariable("mgrid_mode", "S1", ("dim_00001",))
        v[:] = np.array(["R"], "S1")
        v = d.createVariable("raw_coil_cur", "f8", ("external_coils",))
        v[:] = np.ones(n)
        for i in range(n):
            for a, q in (("br", t.b_r), ("bp", t.b_p), ("bz", t.b_z)):
                d.createVariable("%s_%03d" % (a, i + 1), "f8", ("phi", "zee", "rad"))[:] = np.asarray(q)[i].reshape(K, nz_, nr)


TOL = 1e-3
POL = {"tok": 0.04, "stel": 0.04}
PROPS = [Prop("run", case, run_case, quick=120, thorough=3000, shards=4, budget=70, thorough_budget=700, timeout=120)]
