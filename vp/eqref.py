"""Independent recomputation (numpy, direct Fourier sums) of everything VMEC derives from R, Z, lambda and the flux/iota/pressure profiles.

All quantities live on the full poloidal grid of nThetaEven x nZeta points. Half-grid arrays have ns-1 rows, full-grid arrays ns rows.
"""
import numpy as np

MU0 = 4e-7 * np.pi


class Eq:
    def __init__(self, w, ntheta, nzeta):
        """w: VmecWOut-like object."""
        self.w = w
        ns, mpol, ntor, nfp = int(w.ns), int(w.mpol), int(w.ntor), int(w.nfp)
        self.ns, self.nfp = ns, nfp
        nt = 2 * (max(ntheta, 2 * mpol + 6) // 2)
        nz = 1 if ntor == 0 else max(nzeta, 2 * ntor + 4)
        self.nt, self.nz = nt, nz
        u = 2 * np.pi * np.arange(nt) / nt
        v = 2 * np.pi * np.arange(nz) / nz  # nfp * zeta
        self.u, self.v = u, v
        s = np.linspace(0, 1, ns)
        sh = (np.arange(ns - 1) + 0.5) / (ns - 1)
        self.s, self.sh, self.ds = s, sh, 1.0 / (ns - 1)
        sq, sqh = np.sqrt(s), np.sqrt(sh)
        self.sq, self.sqh = sq, sqh
        xm, xn = np.asarray(w.xm, int), np.asarray(w.xn, int)
        la = bool(w.lasym)
        arg = xm[:, None, None] * u[None, :, None] - (xn // nfp)[:, None, None] * v[None, None, :]
        C, S = np.cos(arg), np.sin(arg)
        phipf = np.asarray(w.phipf) / (2 * np.pi) * w.signgs  # internal phi'
        self.phipf = phipf
        even, odd = xm % 2 == 0, xm % 2 == 1

        def co(a):
            return None if a is None else np.asarray(a, float)

        def split(c, sn, lam=False):
            """even / odd real-space fields and their derivatives of sum c cos + sn sin, the odd part divided by sqrt(s)."""
            out = {}
            for par, sel in (("e", even), ("o", odd)):
                r = {}
                f = np.ones(ns) if par == "e" else np.concatenate([[1.0], 1 / sq[1:]])
                tot = {"": 0.0, "u": 0.0, "v": 0.0}
                for a, F, dF in ((c, C, -S), (sn, S, C)):
                    if a is None:
                        continue
                    b = a[sel] * f
                    m, n = xm[sel], xn[sel]
                    # regularised values on the axis
                    b[m > 1, 0] = 0
                    b[m == 1, 0] = b[m == 1, 1]
                    if lam:
                        b[m == 0, 0] = b[m == 0, 1]
                    k = "mj,muv->juv"
                    tot[""] = tot[""] + np.einsum(k, b, F[sel])
                    tot["u"] = tot["u"] + np.einsum(k, b * m[:, None], dF[sel])
                    tot["v"] = tot["v"] - np.einsum(k, b * n[:, None], dF[sel])
                r.update(tot)
                out[par] = r
            return out
        R = split(co(w.rmnc), co(w.rmns) if la else None)
        Z = split(co(w.lmnc_full) * 0 if False else (co(w.zmnc) if la else None), co(w.zmns))
        lf = co(w.lmns_full) * phipf
        L = split(co(w.lmnc_full) * phipf if la else None, lf, lam=True)
        self.R, self.Z, self.L = R, Z, L
        sq3 = sqh[:, None, None]
        self.sq3 = sq3
        h = self.half
        self.r12, self.ru12, self.zu12 = h(R, ""), h(R, "u"), h(Z, "u")
        self.rv12, self.zv12 = h(R, "v"), h(Z, "v")
        # at constant sqrt(s) weight
        dd = lambda q: (np.diff(q["e"][""], axis=0) + sq3 * np.diff(q["o"][""], axis=0)) / self.ds  # noqa: E731
        self.rs0, self.zs0 = dd(R), dd(Z)
        i, o = slice(None, -1), slice(1, None)
        t2 = 0.0
        for k in (i, o):
            ruo, rue, zuo, zue, ro, zo = R["o"]["u"][k], R["e"]["u"][k], Z["o"]["u"][k], Z["e"]["u"][k], R["o"][""][k], Z["o"][""][k]
            t2 = t2 + ruo * zo - zuo * ro + (rue * zo - zue * ro) / sq3
        self.tau = self.ru12 * self.zs0 - self.rs0 * self.zu12 + 0.25 * t2
        self.g = self.tau * self.r12
        s3 = s[:, None, None]

        def met(a, b):
            ev = od = 0.0
            for x, y, d1, d2 in [(R, R, a, b), (Z, Z, a, b)]:
                ev = ev + x["e"][d1] * y["e"][d2] + s3 * x["o"][d1] * y["o"][d2]
                od = od + x["e"][d1] * y["o"][d2] + x["o"][d1] * y["e"][d2]
            return 0.5 * (ev[i] + ev[o]) + 0.5 * sq3 * (od[i] + od[o])
        self.guu, self.guv = met("u", "u"), met("u", "v")
        rr = R["e"][""]**2 + s3 * R["o"][""]**2
        ro = 2 * R["e"][""] * R["o"][""]
        self.gvv = met("v", "v") + 0.5 * (rr[i] + rr[o]) + 0.5 * sq3 * (ro[i] + ro[o])
        # contravariant field: sqrt(g) B^v = phi' + d lambda/du, sqrt(g) B^u = chi' - d lambda/dv
        phips = np.asarray(w.phips)[1:]
        self.phips = phips
        iotas = np.asarray(w.iotas)[1:]
        self.chips = iotas * phips
        self.lue, self.luo, self.lv = L["e"]["u"] + phipf[:, None, None], L["o"]["u"], h(L, "v")
        fv = 0.5 * (self.lue[i] + self.lue[o]) + 0.5 * sq3 * (self.luo[i] + self.luo[o])
        self.bsupv = fv / self.g
        self.bsupu = (self.chips[:, None, None] - self.lv) / self.g
        self.bsubu = self.guu * self.bsupu + self.guv * self.bsupv
        self.bsubv0 = self.guv * self.bsupu + self.gvv * self.bsupv
        self.b2 = self.bsupu * self.bsubu + self.bsupv * self.bsubv0
        mean = lambda a: a.mean(axis=(1, 2))  # noqa: E731
        self.mean = mean
        self.buco, self.bvco = mean(self.bsubu), mean(self.bsubv0)
        self.vp = w.signgs * mean(self.g)
        # blended B_v on the full grid, then propagated inwards to the half grid
        gv = self.gvv / self.g
        A = lambda a: 0.5 * (a[i] + a[o])  # noqa: E731
        alt = np.zeros((ns,) + gv.shape[1:])
        bl = (2 * 0.05 * (1 - s))[1:-1, None, None]
        alt = A(gv) * self.lue[1:-1] + A(gv * sq3) * self.luo[1:-1] + A(self.guv * self.bsupu)
        full = (1 - bl) * A(self.bsubv0) + bl * alt
        bv = self.bsubv0.copy()
        for j in range(ns - 3, -1, -1):
            bv[j] = 2 * full[j] - bv[j + 1]
        self.bsubv = bv - (mean(bv) - self.bvco)[:, None, None]
        ro12 = 0.5 * (R["o"][""][i] + R["o"][""][o])
        zo12 = 0.5 * (Z["o"][""][i] + Z["o"][""][o])
        self.rs12, self.zs12 = self.rs0 + ro12 / (2 * sq3), self.zs0 + zo12 / (2 * sq3)
        self.gsu = self.rs12 * self.ru12 + self.zs12 * self.zu12
        self.gsv = self.rs12 * self.rv12 + self.zs12 * self.zv12
        self.bsubs = self.bsupu * self.gsu + self.bsupv * self.gsv

    def half(self, q, d):
        i, o = slice(None, -1), slice(1, None)
        return 0.5 * (q["e"][d][i] + q["e"][d][o] + self.sq3 * (q["o"][d][i] + q["o"][d][o]))

    def full(self, q, d):
        return q["e"][d] + self.sq[:, None, None] * q["o"][d]

    def nyq(self, c, s=None):
        """Real-space fields of Nyquist Fourier tables (rows = modes, columns = surfaces)."""
        w = self.w
        xm, xn = np.asarray(w.xm_nyq, int), np.asarray(w.xn_nyq, int) // self.nfp
        arg = xm[:, None, None] * self.u[None, :, None] - xn[:, None, None] * self.v[None, None, :]
        out = 0.0
        if c is not None:
            out = out + np.einsum("mj,muv->juv", np.asarray(c), np.cos(arg))
        if s is not None:
            out = out + np.einsum("mj,muv->juv", np.asarray(s), np.sin(arg))
        return out

    # ---- quantities derived from the field ------------------------------------------------------------------------------

    def lowpass(self, f, du=0, dv=0):
        """Keep |m| < mpol, |n| <= ntor of a real field (juv); optionally differentiate (toroidal angle: physical, so n * nfp)."""
        F = np.fft.fft2(f, axes=(1, 2))
        m = np.fft.fftfreq(self.nt, 1.0 / self.nt)
        n = np.fft.fftfreq(self.nz, 1.0 / self.nz)
        keep = (np.abs(m) < self.w.mpol)[:, None] & (np.abs(n) <= self.w.ntor)[None, :]
        F = F * keep * (1j * m[:, None])**du * (1j * n[None, :] * self.nfp)**dv
        return np.fft.ifft2(F, axes=(1, 2)).real

    @staticmethod
    def ends(x):
        """Linear extrapolation of the interior values to both ends."""
        x = x.copy()
        x[0] = 2 * x[1] - x[2]
        x[-1] = 2 * x[-2] - x[-3]
        return x

    def pad(self, interior):
        out = np.zeros((self.ns,) + interior.shape[1:])
        out[1:-1] = interior
        return out

    def grid(self, f):
        """(juv) -> the point order of jxbout: toroidal slow, poloidal fast, reduced poloidal range when symmetric."""
        n = self.nt if self.w.lasym else self.nt // 2 + 1
        return np.swapaxes(f[:, :n], 1, 2).reshape(f.shape[0], -1)

    def jxb(self):
        w, mean, ds = self.w, self.mean, self.ds
        i, o = slice(None, -1), slice(1, None)
        A = lambda a: 0.5 * (a[i] + a[o])  # noqa: E731
        D = lambda a: (a[o] - a[i]) / ds  # noqa: E731
        c = lambda a: a[:, None, None]  # noqa: E731
        bu, bv = self.lowpass(self.bsubu), self.lowpass(self.bsubv)
        q = {}
        bs = np.zeros((self.ns,) + bu.shape[1:])
        bs[1:-1] = A(self.bsubs)
        sg = w.signgs
        vp, p = np.asarray(w.vp)[1:], np.asarray(w.pres)[1:]
        ovp = 1 / A(vp) / (4 * np.pi**2)
        it = (self.lowpass(bs[1:-1], dv=1) - D(bv)) / MU0
        iz = (-self.lowpass(bs[1:-1], du=1) + D(bu)) / MU0
        g = A(self.g)
        bsu, bsv = A(self.bsupu * self.g) / g, A(self.bsupv * self.g) / g
        pp = D(p)
        jx = c(ovp) * (it * bsv - iz * bsu)
        bk = it * A(bu) + iz * A(bv)
        sqgb2 = A(self.g * self.b2)
        res = jx - c(pp * ovp)
        q["itheta"], q["izeta"], q["bdotk"] = self.pad(it), self.ends(self.pad(iz)), self.pad(bk)
        pn = 1 / (np.abs(pp * ovp) + np.finfo(float).eps)
        n = self.nt if w.lasym else self.nt // 2 + 1
        q["amaxfor"] = self.pad(100 * np.minimum(res[:, :n].max(axis=(1, 2)) * pn, 9.999))
        q["aminfor"] = self.pad(100 * np.maximum(res[:, :n].min(axis=(1, 2)) * pn, -9.999))
        q["avforce"] = self.pad(mean(res))
        q["pprim"] = self.ends(self.pad(pp * ovp))
        tj = ovp * sg * 4 * np.pi**2
        q["jdotb"], q["bdotb"] = self.ends(self.pad(tj * mean(bk))), self.ends(self.pad(tj * mean(sqgb2)))
        q["bdotgradv"] = self.ends(self.pad(tj * A(self.phips)))
        q["jpar2"] = self.pad(tj * mean(bk**2 / sqgb2))
        ku, kv = A(bv) * c(pp) / sqgb2, A(bu) * c(pp) / sqgb2
        k2 = ku**2 * A(self.guu) + 2 * ku * kv * A(self.guv) + kv**2 * A(self.gvv)
        q["jperp2"] = self.pad(tj * mean(k2 * g))
        phi = np.concatenate([[0], np.cumsum(self.phips)])
        q["phin"] = phi / phi[-1]
        q["jsupu3"], q["jsupv3"] = self.pad(c(ovp) * it), self.pad(c(ovp) * iz)
        q["bsupu3"], q["bsupv3"] = self.pad(bsu), self.pad(bsv)
        q["jcrossb"], q["jxb_gradp"], q["jdotb_sqrtg"], q["sqrtg3"] = self.pad(jx), self.pad(res), self.pad(c(ovp) * bk), self.pad(c(ovp) * g)
        q["bsubs3"] = bs
        last = np.ones(self.ns - 1)
        last[-1] = 0
        q["bsubu3"], q["bsubv3"] = bu * c(last), bv * c(last)
        q["jsups3"] = c(last / vp / (4 * np.pi**2)) * (self.lowpass(self.bsubu, dv=1) - self.lowpass(self.bsubv, du=1)) / MU0
        self.bk, self.bs_full, self.q = bk, bs, q
        return q

    def mercier(self):
        w, mean, ds = self.w, self.mean, self.ds
        i, o = slice(None, -1), slice(1, None)
        A = lambda a: 0.5 * (a[i] + a[o])  # noqa: E731
        sg = w.signgs
        phr = 2 * np.pi * self.phips * sg
        pf = A(phr)
        d = lambda a: (a[o] - a[i]) / (pf * ds)  # noqa: E731
        vpr = sg * 4 * np.pi**2 * np.asarray(w.vp)[1:] / phr
        tc = 2 * np.pi * sg * self.mean(self.lowpass(self.bsubu))
        pm = np.asarray(w.pres)[1:] * MU0
        io = np.asarray(w.iotas)[1:]
        g = A(self.g)
        bj = self.bk * MU0 / g
        gf = g / pf[:, None, None]
        R, Z = self.R, self.Z
        ru, zu, rv, zv, r = (self.full(*a)[1:-1] for a in ((R, "u"), (Z, "u"), (R, "v"), (Z, "v"), (R, "")))
        gpp = gf**2 / ((ru**2 + zu**2) * r**2 + (ru * zv - rv * zu)**2)
        b2 = A(self.b2)
        k = 4 * np.pi**2
        tpp, tbb, tjb, tjj = k * mean(gf / b2), k * mean(b2 * gf * gpp), k * mean(bj * gpp * gf), k * mean(bj**2 * gpp * gf / b2)
        vf = A(vpr)
        P = self.pad
        m = {"s": self.s, "toroidal_flux": P(np.cumsum(pf) * ds), "iota": P(A(io)), "shear": P(d(io) / vf), "d_volume_d_s": P(vf),
             "well": P(-d(vpr) * sg), "toroidal_current": P(A(tc)), "d_toroidal_current_d_s": P(d(tc) / vf), "pressure": P(A(pm)),
             "d_pressure_d_s": P(d(pm) / vf), "Dshear": P(d(io)**2 / 4), "Dcurr": P(-d(io) * (tjb - d(tc) * tbb)),
             "Dwell": P(d(pm) * (d(vpr) - d(pm) * tpp) * tbb), "Dgeod": P(tjb**2 - tbb * tjj)}
        self.mscale = {"Dcurr": P(np.abs(d(io)) * (np.abs(tjb) + np.abs(d(tc) * tbb))), "Dgeod": P(tjb**2 + np.abs(tbb * tjj)),
                       "Dwell": P(np.abs(d(pm) * tbb) * (np.abs(vpr[1:]) / np.abs(pf * ds) + np.abs(d(pm) * tpp)))}
        m["DMerc"] = m["Dshear"] + m["Dcurr"] + m["Dwell"] + m["Dgeod"]
        return m

    # ---- profiles, global quantities and the remaining tables -----------------------------------------------------------

    @staticmethod
    def to_full(x):
        """Half grid -> full grid: averages inside, linear extrapolation at both ends."""
        return np.concatenate([[1.5 * x[0] - 0.5 * x[1]], 0.5 * (x[1:] + x[:-1]), [1.5 * x[-1] - 0.5 * x[-2]]])

    def profiles(self):
        """(name -> (reference, scale)) of the one-dimensional profiles of wout and of the first threed1 table."""
        w, ds, sg, mean = self.w, self.ds, self.w.signgs, self.mean
        D = lambda a: np.diff(a) / ds  # noqa: E731
        p = np.asarray(w.pres)[1:] * MU0
        vp, b2 = self.vp, self.b2
        absg = np.abs(self.g)
        H = lambda a: np.concatenate([[0.0], a])  # noqa: E731
        o = {}
        bb = mean(b2 / 2 * absg) / vp
        o["beta_vol"] = H(p / bb)
        o["over_r"] = H(mean(absg / self.r12) / vp)
        o["vp"], o["buco"], o["bvco"] = H(vp), H(self.buco), H(self.bvco)
        o["presf"] = self.to_full(p) / MU0
        io = np.asarray(w.iotas)[1:]
        o["iotaf"] = self.to_full(io)
        o["phi"] = 2 * np.pi * sg * np.concatenate([[0], np.cumsum(self.phips)]) * ds
        o["chi"] = 2 * np.pi * np.concatenate([[0], np.cumsum(self.chips)]) * ds
        chf = self.pad(0.5 * (self.chips[1:] + self.chips[:-1]))
        chf[0] = 1.5 * self.chips[0] - 0.5 * self.chips[1]
        chf[-1] = 2 * self.chips[-1] - self.chips[-2]
        chf[0] = np.nan  # not derived from the half-grid profile
        o["chipf"] = 2 * np.pi * sg * chf
        jv, ju = self.ends(self.pad(sg * D(self.buco))), self.ends(self.pad(-sg * D(self.bvco)))
        o["jcurv"], o["jcuru"] = jv / MU0, ju / MU0
        pg = self.ends(self.pad(D(p)))
        vf = self.ends(self.pad(0.5 * (vp[1:] + vp[:-1])))
        t1, t2, t3 = np.nan_to_num(chf) * jv, -self.phipf * ju, pg * vf
        with np.errstate(all="ignore"):
            eq = (t1 + t2 + t3) / (np.abs(t1) + np.abs(t2) + np.abs(t3))
        eq[[0, -1]] = 0
        o["equif"] = self.ends(eq)
        m = np.asarray(w.xm, int)
        # spectral width in the product basis cos/sin(m theta) x cos/sin(n zeta)
        o["specw"] = self.specw()
        pf = self.to_full(self.phips) * 2 * np.pi * sg
        t = {"s": self.s, "radial_force": o["equif"], "toroidal_flux": o["phi"], "iota": o["iotaf"], "avg_jsupu": ju / vf / MU0, "avg_jsupv": jv / vf / MU0,
             "d_volume_d_phi": 4 * np.pi**2 * sg * vf / pf, "d_pressure_d_phi": pg / pf / MU0, "spectral_width": o["specw"], "pressure": o["presf"]}
        t["buco_full"], t["bvco_full"] = self.to_full(self.buco), self.to_full(self.bvco)
        t["buco_full"][0] = 0.0
        # cancellation scales
        sc = {"jcurv": np.abs(self.buco).max() / ds / MU0, "jcuru": np.abs(self.bvco).max() / ds / MU0, "presf": p.max() / MU0, "d_pressure_d_phi": p.max() / ds / np.abs(pf).min() / MU0,
              "avg_jsupu": np.abs(self.bvco).max() / ds / MU0 / vf.min(), "avg_jsupv": np.abs(self.bsubu).max() / ds / MU0 / vf.min(), "buco": np.abs(self.bsubu).max(), "buco_full": np.abs(self.bsubu).max()}
        sc["jcurv"] = max(sc["jcurv"], np.abs(self.bsubu).max() / ds / MU0)
        den = np.abs(t1) + np.abs(t2) + np.abs(t3)
        num = np.nanmax(np.abs(chf)) * np.abs(self.bsubu).max() / ds + np.abs(self.phipf).max() * np.abs(self.bvco).max() / ds + p.max() / ds * vf.max()
        sc["equif"] = sc["radial_force"] = num / max(den[1:-1].min(), 1e-300)
        return o, t, sc

    def specw(self):
        """<M> = sum m^5 x^2 / sum m^4 x^2 over the coefficients of the product basis (normalised basis functions), m = 1 modes in the polar-constrained form."""
        w = self.w
        xm, xn = np.asarray(w.xm, int), np.asarray(w.xn, int) // self.nfp
        num, den = np.zeros(self.ns), np.zeros(self.ns)
        ntor, mpol = int(w.ntor), int(w.mpol)
        idx = {(int(a), int(b)): k for k, (a, b) in enumerate(zip(xm, xn))}
        zero = np.zeros(self.ns)

        def pair(tab, m, n):
            a = np.asarray(tab)[idx[m, n]] if (m, n) in idx else zero
            b = np.asarray(tab)[idx[m, -n]] if n and (m, -n) in idx else zero
            return a, b
        for m in range(1, mpol):
            for n in range(ntor + 1):
                sc2 = (1 / np.sqrt(2))**2 * (0.5 if n else 1.0)  # 1 / (mscale nscale)^2
                parts = []
                for tab in ([w.rmnc, w.zmns] + ([w.rmns, w.zmnc] if w.lasym else [])):
                    a, b = pair(tab, m, n)
                    parts += [a + b] + ([a - b] if n else [])
                x = sum(q**2 for q in parts) * sc2
                num += m**5 * x
                den += m**4 * x
        out = np.ones(self.ns)
        out[1:] = num[1:] / den[1:]
        return out

    def threed1(self, jx, curtor=None):
        """Geometric / magnetic scalars, volumetrics, betas, Shafranov integrals."""
        w, ds, sg, mean, nt = self.w, self.ds, self.w.signgs, self.mean, self.nt
        R, Z = self.R, self.Z
        f = lambda q, d: self.full(q, d)  # noqa: E731
        r, z, ru, zu, rv, zv = (f(*a)[-1] for a in ((R, ""), (Z, ""), (R, "u"), (Z, "u"), (R, "v"), (Z, "v")))
        q, sc = {}, {}
        p = np.asarray(w.pres)[1:] * MU0
        absg, b2, vp = np.abs(self.g), self.b2, self.vp
        tp = b2 / 2 + p[:, None, None]
        guu = ru**2 + zu**2
        q["toroidal_flux"] = 2 * np.pi * ds * mean(self.bsupv * absg).sum()
        q["circum_p"] = 2 * np.pi * np.sqrt(guu).mean()
        dA = np.sqrt(r**2 * guu + (rv * zu - zv * ru)**2)
        q["surf_area_p"] = 4 * np.pi**2 * dA.mean()
        q["cross_area_p"] = 2 * np.pi * abs((r * zu).mean())
        q["volume_p"] = V = 2 * np.pi**2 * abs((r * r * zu).mean())
        q["Rmajor_p"] = V / (2 * np.pi * q["cross_area_p"])
        q["Aminor_p"] = np.sqrt(q["cross_area_p"] / np.pi)
        q["aspect"] = q["Rmajor_p"] / q["Aminor_p"]
        d2 = (q["surf_area_p"] * q["Aminor_p"] / (2 * V))**2
        q["kappa_p"] = 1 + np.pi**2 / 8 * (d2 + np.sqrt(abs(d2 * d2 - 1)) - 1)
        sc["kappa_p"] = 1e5  # sqrt of a difference
        q["rcen"] = rcen = (r[0, 0] + r[nt // 2, 0]) / 2
        r00 = f(R, "")[0, 0, 0]
        q["aminr1"] = np.sqrt(2 * V / (4 * np.pi**2 * r00))
        vn = 4 * np.pi**2 * ds
        sump = vn * (vp * p).sum()
        q["pavg"], q["factor"] = sump / V, 2 * sump / V
        q["rbtor"], q["rbtor0"] = 1.5 * self.bvco[-1] - 0.5 * self.bvco[-2], 1.5 * self.bvco[0] - 0.5 * self.bvco[1]
        q["b0"] = q["rbtor0"] / r00
        q["rmax_surf"], q["rmin_surf"] = r.max(), r.min()
        q["zmax_surf"] = np.abs(z).max()
        nr = nt // 2 + 1
        B = np.sqrt(np.abs(b2))[:, :nr]
        q["bmin"], q["bmax"] = B.min(axis=2), B.max(axis=2)
        k2 = self.nz // 2
        planes = [0] + ([k2] if w.ntor else [])
        q["waist"] = np.array([abs(r[0, k] - r[nt // 2, k]) for k in planes])
        sc["waist"] = sc["rcen"] = r.max()
        if not w.lasym and not (w.ntor and self.nz % 2):
            q["height"] = np.array([2 * z[:, k].max() for k in planes])
        sumtot = vn * mean(absg * b2).sum()
        sumtor = vn * mean(absg * (self.r12 * self.bsupv)**2).sum()
        sumpol = sumtot - sumtor
        q["betapol"], q["betatot"], q["betator"] = 2 * sump / sumpol, 2 * sump / sumtot, 2 * sump / sumtor
        sc["betapol"] = abs(q["betapol"]) * (1 + sumtot / abs(sumpol))
        q["VolAvgB"] = np.sqrt(abs(sumtot / V))
        q["IonLarmor"] = 3.2e-3 / q["VolAvgB"]
        q["toroidal_current"] = sg * 2 * np.pi * (1.5 * self.buco[-1] - 0.5 * self.buco[-2]) / MU0
        sc["toroidal_current"] = 2 * np.pi * np.abs(self.bsubu).max() / MU0
        q["psi"] = 2 * np.pi * sg * np.concatenate([[0], np.cumsum(self.chips)]) * ds
        sc["psi"] = 2 * np.pi * np.abs(self.phips).max()
        # parallel over perpendicular current (reported jxb quantities as input)
        jpar2, jdotb, bdotb, jperp2 = (np.asarray(getattr(jx, k)) for k in ("jpar2", "jdotb", "bdotb", "jperp2"))
        i = slice(1, -1)
        ps = jpar2[i] - jdotb[i]**2 / bdotb[i]
        v2 = vp[1:] + vp[:-1]
        s2 = (jperp2[i] * v2).sum()
        s2 = s2 if s2 != 0 else 1.0
        q["jpar_perp"], q["jparPS_perp"] = (jpar2[i] * v2).sum() / s2, (ps * v2).sum() / s2
        sc["jparPS_perp"] = (jpar2[i] * v2).sum() / s2
        jp = np.where(jperp2 != 0, jperp2, np.finfo(float).eps)
        q["loc_jpar_perp"] = jpar2 / jp
        q["loc_jpar_perp"][0] = 0
        q["loc_jparPS_perp"] = self.pad(ps / jp[i])
        sc["loc_jparPS_perp"] = np.abs(q["loc_jpar_perp"]).max()
        ns = self.ns
        if not w.lasym:
            rf, zf = f(R, ""), f(Z, "")
            yg = {k: np.zeros(2 * ns) for k in ("ygeo", "yinden", "yellip", "ytrian", "yshift")}
            ok = True
            for n, k in enumerate(planes if self.nz > 1 else [0]):
                if n and self.nz % 2:
                    ok = False
                    continue
                for j in range(1, ns):
                    rr, zz = rf[j, :, k], zf[j, :, k]
                    xa, xb = rr[nt // 2], rr[0]
                    dx = rr.max() - rr.min()
                    geo = (xa + xb) / 2
                    yg["ygeo"][n * ns + j] = (xb - xa) / 2
                    yg["yinden"][n * ns + j] = (xa - rr.min()) / dx
                    yg["yellip"][n * ns + j] = (zz.max() - zz.min()) / dx
                    top = np.flatnonzero(zz >= zz.max() * (1 - 1e-12))
                    yg["ytrian"][n * ns + j] = (geo - rr[top[0]]) / dx if len(top) == 1 else np.nan
                    yg["yshift"][n * ns + j] = (rf[0, 0, k] - geo) / dx
            if ok:
                q.update(yg)
                dmin = min((rf[1, :, k].max() - rf[1, :, k].min()) for k in planes)
                for k in ("yinden", "ytrian", "yshift"):
                    sc[k] = r.max() / dmin
        vol = {"int_p": sump / MU0, "avg_p": sump / V / MU0, "int_bpol": sumpol / 2 / MU0, "avg_bpol": sumpol / 2 / MU0 / V, "int_btor": sumtor / 2 / MU0, "avg_btor": sumtor / 2 / MU0 / V,
               "int_modb": sumtot / 2 / MU0, "avg_modb": sumtot / 2 / MU0 / V, "int_ekin": 1.5 * sump / MU0, "avg_ekin": 1.5 * sump / MU0 / V}
        vsc = {"int_bpol": sumtot / 2 / MU0, "avg_bpol": sumtot / 2 / MU0 / V}
        bv = 2 * sump / sumtot
        be = p / (mean(b2 / 2 * absg) / vp)
        betas = {"betatot": bv, "betapol": q["betapol"], "betator": q["betator"], "rbtor": q["rbtor"], "betaxis": 1.5 * be[0] - 0.5 * be[1],
                 "betstr": 2 * np.sqrt(vn * (p**2 * vp).sum() / V) / (sumtot / V)}
        bsc = {"betapol": sc["betapol"], "betaxis": np.abs(be).max()}
        # Shafranov integrals
        e = lambda a: 1.5 * a[-1] - 0.5 * a[-2]  # noqa: E731
        bpol2 = 2 * e(tp) - (e(self.bsupv) * r)**2
        am = V / q["surf_area_p"]
        fac = 1 / (4 * np.pi**2 * am * (bpol2 * dA).mean())
        rb = q["rbtor"]
        phat = e(tp) - 0.5 * (rb / r)**2
        fn = fac * 4 * np.pi**2 * r * phat
        s0, s1, z1 = (fn * zu).mean(), (fn * zu * r).mean(), -(fn * ru * z).mean()
        bt, bvac = self.r12 * self.bsupv, rb / self.r12
        db = bt**2 - bvac**2
        ph = (tp - 0.5 * bvac**2 - db) * absg
        rsh = mean(ph).sum() / mean(ph / self.r12).sum()
        sh = {"r_lao": q["Rmajor_p"], "f_lao": rsh / q["Rmajor_p"], "f_geo": rsh / rcen, "smaleli": fac * sumpol, "betai": 2 * fac * sump,
              "musubi": -vn * fac * mean(db * absg).sum(), "s11": s1 + z1 - rsh * s0, "s12": s1 + z1 - rcen * s0, "s13": s1 + z1 - q["Rmajor_p"] * s0, "s2": s0 * rsh, "s3": z1,
              "delta1": 0.0, "delta2": 1 - rsh / rcen, "delta3": 1 - rsh / q["Rmajor_p"]}
        sh["lambda_"] = 0.5 * sh["smaleli"] + sh["betai"]
        if curtor is not None:
            sh["scaling_ratio"] = fac * (MU0 * curtor / q["circum_p"])**2 * V
        cond = np.abs(b2).max() * q["surf_area_p"] / (4 * np.pi**2) / max(abs((bpol2 * dA).mean()), 1e-300)  # amplification of rounding in fac
        rcond = mean(absg * tp).sum() / max(abs(mean(ph).sum()), 1e-300) + mean(absg * tp / self.r12).sum() / max(abs(mean(ph / self.r12).sum()), 1e-300)
        big = abs(fac) * 4 * np.pi**2 * np.abs(tp).max() * np.abs(zu).max() * r.max()**2
        ssc = {k: (abs(v) + 1) * (1 + cond) for k, v in sh.items()}
        for k in ("f_lao", "f_geo", "delta2", "delta3"):
            ssc[k] = 1 + abs(rsh / rcen) * rcond
        for k in ("s11", "s12", "s13", "s2", "s3"):
            ssc[k] = (big + abs(rsh / rcen) * rcond * abs(s0) * r.max()) * (1 + cond)
        for k, m in (("smaleli", sumtot), ("lambda_", sumtot), ("musubi", sumtot)):
            ssc[k] = abs(fac) * m * (1 + cond)
        ssc["r_lao"] = q["Rmajor_p"]
        return (q, sc), (vol, vsc), (betas, bsc), (sh, ssc)

    def half_lambda(self, tab):
        """Half-grid lambda table of a full-grid one."""
        w = self.w
        xm = np.asarray(w.xm, int)
        t = np.asarray(tab)
        inner, outer = t[:, :-1].copy(), t[:, 1:]
        inner[xm <= 1, 0] = outer[xm <= 1, 0]
        with np.errstate(all="ignore"):
            sm, sp = self.sqh / self.sq[1:], np.concatenate([[0.0], self.sqh[1:] / self.sq[1:-1]])
        sp[0] = sm[0]
        odd = (xm % 2 == 1)[:, None]
        out = np.zeros_like(t)
        out[:, 1:] = np.where(odd, (sm * outer + sp * inner) / 2, (outer + inner) / 2)
        return out

    def currents(self, bs, bu, bv, sign):
        """sqrt(g) J^u, sqrt(g) J^v tables from half-grid B_s, B_u, B_v tables (sign: -1 for the cos tables made from bsubsmns, +1 for the sin tables)."""
        w, ds = self.w, self.ds
        m, n = np.asarray(w.xm_nyq, int)[:, None], np.asarray(w.xn_nyq, int)[:, None]
        bs, bu, bv = (np.asarray(a)[:, 1:] for a in (bs, bu, bv))
        q, f = self.sqh[None, :], self.sq[None, 1:-1]
        a = lambda x: 0.5 * (x[:, 1:] + x[:, :-1])  # noqa: E731
        d = lambda x: (x[:, 1:] - x[:, :-1]) / ds  # noqa: E731
        odd = m % 2 == 1
        t1 = np.where(odd, a(bs * q) / f, a(bs))
        reg = lambda x: np.where(odd, d(x / q) * f + 0.5 * a(x / q) / f, d(x))  # noqa: E731
        ju, jv = sign * n * t1 - reg(bv), sign * m * t1 + reg(bu)
        out = []
        for j in (ju, jv):
            t = np.zeros((j.shape[0], self.ns))
            t[:, 1:-1] = j
            lo = (m <= 1)[:, 0]
            t[lo, 0] = 2 * t[lo, 1] - t[lo, 2]
            t[:, -1] = 2 * t[:, -2] - t[:, -3]
            out.append(t / MU0)
        return out
