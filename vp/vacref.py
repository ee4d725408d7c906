"""Reference for the vacuum problem outside a toroidal surface: surface evaluation, external vacuum fields and the
extinction test (the surface current of the total field must cancel the external field at every interior point)."""
import numpy as np

MU0 = 4e-7 * np.pi
KEYS = ("rcc", "rss", "rsc", "rcs", "zsc", "zcs", "zcc", "zss")


def surface(co, nfp, th, ze):
    """co: KEYS -> (mpol, ntor+1); returns (R, Ru, Rv), (Z, Zu, Zv) on th x ze (ze: angle within one period, v = geometric toroidal angle)."""
    mp, nn = co["rcc"].shape
    m, n = np.arange(mp), np.arange(nn)
    c, s = np.cos(np.outer(th, m)), np.sin(np.outer(th, m))
    C, S = np.cos(np.outer(ze, n)), np.sin(np.outer(ze, n))

    def ev(cc, ss, sc, cs):
        f = c @ cc @ C.T + s @ ss @ S.T + s @ sc @ C.T + c @ cs @ S.T
        fu = (-s * m) @ cc @ C.T + (c * m) @ ss @ S.T + (c * m) @ sc @ C.T + (-s * m) @ cs @ S.T
        fv = c @ cc @ (-S * n).T + s @ ss @ (C * n).T + s @ sc @ (-S * n).T + c @ cs @ (C * n).T
        return f, fu, fv * nfp
    return ev(co["rcc"], co["rss"], co["rsc"], co["rcs"]), ev(co["zcc"], co["zss"], co["zsc"], co["zcs"])


def field(amps, nfp, r0, R, Z, P):
    """External vacuum field (cylindrical components) as a combination of harmonic potentials; amps[0:6] stellarator symmetric, amps[6:10] not."""
    a = np.zeros(10)
    a[:len(amps)] = amps
    r, z, N = R / r0, Z / r0, nfp
    rn, c, s = r ** N, np.cos(N * P), np.sin(N * P)
    br = a[2] * (-6 * z * r) + a[3] * rn / r * s + a[4] * rn / r * c * z + a[6] * (-2 * r) + a[7] * rn / r * c + a[8] * rn / r * s * z
    bp = a[0] / r + a[3] * rn / r * c - a[4] * rn / r * s * z - a[7] * rn / r * s + a[8] * rn / r * c * z
    bz = a[1] + a[2] * (6 * z * z - 3 * r * r) + a[4] * rn * c / N + a[6] * 4 * z + a[8] * rn * s / N
    return br, bp, bz


def unfold(B, full):
    """Values on theta in [0, pi] of a stellarator-symmetric field to the whole range."""
    nte, nz = B[0].shape
    kk = (-np.arange(nz)) % nz
    out = []
    for i, b in enumerate(B):
        o = np.empty((full, nz))
        for q in range(full):
            o[q] = b[q] if q < nte else b[full - q][kk] * (-1 if i == 0 else 1)
        out.append(o)
    return out


def upsample(b, up):
    nt, nz = b.shape
    nzu = nz * up if nz > 1 else 1
    f = np.fft.fft2(b) / b.size
    o = np.zeros((nt * up, nzu), complex)
    o[np.ix_(np.fft.fftfreq(nt, 1 / nt).astype(int) % (nt * up), np.fft.fftfreq(nz, 1 / nz).astype(int) % nzu)] = f
    return np.fft.ifft2(o).real * o.size


def casing(co, nfp, B, pts, up=4, rot=96):
    """Field at the (interior) points of the surface current that shields B (cylindrical components on the full theta x zeta grid) from the interior."""
    B = [upsample(np.asarray(b), up) for b in B]
    nt, nz = B[0].shape
    th, ze = 2 * np.pi * np.arange(nt) / nt, 2 * np.pi * np.arange(nz) / nz
    NF = nfp if nz > 1 else rot
    (R, Ru, Rv), (Z, Zu, Zv) = surface(co, nfp, th, ze)
    P = np.broadcast_to(ze / nfp, R.shape)
    N = np.cross(np.array([Ru, 0 * R, Zu]), np.array([Rv, R, Zv]), axis=0)
    J = -np.cross(N, np.array(B), axis=0)
    h = (2 * np.pi / nt) * (2 * np.pi / nz / NF) / (4 * np.pi)
    out = []
    for r0, p0, z0 in pts:
        b = np.zeros(3)
        for q in range(NF):
            p = P - p0 + 2 * np.pi * q / NF
            cp, sp = np.cos(p), np.sin(p)
            d = np.array([r0 - R * cp, -R * sp, z0 - Z])
            Jx = np.array([J[0] * cp - J[1] * sp, J[0] * sp + J[1] * cp, J[2]])
            b += (np.cross(Jx, d, axis=0) / (d ** 2).sum(0) ** 1.5).sum((1, 2)) * h
        out.append(b)
    return np.array(out)  # radial, toroidal, vertical at the point's own toroidal angle
