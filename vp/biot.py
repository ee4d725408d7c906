"""Reference magnetic field and vector potential of filaments by quadrature along the wire."""
import numpy as np

MU0 = 4e-7 * np.pi
GX, GW = np.polynomial.legendre.leggauss(48)


def wire_points(car, sub=6):
    """Quadrature points and weighted tangents dl of a carrier."""
    if car["type"] == "circle":
        n = np.array(car["normal"], float)
        n /= np.linalg.norm(n)
        e = np.eye(3)[np.argmin(np.abs(n))]
        u = e - n * (n @ e)
        u /= np.linalg.norm(u)
        v = np.cross(n, u)
        t = 2 * np.pi * np.arange(1600) / 1600
        r = car["radius"]
        return (np.array(car["center"]) + r * (np.cos(t)[:, None] * u + np.sin(t)[:, None] * v),
                r * (-np.sin(t)[:, None] * u + np.cos(t)[:, None] * v) * (2 * np.pi / 1600))
    P, D = [], []
    vs = np.array(car["vertices"], float)
    for a, b in zip(vs[:-1], vs[1:]):
        for k in range(sub):
            p, q = a + (b - a) * k / sub, a + (b - a) * (k + 1) / sub
            P.append((p + q) / 2 + GX[:, None] * (q - p) / 2)
            D.append(GW[:, None] * (q - p) / 2)
    return np.concatenate(P), np.concatenate(D)


def carrier_field(car, x, pot=False):
    x = np.asarray(x, float)
    if car["type"] == "none":
        return np.zeros_like(x)
    if car["type"] == "line":
        d = np.array(car["direction"], float)
        d /= np.linalg.norm(d)
        r = x - np.array(car["origin"])
        r = r - (r @ d)[:, None] * d
        return MU0 / (2 * np.pi) * np.cross(d, r) / (r * r).sum(1)[:, None]
    P, D = wire_points(car)
    out = np.empty_like(x)
    for i, p in enumerate(x):
        r = p - P
        n = np.sqrt((r * r).sum(1))
        out[i] = MU0 / (4 * np.pi) * ((D / n[:, None]).sum(0) if pot else (np.cross(D, r) / n[:, None] ** 3).sum(0))
    return out


def circuit_field(s, x, pot=False, current=None):
    I = s["current"] if current is None else current  # noqa: E741
    out = np.zeros_like(np.asarray(x, float))
    if not I:
        return out
    for k in s["coils"]:
        w = 1.0 if k["windings"] is None else k["windings"]
        for q in k["carriers"]:
            out += I * w * carrier_field(q, x, pot)
    return out


def field(cfg, x, pot=False):
    return sum((circuit_field(s, x, pot) for s in cfg["circuits"]), np.zeros_like(np.asarray(x, float)))


def clearance(cfg, x):
    """Smallest distance of the points x to any wire."""
    d = np.inf
    x = np.asarray(x, float)
    for s in cfg["circuits"]:
        for k in s["coils"]:
            for q in k["carriers"]:
                if q["type"] == "none":
                    continue
                if q["type"] == "line":
                    e = np.array(q["direction"]) / np.linalg.norm(q["direction"])
                    r = x - np.array(q["origin"])
                    r = r - (r @ e)[:, None] * e
                    d = min(d, np.sqrt((r * r).sum(1)).min())
                else:
                    P, _ = wire_points(q)
                    d = min(d, min(np.sqrt(((p - P) ** 2).sum(1)).min() for p in x))
    return d
