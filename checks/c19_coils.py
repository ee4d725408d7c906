"""C19: coils files and coil-set operations keep geometry, windings and currents."""
import copy
import math
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from vp import repo
from vp.harness import Prop, check

PROPERTY = "C19"
RULE = ("A case is a generated coils file (number styles, whitespace, circuit ids interleaved, circles and polygons, extra text around the "
        "filament block), possibly with one corruption; or a history of operations (set/get currents, windings migration, radial moves, copies, "
        "moves, carrier replacement, clear) on several coil sets; or vectors / CSV coefficient tables / Fourier curves. Oracle: an independent reader; a plain "
        "dictionary model per operation; the field of the coil set before and after windings migration; vector algebra in numpy. Non-trivial: "
        "at least two coils, or at least two operations, or a corruption.")
ASSUMPTIONS = ["coils files have a single filament block"]
X = None


def setup():
    global X
    X, = repo.modules(PROPERTY, ["vx_coils"])


def style(x, k):
    if k == 0:
        return repr(x)
    if k == 1:
        return "%.17E" % x
    if k == 2:
        return ("%.17E" % x).replace("E", "D")
    if k == 3:
        return ("%.17e" % x).replace("e", "d")
    if k == 4:
        return "%+.17e" % x
    s = repr(x)
    return s[1:] if s.startswith("0.") else s[:-1] if s.endswith(".0") else s


NUM = st.one_of(st.floats(-20, 20), st.integers(-9, 9).map(float), st.floats(-1e9, 1e9), st.floats(1e-12, 1e-3))
NAME = st.text("abcXYZ0123456789_-.#:()", min_size=1, max_size=12)
BADNUM = ["1.5x", "abc", "1e", "--1", "nan", "inf", "1e400", "0x1g", "1,5", "1.0F3", "1.5.2", "e5", "+", "1.0DD3", "-inf", "NaN"]


@st.composite
def coils_file(draw):
    blocks = []
    ids = draw(st.lists(st.integers(-3, 40), min_size=1, max_size=4, unique=True))
    for _ in range(draw(st.integers(0, 7))):
        w = draw(st.one_of(NUM, st.sampled_from([1.0, -1.0, 96.0])))
        circ = draw(st.booleans())
        n = 1 if circ else draw(st.integers(2, 6))
        v = [[draw(NUM), draw(NUM), draw(NUM)] for _ in range(n)]
        blocks.append({"w": w, "v": v, "id": draw(st.sampled_from(ids)), "name": draw(NAME)})
    bad = draw(st.one_of(st.none(), st.none(), st.sampled_from(["num", "id", "drop", "add", "noend", "open", "mirror", "windings", "periods", "noperiods", "blank"])))
    return {"nfp": draw(st.integers(1, 12)), "blocks": blocks, "bad": bad, "pick": draw(st.integers(0, 10**6)), "badnum": draw(st.sampled_from(BADNUM)),
            "styles": draw(st.lists(st.integers(0, 5), min_size=1, max_size=5)), "sep": draw(st.sampled_from([" ", "  ", "\t", " \t "])),
            "pre": draw(st.sampled_from(["", "  ", "\t"])), "eol": draw(st.sampled_from(["\n", "\n", "\r\n", " \n"])),
            "mirror": draw(st.sampled_from(["mirror NUL", "mirror NIL", "mirror nul", "mirror  NIL", None])),
            "head": draw(st.sampled_from([[], ["** a comment"], ["", "# x"]])), "tail": draw(st.sampled_from([[], ["after the end 1 2 3"], [""]])),
            "file": draw(st.booleans())}


def text_of(c):
    """File text and the coil set it states (None: must be rejected)."""
    k = [0]

    def num(x):
        k[0] += 1
        return style(x, c["styles"][k[0] % len(c["styles"])])
    rows, own = [], []  # token rows; index of block
    for bi, b in enumerate(c["blocks"]):
        n = len(b["v"])
        for i, p in enumerate(b["v"]):
            t = [num(p[0]), num(p[1]), num(p[2]), num(b["w"]) if n == 1 or i < n - 1 else num(0.0)]
            if i == n - 1:
                t += [str(b["id"]), b["name"]]
            rows.append(t)
            own.append((bi, i, n))
    want, order = [], []
    for b in c["blocks"]:
        if b["id"] not in order:
            order.append(b["id"])
            want.append({"name": None, "current": 1.0, "coils": []})
        if len(b["v"]) == 1:
            car = {"type": "circle", "name": b["name"], "center": [0.0, 0.0, b["v"][0][2]], "normal": [0.0, 0.0, 1.0], "radius": b["v"][0][0]}
        else:
            car = {"type": "polygon", "name": b["name"], "vertices": [list(p) for p in b["v"]]}
        want[order.index(b["id"])]["coils"].append({"name": None, "windings": b["w"], "carriers": [car]})
    model = {"name": None, "nfp": c["nfp"], "circuits": want}
    bad, done, per, end, mir = c["bad"], False, "periods %d" % c["nfp"], True, c["mirror"]
    if bad == "mirror":
        mir, done = "mirror XYZ", True
    elif bad == "noend":
        end, done = False, True
    elif bad == "periods":
        per, done = "periods", True
    elif bad == "noperiods":
        per, model = None, dict(model, nfp=None)
    elif bad and rows:
        i = c["pick"] % len(rows)
        r = rows[i]
        if bad == "num":
            r[(c["pick"] // 7) % 4] = c["badnum"]
            done = True
        elif bad == "blank":
            rows.insert(i, [])
            done = True
        elif bad == "drop":
            del r[(c["pick"] // 7) % len(r)]
            done = True
        elif bad == "add":
            r.insert((c["pick"] // 7) % (len(r) + 1), "7")
            done = True
        elif bad == "id":
            j = [q for q in range(len(rows)) if len(rows[q]) == 6][-1]
            rows[j][4] = ["x1", "1.5", "", "99999999999", "1x"][c["pick"] % 5] or "one"
            done = True
        elif bad == "open":
            last = rows[-1]
            rows.append(last[:4])
            done = True
        elif bad == "windings":
            js = [q for q, (bi, i2, n) in enumerate(own) if n > 2 and 0 < i2 < n - 1]
            if js:
                j = js[c["pick"] % len(js)]
                rows[j][3] = repr(c["blocks"][own[j][0]]["w"] + 1.0)
                done = c["blocks"][own[j][0]]["w"] + 1.0 != c["blocks"][own[j][0]]["w"]
    lines = list(c["head"]) + ([per] if per else []) + ["begin filament"] + ([mir] if mir else [])
    lines += [c["pre"] + c["sep"].join(r) for r in rows] + (["end"] if end else []) + list(c["tail"] if end else [])
    return c["eol"].join(lines) + c["eol"], (None if done else model), done


def run_file(c):
    txt, want, bad = text_of(c)
    try:
        if c["file"]:
            with tempfile.TemporaryDirectory() as d:
                f = os.path.join(d, "coils.x")
                with open(f, "w", newline="") as fh:
                    fh.write(txt)
                got = X.parse_file(f)
        else:
            got = X.parse(txt)
        err = None
    except ValueError as e:
        err, got = str(e), None
    if bad:
        check(got is None, "corrupted file (%s) was accepted as %r", c["bad"], got)
    else:
        check(err is None, "good file rejected: %s", err)
        check(got == want, "parsed %r, file states %r", got, want)
    return {"labels": [str(c["bad"]), "file" if c["file"] else "text"], "nontrivial": len(c["blocks"]) > 1 or bad}


@st.composite
def raw(draw):
    c = draw(coils_file())
    txt = text_of(c)[0]
    for _ in range(draw(st.integers(1, 6))):
        i = draw(st.integers(0, len(txt)))
        how = draw(st.integers(0, 3))
        if how == 0:
            txt = txt[:i] + draw(st.text(max_size=6)) + txt[i:]
        elif how == 1:
            txt = txt[:i] + txt[i + draw(st.integers(1, 20)):]
        elif how == 2:
            j = draw(st.integers(0, len(txt)))
            txt = txt[:i] + txt[min(i, j):max(i, j)] + txt[i:]
        else:
            txt = txt[:i]
    return {"text": txt}


def run_raw(c):
    t = c["text"]
    try:
        got = X.parse(t)
    except ValueError:
        return {"labels": ["rejected"], "nontrivial": True}
    for s in got["circuits"]:
        for k in s["coils"]:
            for q in k["carriers"]:
                check(q["name"] in t, "carrier name %r is not in the file", q["name"])
                vals = [x for v in q["vertices"] for x in v] if q["type"] == "polygon" else [q["radius"], q["center"][2]]
                for x in vals:
                    check(math.isfinite(x), "value %r", x)
    if "nfp" in got and got["nfp"] is not None:
        check(str(abs(got["nfp"])) in t.replace("+", ""), "number of periods %r is not in the file", got["nfp"])
    return {"labels": ["accepted"], "nontrivial": True}


BIG = st.one_of(st.floats(1e-3, 50), st.floats(-50, -1e-3), st.just(0.0))
VEC = st.one_of(*[st.lists(st.floats(-3, 3).map(lambda x: x + 0.0), min_size=3, max_size=3)] * 3, st.tuples(*[st.sampled_from([0.0, 0.0, 1.0, -1.5])] * 3).map(list), st.floats(-3, 3).map(lambda z: [0.0, 0.0, z]))  # points on axes and planes too


@st.composite
def carrier(draw, holes=False, movable=False):
    t = draw(st.sampled_from(["polygon", "circle", "line", "none"] if not movable else ["polygon", "circle", "none"]))
    name = draw(st.one_of(st.none(), NAME))
    vec = (lambda: [draw(st.one_of(st.none(), st.floats(-2, 2))) if draw(st.integers(0, 5)) == 0 else draw(st.floats(-2, 2)) for _ in range(3)]) if holes else (lambda: draw(VEC))
    gone = lambda v: None if holes and draw(st.integers(0, 8)) == 0 else v  # noqa: E731
    if t == "polygon":
        return {"type": t, "name": name, "vertices": [vec() for _ in range(draw(st.integers(0 if holes else 2, 5)))]}
    if t == "circle":
        z = movable and draw(st.integers(0, 9)) > 0
        return {"type": t, "name": name, "center": gone([0.0, 0.0, draw(st.floats(-2, 2))] if z else vec()),
                "normal": gone([0.0, 0.0, draw(st.sampled_from([1.0, -1.0, 2.5]))] if z else [1.0, 0.5, -0.25]), "radius": gone(draw(st.floats(0.1, 5)))}
    if t == "line":
        return {"type": t, "name": name, "origin": gone(vec()), "direction": gone([0.5, 1.0, 2.0])}
    return {"type": "none"}


@st.composite
def config(draw, holes=False, movable=False, minc=0):
    circ = []
    for _ in range(draw(st.integers(minc, 3))):
        coils = [{"name": draw(st.one_of(st.none(), NAME)), "windings": draw(st.one_of(st.none(), st.sampled_from([1.0, -16.0, 96.0]), BIG)),
                  "carriers": [draw(carrier(holes, movable)) for _ in range(draw(st.integers(0, 2)))]} for _ in range(draw(st.integers(0, 3)))]
        circ.append({"name": draw(st.one_of(st.none(), NAME)), "current": draw(st.one_of(st.none(), BIG.map(lambda x: 1e4 * x))), "coils": coils})
    return {"name": draw(st.one_of(st.none(), NAME)), "nfp": draw(st.one_of(st.none(), st.integers(1, 9))), "circuits": circ}


def full(cfg):
    ok3 = lambda v: v is not None and all(x is not None for x in v)  # noqa: E731
    for s in cfg["circuits"]:
        for k in s["coils"]:
            for q in k["carriers"]:
                t = q["type"]
                if t == "line" and not (ok3(q["origin"]) and ok3(q["direction"])):
                    return False
                if t == "circle" and not (ok3(q["center"]) and ok3(q["normal"]) and q["radius"] is not None):
                    return False
                if t == "polygon" and not (len(q["vertices"]) >= 2 and all(ok3(v) for v in q["vertices"])):
                    return False
    return True


@st.composite
def history(draw):
    n = draw(st.integers(1, 3))
    cfgs = [draw(config(movable=True, minc=1)) for _ in range(n)]
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.sampled_from(["copy", "move", "self", "windings", "windings", "currents", "currents", "get", "radial", "radial", "carrier", "assign", "clear"]))
        i = draw(st.integers(0, n - 1))
        op = [k, i]
        if k in ("copy", "move"):
            op.append(draw(st.integers(0, n - 1)))
        elif k == "currents":
            op.append(draw(st.lists(st.floats(-1e5, 1e5), min_size=0, max_size=4)))
            op.append(draw(st.integers(0, 4)) > 0)  # make the length fit
        elif k == "radial":
            op.append(draw(st.floats(-0.5, 0.5)))
        elif k == "carrier":
            op += [draw(st.integers(0, 99)), draw(st.integers(0, 99)), draw(st.integers(0, 99)), draw(carrier())]
        elif k == "assign":
            op += [draw(st.integers(0, 99)) for _ in range(6)] + [draw(st.booleans())]
        ops.append(op)
    return {"cfgs": cfgs, "ops": ops}


def where(cfg):
    return [(a, b, e) for a, s in enumerate(cfg["circuits"]) for b, k in enumerate(s["coils"]) for e in range(len(k["carriers"]))]


def apply(cfgs, op):
    """Model: (ok, result) after changing cfgs in place; ok None = the model does not say what is left behind."""
    k, i = op[0], op[1]
    c = cfgs[i]
    if k in ("copy", "move"):
        cfgs[i] = copy.deepcopy(cfgs[op[2]])
    elif k == "windings":
        for s in c["circuits"]:
            w = [1.0 if q["windings"] is None else q["windings"] for q in s["coils"]]
            if not w:
                continue
            if w[0] == 0.0:
                return False, None
            s["current"] = (s["current"] or 0.0) * w[0]
            for q, x in zip(s["coils"], w):
                q["windings"] = x / w[0]
    elif k == "currents":
        if len(op[2]) != len(c["circuits"]):
            return False, None
        for s, x in zip(c["circuits"], op[2]):
            s["current"] = x
    elif k == "get":
        if not full(c):
            return False, None
        return True, [s["current"] or 0.0 for s in c["circuits"]]
    elif k == "radial":
        for a, b, e in where(c):
            q = c["circuits"][a]["coils"][b]["carriers"][e]
            if q["type"] == "line" or q["type"] == "circle" and (q["center"][:2] != [0.0, 0.0] or q["normal"][:2] != [0.0, 0.0] or q["normal"][2] == 0.0):
                return False, None
            if q["type"] == "circle":
                q["radius"] += op[2]
            elif q["type"] == "polygon":
                for v in q["vertices"]:
                    r, p = math.hypot(v[0], v[1]), math.atan2(v[1], v[0])
                    v[0], v[1] = (r + op[2]) * math.cos(p), (r + op[2]) * math.sin(p)
    elif k == "clear":
        cfgs[i] = {"name": None, "nfp": None, "circuits": []}
    elif k == "carrier":
        a, b, e = op[2:5]
        q = copy.deepcopy(op[5])
        if q["type"] != "none":
            # setting a kind on a carrier of the same kind adds to it; a different kind replaces it
            old = c["circuits"][a]["coils"][b]["carriers"][e]
            if old["type"] == q["type"]:
                if q["name"] is None:
                    q["name"] = old["name"]
                if q["type"] == "polygon":
                    q["vertices"] = old["vertices"] + q["vertices"]
            c["circuits"][a]["coils"][b]["carriers"][e] = q
    elif k == "assign":
        src = copy.deepcopy(c["circuits"][op[5]]["coils"][op[6]]["carriers"][op[7]])
        c["circuits"][op[2]]["coils"][op[3]]["carriers"][op[4]] = src
    return True, None


def same(a, b):
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-13 * max(1.0, abs(a), abs(b))
    return a == b


def run_history(c):
    cfgs = copy.deepcopy(c["cfgs"])
    for q in cfgs:
        check(X.roundtrip(q) == q, "coil set %r is stored as %r", q, X.roundtrip(q))
    ops, states, used = [], [], []
    for op in c["ops"]:
        op = copy.deepcopy(op)
        if op[0] == "currents":
            n = len(cfgs[op[1]]["circuits"])
            if op[3]:
                op[2] = (op[2] + [3.0] * n)[:n]
            op = op[:3]
        if op[0] in ("carrier", "assign"):
            w = where(cfgs[op[1]])
            if not w:
                continue
            op[2:5] = w[op[2] % len(w)]
            if op[0] == "assign":
                op[5:8] = w[op[5] % len(w)]
        r = apply(cfgs, op)
        ops.append(op)
        states.append((r, copy.deepcopy(cfgs)))
        if not r[0] and op[0] != "get" and op[0] != "currents":
            break
    got = X.history(c["cfgs"], [tuple(np.array(x, dtype=float) if o[0] == "currents" and j == 2 else x for j, x in enumerate(o)) for o in ops])
    for op, ((ok, res), want), (gok, gres, gst) in zip(ops, states, got):
        check(ok == gok, "%r: reported %s", op, "ok" if gok else "an error")
        if not ok and op[0] not in ("get", "currents"):
            break
        if res is not None:
            check(list(gres) == res, "%r returned %r, expected %r", op, gres, res)
        for i, (a, b) in enumerate(zip(want, gst)):
            check(same(a, b), "after %r set %d is %r, expected %r", op, i, b, a)
    # migrating the windings into the current keeps the field
    for q in c["cfgs"]:
        if not full(q):
            continue
        ((ok, _, st2),) = X.history([q], [("windings", 0)])
        pts = [[5.1, 4.2, 3.3], [-4.4, 6.0, -5.0]]
        z = [[0.0] * 3] * 2
        if ok:
            a, b = np.array(X.field(q, pts, z)), np.array(X.field(st2[0], pts, z))
            check(np.allclose(a, b, rtol=1e-12, atol=1e-12 * np.abs(a).max()), "field changed by windings migration: %r %r", a.tolist(), b.tolist())
    return {"labels": [o[0] for o in ops], "nontrivial": len(ops) > 1}


def run_populated(c):
    cfg = c["cfg"]
    check(X.roundtrip(cfg) == cfg, "coil set %r is stored as %r", cfg, X.roundtrip(cfg))
    f = full(cfg)
    check(X.populated(cfg) == f, "populated: %r for %r", not f, cfg)
    pts, z = [[5.1, 4.2, 3.3]], [[0.25, -1.0, 2.0]]
    ok, b = X.field_status(cfg, pts, z)
    check(ok == f, "field of an %s coil set: %s", "incomplete" if not f else "complete", ok)
    if not f:
        check(b == z, "field changed although an error was reported")
    line = any(q["type"] == "line" for s in cfg["circuits"] for k in s["coils"] for q in k["carriers"])
    ok, b = X.potential_status(cfg, pts, z)
    check(ok == (f and not line), "vector potential status %r", ok)
    if not ok:
        check(b == z, "vector potential changed although an error was reported")
    txt = X.print(cfg, c["indent"])
    pos = 0
    for s in [cfg] + cfg["circuits"]:
        if s["name"] is not None:
            check("'%s'" % s["name"] in txt, "name %r is not printed", s["name"])
    for s in cfg["circuits"]:
        cur = "current: none" if s["current"] is None else "current: %s" % ("%.6g" % s["current"])
        p = txt.find(cur, pos)
        check(p >= 0, "%r is not printed after position %d", cur, pos)
        pos = p
    check(txt.count("{") == txt.count("}"), "unbalanced output")
    return {"labels": ["full" if f else "holes"], "nontrivial": len(cfg["circuits"]) > 0}


@st.composite
def algebra(draw):
    v = st.lists(st.one_of(st.floats(-1e3, 1e3), st.sampled_from([0.0, 1.0, -1.0])), min_size=3, max_size=3)
    n = draw(st.integers(1, 6))
    num = st.one_of(st.floats(-1e6, 1e6), st.floats(1e-9, 1.0))
    return {"a": draw(v), "b": draw(v), "l": draw(st.floats(0.01, 100)), "rows": [[draw(st.integers(-9, 9)), draw(st.integers(0, 9))] + [draw(num) for _ in range(4)] for _ in range(n)],
            "bad": draw(st.sampled_from([None, None, None, "header", "short", "long", "number", "empty"])), "nl": draw(st.booleans())}


def run_algebra(c):
    a, b = np.array(c["a"]), np.array(c["b"])
    A, B = c["a"], c["b"]
    sc = 1e-14 * (1 + np.abs(a).max()) * (1 + np.abs(b).max())
    close = lambda x, y, t=sc: np.allclose(x, y, rtol=1e-14, atol=t)  # noqa: E731
    check(close(X.add(A, B), a + b) and close(X.subtract(A, B), a - b), "sum/difference")
    check(close(X.dot(A, B), a @ b) and close(X.cross(A, B), np.cross(a, b)), "products of %r %r: %r %r", A, B, X.dot(A, B), X.cross(A, B))
    n = np.linalg.norm(a)
    check(close(X.length(A), n), "length")
    if n > 1e-6:
        check(close(X.scale_to(A, c["l"]), a / n * c["l"], 1e-13 * c["l"]), "scaling")
        check(close(X.normalize(A), a / n, 1e-14), "unit vector")
        p = np.array(X.perp(A))
        check(sorted(p.tolist()) == [0.0, 0.0, 1.0] and abs(a @ p) == np.abs(a).min(), "most perpendicular axis of %r: %r", A, p)
        F = np.array(X.frame(A))
        check(close(F @ F.T, np.eye(3), 1e-13), "frame around %r is not orthonormal: %r", A, F.tolist())
        check(close(F[0], a / n, 1e-13) and np.linalg.det(F) > 0.9, "frame around %r: %r", A, F.tolist())
    rows = c["rows"]
    for surf in (False, True):
        hd = "n,m,rbc,zbs,rbs,zbc" if surf else "n,raxis_c,zaxis_s,raxis_s,zaxis_c"
        ls = [",".join([str(r[0])] + ([str(r[1])] if surf else []) + [repr(x) for x in r[2:]]) for r in rows]
        if c["bad"] == "header":
            hd = hd.replace("n,", "m,", 1)
        elif c["bad"] == "short":
            ls[-1] = ls[-1].rsplit(",", 1)[0]
        elif c["bad"] == "long":
            ls[0] += ",3"
        elif c["bad"] == "number":
            k = int(c["l"] * 10) % (6 if surf else 5)
            q = ls[-1].split(",")
            q[k] = ["abc", "1.0x", "1..2", "--1", "0x1z"][int(c["l"]) % 5]
            ls[-1] = ",".join(q)
        txt = "\n".join([hd] + ls) + ("\n" if c["nl"] else "")
        if c["bad"] == "empty":
            txt = ""
        f = X.csv_surface if surf else X.csv_curve
        try:
            g = f(txt)
        except ValueError:
            check(c["bad"] is not None, "good table rejected: %r", txt)
            continue
        check(c["bad"] is None, "bad table accepted: %r", txt)
        want = [[r[0] for r in rows]] + ([[r[1] for r in rows]] if surf else []) + [[r[2 + k] for r in rows] for k in range(4)]
        check([list(x) for x in g[:-1]] == want, "table %r read as %r", txt, g[:-1])
        check([list(x) for x in f(g[-1])[:-1]] == want, "written table %r differs", g[-1])
    return {"labels": [str(c["bad"])], "nontrivial": True}


@st.composite
def curves(draw):
    mode, val = st.integers(-9, 9), st.floats(-1e3, 1e3)
    full = [[draw(mode), draw(mode), draw(val), draw(val)] for _ in range(draw(st.integers(0, 4)))]
    r, z = [list(q) for q in full], [q[:2] + [draw(val), draw(val)] for q in full]
    what = draw(st.lists(st.sampled_from(["r hole", "z hole", "r hole", "z hole", "mode", "drop r", "drop z"]), max_size=2))
    for w in what:
        t = r if "r" in w else z
        if w.startswith("drop") and t:
            t.pop()
        elif w == "mode" and z and None not in z[-1][:2]:
            z[-1][draw(st.integers(0, 1))] += 1
        elif t:
            q = t[draw(st.integers(0, len(t) - 1))]
            for k in draw(st.lists(st.integers(0, 3), min_size=1, max_size=2)):
                q[k] = None
    return {"surface": draw(st.booleans()), "r": r, "z": z}


def run_curves(c):
    """Curves and surfaces are usable exactly if every coefficient has its mode numbers and at least one of cosine and sine, the same modes for R and Z."""
    r, z, surf = c["r"], c["z"], c["surface"]
    lo = 0 if surf else 1
    want = len(r) == len(z) > 0 and all(None not in q[lo:2] and (q[2] is not None or q[3] is not None) for q in r + z) and [q[lo:2] for q in r] == [q[lo:2] for q in z]
    whole, table, every, some, txt = X.fourier(surf, r, z)
    check(whole == want, "R %s, Z %s count as %s", r, z, "complete" if whole else "incomplete")
    check(table == every == some == want, "R %s, Z %s: written %s, coefficients %s", r, z, table, (every, some))
    if want:
        v = lambda x: 0.0 if x is None else x  # noqa: E731
        g = (X.csv_surface if surf else X.csv_curve)(txt)
        exp = [[q[1] for q in r]] + ([[q[0] for q in r]] if surf else []) + [[v(q[2]) for q in r], [v(q[3]) for q in z], [v(q[3]) for q in r], [v(q[2]) for q in z]]
        check([list(x) for x in g[:-1]] == exp, "R %s, Z %s written as %r", r, z, txt)
    return {"labels": ["surface" if surf else "curve", "complete" if want else "holes"], "nontrivial": len(r) > 0}


PROPS = [Prop("curves", curves, run_curves, quick=400, thorough=10000, isolate=True, budget=10),
         Prop("file", coils_file, run_file, quick=700, thorough=20000, isolate=True, budget=20),
         Prop("raw", raw, run_raw, quick=500, thorough=20000, isolate=True, budget=15),
         Prop("history", history, run_history, quick=500, thorough=15000, isolate=True, budget=25),
         Prop("populated", lambda: st.fixed_dictionaries({"cfg": config(holes=True), "indent": st.integers(0, 4)}), run_populated, quick=400, thorough=10000, isolate=True, budget=15),
         Prop("algebra", algebra, run_algebra, quick=400, thorough=10000, isolate=True, budget=10)]
