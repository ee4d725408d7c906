"""C27: the iteration log shows the values it was given, in every output mode and for every history of stages."""
import math
import re

from hypothesis import strategies as st

from vp import repo
from vp.harness import Prop, check

PROPERTY = "C27"
RULE = ("A case is an output mode and a history of stages, iterations and restarts with random residuals, energies and counts. Oracle: the "
        "legacy rows parse back to the given numbers under their column titles; the progress displays are interpreted by a small terminal "
        "emulator, whose screen must show each stage once with its latest numbers and the progress fraction from the documented rule; the "
        "summary box shows the given numbers; silent prints nothing. Non-trivial: at least one logged iteration.")
ASSUMPTIONS = []
X = None
RES = st.floats(-16, 3).map(lambda e: 10.0 ** e)


def setup():
    global X
    X, = repo.modules(PROPERTY, ["vx_log"])


@st.composite
def case(draw):
    mode = draw(st.sampled_from([0, 1, 1, 2, 2, 3, 3]))
    n = draw(st.integers(1, 4))
    free = draw(st.booleans())
    ops = []
    for i in range(n):
        again = draw(st.integers(0, 5)) == 0
        for rep in range(2 if again else 1):
            niter = draw(st.integers(1, 20000))
            ops.append(["begin", i, n, draw(st.integers(3, 300)), draw(st.integers(1, 2000)), 10.0 ** draw(st.integers(-16, -2)), niter, free])
            it = 0
            for _ in range(draw(st.integers(0, 4))):
                it += draw(st.integers(1, 500))
                f = lambda: draw(RES)  # noqa: E731
                ops.append(["log", it, f(), f(), f(), f(), f(), f(), draw(st.floats(1e-4, 1)), draw(st.floats(0.1, 20)), draw(st.floats(1e-6, 1e6)),
                            draw(st.floats(0, 0.99)), draw(st.floats(0, 30)), draw(st.floats(1e-12, 10))])
            if rep == 0 and again:
                continue
            ops.append(["end", draw(st.floats(1e-4, 1e4))])
    if draw(st.booleans()):
        f = lambda: draw(RES)  # noqa: E731
        ops.append(["run", draw(st.booleans()), draw(st.integers(0, 10**5)), draw(st.integers(0, 200)), f(), f(), f(), 1e-12] +
                   [draw(st.floats(0, 0.5)) for _ in range(3)] + [draw(st.floats(0.01, 99)) for _ in range(5)])
    return {"mode": mode, "ops": ops}


def near(a, b, digits):
    """a is b printed with this many significant digits"""
    return abs(a - b) <= abs(b) * 0.51 * 10.0 ** (1 - digits) + 1e-300


def fixed(a, b, digits):
    return abs(a - b) <= 0.51 * 10.0 ** -digits + abs(b) * 1e-12


def screen(text):
    """What a terminal shows after this text."""
    rows, y, x = [""], 0, 0
    i = 0
    while i < len(text):
        m = re.compile(r"\033\[(\d*)([A-Za-z])").match(text, i)
        if m:
            n, k = int(m.group(1) or 0), m.group(2)
            if k == "A":
                check(y - n >= 0, "the cursor leaves the top of the output")
                y -= n
            elif k == "K":
                rows[y] = rows[y][:x]
            i = m.end()
            continue
        ch = text[i]
        if ch == "\n":
            y, x = y + 1, 0
            if y == len(rows):
                rows.append("")
        elif ch == "\r":
            x = 0
        else:
            r = rows[y].ljust(x)
            rows[y] = r[:x] + ch + r[x + 1:]
            x += 1
        i += 1
    return rows


def progress(s):
    if s["done"]:
        return 1.0
    a = 0.0
    if s["first"] is not None and s["fsq"] > 0:
        lt = math.log10(s["ftol"])
        if s["first"] > lt:
            a = (s["first"] - math.log10(s["fsq"])) / (s["first"] - lt)
    return max(0.0, min(1.0, max(a, s["iter"] / s["niter"])))


COLS = ["ITER", "FSQR", "FSQZ", "FSQL", "fsqr", "fsqz", "fsql", "DELT", "RAX(v=0)", "W_MHD", "<BETA>", "<M>", "DELBSQ"]
DIG = [0, 3, 3, 3, 3, 3, 3, 3, 4, 5, 5, 0, 4]


def legacy(ops, text):
    lines = [x for x in text.split("\n") if x.strip()]
    want = []
    for o in ops:
        if o[0] == "begin":
            want.append(("begin", o))
        elif o[0] != "run":
            want.append((o[0], o))
    k, header = 0, None
    for ln in lines:
        if "NS" in ln and "NITER" in ln:
            check(k < len(want) and want[k][0] == "begin", "a stage header is printed out of turn: %r", ln)
            o = want[k][1]
            v = re.findall(r"= *(\S+)", ln)
            check(int(v[0]) == o[3] and int(v[1]) == o[4] and near(float(v[2]), o[5], 4) and int(v[3]) == o[6], "stage header %r for %r", ln, o)
            k += 1
            free = o[7]
        elif "ITER" in ln:
            header = ln.replace("|", " ").split()
            check(header == COLS[:13 if free else 12], "column titles %r", header)
        elif set(ln.strip()) <= set("-+"):
            continue
        elif "MHD Energy" in ln:
            check(k < len(want) and want[k][0] == "end", "energy printed out of turn")
            check(near(float(ln.split("=")[1]), want[k][1][1], 7), "energy %r for %r", ln, want[k][1])
            k += 1
        else:
            check(k < len(want) and want[k][0] == "log", "a row is printed out of turn: %r", ln)
            o = want[k][1]
            v = ln.replace("|", " ").split()
            check(len(v) == len(header), "row %r", ln)
            check(int(v[0]) == o[1], "iteration %r", ln)
            for j in range(1, len(v)):
                ok = fixed(float(v[j]), o[j + 1], 3) if COLS[j] == "<M>" else near(float(v[j]), o[j + 1], DIG[j])
                check(ok, "%s is printed as %s for %r", COLS[j], v[j], o[j + 1])
            k += 1
    check(k == len(want), "%d of %d events are printed", k, len(want))


def summary(o, text):
    t = re.sub(r"\033\[\d*m", "", text)
    check(("NOT CONVERGED" in t) == (not o[1]) and "CONVERGED" in t, "status in the summary of %r", o[:2])

    def val(label):
        m = re.search(re.escape(label) + r"\s+([-+0-9.e]+)", t)
        check(m is not None, "%r is missing from the summary", label)
        return float(m.group(1))
    check(val("Jacobian resets") == o[3], "Jacobian resets %r", o[3])
    for lab, i in (("Final FSQR", 4), ("Final FSQZ", 5), ("Final FSQL", 6)):
        check(near(val(lab), o[i], 5), "%s: %r for %r", lab, val(lab), o[i])
    for lab, i in (("β total", 8), ("β poloidal", 9), ("β toroidal", 10)):
        check(fixed(val(lab), 100 * o[i], 4), "%s: %r for %r", lab, val(lab), o[i])
    for lab, i in (("R_major", 14), ("a_minor", 13), ("B0", 15)):
        check(fixed(val(lab), o[i], 4), "%s: %r for %r", lab, val(lab), o[i])
    rows = [r for r in t.split("\n") if r.strip()]
    check(len({len(r) for r in rows}) == 1, "the summary box is ragged: %r", sorted({len(r) for r in rows}))


def run(c):
    outs = [b.decode("utf-8") for b in X.replay(c["mode"], [tuple(o) for o in c["ops"]])]
    text, mode, ops = outs[-1], c["mode"], c["ops"]
    logs = sum(o[0] == "log" for o in ops)
    lab = ["silent", "legacy", "progress", "single line"][mode]
    if mode == 0:
        check(text == "", "silent mode prints %r", text[:80])
    elif mode == 1:
        legacy(ops, text)
    else:
        stages, cur = {}, None
        for o, out in zip(ops, outs):
            if o[0] == "begin":
                cur = o[1]
                old = stages.get(cur, {})
                stages[cur] = {"ns": o[3], "ftol": o[5], "niter": o[6], "iter": 0, "first": None, "fsq": old.get("fsq", 0.0), "done": False, "num": o[2],
                               "free": o[7], "v": old.get("v")}
                continue
            if o[0] == "run":
                summary(o, text[len(outs[-2]) if len(outs) > 1 else 0:])
                continue
            s = stages[cur]
            if o[0] == "log":
                s["iter"], s["fsq"] = o[1], o[2] + o[3] + o[4]
                if s["first"] is None:
                    s["first"] = math.log10(s["fsq"])
                s["v"] = (o[11], o[10], o[9], o[13])
            else:
                s["done"] = True
            rows = screen(out)
            if mode == 2:
                bars = [r for r in rows if re.match(r"\s*Stage \d+", r)]
                check(len(bars) == len(stages), "%d stage bars are on screen for %d stages", len(bars), len(stages))
                sel = [r for r in rows if re.search(r"\[\d+/\d+\] NS=", r)]
                check(len(sel) == 1, "%d stage lines on screen", len(sel))
                got = re.findall(r"\[(\d+)/(\d+)\] NS=(\d+)", sel[0])
                check(got == [(str(i + 1), str(s["num"]), str(stages[i]["ns"])) for i in sorted(stages)], "stage line %r", sel[0])
                met = [r for r in rows if "FSQ=" in r or "waiting" in r]
                check(len(met) == len(stages), "%d lines of numbers for %d stages", len(met), len(stages))
                for i in sorted(stages):
                    b, mt, q = bars[i], met[i], stages[i]
                    m = re.search(r"Stage (\d+) \(NS= *(\d+)\): \[([=-]*)\] *([0-9.]+)%", b)
                    check(m is not None, "bar %r", b)
                    check(int(m.group(1)) == i + 1 and int(m.group(2)) == q["ns"], "bar %r", b)
                    check(fixed(float(m.group(4)), 100 * progress(q), 1), "bar %r, expected %.2f%%", b, 100 * progress(q))
                    check(len(m.group(3)) == 50 and abs(m.group(3).count("=") - 50 * progress(q)) <= 1.001, "bar %r for %.3f", b, progress(q))
                    if q["first"] is None and not q["done"]:
                        check("waiting" in mt, "numbers of a stage that has none: %r", mt)
                    elif q["v"] is not None:
                        g = dict(re.findall(r"(\S+?)= *(\S+)", mt))
                        check(int(g["iter"]) == q["iter"] and near(float(g["FSQ"]), q["fsq"], 3), "numbers %r", mt)
                        check(fixed(float(g["beta"]), q["v"][0], 4) and fixed(float(g["W_MHD"]), q["v"][1], 4) and fixed(float(g["RAX"]), q["v"][2], 4), "numbers %r for %r", mt, q)
                        check(("DELBSQ" in g) == s["free"], "DELBSQ in %r", mt)
                        if s["free"]:
                            check(near(float(g["DELBSQ"]), q["v"][3], 4), "numbers %r", mt)
            else:
                live = [r for r in rows if r.strip()]
                r = live[-1]
                m = re.search(r"Stage (\d+)/(\d+) \[ns=(\d+)\] \[([=-]*)\] *([0-9.]+)% *FSQ=(\S+)", r)
                check(m is not None, "line %r", r)
                check((int(m.group(1)), int(m.group(2)), int(m.group(3))) == (cur + 1, s["num"], s["ns"]), "line %r", r)
                check(fixed(float(m.group(5)), 100 * progress(s), 1), "line %r, expected %.2f%%", r, 100 * progress(s))
                if s["first"] is not None:
                    check(near(float(m.group(6)), s["fsq"], 3), "line %r, FSQ is %r", r, s["fsq"])
                if s["free"] and s["v"]:
                    d = re.search(r"delbsq=(\S+)", r)
                    check(d is not None and near(float(d.group(1)), s["v"][3], 3), "line %r", r)
                ended = sum(1 for x in stages.values() if x["done"])
                check(len(live) == ended + (0 if s["done"] else 1), "%d lines on screen, %d stages ended", len(live), ended)
    if mode < 2 and ops[-1][0] == "run":
        check(len(outs) < 2 or outs[-1] == outs[-2], "a summary in mode %d", mode)
    return {"labels": [lab], "nontrivial": logs > 0}


PROPS = [Prop("history", case, run, quick=700, thorough=10000, shards=4, budget=60)]
