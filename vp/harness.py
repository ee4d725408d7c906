"""Property runner: Hypothesis generates and shrinks, cases run isolated, evidence is measured.

A check module defines
  PROPERTY  the property id
  RULE      how cases are made and what makes one non-trivial
  setup()   builds / imports what the cases need (runs once, before any fork)
  PROPS     a list of Prop

A case is a plain JSON value, so the shrunk failure *is* the replay file:
  run_check.py <ID> --replay <file>
"""
import glob
import hashlib
import importlib
import json
import os
import select
import shutil
import signal
import sys
import time
import traceback

sys.dont_write_bytecode = True
_HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _HYP not in sys.path:
    sys.path.append(_HYP)

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings  # noqa: E402

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property is broken for this case."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Skip(Exception):
    """The case is outside the property's domain (e.g. the solver did not converge)."""


class Prop:
    def __init__(self, name, strategy, run, quick=100, thorough=None, isolate=True,
                 shards=1, budget=60, thorough_budget=None, timeout=120, nontrivial=None):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 10
        self.isolate = isolate
        self.shards = shards
        self.budget = budget
        self.thorough_budget = thorough_budget or budget * 10
        self.timeout = timeout
        self.nontrivial = nontrivial


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def canon(case):
    return json.dumps(case, sort_keys=True)


def sub_seed(seed, *names):
    h = hashlib.sha256(("%d|" % seed + "|".join(str(n) for n in names)).encode()).digest()
    return int.from_bytes(h[:6], "big")


def _execute(prop, case):
    """Runs one case here. Returns (status, msg, info)."""
    try:
        info = prop.run(case)
        return "ok", "", info if isinstance(info, dict) else {}
    except Skip as e:
        return "skip", str(e), {}
    except Violation as e:
        return "fail", str(e), {"key": e.key} if e.key else {}
    except hypothesis.errors.UnsatisfiedAssumption:
        raise
    except BaseException as e:  # an exception nobody expected on an in-domain case
        if isinstance(e, KeyboardInterrupt):
            raise
        tb = traceback.format_exc(limit=-6)
        return "fail", "unexpected %s: %s\n%s" % (type(e).__name__, e, tb), {}


def execute(prop, case, isolate=None):
    if not (prop.isolate if isolate is None else isolate):
        return _execute(prop, case)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            if not os.environ.get("VERIF_DEBUG"):
                dn = os.open(os.devnull, os.O_RDWR)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
            out = json.dumps(_execute(prop, case)).encode()
            off = 0
            while off < len(out):
                off += os.write(w, out[off:])
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    end = time.monotonic() + prop.timeout
    hung = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            hung = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        chunk = os.read(r, 1 << 20)
        if not chunk:
            break
        data += chunk
    os.close(r)
    if hung:
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if hung:
        return "hang", "no result after %d s" % prop.timeout, {}
    if os.WIFSIGNALED(st):
        if os.WTERMSIG(st) == signal.SIGKILL:
            return "skip", "killed (out of memory?)", {}
        return "fail", "the process died with signal %d (%s)" % (
            os.WTERMSIG(st), signal.Signals(os.WTERMSIG(st)).name), {}
    try:
        return tuple(json.loads(data))
    except ValueError:
        return "fail", "the process ended with exit status %d and no result" % os.WEXITSTATUS(st), {}


def _work(mod, prop, tier, seed, shard, out_path, known):
    """Worker: one shard of one prop."""
    n = prop.quick if tier == "quick" else prop.thorough
    n = max(1, n // prop.shards)
    budget = prop.budget if tier == "quick" else prop.thorough_budget
    if os.environ.get("VERIF_BUDGET_SCALE"):
        budget *= float(os.environ["VERIF_BUDGET_SCALE"])
    shrink_budget = 60 if tier == "quick" else 240
    st = dict(prop=prop.name, shard=shard, evaluations=0, skipped=0, truncated=0, nontrivial=[],
              samples=[], labels={}, known={}, skip_reasons={}, slowest=0.0)
    seen = set()
    t0 = time.monotonic()
    fail = {"case": None, "msg": None, "t": None, "hang": False}
    if tier == "quick":
        prop.timeout = min(prop.timeout, 100)

    def one(case):
        now = time.monotonic()
        key = canon(case)
        if fail["hang"]:  # too slow to shrink
            if key == canon(fail["case"]):
                raise Violation(fail["msg"])
            return
        if fail["t"] is not None and now - fail["t"] > shrink_budget and key != canon(fail["case"]):
            return
        if fail["t"] is None and now - t0 > budget:
            st["truncated"] += 1
            return
        if not prop.isolate:
            with open(out_path + ".cur", "w") as f:
                f.write(key)
        status, msg, info = execute(prop, case)
        if status == "hang":
            # inconclusive unless it hangs again (in the thorough tier with twice the time)
            old = prop.timeout
            prop.timeout = old * (2 if tier == "thorough" else 1)
            status, msg, info = execute(prop, case)
            prop.timeout = old
            if status == "hang":
                status, fail["hang"] = "fail", True
        st["evaluations"] += 1
        st["slowest"] = max(st["slowest"], round(time.monotonic() - now, 3))
        if status == "fail" and info.get("key") in known:
            k = info["key"]
            st["known"][k] = st["known"].get(k, 0) + 1
            return
        if status == "fail":
            if fail["t"] is None:
                fail["t"] = time.monotonic()
            fail["case"], fail["msg"] = case, msg
            raise Violation(msg.splitlines()[0] if msg else "fail")
        if status == "skip":
            st["skipped"] += 1
            st["skip_reasons"][msg[:80]] = st["skip_reasons"].get(msg[:80], 0) + 1
            return
        for lab in info.get("labels", []):
            st["labels"][lab] = st["labels"].get(lab, 0) + 1
        nt = info.get("nontrivial", True) if prop.nontrivial is None else prop.nontrivial(case, info)
        if nt:
            hk = hashlib.sha1(key.encode()).hexdigest()[:16]
            if hk not in seen:
                seen.add(hk)
                st["nontrivial"].append(hk)
                if len(st["samples"]) < 3 or (len(st["samples"]) < 6 and len(seen) % 17 == 0):
                    st["samples"].append(case if len(key) < 1500 else {"truncated": key[:1500]})

    test = settings(max_examples=n, database=None, deadline=None, print_blob=False,
                    report_multiple_bugs=False, phases=[Phase.generate, Phase.target, Phase.shrink],
                    suppress_health_check=list(HealthCheck))(given(prop.strategy())(one))
    test = hypothesis.seed(sub_seed(seed, mod.PROPERTY, prop.name, shard))(test)
    err = None
    try:
        test()
    except Violation:
        pass
    except BaseException as e:
        if fail["case"] is None:
            err = "".join(traceback.format_exception(e))[-3000:]
    st["wall_s"] = round(time.monotonic() - t0, 2)
    if fail["case"] is not None:
        st["fail"] = {"case": fail["case"], "msg": fail["msg"]}
        reps = [fail["hang"] or execute(prop, fail["case"])[0] in ("fail", "hang") for _ in range(3)]
        st["fail"]["hang"] = fail["hang"]
        st["fail"]["replays"] = reps
    if err:
        st["error"] = err
    with open(out_path + ".tmp", "w") as f:
        json.dump(st, f)
    os.rename(out_path + ".tmp", out_path)


def load_known(pid):
    """Keys of the findings listed for this property (fixed entries suppress nothing)."""
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        d = json.load(f)
    return {e["key"]: e["what"] for e in d.get("findings", []) if e["property"] == pid}


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="only this prop (development)")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 8))
    a = ap.parse_args(argv)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    t0 = time.time()
    pid = a.property
    names = glob.glob(os.path.join(ROOT, "checks", pid.lower() + "_*.py"))
    if len(names) != 1:
        print("no check module for", pid)
        return 2
    sys.path.insert(0, ROOT)
    scratch = os.path.join(ROOT, ".build", "scratch-%s-%d" % (pid, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    os.environ["VERIF_SCRATCH"] = scratch
    os.environ["TMPDIR"] = scratch
    import tempfile
    tempfile.tempdir = scratch
    os.environ.setdefault("OMP_WAIT_POLICY", "passive")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    try:
        mod = importlib.import_module("checks." + os.path.basename(names[0])[:-3])
        try:
            mod.setup()
        except BaseException:
            traceback.print_exc()
            print("note: setup failed, no answer")
            return 2
        return _main(a, mod, pid, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        d = os.path.join(ROOT, ".build", "cmake-" + pid)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)


def _main(a, mod, pid, scratch, t0):
    props = {p.name: p for p in mod.PROPS}
    if a.replay:
        with open(a.replay) as f:
            d = json.load(f)
        p = props[d["prop"]]
        bad = 0
        for _ in range(3):
            s, msg, info = execute(p, d["case"], True)
            print(p.name, s, msg)
            bad += s in ("fail", "hang")
        if bad:
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
        return 1 if bad else 0

    known = load_known(pid)
    out_dir = os.path.join(scratch, "out")
    os.makedirs(out_dir)
    sel = [p for p in mod.PROPS if not a.only or p.name in a.only.split(",")]

    # saved inputs first (plain regression cases, no library involved)
    violations, regress_n = [], 0
    for path in sorted(glob.glob(os.path.join(ROOT, "regress", pid + "__*.json"))):
        with open(path) as f:
            d = json.load(f)
        if d["prop"] not in {p.name for p in sel}:
            continue
        regress_n += 1
        s, msg, info = execute(props[d["prop"]], d["case"])
        if s == "hang" and execute(props[d["prop"]], d["case"])[0] == "hang":
            violations.append((path, d["prop"], msg))
            break
        if s == "fail" and info.get("key") not in known:
            if all(execute(props[d["prop"]], d["case"])[0] == "fail" for _ in range(2)):
                violations.append((path, d["prop"], msg))

    jobs = []
    for p in sel:
        for sh in range(p.shards):
            jobs.append((p, sh, os.path.join(out_dir, "%s-%d.json" % (p.name, sh))))
    running, stuck = {}, []
    todo = list(jobs)
    while todo or running:
        while todo and len(running) < a.jobs:
            p, sh, path = todo.pop(0)
            sys.stdout.flush()
            sys.stderr.flush()
            k = os.fork()
            if k == 0:
                try:
                    _work(mod, p, a.tier, a.seed, sh, path, known)
                    os._exit(0)
                except BaseException:
                    traceback.print_exc()
                    os._exit(3)
            running[k] = (p, sh, path)
        k, st = os.waitpid(-1, os.WNOHANG)
        if k == 0:
            time.sleep(0.05)
            for q, (p, sh, path) in running.items():
                cur = path + ".cur"
                if not p.isolate and os.path.exists(cur) and not os.path.exists(path) and time.time() - os.path.getmtime(cur) > (100 if a.tier == "quick" else 200):
                    os.kill(q, signal.SIGKILL)
            continue
        done = running.pop(k, None)
        if done and not os.path.exists(done[2]) and os.path.exists(done[2] + ".cur"):
            stuck.append(done)
        if done and os.path.exists(done[2]):
            with open(done[2]) as f:
                if (json.load(f).get("fail") or {}).get("hang"):
                    todo = []  # other parts would only hang as well

    errors, res = [], []
    for p, sh, path in stuck:  # the worker died in, or never came back from, this case: again in a process of its own
        with open(path + ".cur") as f:
            t = f.read()
        try:
            case = json.loads(t)
        except ValueError:
            continue
        p.timeout = min(p.timeout, 100)
        s, msg, info = execute(p, case, True)
        if s in ("fail", "hang") and info.get("key") not in known:
            rdir = os.path.join(ROOT, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, "%s-%s-%d.json" % (pid, p.name, sh))
            with open(rp, "w") as f:
                json.dump({"property": pid, "prop": p.name, "case": case, "msg": msg, "seed": a.seed}, f, indent=1)
            violations.append((rp, p.name, msg))
            if s == "hang":
                break
    for p, sh, path in jobs:
        if not os.path.exists(path):
            errors.append("%s/%d: the worker ended without a result" % (p.name, sh))
            continue
        with open(path) as f:
            r = json.load(f)
        res.append(r)
        if r.get("error"):
            errors.append("%s/%d: %s" % (p.name, sh, r["error"]))
        if r.get("fail"):
            if any(r["fail"]["replays"]):
                rdir = os.path.join(ROOT, "evidence", "replay")
                os.makedirs(rdir, exist_ok=True)
                rp = os.path.join(rdir, "%s-%s-%d.json" % (pid, p.name, sh))
                with open(rp, "w") as f:
                    json.dump({"property": pid, "prop": p.name, "case": r["fail"]["case"],
                               "msg": r["fail"]["msg"], "seed": a.seed}, f, indent=1)
                violations.append((rp, p.name, r["fail"]["msg"]))
            else:
                errors.append("%s: failed once, not reproducible: %s %s" % (
                    p.name, r["fail"]["msg"], canon(r["fail"]["case"])[:500]))

    seen = set()
    by_prop = {}
    samples, labels, kn = [], {}, {}
    for r in res:
        b = by_prop.setdefault(r["prop"], dict(evaluations=0, distinct_nontrivial=0, skipped=0,
                                               truncated_by_budget=0, wall_s=0, labels={}, slowest_case_s=0))
        b["evaluations"] += r["evaluations"]
        b["skipped"] += r["skipped"]
        b["truncated_by_budget"] += r["truncated"]
        b["wall_s"] = round(b["wall_s"] + r["wall_s"], 1)
        b["slowest_case_s"] = max(b["slowest_case_s"], r["slowest"])
        for hk in r["nontrivial"]:
            if (r["prop"], hk) not in seen:
                seen.add((r["prop"], hk))
                b["distinct_nontrivial"] += 1
        for s in r["samples"][: (2 if r["shard"] == 0 else 0)]:
            samples.append({"prop": r["prop"], "case": s})
        for l, c in r["labels"].items():
            b["labels"][l] = b["labels"].get(l, 0) + c
        if r["skip_reasons"]:
            b.setdefault("skip_reasons", {}).update(r["skip_reasons"])
        for k_, c in r["known"].items():
            kn[k_] = kn.get(k_, 0) + c
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level="exploration",
              coverage=dict(evaluations=sum(b["evaluations"] for b in by_prop.values()),
                            distinct_nontrivial=len(seen), rule=mod.RULE, samples=samples,
                            saved_cases_replayed=regress_n, by_prop=by_prop, known_findings_hit=kn),
              assumptions=getattr(mod, "ASSUMPTIONS", []),
              wall_s=round(time.time() - t0, 1), violations=len(violations))
    if errors:
        ev["coverage"]["errors"] = errors
    if not a.only:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for n, b in by_prop.items():
        print("%s %-28s cases=%d nontrivial=%d skipped=%d truncated=%d wall=%.1fs slowest=%.2fs %s" % (
            pid, n, b["evaluations"], b["distinct_nontrivial"], b["skipped"],
            b["truncated_by_budget"], b["wall_s"], b["slowest_case_s"],
            json.dumps(b["labels"]) if b["labels"] else ""))
    for k_, what in known.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    for e in errors:
        print("note:", e)
    for rp, name, msg in violations:
        print("--- %s / %s: %s" % (pid, name, msg))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    print("%s %s tier=%s seed=%d wall=%.1fs" % (pid, "VIOLATED" if violations else "held", a.tier,
                                                a.seed, time.time() - t0))
    if violations:
        return 1
    if any("worker ended" in e or "Traceback" in e for e in errors):
        return 2
    return 0
