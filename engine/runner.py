"""Explores the harnesses of a check, replays counterexamples, writes evidence."""

import concurrent.futures as cf
import importlib
import contextlib
import io
import json
import math
import multiprocessing
import os
import random
import re
import signal
import sys
import time
import traceback
import warnings

from . import sym
from .sym import (ConcreteCtx, PathBudget, PathDone, PathInfeasible, SymCtx,
                  Unsupported, Violation)
from .world import REPO, World

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_W = {}


def worlds():
    if not _W:
        _W["sym"] = World(True)
        _W["con"] = World(False)
    return _W["sym"], _W["con"]


HANG = 60  # seconds a run on plain values may take (they take well below one)


class Hang(BaseException):
    pass


@contextlib.contextmanager
def alarm(seconds, exc):
    """Raise exc after so many seconds (main thread only)."""
    t0 = time.time()

    def ring(*a):
        raise exc

    try:
        old = signal.signal(signal.SIGALRM, ring)
    except ValueError:
        yield
        return
    rest = signal.setitimer(signal.ITIMER_REAL, max(seconds, 0.01))[0]
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        if rest:
            signal.setitimer(signal.ITIMER_REAL, max(rest - (time.time() - t0), 0.01))


def concrete_run(h, params, values, keep=None):
    """(status, failures, ctx): ok | fail | raise | skip"""
    _, wc = worlds()
    ctx = ConcreteCtx(values)
    old = sym.CTX[0]
    sym.CTX[0] = None
    ws_mods = None
    try:
        with wc, warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                with contextlib.redirect_stdout(io.StringIO() if not os.environ.get("VERIF_OUT") else sys.stderr), alarm(HANG, Hang()):
                    h["fn"](ctx, wc, **params)
            finally:
                wc.unpatch()
        if ctx.failures:
            return "fail", ctx.failures, ctx
        return "ok", [], ctx
    except (PathInfeasible, PathDone):
        if ctx.failures:
            return "fail", ctx.failures, ctx
        return "skip", [], ctx
    except Unsupported as e:
        return "skip", [], ctx
    except Hang:
        return "raise", ctx.failures + [("does not end", "no result within %d s" % HANG)], ctx
    except Exception as e:
        if ctx.failures:
            return "fail", ctx.failures, ctx
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(REPO)]
        w = where[-1] if where else tb[-1]
        return "raise", [("exception", "%s: %s at %s:%s" % (
            type(e).__name__, e, os.path.relpath(w.filename, REPO) if where else w.filename, w.name))], ctx
    finally:
        sym.CTX[0] = old


def sample_inputs(inputs, order, rng, n):
    """Random values within the declared bounds (only used to look for a
    reproducible witness of a query the solver left open)."""
    for k in range(n):
        v = {}
        for name in order:
            kind, t, extra = inputs[name]
            if kind == "bool":
                v[name] = rng.random() < 0.5
            elif kind == "int":
                lo, hi = extra
                lo = -5 if lo is None else lo
                hi = lo + 10 if hi is None else hi
                v[name] = rng.randint(lo, hi)
            else:
                lo, hi = extra[0], extra[1]
                lo = -10.0 if lo is None else float(lo)
                hi = lo + 20.0 if hi is None else float(hi)
                v[name] = rng.uniform(lo, hi) if k % 4 else float(round(rng.uniform(lo, hi)))
                v[name] = min(max(v[name], lo), hi)
        yield v


class Task:
    def __init__(self, modname, hi, pi, tier, budget):
        self.modname, self.hi, self.pi, self.tier, self.budget = modname, hi, pi, tier, budget


def harness_list(mod):
    return mod.HARNESSES


def params_of(h, tier):
    p = h.get("params", [{}])
    if tier == "thorough":
        p = p + h.get("thorough", [])
    return p


def build_native(mod):
    if getattr(mod, "NATIVE", None):
        from . import cxx
        for name, args in mod.NATIVE.items():
            cxx.build(name, args.get("sources", ()), args.get("flags", ()), args.get("libs", ()))


def run_task(args):
    modname, hi, pi, tier, budget, seed = args
    mod = importlib.import_module(modname)
    build_native(mod)
    h = harness_list(mod)[hi]
    params = params_of(h, tier)[pi]
    t_start = time.time()
    ws, wc = worlds()
    opts = dict(h.get("opts", {}))
    ctx = SymCtx(opts)
    ctx.deadline = t_start + budget
    rng = random.Random(seed * 1000003 + hi * 1009 + pi)
    res = dict(harness=h["name"], params=params, paths=0, infeasible=0, branches=0,
               checks=0, validated=0, inconclusive={}, unsupported={}, truncated=False,
               violation=None, unreproduced=[], functions={}, samples=[], reached=[],
               reach_ok=False, assumed=[], labels={})
    reached = set()

    def on_candidate(c, label, values):
        tried = []
        if values is not None:
            st, fails, cc = concrete_run(h, params, values)
            if st in ("fail", "raise"):
                raise Violation(label, values, fails)
            tried.append(values)
        for v in sample_inputs(c.inputs, c.order, rng, opts.get("samples", 40)):
            if tried and values is not None:
                # vary the solver's assignment rather than start from scratch
                w = dict(values)
                for k in c.order:
                    if c.inputs[k][0] in ("real", "angle") and rng.random() < 0.5:
                        w[k] = v[k]
                v = w
            st, fails, cc = concrete_run(h, params, v)
            if st == "fail" or (st == "raise" and opts.get("raise_is_violation", True)):
                raise Violation(label, v, fails)
        if values is None or c.abstracted:
            res["inconclusive"][label] = res["inconclusive"].get(label, 0) + 1
        else:
            res["unreproduced"].append((label, values))

    ctx.on_candidate = on_candidate
    prefixes = [[]]
    witness_max = opts.get("witnesses", 4)
    while prefixes:
        if time.time() - t_start > budget:
            res["truncated"] = True
            break
        p = prefixes.pop()
        ctx.start(p)
        prof = None
        if res["paths"] < 3:
            funcs = res["functions"]

            def prof(frame, event, arg):
                if event == "call":
                    f = frame.f_code.co_filename
                    if f.startswith(REPO):
                        k = "%s:%s" % (os.path.relpath(f, REPO), frame.f_code.co_qualname)
                        funcs[k] = funcs.get(k, 0) + 1

        status = "done"
        try:
            with ws, warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    sys.setprofile(prof)
                    with contextlib.redirect_stdout(io.StringIO() if not os.environ.get("VERIF_OUT") else sys.stderr), \
                            alarm(budget + 10 - (time.time() - t_start), PathBudget()):
                        h["fn"](ctx, ws, **params)
                finally:
                    sys.setprofile(None)
                    ws.unpatch()
        except PathInfeasible:
            status = "infeasible"
        except PathDone:
            pass
        except PathBudget:
            status = "budget"
            res["truncated"] = True
        except Unsupported as e:
            status = "unsupported"
            fr = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(REPO)]
            msg = "%s at %s" % (e, "%s:%d" % (os.path.relpath(fr[-1].filename, REPO), fr[-1].lineno) if fr else "?")
            res["unsupported"][msg] = res["unsupported"].get(msg, 0) + 1
        except Violation as e:
            res["violation"] = dict(label=e.label, values=e.values, failures=e.failures)
        except Exception as e:
            status = "exception"
            fr = [f for f in traceback.extract_tb(e.__traceback__)]
            msg = "%s: %s at %s:%d" % (type(e).__name__, str(e)[:200], fr[-1].filename, fr[-1].lineno)
            exc = msg
            if os.environ.get("VERIF_TB"):
                traceback.print_exc()
        if res["violation"]:
            break
        prefixes.extend(ctx.new_prefixes)
        if status == "infeasible":
            res["infeasible"] += 1
            continue
        res["paths"] += 1
        res["checks"] += ctx.checks
        for l in ctx.labels:
            res["labels"][l] = res["labels"].get(l, 0) + 1
        reached |= ctx.reached
        # model of the path: reachability witness and validation trace
        want = res["paths"] <= witness_max or status in ("exception", "unsupported", "budget")
        if want and len(res["samples"]) < 200:
            try:
                r, m = ctx.solve(sym.z3.BoolVal(True), timeout=3000)
            except Exception:
                r, m = None, None
            if r == sym.z3.unsat:
                res["infeasible"] += 1
                res["paths"] -= 1
                continue
            if m is not None:
                values = ctx.values(m)
                st, fails, cc = concrete_run(h, params, values)
                if st == "fail" or st == "raise":
                    res["violation"] = dict(label=fails[0][0], values=values, failures=fails)
                    break
                if st == "ok":
                    res["validated"] += 1
                    if cc.checks:
                        res["reach_ok"] = True
                    if len(res["samples"]) < 2:
                        res["samples"].append(dict(inputs=values, status=status, checks=cc.checks))
            if status in ("exception", "unsupported", "budget"):
                # the encoding could not follow: look for a witness by models
                for v in sample_inputs(ctx.inputs, ctx.order, rng, opts.get("samples", 40)):
                    st, fails, cc = concrete_run(h, params, v)
                    if st == "fail" or st == "raise":
                        res["violation"] = dict(label=fails[0][0], values=v, failures=fails)
                        break
                    if st == "ok":
                        res["reach_ok"] = res["reach_ok"] or cc.checks > 0
                if res["violation"]:
                    break
        if status == "exception":
            res["unsupported"][exc] = res["unsupported"].get(exc, 0) + 1
        if os.environ.get("VERIF_DEBUG"):
            print(h["name"], params, status, ctx.decisions, file=sys.stderr)
    if not res["violation"] and not res["reach_ok"]:
        # degenerate exploration: still run the harness on plain inputs
        if res["paths"] and ctx.order is not None:
            for v in sample_inputs(ctx.inputs, ctx.order, rng, 60):
                st, fails, cc = concrete_run(h, params, v)
                if st == "fail" or st == "raise":
                    res["violation"] = dict(label=fails[0][0], values=v, failures=fails)
                    break
                if st == "ok" and cc.checks:
                    res["reach_ok"] = True
                    break
    sym.CTX[0] = None
    if "engine.cxx" in sys.modules:
        for k in sys.modules["engine.cxx"].functions():
            res["functions"][k] = 1
    res["stats"] = ctx.stats
    res["assumed"] = sorted(ctx.assumed)
    res["reached"] = sorted(reached)
    res["wall"] = time.time() - t_start
    return res


def load_known():
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                if line.startswith("finding: "):
                    out.append(dict(json.loads(line[9:]), kind="finding"))
    return out


def match_known(known, pid, r):
    for k in known:
        if k.get("kind") == "finding" and k["property"] == pid and k["harness"] == r["harness"]:
            pv = k.get("params")
            if pv is not None and any(r["params"].get(x) != y for x, y in pv.items()):
                continue
            if k.get("label") and not r["violation"]["label"].startswith(k["label"]):
                continue
            return k
    return None


def run_check(pid, tier="quick", seed=1, only=None, replay=None, jobs=8):
    t0 = time.time()
    sys.path.insert(0, VERIF)
    modname = "checks." + pid
    mod = importlib.import_module(modname)
    hs = harness_list(mod)
    build_native(mod)
    if replay:
        with open(replay) as f:
            d = json.load(f)
        h = [x for x in hs if x["name"] == d["harness"]][0]
        st, fails, cc = concrete_run(h, d["params"], d["values"])
        print("replay of %s (%s): %s" % (d["harness"], d["label"], st))
        for f in fails:
            print("  ", f)
        return 1 if st in ("fail", "raise") else 0
    ws, wc = worlds()
    for w in (ws, wc):
        with w:
            for m in getattr(mod, "PRELOAD", []):
                w.mod(m)
    total = getattr(mod, "BUDGET", {}).get(tier, 60 if tier == "quick" else 600)
    tasks = []
    for hi, h in enumerate(hs):
        if only and h["name"] not in only:
            continue
        for pi, p in enumerate(params_of(h, tier)):
            b = h.get("budget", {}).get(tier, total)
            tasks.append((modname, hi, pi, tier, b, seed))
    results = []
    if jobs <= 1 or len(tasks) == 1:
        for t in tasks:
            results.append(run_task(t))
    else:
        results = run_all(tasks, jobs)
    return finish(pid, mod, tier, seed, results, t0)


def _worker(conn):
    while True:
        t = conn.recv()
        if t is None:
            return
        try:
            conn.send((True, run_task(t)))
        except BaseException as e:
            conn.send((False, "".join(traceback.format_exception(e))))


def run_all(tasks, jobs):
    """Every task in one of several processes; one that goes on long after its
    budget (the solver does not always heed its limits) is ended."""
    from multiprocessing.connection import wait

    mp = multiprocessing.get_context("fork")
    left = list(range(len(tasks)))[::-1]
    out = [None] * len(tasks)
    busy = {}

    def start():
        a, b = mp.Pipe()
        p = mp.Process(target=_worker, args=(b,))
        p.start()
        b.close()
        return a, p

    def give(a, p):
        if left:
            i = left.pop()
            a.send(tasks[i])
            busy[a] = (p, i, time.time() + tasks[i][4] + GRACE)
        else:
            a.send(None)
            p.join()
            a.close()

    for _ in range(min(jobs, len(tasks))):
        give(*start())
    while busy:
        ready = wait(list(busy), timeout=1)
        for a in ready:
            p, i, _ = busy.pop(a)
            try:
                ok, r = a.recv()
            except EOFError:
                # ended from outside (out of memory)
                out[i] = nothing(tasks[i], "the process ended early")
                p.join()
                give(*start())
                continue
            if not ok:
                raise RuntimeError(r)
            out[i] = r
            give(a, p)
        for a in [a for a, (p, i, end) in busy.items() if time.time() > end]:
            p, i, _ = busy.pop(a)
            p.kill()
            p.join()
            out[i] = nothing(tasks[i], "the solver did not stop")
            if left:
                give(*start())
    return out


GRACE = 60


def nothing(t, why):
    modname, hi, pi, tier, budget, seed = t
    h = harness_list(importlib.import_module(modname))[hi]
    return dict(harness=h["name"], params=params_of(h, tier)[pi], paths=0, infeasible=0, branches=0, checks=0, validated=0,
                inconclusive={why: 1}, unsupported={}, truncated=True, violation=None, unreproduced=[], functions={}, samples=[],
                reached=[], reach_ok=True, assumed=[], labels={}, stats={}, wall=budget + GRACE)


def finish(pid, mod, tier, seed, results, t0):
    known = load_known()
    rc = 0
    nviol = 0
    os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
    for i, r in enumerate(results):
        v = r["violation"]
        if v:
            k = match_known(known, pid, r)
            if k is not None:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
                continue
            path = os.path.join(VERIF, "out", "%s-%s-%d.json" % (pid, re.sub(r"[^A-Za-z0-9]+", "_", r["harness"]), i))
            with open(path, "w") as f:
                json.dump(dict(property=pid, harness=r["harness"], params=r["params"],
                               label=v["label"], values=v["values"], failures=v["failures"]), f, indent=1, default=str)
            nviol += 1
            rc = 1
            print("%s: %s %s\n  fails: %s\n  inputs: %s" % (
                pid, r["harness"], r["params"], v["failures"][:3], json.dumps(v["values"], default=str)[:600]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
    unrep = [(r["harness"], r["params"], u) for r in results for u in r["unreproduced"]]
    vac = [r["harness"] for r in results if not r["reach_ok"] and not r["violation"]]
    if rc == 0 and unrep:
        print("ERROR: %d counterexamples did not reproduce on the real code: %s" % (len(unrep), str(unrep[0])[:800]))
        rc = 2
    if rc == 0 and vac:
        print("ERROR: no reachability witness for %s" % vac)
        rc = 2
    st = {}
    for r in results:
        for k, x in r["stats"].items():
            st[k] = st.get(k, 0) + x
    funcs = {}
    for r in results:
        for k, n in r["functions"].items():
            funcs[k] = funcs.get(k, 0) + n
    inc = {}
    for r in results:
        for k, n in list(r["inconclusive"].items()) + list(r["unsupported"].items()):
            inc["%s: %s" % (r["harness"], k)] = inc.get("%s: %s" % (r["harness"], k), 0) + n
        if r["truncated"]:
            inc["%s %s: time budget reached" % (r["harness"], r["params"])] = 1
    cov = dict(
        states=sum(r["paths"] + r["infeasible"] for r in results),
        transitions=st.get("branches", 0),
        traces_validated_against_impl=sum(r["validated"] for r in results),
        samples=[dict(harness=r["harness"], params=r["params"], **s) for r in results for s in r["samples"][:1]][:12],
        paths=sum(r["paths"] for r in results),
        assertions_decided=sum(r["checks"] for r in results),
        queries=st.get("queries", 0),
        solver_time_s=round(st.get("solver_time", 0), 3),
        unknown_answers=st.get("unknown", 0),
        decided_by=dict(smt=st.get("smt_proofs", 0), normal_form=st.get("nf_proofs", 0), interval=st.get("interval_proofs", 0)),
        functions_encoded=sorted(funcs),
        bounds=getattr(mod, "BOUNDS", ""),
        tasks=[dict(harness=r["harness"], params=r["params"], paths=r["paths"], wall_s=round(r["wall"], 2)) for r in results],
        inconclusive=inc,
        reachability_witnesses=sum(1 for r in results if r["reach_ok"]),
        explanation="states: execution paths of the real functions explored symbolically; transitions: branch decisions; "
                    "traces validated: path models re-run on the unmodified code",
    )
    assumptions = list(getattr(mod, "ASSUMPTIONS", []))
    for r in results:
        for a in r["assumed"]:
            if a not in assumptions:
                assumptions.append(a)
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d paths, %d assertions, %d queries (%.1f s solver), %d replays, %d inconclusive, %.1f s -> %s" % (
        pid, tier, cov["paths"], cov["assertions_decided"], cov["queries"], cov["solver_time_s"],
        cov["traces_validated_against_impl"], sum(inc.values()), ev["wall_s"],
        {0: "holds", 1: "VIOLATED", 2: "ERROR"}[rc]))
    if inc:
        for k, n in list(inc.items())[:10]:
            print("  inconclusive: %s (%d)" % (k, n))
    return rc
