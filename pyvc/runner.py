"""Runs the drivers of one property, decides, writes evidence.

Decision:
  * every obligation of every driver discharged and no sampled input fails   -> exit 0 (proved)
  * an input fails on the real code (from sampling, a counterexample or a bounded search) -> exit 1
  * an obligation is definitely refuted on a path without any abstraction, but no failing input could be
    built from it                                                             -> exit 1, no-failing-input-found
  * anything else (unknown, unsupported construct, abstraction)               -> undecided: the bounded
    stand-in (sampling and bounded unrolling) decides, evidence says so
"""
from __future__ import annotations

import glob
import importlib
import json
import multiprocessing as mp
import os
import random
import re
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("PYVC_EVID") or os.path.join(HERE, "evidence")


class Driver:
    def __init__(self, name, fn, *, symbolic=True, budget=150, samples=300, sample_time=12, thorough_mult=8, unroll=3, finding=None,
                 bounded=None, max_paths=4000, note=None, xcheck=True, max_depth=1500, inline=0, scope=None):
        self.name, self.fn = name, fn
        self.symbolic = symbolic
        self.budget = budget
        self.samples, self.sample_time, self.thorough_mult = samples, sample_time, thorough_mult
        self.unroll = unroll
        self.finding = finding
        self.bounded = bounded
        self.max_paths = max_paths
        self.note = note
        self.xcheck = xcheck
        self.max_depth = max_depth
        self.inline = inline
        # labels of the obligations that belong to the property; the others are lemmas: not proved means undecided
        self.scope = scope


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


# ---------------------------------------------------------------- concrete runs
def run_native(drv, rng=None, asg=None, tier="quick", limit=None, interp=None):
    """Returns (status, label, info, env): status in ok/skip/fail/error."""
    from .env import CheckFailed, ConEnv, Skip

    env = ConEnv(rng=rng, assignment=asg, tier=tier, interp=interp)
    if interp is not None:
        interp.env = env
    limit = limit or (10 if asg else 40)
    # processor time, so that a loaded machine does not look like a loop
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        drv.fn(env)
        signal.setitimer(signal.ITIMER_PROF, 0)
        return "ok", None, None, env
    except Skip as e:
        return "skip", None, str(e), env
    except CheckFailed as e:
        return "fail", e.label, str(e.info), env
    except Timeout as e:
        if asg or not in_code(e):
            # inputs made up by the solver may simply be huge
            return "skip", None, "too large", env
        return "fail", "terminates", f"no result within {limit} s", env
    except (RecursionError, MemoryError) as e:
        if asg or not in_code(e):
            return "skip", None, "too large", env
        return "fail", f"no unexpected exception ({type(e).__name__})", repr(e)[:300], env
    except Exception as e:
        last = traceback.extract_tb(e.__traceback__)[-1]
        if asg and not in_code(e):
            # the driver could not build the input that was asked for
            return "skip", None, repr(e)[:200], env
        return "fail", f"no unexpected exception ({type(e).__name__})", f"{e!r} at {last.filename}:{last.lineno}"[:400], env
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def in_code(e):
    """Was the exception raised inside the code under test (rather than by the driver itself)?"""
    return any("/dissect/" in t.filename for t in traceback.extract_tb(e.__traceback__))


# ---------------------------------------------------------------- counterexamples
UINT = re.compile(r"^([US])(\d+)(le|be)$")


def concretise(ob, cap, seed, timeout):
    import z3

    from .engine import solve_native
    from .terms import collect, to_native

    fs = ob.formulas
    apps, consts = {}, {}
    for f in fs:
        apps.update(collect(f)[3])
        st, seen = [f], set()
        while st:
            t = st.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_int(t):
                consts[t.decl().name()] = t
            st.extend(t.children())
    extra = []
    if cap is not None:
        for t in consts.values():
            extra += [t <= cap, t >= -cap]
        for t in apps.values():
            if t.decl().name().startswith("fn_"):
                n = to_native(t)
                extra += [n <= cap, n >= -cap]
    r, m = solve_native(fs, timeout=timeout, link=True, seed=seed, extra=extra)
    if r != "sat":
        return None
    asg = {"ints": {}, "choices": {}, "funs": [], "bytes": [], "fsizes": {}, "salt": seed}
    for n, t in consts.items():
        v = m.eval(t, model_completion=True)
        if z3.is_int_value(v):
            asg["ints"][n] = v.as_long()
    for i in ob.inputs:
        if i[0] == "choice":
            asg["choices"][i[1]] = i[2]
    tab = {}
    for t in apps.values():
        nm = t.decl().name()
        if nm.endswith("$"):
            continue
        try:
            args = [m.eval(to_native(c), model_completion=True).as_long() for c in t.children()]
            val = m.eval(to_native(t), model_completion=True).as_long()
        except Exception:
            continue
        if nm.startswith("fn_"):
            asg["funs"].append([nm[3:], args, val])
        elif nm == "fsize":
            asg["fsizes"][str(args[0])] = val
        elif nm == "byte":
            tab[tuple(args)] = val & 255
        else:
            mm = UINT.match(nm)
            if mm:
                w = int(mm.group(2)) // 8
                bs = (val & ((1 << (8 * w)) - 1)).to_bytes(w, "little" if mm.group(3) == "le" else "big")
                for j, b in enumerate(bs):
                    tab[(args[0], args[1] + j)] = b
    asg["bytes"] = [[list(k), v] for k, v in tab.items()]
    return asg


def hunt(drv, obls, deadline, tier, res):
    """Try to turn refuted obligations into failing inputs of the real code."""
    seen = {}
    for ob in obls:
        if ob.formulas is None or seen.get(ob.label, 0) >= 3:
            continue
        seen[ob.label] = seen.get(ob.label, 0) + 1
        for cap in (6, 40, 1024, 70000, None):
            for seed in (0, 1):
                if time.time() > deadline:
                    return None
                try:
                    asg = concretise(ob, cap, seed, 2500)
                except Exception as e:
                    res["notes"].append(f"concretisation failed: {e!r}")
                    continue
                if asg is None:
                    break
                res["counterexamples_replayed"] += 1
                st, label, info, env = run_native(drv, random.Random(seed), asg, tier)
                if st == "fail":
                    return {"label": label, "info": info, "assignment": asg, "log": env.log, "obligation": ob.label}
                if st == "ok":
                    res["replay_passed"].add((ob.label, ob.path))
    return None


# ---------------------------------------------------------------- one driver
def driver_result(drv, tier, seed, hard=None, progress=None):
    from . import engine as G
    from .env import SymEnv
    from .interp import Interp

    t0 = time.time()
    res = {"driver": drv.name, "samples_ok": 0, "samples_skipped": 0, "status": None, "obligations": 0, "discharged": 0, "by_backend": {},
           "unsupported": {}, "failing": None, "undischarged": [], "functions": {}, "paths": 0, "complete_paths": 0, "solver_s": 0.0,
           "queries": 0, "loops": [], "notes": [], "counterexamples_replayed": 0, "replay_passed": set(), "xcheck": 0, "xcheck_diff": [],
           "bounded": list(drv.bounded) if isinstance(drv.bounded, (list, tuple)) else ([drv.bounded] if drv.bounded else []), "sample_log": [],
           "assumptions": [], "rechecked": None, "nfi": None, "labels": []}
    mult = drv.thorough_mult if tier == "thorough" else 1
    hard = hard or t0 + 1e6

    def sample(n, budget, base):
        end = min(time.time() + budget, hard)
        for i in range(n):
            if time.time() > end:
                break
            sd = f"{drv.name}:{seed}:{base}:{i}"
            st, label, info, env = run_native(drv, random.Random(sd), None, tier)
            if st == "ok":
                res["samples_ok"] += 1
                if len(res["sample_log"]) < 2:
                    res["sample_log"].append({"driver": drv.name, "inputs": {k: env.log[k] for k in list(env.log)[:14]}})
            elif st == "skip":
                res["samples_skipped"] += 1
            else:
                return {"label": label, "info": info, "rng": sd, "log": env.log, "obligation": label}
        return None

    if drv.finding:
        st, label, info, env = run_native(drv, random.Random(0), None, tier)
        res["status"] = "finding" if st == "fail" else "finding-gone"
        res["finding"] = {"id": drv.finding, "label": label, "info": info, "st": st}
        res["replay_passed"] = []
        return res

    fail = sample(drv.samples * mult, drv.sample_time * mult, "s")
    if fail:
        res.update(status="violated", failing=fail)
    if progress and not fail:
        part = {**res, "status": "bounded-clean" if res["samples_ok"] else "undecided", "replay_passed": 0,
                "notes": ["stopped by the time limit of the whole check, only sampled"]}
        progress(part)
    # interpreter against CPython on the same inputs
    if drv.xcheck and not fail:
        end = time.time() + 4 * mult
        i = tried = 0
        while i < 6 * mult and tried < 200 and time.time() < end:
            tried += 1
            sd = f"{drv.name}:{seed}:x:{tried}"
            st, label, info, env = run_native(drv, random.Random(sd), None, tier)
            if st != "ok":
                continue
            i += 1
            from .terms import Unsupported

            eng = G.Engine("x", time_budget=30)
            eng.work = []
            eng.concrete = True
            from . import terms as T

            ctx = G.Ctx(eng, [])
            T.set_cur(ctx)
            it = Interp(ctx, None)
            try:
                st2, l2, i2, env2 = run_native(drv, random.Random(sd), None, tier, interp=it)
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    raise
                res["notes"].append(f"cross-check skipped: {e!r}"[:200])
                continue
            finally:
                T.set_cur(None)
            res["xcheck"] += 1
            if st2 != "ok" or env.digest != env2.digest:
                d = next(((a, b) for a, b in zip(env.digest, env2.digest) if a != b), None)
                res["xcheck_diff"].append({"seed": sd, "st": st2, "label": l2, "info": i2, "diff": repr(d)[:300]})
    eng = None
    if drv.symbolic:
        G.STATS.__init__()
        # after a failing input the obligations are only run for the record
        left = 20 if fail else drv.budget * (3 if tier == "thorough" else 1)
        eng = G.Engine(drv.name, time_budget=max(5, min(left, hard - time.time())), max_paths=drv.max_paths, recheck=tier == "thorough",
                       max_depth=drv.max_depth, inline=drv.inline)
        over = None
        try:
            eng.explore(lambda ctx: drv.fn(SymEnv(ctx, tier)))
        except G.BudgetExceeded as e:
            over = str(e)
        finally:
            from . import terms as T

            T.set_cur(None)
        for o in eng.obls:
            if drv.scope and o.status == "refuted" and not o.label.startswith(drv.scope):
                o.status, o.reason = "unknown", "a lemma, not the property"
        collect_engine(res, eng)
        if over:
            res["unsupported"][over] = 1
            res["obligations"] += 1
        bad = [o for o in eng.obls if o.status == "refuted"]
        unk = [o for o in eng.obls if o.status == "unknown"]
        if fail:
            pass
        elif bad or unk:
            f = hunt(drv, bad, min(time.time() + 60, max(hard, time.time() + 8)), tier, res)
            if not f and any(o.imprecise for o in bad) and hard - time.time() > 5:
                # search for a real run by unrolling the loops
                u = G.Engine(drv.name, time_budget=min(60, hard - time.time()), max_paths=2500, unroll=drv.unroll)
                try:
                    u.explore(lambda ctx: drv.fn(SymEnv(ctx, tier)))
                except G.BudgetExceeded:
                    pass
                finally:
                    T.set_cur(None)
                ub = [o for o in u.obls if o.status == "refuted" and o.label.startswith(drv.scope or "")]
                res["notes"].append(f"bounded unrolling: {len(u.obls)} obligations, {len(ub)} refuted")
                f = hunt(drv, ub, min(time.time() + 60, hard), tier, res)
                bad = bad + ub
            if not f:
                f = sample(drv.samples * mult * 6, drv.sample_time * mult * 3, "deep")
            if f:
                res.update(status="violated", failing=f)
            else:
                prec = [o for o in bad if not o.imprecise and (o.label, o.path) not in res["replay_passed"]]
                # an interpreter that disagrees with CPython decides nothing
                if prec and not res["unsupported"] and not res["xcheck_diff"]:
                    res["status"] = "violated"
                    o = prec[0]
                    res["nfi"] = {"obligation": o.label, "path": repr(o.path), "solver": "sat (counter-model exists)",
                                  "smt": [str(x) for x in o.formulas][-40:]}
        elif not res["unsupported"] and not over and res["complete_paths"] and not res["xcheck_diff"]:
            res["status"] = "proved"
    if res["status"] is None:
        res["status"] = "bounded-clean" if res["samples_ok"] else ("empty" if not res["discharged"] else "undecided")
        if res["status"] == "bounded-clean" and drv.symbolic:
            f = sample(drv.samples * mult * 3, drv.sample_time * mult * 2, "standin")
            if f:
                res.update(status="violated", failing=f)
    res["replay_passed"] = len(res["replay_passed"])
    res["wall_s"] = round(time.time() - t0, 2)
    return res


def collect_engine(res, eng):
    from . import engine as G

    for o in eng.obls:
        res["obligations"] += 1
        if o.status == "proved":
            res["discharged"] += 1
            res["by_backend"][o.backend] = res["by_backend"].get(o.backend, 0) + 1
        else:
            res["undischarged"].append({"label": o.label, "status": o.status, "reason": o.reason, "imprecise": list(o.imprecise)[:3]})
    res["undischarged"] = res["undischarged"][:25]
    res["labels"] = sorted({re.sub(r"@\d+", "", o.label) for o in eng.obls})[:60]
    res["unsupported"] = dict(list(eng.unsupported.items())[:12])
    res["obligations"] += len(eng.unsupported)
    res["functions"] = dict(eng.functions)
    res["paths"], res["complete_paths"], res["rounds"] = eng.paths, eng.complete_paths, eng.rounds
    res["solver_s"] = round(G.STATS.time, 2)
    res["queries"] = G.STATS.queries
    res["by_query"] = G.STATS.by
    res["loops"] = [{"loop": li.desc, "invariants": [n for n, a in li.cands.items() if a][:40]} for li in eng.loops.values() if li.visits][:40]
    res["bounded"] += sorted(set(eng.bounded))[:10]
    res["assumptions"] = sorted(eng.assumptions)
    if eng.recheck:
        res["rechecked"] = eng.rechecked


# ---------------------------------------------------------------- processes
def _child(conn, prop, name, tier, seed, hard):
    try:
        sys.setrecursionlimit(20000)
        if not os.environ.get("PYVC_DEBUG"):
            sys.stdout = open(os.devnull, "w")  # what the code under test prints
        mod = importlib.import_module(f"props.{prop}")
        drv = next(d for d in mod.DRIVERS if d.name == name)
        r = driver_result(drv, tier, seed, hard, lambda part: conn.send({**part, "partial": True}))
    except BaseException:
        r = {"driver": name, "status": "crash", "error": traceback.format_exc()[-3000:]}
    try:
        conn.send(r)
    except BaseException:
        conn.send({"driver": name, "status": "crash", "error": traceback.format_exc()[-2000:]})
    conn.close()


def run_all(prop, mod, tier, seed, jobs, only=None):
    """Every driver in its own process; the time left is shared out among the drivers still to run."""
    ctx = mp.get_context("fork")
    todo = [d for d in mod.DRIVERS if not only or d.name in only]
    todo.sort(key=lambda d: -d.budget)
    run, out = [], []
    deadline = time.time() + (720 if tier == "quick" else 6 * 3600)
    stop = False
    while todo or run:
        while todo and len(run) < jobs and not stop:
            d = todo.pop(0)
            a, b = ctx.Pipe(False)
            now = time.time()
            share = (deadline - now) * (0.9 if len(todo) < jobs else jobs / (len(todo) + 1))
            hard = now + max(20, min(share, deadline - now))
            p = ctx.Process(target=_child, args=(b, prop, d.name, tier, seed, hard), daemon=True)
            p.start()
            b.close()
            run.append([p, a, d, None])
        time.sleep(0.02)
        for x in list(run):
            p, a, d, part = x
            done = None
            if a.poll():
                try:
                    done = a.recv()
                except EOFError:
                    done = part or {"driver": d.name, "status": "crash", "error": "worker died"}
                if done.pop("partial", False):
                    x[3], done = done, None
            elif not p.is_alive():
                if a.poll(0):
                    continue  # sent between the two questions
                done = part or {"driver": d.name, "status": "crash", "error": f"worker exited with {p.exitcode}"}
            elif time.time() > deadline + 60 or stop:
                p.kill()
                done = part or {"driver": d.name, "status": "skipped" if stop else "crash", "error": "stopped"}
            if done is not None:
                out.append(done)
                run.remove(x)
                p.join(5)
                if done["status"] == "violated" and done.get("failing") and not only:
                    stop = True
        if stop and todo:
            out += [{"driver": d.name, "status": "skipped", "error": "a violation was already found"} for d in todo]
            todo = []
    order = {d.name: i for i, d in enumerate(mod.DRIVERS)}
    out.sort(key=lambda r: order[r["driver"]])
    return out


def known_findings():
    d = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", ln.strip())
            if m:
                d[m.group(2)] = (m.group(1), m.group(3))
    return d


TRUSTED = [
    "PyVC itself: the AST interpreter's reading of CPython semantics, its models of builtins/struct/uuid/io, the loop rule (pyvc/)",
    "dissect.cstruct parsing is modelled from the live type objects (field offsets, widths, endianness), not verified",
    "contracts of the dissect.util streams where the check has no util-* drivers (those prove the contracts from the installed dissect.util source)",
    "z3 (and cvc5 where named) answer unsat only for unsatisfiable queries",
    "instances of integer arithmetic lemmas for products/floor division added by pyvc/terms.py",
]


def main(argv=None):
    argv = list(sys.argv[1:] if argv is None else argv)
    prop = argv.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    replay = None
    only = []
    jobs = int(os.environ.get("PYVC_JOBS", "7"))
    verbose = False
    while argv:
        a = argv.pop(0)
        if a == "--replay":
            replay = argv.pop(0)
        elif a == "--tier":
            tier = argv.pop(0)
        elif a == "-v":
            verbose = True
        elif a == "--only":
            only.append(argv.pop(0))
    t0 = time.time()
    sys.setrecursionlimit(20000)
    mod = importlib.import_module(f"props.{prop}")
    if replay:
        return do_replay(mod, replay, tier)
    os.makedirs(EVID, exist_ok=True)
    for old in glob.glob(os.path.join(EVID, f"replay_{prop}_*.json")):
        os.unlink(old)
    rs = run_all(prop, mod, tier, seed, jobs, only)
    kf = known_findings()
    violations, errors = [], []
    for r in rs:
        st = r["status"]
        if st == "violated":
            violations.append(r)
        elif st in ("crash", "empty"):
            errors.append(r)
        elif st == "finding":
            f = r["finding"]
            if f["id"] in kf and kf[f["id"]][0] == prop:
                print(f"KNOWN-FINDING: property={prop} {kf[f['id']][1]}")
            else:
                r["failing"] = {"label": f["label"], "info": f["info"], "rng": "0", "log": {}}
                violations.append(r)
        elif st == "finding-gone":
            print(f"note: known finding {r['finding']['id']} does not reproduce on this tree")
        if r.get("xcheck_diff"):
            print(f"note: {r['driver']}: interpreter and CPython differ: {r['xcheck_diff'][0]}")
        if verbose:
            print(json.dumps(r, indent=1, default=str))
        else:
            print(f"{prop}/{r['driver']}: {st} obligations={r.get('discharged')}/{r.get('obligations')} paths={r.get('complete_paths')}/{r.get('paths')} "
                  f"samples={r.get('samples_ok')}(+{r.get('samples_skipped')} skipped) xcheck={r.get('xcheck')} solver={r.get('solver_s')}s wall={r.get('wall_s')}s"
                  + (f" unsupported={list(r['unsupported'])[:4]}" if r.get("unsupported") else "")
                  + (f" open={[u['label'] for u in r['undischarged']][:5]}" if r.get("undischarged") else ""))
    lines = []
    for i, r in enumerate(violations):
        path = os.path.join(EVID, f"replay_{prop}_{i}.json")
        rec = {"property": prop, "driver": r["driver"], "tier": tier, "seed": seed, "failing": r.get("failing"), "nfi": r.get("nfi"),
               "undischarged": r.get("undischarged")}
        with open(path, "w") as f:
            json.dump(rec, f, indent=1, default=str)
        if r.get("failing"):
            print(f"  {r['driver']}: {r['failing']['label']}: {r['failing']['info']}")
            if r.get("undischarged"):
                print(f"  not discharged: {sorted({u['label'] for u in r['undischarged']})[:6]}")
            lines.append(f"VIOLATION property={prop} replay={path}")
        else:
            print(f"  {r['driver']}: obligation '{r['nfi']['obligation']}' is refuted")
            lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
    write_evidence(prop, mod, tier, seed, rs, len(violations), time.time() - t0, kf)
    if violations:
        # a violation with an input first
        lines.sort(key=len)
        print(lines[0])
        for ln in lines[1:]:
            print("also: " + ln[len("VIOLATION "):])
        return 1
    if errors:
        for r in errors:
            print(f"ERROR {prop}/{r['driver']}: {r['status']} {r.get('error', '')}", file=sys.stderr)
        return 2
    return 0


def write_evidence(prop, mod, tier, seed, rs, nviol, wall, kf):
    level = getattr(mod, "LEVEL", "proof")
    good = [r for r in rs if "obligations" in r]
    fns = {}
    for r in good:
        for k, v in r["functions"].items():
            fns[k] = v
    drivers = []
    for r in rs:
        drivers.append({k: r.get(k) for k in ("driver", "status", "obligations", "discharged", "by_backend", "paths", "complete_paths", "samples_ok",
                                             "samples_skipped", "xcheck", "xcheck_diff", "solver_s", "queries", "by_query", "loops", "unsupported", "undischarged",
                                             "bounded", "notes", "labels", "counterexamples_replayed", "rechecked", "wall_s", "error")})
    cov = {
        "obligations": sum(r["obligations"] for r in good),
        "discharged": sum(r["discharged"] for r in good),
        "checker_cmd": f"cd /verif && ./check {prop}",
        "trusted_base": TRUSTED + list(getattr(mod, "TRUSTED", [])),
        "evaluations": sum(r["samples_ok"] for r in good),
        "distinct_nontrivial": sum(r["samples_ok"] for r in good),
        "rule": "each sample is one run of a driver on the real code with random inputs that satisfy its preconditions (others are skipped and not counted)",
        "samples": [s for r in good for s in r["sample_log"]][:6] or ["none"],
        "functions_under_contract": sorted(fns),
        "solver_seconds": round(sum(r["solver_s"] for r in good), 2),
        "proved_drivers": [r["driver"] for r in rs if r["status"] == "proved"],
        "bounded_drivers": [r["driver"] for r in rs if r["status"] in ("bounded-clean", "undecided")],
        "drivers": drivers,
    }
    assumptions = list(getattr(mod, "ASSUMPTIONS", []))
    for r in good:
        assumptions += [f"{r['driver']}: bounded, not proved: {b}" for b in r["bounded"]]
        assumptions += r.get("assumptions", [])
        if r["status"] in ("bounded-clean", "undecided"):
            assumptions.append(f"{r['driver']}: not (fully) proved on this run; {r['samples_ok']} concrete inputs of the real code agreed with the specification")
    for k, (p, t) in kf.items():
        if p == prop:
            assumptions.append(f"known finding excluded from the preconditions: {t}")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": sorted(set(assumptions)),
          "wall_s": round(wall, 2), "violations": nviol}
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


def do_replay(mod, path, tier):
    rec = json.load(open(path))
    drv = next(d for d in mod.DRIVERS if d.name == rec["driver"])
    f = rec.get("failing")
    if not f:
        print("no failing input recorded; refuted obligation:", rec["nfi"])
        return 2
    rng = random.Random(f["rng"]) if "rng" in f else random.Random(f["assignment"]["salt"])
    st, label, info, env = run_native(drv, rng, f.get("assignment"), rec.get("tier", tier))
    print(st, label, info)
    print("inputs:", json.dumps(env.log, default=str)[:2000])
    return 1 if st == "fail" else 0


if __name__ == "__main__":
    sys.exit(main())
