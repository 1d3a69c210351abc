"""Path exploration, obligations, loop rule bookkeeping and solver back ends."""
from __future__ import annotations

import os
import subprocess
import tempfile
import time
from contextlib import contextmanager

import z3

from . import terms as T
from .terms import (LemmaStore, MergeFail, PathEnd, ProgExc, SBool, SInt, Unsupported, collect, is_int, mkb, range_of, sand, snot,
                    to_native, zbool, zint)
from .values import SBytes, Seg, SVal, SymFile, Family, TList, AbsList, BYTE

Z3_TIMEOUT = int(os.environ.get("PYVC_Z3_TIMEOUT", "4000"))
NIA_TIMEOUT = int(os.environ.get("PYVC_NIA_TIMEOUT", "6000"))
CVC5 = "cvc5"


class BudgetExceeded(BaseException):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.by = {}

    def add(self, backend, t):
        self.queries += 1
        self.time += t
        self.by[backend] = self.by.get(backend, 0) + 1


STATS = Stats()


# ---------------------------------------------------------------- solver back ends
def native_formulas(fs, link=False):
    out = []
    seen = set()
    apps = {}
    for f in fs:
        out.append(to_native(f))
        apps.update(collect(f)[3])
    extra = []
    for t in apps.values():
        if t.decl().eq(T.MUL) or t.decl().eq(T.FDIV):
            continue
        r = range_of(t)
        if r is not None:
            n = to_native(t)
            extra += [n >= r[0], n <= r[1]]
        nm = t.decl().name()
        if link and len(nm) > 2 and nm[0] in "US" and nm[1].isdigit() and nm.endswith(("le", "be")):
            w = int(nm[1:-2]) // 8
            fid, pos = (to_native(c) for c in t.children())
            s = 0
            bs = []
            for j in range(w):
                b = BYTE(fid, pos + j)
                bs += [b >= 0, b <= 255]
                s = s + b * (1 << (8 * (j if nm.endswith("le") else w - 1 - j)))
            if nm[0] == "S":
                extra += bs + [to_native(t) == z3.If(s >= (1 << (8 * w - 1)), s - (1 << (8 * w)), s)]
            else:
                extra += bs + [to_native(t) == s]
    return out + extra


def solve_native(fs, timeout=NIA_TIMEOUT, link=False, seed=0, extra=()):
    s = z3.Solver()
    s.set("timeout", timeout)
    s.set("random_seed", seed)
    s.add(*native_formulas(fs, link))
    s.add(*extra)
    t = time.time()
    r = s.check()
    STATS.add("z3-nia", time.time() - t)
    return str(r), (s.model() if r == z3.sat else None)


def solve_uf(fs, timeout=Z3_TIMEOUT):
    s = z3.Solver()
    s.set("timeout", timeout)
    ls = LemmaStore()
    s.add(*fs)
    s.add(*ls.lemmas(fs))
    t = time.time()
    r = s.check()
    STATS.add("z3-uflia", time.time() - t)
    return str(r)


def solve_cvc5(fs, timeout=10000, native=True):
    s = z3.Solver()
    if native:
        s.add(*native_formulas(fs))
    else:
        ls = LemmaStore()
        s.add(*fs)
        s.add(*ls.lemmas(fs))
    txt = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
    t = time.time()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=True) as f:
        f.write(txt)
        f.flush()
        try:
            p = subprocess.run([CVC5, f"--tlimit={timeout}", f.name], capture_output=True, text=True, timeout=timeout / 1000 + 5)
            o = p.stdout.strip().splitlines()
            r = o[0] if o and o[0] in ("sat", "unsat") else "unknown"
        except (subprocess.TimeoutExpired, FileNotFoundError):
            r = "unknown"
    STATS.add("cvc5", time.time() - t)
    return r


class Obligation:
    __slots__ = ("label", "path", "status", "backend", "time", "formulas", "reason", "imprecise", "inputs")

    def __init__(self, label, path, status, backend, t, formulas=None, reason="", imprecise=()):
        self.label, self.path, self.status, self.backend, self.time = label, path, status, backend, t
        self.formulas, self.reason, self.imprecise = formulas, reason, imprecise
        self.inputs = ()


class LoopInfo:
    def __init__(self, key, desc):
        self.key = key
        self.desc = desc
        self.cands = {}  # name -> alive
        self.modset = {}  # heap location -> kind
        self.deltas = {}  # view -> list of candidate deltas (polynomials)
        self.measures = {}  # name -> alive
        self.backedges = 0
        self.visits = 0
        self.revive = False
        self.emit = {}
        self.shape = {}  # byte string location -> how it is described
        self.shape_next = {}


# ---------------------------------------------------------------- one path
class Ctx:
    def __init__(self, eng, prefix):
        self.eng = eng
        self.prefix = prefix
        self.taken = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", Z3_TIMEOUT)
        self.store = LemmaStore()
        self.lits = set()
        self.uidc = 0
        self.objs = []
        self.byid = {}
        self.freshc = {}
        self.scopes = []  # active loop scopes: (LoopInfo, uid_start)
        self.decided = {}
        self.imprecise = []  # reasons why this path is an over-approximation
        self.counts = {}
        self.flags = []
        self.callstack = []
        self.steps = 0
        self.ghost = {}
        self.acc_specs = []  # fn(k) -> byte
        self.view_hints = []  # fn(v) -> SBool
        self.pair_hints = []
        self.emitters = []
        self.folds = []  # recursive functions of a position and an accumulator
        self.val_hints = []  # fn(opaque value, int) -> SBool
        self.slices = []  # byte strings that loops take apart
        self.heap = None  # dictionaries by address
        self.last_iter = None
        self.on_sub = None  # contract of a substitution
        self.map_hint = None  # what a dictionary of identities holds, by position
        self.loop_hints = []
        self.measure_hints = []
        self.view_measures = []
        self.file_hooks = []
        self.name_products = False
        self.split_quotients = False
        self.patience = 0  # milliseconds for a second attempt at invariants
        self.names = {}
        self.in_hook = False
        self.inputs = []
        self.merging = None  # old values of what a merged conditional wrote
        self.histories = False
        self.aside = self.ghosts = 0

    # -- bookkeeping
    def new_uid(self, obj):
        if self.aside:
            return self.number()
        self.objs.append(obj)
        return self.number()

    def number(self):
        """Objects made while evaluating a specification do not disturb the numbers of the others, which have to
        be the same in every round."""
        if self.aside:
            self.ghosts += 1
            return 1000000000 + self.ghosts
        self.uidc += 1
        return self.uidc

    @contextmanager
    def specification(self):
        self.aside += 1
        try:
            yield
        finally:
            self.aside -= 1

    def uid_of(self, obj):
        r = self.byid.get(id(obj))
        return r[0] if r else None

    def register(self, obj):
        n = self.number()
        self.byid[id(obj)] = (n, obj)
        return n

    def note_write(self, loc, obj, info=None):
        uid = loc[1]
        if self.merging is not None and loc not in self.merging:
            if loc[0] == "pos":
                self.merging[loc] = (obj, obj._getpos, lambda x: obj.__dict__.__setitem__("_pos", x), obj._getpos())
            elif loc[0] == "ba":
                self.merging[loc] = (obj, lambda: obj.v, lambda x: setattr(obj, "v", x), obj.v)
            elif loc[0] == "list" and isinstance(info, bool):
                def put(x):
                    if obj.abs is not None:
                        obj.abs = AbsList(x)
                    else:
                        list.__setitem__(obj, slice(None), x)

                self.merging[loc] = (obj, lambda: TList.items_of(obj), put, TList.items_of(obj))
            else:
                raise MergeFail
        for li, start, *_ in self.scopes:
            if uid is None or uid <= start:
                kind = "bytes" if isinstance(info, (bytes, SBytes, bytearray)) else "other"
                old = li.modset.get(loc)
                if old is None:
                    li.modset[loc] = kind
                    li.revive = True
                    self.eng.changed = True
                    self.eng.late("written location")
                elif old == "bytes" and kind != "bytes":
                    li.modset[loc] = "other"
                    li.revive = True
                    self.eng.changed = True
                    self.eng.late("kind of a written location")

    def havoc_positions(self):
        """Somebody else used the handles."""
        for o in list(self.objs):
            if isinstance(o, SymFile) and o.family is None:
                o._setpos(self.fresh("moved", lo=0))
            elif isinstance(o, Family):
                self.note_write(("fam", o.uid), o)
                self.freshc["fam"] = self.freshc.get("fam", 0) + 1
                o.pos = z3.Array(f"fampos_m{self.freshc['fam']}", T.I, T.I)

    def fresh(self, name, lo=None, hi=None):
        n = self.freshc.get(name, 0)
        self.freshc[name] = n + 1
        v = T.var(name if n == 0 else f"{name}!{n}")
        if lo is not None:
            self.add_fact(zint(v) >= zint(lo))
        if hi is not None:
            self.add_fact(zint(v) <= zint(hi))
        return v

    def fresh_bool(self, name):
        n = self.freshc.get(name, 0)
        self.freshc[name] = n + 1
        return SBool(z3.Bool(name if n == 0 else f"{name}!{n}"))

    def named(self, v):
        """An atom for a compound factor of a product (the product stays a single term)."""
        p = T.poly(v)
        if len(p) < 2:
            return v
        k = T.pkey(p)
        if k not in self.names:
            x = self.fresh("factor")
            self.add_fact(zint(x) == zint(v))
            self.names[k] = x
        return self.names[k]

    def count(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1

    def flag(self, m):
        self.flags.append(m)

    # -- logic
    def _push_lemmas(self, fs):
        ls = self.store.lemmas(fs)
        if ls:
            self.solver.add(*ls)

    def add_fact(self, z):
        if z3.is_true(z):
            return
        self.pc.append(z)
        self._push_lemmas([z])
        self.solver.add(z)

    def assume(self, c):
        if self.merging is not None:
            raise MergeFail
        if isinstance(c, bool):
            if not c:
                raise PathEnd("assume false")
            return
        self.add_fact(zbool(c))

    def _check(self, z):
        self._push_lemmas([z])
        self.solver.push()
        self.solver.add(z)
        t = time.time()
        r = self.solver.check()
        STATS.add("z3-uflia", time.time() - t)
        self.solver.pop()
        self.eng.tick()
        return r

    def entails(self, c):
        if isinstance(c, bool):
            return c
        z = z3.Not(zbool(c))
        r = self._check(z)
        if r == z3.unknown and self.patience:
            return solve_uf(self.pc + [z], self.patience) == "unsat"
        return r == z3.unsat

    entails_quick = entails

    def branch(self, c):
        """Decide a symbolic condition on this path, forking when both outcomes are possible."""
        if isinstance(c, bool):
            return c
        z = zbool(c)
        k = z.get_id()
        d = self.decided.get(k)
        if d is not None:
            return d[0]
        if self.merging is not None:
            if self.entails(c):
                return True
            if self.entails(snot(c)):
                return False
            raise MergeFail
        if len(self.taken) < len(self.prefix):
            # replay: the recorded entry may be a forced outcome
            b = self.prefix[len(self.taken)]
            self.taken.append(b)
            v = b[1]
            self.add_fact(z if v else z3.Not(z))
            self.decided[k] = (v, z)
            return v
        can_t = self._check(z) != z3.unsat
        can_f = self._check(z3.Not(z)) != z3.unsat if can_t else True
        if can_t and can_f:
            self.eng.push(self.taken + [("b", False)])
            self.taken.append(("b", True))
            v = True
        else:
            v = can_t
            self.taken.append(("f", v))
        self.add_fact(z if v else z3.Not(z))
        self.decided[k] = (v, z)
        if len(self.taken) > self.eng.max_depth:
            raise Unsupported("path too deep")
        return v

    def choose(self, n, label):
        if self.merging is not None:
            raise MergeFail
        if len(self.taken) < len(self.prefix):
            b = self.prefix[len(self.taken)]
            self.taken.append(b)
            return b[1]
        for i in range(n - 1, 0, -1):
            self.eng.push(self.taken + [("c", i)])
        self.taken.append(("c", 0))
        return 0

    def feasible(self):
        r = self.solver.check()
        if r == z3.unsat:
            return False
        return True

    def path_key(self):
        return tuple(b[1] for b in self.taken if b[0] != "f")

    # -- obligations
    def prove(self, label, cond):
        if self.merging is not None:
            raise MergeFail
        eng = self.eng
        if eng.mode == "infer":
            return
        pk = self.path_key()
        if cond is True:
            eng.obls.append(Obligation(label, pk, "proved", "normalisation", 0.0))
            return
        z = zbool(cond)
        neg = z3.Not(z)
        t0 = time.time()
        r = self._check(neg)
        if r == z3.unsat:
            eng.obls.append(Obligation(label, pk, "proved", "z3-uflia", time.time() - t0))
            if eng.recheck:
                eng.recheck_obl(label, self.pc + [neg])
            return
        fs = self.pc + [neg]
        if not any(collect(f)[1] or collect(f)[0] for f in fs) and r == z3.sat:
            # purely linear: the first query is already exact up to uninterpreted functions
            rr, m = "sat", None
        else:
            rr, m = solve_native(fs)
        if rr == "unknown" and eng.cvc5_budget > 0:
            c = solve_cvc5(fs, native=False)
            eng.cvc5_budget -= 1
            if c == "unsat":
                eng.obls.append(Obligation(label, pk, "proved", "cvc5", time.time() - t0))
                return
            c = solve_cvc5(fs, native=True)
            if c == "unsat":
                eng.obls.append(Obligation(label, pk, "proved", "cvc5", time.time() - t0))
                return
            if c == "sat":
                rr = "sat"
        if rr == "unsat":
            eng.obls.append(Obligation(label, pk, "proved", "z3-nia", time.time() - t0))
            return
        st = "refuted" if rr == "sat" else "unknown"
        loose = list(self.imprecise)
        if any(opaque(f) for f in fs):
            loose.append("text and library functions are uninterpreted")
        ob = Obligation(label, pk, st, "z3", time.time() - t0, fs, rr, tuple(loose))
        ob.inputs = tuple(self.inputs)
        eng.obls.append(ob)


def opaque(f):
    """Does the formula mention a library function that is only known up to congruence?"""
    st, seen = [f], set()
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and (t.decl().name()[:2] in ("v:", "b:", "i:") or t.decl().eq(T.BAND)):
            return True
        st.extend(t.children())
    return False


# ---------------------------------------------------------------- exploration
class Engine:
    def __init__(self, name, time_budget=120, max_paths=4000, max_depth=1500, recheck=False, unroll=0, inline=0):
        self.name = name
        self.max_depth = max_depth
        self.max_paths = max_paths
        self.time_budget = time_budget
        self.recheck = recheck
        self.inline = inline  # > 0: loops are unrolled completely, at most that often
        self.unroll = unroll  # > 0: loops are unrolled that often instead of being cut (bounded search)
        self.concrete = False  # no unknowns at all (comparison with CPython)
        self.cut = 0
        self.rechecked = {"agree": 0, "unknown": 0, "disagree": []}
        self.obls = []
        self.loops = {}
        self.unsupported = {}
        self.changed = False
        self.mode = "prove"
        self.paths = 0
        self.complete_paths = 0
        self.rounds = 0
        self.cvc5_budget = 6
        self.functions = {}
        self.assumptions = set()
        self.bounded = []
        self.t0 = time.time()

    def tick(self):
        if time.time() - self.t0 > self.time_budget:
            raise BudgetExceeded(f"time budget of {self.time_budget} s exceeded")

    def recheck_obl(self, label, fs):
        r = solve_cvc5(fs, native=False, timeout=5000)
        if r == "unsat":
            self.rechecked["agree"] += 1
        elif r == "unknown":
            self.rechecked["unknown"] += 1
        else:
            # sat of the lemma abstraction is only a disagreement when the native problem is sat too
            r2 = solve_cvc5(fs, native=True, timeout=5000)
            if r2 == "sat":
                self.rechecked["disagree"].append(label)
            else:
                self.rechecked["agree" if r2 == "unsat" else "unknown"] += 1

    def push(self, decisions):
        self.work.append(decisions)

    def loop_info(self, key, desc):
        li = self.loops.get(key)
        if li is None:
            li = self.loops[key] = LoopInfo(key, desc)
            self.new_loop = True
            self.late("loop")
        return li

    def late(self, what):
        """Nothing about loops may be discovered after the invariants are settled."""
        if self.mode == "prove" and not self.unroll:
            self.unsupported[f"{what} unknown before the proving round"] = 1

    def explore(self, body):
        """Run ``body(ctx)`` on every path; repeats until the loop invariants are stable, then proves."""
        self.mode = "infer"
        unstable = False
        while not self.unroll:
            self.rounds += 1
            self.changed = False
            self.new_loop = False
            self._one_round(body)
            if not self.changed:
                break
            if self.rounds > 60:
                unstable = True
                break
        self.mode = "prove"
        self.unsupported = {}
        self.flags = []
        self.obls = []
        self.complete_paths = 0
        self.paths = 0
        self._one_round(body)
        if unstable:
            self.unsupported["loop inference did not stabilise"] = 1
        for li in self.loops.values():
            if not li.visits or self.unroll:
                continue
            alive = [n for n, a in li.cands.items() if a]
            self.obls.append(Obligation(f"loop {li.desc}: {len(alive)} invariants initially true and preserved", li.key, "proved", "houdini", 0.0))
            if li.backedges:
                ok = [n for n, a in li.measures.items() if a]
                st = "proved" if ok else "unknown"
                self.obls.append(Obligation(f"loop {li.desc}: terminates" + (f" (measure {ok[0]})" if ok else ""), li.key, st, "houdini", 0.0,
                                            None, "no decreasing measure established", ("loop",)))

    def _one_round(self, body):
        if os.environ.get("PYVC_DEBUG"):
            print(f"[round {self.rounds} mode={self.mode} loops={len(self.loops)} t={time.time()-self.t0:.1f}]", flush=True)
        self.work = [[]]
        n = 0
        reshaped = any(li.shape_next for li in self.loops.values())
        for li in self.loops.values():
            li.backedges = 0
            li.visits = 0
            if li.revive:
                # new state was discovered: candidates dropped earlier get another chance
                li.revive = False
                li.cands = {}
                li.measures = {}
                li.emit = {}
                li.shape = {}
                li.shape_next = {}
            if reshaped:
                li.cands = {}
                li.measures = {}
                li.emit = {}
            li.shape.update(li.shape_next)
            li.shape_next = {}
        while self.work:
            prefix = self.work.pop()
            n += 1
            if n > self.max_paths:
                raise BudgetExceeded(f"more than {self.max_paths} paths")
            ctx = Ctx(self, prefix)
            T.set_cur(ctx)
            try:
                self.tick()
                body(ctx)
                if self.mode == "prove":
                    if ctx.feasible():
                        self.complete_paths += 1
                self.flags = getattr(self, "flags", []) + ctx.flags
            except PathEnd as e:
                if os.environ.get("PYVC_DEBUG") == "2":
                    print("path", ctx.taken, "ends:", e)
            except Unsupported as e:
                m = str(e)
                self.unsupported[m] = self.unsupported.get(m, 0) + 1
                if os.environ.get("PYVC_DEBUG"):
                    import traceback

                    traceback.print_exc()
            except ProgExc as e:
                # an exception of the program that the driver did not expect
                import traceback

                ctx.prove(f"no unexpected exception ({type(e.exc).__name__})", False)
            except Exception as e:  # a fault of the engine, never a verdict
                import traceback

                m = f"engine fault: {e!r}"
                self.unsupported[m] = self.unsupported.get(m, 0) + 1
                if os.environ.get("PYVC_DEBUG"):
                    traceback.print_exc()
            finally:
                T.set_cur(None)
        self.paths = n
