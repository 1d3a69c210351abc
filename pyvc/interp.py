"""Symbolic interpreter for the real functions of the repository.

Every function body is taken from the source file the running function object came from (re-read and
re-parsed on each run).  Nothing is dropped from the body except type annotations and docstrings;
decorators ``lru_cache``/``cache``/``cached_property`` are treated as identity (memoisation).
Generators are run to completion when called.
"""
from __future__ import annotations

import ast
import builtins
import enum
import functools
import inspect
import operator
import types

import z3

from . import terms as T
from .terms import MergeFail, PathEnd, ProgExc, SBool, SInt, Unsupported, cur, is_int, mkb, sand, seq_, snot, sor, zbool, zint
from .values import (AbsList, Emits, HDict, MutMap, OVal, SymIter, SByteArray, SBytes, SBytesIO, SDict, SEnum, Seg, SymFile, SymMap, SymSeq, SymStruct, SVal,
                     TList, concrete, hashable)

_src_cache: dict = {}


def module_nodes(filename):
    r = _src_cache.get(filename)
    if r is None:
        with open(filename, encoding="utf-8") as f:
            tree = ast.parse(f.read(), filename)
        r = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = n.decorator_list[0].lineno if n.decorator_list else n.lineno
                r[(n.name, line)] = n
            elif isinstance(n, ast.Lambda):
                r.setdefault(("<lambda>", n.lineno), n)
        _src_cache[filename] = r
    return r


class Undef:
    def __repr__(self):
        return "<undefined by loop abstraction>"


UNDEF = Undef()


class Frame:
    __slots__ = ("fn", "locals", "globals", "closure", "yields", "cls", "name", "globs", "nonloc", "parent", "loopstack")

    def __init__(self, name, globs, parent=None):
        self.name = name
        self.locals = {}
        self.globals = globs
        self.closure = {}
        self.yields = None
        self.cls = None
        self.parent = parent
        self.nonloc = set()
        self.globs = set()


class Closure:
    """A function or lambda defined inside interpreted code."""

    def __init__(self, interp, node, frame, defaults, kwdefaults):
        self.interp, self.node, self.frame = interp, node, frame
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.__name__ = getattr(node, "name", "<lambda>")

    def __call__(self, *a, **k):
        return self.interp.call_node(self.node, self.__name__, self.frame.globals, a, k, self.defaults, self.kwdefaults,
                                     parent=self.frame, cls=self.frame.cls)


class BoundClosure:
    def __init__(self, c, obj):
        self.c, self.obj = c, obj

    def __call__(self, *a, **k):
        return self.c(self.obj, *a, **k)


BINOPS = {
    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
    ast.Div: operator.truediv, ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.BitAnd: operator.and_,
    ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.Pow: operator.pow, ast.MatMult: operator.matmul,
}
IBINOPS = {
    ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.BitOr: operator.ior, ast.BitAnd: operator.iand,
}
CMPOPS = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge, ast.Eq: operator.eq, ast.NotEq: operator.ne}
DUNDER = {ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__", ast.Eq: "__eq__", ast.NotEq: "__ne__"}

RET, BRK, CONT = "ret", "brk", "cont"


def assigned_names(nodes):
    """Names (re)bound by the statements, not descending into nested scopes."""
    out = []
    seen = set()

    def add(n):
        if n not in seen:
            seen.add(n)
            out.append(n)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    add(c.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)

    for n in nodes:
        walk(n)
    return out


def is_repo_fn(fn, interp):
    m = getattr(fn, "__module__", "") or ""
    return m.startswith(interp.prefixes)


def mergeable(s):
    """Only positions handles, stores into a buffer or appends constants."""
    for t in s.body + s.orelse:
        if isinstance(t, ast.Expr) and isinstance(t.value, ast.Call) and isinstance(t.value.func, ast.Attribute):
            n, a = t.value.func.attr, t.value.args
            if n == "seek" or n == "append" and len(a) == 1 and isinstance(a[0], ast.Constant) and isinstance(a[0].value, bool):
                continue
        if isinstance(t, ast.Assign) and len(t.targets) == 1 and isinstance(t.targets[0], ast.Subscript) and isinstance(t.targets[0].slice, ast.Slice):
            continue
        return False
    return True


def merged(kind, c, a, b):
    if kind == "pos":
        return T.ite_int(c, a, b)
    if kind == "list":
        if len(a) != len(b) or any(x is not y for x, y in zip(a[:-1], b[:-1])):
            return None
        return a[:-1] + [SBool(z3.If(c.z, T.zbool(a[-1]), T.zbool(b[-1])))]
    a, b = SBytes.of(a), SBytes.of(b)
    if not all(isinstance(x.n, int) for x in a.segs + b.segs) or a.sym_len() != b.sym_len():
        return None
    cuts = {0}
    for x in (a, b):
        p = 0
        for g in x.segs:
            p += g.n
            cuts.add(p)
    cuts = sorted(cuts)
    out = []
    for lo, hi in zip(cuts, cuts[1:]):
        x, y = a.sub(lo, hi - lo), b.sub(lo, hi - lo)
        sx, sy = SBytes.of(x).segs, SBytes.of(y).segs
        if len(sx) == len(sy) == 1 and sx[0].kind == sy[0].kind and sx[0].kind != "g" and seq_(sx[0].a, sy[0].a) is True and seq_(sx[0].b, sy[0].b) is True:
            out += sx
        elif len(sx) == len(sy) == 1 and sx[0].kind == sy[0].kind == "g" and sx[0].a is sy[0].a and seq_(sx[0].b, sy[0].b) is True:
            out += sx
        else:
            sx, sy = SBytes.of(x), SBytes.of(y)
            out.append(Seg("g", hi - lo, lambda k, sx=sx, sy=sy: T.ite_int(c, sx.at(k), sy.at(k)), 0))
    return SBytes(out)


class Interp:
    def __init__(self, ctx, env=None, prefixes=("dissect.volume", "dissect.util.stream")):
        self.ctx = ctx
        self.env = env
        self.prefixes = prefixes
        self.contracts = {}  # function object -> replacement
        self.fn_seen = ctx.eng.functions
        from . import models

        self.models = models
        self.depth = 0

    # ------------------------------------------------------------ truth
    def truth_val(self, v):
        """bool or SBool of a value, without forking where possible."""
        if isinstance(v, (bool, SBool)):
            return v
        if v is None:
            return False
        if v is UNDEF:
            raise Unsupported("use of a variable undefined by loop abstraction")
        if isinstance(v, SInt):
            return v != 0
        if isinstance(v, (SBytes, SymSeq, SByteArray)):
            n = v.sym_len()
            return n != 0 if isinstance(n, SInt) else n != 0
        if isinstance(v, TList) and v.abs is not None:
            raise Unsupported("truth of an abstract list")
        if isinstance(v, SVal):
            if v.py is object:
                raise Unsupported("truth of an opaque object")
            return SVal.appb("truth", [v])
        if isinstance(v, SymMap):
            return v.sym_len() != 0
        if isinstance(v, (SymStruct, SymFile, SBytesIO)):
            if isinstance(v, SymStruct):
                raise Unsupported("truth of a structure")
            return True
        t = type(v)
        for d in ("__bool__", "__len__"):
            m = getattr(t, d, None)
            if isinstance(m, types.FunctionType) and is_repo_fn(m, self):
                r = self.call(types.MethodType(m, v), (), {})
                return self.truth_val(r)
        return bool(v)

    def truth(self, v):
        r = self.truth_val(v)
        return r if isinstance(r, bool) else self.ctx.branch(r)

    # ------------------------------------------------------------ calls
    def call(self, fn, args=(), kwargs=None):
        kwargs = kwargs or {}
        self.ctx.steps += 1
        if self.ctx.steps > 200000:
            raise Unsupported("too many steps on one path")
        c = self.contracts.get(fn)
        if c is None and isinstance(fn, types.MethodType):
            c = self.contracts.get(fn.__func__)
            if c is not None:
                if self.ctx.merging is not None:
                    raise MergeFail
                return c(self, fn.__self__, *args, **kwargs)
        if c is not None:
            if self.ctx.merging is not None:
                raise MergeFail
            return c(self, *args, **kwargs)
        if isinstance(fn, (Closure, BoundClosure)):
            return fn(*args, **kwargs)
        if isinstance(fn, types.MethodType):
            f = fn.__func__
            if isinstance(f, types.FunctionType) and is_repo_fn(f, self):
                return self.call_fn(f, (fn.__self__, *args), kwargs)
            if isinstance(f, functools._lru_cache_wrapper):
                return self.memoised(f.__wrapped__, (fn.__self__, *args), kwargs)
            r = self.models.call_method(self, fn, args, kwargs)
            return r
        if isinstance(fn, types.FunctionType):
            if is_repo_fn(fn, self):
                return self.call_fn(fn, args, kwargs)
        if isinstance(fn, functools._lru_cache_wrapper):
            return self.memoised(fn.__wrapped__, args, kwargs)
        if isinstance(fn, functools.partial):
            return self.call(fn.func, (*fn.args, *args), {**fn.keywords, **kwargs})
        return self.models.call_native(self, fn, args, kwargs)

    def memoised(self, fn, args, kwargs):
        """A result that may have been computed earlier: where histories matter, with the handles anywhere."""
        if not self.ctx.histories:
            return self.call(fn, args, kwargs)
        self.ctx.havoc_positions()
        r = self.call(fn, args, kwargs)
        self.ctx.havoc_positions()
        self.ctx.imprecise.append("memoised call")
        return r

    def call_fn(self, fn, args, kwargs):
        w = getattr(fn, "__wrapped__", None)
        code = fn.__code__
        node = module_nodes(code.co_filename).get((code.co_name, code.co_firstlineno))
        if node is None:
            raise Unsupported(f"no source for {fn.__qualname__}")
        q = f"{fn.__module__}.{fn.__qualname__}"
        self.fn_seen[q] = self.fn_seen.get(q, 0) + 1
        closure = {}
        cls = None
        if fn.__closure__:
            for nme, cell in zip(code.co_freevars, fn.__closure__):
                try:
                    closure[nme] = cell.cell_contents
                except ValueError:
                    pass
            cls = closure.get("__class__")
        isgen = bool(code.co_flags & inspect.CO_GENERATOR)
        return self.call_node(node, q, fn.__globals__, args, kwargs, fn.__defaults__ or (), fn.__kwdefaults__ or {}, closure=closure,
                              cls=cls, isgen=isgen)

    def call_node(self, node, name, globs, args, kwargs, defaults, kwdefaults, parent=None, closure=None, cls=None, isgen=None):
        fr = Frame(name, globs, parent)
        fr.closure = closure or {}
        fr.cls = cls
        self.bind(fr, node.args, args, kwargs, defaults, kwdefaults, name)
        if isgen is None and not isinstance(node, ast.Lambda):
            isgen = _has_yield(node)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion too deep")
        self.ctx.callstack.append(name)
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            if isgen:
                fr.yields = TList()
                r = self.exec_block(node.body, fr)
                return GenResult(fr.yields, r[1] if r and r[0] == RET else None)
            r = self.exec_block(node.body, fr)
            if r and r[0] == RET:
                return r[1]
            return None
        finally:
            self.ctx.callstack.pop()
            self.depth -= 1

    def bind(self, fr, a, args, kwargs, defaults, kwdefaults, name):
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kwargs)
        loc = fr.locals
        if len(args) > len(pos) and not a.vararg:
            raise ProgExc(TypeError(f"{name}() takes {len(pos)} positional arguments but {len(args)} were given"))
        for n, v in zip(pos, args):
            loc[n] = v
        if a.vararg:
            loc[a.vararg.arg] = tuple(args[len(pos):])
        nd = len(pos) - len(defaults)
        for i, n in enumerate(pos):
            if n in loc:
                if n in kw:
                    raise ProgExc(TypeError(f"{name}() got multiple values for argument '{n}'"))
                continue
            if n in kw:
                loc[n] = kw.pop(n)
            elif i >= nd:
                loc[n] = defaults[i - nd]
            else:
                raise ProgExc(TypeError(f"{name}() missing required argument '{n}'"))
        for x in a.kwonlyargs:
            if x.arg in kw:
                loc[x.arg] = kw.pop(x.arg)
            elif x.arg in kwdefaults:
                loc[x.arg] = kwdefaults[x.arg]
            else:
                raise ProgExc(TypeError(f"{name}() missing keyword argument '{x.arg}'"))
        if a.kwarg:
            loc[a.kwarg.arg] = kw
        elif kw:
            raise ProgExc(TypeError(f"{name}() got unexpected keyword arguments {list(kw)}"))

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            r = self.exec(s, fr)
            if r is not None:
                return r
        return None

    def exec(self, s, fr):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        self.ctx.steps += 1
        if self.ctx.steps > 200000:
            raise Unsupported("too many steps on one path")
        return m(s, fr)

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def x_Pass(self, s, fr):
        return None

    def x_Import(self, s, fr):
        for a in s.names:
            m = __import__(a.name)
            if a.asname:
                for p in a.name.split(".")[1:]:
                    m = getattr(m, p)
            self.store_name(a.asname or a.name.split(".")[0], m, fr)

    def x_ImportFrom(self, s, fr):
        import importlib

        m = importlib.import_module("." * s.level + (s.module or ""), fr.globals.get("__package__"))
        for a in s.names:
            self.store_name(a.asname or a.name, getattr(m, a.name), fr)

    def x_Global(self, s, fr):
        fr.globs.update(s.names)

    def x_Nonlocal(self, s, fr):
        fr.nonloc.update(s.names)

    def x_FunctionDef(self, s, fr):
        d = [self.eval(x, fr) for x in s.args.defaults]
        kd = {a.arg: self.eval(x, fr) for a, x in zip(s.args.kwonlyargs, s.args.kw_defaults) if x is not None}
        f = Closure(self, s, fr, tuple(d), kd)
        for dec in reversed(s.decorator_list):
            dv = self.eval(dec, fr)
            if getattr(dv, "__name__", "") in ("lru_cache", "cache", "wraps"):
                continue
            raise Unsupported("decorated inner function")
        self.store_name(s.name, f, fr)

    def x_Return(self, s, fr):
        return (RET, self.eval(s.value, fr) if s.value is not None else None)

    def x_Break(self, s, fr):
        return (BRK, None)

    def x_Continue(self, s, fr):
        return (CONT, None)

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load_name(t.id, fr)
            self.store_name(t.id, self.augop(type(s.op), old, self.eval(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augop(type(s.op), old, self.eval(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.eval(t.slice, fr)
            old = self.getitem(o, i)
            self.setitem(o, i, self.augop(type(s.op), old, self.eval(s.value, fr)))
        else:
            raise Unsupported("augmented target")

    def augop(self, op, a, b):
        if isinstance(a, (TList, SByteArray)) and op is ast.Add:
            if isinstance(a, TList):
                a.extend(self.iter_list(b))
                return a
            a += b
            return a
        return self.binop(op, a, b)

    def x_If(self, s, fr):
        c = self.truth_val(self.eval(s.test, fr))
        if not isinstance(c, bool) and mergeable(s) and self.merge_if(s, c, fr):
            return None
        if self.ctx.branch(c):
            return self.exec_block(s.body, fr)
        return self.exec_block(s.orelse, fr)

    def merge_if(self, s, c, fr):
        """Both outcomes of a conditional update as one conditional value instead of two paths."""
        ctx = self.ctx
        if ctx.file_hooks or ctx.merging is not None:
            return False
        ends = []
        for body in (s.body, s.orelse):
            ctx.merging = {}
            try:
                self.exec_block(body, fr)
            except (MergeFail, ProgExc, Unsupported):
                for o, get, put, old in ctx.merging.values():
                    put(old)
                return False
            finally:
                m, ctx.merging = ctx.merging, None
            ends.append({k: (put, old, get()) for k, (o, get, put, old) in m.items()})
            for put, old, new in ends[-1].values():
                put(old)
        out = []
        for k in {**ends[0], **ends[1]}:
            put, old, _ = (ends[0].get(k) or ends[1].get(k))
            a, b = (e[k][2] if k in e else old for e in ends)
            v = merged(k[0], c, a, b)
            if v is None:
                return False
            out.append((put, v))
        for put, v in out:
            put(v)
        return True

    def x_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            raise ProgExc(AssertionError(self.eval(s.msg, fr) if s.msg else ""))

    def x_Raise(self, s, fr):
        if s.exc is None:
            e = getattr(fr, "locals").get("$exc")
            raise ProgExc(e)
        e = self.eval(s.exc, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = e()
        raise ProgExc(e)

    def x_Try(self, s, fr):
        r = None
        try:
            try:
                r = self.exec_block(s.body, fr)
            except ProgExc as p:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ty = self.eval(h.type, fr)
                        ok = isinstance(p.exc, ty)
                    if ok:
                        if h.name:
                            fr.locals[h.name] = p.exc
                        old = fr.locals.get("$exc")
                        fr.locals["$exc"] = p.exc
                        try:
                            r = self.exec_block(h.body, fr)
                        finally:
                            fr.locals["$exc"] = old
                            if h.name:
                                fr.locals.pop(h.name, None)
                        break
                else:
                    raise
            else:
                if r is None and s.orelse:
                    r = self.exec_block(s.orelse, fr)
        except ProgExc:
            if s.finalbody:
                r2 = self.exec_block(s.finalbody, fr)
                if r2 is not None:
                    return r2
            raise
        if s.finalbody:
            r2 = self.exec_block(s.finalbody, fr)
            if r2 is not None:
                return r2
        return r

    def x_With(self, s, fr):
        exits = []
        for it in s.items:
            cm = self.eval(it.context_expr, fr)
            v = self.call(self.getattr(cm, "__enter__"), ())
            exits.append(cm)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        try:
            r = self.exec_block(s.body, fr)
        except ProgExc as p:
            for cm in reversed(exits):
                if self.truth(self.call(self.getattr(cm, "__exit__"), (type(p.exc), p.exc, None))):
                    return None
            raise
        for cm in reversed(exits):
            self.call(self.getattr(cm, "__exit__"), (None, None, None))
        return r

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                i = self.eval(t.slice, fr)
                del o[i]
            else:
                raise Unsupported("del")

    # ------------------------------------------------------------ loops
    def x_While(self, s, fr):
        const = isinstance(s.test, ast.Constant) and bool(s.test.value)
        peeled = 0
        depth0 = len(self.ctx.path_key())
        unroll = self.ctx.eng_unroll(s, fr) if hasattr(self.ctx, "eng_unroll") else None
        while True:
            if not const or unroll is not None or self.ctx.eng.concrete:
                t = self.truth_val(self.eval(s.test, fr)) if not const else True
                if unroll is not None:
                    if peeled >= unroll:
                        if isinstance(t, bool) and t or (not isinstance(t, bool) and self.ctx.branch(t)):
                            self.ctx.eng.bounded.append(f"loop in {fr.name} unrolled {unroll} times")
                            raise PathEnd("unroll bound")
                        t = False
                    if not isinstance(t, bool):
                        t = self.ctx.branch(t)
                if t is False:
                    return self.exec_block(s.orelse, fr)
                if t is True:
                    if peeled > 2000 or (peeled > 40 and len(self.ctx.path_key()) > depth0 + 8 and unroll is None):
                        raise Unsupported(f"loop in {fr.name} does not settle")
                    peeled += 1
                    r = self.exec_block(s.body, fr)
                    if r is not None:
                        if r[0] == BRK:
                            return None
                        if r[0] == RET:
                            return r
                    continue
            break

        from .loops import sym_loop

        return sym_loop(self, fr, s, lambda: self.truth_val(self.eval(s.test, fr)) if not const else True, None, {}, test_ast=s.test)

    def x_For(self, s, fr):
        it = self.eval(s.iter, fr)
        return self.for_over(s, it, fr)

    def for_over(self, s, it, fr):
        if isinstance(it, SVal) and it.py is list:
            it = SymIter(SymSeq(it.sym_len(), it.item))
        if isinstance(it, SymIter):
            from .loops import sym_loop

            if it.seq.fail is not None:
                raise Unsupported("loop over an iterator that may fail")
            return sym_loop(self, fr, s, it.more, lambda: self.assign(s.target, it.step(), fr), {})
        seq = self.as_symseq(it)
        if seq is None:
            for v in self.iter_live(it):
                self.assign(s.target, v, fr)
                r = self.exec_block(s.body, fr)
                if r is not None:
                    if r[0] == BRK:
                        return None
                    if r[0] == RET:
                        return r
            return self.exec_block(s.orelse, fr)
        from .loops import sym_loop

        hid = f"$it{s.lineno}_{s.col_offset}"
        fr.locals[hid] = 0

        def test():
            return fr.locals[hid] < seq.n

        def pre():
            i = fr.locals[hid]
            fr.locals[hid] = i + 1
            self.assign(s.target, seq.item(i), fr)

        return sym_loop(self, fr, s, test, pre, {hid: seq.n})

    def as_symseq(self, it):
        if isinstance(it, SymSeq):
            if isinstance(it.n, int) and it.n <= 64:
                return None
            return it
        if isinstance(it, SymRange):
            return it.seq()
        if isinstance(it, SBytes):
            n = it.sym_len()
            if isinstance(n, int):
                return None
            return SymSeq(n, lambda i: it.at(i))
        if isinstance(it, GenResult):
            it = it.items
        if isinstance(it, TList) and it.abs is not None and len(it.abs.parts) == 1:
            run = it.abs.parts[0]
            if isinstance(run, Emits) and run.spec.make is not None:
                # one element per source index, described by the emitter
                return SymSeq(run.hi - run.lo, lambda i: run.spec.make(run.lo + i))
        return None

    def iter_live(self, it):
        """Elements for a loop: iterators are shared with the body, lists seen as they are when an element is fetched."""
        if isinstance(it, GenResult) and it.items.abs is None:
            return it
        if type(it) in (list, TList) and getattr(it, "abs", None) is None:
            return live_list(it)
        return self.iter_list(it)

    def iter_list(self, it):
        """Concrete list of the elements of an iterable (used eagerly)."""
        if isinstance(it, TList) and it.abs is not None:
            raise Unsupported("iteration over an abstract list")
        if isinstance(it, GenResult):
            if it.items.abs is not None:
                raise Unsupported("iteration over an abstract generator")
            r = it.rest()
            return r
        if isinstance(it, SymSeq):
            if isinstance(it.n, int):
                return [it.item(i) for i in range(it.n)]
            raise Unsupported("iteration over a symbolic sequence")
        if isinstance(it, SymRange):
            raise Unsupported("iteration over a symbolic range")
        if isinstance(it, SVal):
            raise Unsupported("iteration over an opaque value")
        if it is None:
            raise ProgExc(TypeError("'NoneType' object is not iterable"))
        if isinstance(it, (int, SInt)) and not isinstance(it, (str, bytes)):
            raise ProgExc(TypeError("'int' object is not iterable"))
        t = type(it)
        m = getattr(t, "__iter__", None)
        if isinstance(m, types.FunctionType) and is_repo_fn(m, self):
            return self.iter_list(self.call(types.MethodType(m, it), ()))
        if isinstance(it, (SDict,)):
            return list(it.keys())
        return list(it)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.split_parts(v, len(t.elts)) if isinstance(v, SVal) else self.unpack(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise ProgExc(ValueError("not enough values to unpack"))
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, TList(vals[i : len(vals) - after]), fr)
                for e, x in zip(t.elts[i + 1 :], vals[len(vals) - after :]):
                    self.assign(e, x, fr)
                return
            if len(vals) != len(t.elts):
                raise ProgExc(ValueError(f"unpack: expected {len(t.elts)} values, got {len(vals)}"))
            for e, x in zip(t.elts, vals):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported("assignment target")

    def split_parts(self, v, n):
        """The parts of a text split once."""
        name = v.z.decl().name()
        if n == 2 and name.startswith("v:split:") and v.z.num_args() == 3 and v.z.arg(2).eq(zint(1)):
            if not self.ctx.branch(SVal.appb("contains", [SVal(v.z.arg(0)), SVal(v.z.arg(1))])):
                raise ProgExc(ValueError("not enough values to unpack"))
        elif not (n == 3 and name.startswith("v:partition:")):
            raise Unsupported("unpacking an opaque value")
        a = [SVal(v.z.arg(0)), SVal(v.z.arg(1))]
        return [SVal.app("upto", a, str), *[v.item(i) for i in range(1, n - 1)], SVal.app("after", a, str)]

    def unpack(self, v):
        if v is UNDEF:
            raise Unsupported("use of a variable undefined by loop abstraction")
        if v is None:
            raise ProgExc(TypeError("cannot unpack non-iterable NoneType object"))
        if isinstance(v, SVal):
            raise Unsupported("unpacking an opaque value")
        return self.iter_list(v)

    def store_name(self, n, v, fr):
        if n in fr.globs:
            raise Unsupported("store to a global")
        if n in fr.nonloc:
            f = fr.parent
            while f is not None:
                if n in f.locals:
                    f.locals[n] = v
                    return
                f = f.parent
        fr.locals[n] = v

    def load_name(self, n, fr):
        f = fr
        while f is not None:
            if n in f.locals:
                v = f.locals[n]
                if v is UNDEF:
                    raise Unsupported(f"variable {n} is undefined by loop abstraction")
                return v
            if n in f.closure:
                return f.closure[n]
            f = f.parent
        if n in fr.globals:
            return fr.globals[n]
        if hasattr(builtins, n):
            return getattr(builtins, n)
        raise ProgExc(NameError(f"name '{n}' is not defined"))

    # ------------------------------------------------------------ attributes and items
    def getattr(self, o, name, *default):
        if o is UNDEF:
            raise Unsupported("use of a variable undefined by loop abstraction")
        if isinstance(o, super):
            return getattr(o, name)
        if isinstance(o, (SInt,)) and name in ("value",):
            return o.value if isinstance(o, SEnum) else o
        t = type(o)
        d = inspect.getattr_static(t, name, None) if not isinstance(o, type) else None
        if isinstance(d, property) and isinstance(d.fget, types.FunctionType) and is_repo_fn(d.fget, self):
            return self.call(d.fget, (o,))
        if isinstance(d, functools.cached_property) and is_repo_fn(d.func, self):
            if name in o.__dict__:
                return o.__dict__[name]
            v = self.call(d.func, (o,))
            self.setattr(o, name, v)
            return v
        try:
            v = getattr(o, name)
        except AttributeError as e:
            ga = inspect.getattr_static(t, "__getattr__", None)
            if default:
                return default[0]
            if isinstance(o, (SInt, SBool, SBytes, SVal, SymSeq, SymMap, SBytesIO, SByteArray, TList, SDict, SymStruct)):
                if isinstance(o, SymStruct) and not name.startswith("_"):
                    raise ProgExc(AttributeError(str(e)))
                if isinstance(o, (TList, SDict)):
                    raise ProgExc(AttributeError(str(e)))
                raise Unsupported(f"attribute {name} of {t.__name__}")
            raise ProgExc(e)
        if v is UNDEF:
            raise Unsupported(f"attribute {name} is undefined by loop abstraction")
        if isinstance(v, types.MethodType) and isinstance(v.__func__, types.FunctionType) and name == "__getattr__":
            raise Unsupported("__getattr__")
        return v

    def setattr(self, o, name, v):
        if isinstance(o, SymFile):
            raise Unsupported("attribute store on a file")
        uid = self.ctx.uid_of(o)
        self.ctx.note_write(("attr", uid, name), o)
        d = inspect.getattr_static(type(o), name, None)
        if isinstance(d, property) and isinstance(d.fset, types.FunctionType) and is_repo_fn(d.fset, self):
            self.call(d.fset, (o, v))
            return
        try:
            setattr(o, name, v)
        except (AttributeError, TypeError) as e:
            raise ProgExc(e)

    def getitem(self, o, i):
        if isinstance(o, (SBytes, SymSeq, SDict, SymMap, SByteArray, SVal, HDict)):
            return o[i]
        if o is UNDEF or i is UNDEF:
            raise Unsupported("use of a variable undefined by loop abstraction")
        if isinstance(o, (bytes, bytearray, str)) and isinstance(i, slice) and not concrete((i.start, i.stop, i.step)):
            if isinstance(o, str):
                raise Unsupported("symbolic slice of a string")
            return SBytes.of(o)[i]
        if isinstance(o, (list, tuple, str, bytes)) and isinstance(i, SInt):
            n = len(o)
            if isinstance(o, bytes) and n <= 64:
                return SBytes.of(o)[i]
            if n > 300:
                raise Unsupported("symbolic index into a long list")
            for k in range(n):
                if self.ctx.branch(sor(i == k, i == k - n)):
                    return o[k]
            raise ProgExc(IndexError("list index out of range"))
        if isinstance(o, dict) and not hashable(i):
            for k, v in o.items():
                e = self.models.keyeq(k, i)
                if e is True or (e is not False and self.ctx.branch(e)):
                    return v
            raise ProgExc(KeyError("<symbolic>"))
        if isinstance(o, SymStruct):
            return getattr(o, i)
        t = type(o)
        if not isinstance(o, type):
            m = getattr(t, "__getitem__", None)
            if isinstance(m, types.FunctionType) and is_repo_fn(m, self):
                return self.call(types.MethodType(m, o), (i,))
        if isinstance(o, type) or isinstance(o, types.GenericAlias):
            if not concrete(i):
                return self.models.type_item(self, o, i)
        if isinstance(o, TList) and isinstance(i, slice):
            r = TList(list.__getitem__(o, i)) if o.abs is None else o[i]
            return r
        try:
            return o[i]
        except (IndexError, KeyError, TypeError) as e:
            raise ProgExc(e)

    def setitem(self, o, i, v):
        if isinstance(o, (SDict, TList, SByteArray, MutMap, HDict)):
            if isinstance(o, TList):
                if isinstance(i, SInt):
                    n = len(o)
                    for k in range(n):
                        if self.ctx.branch(sor(i == k, i == k - n)):
                            o[k] = v
                            return
                    raise ProgExc(IndexError("list assignment index out of range"))
                if isinstance(i, int) and not -len(o) <= i < len(o):
                    raise ProgExc(IndexError("list assignment index out of range"))
            o[i] = v
            return
        if isinstance(o, (dict, list)):
            # a native container (created outside interpreted code)
            if not hashable(i):
                raise Unsupported("symbolic key stored in a native container")
            self.ctx.note_write(("native", None), o)
            try:
                o[i] = v
            except Exception as e:
                raise ProgExc(e)
            return
        m = getattr(type(o), "__setitem__", None)
        if isinstance(m, types.FunctionType) and is_repo_fn(m, self):
            self.call(types.MethodType(m, o), (i, v))
            return
        raise Unsupported(f"item assignment on {type(o).__name__}")

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.load_name(e.id, fr)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        while f.name == "<comp>":
            f = f.parent
        self.store_name(e.target.id, v, f)
        return v

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return TList(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return self.mkset(self.elts(e.elts, fr))

    def mkset(self, xs):
        if all(hashable(x) for x in xs):
            return set(xs)
        out = []
        for x in xs:
            for y in out:
                q = self.models.keyeq(y, x)
                if q is True or (q is not False and self.ctx.branch(q)):
                    break
            else:
                out.append(x)
        return FSet(out)

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.iter_list(self.eval(x.value, fr))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        if self.ctx.heap is not None and not e.keys:
            return self.ctx.heap.new()
        d = SDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, fr))
            else:
                kk = self.eval(k, fr)
                d[kk] = self.eval(v, fr)
        return d

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        return self.getitem(self.eval(e.value, fr), self.eval(e.slice, fr))

    def e_Slice(self, e, fr):
        f = lambda x: None if x is None else self.eval(x, fr)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_Lambda(self, e, fr):
        d = [self.eval(x, fr) for x in e.args.defaults]
        return Closure(self, e, fr, tuple(d), {})

    def e_IfExp(self, e, fr):
        t = self.truth_val(self.eval(e.test, fr))
        if isinstance(t, bool):
            return self.eval(e.body if t else e.orelse, fr)
        return self.eval(e.body if self.ctx.branch(t) else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if t != isand:
                return v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth_val(v)
            return snot(t)
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.UAdd):
            return +v
        return ~v

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(type(e.op), a, b)

    def binop(self, op, a, b):
        f = BINOPS[op]
        if a is UNDEF or b is UNDEF:
            raise Unsupported("use of a variable undefined by loop abstraction")
        if (a is None or b is None) and not isinstance(a, type | types.UnionType) and not isinstance(b, type | types.UnionType):
            raise ProgExc(TypeError(f"unsupported operand type(s): {type(a).__name__} and {type(b).__name__}"))
        if op is ast.Mult:
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (bytes, bytearray)) and isinstance(y, SInt):
                    return SBytes.repeat(bytes(x), y)
                if isinstance(x, list) and isinstance(y, SInt):
                    raise Unsupported("list repetition")
                if isinstance(x, list) and isinstance(y, int):
                    return TList(list(x) * y)
        if op in (ast.Mult, ast.Add, ast.Sub) and (isinstance(a, SInt) and isinstance(b, float) or isinstance(a, float) and isinstance(b, SInt)):
            return SVal.app("f" + _OPN[op], [a, b], float)
        if op is ast.Mod and isinstance(a, str) and not concrete(b):
            return SVal.app("pct", [a, b], str)
        if op is ast.Add and isinstance(a, list) and isinstance(b, list):
            r = TList(TList.items_of(a) if not (isinstance(a, TList) and a.abs) else [])
            if isinstance(a, TList) and a.abs is not None:
                r.abs = AbsList(a.abs.parts)
            r.extend(b)
            return r
        if isinstance(a, (SBytes, bytes)) and isinstance(b, (SBytes, bytes, SByteArray)) and op is ast.Add:
            from .values import _cat

            return _cat(a, b)
        for x, y, nm in ((a, b, "__" + _OPN[op] + "__"), (b, a, "__r" + _OPN[op] + "__")):
            m = getattr(type(x), nm, None)
            if isinstance(m, types.FunctionType) and is_repo_fn(m, self):
                return self.call(types.MethodType(m, x), (y,))
        try:
            return f(a, b)
        except (TypeError, ZeroDivisionError, ValueError, OverflowError) as ex:
            if (concrete(a) and concrete(b)) or isinstance(ex, ZeroDivisionError):
                raise ProgExc(ex)
            if isinstance(ex, TypeError) and (isinstance(a, (str, bytes, list, tuple, dict)) or isinstance(b, (str, bytes, list, tuple, dict))) and (is_int(a) or is_int(b)):
                raise ProgExc(ex)
            raise Unsupported(f"operator {op.__name__} on {type(a).__name__}, {type(b).__name__}")

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for i, (op, right) in enumerate(zip(e.ops, e.comparators)):
            r = self.eval(right, fr)
            c = self.compare(type(op), left, r)
            if i == len(e.ops) - 1:
                if res is True:
                    return c
                return sand(res, c) if isinstance(c, (bool, SBool)) else c
            t = self.truth_val(c)
            if not self.truth(t):
                return False
            left = r
        return res

    def compare(self, op, a, b):
        if a is UNDEF or b is UNDEF:
            raise Unsupported("use of a variable undefined by loop abstraction")
        if op is ast.Is or op is ast.IsNot:
            if isinstance(a, OVal) and b is None or isinstance(b, OVal) and a is None:
                r = (a if b is None else b).none()
            elif isinstance(a, (SVal, SInt)) or isinstance(b, (SVal, SInt)):
                if a is None or b is None:
                    r = False
                elif isinstance(a, bool) or isinstance(b, bool):
                    r = False
                else:
                    r = a is b or seq_(a, b)
            elif isinstance(a, SBool) or isinstance(b, SBool):
                if a is None or b is None:
                    r = False
                else:
                    r = a == b if isinstance(a, SBool) else b == a
            else:
                r = a is b
            return r if op is ast.Is else snot(r)
        if op is ast.In or op is ast.NotIn:
            r = self.contains(b, a)
            return r if op is ast.In else snot(r)
        if (a is None or b is None) and not isinstance(a, OVal) and not isinstance(b, OVal):
            if op is ast.Eq:
                return a is b
            if op is ast.NotEq:
                return a is not b
            raise ProgExc(TypeError(f"comparison not supported between {type(a).__name__} and {type(b).__name__}"))
        m = getattr(type(a), DUNDER[op], None)
        if isinstance(m, types.FunctionType) and is_repo_fn(m, self):
            return self.call(types.MethodType(m, a), (b,))
        m = getattr(type(a), "__eq__", None)
        if op is ast.NotEq and isinstance(m, types.FunctionType) and is_repo_fn(m, self):
            return snot(self.truth_val(self.call(types.MethodType(m, a), (b,))))
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and not (concrete(a) and concrete(b)):
            if op in (ast.Eq, ast.NotEq):
                if isinstance(a, list) != isinstance(b, list):
                    r = False
                elif len(a) != len(b):
                    r = False
                else:
                    r = sand(*[self.truth_val(self.compare(ast.Eq, x, y)) for x, y in zip(a, b)])
                return r if op is ast.Eq else snot(r)
            for x, y in zip(a, b):
                if not self.truth(self.compare(ast.Eq, x, y)):
                    return self.compare(op, x, y)
            return CMPOPS[op](len(a), len(b))
        if isinstance(b, (SInt, SBytes, SVal)) and not isinstance(a, (SInt, SBytes, SVal, SBool)):
            if op in (ast.Eq, ast.NotEq) and isinstance(a, enum.Enum) and isinstance(b, SInt):
                a = a.value if isinstance(a.value, int) else a
        try:
            return CMPOPS[op](a, b)
        except TypeError as ex:
            if concrete(a) and concrete(b):
                raise ProgExc(ex)
            raise Unsupported(f"comparison of {type(a).__name__} and {type(b).__name__}")

    def contains(self, c, x):
        if isinstance(c, (SDict, SymMap)):
            return x in c
        if isinstance(c, TList) and c.abs is not None:
            raise Unsupported("containment in an abstract list")
        if isinstance(c, (list, tuple, set, frozenset)) or type(c).__name__ in ("dict_keys", "dict_values", "FSet", "dict_items"):
            if concrete(x) and concrete(list(c)) and not isinstance(c, FSet):
                return x in c
            rs = []
            for y in c:
                q = self.truth_val(self.compare(ast.Eq, y, x))
                if q is True:
                    return True
                rs.append(q)
            return sor(*rs)
        if isinstance(c, dict):
            if hashable(x):
                return x in c
            return sor(*[self.models.keyeq(k, x) for k in c])
        if isinstance(c, SBytes) and isinstance(x, bytes) and x and isinstance(c.sym_len(), int) and c.sym_len() <= 64:
            bs = [c.at(i) for i in range(c.sym_len())]
            return sor(*[sand(*[bs[o + k] == x[k] for k in range(len(x))]) for o in range(len(bs) - len(x) + 1)])
        if isinstance(c, (SBytes, SVal)):
            return SVal.appb("contains", [c, x])
        if isinstance(c, (str, bytes)) and not concrete(x):
            return SVal.appb("contains", [c, x])
        if isinstance(c, (range, SymRange)):
            if isinstance(c, range) and concrete(x):
                return x in c
            if c.step == 1:
                return sand(x >= c.start, x < c.stop)
            raise Unsupported("containment in a stepped range")
        if isinstance(c, enum.EnumMeta) and isinstance(x, SInt):
            return sor(*[x == int(m.value) for m in c])
        m = getattr(type(c), "__contains__", None)
        if isinstance(m, types.FunctionType) and is_repo_fn(m, self):
            return self.truth_val(self.call(types.MethodType(m, c), (x,)))
        try:
            return x in c
        except TypeError as ex:
            raise ProgExc(ex)

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            cls = fr.cls
            f = fr
            while f is not None and f.cls is None:
                f = f.parent
            cls = f.cls if f else None
            if cls is None:
                raise Unsupported("super() without class")
            # first positional parameter
            self_obj = None
            for k in ("self", "cls"):
                if k in fr.locals:
                    self_obj = fr.locals[k]
                    break
            else:
                self_obj = next(iter(fr.locals.values()))
            return super(cls, self_obj)
        fn = self.eval(e.func, fr)
        if fn in (next, any, all) and e.args and isinstance(e.args[0], ast.GeneratorExp) and not e.keywords:
            r = self.search(fn, e, fr)
            if r is not UNDEF:
                return r
        args = self.elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                kw.update(v)
            else:
                kw[k.arg] = v
        if fn is UNDEF:
            raise Unsupported("call of an undefined value")
        return self.call(fn, tuple(args), kw)

    def e_JoinedStr(self, e, fr):
        parts = []
        conc = True
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, fr)
                spec = self.eval(v.format_spec, fr) if v.format_spec is not None else ""
                if concrete(x) and concrete(spec):
                    if v.conversion == 114:
                        x = repr(x)
                    elif v.conversion == 115:
                        x = str(x)
                    try:
                        parts.append(format(x, spec))
                    except (TypeError, ValueError) as ex:
                        raise ProgExc(ex)
                else:
                    conc = False
                    parts.append(SVal.app("fmt", [x if not isinstance(x, (SymFile, SymStruct)) else "?", spec], str))
        if conc:
            return "".join(parts)
        return SVal.app("fstr", parts, str)

    def e_FormattedValue(self, e, fr):
        return self.e_JoinedStr(ast.JoinedStr(values=[e]), fr)

    def e_Starred(self, e, fr):
        raise Unsupported("starred expression")

    # comprehensions
    def comp(self, e, fr, emit):
        def rec(i, f):
            if i == len(e.generators):
                emit(f)
                return
            g = e.generators[i]
            it = self.eval(g.iter, f if i else fr)
            if self.as_symseq(it) is not None:
                raise _SymComp("comprehension over a symbolic sequence")
            for v in self.iter_list(it):
                self.assign(g.target, v, f)
                if all(self.truth(self.eval(c, f)) for c in g.ifs):
                    rec(i + 1, f)

        f = Frame("<comp>", fr.globals, fr)
        rec(0, f)

    def e_ListComp(self, e, fr):
        out = TList()
        try:
            self.comp(e, fr, lambda f: list.append(out, self.eval(e.elt, f)))
        except _SymComp:
            return self.symcomp(e, fr)
        return out

    def symcomp(self, e, fr):
        """Comprehension over a symbolic sequence: run as the equivalent for loop."""
        tmp = f"$comp{e.lineno}_{e.col_offset}"
        f = Frame("<comp>", fr.globals, fr)
        if isinstance(e, ast.DictComp):
            f.locals[tmp] = SDict()
            body = [ast.Assign([ast.Subscript(ast.Name(tmp, ast.Load()), e.key, ast.Store())], e.value)]
        else:
            f.locals[tmp] = TList()
            body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(tmp, ast.Load()), "append", ast.Load()), [e.elt], []))]
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [], None)]
        for n in ast.walk(body[0]):
            if not hasattr(n, "lineno"):
                n.lineno, n.col_offset = e.lineno, e.col_offset
        ast.fix_missing_locations(body[0])
        self.exec(body[0], f)
        return f.locals[tmp]

    def e_GeneratorExp(self, e, fr):
        out = TList()
        try:
            self.comp(e, fr, lambda f: list.append(out, self.eval(e.elt, f)))
        except _SymComp:
            return GenResult(self.symcomp(e, fr))
        return GenResult(out)

    def search(self, fn, e, fr):
        """next/any/all over a generator expression on a symbolic sequence: run as the equivalent search loop."""
        g = e.args[0]
        if len(g.generators) != 1:
            return UNDEF
        gen = g.generators[0]
        seq = self.eval(gen.iter, fr)
        if self.as_symseq(seq) is None:
            return UNDEF
        f = Frame("<search>", fr.globals, fr)
        f.locals["$seq"] = seq
        f.locals["$default"] = self.eval(e.args[1], fr) if len(e.args) > 1 else UNDEF
        name = lambda n, c=ast.Load: ast.Name(n, c())
        put = lambda v: ast.Assign([name("$result", ast.Store)], v)
        if fn is next:
            body, orelse = [put(g.elt), ast.Break()], [put(name("$default"))]
        elif fn is any:
            body, orelse = [ast.If(g.elt, [put(ast.Constant(True)), ast.Break()], [])], [put(ast.Constant(False))]
        else:
            body, orelse = [ast.If(g.elt, [ast.Pass()], [put(ast.Constant(False)), ast.Break()])], [put(ast.Constant(True))]
        for c in reversed(gen.ifs):
            body = [ast.If(c, body, [])]
        node = ast.For(gen.target, name("$seq"), body, orelse, None)
        for n in ast.walk(node):
            if not hasattr(n, "lineno"):
                n.lineno, n.col_offset = e.lineno, e.col_offset
        ast.fix_missing_locations(node)
        self.exec(node, f)
        r = f.locals["$result"]
        if r is UNDEF and fn is next:
            raise ProgExc(StopIteration())
        return r

    def e_SetComp(self, e, fr):
        out = []
        self.comp(e, fr, lambda f: out.append(self.eval(e.elt, f)))
        return self.mkset(out)

    def e_DictComp(self, e, fr):
        d = SDict()

        def emit(f):
            k = self.eval(e.key, f)
            d[k] = self.eval(e.value, f)

        try:
            self.comp(e, fr, emit)
        except _SymComp:
            return self.symcomp(e, fr)
        return d

    # generators (eager)
    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else None
        f = fr
        while f.yields is None:
            f = f.parent
        f.yields.append(v)
        return None

    def e_YieldFrom(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        while f.yields is None:
            f = f.parent
        if isinstance(v, GenResult):
            if v.items.abs is not None:
                f.yields.extend(v.items)
                return v.ret
            for x in v.rest():
                f.yields.append(x)
            return v.ret
        if isinstance(v, TList) and v.abs is not None:
            f.yields.extend(v)
            return None
        for x in self.iter_list(v):
            f.yields.append(x)
        return None


_OPN = {
    ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.Div: "truediv",
    ast.LShift: "lshift", ast.RShift: "rshift", ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor", ast.Pow: "pow",
    ast.MatMult: "matmul",
}


class _SymComp(Unsupported):
    pass


class FSet(list):
    """Set with possibly symbolic members (already pairwise distinct on this path)."""

    def add(self, x):
        for y in self:
            q = seq_(y, x)
            if q is True or (q is not False and cur().branch(q)):
                return
        self.append(x)


def live_list(v):
    i = 0
    while i < len(v):
        if getattr(v, "abs", None) is not None:
            raise Unsupported("list changed by loop abstraction while it is iterated")
        yield list.__getitem__(v, i)
        i += 1


class GenResult:
    """The (eagerly computed) result of a generator."""

    def __init__(self, items, ret=None):
        self.items = items
        self.ret = ret
        self.pos = 0

    def rest(self):
        r = list(self.items)[self.pos :]
        self.pos = len(self.items)
        return r

    def __iter__(self):
        return self

    def __next__(self):
        if self.items.abs is not None:
            raise Unsupported("next() on an abstract generator")
        if self.pos >= len(self.items):
            raise StopIteration
        self.pos += 1
        return self.items[self.pos - 1]


class SymRange:
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step

    def seq(self):
        st = self.step
        if isinstance(st, int) and st > 0:
            n = T.smax((self.stop - self.start + (st - 1)) // st, 0) if st != 1 else T.smax(self.stop - self.start, 0)
        elif isinstance(st, int) and st < 0:
            n = T.smax((self.start - self.stop + (-st - 1)) // (-st), 0)
        else:
            if not cur().branch(st > 0):
                raise Unsupported("range with a non-positive symbolic step")
            n = T.smax((self.stop - self.start + st - 1) // st, 0)
        # drop the max when the sign is known
        if isinstance(st, int) and st == 1:
            d = self.stop - self.start
            if d is not n and cur().entails(d >= 0):
                n = d
        return SymSeq(n, lambda i: self.start + i * st, "range")


def _has_yield(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False
