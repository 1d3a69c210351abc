"""The driver interface.

A driver is a Python function of one argument ``E``.  The same driver text is run
  * symbolically: inputs are unknowns, ``E.call`` interprets the real code, ``E.prove`` emits obligations;
  * concretely: inputs are numbers/files, ``E.call`` calls the real code under CPython, ``E.prove`` checks.
"""
from __future__ import annotations

import functools
import hashlib
import io
import random
import time
import types

import z3

from . import loops, streams
from . import terms as T
from .engine import Ctx, Obligation
from .interp import GenResult, Interp
from .terms import I, PathEnd, ProgExc, SBool, SInt, Unsupported, from_z, is_int, ite_int, sand, seq_, simplies, snot, sor, zint
from .values import AbsList, Emits, Family, GrowSeq, MutMap, Heap, OVal, RunDict, SBytes, SymIter, boxed, entry, list_term, pieces, SDict, Seg, SymFile, SymMap, SymSeq, SVal, Table, TList, BYTE


class Skip(BaseException):
    """A concrete sample does not satisfy the precondition."""


class CheckFailed(BaseException):
    def __init__(self, label, info=""):
        super().__init__(f"{label}: {info}")
        self.label, self.info = label, info


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *types_):
        return self.exc is not None and isinstance(self.exc, types_)

    def __repr__(self):
        return f"Outcome({self.value!r}, {self.exc!r})"


def deep_eq(a, b):
    """Structural equality as bool/SBool without forking."""
    if isinstance(a, GenResult):
        a = a.items
    if isinstance(b, GenResult):
        b = b.items
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if isinstance(a, TList) and a.abs is not None or isinstance(b, TList) and b.abs is not None:
            raise Unsupported("comparison of an abstract list")
        if len(a) != len(b):
            return False
        return sand(*[deep_eq(x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return a is b
    if isinstance(a, (SDict, dict)) and isinstance(b, (SDict, dict)):
        if len(a) != len(b):
            return False
        return sand(*[sand(deep_eq(x[0], y[0]), deep_eq(x[1], y[1])) for x, y in zip(a.items(), b.items())])
    if isinstance(b, (SInt, SBytes, SVal, SBool)) and not isinstance(a, (SInt, SBytes, SVal, SBool)):
        a, b = b, a
    r = a == b
    if isinstance(r, (bool, SBool)):
        return r
    if r is NotImplemented:
        return False
    return bool(r)


class Emitter:
    """Specification of the elements a loop emits for each source index."""

    def __init__(self, name, emit, obs, eq=deep_eq, make=None, keyed=False):
        self.name, self.emit, self.obs, self.eq, self.make = name, emit, obs, eq, make
        self.keyed = keyed  # values of a dictionary, under the source index

    def __repr__(self):
        return self.name

    def same(self, elem, expected):
        return self.eq(self.obs(elem), expected)

    def run(self, lo, hi):
        return Emits(self, lo, hi)


def aside(f):
    @functools.wraps(f)
    def g(self, *a, **k):
        with self.ctx.specification():
            return f(self, *a, **k)

    return g


class Fold:
    """A recursive function of a position (and an accumulator), defined by ``unfold(i[, acc], go)``.

    The recursion has to be well-founded; the defining equation is added for every argument the function is
    asked for (``go`` is the function itself, unfolded ``depth - 1`` more times).
    """

    def __init__(self, env, name, unfold, start, acc=None, ints=False, depth=1):
        self.env, self.name, self.unfold, self.start, self.acc, self.ints, self.depth = env, name, unfold, start, acc, ints, depth
        self.seen = {}

    def __call__(self, *args, depth=None):
        depth = self.depth if depth is None else depth
        args = [args[0], *[SVal(boxed(a)) for a in args[1:]]]
        t = (SVal.appi if self.ints else SVal.app)("fold." + self.name, args)
        if depth > 0:
            zs = [SVal.of(a) for a in args]
            k = tuple(z.get_id() for z in zs)
            if self.seen.get(k, (0,))[0] < depth:
                self.seen[k] = (depth, zs)
                r = self.unfold(*args, lambda *a: self(*a, depth=depth - 1))
                self.env.ctx.add_fact(zint(t) == zint(r) if self.ints else t.z == boxed(r))
        return t


class SymEnv:
    symbolic = True

    def __init__(self, ctx, tier="quick"):
        self.ctx = ctx
        self.it = Interp(ctx, self)
        self.tier = tier
        self.fidc = 0
        self.K = None
        ctx.env = self
        streams.install(self.it)

    # inputs
    def int(self, name, lo=None, hi=None, pick=None):
        v = self.ctx.fresh(name, lo, hi)
        self.ctx.inputs.append(("int", name))
        return v

    def let(self, name, value):
        """A name for a value (keeps the solver terms small)."""
        v = self.ctx.fresh("let_" + name)
        self.ctx.assume(v == value)
        return v

    def bool(self, name, p=0.5):
        v = self.ctx.fresh(name, 0, 1)
        self.ctx.inputs.append(("int", name))
        return v == 1

    def choose(self, name, options):
        options = list(options)
        i = self.ctx.choose(len(options), name)
        n = self.ctx.freshc.get("choice:" + name, 0)
        self.ctx.freshc["choice:" + name] = n + 1
        self.ctx.inputs.append(("choice", name if n == 0 else f"{name}!{n}", i))
        return options[i]

    def fun(self, name, *idx, lo=None, hi=None, pick=None):
        f = z3.Function("fn_" + name, *([I] * len(idx)), I)
        v = from_z(f(*[zint(i) for i in idx]), "uf")
        if lo is not None:
            self.ctx.add_fact(zint(v) >= zint(lo))
        if hi is not None:
            self.ctx.add_fact(zint(v) <= zint(hi))
        return v

    def pred(self, name, *idx, p=0.5):
        return self.fun(name, *idx, lo=0, hi=1) == 1

    def file(self, name, size=None, has_size=False, endless=False, pick=None):
        self.fidc -= 1
        f = SymFile(name, self.fidc, size, None, endless)
        if has_size:
            f.__dict__["has_size"] = True
        return f

    def family(self, name, endless=True):
        fam = Family(name)
        env = self

        class Fam:
            def file(self, idx):
                return SymFile(f"{name}[{idx}]", idx, None, fam, endless)

        return Fam()

    def assume(self, c):
        self.ctx.assume(c)

    def constrain(self, c):
        """Assume and make sure the path stays feasible."""
        self.ctx.assume(c)

    # running real code
    def call(self, fn, *a, **k):
        return self.it.call(fn, a, k)

    def attempt(self, fn, *a, **k):
        try:
            return Outcome(self.it.call(fn, a, k))
        except ProgExc as e:
            return Outcome(exc=e.exc)

    def get(self, obj, name):
        return self.it.getattr(obj, name)

    def len(self, x):
        return self.it.models.h_len(self.it, x)

    def symmap(self, present, value, n=None, count=None):
        """Mapping over keys 0..n-1; ``count`` is the number of present ones when some are absent."""
        return SymMap(present, value, n if count is None else count, n is not None and count is None)

    def table(self, n, value, key=None, ordered=True):
        """Mapping of n entries in a given order (or not), whatever the keys are."""
        return Table(n, value, key, ordered)

    def mutmap(self, present, value):
        """Like symmap, for mappings the code writes to."""
        return MutMap(present, value)

    def symseq(self, n, item):
        return SymSeq(n, item)

    def growseq(self, n, item):
        """Like symseq, for lists the code appends to."""
        return GrowSeq(n, item)

    def list(self, xs=()):
        return TList(xs)

    def dict(self, items=()):
        d = SDict()
        for k, v in items:
            d[k] = v
        return d

    def items(self, x):
        """Concrete element list of an interpreted list/generator."""
        return self.it.iter_list(x)

    def contract(self, fn, repl):
        """Replace a repository function by a contract: repl(E, *args)."""
        self.it.contracts[fn] = lambda it, *a, **k: repl(self, *a, **k)

    def inductive(self, cls, name, repl):
        """The outermost call of the method runs, calls nested in it are answered by ``repl(E, self, *args)``."""
        fn = cls.__dict__.get(name)
        if not isinstance(fn, types.FunctionType):
            return False
        depth = [0]

        def c(it, *a, **k):
            if depth[0]:
                return repl(self, *a, **k)
            depth[0] += 1
            try:
                return it.call_fn(fn, a, k)
            finally:
                depth[0] -= 1

        self.it.contracts[fn] = c
        return True

    def disturb(self):
        """Other readers of the same handles leave them anywhere."""
        self.ctx.havoc_positions()

    def history(self, step):
        """Any number of steps: what a step writes is arbitrary afterwards (it must be positions only)."""
        ctx, eng = self.ctx, self.ctx.eng
        if eng.unroll:
            if ctx.choose(2, "history"):
                step()
            return
        li = eng.loop_info(("history", tuple(ctx.callstack), ctx.path_key()), "history")
        li.visits += 1
        start = ctx.uidc
        objs = {(o.__dict__.get("uid") if isinstance(o, SymFile) else getattr(o, "uid", None)): o for o in ctx.objs}
        objs.update(ctx.byid.values())
        locs = loops.locations(self.it, None, [], li, objs)
        choice = ctx.choose(2, "history")
        for l in locs:
            if l.kind == "fam":
                ctx.freshc["fam"] = ctx.freshc.get("fam", 0) + 1
                l.set(z3.Array(f"fampos_s{ctx.freshc['fam']}", I, I))
            elif l.kind == "int" and (l.key[0] == "pos" or l.key[0] == "attr" and l.key[2] == "_pos"):
                l.set(ctx.fresh("left", lo=0))
            else:
                raise Unsupported(f"reads keep state in {l.key[0]} {l.key[-1]}")
        if choice == 0:
            ctx.scopes.append((li, start))
            try:
                step()
            finally:
                ctx.scopes.pop()
            ctx.prove("history: reads change nothing but positions", True)
            raise PathEnd("back edge")

    # logic helpers
    def min(self, a, b):
        return T.smin(a, b)

    def max(self, a, b):
        return T.smax(a, b)

    def ite(self, c, a, b):
        return ite_int(c, a, b)

    def And(self, *a):
        return sand(*a)

    def Or(self, *a):
        return sor(*a)

    def Not(self, a):
        return snot(a)

    def Implies(self, a, b):
        return simplies(a, b)

    def eq(self, a, b):
        return deep_eq(a, b)

    def concrete_only(self):
        raise PathEnd("concrete only")

    # hints
    def acc_spec(self, name, fn):
        if self.K is None:
            self.K = self.ctx.fresh("K!")
            self.ctx.inputs.append(("int", "K!"))
        self.ctx.acc_specs.append((name, self.K, fn))

    def hint(self, name, fn):
        self.ctx.view_hints.append((name, fn))

    def pair_hint(self, name, fn):
        self.ctx.pair_hints.append((name, fn))

    def term_hint(self, name, t):
        if not hasattr(self.ctx, "term_hints"):
            self.ctx.term_hints = []
        self.ctx.term_hints.append((name, t))

    def loop_hint(self, name, fn):
        self.ctx.loop_hints.append((name, fn))

    def measure(self, name, fn):
        self.ctx.measure_hints.append((name, fn))

    def split_quotients(self):
        """Also relate x // (a * b) to (x // a) // b."""
        self.ctx.split_quotients = True
        self.ctx.patience = 20000

    def name_products(self):
        """Factors of products become atoms instead of being multiplied out (monotonicity instead of expansion)."""
        self.ctx.name_products = True

    def view_measure(self, name, fn):
        """A termination measure as a function of one loop variable."""
        self.ctx.view_measures.append((name, fn))

    def about(self, f, read=None, uint=None):
        """Assumptions about the content of a file, for all positions, instantiated wherever it is read or decoded:
        ``read(pos, n)`` and ``uint(pos, width, endian, value)`` call ``E.assume``."""
        for k, fn in (("read", read), ("uint", uint)):
            if fn is not None:
                self.ctx.file_hooks.append((f.fid, k, fn))

    def emitter(self, name, emit, obs, eq=deep_eq, make=None, keyed=False):
        e = Emitter(name, emit, obs, eq, make, keyed)
        self.ctx.emitters.append(e)
        return e

    def fold(self, name, unfold, start, **k):
        """A recursive specification; loops may keep its value (from ``start``) invariant."""
        f = Fold(self, name, unfold, start, **k)
        self.ctx.folds.append(f)
        return f

    def dictionaries(self, has=None, addr=None):
        """Follow dictionaries by address.

        has and addr say which numbers are keys of a dictionary of identities when the iterator is at a position, and where
        the dictionary found there is.
        """
        self.ctx.heap = Heap()
        self.ctx.map_hint = (has, addr) if has else None
        return self.ctx.heap

    def entry(self, addr, key, value):
        return entry(addr, key, value)

    def at_address(self, addr):
        return SVal.app("dict", [addr])

    def text_item(self, t, i):
        """t[i] of an opaque text that is long enough."""
        return t.item(i)

    def texts(self, n, item):
        """A sequence of n texts."""
        return SymSeq(n, item, "texts")

    def contains(self, t, x):
        return SVal.appb("contains", [t, x])

    def nonempty(self, t):
        return SVal.appb("truth", [t])

    def pure(self, name, *args, py=object):
        """A library function that is not looked into."""
        return SVal.app(name, list(args), py)

    def on_sub(self, fn):
        """Contract of substitutions in opaque texts: fn(pattern, replacement, text)."""
        self.ctx.on_sub = fn

    def prove_language(self, label, empty):
        """A statement about the languages of regular expressions, decided by z3's sequence solver."""
        t0 = time.time()
        if empty() is not True:
            raise Unsupported(f"{label}: not established")
        eng, pk = self.ctx.eng, self.ctx.path_key()
        if eng.mode != "infer" and not any(o.label == label and o.path == pk for o in eng.obls):
            eng.obls.append(Obligation(label, pk, "proved", "z3-re", time.time() - t0))

    def val_hint(self, name, fn):
        """A relation of an opaque loop variable and an integer one."""
        self.ctx.val_hints.append((name, fn))

    def slice_hint(self, base):
        """Loop variables may be pieces of this byte string."""
        self.ctx.slices.append(SBytes.of(base))

    def opaque(self, name, *idx, py=object, none=False):
        """An arbitrary value (which may be None) for every index."""
        v = SVal.app("any." + name, list(idx), py)
        return OVal(v.z, py) if none else v

    def opaque_int(self, name, *args):
        """An arbitrary number for all arguments."""
        return SVal.appi("num." + name, [SVal(boxed(a)) for a in args])

    def vite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        return SVal(z3.If(T.zbool(c), boxed(a), boxed(b)))

    def veq(self, a, b):
        return SBool(boxed(a) == boxed(b))

    def lines(self, data, seps):
        """The pieces of a byte string between separators."""
        return pieces(SBytes.of(data), seps)

    def span(self, data, chars):
        """Number of leading bytes out of a set."""
        return SVal.appi("span:" + bytes(sorted(set(chars))).hex(), [SBytes.of(data)])

    def is_number(self, data):
        return SVal.appb("isint", [data])

    def number(self, data):
        return SVal.appi("int", [data])

    def little(self, data):
        """A little-endian number of an opaque byte string."""
        return SVal.appi("from_bytes", [data, "little"])

    def sequence(self, n, item, fail=None):
        """A sequence of opaque values; the item function is None from position n on."""
        def at(i):
            v = item(i)
            # where asking fails there is no None to be had
            end = i >= n if fail is None else self.And(i >= n, self.Not(fail[0]))
            self.ctx.add_fact(T.zbool(v.none()) == T.zbool(end))
            return v

        return SymSeq(n, at, "ending in None", fail)

    def iterator(self, seq, pos=0):
        return SymIter(seq, pos)

    def listed(self, x):
        """Content of a list as an opaque value."""
        if isinstance(x, GenResult):
            x = x.items
        return SVal(list_term(TList.items_of(x)))

    def piece(self, b, lo, hi):
        """b[lo:hi] of a byte string read from one file, for 0 <= lo <= hi <= len(b)."""
        return SBytes([SBytes.of(b).segs[0].sub(lo, hi - lo)])

    def exception(self, exc):
        """To be raised by a contract."""
        return ProgExc(exc)

    def unsupported(self, why):
        raise Unsupported(why)

    def snoc(self, acc, x):
        return SVal.app("snoc", [SVal(boxed(acc)), SVal(boxed(x))])

    def truth(self, c):
        """Decide a condition (both ways)."""
        return self.it.truth(c)

    def ghost(self):
        """An arbitrary index (for pointwise statements)."""
        if self.K is None:
            self.K = self.ctx.fresh("K!")
            self.ctx.inputs.append(("int", "K!"))
        return self.K

    def stream_byte(self, st, p):
        """Byte p of a stream built only from dissect.util classes (None otherwise)."""
        if not streams.plain(st):
            return None
        streams.whole(st)
        return streams.content(st, p)

    def byte(self, data, k):
        return SBytes.of(data).at(k)

    def encoded(self, text):
        """The bytes a text was decoded from."""
        if isinstance(text, SVal) and isinstance(text.desc, SBytes):
            return text.desc
        raise Unsupported("text of unknown origin")

    # obligations
    def prove(self, label, cond, info=None):
        if isinstance(cond, SVal):
            raise Unsupported("opaque condition")
        self.ctx.prove(label, cond)

    @aside
    def prove_eq(self, label, a, b):
        self.ctx.prove(label, deep_eq(a, b))

    @aside
    def prove_bytes(self, label, data, n, fn):
        data = SBytes.of(data)
        self.ctx.prove(f"{label}: length", seq_(data.sym_len(), n))
        if self.K is None:
            self.K = self.ctx.fresh("K!")
            self.ctx.inputs.append(("int", "K!"))
        K = self.K
        self.ctx.prove(f"{label}: every byte", simplies(sand(K >= 0, K < n, K < data.sym_len()), data.at(K) == fn(K)))

    @aside
    def prove_bytes_upto(self, label, data, n, fn):
        """The first n bytes agree (the length is somebody else's business)."""
        data = SBytes.of(data)
        if self.K is None:
            self.K = self.ctx.fresh("K!")
            self.ctx.inputs.append(("int", "K!"))
        K = self.K
        self.ctx.prove(f"{label}: every byte", simplies(sand(K >= 0, K < n, K < data.sym_len()), data.at(K) == fn(K)))

    @aside
    def prove_list(self, label, lst, parts, obs=None):
        if isinstance(lst, GenResult):
            lst = lst.items
        got = TList.items_of(lst) if isinstance(lst, list) else self.it.iter_list(lst)
        if self.ctx.eng.mode == "infer":
            return
        got = _merge_runs(got)
        parts = _merge_runs(parts)
        if any(type(g).__name__ == "Opaque" for g in got):
            raise Unsupported("list content lost by loop abstraction")
        # runs that are provably empty are dropped
        ok = []
        if len(got) != len(parts):
            got = [g for g in got if not (isinstance(g, Emits) and self.ctx.entails(g.lo == g.hi))]
            parts = [g for g in parts if not (isinstance(g, Emits) and self.ctx.entails(g.lo == g.hi))]
        if len(got) != len(parts):
            if not any(isinstance(x, Emits) for x in got + parts):
                self.ctx.prove(f"{label}: number of elements", False)
                return
            raise Unsupported(f"{label}: list shapes differ")
        for i, (g, p) in enumerate(zip(got, parts)):
            if isinstance(g, Emits) and isinstance(p, Emits):
                if g.spec is not p.spec:
                    raise Unsupported(f"{label}: different emitters")
                self.ctx.prove(f"{label}: run bounds", sand(g.lo == p.lo, g.hi == p.hi))
            elif isinstance(g, Emits) or isinstance(p, Emits):
                raise Unsupported(f"{label}: list shapes differ")
            else:
                self.ctx.prove(f"{label}: element", deep_eq(obs(g) if obs else g, p))

    @aside
    def prove_filled(self, label, d, em, n):
        """The dictionary holds what the emitter describes, under the keys 0 to n - 1."""
        if not isinstance(d, RunDict) or len(d.symk) > 1 or d.symk[0].spec is not em:
            raise Unsupported(f"{label}: dictionary filled in another way")
        if self.ctx.eng.mode != "infer":
            self.ctx.prove(label, sand(d.symk[0].lo == 0, d.symk[0].hi == n))

    def fail(self, label, info=None):
        self.ctx.prove(label, False)

    def cover(self, label):
        self.ctx.eng.covers = getattr(self.ctx.eng, "covers", {})
        self.ctx.eng.covers[label] = self.ctx.eng.covers.get(label, 0) + 1


def _merge_runs(parts):
    out = []
    for p in parts:
        if isinstance(p, Emits):
            if seq_(p.lo, p.hi) is True:
                continue
            if out and isinstance(out[-1], Emits) and out[-1].spec is p.spec and seq_(out[-1].hi, p.lo) is True:
                out[-1] = Emits(p.spec, out[-1].lo, p.hi)
                continue
        out.append(p)
    return out


# ---------------------------------------------------------------- concrete side
def hash_byte(fid, pos, salt=0):
    h = (fid * 0x9E3779B1 + pos * 0x85EBCA77 + (pos >> 9) * 0xC2B2AE3D + salt * 0x27D4EB2F) & 0xFFFFFFFF
    h ^= h >> 15
    h = (h * 0x2C1B3C6D) & 0xFFFFFFFF
    h ^= h >> 12
    return (h >> 8) & 0xFF


class FakeFile(io.RawIOBase):
    """Sparse file of deterministic content; records writes."""

    def __init__(self, name, fid, size=None, salt=0, content=None, zero=False, has_size=False, strict=False):
        self.name, self.fid, self.salt = name, fid, salt
        self.fsize = self.end = size
        self.tab = content if content is not None else {}
        self.zero = zero
        self.given = frozenset(self.tab)
        self.pos = 0
        self.ops = []
        self.readlog = None
        self.wrote = False
        if has_size:
            self.size = size

    def byte(self, p):
        v = self.tab.get((self.fid, p))
        if v is not None:
            return v
        return 0 if self.zero else hash_byte(self.fid, p, self.salt)

    def at(self, p):
        return self.byte(p)

    def bytes_at(self, p, n):
        return bytes(self.byte(p + i) for i in range(n))

    def put(self, p, data):
        for i, b in enumerate(data):
            self.tab[(self.fid, p + i)] = b

    def fill(self, p, data):
        """Sample content: bytes that a counterexample prescribes stay."""
        if not any((self.fid, p + i) in self.given for i in range(len(data))):
            self.put(p, data)

    def filln(self, p, width, value, endian="le"):
        self.fill(p, int(value).to_bytes(width, "little" if endian == "le" else "big"))

    def uint(self, p, w, endian="le", signed=False):
        return int.from_bytes(self.bytes_at(p, w), "little" if endian == "le" else "big", signed=signed)

    def seek(self, off, whence=0):
        off = int(off)
        if whence == 0:
            if off < 0:
                raise OSError(22, "Invalid argument")
            self.pos = off
        elif whence == 1:
            self.pos = max(0, self.pos + off)
        else:
            if self.end is None:
                raise OSError(22, "unseekable end")
            self.pos = max(0, self.end + off)
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        if n is None or n < 0:
            if self.fsize is None:
                raise CheckFailed("unbounded read of a member", f"{self.name} at {self.pos}")
            n = max(0, self.fsize - self.pos)
        elif self.fsize is not None:
            n = min(n, max(0, self.fsize - self.pos))
        if n > 16 * 1024 * 1024:
            raise Skip("huge read")
        b = self.bytes_at(self.pos, n)
        if self.readlog is not None:
            self.readlog.append((self.pos, n))
        self.pos += n
        return b

    def readinto(self, b):
        d = self.read(len(b))
        b[: len(d)] = d
        return len(d)

    def readable(self):
        return True

    def seekable(self):
        return True

    def writable(self):
        return False

    def write(self, *_):
        self.wrote = True
        raise CheckFailed("write to an input file", self.name)

    def truncate(self, *_):
        self.wrote = True
        raise CheckFailed("write to an input file", self.name)

    def close(self):
        pass


class ConEnv:
    symbolic = False

    def __init__(self, rng=None, assignment=None, interp=None, tier="quick"):
        self.rng = rng or random.Random(0)
        self.asg = assignment or {}
        self.tier = tier
        self.fidc = 0
        self.log = {}
        self.memo = {}
        self.table = {tuple(k): v for k, v in self.asg.get("bytes", [])}
        self.funs = {(n, tuple(a)): v for n, a, v in self.asg.get("funs", [])}
        self.salt = self.asg.get("salt", self.rng.randrange(1 << 16))
        self.proved = 0
        self.digest = []
        self.interp = interp
        self.it = interp
        self.files = []
        self.names = {}
        self.prng = random.Random(self.salt)  # where the handles are

    def uniq(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else f"{name}!{n}"

    def int(self, name, lo=None, hi=None, pick=None):
        key = self.uniq(name)
        ints = self.asg.get("ints", {})
        if key in ints:
            v = ints[key]
        elif pick is not None:
            v = pick(self.rng)
        else:
            a = lo if lo is not None else -4
            b = hi if hi is not None else a + self.rng.choice([4, 20, 300, 5000])
            v = self.rng.randint(a, min(b, a + 1_000_000)) if b >= a else a
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip(name)
        self.log[key] = v
        return v

    def let(self, name, value):
        return value

    def bool(self, name, p=0.5):
        key = self.uniq(name)
        ints = self.asg.get("ints", {})
        v = bool(ints[key]) if key in ints else self.rng.random() < p
        self.log[key] = int(v)
        return v

    def choose(self, name, options):
        options = list(options)
        key = self.uniq("choice:" + name)[7:]
        ch = self.asg.get("choices", {})
        i = ch[key] if key in ch else self.rng.randrange(len(options))
        if i >= len(options):
            raise Skip("choice")
        self.log["choice:" + key] = i
        return options[i]

    def fun(self, name, *idx, lo=None, hi=None, pick=None):
        k = (name, tuple(idx))
        if k not in self.memo:
            if k in self.funs:
                v = self.funs[k]
            elif pick is not None:
                v = pick(self.rng)
            else:
                a = lo if lo is not None else 0
                b = hi if hi is not None else a + 1000
                v = self.rng.randint(a, b)
            self.memo[k] = v
        v = self.memo[k]
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip(name)
        return v

    def pred(self, name, *idx, p=0.5):
        return self.fun(name, *idx, lo=0, hi=1, pick=lambda r: int(r.random() < p)) == 1

    def file(self, name, size=None, has_size=False, endless=False, pick=None):
        self.fidc -= 1
        f = FakeFile(name, self.fidc, None if endless else size, self.salt, self.table, has_size=has_size)
        f.end = size
        if not endless and size is None:
            f.fsize = f.end = self.asg.get("fsizes", {}).get(str(self.fidc), self.rng.choice([0, 512, 4096, 1 << 20, 1 << 30]))
        f.pos = self.prng.randrange(100000)
        self.files.append(f)
        return f

    def family(self, name, endless=True):
        env = self
        cache = {}

        class Fam:
            members = cache

            def file(self, idx):
                if idx not in cache:
                    f = FakeFile(f"{name}[{idx}]", idx, None, env.salt, env.table)
                    f.pos = env.prng.randrange(100000)
                    env.files.append(f)
                    cache[idx] = f
                return cache[idx]

        return Fam()

    def assume(self, c):
        if not c:
            raise Skip("assumption")

    constrain = assume

    def _dig(self, tag, v):
        if self.interp is not None or self.digest is not None:
            self.digest.append((tag, digest(v)))

    def call(self, fn, *a, **k):
        if self.interp is not None:
            try:
                v = self.interp.call(fn, a, k)
            except ProgExc as e:
                self._dig("exc", type(e.exc).__name__)
                raise e.exc
        else:
            try:
                v = fn(*a, **k)
                if type(v).__name__ == "generator":
                    v = list(v)
            except Exception as e:
                self._dig("exc", type(e).__name__)
                raise
        self._dig("ret", v)
        return v

    def attempt(self, fn, *a, **k):
        try:
            return Outcome(self.call(fn, *a, **k))
        except Exception as e:
            return Outcome(exc=e)

    def get(self, obj, name):
        if self.interp is not None:
            return self.interp.getattr(obj, name)
        return getattr(obj, name)

    def len(self, x):
        return len(x)

    def symmap(self, present, value, n=None, count=None):
        keys = range(n if n is not None else 64)
        d = {}
        for k in keys:
            if present(k):
                d[k] = value(k)
        return d

    def symseq(self, n, item):
        return [item(i) for i in range(n)]

    growseq = symseq

    def list(self, xs=()):
        return list(xs)

    def dict(self, items=()):
        return dict(items)

    def items(self, x):
        if isinstance(x, GenResult):
            return x.rest()
        return list(x)

    def contract(self, fn, repl):
        pass

    def inductive(self, cls, name, repl):
        return False

    min = staticmethod(min)
    max = staticmethod(max)

    def ite(self, c, a, b):
        return a if c else b

    def And(self, *a):
        return all(a)

    def Or(self, *a):
        return any(a)

    def Not(self, a):
        return not a

    def Implies(self, a, b):
        return (not a) or b

    def eq(self, a, b):
        return deep_eq(a, b)

    def concrete_only(self):
        pass

    def acc_spec(self, *a):
        pass

    hint = pair_hint = term_hint = loop_hint = measure = view_measure = acc_spec

    def about(self, f, read=None, uint=None):
        pass

    def encoded(self, text):
        return text.encode()

    def name_products(self):
        pass

    split_quotients = name_products

    def emitter(self, name, emit, obs, eq=deep_eq, make=None):
        return Emitter(name, emit, obs, eq, make)

    def truth(self, c):
        return bool(c)

    def prove(self, label, cond, info=None):
        self.proved += 1
        if not cond:
            raise CheckFailed(label, info() if callable(info) else (info or ""))

    def prove_eq(self, label, a, b):
        self.proved += 1
        if not deep_eq(a, b):
            raise CheckFailed(label, f"got {short(a)}, expected {short(b)}")

    def prove_bytes(self, label, data, n, fn):
        self.proved += 1
        data = bytes(data)
        if len(data) != n:
            raise CheckFailed(f"{label}: length", f"got {len(data)} bytes, expected {n}")
        step = 1 if n <= 4096 else None
        ks = range(n) if step else sorted(set([*range(64), *range(n - 64, n), *[self.rng.randrange(n) for _ in range(1500)]]))
        for k in ks:
            e = fn(k)
            if data[k] != e:
                raise CheckFailed(f"{label}: every byte", f"byte {k} is {data[k]:#x}, expected {e:#x}")

    def prove_list(self, label, lst, parts, obs=None):
        self.proved += 1
        got = self.items(lst)
        exp = []
        getters = []
        eqs = []
        for p in parts:
            if isinstance(p, Emits):
                for i in range(p.lo, p.hi):
                    for x in p.spec.emit(i):
                        exp.append(x)
                        getters.append(p.spec.obs)
                        eqs.append(p.spec.eq)
            else:
                exp.append(p)
                getters.append(obs)
                eqs.append(deep_eq)
        if len(got) != len(exp):
            raise CheckFailed(f"{label}: number of elements", f"got {len(got)}, expected {len(exp)}: {short([g(x) if g else x for g, x in zip(getters, got)])} vs {short(exp)}")
        for i, (g, e, o, q) in enumerate(zip(got, exp, getters, eqs)):
            ov = o(g) if o else g
            if not q(ov, e):
                raise CheckFailed(f"{label}: element", f"element {i}: got {short(ov)}, expected {short(e)}")

    def fail(self, label, info=None):
        raise CheckFailed(label, info or "")

    def cover(self, label):
        pass


def short(x):
    s = repr(x)
    return s if len(s) < 400 else s[:400] + "..."


def digest(v, depth=0):
    """Comparable summary of a value for the interpreter/CPython cross-check."""
    if isinstance(v, GenResult):
        v = list(v.items)
    if v is None or isinstance(v, (bool, str, float)):
        return v
    if isinstance(v, int):
        return int(v)
    if isinstance(v, (bytes, bytearray, memoryview)):
        return hashlib.sha1(bytes(v)).hexdigest()
    if isinstance(v, SBytes):
        return "sbytes"
    if isinstance(v, (list, tuple)):
        return [digest(x, depth + 1) for x in list(v)[:50]] if depth < 3 else len(v)
    if isinstance(v, dict):
        return [[digest(k, depth + 1), digest(x, depth + 1)] for k, x in v.items()] if depth < 3 else len(v)
    return type(v).__name__
