"""Symbolic values other than integers: byte strings, opaque values, files, dictionaries, lists."""
from __future__ import annotations

import struct as _struct

import enum

import z3

from . import terms as T
from .terms import I, VAL, ProgExc, SBool, SInt, Unsupported, cur, from_z, is_int, ite_int, sand, seq_, snot, sor, zint

BYTE = z3.Function("byte", I, I, I)
T.RANGES["byte"] = (0, 255)
FSIZE = z3.Function("fsize", I, I)
LITID = z3.Function("litid$", VAL, I)
_UF: dict = {}


def uint_uf(width, endian, signed=False):
    n = f"{'S' if signed else 'U'}{width * 8}{endian}"
    f = _UF.get(n)
    if f is None:
        f = _UF[n] = z3.Function(n, I, I, I)
        T.RANGES[n] = (-(1 << (8 * width - 1)), (1 << (8 * width - 1)) - 1) if signed else (0, (1 << (8 * width)) - 1)
    return f


def byte_at(fid, pos):
    return from_z(BYTE(zint(fid), zint(pos)), "uf")


def uint_at(fid, pos, width, endian, signed=False):
    if width == 1 and not signed:
        return byte_at(fid, pos)
    r = from_z(uint_uf(width, endian, signed)(zint(fid), zint(pos)), "uf")
    notify("uint", fid, pos, width, endian, r)
    return r


def notify(kind, fid, *a):
    """Instantiate what the driver assumes about the content of a file (see ``SymEnv.about``)."""
    ctx = cur()
    hooks = getattr(ctx, "file_hooks", None)
    if not hooks or not isinstance(fid, int) or ctx.in_hook:
        return
    ctx.in_hook = True
    try:
        for f, k, fn in hooks:
            if f == fid and k == kind:
                fn(*a)
    finally:
        ctx.in_hook = False


def concrete(x):
    """True when no symbolic component is (shallowly) visible in the value."""
    if isinstance(x, (SInt, SBool, SBytes, SVal, SymFile, SymStruct, SymSeq)):
        return False
    if isinstance(x, (list, tuple, set, frozenset)):
        if isinstance(x, TList) and x.abs is not None:
            return False
        return all(concrete(y) for y in x)
    if isinstance(x, SDict):
        return x.symk is None and all(concrete(v) for v in dict.values(x))
    if isinstance(x, dict):
        return all(concrete(v) for v in x.values())
    return True


# ---------------------------------------------------------------- opaque values
_lits: dict = {}
_fn_cache: dict = {}

PURE_METHODS = {
    "decode", "strip", "rstrip", "lstrip", "split", "rsplit", "partition", "upper", "lower", "replace", "encode", "hex",
    "startswith", "endswith", "removeprefix", "removesuffix", "splitlines", "find", "index", "count", "isdigit", "isspace",
    "title", "capitalize", "swapcase", "zfill", "join", "format", "timestamp", "isoformat", "total_seconds",
}


class SVal:
    """An opaque value: a term of an uninterpreted sort, compared only by congruence."""

    __slots__ = ("z", "py", "desc")

    def __init__(self, z, py=object, desc=""):
        self.z, self.py, self.desc = z, py, desc

    def __repr__(self):
        return f"SVal({self.z})"

    @staticmethod
    def lit(x):
        k = (type(x).__name__, repr(x))
        r = _lits.get(k)
        if r is None:
            r = _lits[k] = (SVal(z3.Const(f"lit:{k[1]}", VAL), type(x)), len(_lits))
        ctx = cur()
        if k not in ctx.lits:
            ctx.lits.add(k)
            ctx.add_fact(LITID(r[0].z) == r[1])
        return r[0]

    @staticmethod
    def of(x):
        """z3 term (of sort VAL or Int or Bool) standing for any Python value."""
        if isinstance(x, SVal):
            return x.z
        if isinstance(x, (bool, SBool)):
            return T.zbool(x)
        if is_int(x):
            return zint(x)
        if isinstance(x, SBytes):
            return x.val().z
        if isinstance(x, (list, tuple)):
            return SVal.app("seq", list(x), list).z
        return SVal.lit(x).z

    @staticmethod
    def app(name, args, py=object):
        zs = [SVal.of(a) for a in args]
        key = (name, tuple(str(z.sort()) for z in zs), "V")
        f = _fn_cache.get(key)
        if f is None:
            sorts = [z.sort() for z in zs] + [VAL]
            f = _fn_cache[key] = z3.Function("v:" + name + ":" + "".join(str(z.sort())[0] for z in zs), *sorts)
        return SVal(f(*zs) if zs else z3.Const("v:" + name, VAL), py)

    @staticmethod
    def appi(name, args):
        zs = [SVal.of(a) for a in args]
        key = (name, tuple(str(z.sort()) for z in zs), "I")
        f = _fn_cache.get(key)
        if f is None:
            f = _fn_cache[key] = z3.Function("i:" + name + ":" + "".join(str(z.sort())[0] for z in zs), *[z.sort() for z in zs], I)
        return from_z(f(*zs), "uf")

    @staticmethod
    def appb(name, args):
        zs = [SVal.of(a) for a in args]
        key = (name, tuple(str(z.sort()) for z in zs), "B")
        f = _fn_cache.get(key)
        if f is None:
            f = _fn_cache[key] = z3.Function("b:" + name + ":" + "".join(str(z.sort())[0] for z in zs), *[z.sort() for z in zs], T.B)
        return SBool(f(*zs))

    def __eq__(self, o):
        if isinstance(o, SVal):
            if self.z.eq(o.z):
                return True
            return SBool(self.z == o.z)
        if o is None:
            return False
        if isinstance(o, SBytes):
            return SBool(self.z == o.val().z)
        if isinstance(o, (str, bytes, tuple)) or type(o).__name__ in ("UUID", "datetime"):
            return SBool(self.z == SVal.lit(o).z)
        if is_int(o):
            if self.py is not object:
                return False
            raise Unsupported("opaque == int")
        return False

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __hash__(self):
        raise Unsupported("hash of an opaque value")

    def __bool__(self):
        if self.py is object:
            raise Unsupported("truth of an opaque object")
        return cur().branch(SVal.appb("truth", [self]))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in PURE_METHODS:
            def m(*args, **kw):
                if name in ("decode", "encode"):
                    args, kw = _codec(*args, **kw), {}
                a = [self, *args, *[x for p in sorted(kw.items()) for x in p]]
                if name in ("startswith", "endswith", "isdigit", "isspace"):
                    return SVal.appb(name, a)
                if name in ("find", "index", "count"):
                    return SVal.appi(name, a)
                py = {"decode": str, "encode": bytes, "split": list, "rsplit": list, "splitlines": list}.get(name, self.py)
                r = SVal.app(name, a, py)
                if name == "decode":
                    r.desc = self.desc
                return r

            return m
        return SVal.app("attr." + name, [self])

    def __getitem__(self, i):
        if self.py in (str, bytes) and isinstance(i, int) and i in (0, -1) and not cur().branch(SVal.appb("truth", [self])):
            raise ProgExc(IndexError("index out of range"))
        return self.item(i)

    def item(self, i):
        if isinstance(i, slice):
            return SVal.app("slice", [self, _sl(i.start), _sl(i.stop), _sl(i.step)], self.py)
        py = str if self.py in (str, list) else object
        if isinstance(i, int) and i == 0 and self.z.num_args() > 1 and self.z.decl().name().startswith(("v:split:", "v:partition:")):
            # everything up to the separator, whichever way it was asked for
            return SVal(SVal.app("upto", [SVal(self.z.arg(0)), SVal(self.z.arg(1))]).z, object if self.py is list else self.py)
        return SVal.app("item", [self, i], py)

    def __len__(self):
        raise Unsupported("native len of an opaque value")

    def sym_len(self):
        n = SVal.appi("len", [self])
        cur().add_fact(zint(n) >= 0)
        return n

    def __add__(self, o):
        return SVal.app("add", [self, o], self.py)

    def __radd__(self, o):
        return SVal.app("add", [o, self], self.py)

    def _arith(self, op, *a):
        if self.py is not float:
            raise Unsupported(f"{op} on an opaque value")
        return SVal.app("f" + op, list(a), float)

    def __sub__(self, o):
        return self._arith("sub", self, o)

    def __rsub__(self, o):
        return self._arith("sub", o, self)

    def __mul__(self, o):
        return self._arith("mul", self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._arith("div", self, o)

    def __floordiv__(self, o):
        return self._arith("fdiv", self, o)

    def __mod__(self, o):
        return self._arith("mod", self, o)

    def __lt__(self, o):
        return SVal.appb("lt", [self, o])

    def __gt__(self, o):
        return SVal.appb("lt", [o, self])

    def __contains__(self, o):
        raise Unsupported("native containment in an opaque value")

    def __iter__(self):
        raise Unsupported("iteration over an opaque value")

    def __call__(self, *a, **k):
        raise Unsupported("call of an opaque value")


class OVal(SVal):
    """An opaque value that may be None."""

    __slots__ = ()

    def none(self):
        return SBool(self.z == SVal.lit(None).z)

    def __eq__(self, o):
        return self.none() if o is None else SVal.__eq__(self, o)

    __hash__ = SVal.__hash__

    def __bool__(self):
        return not cur().branch(self.none()) and SVal.__bool__(self)


def boxed(x):
    """Any value as a term of the sort of opaque values."""
    if isinstance(x, SVal):
        return x.z
    if isinstance(x, (bool, SBool)):
        return SVal.app("bool", [x]).z
    if is_int(x) and not isinstance(x, enum.Enum):
        return SVal.app("int", [x]).z
    if isinstance(x, SBytes):
        return x.val().z
    if x is None or isinstance(x, (bytes, str, enum.Enum)) or type(x).__name__ == "datetime":
        return SVal.lit(x).z
    if isinstance(x, HDict):
        return SVal.app("dict", [x.addr]).z
    raise Unsupported(f"{type(x).__name__} as an opaque value")


def entry(addr, key, value):
    """One write to the dictionary at an address."""
    return SVal.app("entry", [addr, SVal(boxed(key)), SVal(boxed(value))])


class Heap:
    """The dictionaries of a program that makes them in a loop.

    Each one is known by an address only.  What is written under names goes into one list (``log``) of all writes.
    Dictionaries made in a loop have the position of the iterator the loop runs over as address, the others 0, -1, ...
    """

    def __init__(self):
        self.log = TList()
        self.last = 0
        self.count = 0
        self.uid = cur().new_uid(self)

    def new(self):
        ctx = cur()
        if not ctx.scopes:
            self.count += 1
            return HDict(self, 1 - self.count)
        if ctx.last_iter is None:
            raise Unsupported("dictionary made in a loop")
        a = ctx.last_iter.pos
        if not ctx.entails(a > self.last):
            raise Unsupported("two dictionaries made at one position")
        ctx.note_write(("attr", self.uid, "last"), self)
        self.last = a
        return HDict(self, a)


class HDict:
    """A dictionary with an address; numbers as keys (identities) only for one whose object is known."""

    def __init__(self, heap, addr, known=True):
        self.heap, self.addr, self.known = heap, addr, known
        self.base = None  # (present, address) functions of keys
        self.new = []
        if known:
            self.uid = cur().new_uid(self)

    def __bool__(self):
        raise Unsupported("truth of a dictionary known by its address")

    def __eq__(self, o):
        if o is None:
            return False
        if isinstance(o, HDict):
            raise Unsupported("comparison of dictionaries")
        return NotImplemented

    __hash__ = None

    def has(self, q):
        """Is the number a key, and the address of the dictionary found there (formulas)."""
        p, a = (False, 0) if self.base is None else (self.base[0](q), self.base[1](q))
        for k, v in self.new:
            p, a = sor(k == q, p), ite_int(k == q, v.addr, a)
        return p, a

    def _number(self, k):
        if not (is_int(k) and self.known):
            raise Unsupported("reading a dictionary known by its address")
        return k

    def __setitem__(self, k, v):
        if is_int(k):
            self._number(k)
            if not isinstance(v, HDict):
                raise Unsupported("value stored under a number")
            cur().note_write(("imap", self.uid), self)
            self.new.append((k, v))
        else:
            self.heap.log.append(entry(self.addr, k, v))

    def __getitem__(self, k):
        p, a = self.has(self._number(k))
        if not cur().branch(p):
            raise ProgExc(KeyError("<symbolic>"))
        return HDict(self.heap, a, known=False)

    def get(self, k, d=None):
        return self[k] if k in self else d

    def __contains__(self, k):
        return cur().branch(self.has(self._number(k))[0])


class ListVal:
    """What a list held when a loop was cut: its content as an opaque value."""

    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z


def list_term(parts):
    """The content of a list as an opaque value: the empty list with elements added one by one."""
    z = SVal.lit("[]").z
    for i, p in enumerate(parts):
        if isinstance(p, ListVal):
            if i:
                raise Unsupported("list in a list")
            z = p.z
        else:
            z = SVal.app("snoc", [SVal(z), SVal(boxed(p))]).z
    return z


def _codec(encoding="utf-8", errors="strict"):
    import codecs

    return codecs.lookup(encoding).name, errors


def _sl(x):
    return "none" if x is None else x


# ---------------------------------------------------------------- byte strings
class Seg:
    __slots__ = ("kind", "n", "a", "b")

    # kinds: 'c' const (a=bytes), 'f' file (a=fid, b=pos), 'r' repeat (a=byte), 'x' abstract (a=uid, b=offset),
    # 'g' given by a function (a=position -> byte, b=start)
    def __init__(self, kind, n, a=None, b=None):
        self.kind, self.n, self.a, self.b = kind, n, a, b

    def at(self, i):
        k = self.kind
        if k == "c":
            if isinstance(i, int):
                return self.a[i] if 0 <= i < len(self.a) else 0
            r = self.a[-1] if self.a else 0
            if len(self.a) > 64:
                if len(set(self.a)) == 1:
                    return self.a[0]
                raise Unsupported("symbolic index into a long constant")
            for j in range(len(self.a) - 2, -1, -1):
                r = ite_int(i == j, self.a[j], r)
            return r
        if k == "f":
            return byte_at(self.a, self.b + i)
        if k == "r":
            return self.a
        if k == "x":
            f = z3.Function(f"abs{self.a}", I, I)
            T.RANGES[f"abs{self.a}"] = (0, 255)
            return from_z(f(zint((self.b or 0) + i)), "uf")
        if k == "g":
            return self.a(self.b + i)
        raise Unsupported("segment")

    def sub(self, off, n):
        k = self.kind
        if k == "c":
            if isinstance(off, int) and isinstance(n, int):
                return Seg("c", n, self.a[off : off + n])
            if self.a and len(set(self.a)) == 1:
                return Seg("r", n, self.a[0])
            raise Unsupported("symbolic slice of a constant")
        if k == "f":
            return Seg("f", n, self.a, self.b + off)
        if k == "r":
            return Seg("r", n, self.a)
        if isinstance(off, int) and off == 0 and seq_(n, self.n) is True:
            return self
        return Seg(k, n, self.a, (self.b or 0) + off)


def clamp_slice(start, stop, n):
    """Normalise slice bounds against a length, symbolically (forks where order is unknown)."""
    def fix(v, default):
        if v is None:
            return default
        if v < 0:
            v = v + n
            if v < 0:
                v = 0
            return v
        if v > n:
            return n
        return v

    a = fix(start, 0)
    b = fix(stop, n)
    if b < a:
        b = a
    return a, b


class SBytes:
    __slots__ = ("segs",)

    def __init__(self, segs):
        out = []
        for s in segs:
            if isinstance(s.n, int) and s.n == 0:
                continue
            if out:
                p = out[-1]
                if p.kind == "c" and s.kind == "c":
                    out[-1] = Seg("c", p.n + s.n, p.a + s.a)
                    continue
                if p.kind == "f" and s.kind == "f" and seq_(p.a, s.a) is True and seq_(p.b + p.n, s.b) is True:
                    out[-1] = Seg("f", p.n + s.n, p.a, p.b)
                    continue
                if p.kind == "r" and s.kind == "r" and isinstance(p.a, int) and isinstance(s.a, int) and p.a == s.a:
                    out[-1] = Seg("r", p.n + s.n, p.a)
                    continue
            out.append(s)
        self.segs = out

    def __repr__(self):
        return "SBytes[" + ", ".join(f"{s.kind}:{s.n}:{s.a}:{s.b}" for s in self.segs) + "]"

    @staticmethod
    def mk(segs):
        r = SBytes(segs)
        if not r.segs:
            return b""
        if len(r.segs) == 1:
            s = r.segs[0]
            if s.kind == "c":
                return s.a
            if s.kind == "r" and isinstance(s.n, int) and isinstance(s.a, int):
                return bytes([s.a]) * s.n
        return r

    @staticmethod
    def of(x):
        if isinstance(x, SBytes):
            return x
        if isinstance(x, (bytes, bytearray, memoryview)):
            return SBytes([Seg("c", len(x), bytes(x))])
        if isinstance(x, SByteArray):
            return SBytes.of(x.v)
        raise Unsupported(f"not bytes: {type(x).__name__}")

    @staticmethod
    def repeat(b, n):
        if len(b) == 0:
            return b""
        n = T.smax(n, 0) if not isinstance(n, int) else max(n, 0)
        if isinstance(n, SInt) and cur().entails_quick(n >= 0):
            pass
        if len(set(b)) != 1:
            raise Unsupported("symbolic repetition of a non-uniform byte string")
        return SBytes.mk([Seg("r", n * len(b), b[0])])

    @staticmethod
    def of_int(v, length, endian):
        raise Unsupported("int.to_bytes")

    def sym_len(self):
        n = 0
        for s in self.segs:
            n = n + s.n
        return n

    def __len__(self):
        n = self.sym_len()
        if isinstance(n, int):
            return n
        raise Unsupported("native len of symbolic bytes")

    def __bool__(self):
        n = self.sym_len()
        if isinstance(n, int):
            return n > 0
        return cur().branch(n != 0)

    def __hash__(self):
        raise Unsupported("hash of symbolic bytes")

    def at(self, i):
        """Byte at index i (no bounds check)."""
        if not self.segs:
            return 0
        if len(self.segs) == 1:
            return self.segs[0].at(i)
        base = 0
        parts = []
        for s in self.segs:
            parts.append((base, s))
            base = base + s.n
        if isinstance(i, int):
            acc = 0
            for b0, s in parts:
                if isinstance(b0, int) and isinstance(s.n, int):
                    if b0 <= i < b0 + s.n:
                        return s.at(i - b0)
                else:
                    break
        b0, s = parts[-1]
        r = s.at(i - b0)
        for b0, s in reversed(parts[:-1]):
            r = ite_int(i < b0 + s.n, s.at(i - b0), r)
        return r

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("byte slice step")
            n = self.sym_len()
            a, b = clamp_slice(i.start, i.stop, n)
            return self.sub(a, b - a)
        n = self.sym_len()
        if i < 0:
            i = i + n
        if i < 0 or i >= n:
            raise ProgExc(IndexError("index out of range"))
        return self.at(i)

    def sub(self, a, n):
        """n bytes from offset a; the range is known to be inside."""
        if isinstance(n, int) and n == 0:
            return b""
        if len(self.segs) == 1 and self.segs[0].kind != "c":
            return SBytes.mk([self.segs[0].sub(a, n)])
        out = []
        end = a + n
        base = 0
        for s in self.segs:
            lo, hi = base, base + s.n
            base = hi
            # overlap of [a, end) and [lo, hi)
            if not isinstance(hi, int) or not isinstance(a, int):
                if a >= hi:
                    continue
            elif a >= hi:
                continue
            if end <= lo:
                break
            st = a - lo if a > lo else 0
            en = end - lo if end < hi else s.n
            out.append(s.sub(st, en - st))
        return SBytes.mk(out)

    def __add__(self, o):
        if not isinstance(o, (bytes, bytearray, SBytes, SByteArray)):
            return NotImplemented
        return SBytes.mk(self.segs + SBytes.of(o).segs)

    def __radd__(self, o):
        if not isinstance(o, (bytes, bytearray, SBytes)):
            return NotImplemented
        return SBytes.mk(SBytes.of(o).segs + self.segs)

    def val(self):
        """Opaque value standing for the content."""
        ts = []
        for s in self.segs:
            if s.kind == "c":
                ts.append(SVal.lit(s.a))
            elif s.kind == "f":
                ts.append(SVal.app("fileseg", [s.a, s.b, s.n], bytes))
            elif s.kind == "r":
                ts.append(SVal.app("rep", [s.a, s.n], bytes))
            else:
                key = s.a if s.kind == "x" else f"g{id(s.a)}"
                ts.append(SVal.app(f"abs{key}", [s.b or 0, s.n], bytes))
        if not ts:
            return SVal.lit(b"")
        r = ts[0]
        for t in ts[1:]:
            r = SVal.app("cat", [r, t], bytes)
        return r

    def __eq__(self, o):
        if isinstance(o, SVal):
            return o == self
        if not isinstance(o, (bytes, bytearray, SBytes)):
            return False
        o = SBytes.of(o)
        la, lb = self.sym_len(), o.sym_len()
        leq = seq_(la, lb)
        if leq is False:
            return False
        if self.same(o):
            return True
        n = lb if isinstance(lb, int) else la
        if isinstance(n, int) and n <= 64:
            # byte-wise comparison
            return sand(leq, *[seq_(self.at(j), o.at(j)) for j in range(n)])
        if len(o.segs) == 1 and o.segs[0].kind in "cr":
            c = o.segs[0]
            if c.kind == "r" or len(set(c.a)) == 1:
                return sand(leq, SVal.appb("allbytes", [self, c.a if c.kind == "r" else c.a[0]]))
        return sand(leq, SBool(self.val().z == o.val().z))

    def same(self, o):
        if len(self.segs) != len(o.segs):
            return False
        for a, b in zip(self.segs, o.segs):
            if a.kind != b.kind or seq_(a.n, b.n) is not True:
                return False
            if a.kind == "c":
                if a.a != b.a:
                    return False
            elif a.kind in "xg":
                if (a.a != b.a if a.kind == "x" else a.a is not b.a) or seq_(a.b or 0, b.b or 0) is not True:
                    return False
            elif seq_(a.a, b.a) is not True or (a.kind == "f" and seq_(a.b, b.b) is not True):
                return False
        return True

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __iter__(self):
        n = self.sym_len()
        if isinstance(n, int):
            return iter([self.at(i) for i in range(n)])
        raise Unsupported("iteration over symbolic bytes")

    def __contains__(self, x):
        raise Unsupported("containment in symbolic bytes")

    def uint(self, off, width, endian, signed=False):
        """Integer decoded from width bytes at a concrete or symbolic offset."""
        if len(self.segs) == 1 and self.segs[0].kind == "f":
            s = self.segs[0]
            return uint_at(s.a, s.b + off, width, endian, signed)
        sub = self.sub(off, width)
        if isinstance(sub, bytes):
            return int.from_bytes(sub, "little" if endian == "le" else "big", signed=signed)
        if len(sub.segs) == 1 and sub.segs[0].kind == "f":
            s = sub.segs[0]
            return uint_at(s.a, s.b, width, endian, signed)
        r = 0
        for j in range(width):
            b = sub.at(j)
            r = r + b * (1 << (8 * (j if endian == "le" else width - 1 - j)))
        if signed:
            r = ite_int(r >= (1 << (8 * width - 1)), r - (1 << (8 * width)), r)
        return r

    def lstrip_(self, chars=None):
        if not isinstance(chars, bytes) or len(self.segs) != 1:
            return self.val().lstrip(*([] if chars is None else [chars]))
        n = self.sym_len()
        j = SVal.appi("span:" + bytes(sorted(set(chars))).hex(), [self])
        ctx = cur()
        ctx.add_fact(z3.And(zint(j) >= 0, zint(j) <= zint(n)))
        # the first byte that stays is none of them
        b = self.at(j)
        ctx.add_fact(z3.Implies(zint(j) < zint(n), z3.And(*[zint(b) != c for c in set(chars)])))
        return self.sub(j, n - j)

    def split_(self, *a):
        if len(a) == 1 and isinstance(a[0], bytes) and len(a[0]) == 1:
            return pieces(self, a[0])
        return self.val().split(*a)

    # opaque text methods
    def __getattr__(self, name):
        if name in PURE_METHODS:
            v = self.val()
            v.desc = self
            if name == "lstrip":
                return self.lstrip_
            if name == "split":
                return self.split_
            if name in ("startswith", "endswith"):
                def sw(p):
                    if isinstance(p, bytes):
                        n = self.sym_len()
                        if isinstance(n, int):
                            if n < len(p):
                                return False
                            sub = self.sub(0, len(p)) if name == "startswith" else self.sub(n - len(p), len(p))
                            return sub == p
                        if name == "startswith":
                            return sand(n >= len(p), *[seq_(self.at(j), p[j]) for j in range(len(p))])
                    raise Unsupported(name)

                return sw
            return getattr(v, name)
        raise AttributeError(name)


class SByteArray:
    """Mutable byte buffer."""

    __slots__ = ("v", "uid")

    def __init__(self, v=b""):
        self.v = v
        self.uid = cur().new_uid(self)

    def _set(self, v):
        cur().note_write(("ba", self.uid), self)
        self.v = v

    def sym_len(self):
        return SBytes.of(self.v).sym_len()

    def __iadd__(self, o):
        self._set(_cat(self.v, o))
        return self

    def extend(self, o):
        self._set(_cat(self.v, o))

    def append(self, b):
        if isinstance(b, int):
            self._set(_cat(self.v, bytes([b])))
        else:
            self._set(_cat(self.v, SBytes([Seg("r", 1, b)])))

    def __add__(self, o):
        return _cat(self.v, o)

    def __eq__(self, o):
        return SBytes.of(self.v) == (o.v if isinstance(o, SByteArray) else o)

    def __getitem__(self, i):
        return self.v[i] if isinstance(self.v, bytes) and concrete(i) else SBytes.of(self.v)[i]

    def __setitem__(self, i, val):
        if not isinstance(i, slice) or i.step not in (None, 1):
            raise Unsupported("bytearray item assignment")
        cur_v = SBytes.of(self.v)
        n = cur_v.sym_len()
        a, b = clamp_slice(i.start, i.stop, n)
        self._set(_cat(_cat(cur_v.sub(0, a), val), cur_v.sub(b, n - b)))

    def __bool__(self):
        return bool(SBytes.of(self.v))

    def __hash__(self):
        raise Unsupported("hash of bytearray")


def _cat(a, b):
    if isinstance(b, SByteArray):
        b = b.v
    if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
        return bytes(a) + bytes(b)
    return SBytes.mk(SBytes.of(a).segs + SBytes.of(b).segs)


# ---------------------------------------------------------------- files
class SymFile:
    """A file-like object of unknown content.

    ``fid`` identifies the content (an int, or a symbolic integer for a member of a family); positions of a
    family live in one solver array so that two symbolic members may alias.
    """

    def __init__(self, name, fid, size=None, family=None, endless=False):
        self.__dict__.update(name=name, fid=fid, fsize=size, family=family, endless=endless)
        self.__dict__["uid"] = cur().new_uid(self)
        if family is None:
            self.__dict__["_pos"] = cur().fresh(f"pos0_{name}", lo=0)

    def __repr__(self):
        return f"<SymFile {self.name}>"

    def _getpos(self):
        if self.family is not None:
            return from_z(z3.Select(self.family.pos, zint(self.fid)), "uf")
        return self._pos

    def _setpos(self, p):
        if self.family is not None:
            cur().note_write(("fam", self.family.uid), self.family)
            self.family.pos = z3.Store(self.family.pos, zint(self.fid), zint(p))
            return
        cur().note_write(("pos", self.uid), self)
        self.__dict__["_pos"] = p

    def _size(self):
        if self.fsize is None:
            n = from_z(FSIZE(zint(self.fid)), "uf")
            cur().add_fact(zint(n) >= 0)
            self.__dict__["fsize"] = n
        return self.fsize

    def seek(self, off, whence=0):
        cur().count("seek")
        if whence == 0:
            p = off
        elif whence == 1:
            p = self._getpos() + off
        elif whence == 2:
            p = self._size() + off
        else:
            raise Unsupported("whence")
        if p < 0:
            if whence == 0:
                raise ProgExc(OSError(22, "Invalid argument"))
            p = 0
        self._setpos(p)
        return p

    def tell(self):
        p = self._getpos()
        if self.family is not None:
            cur().add_fact(zint(p) >= 0)
        return p

    def read(self, n=-1):
        cur().count("read")
        if n is None:
            n = -1
        p = self._getpos()
        if n < 0:
            avail = T.smax(self._size() - p, 0)
            n = avail
        elif not self.endless:
            avail = T.smax(self._size() - p, 0)
            if n > avail:
                n = avail
        self._setpos(p + n)
        notify("read", self.fid, p, n)
        return SBytes.mk([Seg("f", n, self.fid, p)])

    def __getattr__(self, name):
        if name == "size" and self.__dict__.get("has_size"):
            return self._size()
        raise AttributeError(name)

    def __setattr__(self, k, v):
        raise Unsupported("attribute store on a file")

    def write(self, *a):
        if not cur().histories:
            raise Unsupported("write to an input file")
        cur().prove("media are never written", False)
        return 0

    truncate = writelines = write

    def at(self, pos):
        return byte_at(self.fid, pos)

    def bytes_at(self, pos, n):
        return SBytes.mk([Seg("f", n, self.fid, pos)])

    def uint(self, pos, width, endian="le", signed=False):
        return uint_at(self.fid, pos, width, endian, signed)


class Family:
    def __init__(self, name):
        self.name = name
        self.uid = cur().new_uid(self)
        self.pos = z3.Array(f"fampos_{name}", I, I)


class SBytesIO:
    """io.BytesIO over (possibly symbolic) bytes."""

    def __init__(self, data=b""):
        self.data = data.v if isinstance(data, SByteArray) else data
        self.uid = cur().new_uid(self)
        self._pos = 0

    def _setpos(self, p):
        cur().note_write(("pos", self.uid), self)
        self._pos = p

    def _getpos(self):
        return self._pos

    def sym_len(self):
        return SBytes.of(self.data).sym_len()

    def seek(self, off, whence=0):
        p = off if whence == 0 else (self._pos + off if whence == 1 else self.sym_len() + off)
        if p < 0:
            if whence == 0:
                raise ProgExc(ValueError("negative seek value"))
            p = 0
        self._setpos(p)
        return p

    def tell(self):
        return self._pos

    def getvalue(self):
        return self.data

    def write(self, b):
        n = self.sym_len()
        if seq_(self._pos, n) is not True:
            raise Unsupported("BytesIO write in the middle")
        cur().note_write(("bio", self.uid), self)
        self.data = _cat(self.data, b)
        ln = SBytes.of(b).sym_len()
        self._setpos(self._pos + ln)
        return ln

    def read(self, n=-1):
        if n is None:
            n = -1
        total = self.sym_len()
        avail = T.smax(total - self._pos, 0) if not (isinstance(total, int) and isinstance(self._pos, int)) else max(total - self._pos, 0)
        if n < 0:
            n = avail
        elif n > avail:
            n = avail
        p = self._pos
        self._setpos(p + n)
        if isinstance(n, int) and n == 0:
            return b""
        return SBytes.of(self.data).sub(p, n)


# ---------------------------------------------------------------- containers
class Emits:
    """A symbolic run of list elements: elements emitted by source indices lo..hi of a named emitter."""

    __slots__ = ("spec", "lo", "hi")

    def __init__(self, spec, lo, hi):
        self.spec, self.lo, self.hi = spec, lo, hi

    def __repr__(self):
        return f"Emits({self.spec}, {self.lo}, {self.hi})"


class TList(list):
    """List created by interpreted code.  ``abs`` is set when a loop abstraction replaced its content."""

    __slots__ = ("uid", "abs")

    def __init__(self, it=()):
        super().__init__(it)
        self.uid = cur().new_uid(self)
        self.abs = None

    def __hash__(self):
        raise TypeError("unhashable")

    def _w(self, kind):
        cur().note_write(("list", self.uid), self, kind)

    def append(self, x):
        self._w(x)
        if self.abs is not None:
            return self.abs.append(x)
        list.append(self, x)

    def extend(self, xs):
        if isinstance(xs, TList) and xs.abs is not None:
            self._w("extend")
            if self.abs is None:
                self.abs = AbsList(TList.items_of(self))
                list.clear(self)
            self.abs.parts.extend(xs.abs.parts)
            return
        xs = list(xs)
        for x in xs:
            self.append(x)

    @staticmethod
    def items_of(l):
        if isinstance(l, TList) and l.abs is not None:
            return list(l.abs.parts)
        return list.__getitem__(l, slice(None))

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def insert(self, i, x):
        if self.abs is not None:
            raise Unsupported("insert into an abstract list")
        self._w("insert")
        list.insert(self, i, x)

    def pop(self, *a):
        if self.abs is not None:
            raise Unsupported("pop from an abstract list")
        self._w("pop")
        if not len(self) or (a and isinstance(a[0], int) and not -len(self) <= a[0] < len(self)):
            raise ProgExc(IndexError("pop from empty list"))
        return list.pop(self, *a)

    def sort(self, **k):
        if self.abs is not None:
            raise Unsupported("sort of an abstract list")
        self._w("sort")
        list.sort(self, **k)

    def reverse(self):
        if self.abs is not None:
            raise Unsupported("reverse of an abstract list")
        self._w("reverse")
        list.reverse(self)

    def clear(self):
        self._w("clear")
        self.abs = None
        list.clear(self)

    def __setitem__(self, i, v):
        if self.abs is not None:
            raise Unsupported("store into an abstract list")
        self._w("set")
        list.__setitem__(self, i, v)

    def remove(self, x):
        if self.abs is not None:
            raise Unsupported("remove from an abstract list")
        self._w("remove")
        list.remove(self, x)

    def __iter__(self):
        if self.abs is not None:
            raise Unsupported("iteration over an abstract list")
        return list.__iter__(self)

    def __len__(self):
        if self.abs is not None:
            raise Unsupported("len of an abstract list")
        return list.__len__(self)

    def __getitem__(self, i):
        if self.abs is not None:
            raise Unsupported("index into an abstract list")
        return list.__getitem__(self, i)

    def __eq__(self, o):
        if self.abs is not None:
            raise Unsupported("comparison of an abstract list")
        if not isinstance(o, list) or len(self) != len(o):
            return False
        return sand(*[seq_(a, b) for a, b in zip(self, o)])

    def __ne__(self, o):
        return snot(self.__eq__(o))


class AbsList:
    """Abstract list content: a sequence of parts, each a concrete element, an Emits run or a byte accumulator."""

    def __init__(self, parts=()):
        self.parts = list(parts)

    def append(self, x):
        self.parts.append(x)


class SDict(dict):
    """Dictionary created by interpreted code; keys may be symbolic (association list with forking lookups)."""

    __slots__ = ("uid", "symk")

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.uid = cur().new_uid(self)
        self.symk = None  # list of [key, value] once a symbolic key was stored

    def __hash__(self):
        raise TypeError("unhashable")

    def _w(self):
        cur().note_write(("dict", self.uid), self)

    def _to_sym(self):
        if self.symk is None:
            self.symk = [[k, v] for k, v in dict.items(self)]
            dict.clear(self)

    def _find(self, key):
        """index of the entry whose key equals key (forks)."""
        for i, (k, _) in enumerate(self.symk):
            e = _keyeq(k, key)
            if e is True or (e is not False and cur().branch(e)):
                return i
        return None

    def __setitem__(self, k, v):
        self._w()
        if self.symk is None and hashable(k):
            return dict.__setitem__(self, k, v)
        self._to_sym()
        i = self._find(k)
        if i is None:
            self.symk.append([k, v])
        else:
            self.symk[i][1] = v

    def __contains__(self, k):
        if self.symk is None:
            if hashable(k):
                return dict.__contains__(self, k)
            return any(e is True or (e is not False and cur().branch(e)) for e in (_keyeq(x, k) for x in dict.keys(self)))
        return self._find(k) is not None

    def __getitem__(self, k):
        if self.symk is None:
            if hashable(k):
                if not dict.__contains__(self, k):
                    raise ProgExc(KeyError(k))
                return dict.__getitem__(self, k)
            for x, v in dict.items(self):
                e = _keyeq(x, k)
                if e is True or (e is not False and cur().branch(e)):
                    return v
            raise ProgExc(KeyError("<symbolic>"))
        i = self._find(k)
        if i is None:
            raise ProgExc(KeyError("<symbolic>"))
        return self.symk[i][1]

    def get(self, k, d=None):
        return self[k] if k in self else d

    def setdefault(self, k, d=None):
        if k in self:
            return self[k]
        self[k] = d
        return d

    def pop(self, k, *d):
        if k not in self:
            if d:
                return d[0]
            raise ProgExc(KeyError(k))
        v = self[k]
        del self[k]
        return v

    def __delitem__(self, k):
        self._w()
        if self.symk is None and hashable(k):
            if not dict.__contains__(self, k):
                raise ProgExc(KeyError(k))
            return dict.__delitem__(self, k)
        self._to_sym()
        i = self._find(k)
        if i is None:
            raise ProgExc(KeyError("<symbolic>"))
        del self.symk[i]

    def update(self, *a, **k):
        for o in a:
            for kk, v in o.items() if hasattr(o, "items") else o:
                self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    def __len__(self):
        return dict.__len__(self) if self.symk is None else len(self.symk)

    def __bool__(self):
        return len(self) > 0

    def keys(self):
        return dict.keys(self) if self.symk is None else [k for k, _ in self.symk]

    def values(self):
        return dict.values(self) if self.symk is None else [v for _, v in self.symk]

    def items(self):
        return dict.items(self) if self.symk is None else [(k, v) for k, v in self.symk]

    def __iter__(self):
        return iter(self.keys()) if self.symk is not None else dict.__iter__(self)

    def copy(self):
        d = SDict()
        for k, v in self.items():
            d[k] = v
        return d

    def clear(self):
        self._w()
        self.symk = None
        dict.clear(self)


class RunDict(SDict):
    """What a loop has stored in an empty dictionary: a run of entries under consecutive numbers, then single ones."""

    __slots__ = ()

    @staticmethod
    def cut(d, run):
        """Turn a dictionary into one of these (run: Emits, the keys are its source indices)."""
        dict.clear(d)
        d.__class__ = RunDict
        d.symk = [run]

    def __setitem__(self, k, v):
        self._w()
        run = self.symk[0]
        if not is_int(k) or not cur().entails(sor(k < run.lo, k >= run.hi)) or not all(
                is_int(x) and cur().entails(k != x) for x, _ in self.symk[1:]):
            raise Unsupported("key of a dictionary filled by a loop")
        self.symk.append([k, v])

    def _opaque(self, *a, **k):
        raise Unsupported("use of a dictionary filled by a loop")

    __contains__ = __getitem__ = get = setdefault = pop = popitem = __delitem__ = update = __len__ = __bool__ = _opaque
    keys = values = items = __iter__ = copy = clear = __eq__ = __ne__ = __or__ = __ior__ = __reversed__ = _opaque
    __hash__ = SDict.__hash__


class SDefault(SDict):
    """collections.defaultdict"""

    __slots__ = ("it", "factory")

    def __init__(self, it, factory):
        super().__init__()
        self.it, self.factory = it, factory

    def __getitem__(self, k):
        if k not in self and self.factory is not None:
            v = self.it.call(self.factory, ())
            self[k] = v
            return v
        return SDict.__getitem__(self, k)

    def get(self, k, d=None):
        return SDict.__getitem__(self, k) if k in self else d


def hashable(k):
    if isinstance(k, (SInt, SBool, SBytes, SVal, SymStruct)):
        return False
    if isinstance(k, tuple):
        return all(hashable(x) for x in k)
    return True


def _keyeq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return sand(*[_keyeq(x, y) for x, y in zip(a, b)])
    if (a is None) != (b is None):
        return False
    return seq_(a, b)


class SymSeq:
    """A sequence of symbolic length given by an item function."""

    def __init__(self, n, item, tag="seq", fail=None):
        self.n, self.item, self.tag = n, item, tag
        self.fail = fail  # (condition, exception): asking for more than there is may raise instead of end

    def sym_len(self):
        return self.n

    def __len__(self):
        raise Unsupported("native len of a symbolic sequence")

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic sequence")

    def __bool__(self):
        return bool(self.n > 0) if not isinstance(self.n, int) else self.n > 0

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("slice step")
            a, b = clamp_slice(i.start, i.stop, self.n)
            return SymSeq(b - a, lambda j, a=a: self.item(a + j), self.tag)
        if i < 0:
            i = i + self.n
        if i < 0 or i >= self.n:
            raise ProgExc(IndexError("list index out of range"))
        return self.item(i)


class GrowSeq(SymSeq):
    """A list of symbolic length that elements are appended to."""

    def __init__(self, n, item, tail=()):
        self.base, self.get, self.tail = n, item, list(tail)
        super().__init__(n + len(self.tail), self._at, "list")

    def _at(self, i):
        for j, x in enumerate(self.tail):
            if i == self.base + j:
                return x
        return self.get(i)

    def append(self, x):
        cur().note_write(("native", None), self)
        self.tail.append(x)
        self.n = self.base + len(self.tail)

    def copy(self):
        return GrowSeq(self.base, self.get, self.tail)


def pieces(data, seps):
    """The pieces of a byte string between separators."""
    h = seps.hex()
    ctx = cur()
    v = data.val()
    n = data.sym_len()
    count = SVal.appi("pieces:" + h, [v])
    start = lambda k: SVal.appi("piece:" + h, [v, k])
    ctx.add_fact(zint(count) >= 1)
    ctx.add_fact(zint(start(0)) == 0)
    ctx.add_fact(zint(start(count)) == zint(n + 1))

    def item(k):
        a, b = start(k), start(k + 1)
        ctx.add_fact(z3.Implies(z3.And(zint(k) >= 0, zint(k) < zint(count)), z3.And(zint(a) >= 0, zint(a) < zint(b), zint(b) <= zint(n + 1))))
        return SBytes.mk([data.segs[0].sub(a, b - 1 - a)]) if len(data.segs) == 1 else data.sub(a, b - 1 - a)

    return SymSeq(count, item, "pieces")


class SymIter:
    """An iterator over a symbolic sequence; ``pos`` counts the elements asked for."""

    def __init__(self, seq, pos=0):
        self.seq, self.pos = seq, pos
        self.uid = cur().new_uid(self)
        cur().last_iter = self

    def more(self):
        return self.pos < self.seq.n

    def go(self, pos):
        cur().note_write(("attr", self.uid, "pos"), self)
        self.pos = pos

    def step(self):
        i = self.pos
        cur().note_write(("attr", self.uid, "pos"), self)
        self.pos = i + 1
        return self.seq.item(i)

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic iterator")


class Unordered:
    """Keys, values or items of a dictionary in an unknown order."""

    def __init__(self, n, item):
        self.n, self.item = n, item

    def sym_len(self):
        return self.n

    def __iter__(self):
        raise Unsupported("iteration in an unknown order")


class SymMap:
    """A mapping given by presence and value functions (for symbolic disk maps).

    A full one has exactly the keys 0 to n - 1, in this order if it is ordered.
    """

    def __init__(self, present, value, n=None, full=False, ordered=False):
        self.present, self.value, self.n, self.full, self.ordered = present, value, n, full, ordered

    def _each(self, item):
        if not self.full:
            raise Unsupported("iteration over a symbolic map")
        return SymSeq(self.n, item, "map") if self.ordered else Unordered(self.n, item)

    def items(self):
        return self._each(lambda i: (i, self.value(i)))

    def values(self):
        return self._each(self.value)

    def keys(self):
        return self._each(lambda i: i)

    def __contains__(self, k):
        return bool(self.present(k))

    def get(self, k, d=None):
        return self.value(k) if self.present(k) else d

    def __getitem__(self, k):
        if not self.present(k):
            raise ProgExc(KeyError("<symbolic>"))
        return self.value(k)

    def sym_len(self):
        if self.n is None:
            raise Unsupported("len of a symbolic map")
        return self.n

    def __iter__(self):
        raise Unsupported("iteration over a symbolic map")

    def __len__(self):
        raise Unsupported("native len of a symbolic map")


class Table(SymMap):
    """A mapping of n entries; the keys, if known, are pairwise different."""

    def __init__(self, n, value, key=None, ordered=True):
        super().__init__(None, value, n, True, ordered)
        self.key = key

    def items(self):
        if self.key is None:
            raise Unsupported("keys of a table")
        return self._each(lambda i: (self.key(i), self.value(i)))

    def keys(self):
        if self.key is None:
            raise Unsupported("keys of a table")
        return self._each(self.key)

    def _lookup(self, *a):
        raise Unsupported("lookup in a table")

    __contains__ = get = __getitem__ = _lookup


class MutMap(SymMap):
    """A symbolic mapping that is also written to: the writes in front of the initial mapping."""

    def __init__(self, present, value):
        super().__init__(present, value)
        self.uid = cur().new_uid(self)
        self.old = []  # objects of the initial mapping seen so far: (key, object)
        self.new = []  # writes, the latest last: (key, object or MutMap.GONE)

    GONE = object()

    def _find(self, k):
        for x, v in reversed(self.new):
            e = _keyeq(x, k)
            if e is True or (e is not False and cur().branch(e)):
                return v
        for x, v in self.old:
            e = _keyeq(x, k)
            if e is True or (e is not False and cur().branch(e)):
                return v
        v = self.value(k) if self.present(k) else MutMap.GONE
        self.old.append((k, v))
        return v

    def __contains__(self, k):
        return self._find(k) is not MutMap.GONE

    def get(self, k, d=None):
        v = self._find(k)
        return d if v is MutMap.GONE else v

    def __getitem__(self, k):
        v = self._find(k)
        if v is MutMap.GONE:
            raise ProgExc(KeyError("<symbolic>"))
        return v

    def _w(self):
        cur().note_write(("dict", self.uid), self)

    def __setitem__(self, k, v):
        self._w()
        self.new.append((k, v))

    def __delitem__(self, k):
        if self._find(k) is MutMap.GONE:
            raise ProgExc(KeyError("<symbolic>"))
        self._w()
        self.new.append((k, MutMap.GONE))

    def pop(self, k, *d):
        v = self._find(k)
        if v is MutMap.GONE:
            if d:
                return d[0]
            raise ProgExc(KeyError("<symbolic>"))
        del self[k]
        return v

    def setdefault(self, k, d=None):
        v = self._find(k)
        if v is MutMap.GONE:
            self[k] = d
            return d
        return v


# ---------------------------------------------------------------- cstruct structures
class SymStruct:
    """A cstruct structure whose bytes are symbolic; fields are decoded lazily from the real type object."""

    def __init__(self, cls, data, end=None):
        self.__dict__.update(_cls=cls, _data=data, _over={}, _end=end)

    def __repr__(self):
        return f"<SymStruct {self._cls.__name__}>"

    def __hash__(self):
        return id(self)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in self._over:
            return self._over[name]
        from .models import struct_field

        v = struct_field(self._cls, self._data, name)
        self._over[name] = v
        return v

    def __setattr__(self, k, v):
        self._over[k] = v

    def __len__(self):
        return len(self._cls)

    def sym_len(self):
        return len(self._cls)

    def __eq__(self, o):
        if isinstance(o, SymStruct):
            if self is o:
                return True
            if self._cls is not o._cls:
                return False
            return SBytes.of(self._data) == o._data
        return False

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def dumps(self):
        return self._data


class SEnum(SInt):
    """A symbolic value of a cstruct enum/flag type (or Python enum): an integer carrying its type."""

    __slots__ = ("cls",)

    def __init__(self, p, cls):
        self.p = p
        self.cls = cls

    @property
    def value(self):
        return SInt(self.p)

    @property
    def name(self):
        for m in self.cls:
            if cur().branch(SInt(self.p) == int(m.value)):
                return m.name
        return None
