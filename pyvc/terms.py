"""Symbolic integers and booleans.

Integers are kept as polynomials over interned atoms, which makes syntactically different but equal
expressions identical.  Products of unknowns and divisions by unknowns become applications of the
uninterpreted functions ``mul$`` and ``fdiv$``; their meaning is supplied to the solver as instances
of valid arithmetic lemmas (``LemmaStore``), so that the queries stay in linear arithmetic with
uninterpreted functions.  ``to_native`` rewrites a formula back to genuine nonlinear arithmetic: it is
used whenever the first query does not prove the obligation, and for counterexamples.
"""
from __future__ import annotations

import z3

I = z3.IntSort()
B = z3.BoolSort()
VAL = z3.DeclareSort("Val")
MUL = z3.Function("mul$", I, I, I)
FDIV = z3.Function("fdiv$", I, I, I)
BAND = z3.Function("band$", I, I, I)
POW2 = z3.Function("pow2$", I, I)


class Unsupported(BaseException):
    """The construct is outside the engine's reach (never a verdict about the program)."""


class MergeFail(Exception):
    """Both outcomes of a conditional cannot be kept on one path."""


class PathEnd(BaseException):
    """The current path is finished (infeasible, or cut at a loop back edge)."""


class ProgExc(BaseException):
    """An exception raised by the program under verification."""

    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


CUR = None  # current path context (set by engine)


def set_cur(ctx):
    global CUR
    CUR = ctx


def cur():
    if CUR is None:
        raise Unsupported("no active path")
    return CUR


# ---------------------------------------------------------------- atoms and polynomials
class Atom:
    __slots__ = ("id", "key", "z", "kind", "info")


ATOMS: dict = {}
ATOM_LIST: list = []
ZATOM: dict = {}  # z3 ast id -> Atom
MONO_Z: dict = {}  # mono -> z3 term
ZMONO: dict = {}  # z3 ast id -> mono
_keep: list = []


def atom(key, z, kind, info=None):
    a = ATOMS.get(key)
    if a is None:
        a = Atom()
        a.id = len(ATOM_LIST)
        a.key, a.z, a.kind, a.info = key, z, kind, info
        ATOMS[key] = a
        ATOM_LIST.append(a)
        ZATOM[z.get_id()] = a
    return a


def pkey(p):
    return tuple(sorted(p.items()))


_zcache: dict = {}


def mono_z(m):
    z = MONO_Z.get(m)
    if z is None:
        z = ATOM_LIST[m[-1]].z
        if len(m) > 1:
            z = MUL(ATOM_LIST[m[0]].z, mono_z(m[1:]))
            ZMONO[z.get_id()] = m
        MONO_Z[m] = z
    return z


def pz(p):
    """z3 term of a polynomial."""
    k = pkey(p)
    z = _zcache.get(k)
    if z is None:
        terms = []
        for m, c in k:
            if m == ():
                terms.append(z3.IntVal(c))
            else:
                t = mono_z(m)
                terms.append(t if c == 1 else z3.IntVal(c) * t)
        if not terms:
            z = z3.IntVal(0)
        elif len(terms) == 1:
            z = terms[0]
        else:
            z = z3.Sum(terms)
        _zcache[k] = z
    return z


def mk(p):
    """Normalise: constant polynomials become Python ints."""
    p = {m: c for m, c in p.items() if c}
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return p[()]
    return SInt(p)


def poly(x):
    if isinstance(x, SInt):
        return x.p
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return {(): int(x)} if x else {}
    if isinstance(x, SBool):
        return ite_int(x, 1, 0).p
    raise Unsupported(f"not an integer: {type(x).__name__}")


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
    return r


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2))
            r[m] = r.get(m, 0) + c1 * c2
    if len(r) > 400:
        raise Unsupported("polynomial too large")
    return r


def is_int(x):
    return isinstance(x, SInt) or (isinstance(x, int) and not isinstance(x, bool)) or isinstance(x, (bool, SBool))


def zint(x):
    return pz(poly(x))


def from_z(z, kind="z", info=None):
    """Wrap a z3 integer term as an atom."""
    if z3.is_int_value(z):
        return z.as_long()
    _keep.append(z)
    a = ZATOM.get(z.get_id())
    if a is None:
        a = atom(("z", z.get_id()), z, kind, info)
    return SInt({(a.id,): 1})


def var(name):
    z = z3.Int(name)
    a = atom(("v", name), z, "var")
    return SInt({(a.id,): 1})


def ite_int(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if is_int(a) and is_int(b):
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        if pkey(poly(a)) == pkey(poly(b)):
            return a
    zc = c.z
    return from_z(z3.If(zc, zint(a), zint(b)), "ite")


def _submono(m, d):
    """m / d as monomial, or None."""
    m = list(m)
    for x in d:
        if x in m:
            m.remove(x)
        else:
            return None
    return tuple(m)


def fdiv(a, b):
    """Python floor division (the caller has dealt with b == 0)."""
    if isinstance(a, int) and isinstance(b, int):
        return int(a) // int(b)
    pa, pb = poly(a), poly(b)
    if pkey(pa) == pkey(pb):
        return 1
    if len(pb) == 1:
        (mb, cb), = pb.items()
        if cb < 0:
            return fdiv(mk(pmul(pa, {(): -1})), mk({mb: -cb}))
        if cb == 1 and mb == ():
            return mk(pa)
        # extract exact multiples: (b*t + rest) // b == t + rest // b
        whole, rest = {}, {}
        for m, c in pa.items():
            sm = _submono(m, mb)
            if sm is not None and c % cb == 0:
                whole[sm] = c // cb
            elif sm is not None and sm == () and mb == () and c // cb != 0:
                whole[()] = whole.get((), 0) + c // cb
                rest[()] = c % cb
            else:
                rest[m] = rest.get(m, 0) + c
        if whole:
            return mk(padd(whole, poly(fdiv(mk(rest), mk(pb)))))
        if not pa:
            return 0
        if mb == ():
            # constant divisor
            # gcd reduction: (g*x) // (g*c) == x // c when all coefficients share g
            from math import gcd

            g = cb
            for c in pa.values():
                g = gcd(g, c)
            if g > 1:
                return fdiv(mk({m: c // g for m, c in pa.items()}), cb // g)
            # nested constant division: (x // c1) // c2 == x // (c1*c2)
            if len(pa) == 1:
                (ma, ca), = pa.items()
                if ca == 1 and len(ma) == 1:
                    at = ATOM_LIST[ma[0]]
                    if at.kind == "cdiv":
                        return fdiv(mk(at.info[0]), at.info[1] * cb)
            z = pz(pa) / z3.IntVal(cb)
            k = ("cdiv", pkey(pa), cb)
            at = atom(k, z, "cdiv", (pa, cb))
            return SInt({(at.id,): 1})
    if not pa:
        return 0
    k = ("fdiv", pkey(pa), pkey(pb))
    at = ATOMS.get(k)
    if at is None:
        at = atom(k, FDIV(pz(pa), pz(pb)), "fdiv", (pa, pb))
    return SInt({(at.id,): 1})


def fmod(a, b):
    return mk(padd(poly(a), pmul(poly(b), poly(fdiv(a, b))), -1))


def _const_and(x, c):
    """x & c for a constant c (x any mathematical integer, two's complement semantics)."""
    if c == 0:
        return 0
    if c == -1:
        return x
    if c > 0:
        r = 0
        bit = 0
        while c >> bit:
            if (c >> bit) & 1:
                n = 0
                while (c >> (bit + n)) & 1:
                    n += 1
                part = fmod(fdiv(x, 1 << bit), 1 << n)
                r = r + part * (1 << bit)
                bit += n
            else:
                bit += 1
        return r
    # negative: x & c == x - (x & ~c)
    return x - _const_and(x, ~c)


def band(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    if isinstance(b, int):
        return _const_and(a, int(b))
    if isinstance(a, int):
        return _const_and(b, int(a))
    pa, pb = sorted((poly(a), poly(b)), key=lambda p: str(pkey(p)))
    # x & -m: remembered so that the lemma for powers of two applies
    z = BAND(pz(pa), pz(pb))
    at = atom(("band", pkey(pa), pkey(pb)), z, "band", (pa, pb))
    return SInt({(at.id,): 1})


def bor(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    # a | b == a + b when they have no common bits: established by the solver on this path
    for x, y in ((a, b), (b, a)):
        for bit in _shift_candidates(x):
            if cur().entails(sand(fmod(x, 1 << bit) == 0, sand(y >= 0, y < (1 << bit)))):
                return x + y
    # general: a | b == a + b - (a & b)
    return a + b - band(a, b)


def _shift_candidates(x):
    p = poly(x)
    g = 0
    from math import gcd

    for c in p.values():
        g = gcd(g, c)
    bit = 0
    while g and g % 2 == 0:
        g //= 2
        bit += 1
    return [bit] if bit else []


class SInt:
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return f"SInt({pz(self.p)})"

    def __hash__(self):
        raise Unsupported("hash of a symbolic integer")

    def __index__(self):
        raise Unsupported("symbolic integer used as a native index")

    __int__ = __index__

    def __bool__(self):
        return cur().branch((self != 0))

    def _bin(self, o, f):
        if not is_int(o):
            if isinstance(o, float):
                raise Unsupported("float arithmetic")
            return NotImplemented
        return f(o)

    def __add__(self, o):
        return self._bin(o, lambda o: mk(padd(self.p, poly(o))))

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda o: mk(padd(self.p, poly(o), -1)))

    def __rsub__(self, o):
        return self._bin(o, lambda o: mk(padd(poly(o), self.p, -1)))

    def __mul__(self, o):
        if isinstance(o, (bytes, str, list, tuple)) or not is_int(o):
            return NotImplemented
        if CUR is not None and CUR.name_products and not isinstance(o, int):
            return mk(pmul(poly(CUR.named(self)), poly(CUR.named(o))))
        return mk(pmul(self.p, poly(o)))

    def __rmul__(self, o):
        if isinstance(o, bytes):
            from .values import SBytes

            return SBytes.repeat(o, self)
        return self.__mul__(o)

    def __neg__(self):
        return mk(pmul(self.p, {(): -1}))

    def __pos__(self):
        return self

    def __abs__(self):
        return ite_int(self >= 0, self, -self)

    def __invert__(self):
        return -self - 1

    def __floordiv__(self, o):
        return self._bin(o, lambda o: _chk0(o) or fdiv(self, o))

    def __rfloordiv__(self, o):
        return self._bin(o, lambda o: _chk0(self) or fdiv(o, self))

    def __mod__(self, o):
        return self._bin(o, lambda o: _chk0(o) or fmod(self, o))

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            raise Unsupported("string formatting")
        return self._bin(o, lambda o: _chk0(self) or fmod(o, self))

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __truediv__(self, o):
        _chk0(o)
        from .values import SVal

        return SVal.app("truediv", [self, o], float)

    def __rtruediv__(self, o):
        _chk0(self)
        from .values import SVal

        return SVal.app("truediv", [o, self], float)

    def __lshift__(self, o):
        if isinstance(o, int):
            return self * (1 << o)
        return self * pow2(o)

    def __rlshift__(self, o):
        return o * pow2(self)

    def __rshift__(self, o):
        if isinstance(o, int):
            return fdiv(self, 1 << o)
        return fdiv(self, pow2(o))

    def __rrshift__(self, o):
        return fdiv(o, pow2(self))

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported("symbolic power")

    def __rpow__(self, o):
        if o == 2:
            return pow2(self)
        raise Unsupported("symbolic exponent")

    def __and__(self, o):
        return self._bin(o, lambda o: band(self, o))

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, lambda o: bor(self, o))

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, int):
            return self + o - 2 * band(self, o)
        raise Unsupported("xor")

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, bool) or not is_int(o):
            if isinstance(o, bool):
                o = int(o)
            else:
                return False if not _opaque(o) else NotImplemented
        d = mk(padd(self.p, poly(o), -1))
        if isinstance(d, int):
            return d == 0
        return SBool(zint(self) == zint(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return snot(r)

    def _cmp(self, o, op):
        if not is_int(o):
            return NotImplemented
        d = mk(padd(self.p, poly(o), -1))
        if isinstance(d, int):
            return {"<": d < 0, "<=": d <= 0, ">": d > 0, ">=": d >= 0}[op]
        a, b = zint(self), zint(o)
        return SBool({"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op])

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def bit_length(self):
        raise Unsupported("bit_length")

    def to_bytes(self, length, byteorder="big", *, signed=False):
        from .values import SBytes

        return SBytes.of_int(self, length, byteorder)


def _opaque(o):
    from .values import SVal

    return isinstance(o, SVal)


def _chk0(o):
    """Raise ZeroDivisionError in the program when the divisor may be zero on this path."""
    if isinstance(o, int):
        if o == 0:
            raise ProgExc(ZeroDivisionError("division by zero"))
        return None
    if cur().branch(o == 0):
        raise ProgExc(ZeroDivisionError("division by zero"))
    return None


def pow2(e):
    if isinstance(e, int):
        if e < 0:
            raise Unsupported("negative shift")
        return 1 << e
    p = poly(e)
    at = atom(("pow2", pkey(p)), POW2(pz(p)), "pow2", (p,))
    return SInt({(at.id,): 1})


class SBool:
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return f"SBool({self.z})"

    def __bool__(self):
        return cur().branch(self)

    def __hash__(self):
        raise Unsupported("hash of a symbolic boolean")

    def __eq__(self, o):
        if isinstance(o, bool):
            return self if o else snot(self)
        if isinstance(o, SBool):
            return SBool(self.z == o.z)
        if is_int(o):
            return ite_int(self, 1, 0) == o
        return False

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __and__(self, o):
        if isinstance(o, (bool, SBool)):
            return sand(self, o)
        return ite_int(self, 1, 0) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SBool)):
            return sor(self, o)
        return ite_int(self, 1, 0) | o

    __ror__ = __or__

    def __invert__(self):
        return -ite_int(self, 1, 0) - 1

    def __add__(self, o):
        return ite_int(self, 1, 0) + o

    __radd__ = __add__

    def __sub__(self, o):
        return ite_int(self, 1, 0) - o

    def __rsub__(self, o):
        return o - ite_int(self, 1, 0)

    def __mul__(self, o):
        return ite_int(self, 1, 0) * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return ite_int(self, 1, 0) < o

    def __gt__(self, o):
        return ite_int(self, 1, 0) > o


def zbool(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SBool):
        return x.z
    if isinstance(x, SInt):
        return zint(x) != 0
    if isinstance(x, int):
        return z3.BoolVal(x != 0)
    raise Unsupported(f"not a boolean: {type(x).__name__}")


def mkb(z):
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SBool(z)


def snot(a):
    if isinstance(a, bool):
        return not a
    return mkb(z3.simplify(z3.Not(zbool(a)), elim_and=False) if False else z3.Not(zbool(a)))


def sand(*xs):
    zs = []
    for a in xs:
        if isinstance(a, bool):
            if not a:
                return False
        else:
            zs.append(zbool(a))
    if not zs:
        return True
    return SBool(z3.And(zs) if len(zs) > 1 else zs[0])


def sor(*xs):
    zs = []
    for a in xs:
        if isinstance(a, bool):
            if a:
                return True
        else:
            zs.append(zbool(a))
    if not zs:
        return False
    return SBool(z3.Or(zs) if len(zs) > 1 else zs[0])


def simplies(a, b):
    return sor(snot(a), b)


def seq_(a, b):
    """Symbolic equality that never forks; falls back to Python equality."""
    r = a == b
    if isinstance(r, (bool, SBool)):
        return r
    return bool(r)


def smin(a, b):
    c = a <= b
    return ite_int(c, a, b)


def smax(a, b):
    c = a >= b
    return ite_int(c, a, b)


# ---------------------------------------------------------------- formulas: collection and rewriting
def _inner_div(pa):
    """The only division atom with coefficient 1 of a numerator, if there is exactly one."""
    found = None
    for m, c in pa.items():
        if len(m) == 1 and c == 1 and ATOM_LIST[m[0]].kind in ("fdiv", "cdiv"):
            if found is not None:
                return None
            found = m[0]
    return found


_collect_cache: dict = {}


def collect(f):
    """All interesting sub-terms of a formula: (fdiv atoms, monomials, pow2/band atoms, uf apps)."""
    k = f.get_id()
    r = _collect_cache.get(k)
    if r is not None:
        return r[1]
    fd, mo, other, apps = set(), set(), set(), {}
    seen = set()
    stack = [f]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if not z3.is_app(t):
            continue
        m = ZMONO.get(i)
        if m is not None:
            mo.add(m)
        a = ZATOM.get(i)
        if a is not None:
            if a.kind == "fdiv" or (a.kind == "cdiv" and _inner_div(a.info[0]) is not None):
                fd.add(a.id)
            elif a.kind in ("pow2", "band"):
                other.add(a.id)
        d = t.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0:
            apps[i] = t
        stack.extend(t.children())
    r = (fd, mo, other, apps)
    _collect_cache[k] = (f, r)
    return r


_native_cache: dict = {}


def to_native(f):
    k = f.get_id()
    r = _native_cache.get(k)
    if r is not None:
        return r[1]
    if z3.is_app(f) and f.num_args() > 0:
        ch = [to_native(c) for c in f.children()]
        d = f.decl()
        if d.eq(MUL):
            r = ch[0] * ch[1]
        elif d.eq(FDIV):
            a, b = ch
            r = z3.If(b > 0, a / b, z3.If(b < 0, (-a) / (-b), 0))
        else:
            k2 = d.kind()
            if k2 == z3.Z3_OP_AND:
                r = z3.And(ch)
            elif k2 == z3.Z3_OP_OR:
                r = z3.Or(ch)
            elif k2 == z3.Z3_OP_ADD:
                r = z3.Sum(ch)
            elif k2 == z3.Z3_OP_MUL:
                r = ch[0]
                for c in ch[1:]:
                    r = r * c
            else:
                r = d(*ch)
    else:
        r = f
    _native_cache[k] = (f, r)
    return r


class LemmaStore:
    """Produces, for a growing set of formulas, the arithmetic lemma instances they need."""

    def __init__(self):
        self.fd = set()
        self.mo = set()
        self.other = set()
        self.groups = {}
        self.uapps = set()
        self.pairs_done = set()

    def lemmas(self, formulas):
        out = []
        todo = list(formulas)
        while todo:
            f = todo.pop()
            fd, mo, other, apps = collect(f)
            new = []
            for i in fd - self.fd:
                self.fd.add(i)
                new += self._fdiv(ATOM_LIST[i])
            for m in mo - self.mo:
                self.mo.add(m)
                new += self._mono(m)
            for i in other - self.other:
                self.other.add(i)
                new += self._other(ATOM_LIST[i])
            for i, t in apps.items():
                if i not in self.uapps:
                    self.uapps.add(i)
                    r = range_of(t)
                    if r is not None:
                        new += [t >= r[0], t <= r[1]]
            out += new
            todo += new
        return out

    def _fdiv(self, a):
        pa, pb = a.info
        if a.kind == "cdiv":
            pb = {(): pb}
        q = {(a.id,): 1}
        b = pz(pb)
        r = pz(padd(pa, pmul(pb, q), -1))
        out = [] if a.kind == "cdiv" else [z3.Implies(b > 0, z3.And(r >= 0, r < b)), z3.Implies(b < 0, z3.And(r <= 0, r > b))]
        # nested division: (x // d + r) // b == (x + r*d) // (d*b)
        m = _inner_div(pa)
        if m is not None:
            inner, d = ATOM_LIST[m].info
            pd = d if isinstance(d, dict) else {(): d}
            rest = dict(pa)
            del rest[(m,)]
            t = fdiv(mk(padd(inner, pmul(rest, pd))), mk(pmul(pd, pb)))
            out.append(z3.Implies(z3.And(b > 0, pz(pd) > 0), a.z == zint(t)))
        # and back: x // (c*d) == (x // d) // c
        if a.kind == "fdiv" and len(pb) == 1:
            (mb, cb), = pb.items()
            if cb > 1 and mb != ():
                d = {mb: 1}
                t = fdiv(fdiv(mk(pa), mk(d)), cb)
                out.append(z3.Implies(pz(d) > 0, a.z == zint(t)))
            if cb == 1 and len(mb) == 2 and CUR is not None and CUR.split_quotients:
                for x, y in {mb, mb[::-1]}:
                    d, e = {(x,): 1}, {(y,): 1}
                    t = fdiv(fdiv(mk(pa), mk(d)), mk(e))
                    out.append(z3.Implies(z3.And(pz(d) > 0, pz(e) > 0), a.z == zint(t)))
        return out

    def _mono(self, m):
        out = []
        mz = mono_z(m)
        done = set()
        for x in m:
            if x in done:
                continue
            done.add(x)
            R = list(m)
            R.remove(x)
            R = tuple(R)
            xz, Rz = ATOM_LIST[x].z, mono_z(R)
            out += [
                z3.Implies(z3.And(xz >= 1, Rz >= 0), mz >= Rz),
                z3.Implies(z3.And(xz >= 0, Rz >= 0), mz >= 0),
                z3.Implies(z3.And(xz <= -1, Rz >= 0), mz <= -Rz),
                z3.Implies(z3.And(xz >= 2, Rz >= 0), mz >= 2 * Rz),
                z3.Implies(z3.And(xz <= 0, Rz <= 0), mz >= 0),
                z3.Implies(xz == 0, mz == 0),
                z3.Implies(xz == 1, mz == Rz),
                z3.Implies(z3.And(xz >= 1, Rz <= 0), mz <= Rz),
            ]
            g = self.groups.setdefault(R, [])
            for y in g:
                yz = ATOM_LIST[y].z
                m2 = mono_z(tuple(sorted(R + (y,))))
                out += [
                    z3.Implies(z3.And(Rz > 0, xz < yz), mz + Rz <= m2),
                    z3.Implies(z3.And(Rz > 0, yz < xz), m2 + Rz <= mz),
                    z3.Implies(z3.And(Rz < 0, xz < yz), mz + Rz >= m2),
                    z3.Implies(z3.And(Rz < 0, yz < xz), m2 + Rz >= mz),
                ]
                if CUR is not None and CUR.name_products:
                    out.append(z3.Implies(xz == yz, mz == m2))
            g.append(x)
        return out

    def _other(self, a):
        if a.kind == "pow2":
            p = pz(a.info[0])
            out = [a.z >= 1, z3.Implies(p >= 1, a.z >= 2), z3.Implies(p == 0, a.z == 1)]
            return out
        if a.kind == "band":
            pa, pb = a.info
            za, zb = pz(pa), pz(pb)
            return [z3.Implies(za >= 0, z3.And(a.z >= 0, a.z <= za)), z3.Implies(zb >= 0, z3.And(a.z >= 0, a.z <= zb))]
        return []


RANGES: dict = {}  # decl name -> (lo, hi)


def range_of(t):
    return RANGES.get(t.decl().name())
