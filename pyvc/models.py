"""Models of the operations the interpreted code performs on things outside the repository:
builtins, struct/uuid/io, dissect.cstruct types and a few helpers of dissect.util."""
from __future__ import annotations

import bisect
import builtins
import collections
import datetime
import enum
import functools
import io
import itertools
import operator
import struct
import ast
import re
import types
import uuid

import z3

from . import terms as T
from .interp import BoundClosure, Closure, FSet, GenResult, SymRange, UNDEF
from .terms import PathEnd, ProgExc, SBool, SInt, Unsupported, cur, fdiv, is_int, ite_int, sand, seq_, snot, sor
from .values import (AbsList, SByteArray, SBytes, SBytesIO, SDefault, SDict, SEnum, Seg, SVal, SymFile, SymIter, SymMap, SymSeq, SymStruct, GrowSeq, HDict, Table, TList, Unordered, _cat, list_term, pieces,
                     _keyeq, concrete, hashable, uint_at)

keyeq = _keyeq

ENC = {"<": "le", ">": "be", "=": "le", "!": "be", "@": "le", "little": "le", "big": "be"}
PACKW = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True), "I": (4, False), "l": (4, True),
         "L": (4, False), "q": (8, True), "Q": (8, False)}


def slen(v):
    if isinstance(v, (SBytes, SymSeq, SymMap, SByteArray, SBytesIO, SVal)):
        return v.sym_len()
    if isinstance(v, SymStruct):
        return v.sym_len()
    return None


# ---------------------------------------------------------------- cstruct
def _ctypes():
    from dissect.cstruct.types import base, char, enum as cenum, flag, int as cint, packed, structure, wchar

    return base, char, cenum, flag, cint, packed, structure, wchar


def is_ctype(x):
    from dissect.cstruct.types.base import MetaType

    return isinstance(x, MetaType)


def ctype_decode(t, data, off):
    """Decode a value of cstruct type t from bytes at offset (no bounds check)."""
    base, char, cenum, flag, cint, packed, structure, wchar = _ctypes()
    endian = ENC[t.cs.endian] if getattr(t, "cs", None) is not None else "le"
    if issubclass(t, (cenum.Enum, flag.Flag)):
        v = ctype_decode(t.type, data, off)
        if isinstance(v, int):
            return t(v)
        return SEnum(v.p, t)
    if issubclass(t, structure.Structure):
        if t.size is None:
            raise Unsupported(f"dynamic nested structure {t.__name__}")
        return SymStruct(t, SBytes.of(data).sub(off, t.size))
    if issubclass(t, char.CharArray):
        if t.null_terminated or not isinstance(t.num_entries, int):
            raise Unsupported("dynamic char array")
        return SBytes.of(data).sub(off, t.num_entries)
    if issubclass(t, char.Char):
        return SBytes.of(data).sub(off, 1)
    if issubclass(t, wchar.WcharArray) if hasattr(wchar, "WcharArray") else False:
        raise Unsupported("wchar array")
    if issubclass(t, base.BaseArray):
        if t.null_terminated or not isinstance(t.num_entries, int):
            raise Unsupported("dynamic array")
        es = t.type.size
        n = t.num_entries
        if n <= 16:
            return TList([ctype_decode(t.type, data, off + i * es) for i in range(n)])
        return SymSeq(n, lambda i: ctype_decode(t.type, data, off + i * es), "array")
    if issubclass(t, packed.Packed):
        if t.packchar not in PACKW:
            raise Unsupported(f"packed {t.packchar}")
        w, signed = PACKW[t.packchar]
        return SBytes.of(data).uint(off, w, endian, signed)
    if issubclass(t, cint.Int):
        return SBytes.of(data).uint(off, t.size, endian, t.signed)
    raise Unsupported(f"cstruct type {t.__name__}")


def struct_field(cls, data, name):
    base, char, cenum, flag, cint, packed, structure, wchar = _ctypes()
    # bit fields share a storage unit: recompute their bit positions
    unit = None
    rem = 0
    for f in cls.__fields__:
        if f.bits:
            ft = f.type.type if isinstance(f.type, cenum.EnumMetaType) else f.type
            if rem == 0 or unit is None or unit[0] is not ft:
                unit = (ft, f.offset)
                rem = ft.size * 8
            if f._name == name:
                raw = ctype_decode(ft, data, unit[1])
                total = ft.size * 8
                if cls.cs.endian == "<":
                    shift = total - rem
                else:
                    shift = rem - f.bits
                v = (raw >> shift) & ((1 << f.bits) - 1)
                if isinstance(f.type, cenum.EnumMetaType):
                    return f.type(v) if isinstance(v, int) else SEnum(v.p, f.type)
                return v
            rem -= f.bits
            continue
        unit, rem = None, 0
        if f._name == name and f.name is not None:
            if f.offset is None and not isinstance(cls, structure.UnionMetaType):
                raise Unsupported(f"field {name} after a dynamic field")
            off = f.offset or 0
            t = f.type
            if issubclass(t, base.BaseArray) and not t.null_terminated and not isinstance(t.num_entries, int) and t.num_entries is not None:
                n = dyn_count(cls, data, t)
                es = t.type.size
                if issubclass(t, char.CharArray):
                    return SBytes.of(data).sub(off, n)
                return SymSeq(n, lambda i: ctype_decode(t.type, data, off + i * es), "array")
            return ctype_decode(t, data, off)
        if f.name is None and isinstance(f.type, structure.StructureMetaType) and name in f.type.fields:
            return struct_field(f.type, SBytes.of(data).sub(f.offset or 0, f.type.size), name)
    raise AttributeError(name)


def dyn_count(cls, data, t):
    e = t.num_entries
    expr = e.expression.strip()
    if expr in cls.fields:
        return struct_field(cls, data, expr)
    raise Unsupported(f"dynamic array length {expr}")


def ctype_call(it, t, args, kwargs):
    """TypeClass(stream | bytes | value)"""
    base, char, cenum, flag, cint, packed, structure, wchar = _ctypes()
    if len(args) == 1 and not kwargs:
        a = args[0]
        if isinstance(a, (SBytes, SByteArray)):
            return ctype_read(it, t, SBytesIO(a))
        if isinstance(a, (SymFile, SBytesIO)):
            return ctype_read(it, t, a)
        if is_int(a) and not concrete(a):
            if issubclass(t, (cenum.Enum, flag.Flag)):
                return SEnum(T.poly(a), t)
            return a
        if hasattr(a, "read") and _has_sym(a):
            return ctype_read(it, t, a)
    if concrete(args) and concrete(kwargs):
        return native(it, t, args, kwargs)
    raise Unsupported(f"construction of {t.__name__}")


def _has_sym(o):
    d = getattr(o, "__dict__", None)
    if not d:
        return False
    return any(not concrete(v) or (hasattr(v, "read") and _has_sym(v)) for v in d.values())


def stream_read(it, fh, n):
    return it.call(it.getattr(fh, "read"), (n,))


def ctype_read(it, t, fh):
    base, char, cenum, flag, cint, packed, structure, wchar = _ctypes()
    if issubclass(t, base.BaseArray):
        if t.null_terminated or t.num_entries is None:
            return read_nullterm(it, t, fh)
        n = t.num_entries
        es = t.type.size
        if n is None or es is None:
            raise Unsupported("dynamic array read")
        if not isinstance(n, (int, SInt)):
            raise Unsupported("array with expression length")
        data = read_exact(it, fh, es * (n if isinstance(n, SInt) else max(n, 0)))
        if issubclass(t, char.CharArray):
            return data
        if isinstance(n, int) and n <= 16:
            return TList([ctype_decode(t.type, data, i * es) for i in range(n)])
        return SymSeq(n, lambda i: ctype_decode(t.type, data, i * es), "array")
    if t.size is None:
        # static prefix followed by one trailing dynamic array
        if issubclass(t, structure.Structure):
            last = t.__fields__[-1]
            pre = last.offset
            if pre is None:
                raise Unsupported(f"dynamic structure {t.__name__}")
            data = read_exact(it, fh, pre)
            if last.type.null_terminated if hasattr(last.type, "null_terminated") else False:
                raise Unsupported("null-terminated trailing array")
            n = dyn_count(t, data, last.type)
            if n < 0:
                n = 0
            tail = read_exact(it, fh, n * last.type.type.size)
            return SymStruct(t, _cat(data, tail))
        raise Unsupported(f"dynamic type {t.__name__}")
    data = read_exact(it, fh, t.size)
    if isinstance(data, bytes) and not issubclass(t, structure.Structure):
        return native(it, t, (data,), {})
    if issubclass(t, structure.Structure):
        if isinstance(data, bytes):
            return native(it, t, (data,), {})
        return SymStruct(t, data)
    return ctype_decode(t, data, 0)


NULLTERM = 3


def read_nullterm(it, t, fh):
    """Structures up to the first all-zero one: the first few are told apart, longer lists are summarised."""
    base, char, cenum, flag, cint, packed, structure, wchar = _ctypes()
    st = t.type
    if not (issubclass(st, structure.Structure) and st.size and all(issubclass(f.type, (cint.Int, packed.Packed)) for f in st.__fields__)):
        raise Unsupported("null-terminated array read")
    out = []
    for _ in range(NULLTERM):
        x = ctype_read(it, st, fh)
        vals = [struct_field(st, x._data, f._name) for f in st.__fields__] if isinstance(x, SymStruct) else [getattr(x, f._name) for f in st.__fields__]
        if it.truth(sand(*[seq_(v, 0) for v in vals])):
            return TList(out)
        out.append(x)
    if not isinstance(fh, SymFile):
        raise Unsupported("long null-terminated array")
    if it.ctx.branch(it.ctx.fresh("listends", 0, 1) == 0):
        raise ProgExc(EOFError("Read fewer bytes than expected"))
    at = fh.tell() - NULLTERM * st.size
    n = it.ctx.fresh("listlen", NULLTERM)
    item = lambda i: SymStruct(st, fh.bytes_at(at + i * st.size, st.size))
    last = item(n)
    for f in st.__fields__:
        it.ctx.assume(struct_field(st, last._data, f._name) == 0)
    fh.seek(at + (n + 1) * st.size)
    return SymSeq(n, item, "nullterm")


def read_exact(it, fh, n):
    data = stream_read(it, fh, n)
    ln = SBytes.of(data).sym_len() if isinstance(data, (SBytes,)) else len(data)
    e = seq_(ln, n)
    if e is True:
        return data
    if e is False or not it.ctx.branch(e):
        raise ProgExc(EOFError("Read fewer bytes than expected"))
    if isinstance(n, int) and isinstance(data, SBytes) and len(data.segs) == 1:
        s = data.segs[0]
        return SBytes.mk([Seg(s.kind, n, s.a, s.b)])
    return data


def type_item(it, t, i):
    """ctype[n] with symbolic n"""
    if is_ctype(t):
        class _Arr:
            pass

        return SymArrayType(t, i)
    raise Unsupported("subscript of a type with a symbolic index")


class SymArrayType:
    def __init__(self, t, n):
        self.t, self.n = t, n


def symarray_call(it, a, args):
    t, n = a.t, a.n
    src = args[0]
    if isinstance(src, (SBytes, bytes)):
        src = SBytesIO(src)
    if n < 0:
        n = 0
    data = read_exact(it, src, n * t.size)
    from dissect.cstruct.types import char

    if issubclass(t, char.Char):
        return data
    return SymSeq(n, lambda i: ctype_decode(t, data, i * t.size), "array")


# ---------------------------------------------------------------- native calls
def native(it, fn, args, kwargs):
    """Call a real function natively; its exceptions belong to the program only for concrete arguments."""
    try:
        return fn(*args, **kwargs)
    except Exception as e:
        if isinstance(e, StopIteration) or (concrete(args) and concrete(kwargs)):
            raise ProgExc(e)
        raise Unsupported(f"native call {getattr(fn, '__qualname__', fn)} failed on symbolic arguments: {e!r}")


def call_method(it, m, args, kwargs):
    """Bound method of something that is not repository code."""
    self = m.__self__
    if isinstance(self, (SymFile, SBytesIO, SBytes, SVal, SDict, TList, SymMap, SymSeq, SByteArray, GenResult, FSet, SymStruct)):
        return m(*args, **kwargs)
    if is_ctype(self):
        n = m.__name__
        if n in ("read", "reads", "_read", "__call__"):
            return ctype_call(it, self, args, kwargs)
        if n == "__getitem__" and not concrete(args):
            return type_item(it, self, args[0])
        return native(it, m, args, kwargs)
    if isinstance(self, (types.ModuleType,)):
        return native(it, m, args, kwargs)
    mod = getattr(m.__func__, "__module__", "") or ""
    if mod.startswith("dissect.util"):
        return native(it, m, args, kwargs)
    return native(it, m, args, kwargs)


def separators(pat):
    """The bytes a pattern for single characters matches."""
    p = list(re._parser.parse(pat.pattern, pat.flags))
    if len(p) == 1 and p[0][0] is re._constants.LITERAL:
        return bytes([p[0][1]])
    if len(p) == 1 and p[0][0] is re._constants.IN and all(k is re._constants.LITERAL for k, _ in p[0][1]):
        return bytes(sorted({x for _, x in p[0][1]}))
    raise Unsupported("regular expression")


def dict_ite(d, key, default):
    """Lookup in a constant table of strings as one conditional term (no forking)."""
    if not isinstance(default, str) or not all(isinstance(v, str) for v in d.values()):
        return None
    z = SVal.lit(default).z
    for k, v in reversed(d.items()):
        e = keyeq(k, key)
        if e is True:
            z = SVal.lit(v).z
        elif e is not False:
            z = z3.If(T.zbool(e), SVal.lit(v).z, z)
    return SVal(z, str)


def call_native(it, fn, args, kwargs):
    try:
        h = HANDLERS.get(fn)
    except TypeError:
        h = None
    if h is not None:
        r = h(it, *args, **kwargs)
        if r is not _DEFAULT:
            return r
    if isinstance(fn, SymArrayType):
        return symarray_call(it, fn, args)
    if is_ctype(fn):
        return ctype_call(it, fn, args, kwargs)
    if isinstance(fn, type):
        return construct(it, fn, args, kwargs)
    s = getattr(fn, "__self__", None)
    if s is not None and not isinstance(s, types.ModuleType):
        # bound builtin method
        name = fn.__name__
        if isinstance(s, bytes) and name == "join":
            return join_bytes(it, s, args[0])
        if isinstance(s, str) and name == "join":
            if it.ctx.folds and isinstance(args[0], TList):
                return SVal.app("join", [s, SVal(list_term(TList.items_of(args[0])))], str)
            items = it.iter_list(args[0])
            if concrete(items):
                return native(it, s.join, (items,), {})
            return SVal.app("sjoin", [s, *items], str)
        if isinstance(s, str) and name == "format" and not (concrete(args) and concrete(kwargs)):
            return SVal.app("format", [s, *args, *kwargs.values()], str)
        if is_ctype(s) and name in ("__getitem__",) and not concrete(args):
            return type_item(it, s, args[0])
        if is_ctype(s) and name in ("from_bytes",):
            return h_from_bytes(it, *args, **kwargs)
        if s is int and name == "from_bytes":
            return h_from_bytes(it, *args, **kwargs)
        if isinstance(s, dict) and not isinstance(s, SDict) and name == "get" and len(args) == 2 and not hashable(args[0]) and len(s) > 8:
            r = dict_ite(s, *args)
            if r is not None:
                return r
        if isinstance(s, dict) and name in ("get", "__getitem__", "__contains__") and args and not hashable(args[0]):
            for k, v in s.items():
                e = keyeq(k, args[0])
                if e is True or (e is not False and it.ctx.branch(e)):
                    return v if name != "__contains__" else True
            if name == "get":
                return args[1] if len(args) > 1 else None
            if name == "__contains__":
                return False
            raise ProgExc(KeyError("<symbolic>"))
        if isinstance(s, struct.Struct):
            if name == "unpack":
                return h_unpack(it, s.format, args[0])
            if name == "unpack_from":
                return h_unpack_from(it, s.format, *args, **kwargs)
        if isinstance(s, (list, dict, set, tuple)):
            if isinstance(s, (set,)) and not all(hashable(a) for a in args):
                raise Unsupported("symbolic value in a native set")
            if name in ("append", "extend", "insert", "pop", "update", "setdefault", "clear", "remove", "add", "sort", "reverse") and not isinstance(s, (TList, SDict)):
                it.ctx.note_write(("native", None), s)
            if name == "index" and not (concrete(s) and concrete(args)):
                for i, x in enumerate(s):
                    q = keyeq(x, args[0])
                    if q is True or (q is not False and it.ctx.branch(q)):
                        return i
                raise ProgExc(ValueError("not in list"))
            if name == "extend" and args and isinstance(args[0], (GenResult, SymSeq)):
                args = (it.iter_list(args[0]),)
            return _native_container(it, fn, args, kwargs)
        if isinstance(s, re.Pattern) and name == "sub" and len(args) == 2 and isinstance(args[1], SVal) and isinstance(args[0], (str, bytes)):
            return substituted(it, s.pattern, args[0], args[1], s.flags & ~re.UNICODE)
        if isinstance(s, re.Pattern) and len(args) == 1 and isinstance(args[0], SBytes):
            if name == "split" and not kwargs:
                return pieces(args[0], separators(s))
            raise Unsupported(f"{name} of a regular expression")
        if isinstance(s, io.BytesIO):
            return native(it, fn, args, kwargs)
        if isinstance(s, (operator.attrgetter, operator.itemgetter)):
            return fn(*args)
        if isinstance(s, (str, bytes)) and not (concrete(args) and concrete(kwargs)):
            raise Unsupported(f"{type(s).__name__}.{name} on symbolic arguments")
        return native(it, fn, args, kwargs)
    if isinstance(fn, operator.attrgetter):
        return native(it, fn, args, kwargs)
    if isinstance(fn, operator.itemgetter):
        k = fn.__reduce__()[1]
        if len(k) == 1:
            return it.getitem(args[0], k[0])
        return tuple(it.getitem(args[0], x) for x in k)
    if isinstance(fn, (types.BuiltinFunctionType, types.FunctionType, types.MethodDescriptorType, types.WrapperDescriptorType, types.MethodWrapperType)):
        if isinstance(fn, types.FunctionType) and not (concrete(args) and concrete(kwargs)):
            mod = fn.__module__ or ""
            if mod.startswith("dissect.util.ts"):
                return SVal.app(f"ts.{fn.__name__}", list(args), datetime.datetime)
            raise Unsupported(f"call of {mod}.{fn.__qualname__} on symbolic arguments")
        if not (concrete(args) and concrete(kwargs)) and not isinstance(fn, types.FunctionType):
            nm = getattr(fn, "__name__", "")
            if nm in ("__init__", "__init_subclass__", "__enter__", "__exit__", "acquire", "release", "isinstance", "issubclass", "callable", "id", "__new__", "__setattr__"):
                return native(it, fn, args, kwargs)
            raise Unsupported(f"builtin {getattr(fn, '__qualname__', nm)} on symbolic arguments")
        return native(it, fn, args, kwargs)
    if callable(fn):
        m = getattr(type(fn), "__call__", None)
        if isinstance(m, types.FunctionType) and (m.__module__ or "").startswith(it.prefixes):
            return it.call(types.MethodType(m, fn), args, kwargs)
        if concrete(args) and concrete(kwargs):
            return native(it, fn, args, kwargs)
        raise Unsupported(f"call of {type(fn).__name__} on symbolic arguments")
    raise ProgExc(TypeError(f"'{type(fn).__name__}' object is not callable"))


def _native_container(it, fn, args, kwargs):
    try:
        return fn(*args, **kwargs)
    except (KeyError, IndexError, ValueError, StopIteration) as e:
        raise ProgExc(e)
    except TypeError as e:
        raise Unsupported(f"container operation failed: {e}")


def construct(it, cls, args, kwargs):
    mod = getattr(cls, "__module__", "") or ""
    if issubclass(cls, BaseException):
        try:
            return cls(*args, **kwargs)
        except TypeError as e:
            raise ProgExc(e)
    if issubclass(cls, enum.Enum):
        v = args[0]
        if isinstance(v, SInt) or isinstance(v, SVal):
            for m in cls:
                q = seq_(v, m.value)
                if q is True or (q is not False and it.ctx.branch(q)):
                    return m
            miss = getattr(cls._missing_, "__func__", None)
            if miss is not enum.Enum._missing_.__func__:
                r = it.call(cls._missing_, (v,))
                if isinstance(r, cls):
                    return r
            raise ProgExc(ValueError(f"<symbolic> is not a valid {cls.__name__}"))
        return native(it, cls, args, kwargs)
    init = cls.__init__
    if isinstance(init, types.FunctionType) and ((init.__module__ or "").startswith(it.prefixes)) and init.__code__.co_filename != "<string>" and mod.startswith(it.prefixes):
        new = cls.__new__
        if isinstance(new, types.FunctionType) and (new.__module__ or "").startswith(it.prefixes):
            obj = it.call(new, (cls, *args), kwargs)
        else:
            obj = new(cls) if new is object.__new__ or not isinstance(new, types.FunctionType) else new(cls)
        it.ctx.register(obj)
        it.call_fn(init, (obj, *args), kwargs)
        return obj
    if mod.startswith(it.prefixes):
        # dataclass / NamedTuple / class without own __init__: generated constructors only store their arguments
        try:
            obj = cls(*args, **kwargs)
        except TypeError as e:
            raise ProgExc(e)
        post = getattr(cls, "__post_init__", None)
        if post is not None:
            raise Unsupported("dataclass with __post_init__")
        it.ctx.register(obj)
        return obj
    if issubclass(cls, tuple) and cls is not tuple:
        return cls(*args, **kwargs)
    if concrete(args) and concrete(kwargs):
        return native(it, cls, args, kwargs)
    if mod.startswith("dissect.util"):
        try:
            obj = cls(*args, **kwargs)
        except Exception as e:
            raise Unsupported(f"constructor {cls.__name__}: {e!r}")
        it.ctx.register(obj)
        return obj
    raise Unsupported(f"construction of {cls.__name__} on symbolic arguments")


def join_bytes(it, sep, parts):
    if isinstance(parts, GenResult):
        parts = parts.items
    items = TList.items_of(parts) if isinstance(parts, TList) else it.iter_list(parts)
    if sep:
        if concrete(items):
            return native(it, sep.join, (items,), {})
        raise Unsupported("join with a separator")
    r = b""
    for p in items:
        if p is None or isinstance(p, (int, str, SInt)):
            raise ProgExc(TypeError("sequence item: expected a bytes-like object"))
        if not isinstance(p, (bytes, SBytes, bytearray, SByteArray, memoryview)):
            raise Unsupported(f"join of {type(p).__name__}")
        r = _cat(r, p if not isinstance(p, memoryview) else bytes(p))
    return r


# ---------------------------------------------------------------- handlers for builtins and library functions
_DEFAULT = object()
HANDLERS = {}


def handles(*fns):
    def d(f):
        for x in fns:
            HANDLERS[x] = f
        return f

    return d


@handles(len)
def h_len(it, v):
    if isinstance(v, TList) and v.abs is not None:
        if len(v.abs.parts) == 1 and hasattr(v.abs.parts[0], "lo"):
            pass
        raise Unsupported("len of an abstract list")
    n = slen(v)
    if n is not None:
        return n
    m = getattr(type(v), "__len__", None)
    if isinstance(m, types.FunctionType) and (m.__module__ or "").startswith(it.prefixes):
        return it.call(types.MethodType(m, v), ())
    try:
        return len(v)
    except TypeError as e:
        raise ProgExc(e)


@handles(min, max)
def _mm(it, *a, **k):
    raise Unsupported("min/max")


def _minmax(name, native_fn, f):
    def h(it, *args, key=None, default=_DEFAULT):
        xs = it.iter_list(args[0]) if len(args) == 1 else list(args)
        if not xs:
            if default is not _DEFAULT:
                return default
            raise ProgExc(ValueError(f"{name}() arg is an empty sequence"))
        if key is None and all(is_int(x) for x in xs):
            r = xs[0]
            for x in xs[1:]:
                r = (native_fn(r, x) if isinstance(r, int) and isinstance(x, int) else f(r, x))
            return r
        if any(x is None for x in xs) and key is None:
            raise ProgExc(TypeError("'<' not supported between NoneType"))
        import ast as _ast

        kf = (lambda x: it.call(key, (x,))) if key is not None else (lambda x: x)
        best, bk = xs[0], kf(xs[0])
        for x in xs[1:]:
            xk = kf(x)
            if it.truth(it.compare(_ast.Lt if name == "min" else _ast.Gt, xk, bk)):
                best, bk = x, xk
        return best

    return h


def _bisect(right, name):
    def h(it, a, x, lo=0, hi=None, *, key=None):
        if not isinstance(a, (list, tuple)) or (isinstance(a, TList) and a.abs is not None) or not isinstance(lo, int):
            raise Unsupported(f"{name} on a symbolic sequence")
        hi = len(a) if hi is None else hi
        while lo < hi:
            mid = (lo + hi) // 2
            y = a[mid] if key is None else it.call(key, (a[mid],))
            less = it.truth(x < y) if right else not it.truth(y < x)
            if less:
                hi = mid
            else:
                lo = mid + 1
        return lo

    return h


HANDLERS[bisect.bisect_right] = HANDLERS[bisect.bisect] = _bisect(True, "bisect_right")
HANDLERS[bisect.bisect_left] = _bisect(False, "bisect_left")
HANDLERS[min] = _minmax("min", min, T.smin)
HANDLERS[max] = _minmax("max", max, T.smax)


@handles(range)
def h_range(it, *a):
    if len(a) == 1:
        s, e, st = 0, a[0], 1
    elif len(a) == 2:
        s, e, st = a[0], a[1], 1
    else:
        s, e, st = a
    if any(x is None or isinstance(x, float) for x in a):
        raise ProgExc(TypeError("'NoneType' object cannot be interpreted as an integer"))
    if all(isinstance(x, int) for x in (s, e, st)):
        return range(int(s), int(e), int(st))
    if isinstance(st, int) and st == 0:
        raise ProgExc(ValueError("range() arg 3 must not be zero"))
    return SymRange(s, e, st)


def h_from_bytes(it, data, byteorder="big", *, signed=False):
    if isinstance(data, SVal) and data.py is bytes and not signed and isinstance(byteorder, str):
        return SVal.appi("from_bytes", [data, byteorder])
    if isinstance(data, bytes):
        return int.from_bytes(data, byteorder, signed=signed)
    data = SBytes.of(data)
    n = data.sym_len()
    if not isinstance(n, int):
        for w in (8, 4, 2, 1, 3, 5, 6, 7):
            if it.ctx.entails(n == w):
                n = w
                break
        else:
            raise Unsupported("int.from_bytes of symbolic length")
    if n == 0:
        return 0
    return data.uint(0, n, ENC[byteorder], signed)


HANDLERS[int.from_bytes] = h_from_bytes


def h_unpack_from(it, fmt, data, offset=0):
    size = struct.calcsize(fmt)
    if isinstance(data, bytes) and concrete(offset):
        return native(it, struct.unpack_from, (fmt, data, offset), {})
    sub = SBytes.of(data)[slice(offset, offset + size)]
    return h_unpack(it, fmt, sub)


def h_unpack(it, fmt, data):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if isinstance(data, bytes):
        return native(it, struct.unpack, (fmt, data), {})
    if isinstance(data, SByteArray):
        data = data.v
    size = struct.calcsize(fmt)
    data = SBytes.of(data)
    e = seq_(data.sym_len(), size)
    if e is False or (e is not True and not it.ctx.branch(e)):
        raise ProgExc(struct.error("unpack requires a buffer of a different size"))
    endian = "le"
    f = fmt
    if f and f[0] in "<>=!@":
        endian = ENC[f[0]]
        native_align = f[0] == "@"
        f = f[1:]
    else:
        native_align = True
    out = []
    pos = 0
    i = 0
    while i < len(f):
        if f[i].isspace():
            i += 1
            continue
        j = i
        while f[j].isdigit():
            j += 1
        cnt = int(f[i:j]) if j > i else None
        c = f[j]
        i = j + 1
        if c == "s":
            n = cnt if cnt is not None else 1
            out.append(data.sub(pos, n))
            pos += n
        elif c == "x":
            pos += cnt if cnt is not None else 1
        elif c == "?":
            out.append(data.uint(pos, 1, endian) != 0)
            pos += 1
        elif c == "c":
            for _ in range(cnt if cnt is not None else 1):
                out.append(data.sub(pos, 1))
                pos += 1
        elif c in PACKW:
            w, sg = PACKW[c]
            for _ in range(cnt if cnt is not None else 1):
                if native_align and pos % w:
                    pos += w - pos % w
                out.append(data.uint(pos, w, endian, sg))
                pos += w
        else:
            raise Unsupported(f"struct format {c}")
    return tuple(out)


HANDLERS[struct.unpack] = h_unpack
HANDLERS[struct.unpack_from] = h_unpack_from
HANDLERS[struct.iter_unpack] = lambda it, fmt, data: (_ for _ in ()).throw(Unsupported("iter_unpack"))


@handles(bytes)
def h_bytes(it, v=b"", *a, **k):
    if isinstance(v, SBytes):
        return v
    if isinstance(v, SByteArray):
        return v.v
    if isinstance(v, SInt):
        return SBytes.repeat(b"\x00", v)
    if isinstance(v, SymStruct):
        return v._data
    if isinstance(v, SVal):
        return SVal.app("bytes", [v], bytes)
    if isinstance(v, (list, tuple)) and not concrete(v):
        return SBytes.mk([Seg("r", 1, x) for x in v])
    if a and not concrete(a):
        raise Unsupported("bytes(str, encoding)")
    return native(it, bytes, (v, *a), k)


@handles(bytearray)
def h_bytearray(it, v=b"", *a):
    if isinstance(v, (SBytes, bytes)):
        return SByteArray(v)
    if isinstance(v, SByteArray):
        return SByteArray(v.v)
    if is_int(v):
        return SByteArray(SBytes.repeat(b"\x00", v) if isinstance(v, SInt) else bytes(v))
    return SByteArray(native(it, bytes, (v, *a), {}))


@handles(memoryview)
def h_memoryview(it, v):
    return h_bytes(it, v)


@handles(io.BytesIO)
def h_bytesio(it, v=b""):
    if isinstance(v, (SBytes, bytes, SByteArray)):
        return SBytesIO(v)
    return _DEFAULT


PYT = {SInt: int, SBool: bool, SBytes: bytes, SByteArray: bytearray, SymFile: io.RawIOBase, SBytesIO: io.BytesIO, SymMap: dict,
       SymSeq: list, SymRange: range}


def pytype(v):
    if isinstance(v, SVal):
        return v.py
    if isinstance(v, SEnum):
        return v.cls
    if isinstance(v, SymStruct):
        return v._cls
    if isinstance(v, GenResult):
        return types.GeneratorType
    for k, t in PYT.items():
        if type(v) is k:
            return t
    return type(v)


@handles(isinstance)
def h_isinstance(it, v, t):
    if v is UNDEF:
        raise Unsupported("isinstance of undefined value")
    pt = pytype(v)
    if pt is object and isinstance(v, SVal):
        raise Unsupported("isinstance of an opaque value")
    if isinstance(t, types.UnionType):
        t = t.__args__
    if isinstance(v, tuple(PYT) + (SVal, SEnum, SymStruct, GenResult)):
        return issubclass(pt, t)
    return isinstance(v, t)


@handles(type)
def h_type(it, v, *a):
    if a:
        raise Unsupported("type()")
    return pytype(v)


@handles(enumerate)
def h_enumerate(it, v, start=0):
    s = it.as_symseq(v)
    if s is not None:
        return SymSeq(s.n, lambda i: (i + start, s.item(i)), "enumerate")
    return TList([(i + start, x) for i, x in enumerate(it.iter_list(v))])


@handles(zip)
def h_zip(it, *vs, strict=False):
    seqs = [it.as_symseq(v) for v in vs]
    if any(s is not None for s in seqs):
        n = None
        full = []
        for v, s in zip(vs, seqs):
            if s is None:
                l = it.iter_list(v)
                s = SymSeq(len(l), lambda i, l=l: it.getitem(l, i))
            full.append(s)
            n = s.n if n is None else T.smin(n, s.n)
        return SymSeq(n, lambda i: tuple(s.item(i) for s in full), "zip")
    ls = [it.iter_list(v) for v in vs]
    return TList(list(zip(*ls)))


@handles(reversed)
def h_reversed(it, v):
    s = it.as_symseq(v)
    if s is not None:
        return SymSeq(s.n, lambda i: s.item(s.n - 1 - i), "reversed")
    return TList(list(reversed(it.iter_list(v))))


@handles(print)
def h_print(it, *a, **k):
    return None


@handles(collections.defaultdict)
def h_defaultdict(it, factory=None, *a, **k):
    if a or k:
        raise Unsupported("defaultdict with content")
    return SDefault(it, factory)


@handles(sorted)
def h_sorted(it, v, key=None, reverse=False):
    if isinstance(v, SymMap) and v.full:
        v = v.keys()
    if isinstance(v, Unordered) or isinstance(v, SymSeq) and v.tag in ("map", "sorted"):
        if reverse:
            raise Unsupported("sorting in reverse")
        first = lambda x: x[0] if isinstance(x, tuple) else x
        kf = (lambda i: it.call(key, (v.item(i),))) if key is not None else (lambda i: first(v.item(i)))
        i, j = it.ctx.fresh("sort!"), it.ctx.fresh("sort!")
        a, b = kf(i), kf(j)
        if not (is_int(a) and is_int(b) and it.ctx.entails(T.simplies(sand(0 <= i, i < j, j < v.n), a < b))):
            raise Unsupported("sorting a symbolic sequence")
        return SymSeq(v.n, v.item, "sorted")
    if isinstance(v, GrowSeq):
        # the order of every element and its successor makes (stable) sorting change nothing
        kf = (lambda x: it.call(key, (x,))) if key is not None else (lambda x: x)
        i = it.ctx.fresh("sort!")
        a, b = kf(v.get(i)), kf(v.get(i + 1))
        ok = [(sand(0 <= i, i + 1 < v.base), a, b)]
        ks = [kf(x) for x in v.tail]
        if ks:
            ok.append((v.base > 0, kf(v.get(v.base - 1)), ks[0]))
        ok += [(True, x, y) for x, y in zip(ks, ks[1:])]
        if reverse or not all(is_int(x) and is_int(y) and it.ctx.entails(T.simplies(c, x <= y)) for c, x, y in ok):
            raise Unsupported("sorting a symbolic list")
        return v.copy()
    xs = it.iter_list(v)
    import ast as _ast

    kf = (lambda x: it.call(key, (x,))) if key is not None else (lambda x: x)
    ks = [(kf(x), x) for x in xs]
    # stable insertion sort using interpreted comparisons
    out = []
    for k, x in ks:
        i = len(out)
        while i > 0:
            if reverse:
                c = it.compare(_ast.Lt, out[i - 1][0], k)
            else:
                c = it.compare(_ast.Lt, k, out[i - 1][0])
            if it.truth(c):
                i -= 1
            else:
                break
        out.insert(i, (k, x))
    return TList([x for _, x in out])


@handles(sum)
def h_sum(it, v, start=0):
    import ast as _ast

    r = start
    for x in it.iter_list(v):
        r = it.binop(_ast.Add, r, x)
    return r


@handles(any)
def h_any(it, v):
    rs = [it.truth_val(x) for x in it.iter_list(v)]
    return sor(*rs)


@handles(all)
def h_all(it, v):
    return sand(*[it.truth_val(x) for x in it.iter_list(v)])


@handles(list)
def h_list(it, v=()):
    if isinstance(v, TList) and v.abs is not None:
        r = TList()
        r.abs = AbsList(v.abs.parts)
        return r
    if isinstance(v, GenResult) and v.items.abs is not None:
        return v.items
    if isinstance(v, GrowSeq):
        return v.copy()
    if isinstance(v, SymSeq) and not isinstance(v.n, int):
        return v
    if isinstance(v, SymRange):
        return v.seq()
    return TList(it.iter_list(v))


@handles(tuple)
def h_tuple(it, v=()):
    if isinstance(v, GrowSeq):
        return v.copy()
    if isinstance(v, SymSeq) and not isinstance(v.n, int):
        return v
    return tuple(it.iter_list(v))


@handles(set, frozenset)
def h_set(it, v=()):
    return it.mkset(it.iter_list(v))


@handles(dict)
def h_dict(it, v=(), **k):
    if isinstance(v, SymMap) and not k:
        v = v.items() if v.full else v
    if isinstance(v, (SymSeq, Unordered)) and not isinstance(v.n, int) and not k:
        i = it.ctx.fresh("key!")
        kk, _ = it.unpack(v.item(i))
        if not (is_int(kk) and it.ctx.entails(kk == i)):
            j = it.ctx.fresh("key!")
            kj, _ = it.unpack(v.item(j))
            if is_int(kk) and is_int(kj) and it.ctx.entails(T.simplies(sand(0 <= i, i < j, j < v.n), kk != kj)):
                return Table(v.n, lambda x: it.unpack(v.item(x))[1], lambda x: it.unpack(v.item(x))[0], isinstance(v, SymSeq))
            raise Unsupported("dictionary of a symbolic sequence")
        return SymMap(lambda x: sand(0 <= x, x < v.n), lambda x: it.unpack(v.item(x))[1], v.n, True, isinstance(v, SymSeq))
    d = SDict()
    if isinstance(v, dict):
        for kk, x in v.items():
            d[kk] = x
    else:
        for p in it.iter_list(v):
            kk, x = it.unpack(p)
            d[kk] = x
    for kk, x in k.items():
        d[kk] = x
    return d


@handles(iter)
def h_iter(it, v, *a):
    if a:
        raise Unsupported("iter with sentinel")
    if isinstance(v, (GenResult, SymIter)):
        return v
    if isinstance(v, SymSeq) and not isinstance(v.n, int):
        return SymIter(v)
    if isinstance(v, SVal) and v.py is list:
        return SymIter(SymSeq(v.sym_len(), v.item))
    return GenResult(TList(it.iter_list(v)))


def substituted(it, pat, repl, s, flags=0):
    if it.ctx.on_sub is not None and not flags:
        return it.ctx.on_sub(pat, repl, s)
    return SVal.app("re.sub", [pat, repl, s, flags], s.py)


@handles(re.sub)
def h_sub(it, pat, repl, s, *a, **k):
    if isinstance(pat, re.Pattern) and isinstance(s, SVal):
        return call_native(it, pat.sub, (repl, s, *a), k)
    if isinstance(s, SVal) and isinstance(pat, (str, bytes)) and isinstance(repl, (str, bytes)) and not a and not k:
        return substituted(it, pat, repl, s)
    return native(it, re.sub, (pat, repl, s, *a), k)


@handles(ast.literal_eval)
def h_literal(it, s):
    if isinstance(s, SVal):
        return SVal.app("literal", [s])
    return native(it, ast.literal_eval, (s,), {})


@handles(id)
def h_id(it, o):
    if isinstance(o, HDict):
        return o.addr
    return native(it, id, (o,), {})


@handles(next)
def h_next(it, v, *d):
    if isinstance(v, SymIter):
        if v.seq.fail is not None and it.ctx.branch(SBool(z3.And(z3.Not(T.zbool(v.more())), T.zbool(v.seq.fail[0])))):
            raise ProgExc(v.seq.fail[1]())
        if d and d[0] is None and v.seq.tag == "ending in None":
            return v.step()
        if it.ctx.branch(v.more()):
            return v.step()
        if d:
            v.step()
            return d[0]
        raise ProgExc(StopIteration())
    if isinstance(v, GenResult):
        try:
            return next(v)
        except StopIteration as e:
            if d:
                return d[0]
            raise ProgExc(e)
    return native(it, next, (v, *d), {})


@handles(map)
def h_map(it, f, *vs):
    ls = [it.iter_list(v) for v in vs]
    return GenResult(TList([it.call(f, a) for a in zip(*ls)]))


@handles(filter)
def h_filter(it, f, v):
    return GenResult(TList([x for x in it.iter_list(v) if it.truth(it.call(f, (x,)) if f is not None else x)]))


@handles(divmod)
def h_divmod(it, a, b):
    import ast as _ast

    return (it.binop(_ast.FloorDiv, a, b), it.binop(_ast.Mod, a, b))


@handles(abs)
def h_abs(it, a):
    return abs(a)


@handles(bool)
def h_bool(it, v=False):
    return it.truth_val(v)


@handles(int)
def h_int(it, v=0, *a, **k):
    if is_int(v):
        if isinstance(v, SBool):
            return ite_int(v, 1, 0)
        if isinstance(v, SInt):
            return SInt(v.p)
        return int(v)
    if isinstance(v, SVal):
        if v.py is float:
            raise Unsupported("int() of a float")
    if isinstance(v, (SVal, SBytes)):
        if not it.ctx.branch(SVal.appb("isint", [v, *a])):
            raise ProgExc(ValueError("<symbolic> is not a number"))
        return SVal.appi("int", [v, *a])
    return native(it, int, (v, *a), k)


@handles(str)
def h_str(it, v="", *a, **k):
    if concrete(v) and not _has_sym(v):
        m = getattr(type(v), "__str__", None)
        return native(it, str, (v, *a), k)
    if isinstance(v, SVal) and v.py is str:
        return v
    if isinstance(v, (SVal, SInt, SBytes)):
        return SVal.app("str", [v, *a], str)
    return SVal.app("str?", [], str)


@handles(repr, hex, format, ascii, bin, oct)
def h_repr(it, v, *a):
    if concrete(v) and not _has_sym(v):
        return native(it, repr, (v,), {}) if not a else native(it, format, (v, *a), {})
    if isinstance(v, (SVal, SInt, SBytes)):
        return SVal.app("repr", [v, *a], str)
    return SVal.app("repr?", [], str)


for _f in (hex, bin, oct, chr):
    HANDLERS[_f] = (lambda f: lambda it, v: native(it, f, (v,), {}) if concrete(v) else SVal.app(f.__name__, [v], str))(_f)
HANDLERS[ord] = lambda it, v: native(it, ord, (v,), {}) if concrete(v) else (SBytes.of(v).at(0) if isinstance(v, SBytes) else SVal.appi("ord", [v]))
HANDLERS[print] = lambda it, *a, **k: None


@handles(hasattr)
def h_hasattr(it, o, n):
    try:
        it.getattr(o, n)
        return True
    except ProgExc as e:
        if isinstance(e.exc, AttributeError):
            return False
        raise
    except Unsupported:
        if isinstance(o, (SBytes, SInt)):
            return False
        raise


@handles(getattr)
def h_getattr(it, o, n, *d):
    try:
        return it.getattr(o, n)
    except ProgExc as e:
        if d and isinstance(e.exc, AttributeError):
            return d[0]
        raise


@handles(setattr)
def h_setattr(it, o, n, v):
    it.setattr(o, n, v)


@handles(uuid.UUID)
def h_uuid(it, hex=None, bytes=None, bytes_le=None, fields=None, int=None, version=None):
    for nm, v in (("bytes_le", bytes_le), ("bytes", bytes), ("hex", hex)):
        if v is not None and not concrete(v):
            if nm != "hex":
                n = SBytes.of(v).sym_len()
                e = seq_(n, 16)
                if e is False or (e is not True and not it.ctx.branch(e)):
                    raise ProgExc(ValueError(f"{nm} is not a 16-char string"))
            return SVal.app(f"uuid.{nm}", [v], uuid.UUID)
    kw = {k: v for k, v in dict(hex=hex, bytes=bytes, bytes_le=bytes_le, fields=fields, int=int, version=version).items() if v is not None}
    return native(it, uuid.UUID, (), kw)


@handles(itertools.chain)
def h_chain(it, *vs):
    out = TList()
    for v in vs:
        for x in it.iter_list(v):
            list.append(out, x)
    return GenResult(out)


@handles(operator.attrgetter)
def h_attrgetter(it, *names):
    def get(o):
        r = []
        for n in names:
            x = o
            for p in n.split("."):
                x = it.getattr(x, p)
            r.append(x)
        return r[0] if len(r) == 1 else tuple(r)

    return PyFn(get)


class PyFn:
    """A native helper that may be called by the interpreter with symbolic arguments."""

    def __init__(self, f):
        self.f = f


_old_call_native = call_native


def call_native(it, fn, args, kwargs):  # noqa: F811
    if isinstance(fn, PyFn):
        return fn.f(*args, **kwargs)
    if isinstance(fn, types.FunctionType) and getattr(fn, "__pyvc_native__", False):
        return fn(*args, **kwargs)
    s = getattr(fn, "__self__", None)
    if isinstance(s, (SymFile, SBytesIO, SBytes, SVal, SDict, TList, SymMap, SymSeq, SByteArray, GenResult, FSet)):
        return fn(*args, **kwargs)
    if isinstance(fn, types.FunctionType) and fn.__module__ in ("pyvc.values", "pyvc.terms"):
        return fn(*args, **kwargs)
    return _old_call_native(it, fn, args, kwargs)


@handles(functools.reduce)
def h_reduce(it, f, v, *init):
    xs = it.iter_list(v)
    if init:
        r = init[0]
    elif xs:
        r, xs = xs[0], xs[1:]
    else:
        raise ProgExc(TypeError("reduce() of empty iterable with no initial value"))
    for x in xs:
        r = it.call(f, (r, x))
    return r


for _o in ("add", "sub", "mul", "floordiv", "mod", "and_", "or_", "xor", "lshift", "rshift", "lt", "le", "gt", "ge", "eq", "ne", "neg", "not_"):
    HANDLERS[getattr(operator, _o)] = (lambda f: lambda it, *a: f(*a))(getattr(operator, _o))

import math as _math

HANDLERS[_math.ceil] = lambda it, v: v if is_int(v) else (native(it, _math.ceil, (v,), {}) if concrete(v) else SVal.appi("ceil", [v]))
HANDLERS[_math.floor] = lambda it, v: v if is_int(v) else (native(it, _math.floor, (v,), {}) if concrete(v) else SVal.appi("floor", [v]))
HANDLERS[_math.prod] = lambda it, v, start=1: functools.reduce(lambda a, b: a * b, it.iter_list(v), start)
HANDLERS[io.SEEK_SET] = None
del HANDLERS[io.SEEK_SET]
