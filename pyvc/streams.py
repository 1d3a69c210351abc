"""Contracts of the dissect.util byte streams.

Used at call sites in symbolic mode only, and only for streams whose ``_read`` comes from dissect.util (a
stream class of the repository is always interpreted).  The contracts themselves are proved from the
installed source of dissect.util by the ``util-*`` drivers (props/utilstreams.py) of the checks that use them.
"""
from __future__ import annotations

import dissect.util.stream as us

from . import terms as T
from .terms import ProgExc, SInt, Unsupported, ite_int, sand, seq_
from .values import Seg, SBytes, SBytesIO, SymFile

RANGE = us.RangeStream._read
MAPPING = us.MappingStream._read
RUNLIST = us.RunlistStream._read


def _min(a, b):
    return a if a <= b else b


def _pos_part(a):
    return a if a >= 0 else 0


def plain(st):
    """A stream fully described by dissect.util (down to files)."""
    if isinstance(st, (SymFile, SBytesIO)):
        return True
    r = getattr(type(st), "_read", None)
    if r is RANGE and type(st).read is us.AlignedStream.read:
        return plain(st.__dict__.get("_fh"))
    if r is MAPPING and type(st).read is us.AlignedStream.read:
        runs = st.__dict__.get("_runs")
        return isinstance(runs, list) and getattr(runs, "abs", None) is None and all(plain(x[2]) for x in runs)
    if r is RUNLIST and type(st).read is us.AlignedStream.read:
        # one run, the only kind used here
        runs = st.__dict__.get("_runlist")
        return isinstance(runs, list) and getattr(runs, "abs", None) is None and len(runs) == 1 and runs[0][0] is not None and plain(st._fh)
    return False


def havoc_pos(st):
    if isinstance(st, (SymFile, SBytesIO)):
        st._setpos(T.cur().fresh("anypos", lo=0))
    elif type(st)._read in (RANGE, RUNLIST):
        havoc_pos(st._fh)
    else:
        for r in st._runs:
            havoc_pos(r[2])


def length(st):
    if isinstance(st, SymFile):
        return None if st.endless else st._size()
    if isinstance(st, SBytesIO):
        return st.sym_len()
    if type(st)._read is RUNLIST:
        return T.smin(st.size, st._runlist[0][1] * st.block_size)
    if type(st)._read is RANGE:
        n = length(st._fh)
        if n is None:
            return st.size
        n = T.smax(n - st.offset, 0)
        return n if st.size is None else T.smin(st.size, n)
    return st.size


def content(st, p):
    """Byte at position p."""
    if isinstance(st, SymFile):
        return st.at(p)
    if isinstance(st, SBytesIO):
        return SBytes.of(st.data).at(p)
    if type(st)._read is RANGE:
        return content(st._fh, st.offset + p)
    if type(st)._read is RUNLIST:
        return content(st._fh, st._runlist[0][0] * st.block_size + p)
    runs = st._runs
    if not runs:
        return 0
    mapping_ok(st)
    r = None
    for off, size, fh, fo in reversed(runs):
        b = content(fh, fo + (p - off))
        r = b if r is None else ite_int(p < off + size, b, r)
    return r


def whole(st):
    """Call-site obligation: the stream has data for its whole size."""
    if isinstance(st, (SymFile, SBytesIO)) or type(st)._read is MAPPING:
        return
    n = length(st)
    if n is not None and st.size is not None and n is not st.size:
        T.cur().prove("the stream is backed over its whole size", n >= st.size)


def mapping_ok(st):
    """Call-site obligation: the runs tile the stream and each run is backed by enough data."""
    ctx = T.cur()
    runs = st._runs
    key = ("mapping_ok", id(st), len(runs))
    if key in ctx.__dict__.setdefault("mapped", set()):
        return
    ctx.mapped.add(key)
    conds = [seq_(runs[0][0], 0)]
    for i, (off, size, fh, fo) in enumerate(runs):
        conds.append(size >= 0)
        conds.append(fo >= 0)
        if i + 1 < len(runs):
            conds.append(seq_(off + size, runs[i + 1][0]))
        n = length(fh)
        if n is not None:
            conds.append(fo + size <= n)
    ctx.prove("dissect.util.stream.MappingStream._read: runs are contiguous and backed", sand(*conds))


def piece(st, pos, n):
    """What reading n bytes at pos gives (n >= 0, pos >= 0)."""
    if isinstance(st, SymFile):
        if not st.endless:
            n = _min(n, _pos_part(st._size() - pos))
        return SBytes.mk([Seg("f", n, st.fid, pos)])
    if isinstance(st, SBytesIO):
        d = SBytes.of(st.data)
        m = d.sym_len()
        return d.sub(pos, _min(n, m - pos)) if pos < m else b""
    if st.size is not None:
        n = _min(n, _pos_part(st.size - pos))
    if type(st)._read is RANGE:
        return piece(st._fh, st.offset + pos, n)
    if type(st)._read is RUNLIST:
        T.cur().prove("dissect.util.stream.RunlistStream._read: the run covers what is read", pos + n <= st._runlist[0][1] * st.block_size)
        return piece(st._fh, st._runlist[0][0] * st.block_size + pos, n)
    mapping_ok(st)
    if len(st._runs) == 1:
        off, _, fh, fo = st._runs[0]
        return piece(fh, fo + pos - off, n)
    return SBytes.mk([Seg("g", n, lambda i: content(st, i), pos)])


def c_seek(it, self, pos, whence=0):
    if not plain(self):
        return it.call_fn(us.AlignedStream.seek, (self, pos, whence), {})
    p = it.call(self._seek, (pos, whence))
    it.setattr(self, "_pos", p)
    return p


def c_read(it, self, n=-1):
    if not plain(self) or n is None:
        return it.call_fn(us.AlignedStream.read, (self, n), {})
    pos = self._pos
    if n < -1:
        raise ProgExc(ValueError("invalid number of bytes to read"))
    size = self.size
    if n == -1:
        if size is None:
            m = length(self)
            if m is None:
                raise Unsupported("unbounded read of an endless stream")
            n = _pos_part(m - pos)
        else:
            n = _pos_part(size - pos)
    elif size is not None:
        n = _min(n, _pos_part(size - pos))
    r = piece(self, pos, n)
    it.setattr(self, "_pos", pos + n)
    havoc_pos(self)
    return r


def install(it):
    it.contracts[us.AlignedStream.seek] = c_seek
    it.contracts[us.AlignedStream.read] = c_read
