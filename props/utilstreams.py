"""Contracts of the dissect.util streams, proved from the installed source.

The contracts of the repository's streams speak about ``_read`` on aligned ranges; the drivers here show that
every sequence of seeks and reads of a stream whose ``_read`` satisfies such a contract returns the content.
The class invariant: the aligned position belongs to the position, and the buffer, if any, holds the block there.
"""
import ast
import itertools

import dissect.util.stream as us

from .common import Driver, picks


class Medium(us.AlignedStream):
    """A stream known only by the contract of its _read."""

    def __init__(self, source, size, align, slack):
        super().__init__(size, align)
        self.source, self.slack = source, slack

    def _read(self, offset, length):
        n = length if self.size is None else min(length, max(0, self.size - offset))
        return self.source.bytes_at(offset, n) + b"\xee" * self.slack(length - n)


def state(E, sized):
    f = E.file("content", endless=True)
    align = E.int("align", 1, pick=picks(1, 4, 16, 512))
    size = E.int("size", 0, pick=lambda r: r.choice([0, 1, r.randint(0, 100), r.randint(0, 5000)])) if sized else None
    st = Medium(f, size, align, (lambda n: 0) if E.symbolic else (lambda n: E.rng.randint(0, n)))
    pos = E.int("pos", 0, pick=lambda r: r.choice([0, r.randint(0, 50), r.randint(0, 6000)]))
    blk = E.int("posblk", 0, pick=lambda r: pos // align)
    E.assume(E.And(blk * align <= pos, pos < blk * align + align))
    pa = blk * align
    if E.symbolic:
        E.ctx.register(st)

        def contract(E, self, off, ln):
            E.prove("_read is asked for aligned ranges inside the stream",
                    E.And(ln > 0, off >= 0, *[E.Not(E.it.truth_val(E.it.binop(ast.Mod, x, align))) for x in (off, ln)],
                          *([off < size] if sized else [])))
            if not sized:
                return f.bytes_at(off, ln)
            avail = E.min(ln, size - off)
            extra = E.int("slack", 0)
            E.assume(avail + extra <= ln)
            return f.bytes_at(off, avail) + E.file("beyond", endless=True).bytes_at(0, extra)

        E.contract(Medium._read, contract)
    avail = E.max(0, E.min(align, size - pa)) if sized else align
    buf = None
    if E.choose("buffer", ["none", "block"]) == "block":
        extra = E.int("bufextra", 0, pick=picks(0, 0, 1, 5))
        E.assume(avail + extra <= align)
        buf = f.bytes_at(pa, avail) + E.file("tail", endless=True).bytes_at(0, extra)
    for k, v in (("_pos", pos), ("_pos_align", pa), ("_buf", buf)):
        setattr(st, k, v)
    return f, align, size, st, pos


def invariant(E, f, align, size, st, label):
    pos, pa, buf = E.get(st, "_pos"), E.get(st, "_pos_align"), E.get(st, "_buf")
    mod = E.it.binop(ast.Mod, pa, align) if E.symbolic else pa % align
    E.prove(f"{label}: aligned position", E.And(pa <= pos, pos < pa + align, mod == 0))
    if buf is not None:
        avail = E.max(0, E.min(align, size - pa)) if size is not None else align
        n = E.len(buf)
        E.prove(f"{label}: buffer length", E.And(n >= avail, n <= align))
        if E.symbolic:
            E.prove_bytes_upto(f"{label}: buffer", buf, avail, lambda k: f.at(pa + k))
        else:
            E.prove_bytes(f"{label}: buffer", buf[:avail], avail, lambda k: f.at(pa + k))


def read(sized):
    def drv(E):
        f, align, size, st, pos = state(E, sized)
        n = E.int("n", -1 if sized else 0, pick=lambda r: r.choice([0, 1, r.randint(0, 20), r.randint(0, 4 * align + 3), -1 if sized else 2]))
        data = E.call(st.read, n)
        exp = n
        if sized:
            left = E.max(0, size - pos)
            exp = left if n == -1 else E.min(n, left)
        E.prove_bytes("read", data, exp, lambda k: f.at(pos + k))
        E.prove_eq("position after the read", E.get(st, "_pos"), pos + exp)
        invariant(E, f, align, size, st, "after the read")

    return drv


def seek(sized):
    def drv(E):
        f, align, size, st, pos = state(E, sized)
        whence = E.choose("whence", [0, 1, 2] if sized else [0, 1])
        to = E.int("to", pick=lambda r: r.choice([0, r.randint(-40, 40), r.randint(0, 6000)]))
        out = E.attempt(st.seek, to, whence)
        if whence == 0 and to < 0:
            E.prove("negative position refused", out.raised(ValueError))
        else:
            exp = to if whence == 0 else E.max(0, (pos if whence == 1 else size) + to)
            E.prove("accepted", out.ok)
            E.prove_eq("returned position", out.value, exp)
            E.prove_eq("position", E.get(st, "_pos"), exp)
        invariant(E, f, align, size, st, "after the seek")

    return drv


def range_read(E):
    f = E.file("source", endless=True)
    off = E.int("off", 0)
    align = E.int("align", 1, pick=picks(1, 16, 512, 8192))
    size = E.int("size", 1)
    st = E.call(us.RangeStream, f, off, size, align)
    blk = E.int("blk", 0, pick=picks(0, 0, 1, 2))
    ln = E.int("ln", 1, pick=picks(1, 16, 512, 8192))
    o = blk * align
    E.assume(o < size)
    data = E.call(st._read, o, ln)
    E.prove_bytes("read", data, E.min(ln, size - o), lambda k: f.at(off + o + k))


def mapping_read(n, ordered=False):
    def drv(E):
        fs = [E.file(f"run{i}", endless=True) for i in range(n)]
        fo = [E.int(f"fo{i}", 0) for i in range(n)]
        sz = [E.int(f"sz{i}", 0, pick=picks(0, 1, 2, 7, 512, 700)) for i in range(n)]
        starts = [0]
        for s in sz:
            starts.append(starts[-1] + s)
        align = E.int("align", 1, pick=picks(1, 4, 512))
        st = E.call(us.MappingStream, None, align)
        order = E.choose("order", list(itertools.permutations(range(n))) if not ordered else [range(n)])
        if list(order) != sorted(order):
            # runs without length have to be added in order (a call-site obligation of the contract)
            for s in sz:
                E.assume(s > 0)
        for i in order:
            E.call(st.add, starts[i], sz[i], fs[i], fo[i])
        E.prove_eq("size", E.get(st, "size"), starts[n])
        o = E.int("o", 0, pick=lambda r: r.randrange(starts[n] or 1))
        ln = E.int("ln", 1, pick=picks(1, 16, 512, 8192))
        E.assume(o < starts[n])
        data = E.call(st._read, o, ln)

        def spec(k):
            p = o + k
            r = fs[n - 1].at(fo[n - 1] + p - starts[n - 1])
            for i in range(n - 2, -1, -1):
                r = E.ite(p < starts[i + 1], fs[i].at(fo[i] + p - starts[i]), r)
            return r

        E.prove_bytes("read", data, E.min(ln, starts[n] - o), spec)

    return drv


class Runs:
    """Any number of adjacent runs."""

    def __init__(self, E):
        self.E = E
        self.n = E.int("n", 1)
        self.fam = E.family("run")
        self.end = E.let("end", self.start(self.n))
        E.assume(self.start(0) == 0)
        self.points = []

    def start(self, i):
        return self.E.fun("start", i, lo=0)

    def size(self, i):
        return self.E.fun("sz", i, lo=0)

    def place(self, i):
        return self.E.fun("fo", i, lo=0)

    def of(self, p):
        """The run a position lies in."""
        return self.E.fun("runof", p)

    def point(self, p):
        """There is exactly one run for every position of the stream."""
        E, i = self.E, self.of(p)
        self.points.append(i)
        E.assume(E.Implies(E.And(p >= 0, p < self.end), E.And(0 <= i, i < self.n, self.start(i) <= p, p < self.start(i) + self.size(i))))
        self.known(i)
        return i

    def known(self, i):
        """Every run starts where the one before ends, so later runs start after it (sums of sizes)."""
        E = self.E
        E.assume(self.start(i + 1) == self.start(i) + self.size(i))
        for j in [*self.points, self.n]:
            for a, b in ((i, j), (j, i)):
                E.assume(E.Implies(E.And(0 <= a, a < b, b <= self.n), self.start(a) + self.size(a) <= self.start(b)))

    def item(self, i):
        self.known(i)
        return self.start(i), self.size(i), self.fam.file(i), self.place(i)

    def at(self, p):
        i = self.point(p)
        return self.fam.file(i).at(self.place(i) + p - self.start(i))


def mapping_any(E):
    """The same for any number of runs."""
    if not E.symbolic:
        return mapping_read(E.rng.choice([4, 6, 11]), True)(E)
    R = Runs(E)
    st = E.call(us.MappingStream, None, E.int("align", 1))
    if "_runs" not in st.__dict__:
        E.unsupported("the class is organised differently")
    st._runs = E.symseq(R.n, R.item)
    st.size = R.end
    o, ln = E.int("o", 0), E.int("ln", 1)
    E.assume(o < R.end)
    first = R.point(o)
    E.term_hint("run", first)
    E.pair_hint("in run", lambda p, i, p0, i0: E.And(p <= R.end, E.Or(p == o + ln, E.And(p == o, i == first), p == R.start(i))))
    E.view_measure("left", lambda v: R.n - v)
    E.hint("runs", lambda v, v0: E.And(0 <= v, v <= R.n))
    spec = lambda k: R.at(o + k)
    E.acc_spec("content", spec)
    data = E.call(st._read, o, ln)
    E.prove_bytes("read", data, E.min(ln, R.end - o), spec)


def mapping_add(E):
    """A run added behind any number of runs in order becomes the last one, and nothing else changes."""
    n = E.int("n", 0, pick=picks(0, 1, 2, 5, 11))
    fam = E.family("run")
    # gaps are allowed here, the runs only have to be in order
    start = lambda i: E.fun("start", i, lo=0, pick=lambda r: max(0, i // 2 * 1000 + i % 2 * r.randrange(1000)))
    size = lambda i: E.fun("sz", i, lo=0)
    place = lambda i: E.fun("fo", i, lo=0)

    def item(i):
        E.assume(E.Implies(E.And(i > 0, i < n), start(i - 1) <= start(i)))
        return start(i), size(i), fam.file(i), place(i)

    st = E.call(us.MappingStream, None, E.int("align", 1))
    if "_runs" not in st.__dict__:
        E.unsupported("the class is organised differently")
    st._runs = E.growseq(n, item)
    off = E.int("off", 0, pick=lambda r: n * 500 + r.randrange(3) * 500)
    sz, skip = E.int("len", 0), E.int("skip", 0)
    if E.truth(n > 0):
        E.assume(off >= item(n - 1)[0])
    f = E.file("added")
    given = E.choose("skip given", [True, False])
    E.call(st.add, off, sz, f, *([skip] if given else []))
    E.prove_eq("size", E.get(st, "size"), off + sz)
    runs = E.get(st, "_runs")
    E.prove_eq("count", E.len(runs), n + 1)
    i = E.int("i", 0, pick=lambda r: r.randint(0, n))
    E.assume(i <= n)
    got = runs[i]
    if E.truth(i == n):
        E.prove("added", E.And(got[0] == off, got[1] == sz, got[2] is f, got[3] == (skip if given else 0)))
    else:
        E.prove("kept", E.And(got[0] == start(i), got[1] == size(i), got[3] == place(i)))
        k = E.int("k", 0)
        E.prove_eq("file", got[2].at(k), fam.file(i).at(k))


ALIGNED = [
    Driver("util-aligned-read", read(True), samples=400),
    Driver("util-aligned-read-unsized", read(False), samples=200),
    Driver("util-aligned-seek", seek(True)),
    Driver("util-aligned-seek-unsized", seek(False)),
    Driver("util-range-read", range_read),
]


def runlist_read(E):
    f = E.file("source", endless=True)
    start = E.int("start", 0, pick=picks(0, 1, 7))
    bs = E.int("bs", 1, pick=picks(1, 16, 512))
    count = E.int("count", 0, pick=picks(1, 2, 9))
    size = E.int("size", 1, pick=lambda r: r.choice([max(1, count * bs), r.randint(1, max(1, count * bs)), count * bs + r.randint(1, 600)]))
    st = E.call(us.RunlistStream, f, E.list([(start, count)]), size, bs)
    if E.choose("replaced", [False, True]):
        start, count, size = start + 1, count + 1, size + bs
        st.runlist = E.list([(start, count)])
        st.size = size
    blk = E.int("blk", 0, pick=picks(0, 0, 1, 2))
    ln = E.int("ln", 1, pick=picks(1, 16, 512, 8192))
    o = blk * bs
    avail = E.min(size, count * bs)
    E.assume(o < avail)
    data = E.call(st._read, o, ln)
    E.prove_bytes("read", data, E.min(ln, avail - o), lambda k: f.at(start * bs + o + k))


RUNLIST = [Driver("util-runlist-read", runlist_read, inline=3)]
MAPPING = [Driver(f"util-mapping-read-{n}", mapping_read(n), inline=n + 1) for n in (1, 2, 3)] + [Driver("util-mapping-read-any", mapping_any),
                                                                                                            Driver("util-mapping-add-any", mapping_add)]
