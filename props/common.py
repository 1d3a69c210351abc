"""Shared pieces of the contracts."""
from __future__ import annotations

from pyvc.runner import Driver  # noqa: F401


def small(*vals):
    """Picker: mostly small values, sometimes one of the given ones."""
    def pick(r):
        if vals and r.random() < 0.5:
            return r.choice(vals)
        return r.choice([r.randint(0, 3), r.randint(0, 12), r.randint(0, 100), r.randint(0, 2000)])
    return pick


def picks(*vals):
    return lambda r: r.choice(vals)


def between(a, b):
    return lambda r: r.randint(a, b)


def check_stream(E, st, spec, size, label="read", maxblk=6, far=None, raw=None):
    """Contract of an AlignedStream: its content is ``spec`` (byte at an absolute position) and its size ``size``.

    Symbolically: ``_read`` on any aligned range that starts inside the stream returns exactly the bytes of
    the specification (bytes past the end of the stream are free, they are cut off by the base class).
    Concretely additionally: seek/read of arbitrary ranges.
    """
    if getattr(E, "on_stream", None):
        return E.on_stream(E, st, spec, size)
    if E.symbolic:
        p = E.ghost()
        b = E.stream_byte(st, p)
        if b is not None:
            E.prove_eq(f"{label}: stream size", E.get(st, "size"), size)
            E.prove(f"{label}: every byte", E.Implies(E.And(p >= 0, p < size), b == spec(p)))
            return
    align = E.get(st, "align")
    E.prove_eq(f"{label}: stream size", E.get(st, "size"), size)
    top = lambda r: max(0, (size - 1) // align) if not E.symbolic else 0
    def pick_blk(r):
        t = top(r)
        return r.choice([0, t, r.randint(0, t), min(t, r.randint(0, 40))])
    blk = E.int("blk", 0, pick=pick_blk)
    nblk = E.int("nblk", 1, pick=lambda r: r.choice([1, 1, 2, 3, r.randint(1, maxblk)]))
    off, ln = E.let("off", blk * align), E.let("len", nblk * align)
    E.assume(off < size)
    E.acc_spec("content", lambda k: spec(off + k))
    data = E.call(st._read, off, ln)
    avail = E.min(ln, size - off)
    prove_prefix(E, label, data, avail, ln, E.Implies(off + ln <= size, True), lambda k: spec(off + k))
    if not E.symbolic:
        r = E.rng
        for _ in range(3):
            o = r.choice([off, r.randrange(size), max(0, size - r.randint(1, 3 * align + 1)), r.randrange(min(size, 8 * align))])
            n = r.choice([1, r.randint(1, align), r.randint(1, 3 * align + 1), align])
            E.call(st.seek, o)
            d = E.call(st.read, n)
            E.prove_bytes(f"{label} (seek and read)", d, min(n, size - o), lambda k, o=o: spec(o + k))


def prove_prefix(E, label, data, avail, ln, full, spec):
    """data has between avail and ln bytes and agrees with spec on the first avail."""
    n = E.len(data)
    E.prove(f"{label}: length", E.And(n >= avail, n <= ln))
    if E.symbolic:
        E.prove_bytes_upto(f"{label}", data, avail, spec)
    else:
        E.prove_bytes(label, bytes(data)[:avail], avail, spec)


def indices(E, n):
    """The indices of n members: member i has the i-th smallest one."""
    seen = []

    def key(i):
        for j in seen:
            for a, b in ((i, j), (j, i)):
                E.assume(E.Implies(E.And(0 <= a, a < b, b < n), E.fun("index", a) < E.fun("index", b)))
        seen.append(i)
        return E.fun("index", i)

    return key


def more(fn, counts):
    """Sampled stand-in of a driver for larger counts."""
    def drv(E):
        return fn(E.choose("count", counts))(E)

    return drv
