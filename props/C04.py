"""C04: opening an array selects the right reader; linear and mirror data is exact."""
import itertools

from dissect.util import stream as us
from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk

from .common import Driver, between, check_stream, indices, picks
from . import C02, C03, utilstreams

LEVEL = "proof"
ASSUMPTIONS = [
    "linear sets and mirrors: any number of members with any indices in any insertion order; at most 9 and 20 in the samples",
    "runs are added to a MappingStream in ascending order; which member of a mirror is read is left open",
    "members of linear sets have data start 0 (md has it in the offset of the disk, DDF and Vinum give parts of disks)",
]


def linear(n):
    perms = list(itertools.permutations(range(n))) if n <= 3 else [(0, 1, 2, 3), (3, 1, 0, 2), (2, 3, 1, 0)] if n == 4 else [
        range(n), range(n)[::-1], sorted(range(n), key=lambda i: (i * 7 % 5, i))]

    def drv(E):
        order = E.choose("insertion", perms)
        gap = E.choose("keys", [1, 3])  # index order matters, not the index values
        fam = E.family("disk")
        base = [E.int(f"offset{i}", 0, pick=picks(0, 512, 77)) for i in range(n)]
        size = [E.int(f"size{i}", 1, pick=lambda r: r.choice([r.randint(1, 40), 8192, r.randint(1, 30000), 4096])) for i in range(n)]
        disks = [E.call(PhysicalDisk, fam.file(i), base[i], size[i]) for i in range(n)]
        dm = E.dict((i * gap, (0, disks[i])) for i in order)
        ends = list(itertools.accumulate(size))
        vd = E.call(VirtualDisk, "name", "uuid", ends[-1], -1, 0, 0, n, dm)
        st = E.call(vd.open)

        def spec(p):
            r = None
            for i in reversed(range(n)):
                b = fam.file(i).at(base[i] + p - (ends[i - 1] if i else 0))
                r = b if r is None else E.ite(p < ends[i], b, r)
            return r

        check_stream(E, st, spec, ends[-1])

    return drv


def linear_any(E):
    """Any number of members: one run for each, in order (what such a stream reads is util-mapping-read-any)."""
    if not E.symbolic:
        return linear(E.choose("count", [5, 6, 9, 12, 20]))(E)
    n = E.int("n", 1)
    fam = E.family("disk")
    size = lambda i: E.fun("size", i, lo=0)
    base = lambda i: E.fun("base", i, lo=0)
    start = lambda i: E.fun("start", i, lo=0)
    K = E.ghost()
    E.assume(start(0) == 0)

    def disk(i):
        E.assume(start(i + 1) == start(i) + size(i))
        return E.call(PhysicalDisk, fam.file(i), base(i), size(i))

    def same(got, want):
        (off, sz, fh, skip), i = got, want
        return E.And(off == start(i), sz == size(i), E.Implies(E.And(K >= 0, K < sz), E.stream_byte(fh, skip + K) == fam.file(i).at(base(i) + K)))

    runs = E.list()
    em = E.emitter("runs", lambda i: [i], lambda r: r, same)
    add = us.MappingStream.__dict__.get("add")
    E.contract(add, lambda E, self, off, sz, fh, skip=0: runs.append((off, sz, fh, skip)))
    E.pair_hint("sum", lambda i, p, i0, p0: p == start(i))
    vd = E.call(VirtualDisk, "name", "uuid", start(n), -1, 0, 0, n, E.table(n, lambda i: (0, disk(i)), indices(E, n), ordered=False))
    st = E.call(vd.open)
    if not isinstance(st, us.MappingStream) or type(st)._read is not us.MappingStream._read or not add:
        E.unsupported("linear sets are no mapping of runs")
    E.prove_list("runs", runs, [em.run(0, n)])


def mirror(n):
    def drv(E):
        keys = E.choose("keys", [list(range(n)), list(range(n))[::-1], [3 + 2 * i for i in range(n)]])
        starts = E.choose("starts", [False, True])
        fam = E.family("disk")
        base = [E.int(f"offset{i}", 0, pick=picks(0, 512, 77)) for i in range(n)]
        dsz = E.int("dsize", 1, pick=lambda r: r.choice([r.randint(1, 40000), 8192, 65536]))
        start = [E.int(f"start{i}", 1, pick=picks(1, 512, 9000)) if starts else 0 for i in range(n)]
        size = E.int("size", 1, pick=lambda r: r.choice([1, r.randint(1, 60000), 8192]))
        E.assume(size <= dsz)
        disks = [E.call(PhysicalDisk, fam.file(i), base[i], size + start[i] if starts else dsz) for i in range(n)]
        dm = E.dict((k, (start[i], disks[i])) for i, k in enumerate(keys))
        vd = E.call(VirtualDisk, "name", "uuid", size, 1, 0, 0, n, dm)
        st = E.call(vd.open)
        if getattr(E, "on_stream", None):
            return E.on_stream(E, st, None, size)
        # any range inside the array, through the public interface of the opened stream
        blk = E.int("off", 0, pick=lambda r: r.choice([0, r.randrange(size)]))
        ln = E.int("len", 0, pick=lambda r: r.choice([1, 10, r.randint(0, size), size]))
        E.assume(blk + ln <= size)
        # zero-copy view: the first member of the map, or any other one, at every byte
        E.call(st.seek, blk)
        data = E.call(st.read, ln)
        E.prove("mirror: length", E.len(data) == ln)
        if E.symbolic:
            K = E.ghost()
            cond = E.Or(*[E.byte(data, K) == fam.file(i).at(base[i] + start[i] + blk + K) for i in range(n)])
            E.prove("mirror: every byte comes from the data area of a member", E.Implies(E.And(K >= 0, K < ln), cond))
        else:
            ok = any(all(data[k] == fam.file(i).at(base[i] + start[i] + blk + k) for k in range(ln)) for i in range(n))
            E.prove("mirror: every byte comes from the data area of a member", ok)

    return drv


def mirror_any(E):
    """Any number of members with any indices, in any order."""
    if not E.symbolic:
        return mirror(E.choose("count", [4, 5, 9]))(E)
    n = E.int("n", 1)
    fam = E.family("disk")
    base = lambda i: E.fun("base", i, lo=0)
    start = lambda i: E.fun("start", i, lo=0)
    dsz = lambda i: E.fun("dsize", i, lo=1)
    size = E.int("size", 1)
    used = []

    def member(i):
        # whichever member is opened, its data area holds the whole array
        used.append(i)
        E.assume(start(i) + size <= dsz(i))
        return start(i), E.call(PhysicalDisk, fam.file(i), base(i), dsz(i))

    dm = E.table(n, member, lambda i: E.fun("index", i))
    vd = E.call(VirtualDisk, "name", "uuid", size, 1, 0, 0, n, dm)
    st = E.call(vd.open)
    blk, ln = E.int("off", 0), E.int("len", 0)
    E.assume(blk + ln <= size)
    E.call(st.seek, blk)
    data = E.call(st.read, ln)
    E.prove("mirror: length", E.len(data) == ln)
    K = E.ghost()
    cond = E.Or(*[E.And(0 <= i, i < n, E.byte(data, K) == fam.file(i).at(base(i) + start(i) + blk + K)) for i in used])
    E.prove("mirror: every byte comes from the data area of a member", E.Implies(E.And(K >= 0, K < ln), cond))


def dispatch(E):
    """The level decides the mapping: same disks, every level, one chunk."""
    level = E.choose("level", [4, 5, 6, 10])
    layout = E.choose("layout", [0, 2, 5]) if level in (5, 6) else (0x102 if level == 10 else 0)
    n = E.int("n", 4, pick=between(4, 7))
    ss = E.int("ss", 1, pick=picks(4, 16, 512))
    size = E.int("size", 1, pick=lambda r: ss * r.randint(1, 60))
    fam, base, start, vd = C02.array(E, level, layout, n, ss, size)
    st = E.call(vd.open)

    def spec(p):
        c, o = p // ss, p % ss
        if level == 10:
            m, row = C03.placement(E, 2, 1, 0, n, c)
        else:
            nd = n - (2 if level == 6 else 1)
            row = c // nd
            m = C02.data_disk(E, level, {0: "LEFT_ASYMMETRIC", 2: "LEFT_SYMMETRIC", 5: "PARITY_N"}[layout], n, row, c % nd)
        return fam.file(m).at(base(m) + start(m) + row * ss + o)

    check_stream(E, st, spec, size)


def raid0(E):
    fam = E.family("disk")
    ss = E.int("ss", 1, pick=picks(4, 16, 512))
    q = E.int("q", 1, pick=between(1, 30))
    disks = [E.call(PhysicalDisk, fam.file(i), 0, q * ss) for i in range(2)]
    vd = E.call(VirtualDisk, "name", "uuid", 2 * q * ss, 0, 0, ss, 2, E.dict((i, (0, disks[i])) for i in range(2)))
    st = E.call(vd.open)

    def spec(p):
        c = p // ss
        return E.ite(c % 2 == 0, fam.file(0).at((c // 2) * ss + p % ss), fam.file(1).at((c // 2) * ss + p % ss))

    check_stream(E, st, spec, 2 * q * ss)


def refused(E):
    level = E.int("level", -20, 1000, pick=picks(-2, -4, 2, 3, 7, 8, 9, 11, 100, 1000))
    for ok in (-1, 0, 1, 4, 5, 6, 10):
        E.assume(level != ok)
    fam = E.family("disk")
    n = 3
    dm = E.dict((i, (0, E.call(PhysicalDisk, fam.file(i), 0, 4096))) for i in range(n))
    vd = E.call(VirtualDisk, "name", "uuid", 4096, level, 0, 512, n, dm)
    out = E.attempt(vd.open)
    E.prove("unsupported level refused", not out.ok)


DRIVERS = [Driver(f"linear-{n}", linear(n), samples=200) for n in (1, 2, 3, 4)]
DRIVERS += [Driver(f"mirror-{n}", mirror(n), samples=200) for n in (1, 2, 3)]
DRIVERS += [Driver("linear-any", linear_any, samples=150), Driver("mirror-any", mirror_any, samples=80)]
DRIVERS += [Driver("dispatch", dispatch), Driver("dispatch-raid0", raid0), Driver("refused", refused), *utilstreams.ALIGNED, *utilstreams.MAPPING]
