"""C05: incomplete arrays are refused or raise; data is never made up."""
import itertools

from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk

from .common import Driver, between, indices, picks
from . import C02, C03

LEVEL = "proof"
ASSUMPTIONS = [
    "any number of members; linear and RAID 0 sets of up to 5 members are enumerated in addition (and sampled)",
    "the set of absent members is an arbitrary predicate; its count is related to it only through the constructor's own check",
]


def refuse_incomplete(E):
    """Linear and striped sets open only when every member is there."""
    level = E.choose("level", [-1, 0])
    n = E.choose("n", [1, 2, 3, 4, 5])
    subset = E.choose("present", [s for k in range(6) for s in itertools.combinations(range(5), k)])
    subset = [i for i in subset if i < n]
    if len(subset) == n:
        E.assume(False)
    fam = E.family("disk")
    ss = E.int("ss", 1, pick=picks(1, 16, 4096))
    size = E.int("size", 1, pick=between(1, 10000))
    dm = E.dict((i, (0, E.call(PhysicalDisk, fam.file(i), 0, E.int(f"dsize{i}", 0, pick=picks(0, 16, 512, 5000))))) for i in subset)
    vd = E.call(VirtualDisk, "name", "uuid", size, level, 0, ss, n, dm)
    out = E.attempt(vd.open)
    E.prove("incomplete set is not opened", not out.ok)


def refuse_any(E):
    """The same for any number of members and any indices."""
    if not E.symbolic:
        return refuse_incomplete(E)
    level = E.choose("level", [-1, 0])
    n, m = E.int("n", 1), E.int("present", 0)
    E.assume(m < n)
    fam = E.family("disk")
    disk = lambda i: (E.fun("start", i, lo=0), E.call(PhysicalDisk, fam.file(i), E.fun("base", i, lo=0), E.fun("dsize", i, lo=0)))
    vd = E.call(VirtualDisk, "name", "uuid", E.int("size", 1), level, 0, E.int("ss", 1), n, E.table(m, disk, indices(E, m), ordered=False))
    out = E.attempt(vd.open)
    E.prove("incomplete set is not opened", not out.ok)


def parity_set(E, level, lay, count=None):
    n = E.int("n", 4 if level == 6 else 3, pick=between(4 if level == 6 else 3, 8))
    ss = E.int("ss", 1, pick=picks(1, 4, 16, 512))
    size = E.int("size", 1, pick=lambda r: r.choice([ss * r.randint(1, 60), r.randint(1, 40 * ss)]))
    missing = lambda i: E.pred("missing", i, p=0.25)
    if E.symbolic:
        cnt = E.int("count", 0)
        E.assume(cnt <= n)
    else:
        cnt = sum(not missing(i) for i in range(n))
    if level == 10:
        near, far, fo, layout = C03.layout_word(E, [0, 1, 2])
        E.assume(near * far <= n)
        fam, base, start, vd = C03.array(E, layout, n, ss, size, missing, cnt)

        def where(c):
            return C03.placement(E, near, far, fo, n, c)
    else:
        fam, base, start, vd = C02.array(E, level, C02.CODES[lay], n, ss, size, missing, cnt)
        nd = n - (2 if level == 6 else 1)

        def where(c):
            row = c // nd
            return C02.data_disk(E, level, lay, n, row, c % nd), row
    return n, ss, size, missing, cnt, fam, base, start, vd, where


def tolerance(level, lay):
    """A parity set opens unless more members are absent than the level tolerates."""
    def drv(E):
        n, ss, size, missing, cnt, fam, base, start, vd, where = parity_set(E, level, lay)
        out = E.attempt(vd.open)
        tol = 2 if level == 6 else 1
        if out.ok:
            E.prove("opened with enough members", cnt >= n - tol)
        else:
            E.prove("refused only with too few members", cnt < n - tol)

    return drv


def any_range(level, lay):
    """A read that returns, returns the right bytes, all of them from members that are present."""
    def drv(E):
        n, ss, size, missing, cnt, fam, base, start, vd, where = parity_set(E, level, lay)
        out = E.attempt(vd.open)
        E.assume(out.ok)
        st = out.value
        align = E.get(st, "align")
        blk = E.int("blk", 0, pick=lambda r: r.randint(0, max(0, (size - 1) // align)))
        nblk = E.int("nblk", 1, pick=between(1, 5))
        off, ln = E.let("off", blk * align), E.let("len", nblk * align)
        E.assume(off < size)

        def spec(p):
            m, row = where(p // ss)
            # no byte value at all when the member is absent
            return E.ite(missing(m), -1, fam.file(m).at(base(m) + start(m) + row * ss + p % ss))

        E.acc_spec("content", lambda k: spec(off + k))
        out = E.attempt(st._read, off, ln)
        if not out.ok:
            if not E.symbolic:
                E.prove("a read raises only for an absent member", any(missing(where(p // ss)[0]) for p in range(off, off + ln)))
            return
        data = out.value
        avail = E.min(ln, size - off)
        E.prove("read: length", E.len(data) >= avail)
        if E.symbolic:
            E.prove_bytes_upto("read, members present", data, avail, lambda k: spec(off + k))
        else:
            E.prove_bytes("read, members present", data[:avail], avail, lambda k: spec(off + k))

    return drv


def one_chunk(level, lay):
    """Reading inside one chunk raises exactly when the member that holds it is absent."""
    def drv(E):
        n, ss, size, missing, cnt, fam, base, start, vd, where = parity_set(E, level, lay)
        out = E.attempt(vd.open)
        E.assume(out.ok)
        st = out.value
        c = E.int("chunk", 0, pick=lambda r: r.randint(0, max(0, (size - 1) // ss)))
        o = E.int("skip", 0, pick=lambda r: r.randrange(ss))
        ln = E.int("len", 1, pick=lambda r: r.randint(1, ss))
        E.assume(E.And(o + ln <= ss, c * ss + o + ln <= size))
        m, row = where(c)
        off = E.let("off", c * ss + o)
        spec = lambda k: E.ite(missing(m), -1, fam.file(m).at(base(m) + start(m) + row * ss + o + k))
        E.acc_spec("content", spec)
        out = E.attempt(st._read, off, ln)
        if out.ok:
            E.prove_bytes("chunk of a present member", out.value, ln, spec)
        else:
            E.prove("a present member's chunk is readable", missing(m))

    return drv


DRIVERS = [Driver("complete-or-refused", refuse_incomplete, samples=600), Driver("refuse-any", refuse_any)]
for _level, _layouts in ((4, ["PARITY_N"]), (5, C02.L5), (6, C02.L6), (10, [None])):
    for _lay in _layouts:
        tag = f"raid{_level}" + (f"-{_lay}" if _level in (5, 6) else "")
        if _level != 10:
            if _lay == _layouts[0]:
                DRIVERS.append(Driver(f"tolerance-{tag}", tolerance(_level, _lay), samples=150))
        DRIVERS.append(Driver(f"chunk-{tag}", one_chunk(_level, _lay), samples=150))
        DRIVERS.append(Driver(f"range-{tag}", any_range(_level, _lay), samples=150))
