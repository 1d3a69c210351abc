"""C03: RAID 10 reads map every byte to the first copy for near, far and offset layouts."""
from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk

from .common import Driver, between, check_stream, picks

LEVEL = "proof"
ASSUMPTIONS = [
    "members deliver the bytes of their file at the position they were seeked to; members are at least as long as the range read",
    "layout words with near copies >= 1, far copies >= 1 and near*far <= members (what md accepts)",
]


def layout_word(E, ufs_choices):
    near = E.int("near", 1, 255, pick=picks(1, 2, 2, 3))
    far = E.int("far", 1, 255, pick=picks(1, 1, 2, 3))
    fo = E.choose("far_offset", [0, 1])
    ufs = E.choose("use_far_sets", ufs_choices)
    return near, far, fo, near + far * 256 + fo * 65536 + ufs * 131072


def array(E, layout, n, ss, size, missing=None, count=None):
    fam = E.family("disk")
    base = lambda i: E.fun("offset", i, lo=0, pick=picks(0, 512, 1536, 7))
    start = lambda i: E.fun("start", i, lo=0, pick=picks(0, 0, 1024, 513))
    present = (lambda i: E.And(i >= 0, i < n)) if missing is None else (lambda i: E.And(i >= 0, i < n, E.Not(missing(i))))
    dm = E.symmap(present, lambda i: (start(i), E.call(PhysicalDisk, fam.file(i), base(i), E.fun("dsize", i, lo=0))), n, count)
    vd = E.call(VirtualDisk, "name", "uuid", size, 10, layout, ss, n, dm)
    return fam, base, start, vd


def placement(E, near, far, fo, n, c):
    """(member, chunk row) of the first copy of chunk c."""
    slot = c * near
    row = slot // n
    return slot % n, (row * far if fo else row)


def mapping(E):
    near, far, fo, layout = layout_word(E, [0, 1, 2])
    n = E.int("n", 1, pick=between(2, 9))
    E.assume(near * far <= n)
    ss = E.int("ss", 1, pick=picks(1, 4, 16, 512, 24))
    size = E.int("size", 1, pick=lambda r: r.choice([ss * r.randint(1, 300), r.randint(1, 200 * ss)]))
    fam, base, start, vd = array(E, layout, n, ss, size)
    st = E.call(vd.open)

    def spec(p):
        c, o = p // ss, p % ss
        m, row = placement(E, near, far, fo, n, c)
        return fam.file(m).at(base(m) + start(m) + row * ss + o)

    check_stream(E, st, spec, size)


def refused(E):
    """Layout words with an undefined far-set mode never open."""
    near, far, fo, low = layout_word(E, [0])
    ufs = E.int("use_far_sets", 3, pick=picks(3, 4, 7, 100))
    n = E.int("n", 1, pick=between(2, 9))
    E.assume(near * far <= n)
    fam, base, start, vd = array(E, low + ufs * 131072, n, 512, 4096)
    out = E.attempt(vd.open)
    E.prove("undefined layout refused", not out.ok)


DRIVERS = [Driver("mapping", mapping, samples=1500), Driver("refused", refused)]
