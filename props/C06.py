"""C06: MD superblocks are found at every standard place and decoded per the format."""
from uuid import UUID

from dissect.util import ts
from dissect.volume.md.md import MDPhysicalDisk

from .common import Driver

LEVEL = "proof"
ASSUMPTIONS = [
    "at most one of the four standard positions carries the magic, and the superblock there is complete (inside the device)",
    "time stamps are before the year 6300 (representable as datetime); conversion of a number of microseconds by dissect.util.ts is not verified",
    "text decoding and UUID construction of CPython are uninterpreted functions in the proof",
]
MAGIC = 0xA92B4EFC
DESC, THIS = 512, 3968


def device(E):
    """A device and the four standard superblock positions (in sectors, negative: does not exist)."""
    small = [0, 1, 8, 9, 16, 17, 24, 31, 127, 128, 129, 255, 256, 257, 263]
    n = E.int("sectors", 0, pick=lambda r: r.choice(small + [r.randrange(300, 5000), r.randrange(1 << 20), r.randrange(1 << 40)]))
    rest = E.int("rest", 0, 511, pick=lambda r: r.choice([0, 0, 1, 511]))
    f = E.file("dev", n * 512 + rest, has_size=E.choose("size attribute", [True, False]))
    return f, n, [n // 128 * 128 - 128, (n - 16) // 8 * 8, 0, 8]


def marked(E, f, n, places, where):
    """The magic is at place number ``where`` (or nowhere) and at no other standard position."""
    for k, s in enumerate(places):
        has = E.And(s >= 0, (s * 512 + 12) <= f.fsize, f.uint(s * 512, 4) == MAGIC)
        if where is None:
            E.assume(E.Not(has))
        elif k == where:
            E.assume(has)
        else:
            E.assume(E.Implies(has, s == places[where]))


def same_time(E, a, us):
    b = E.call(ts.from_unix_us, us)
    if E.symbolic:
        return E.eq(a, b)
    return abs((a - b).total_seconds()) < 2e-6


def stamp(r):
    return r.choice([0, 1, r.randrange(1 << 31), r.randrange(1 << 31) | r.randrange(1000000) << 40, r.randrange(1 << 37)])


def version1(E):
    f, n, places = device(E)
    where = E.choose("where", [0, 1, 2, 3])
    b = places[where] * 512
    if not E.symbolic:
        r = E.rng
        E.assume(b >= 0)
        f.filln(b, 4, MAGIC)
        f.filln(b + 4, 4, 1)
        f.fill(b + 32, r.choice([b"host:0", b"", b"x" * 32, b"h\xff:1\x00junk", "hôte:data".encode()]).ljust(32, b"\x00"))
        f.filln(b + 64, 8, stamp(r))
        f.filln(b + 192, 8, stamp(r))
        f.filln(b + 72, 4, r.choice([0xFFFFFFFF, 0, 1, 4, 5, 6, 10]))
        md = r.choice([1, 2, 5, 128, 384])
        f.filln(b + 220, 4, md)
        d = r.choice([0, r.randrange(md), md - 1, md, md + 3])
        f.filln(b + 160, 4, d)
        for i in range(md):
            f.filln(b + 256 + 2 * i, 2, r.choice([0, 1, i, 0xFFFF, 0xFFFE, 0xFFFD, 0xFF00, 0xFF01, 0xFEFF]))
    marked(E, f, n, places, where)
    u = lambda o, w: f.uint(b + o, w)
    E.assume(E.And(u(4, 4) == 1, b + 256 + 2 * u(220, 4) <= f.fsize))
    E.assume(E.And(u(64, 8) % (1 << 40) < 1 << 37, u(192, 8) % (1 << 40) < 1 << 37))
    d = E.call(MDPhysicalDisk, f)
    g = lambda name: E.get(d, name)
    common(E, d, f)
    E.prove_eq("set identity", g("set_uuid"), E.call(UUID, bytes_le=f.bytes_at(b + 16, 16)))
    E.prove_eq("set name", g("set_name"), f.bytes_at(b + 32, 32).split(b"\x00", 1)[0].decode(errors="surrogateescape"))
    E.prove_eq("device identity", g("device_uuid"), E.call(UUID, bytes_le=f.bytes_at(b + 168, 16)))
    E.prove_eq("event count", g("events"), u(200, 8))
    E.prove_eq("level", g("level"), f.uint(b + 72, 4, "le", True))
    E.prove_eq("layout", g("layout"), u(76, 4))
    E.prove_eq("chunk size", g("chunk_size"), u(88, 4) * 512)
    E.prove_eq("chunk sectors", g("chunk_sectors"), u(88, 4))
    E.prove_eq("number of members", g("raid_disks"), u(92, 4))
    E.prove_eq("data offset", g("offset"), u(128, 8) * 512)
    E.prove_eq("data size", g("size"), u(136, 8) * 512)
    E.prove_eq("device number", g("dev_number"), u(160, 4))
    micro = lambda v: v % (1 << 40) * 1000000 + v // (1 << 40)
    E.prove("creation time", same_time(E, g("creation_time"), micro(u(64, 8))))
    E.prove("update time", same_time(E, g("update_time"), micro(u(192, 8))))
    num, maxdev = u(160, 4), u(220, 4)
    role = f.uint(b + 256 + 2 * num, 2)
    if E.And(num < maxdev, role <= 0xFF00):
        E.prove_eq("role of an active member", g("raid_disk"), role)
    else:
        E.prove("no role for spare, faulty and journal devices", g("raid_disk") is None)


def common(E, d, f):
    E.prove("handle", E.get(d, "fh") is f)


def version0(E):
    f, n, places = device(E)
    b = places[0] * 512
    if not E.symbolic:
        r = E.rng
        E.assume(b >= 0)
        f.filln(b, 4, MAGIC)
        f.filln(b + 4, 4, 0)
        f.filln(b + 8, 4, r.choice([90, 90, 91]))
        f.filln(b + 28, 4, r.choice([0xFFFFFFFF, 0, 1, 4, 5, 6, 10]))
        f.filln(b + 260, 4, r.choice([0, 4096, 65536]))
        d = r.randrange(27)
        f.filln(b + THIS, 4, d)
        f.filln(b + DESC + 128 * d + 12, 4, r.choice([0, 1, d, 0xFFFFFFFF]))
        f.filln(b + DESC + 128 * d + 16, 4, r.choice([6, 6, 6, 0, 1, 2, 8, 9, 7, 0x206]))
    marked(E, f, n, places, 0)
    u = lambda o, w=4: f.uint(b + o, w)
    E.assume(E.And(u(4) == 0, b + 4096 <= f.fsize, u(THIS) < 27))
    d = E.call(MDPhysicalDisk, f)
    g = lambda name: E.get(d, name)
    common(E, d, f)
    ident = f.bytes_at(b + 20, 4) + f.bytes_at(b + 52, 4) + f.bytes_at(b + 56, 4) + f.bytes_at(b + 60, 4)
    E.prove_eq("set identity", g("set_uuid"), E.call(UUID, bytes_le=ident))
    E.prove("no set name", g("set_name") is None)
    E.prove("no device identity", g("device_uuid") is None)
    E.prove_eq("event count", g("events"), u(160) * (1 << 32) + u(156))
    E.prove_eq("level", g("level"), f.uint(b + 28, 4, "le", True))
    E.prove_eq("layout", g("layout"), u(256))
    E.prove_eq("chunk size", g("chunk_size"), u(260))
    E.prove_eq("chunk sectors", g("chunk_sectors"), u(260) // 512)
    E.prove_eq("number of members", g("raid_disks"), u(40))
    E.prove_eq("data offset", g("offset"), 0)
    E.prove_eq("data size", g("size"), b)
    E.prove_eq("device number", g("dev_number"), u(THIS))
    E.prove("creation time", same_time(E, g("creation_time"), u(24) * 1000000))
    E.prove("update time", same_time(E, g("update_time"), u(128) * 1000000))
    at = DESC + 128 * u(THIS)
    state = u(at + 16)
    bit = lambda k: state // (1 << k) % 2 == 1
    faulty, active, sync = bit(0), bit(1), bit(2)
    if E.And(E.Not(faulty), E.Or(sync, E.And(active, u(8) >= 91))):
        E.prove_eq("role of an active member", g("raid_disk"), u(at + 12))
    else:
        E.prove("no role for spare and faulty devices", g("raid_disk") is None)


def refused(E):
    f, n, places = device(E)
    if not E.symbolic:
        r = E.rng
        if r.random() < 0.4:
            # the magic in a place where it does not count
            s = r.choice(places) + r.choice([-8, -1, 1, 8])
            if s >= 0:
                f.filln(s * 512, 4, MAGIC)
                f.filln(s * 512 + 4, 4, 1)
        elif r.random() < 0.5 and r.choice(places) >= 0:
            f.filln(max(0, r.choice(places)) * 512, 4, MAGIC ^ (1 << r.randrange(32)))
    marked(E, f, n, places, None)
    E.prove("refused", E.attempt(MDPhysicalDisk, f).raised(Exception))


def version_unknown(E):
    f, n, places = device(E)
    where = E.choose("where", [0, 1, 2, 3])
    b = places[where] * 512
    if not E.symbolic:
        E.assume(b >= 0)
        f.filln(b, 4, MAGIC)
        f.filln(b + 4, 4, E.rng.choice([2, 3, 0xFFFFFFFF, 0x100]))
    marked(E, f, n, places, where)
    E.assume(E.And(f.uint(b + 4, 4) > 1, b + 4096 <= f.fsize))
    E.prove("unknown version refused", E.attempt(MDPhysicalDisk, f).raised(Exception))


DRIVERS = [
    Driver("version-1", version1, samples=500),
    Driver("version-0.90", version0, samples=400),
    Driver("no-superblock", refused, samples=400),
    Driver("unknown-version", version_unknown, samples=100),
]
