"""C19: Apple and BSD partition tables list every entry at its recorded extent."""
from uuid import UUID

from dissect.volume.disk.schemes import APM, BSD
from dissect.volume.exceptions import DiskError

from .common import Driver, picks

LEVEL = "proof"
ASSUMPTIONS = [
    "the device is long enough for every structure read; Apple names and types are valid UTF-8",
    "32-bit labels have at least the three standard entries; entries that start before the label's own area are unusable and not listed (as FreeBSD does)",
    "Apple maps use blocks of 512 bytes (known finding C19-apm-block-size otherwise)",
]
MAGIC32, MAGIC64 = 0x82564557, 0xC4464C59


def be(f, p, w):
    return f.uint(p, w, "be")


def text(raw):
    return raw.rstrip(b"\x00").decode()


def apm_fill(E, f, first, count):
    r = E.rng
    for i in range(count):
        p = first + 512 * i
        f.fill(p, b"PM")
        f.filln(p + 4, 4, count if i == 0 else r.randrange(99), "be")
        f.filln(p + 8, 4, r.randrange(1 << 32), "be")
        f.filln(p + 12, 4, r.randrange(1 << 32), "be")
        f.fill(p + 16, r.choice([b"", b"disk image", b"x" * 32, b"a b"]).ljust(32, b"\x00"))
        f.fill(p + 48, r.choice([b"Apple_HFS", b"Apple_partition_map", b"Apple_Free", b""]).ljust(32, b"\x00"))


def apm(E):
    jump = E.choose("jump", [False, True])
    f = E.file("disk", endless=True)
    ss = E.int("ss", 1, pick=picks(512, 512, 2048, 4096))
    start = 0 if jump else E.int("start", 0, pick=picks(0, 512, 1 << 20, 77))
    first = 512 if jump else start
    if not E.symbolic:
        if jump:
            f.fill(0, b"ER\x02\x00")
        apm_fill(E, f, first, E.rng.choice([1, 2, 3, 5, 40]))
    if jump:
        E.assume(f.bytes_at(0, 2) == b"ER")
        E.assume(be(f, 2, 2) == 512)
    E.assume(f.bytes_at(first, 2) == b"PM")
    count = be(f, first + 4, 4)
    if not E.symbolic:
        E.assume(count < 1000)

    def emit(i):
        p = first + 512 * i
        return [(i + 1, be(f, p + 8, 4) * ss, be(f, p + 12, 4) * ss, text(f.bytes_at(p + 48, 32)), text(f.bytes_at(p + 16, 32)), True)]

    def obs(p):
        g = lambda n: E.get(p, n)
        return (g("number"), g("offset"), g("size"), g("type"), g("name"), E.get(g("disk"), "fh") is f)

    em = E.emitter("entries", emit, obs)
    E.pair_hint("entries consumed, the first one early", lambda a, b, a0, b0: b == first + 512 * E.max(a, 1))
    E.call(f.seek, start)
    out = E.attempt(APM, f, ss)
    E.prove("map accepted", out.ok)
    if out.ok:
        E.prove_list("partitions", E.get(out.value, "partitions"), [em.run(0, count)])


def apm_refused(E):
    """Neither a map entry nor a jump to one."""
    jump = E.choose("jump", [False, True])
    f = E.file("disk", endless=True)
    ss = E.int("ss", 1, pick=picks(512, 2048))
    start = E.int("start", 0, pick=picks(0, 0, 512, 77))
    if not E.symbolic:
        r = E.rng
        bad = r.choice([b"MP", b"PN", b"\x00\x00", b"ER", b"TS", b"QM", b"pm"])
        f.fill(start, b"ER" if jump else bad)
        if jump:
            f.fill(start + 2, r.choice([512, 1024, 2048]).to_bytes(2, "big"))
            f.fill(be(f, start + 2, 2), bad)
    if jump:
        E.assume(f.bytes_at(start, 2) == b"ER")
        E.assume(E.Not(f.bytes_at(be(f, start + 2, 2), 2) == b"PM"))
    else:
        E.assume(E.Not(f.bytes_at(start, 2) == b"PM"))
        E.assume(E.Not(f.bytes_at(start, 2) == b"ER"))
    E.call(f.seek, start)
    E.prove("refused", E.attempt(APM, f, ss).raised(DiskError))


def apm_block_size(E):
    """Finding: a map on a device with 2048 byte blocks (entries in blocks 1 and 2)."""
    E.concrete_only()
    f = E.file("disk", endless=True)
    f.zero = True
    f.put(0, b"ER\x08\x00")
    for i in (1, 2):
        f.put(2048 * i, b"PM\x00\x00" + (2).to_bytes(4, "big") + (10 * i).to_bytes(4, "big") + (5).to_bytes(4, "big") + b"part".ljust(32, b"\x00") + b"Apple_HFS".ljust(32, b"\x00"))
    f.seek(0)
    got = [(p.offset, p.size, p.type) for p in E.call(APM, f, 2048).partitions]
    E.prove_eq("entries of a map with 2048 byte blocks", got, [(20480, 10240, "Apple_HFS"), (40960, 10240, "Apple_HFS")])


def label(bits):
    def drv(E):
        f = E.file("disk", endless=True)
        ss = E.int("ss", 1, pick=picks(512, 512, 2048, 4096))
        start = E.int("start", 0, pick=picks(0, 0, 512, 32256, 77))
        lab = start + ss
        tab, width = (lab + 148, 16) if bits == 32 else (lab + 200, 64)
        npos, nw = (lab + 138, 2) if bits == 32 else (lab + 12, 4)
        if not E.symbolic:
            fill_label(E, f, bits, lab, tab, width)
        E.assume(f.uint(lab, 4) == (MAGIC32 if bits == 32 else MAGIC64))
        n = f.uint(npos, nw)
        if bits == 32:
            E.assume(f.uint(lab + 132, 4) == MAGIC32)
            E.assume(n >= 3)
            base = f.uint(tab + 2 * 16 + 4, 4)
        if not E.symbolic:
            E.assume(n < 600)

        def emit(i):
            p = tab + width * i
            if i == 2:
                return []
            if bits == 32:
                size, off, fs = f.uint(p, 4), f.uint(p + 4, 4), f.at(p + 12)
                if E.Or(size == 0, fs == 0, off < base):
                    return []
                return [(i + 1, (off - base) * ss, size * ss, fs, None, True)]
            off, size, fs = f.uint(p, 8), f.uint(p + 8, 8), f.at(p + 16)
            if E.Or(E.And(off == 0, size == 0), fs == 0):
                return []
            return [(i + 1, off, size, fs, E.call(UUID, bytes_le=f.bytes_at(p + 48, 16)), True)]

        def obs(p):
            g = lambda n: E.get(p, n)
            return (g("number"), g("offset"), g("size"), g("type"), g("guid"), E.get(g("disk"), "fh") is f)

        em = E.emitter("entries", emit, obs)
        E.call(f.seek, start)
        out = E.attempt(BSD, f, ss)
        E.prove("label accepted", out.ok)
        if out.ok:
            E.prove_list("partitions", E.get(out.value, "partitions"), [em.run(0, n)])

    return drv


def fill_label(E, f, bits, lab, tab, width):
    r = E.rng
    n = r.choice([3, 8, 16, 8, 22, 4])
    f.filln(lab, 4, MAGIC32 if bits == 32 else MAGIC64)
    if bits == 32:
        f.filln(lab + 132, 4, MAGIC32)
        f.filln(lab + 138, 2, n)
    else:
        f.filln(lab + 12, 4, n)
    base = r.choice([0, 63, r.randrange(1 << 20)])
    for i in range(max(n, 3)):
        p = tab + width * i
        fs = r.choice([0, 7, 7, 1, 27, 14, 200])
        if bits == 32:
            f.filln(p, 4, r.choice([0, r.randrange(1 << 32), r.randrange(1 << 32)]))
            f.filln(p + 4, 4, base if i == 2 else r.choice([base, base + r.randrange(1 << 20), base + 1, max(0, base - 1), r.randrange(1 << 32)]))
            f.fill(p + 12, bytes([fs]))
        else:
            f.filln(p, 8, r.choice([0, r.randrange(1 << 44)]))
            f.filln(p + 8, 8, r.choice([0, r.randrange(1 << 44)]))
            f.fill(p + 16, bytes([fs]))


def bsd_refused(E):
    f = E.file("disk", endless=True)
    ss = E.int("ss", 1, pick=picks(512, 2048))
    start = E.int("start", 0, pick=picks(0, 0, 512, 77))
    lab = start + ss
    half = E.choose("half", [False, True])
    if not E.symbolic:
        f.filln(lab, 4, MAGIC32 if half else E.rng.choice([MAGIC32 + 1, MAGIC64 - 1, 0, MAGIC32 & 0xFFFFFF]))
    if half:
        E.assume(f.uint(lab, 4) == MAGIC32)
        E.assume(f.uint(lab + 132, 4) != MAGIC32)
    else:
        E.assume(E.And(f.uint(lab, 4) != MAGIC32, f.uint(lab, 4) != MAGIC64))
    E.call(f.seek, start)
    E.prove("refused", E.attempt(BSD, f, ss).raised(DiskError))


DRIVERS = [
    Driver("apm", apm),
    Driver("apm-refused", apm_refused),
    Driver("apm-block-size", apm_block_size, finding="C19-apm-block-size", symbolic=False),
    Driver("bsd32", label(32), samples=500),
    Driver("bsd64", label(64), samples=500),
    Driver("bsd-refused", bsd_refused),
]
