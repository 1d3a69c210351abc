"""C14: LVM2 labels, headers and metadata areas are located and decoded as recorded."""
from dissect.volume.lvm import physical
from dissect.volume.lvm.physical import LVM2Device

from . import utilstreams
from .common import Driver, check_stream, picks

LEVEL = "proof"
ASSUMPTIONS = [
    "a physical volume has at most two metadata areas and a metadata area at most two raw locations (what LVM2 writes); lists of data areas are of any length",
    "the metadata area used is well-formed: its header records its own position, and the text lies in the area after the 512-byte header",
    "the identity is ASCII text",
    "checksums, the label type and the recorded label sector are not part of the property",
    "text decoding of CPython is an uninterpreted function in the proof; parse_metadata (C15) is replaced by the text it is given",
]
SECTOR = 512


def labelled(E, f):
    """The first label is in sector k; returns the position of the header it points to."""
    k = E.choose("label sector", [0, 1, 2, 3])
    if not E.symbolic:
        r = E.rng
        f.fill(k * SECTOR, b"LABELONE")
        f.filln(k * SECTOR + 20, 4, r.choice([32, 32, 32, 40, 200, 512 + 32, 4096]))
        for j in range(4):
            if j != k:
                f.fill(j * SECTOR, r.choice([b"\0" * 8, b"LABELTWO", b"labelone", b"XLABELON", b"LABELONE" if j > k else b"LABELONF"]))
    for j in range(k):
        E.assume(E.Not(f.bytes_at(j * SECTOR, 8) == b"LABELONE"))
    E.assume(f.bytes_at(k * SECTOR, 8) == b"LABELONE")
    return E.let("header", k * SECTOR + f.uint(k * SECTOR + 20, 4))


def header(E, f, at, copies):
    """A header with one data area and ``copies`` metadata areas."""
    u = f.uint
    if not E.symbolic:
        r = E.rng
        f.fill(at, bytes(r.choice(b"abcXYZ019") for _ in range(32)))
        f.filln(at + 32, 8, r.choice([0, 512, 4096, 65536, 1 << 20, r.randrange(1 << 40), 1 << 50]))
        f.filln(at + 40, 8, r.choice([512, 1 << 20, 1 << 30, 5 << 40, 0]))
        f.filln(at + 48, 8, r.choice([0, 0, 0, 1, 1 << 20]))
        for j in range(2, 6):
            f.fill(at + 24 + 16 * j, bytes(16))
        for j in range(copies):
            f.filln(at + 72 + 16 * j, 8, r.choice([16384, 65536, 1 << 32]) + 1048576 * 8 * j)
            f.filln(at + 80 + 16 * j, 8, r.choice([0, 8192, 1 << 20]))
    E.assume(E.And(*[f.at(at + j) < 128 for j in range(32)]))
    entry = lambda p, w=8, n=2: E.Or(*[u(p + w * i, w) != 0 for i in range(n)])
    E.assume(E.And(entry(at + 40), E.Not(entry(at + 56))))
    for j in range(copies):
        E.assume(entry(at + 72 + 16 * j))
    E.assume(E.Not(entry(at + 72 + 16 * copies)))


def text(r, n):
    """Metadata of n bytes."""
    out = "a = 1\n"
    while len(out.encode()) < n:
        out += r.choice(["# comment\n", "b {\n c = 2\n}\n", "\n", "# é€\n", 'd = "x"\n'])
    out = out.encode()[:n].decode(errors="ignore")
    # cut back to whole lines
    out = out[: out.rindex("\n") + 1] if "\n" in out else ""
    while out.count("{") > out.count("}"):
        out = out[: out.rindex("b {")]
    return out + "\n" * (n - len(out.encode()))


def area(E, f, at, j, locations):
    """The metadata area at ``at`` with that many raw locations."""
    u = f.uint
    if not E.symbolic:
        r = E.rng
        size = r.choice([1024, 4096, 1 << 16, 1 << 20])
        f.filln(at + 24, 8, at)
        f.filln(at + 32, 8, size)
        for i in range(3):
            f.fill(at + 40 + 24 * i, bytes(24))
        for i in reversed(range(locations)):
            n = r.choice([1, 2, 8, 100, 500, 512])
            off = r.choice([512, size - n, size - n + 1, size - n // 2, size - 1, r.randrange(512, size), size // 2 // 512 * 512])
            off = max(512, min(size - 1, off))
            n = min(n, size - 512)
            f.filln(at + 40 + 24 * i, 8, off)
            f.filln(at + 48 + 24 * i, 8, n)
            f.filln(at + 56 + 24 * i, 4, r.choice([0, r.randrange(1 << 32)]))
            f.filln(at + 60 + 24 * i, 4, r.choice([0, 0, 1, 2, 3]))
            f.fill(at + (off if off < size else 512), b"")
            for k, c in enumerate(text(r, n - 1).encode() + b"\0"):
                f.fill(at + (off + k if off + k < size else off + k - size + 512), bytes([c]))
    for i in range(locations + 1):
        p = at + 40 + 24 * i
        some = E.Or(u(p, 8) != 0, u(p + 8, 8) != 0, u(p + 16, 4) != 0, u(p + 20, 4) != 0)
        E.assume(some if i < locations else E.Not(some))


def located(E):
    f = E.file("dev", endless=True)
    h = labelled(E, f)
    copies = E.choose("metadata areas", [0, 1, 2])
    header(E, f, h, copies)
    at = [f.uint(h + 72 + 16 * j, 8) for j in range(copies)]
    locs = [E.choose(f"locations {j}", [0, 1, 2]) for j in range(copies)]
    for j in range(copies):
        area(E, f, at[j], j, locs[j])
    dev = E.call(LVM2Device, f)
    g = lambda name: E.get(dev, name)
    E.prove("handle", g("fh") is f)
    E.prove_eq("identity", g("id"), f.bytes_at(h, 32).decode())
    E.prove_eq("size", g("size"), f.uint(h + 32, 8))
    if E.symbolic and hasattr(physical, "parse_metadata"):
        E.contract(physical.parse_metadata, lambda E, s: {"_raw": s})
    used = None
    for j in range(copies):
        if locs[j] and f.uint(at[j] + 60, 4) % 2 == 0:
            used = j
            break
    if used is None:
        E.prove("no metadata without a used metadata area", g("metadata") is None)
        return
    m = at[used]
    size, off, n = f.uint(m + 32, 8), f.uint(m + 40, 8), f.uint(m + 48, 8)
    E.assume(E.And(f.uint(m + 24, 8) == m, off >= 512, off < size, n >= 1, n <= size - 512))
    md = E.get(dev, "metadata")
    raw = E.encoded(md["_raw"])
    E.prove_bytes("metadata text", raw, n - 1, lambda k: f.at(m + E.ite(off + k < size, off + k, off + k - size + 512)))


def one_area(E):
    f = E.file("dev", endless=True)
    h = labelled(E, f)
    header(E, f, h, 0)
    off, size = f.uint(h + 40, 8), f.uint(h + 32, 8)
    return f, off, size, E.call(LVM2Device, f)


def opened(E):
    f, off, size, dev = one_area(E)
    E.assume(E.And(off % SECTOR == 0, size % SECTOR == 0, size > 0))
    check_stream(E, E.call(dev.open), lambda p: f.at(off + p), size)


def sectors(E):
    f, off, size, dev = one_area(E)
    E.assume(E.And(off % SECTOR == 0, f.uint(dev_area(E, f) + 8, 8) == 0))
    s = E.int("sector", 0, pick=picks(0, 0, 1, 7, 100))
    n = E.int("count", 0, pick=picks(0, 1, 2, 8))
    E.assume((s + n) * SECTOR <= size)
    data = E.call(dev.read_sectors, s, n)
    E.prove_bytes("sectors of the data area", data, n * SECTOR, lambda k: f.at(off + s * SECTOR + k))


def dev_area(E, f):
    for k in range(4):
        if f.bytes_at(k * SECTOR, 8) == b"LABELONE":
            return k * SECTOR + f.uint(k * SECTOR + 20, 4) + 40


def no_label(E):
    n = E.int("size", 0, pick=picks(0, 1, 31, 32, 511, 512, 600, 1600, 2047, 2048, 4096, 100000))
    f = E.file("dev", n, has_size=E.choose("size attribute", [True, False]))
    if not E.symbolic:
        r = E.rng
        for p in (4 * SECTOR, 8, 2 * SECTOR + 8, SECTOR - 8):
            if r.random() < 0.5 and p + 8 < n:
                f.fill(p, b"LABELONE")
        for p in range(0, 4 * SECTOR, SECTOR):
            if p + 8 < n:
                f.fill(p, r.choice([b"LABELON\0", b"\0" * 8, b"LABEL2NE", b"labelone"]))
    for k in range(4):
        E.assume(E.Not(E.And(k * SECTOR + 8 <= n, f.bytes_at(k * SECTOR, 8) == b"LABELONE")))
    E.prove("refused", E.attempt(LVM2Device, f).raised(Exception))


def bad_areas(E):
    f = E.file("dev", endless=True)
    h = labelled(E, f)
    entry = lambda p: E.Or(f.uint(p, 8) != 0, f.uint(p + 8, 8) != 0)
    many = E.choose("number of data areas", ["none", "several"]) == "several"
    if not E.symbolic:
        r = E.rng
        n = r.choice([2, 2, 3, 4, 7]) if many else 0
        for j in range(16):
            f.fill(h + 40 + 16 * j, bytes(16))
        for j in range(n):
            f.filln(h + 40 + 16 * j + r.choice([0, 8]), 8, r.choice([1, 512, 1 << 20, 1 << 63]))
    E.assume(E.And(entry(h + 40), entry(h + 56)) if many else E.Not(entry(h + 40)))
    E.prove("refused", E.attempt(LVM2Device, f).raised(Exception))


DRIVERS = [
    Driver("located", located, samples=800, budget=300),
    Driver("open", opened, samples=200, inline=3),
    Driver("read-sectors", sectors, samples=200, inline=3),
    Driver("no-label", no_label, samples=300),
    Driver("data-areas", bad_areas, samples=200),
    *utilstreams.ALIGNED,
    *utilstreams.RUNLIST,
]
