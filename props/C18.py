"""C18: GPT tables list every used entry exactly once with its recorded extent."""
import itertools
from uuid import UUID

from dissect.volume.disk.schemes import GPT

from . import disks
from .common import Driver, picks

LEVEL = "proof"
ASSUMPTIONS = [
    "the table starts at position 0 of the handle and the device is long enough for every structure read",
    "an entry counts as used when its first LBA is not zero",
    "the protective MBR has no extended entries (chains are C17)",
    "known finding C18-size-inclusive: the recorded extent includes the last LBA, the size reported lacks one sector; the contract accepts both values and the finding is demonstrated separately",
]


def name_of(raw):
    return raw.decode("utf-16-le", "ignore").split("\x00")[0].strip("\x00").strip("￿")


def setup(E, pattern, sig=True):
    f = E.file("disk", endless=True)
    ss = E.int("ss", 1, pick=picks(512, 512, 4096, 2048))
    r = None if E.symbolic else E.rng
    if not E.symbolic:
        ents = []
        for c in pattern:
            ents.append({"-": (0, 0, 0, 0), "G": (0, 0xEE, r.choice([1, 1, 2, 3]), 999),
                         "O": (r.choice([0, 0x80]), r.choice([7, 0x83, 0xA5, 0xEF, 0xED]), r.randrange(1 << 20), r.randrange(1 << 20))}[c])
        disks.fill_record(E, f, 0, ents)
    E.call(f.seek, 0)
    disks.assume_mbr(E, f, 0)
    for i, c in enumerate(pattern):
        t = disks.entry(f, 0, i)[1]
        if c == "-":
            E.assume(t == 0)
        elif c == "G":
            E.assume(t == 0xEE)
        else:
            E.assume(E.And(t != 0, t != 0xEE, *[t != x for x in disks.EXTENDED]))
    return f, ss


def header(E, f, ss, pattern):
    hdr = disks.entry(f, 0, pattern.index("G"))[2] * ss
    if not E.symbolic:
        r = E.rng
        f.fill(hdr, b"EFI PART")
        f.filln(hdr + 72, 8, r.choice([hdr // ss + 1, hdr // ss + 2, r.randrange(2, 60)]))
        f.filln(hdr + 80, 4, r.choice([0, 1, 4, 128, r.randint(0, 12)]))
        f.filln(hdr + 84, 4, r.choice([128, 128, 256, 512, 136]))
    array = f.uint(hdr + 72, 8) * ss
    count = f.uint(hdr + 80, 4)
    esize = f.uint(hdr + 84, 4)
    if not E.symbolic:
        E.assume(count <= 300 and esize >= 128)
        E.assume(array >= hdr + 512 or array + count * esize <= hdr)
        E.assume(array >= 512)
        for i in range(count):
            p = array + i * esize
            used = r.random() < 0.6
            first = r.randrange(1, 1 << 33) if used else 0
            f.filln(p + 32, 8, first)
            f.filln(p + 40, 8, first + r.randrange(1, 1 << 30))
            f.fill(p, r.choice([bytes(range(16)), UUID("516E7CB4-6ECF-11D6-8FF8-00022D09712B").bytes_le]))
            nm = r.choice(["EFI system", "", "a" * 36, "päär", "x￿y"]).encode("utf-16-le")
            f.fill(p + 56, nm.ljust(72, b"\x00")[:72])
    return hdr, array, count, esize


def listing(patterns):
    def drv(E):
        pattern = E.choose("pattern", patterns)
        f, ss = setup(E, pattern)
        hdr, array, count, esize = header(E, f, ss, pattern)
        E.assume(E.And(*[f.at(hdr + k) == c for k, c in enumerate(b"EFI PART")]))

        def emit(i):
            p = array + i * esize
            first, last = f.uint(p + 32, 8), f.uint(p + 40, 8)
            if first == 0:
                return []
            return [(i + 1, first * ss, last - first, E.call(UUID, bytes_le=f.bytes_at(p, 16)), E.call(UUID, bytes_le=f.bytes_at(p + 16, 16)),
                     f.uint(p + 48, 8), name_of(f.bytes_at(p + 56, 72)), True)]

        def obs(p):
            g = lambda n: E.get(p, n)
            return (g("number"), g("offset"), g("size"), g("type"), g("guid"), g("flags"), g("name"), E.get(g("disk"), "fh") is f)

        def eq(a, b):
            # the size may or may not count the last sector (see the finding)
            return E.And(*[E.eq(x, y) for j, (x, y) in enumerate(zip(a, b)) if j != 2],
                         E.Or(a[2] == b[2] * ss, a[2] == (b[2] + 1) * ss))

        em = E.emitter("entries", emit, obs, eq)
        out = E.attempt(GPT, f, ss)
        E.prove("table accepted", out.ok)
        if not out.ok:
            return
        parts, seen = [], False
        for i, c in enumerate(pattern):
            flag, typ, first, n = disks.entry(f, 0, i)
            if c == "O":
                parts.append((first * ss, n * ss, typ, flag, True))
            elif c == "G" and not seen:
                seen = True
                parts.append(em.run(0, count))
        E.prove_list("partitions", E.get(out.value, "partitions"), parts, disks.mbr_obs(E, f))

    return drv


def refused(E):
    """No protective entry, or no signature where the protective entry points."""
    pattern = E.choose("pattern", ["----", "O---", "OOOO", "-O-O", "G---", "OG--", "GO-G"])
    f, ss = setup(E, pattern)
    if "G" in pattern:
        hdr = disks.entry(f, 0, pattern.index("G"))[2] * ss
        if not E.symbolic:
            s = bytearray(b"EFI PART")
            k = E.rng.randrange(8)
            s[k] ^= E.rng.randrange(1, 256)
            f.fill(hdr, bytes(s))
        E.assume(E.Or(*[f.at(hdr + k) != c for k, c in enumerate(b"EFI PART")]))
    out = E.attempt(GPT, f, ss)
    E.prove("refused", not out.ok)


def size_finding(E):
    """Finding: an entry from LBA 34 to 2081 (2048 sectors) is reported with 2047 sectors."""
    E.concrete_only()
    f = E.file("disk", endless=True)
    f.zero = True
    disks.fill_record(E, f, 0, [(0, 0xEE, 1, 999), (0, 0, 0, 0), (0, 0, 0, 0), (0, 0, 0, 0)])
    f.put(512, b"EFI PART")
    for p, w, v in ((512 + 72, 8, 2), (512 + 80, 4, 1), (512 + 84, 4, 128), (1024 + 32, 8, 34), (1024 + 40, 8, 2081)):
        f.put(p, v.to_bytes(w, "little"))
    f.seek(0)
    E.prove_eq("size of the recorded extent", E.call(GPT, f, 512).partitions[0].size, 2048 * 512)


every = ["".join(p) for p in itertools.product("-GO", repeat=4) if "G" in p]
DRIVERS = [Driver("single", listing(["G---"]), samples=400)]
for _k in range(5):
    DRIVERS.append(Driver(f"hybrid-{_k}", listing(every[_k::5]), samples=80, budget=300))
DRIVERS += [Driver("refused", refused), Driver("size-inclusive", size_finding, finding="C18-size-inclusive", symbolic=False)]
