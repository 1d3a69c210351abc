"""C08: DDF metadata sections are parsed record by record as laid out on disk."""
from dissect.util import ts
from dissect.volume.ddf.ddf import DDFPhysicalDisk
from dissect.volume.exceptions import DDFError

from . import ddfs
from .common import Driver, picks

LEVEL = "proof"
ASSUMPTIONS = [
    "every structure lies inside the device; virtual disk names are valid in the encoding their flag announces (text decoding and time conversion are uninterpreted functions in the proof)",
    "the disk's own reference occurs in exactly one physical disk record",
    "known finding C08-record-holes: populated physical/virtual disk records are taken to be the first ones of their section",
]
NAMES = [b"", b"volume", b"x" * 16, b"ab\x00junk"]


def setup(E):
    """A device; returns (file, sector size, anchor position, anchor)."""
    ss = E.int("ss", 1, pick=picks(512, 512, 4096))
    sectors = E.int("sectors", 1, pick=lambda r: r.choice([1000, 4000, 1 << 31]))
    rest = E.int("rest", 0, pick=lambda r: r.choice([0, 0, 0, 7]))
    size = sectors * ss + rest
    f = E.file("dev", size, endless=True)
    at = size - ss
    if not E.symbolic:
        r = E.rng
        f.zero = r.random() < 0.3
        cuts = sorted(r.sample(range(1, 120), 5))
        order = ["controller", "pdr", "vdr", "conf", "pdd"]
        r.shuffle(order)
        place = {k: c + 40 * (i + 1) for i, (k, c) in enumerate(zip(order, cuts))}
        reclen = r.choice([2, 2, 1, 3])
        base = r.choice([0, 1, 100, sectors - 700 if sectors > 1500 else 0])
        place.update(guid=r.choice([b"DDF-A", b"DDF-B"]).ljust(24, b"*"), primary=base, secondary=r.choice([(1 << 64) - 1, base + 8, 3]),
                     reclen=reclen, conflen=reclen * r.randrange(6) + r.choice([0, 0, reclen - 1]), mppe=r.choice([0, 1, 3, 16, 40]))
        ddfs.put_header(f, at, **place)
    h = ddfs.Header(f, at)
    return f, ss, at, h


def fill(E, f, ss, h):
    """Sections of a sample."""
    r = E.rng
    base = h.primary * ss
    n = lambda p, w, v: f.filln(p, w, v, "be")
    n(base + h.controller * ss, 4, ddfs.CONTROLLER)
    n(base + h.pdd * ss, 4, ddfs.PDD)
    p = base + h.pdr * ss
    count = r.choice([1, 1, 2, 5, 20])
    n(p, 4, ddfs.PDR)
    n(p + 8, 2, count)
    n(p + 10, 2, max(count, 8))
    refs = r.sample([0, 1, 7, 0xFFFFFFFE, 0x12345678, *range(100, 130)], count)
    for i, x in enumerate(refs):
        n(p + 64 + 64 * i + 24, 4, x)
        n(p + 64 + 64 * i + 58, 2, r.choice([512, 4096, 0xFFFF]))
    n(base + h.pdd * ss + 32, 4, r.choice(refs))
    p = base + h.vdr * ss
    count = r.choice([0, 1, 2, 7])
    n(p, 4, ddfs.VDR)
    n(p + 8, 2, count)
    n(p + 10, 2, max(count, 8))
    for i in range(count):
        flags = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 12])
        n(p + 64 + 64 * i + 28, 4, flags)
        nm = r.choice([*NAMES, "dåta".encode()] if flags & 4 else NAMES)
        f.fill(p + 64 + 64 * i + 48, nm.ljust(16, b"\x00"))
    p = base + h.conf * ss
    for i in range(h.conflen // max(h.reclen, 1)):
        q = p + i * h.reclen * ss
        kind = r.choice(["vd", "vd", "vd", "ff", "spare", "junk"])
        f.fill(q, b"\xff" * 512) if kind == "ff" else n(q, 4, {"vd": ddfs.VDCR, "spare": 0x55555555, "junk": 0}[kind])
        if kind != "ff":
            n(q + 64, 2, r.choice([0, 1, 2, h.mppe, max(h.mppe - 1, 0)]))


def signatures(E, f, ss, h):
    base = h.primary * ss
    return E.And(ddfs.be(f, base + h.controller * ss, 4) == ddfs.CONTROLLER, ddfs.be(f, base + h.pdr * ss, 4) == ddfs.PDR,
                 ddfs.be(f, base + h.vdr * ss, 4) == ddfs.VDR, ddfs.be(f, base + h.pdd * ss, 4) == ddfs.PDD)


class PD:
    """A physical disk record as the contract describes it."""

    def __init__(self, f, p):
        u = lambda o, w: f.uint(p + o, w, "be")
        self.guid, self.reference, self.type, self.state, self.size = f.bytes_at(p, 24), u(24, 4), u(28, 2), u(30, 2), u(32, 8)
        self.path_information, self.block_size = f.bytes_at(p + 40, 18), u(58, 2)


PD_ATTRS = ("guid", "reference", "type", "state", "size", "path_information", "block_size")
VC_ATTRS = (("primary_element_count", 64, 2), ("strip_size", 66, 1), ("primary_raid_level", 67, 1), ("raid_level_qualifier", 68, 1),
            ("secondary_element_count", 69, 1), ("secondary_element_seq", 70, 1), ("secondary_raid_level", 71, 1), ("size", 80, 8),
            ("block_size", 88, 2), ("rotate_parity_count", 90, 1), ("sequence_number", 36, 4))


def stamp(E, sec):
    return E.call(ts.from_unix, ddfs.DECADE + sec)


def member(E):
    f, ss, at, h = setup(E)
    E.assume(E.And(h.signature == ddfs.HEADER, h.reclen > 0))
    if not E.symbolic:
        fill(E, f, ss, h)
    E.assume(signatures(E, f, ss, h))
    base = h.primary * ss
    u = lambda p, w: f.uint(p, w, "be")
    pdr, vdr, conf, pdd = (base + x * ss for x in (h.pdr, h.vdr, h.conf, h.pdd))
    npd, nvd = u(pdr + 8, 2), u(vdr + 8, 2)
    ref = u(pdd + 32, 4)
    # the record of this disk: unique
    me = E.int("me", 0, 65535, pick=lambda r: -1) if E.symbolic else next(i for i in range(npd) if u(pdr + 64 * i + 88, 4) == ref)
    E.assume(E.And(me < npd, u(pdr + 64 * me + 88, 4) == ref))
    if E.symbolic:
        E.term_hint("own record", me)

    def pd(i):
        r = PD(f, pdr + 64 + 64 * i)
        if E.symbolic:
            E.assume(E.Or(i == me, E.Not(r.reference == ref)))
        return r

    g = lambda o, names: tuple(E.get(o, x) for x in names)
    pds = E.emitter("physical disk records", lambda i: [g(pd(i), PD_ATTRS)], lambda o: g(o, PD_ATTRS), make=pd)

    def vd(i):
        p = vdr + 64 + 64 * i
        fl = u(p + 28, 4)
        raw = f.bytes_at(p + 48, 16).split(b"\x00")[0]
        name = raw.decode("utf-8") if fl // 4 % 2 == 1 else raw.decode("ascii")
        return [(f.bytes_at(p, 24), u(p + 24, 2), fl, u(p + 32, 1), u(p + 33, 1), name)]

    vds = E.emitter("virtual disk records", vd, lambda o: g(o, ("guid", "number", "type", "state", "init_state", "name")))
    step = h.reclen * ss
    J = E.int("element", 0, 65535, pick=lambda r: r.randrange(20))

    def vc(i):
        p = conf + i * step
        if u(p, 4) != ddfs.VDCR:
            return []
        inside = E.And(J < u(p + 64, 2), J < h.mppe)
        return [(f.bytes_at(p + 8, 24), stamp(E, f.uint(p + 24, 4, "le")), stamp(E, u(p + 32, 4)), *[u(p + o, w) for _, o, w in VC_ATTRS],
                 (inside, u(p + 512 + 4 * J, 4)), (inside, u(p + 512 + 4 * h.mppe + 8 * J, 8)))]

    def elem(seq):
        if E.symbolic:
            return seq.item(J), seq.n > J
        seq = list(seq)
        return (seq[J], True) if J < len(seq) else (None, False)

    def vc_obs(o):
        return (*g(o, ("guid", "guid_timestamp", "timestamp", *[a for a, _, _ in VC_ATTRS])),
                elem(E.get(o, "physical_disk_sequence")), elem(E.get(o, "starting_block")))

    def vc_eq(a, b):
        return E.And(*[E.eq(x, y) for x, y in zip(a[:-2], b[:-2])],
                     *[E.Implies(b[k][0], E.And(a[k][1], a[k][0] == b[k][1])) for k in (-2, -1)])

    vcs = E.emitter("configuration records", vc, vc_obs, vc_eq)
    d = E.call(DDFPhysicalDisk, f, ss)
    E.prove_list("physical disk records", E.get(d, "physical_disk_records"), [pds.run(0, npd)])
    E.prove_list("virtual disk records", E.get(d, "virtual_disk_records"), [vds.run(0, nvd)])
    E.prove_list("configuration records", E.get(d, "virtual_disk_configuration_records"), [vcs.run(0, h.conflen // h.reclen)])
    mine = PD(f, pdr + 64 + 64 * me)
    E.prove_eq("disk identity", E.get(d, "guid"), f.bytes_at(pdd + 8, 24))
    for a in ("reference", "type", "state", "path_information"):
        E.prove_eq(f"disk {a}", E.get(d, a), getattr(mine, a))
    bs = E.ite(mine.block_size == 0xFFFF, ss, mine.block_size)
    E.prove_eq("disk block size", E.get(d, "block_size"), bs)
    E.prove_eq("disk size", E.get(d, "size"), mine.size * bs)
    E.prove_eq("data start", E.get(d, "offset"), 0)
    E.prove("handle", E.get(d, "fh") is f)
    E.prove_eq("controller identity", E.get(E.get(d, "controller_data"), "guid"), f.bytes_at(base + h.controller * ss + 8, 24))
    E.prove_eq("controller type", E.get(E.get(d, "controller_data"), "type"), f.bytes_at(base + h.controller * ss + 32, 8))


def no_anchor(E):
    f, ss, at, h = setup(E)
    if not E.symbolic:
        f.filln(at, 4, E.rng.choice([0, ddfs.HEADER ^ (1 << E.rng.randrange(32)), 0x11DE11DE, 0xFFFFFFFF]), "be")
        if E.rng.random() < 0.5:
            # signatures where they do not count
            for p in (0, at - ss, at + 4, max(at - 512, 0)):
                f.filln(p, 4, ddfs.HEADER, "be")
        f.filln(at, 4, E.rng.choice([0, 0x11DE11DE]), "be")
    E.assume(ddfs.be(f, at, 4) != ddfs.HEADER)
    E.prove("refused without anchor", E.attempt(DDFPhysicalDisk, f, ss).raised(DDFError))


def bad_section(E):
    """A section without its signature is refused."""
    f, ss, at, h = setup(E)
    if not E.symbolic:
        fill(E, f, ss, h)
        f.filln(h.primary * ss + E.rng.choice([h.controller, h.pdr, h.vdr, h.pdd]) * ss, 4, E.rng.choice([0, 0xFFFFFFFF, ddfs.PDR, ddfs.VDR, ddfs.VDCR]), "be")
    E.assume(E.And(h.signature == ddfs.HEADER, h.reclen > 0, E.Not(signatures(E, f, ss, h))))
    E.prove("refused without section signature", E.attempt(DDFPhysicalDisk, f, ss).raised(DDFError))


def no_record(E):
    """A disk without a physical disk record of its own is refused."""
    f, ss, at, h = setup(E)
    if not E.symbolic:
        fill(E, f, ss, h)
        f.filln((h.primary + h.pdd) * ss + 32, 4, 0x777777, "be")
    E.assume(E.And(h.signature == ddfs.HEADER, h.reclen > 0, signatures(E, f, ss, h)))
    pdr = (h.primary + h.pdr) * ss
    ref = ddfs.be(f, (h.primary + h.pdd) * ss + 32, 4)

    def pd(i):
        r = PD(f, pdr + 64 + 64 * i)
        E.assume(E.Not(r.reference == ref))
        return r

    g = lambda o: tuple(E.get(o, x) for x in PD_ATTRS)
    E.emitter("physical disk records", lambda i: [g(pd(i))], g, make=pd)
    E.prove("refused without own record", E.attempt(DDFPhysicalDisk, f, ss).raised(DDFError))


def holes(E):
    """Known finding: unused records between populated ones."""
    f, ss, at, h = setup(E)
    fill(E, f, ss, h)
    for p, o in ((h.pdr, 24), (h.vdr, 28)):
        q = (h.primary + p) * ss
        f.filln(q + 8, 2, 2, "be")
        f.filln(q + 10, 2, 8, "be")
        for i in range(3):
            f.fill(q + 64 + 64 * i, b"\xff" * 64 if i == 1 else bytes([i]) * 64)
    f.filln((h.primary + h.pdd) * ss + 32, 4, 0x02020202, "be")
    d = E.attempt(DDFPhysicalDisk, f, ss)
    E.prove("record after an unused one", d.ok and [r.reference for r in d.value.physical_disk_records] == [0, 0x02020202]
            and [r.guid[0] for r in d.value.virtual_disk_records] == [0, 2])


DRIVERS = [
    Driver("member", member, samples=300),
    Driver("no-anchor", no_anchor, samples=100),
    Driver("bad-section", bad_section, samples=150),
    Driver("no-own-record", no_record, samples=60),
    Driver("record-holes", holes, symbolic=False, finding="C08-record-holes"),
]
