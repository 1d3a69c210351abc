"""C20: Disks pick the scheme that matches and expand nested BSD labels."""
from uuid import UUID

from dissect.util.stream import RangeStream
from dissect.volume.disk.disk import Disk
from dissect.volume.disk.partition import Partition
from dissect.volume.disk.schemes import APM, BSD, GPT, MBR
from dissect.volume.exceptions import DiskError

from pyvc.terms import ProgExc, Unsupported

from . import C19, disks
from .common import Driver

LEVEL = "proof"
ASSUMPTIONS = [
    "the scheme classes are used through their contract: for a given medium and position they either raise or return their partition list (C17 to C19), and leave the handle anywhere",
    "a partition of a BSD type contains a valid disklabel",
    "partition lists of up to 3 entries of arbitrary type in the proof (each entry is handled on its own), arbitrary lists in the samples",
]
ORDER = [GPT, MBR, APM, BSD]
BSD_INTS = (0xA5, 0xA6, 0xA9, 0x6C)
BSD_UUIDS = (UUID("9D087404-1CA5-11DC-8817-01301BB8A9F5"), UUID("3D48CE54-1D16-11DC-8696-01301BB8A9F5"), UUID("516E7CB4-6ECF-11D6-8FF8-00022D09712B"))


class Inside:
    """The entries of the disklabel inside a partition."""

    def __init__(self, index):
        self.index = index
        self.type = 7


def probing(count):
    def drv(E):
        if not E.symbolic:
            return image(E)
        f = E.file("disk", endless=True)
        ss = E.int("ss", 1)
        start = E.int("start", 0)
        serial = E.int("serial", 0)
        valid = [E.bool(f"valid{k}") for k in range(4)]
        made = {}
        parts = []

        def scheme(k, cls):
            def repl(E, fh, sector_size=512):
                E.prove_eq("sector size handed to the scheme", sector_size, ss)
                if fh is not f:
                    # which partition is this stream the window of?
                    K = E.ghost()
                    b = E.stream_byte(fh, K)
                    for i, p in enumerate(parts):
                        if b is not None and E.ctx.entails(E.And(E.get(fh, "size") == p.size, E.Implies(E.And(K >= 0, K < p.size), b == f.at(p.offset + K)))):
                            o = object.__new__(BSD)
                            E.it.setattr(o, "partitions", E.list([Inside(i)]))
                            return o
                    raise Unsupported("disklabel looked for in an unrecognised stream")
                E.prove_eq("scheme tried from the starting position", E.call(f.tell), start)
                E.call(f.seek, E.int("left", 0))
                if not valid[k]:
                    raise_(E)
                o = object.__new__(cls)
                for i in range(count):
                    u = E.choose("type", ["int", "uuid"]) if cls is GPT else "str" if cls is APM else "int"
                    t = E.int("type", 0, 255) if u == "int" else E.call(UUID, bytes_le=E.file(f"uuid{i}", endless=True).bytes_at(0, 16)) if u == "uuid" else "Apple_HFS"
                    p = E.call(Partition, o, i + 1, E.int("offset", 0), E.int("size", 0), t)
                    parts.append(p)
                E.it.setattr(o, "fh", f)
                E.it.setattr(o, "partitions", E.list(parts))
                if cls is MBR:
                    m = object.__new__(Inside)
                    m.vol_no = serial
                    E.it.setattr(o, "mbr", m)
                made[k] = o
                return o

            return repl

        def raise_(E):
            raise ProgExc(E.choose("error", [DiskError, EOFError])("not this scheme"))

        for k, cls in enumerate(ORDER):
            E.contract(cls, scheme(k, cls))

        E.call(f.seek, start)
        out = E.attempt(Disk, f, ss)
        first = next((k for k in range(4) if valid[k]), None)
        if first is None:
            E.prove("no scheme: refused", out.raised(DiskError))
            return
        main = made.get(first)
        E.prove("scheme chosen in order", main is not None and len(made) == 1)
        is_ee = lambda p: not isinstance(p.type, str) and type(p.type).__name__ != "SVal" and E.eq(p.type, 0xEE)
        if ORDER[first] is MBR and E.Or(*[is_ee(p) for p in parts]):
            E.prove("protective entry reported", out.raised(DiskError))
            return
        E.prove("accepted", out.ok)
        if not out.ok:
            return
        exp, nested = [], False
        for i, p in enumerate(parts):
            known = BSD_INTS if not isinstance(p.type, str) and type(p.type).__name__ != "SVal" else BSD_UUIDS
            if E.Or(*[E.eq(p.type, x) for x in known]) if not isinstance(p.type, str) else False:
                nested = True
                exp.append(("inside", i))
            else:
                exp.append(("plain", i))
        index = {id(p): i for i, p in enumerate(parts)}
        E.prove_list("partitions", E.get(out.value, "partitions"), exp,
                     lambda p: ("inside", p.index) if isinstance(p, Inside) else ("plain", index.get(id(p), -1)))
        if not nested:
            E.prove("scheme", E.get(out.value, "scheme") is main)
            E.prove_eq("serial", E.get(out.value, "serial"), serial if ORDER[first] is MBR else None)

    return drv


def show(p):
    return (p.number, p.offset, p.size, p.type, p.guid, p.name, p.flags, type(p.disk).__name__)


def image(E):
    """A real image with any combination of structures, compared with what the schemes say on their own."""
    r = E.rng
    f = E.file("disk", endless=True)
    f.zero = True
    ss = r.choice([512, 512, 2048, 4096])
    start = r.choice([0, 0, 0, 1 << 20, 1536])
    have = {k: r.random() < p for k, p in (("mbr", 0.7), ("gpt", 0.5), ("apm", 0.35), ("bsd", 0.35))}
    if have["mbr"]:
        ents = []
        for i in range(4):
            k = r.random()
            typ = 0 if k < 0.25 else 0xEE if (k < 0.4 if not have["gpt"] else i == 0 or k < 0.3) else r.choice([0xA5, 0xA6, 0xA9, 0x6C, 7, 0x83, 0x82, 0xA8])
            first = r.choice([1, 2]) if typ == 0xEE else 5000 + 1000 * i + r.randrange(500)
            ents.append((r.choice([0, 0x80]), typ, first, 300 + r.randrange(100)))
        disks.fill_record(E, f, start, ents, r.randrange(1 << 32))
        for flag, typ, first, count in ents:
            if typ in BSD_INTS:
                bits, lab = r.choice([32, 64]), start + first * ss + ss
                C19.fill_label(E, f, bits, lab, lab + (148 if bits == 32 else 200), 16 if bits == 32 else 64)
            if typ == 0xEE and have["gpt"]:
                hdr = start + first * ss
                f.fill(hdr, b"EFI PART")
                f.filln(hdr + 72, 8, 40)
                f.filln(hdr + 80, 4, r.choice([1, 3, 5]))
                f.filln(hdr + 84, 4, 128)
                for i in range(5):
                    p = 40 * ss + 128 * i
                    lba = 20000 + 1000 * i
                    f.filln(p + 32, 8, r.choice([0, lba, lba]))
                    f.filln(p + 40, 8, lba + 600)
                    g = r.choice([*BSD_UUIDS, UUID(int=r.getrandbits(128))])
                    f.fill(p, g.bytes_le)
                    if g in BSD_UUIDS:
                        C19.fill_label(E, f, 32, lba * ss + ss, lba * ss + ss + 148, 16)
    if have["apm"]:
        C19.apm_fill(E, f, start, 1 if have["mbr"] else r.choice([1, 2]))
        if have["mbr"]:
            f.put(start + 510, b"\x55\xaa")
    if have["bsd"]:
        C19.fill_label(E, f, 32, start + ss, start + ss + 148, 16)
    main = None
    for cls in ORDER:
        f.seek(start)
        try:
            main = cls(f, ss)
            break
        except Exception:
            continue
    f.seek(start)
    out = E.attempt(Disk, f, ss)
    if main is None:
        E.prove("no scheme: refused", out.raised(DiskError))
        return
    if type(main) is MBR and any(p.type == 0xEE for p in main.partitions):
        E.prove("protective entry reported", out.raised(DiskError))
        return
    exp, nested = [], False
    try:
        for p in main.partitions:
            if p.type in BSD_INTS + BSD_UUIDS:
                nested = True
                exp += [show(q) for q in BSD(RangeStream(f, p.offset, p.size), ss).partitions]
            else:
                exp.append(show(p))
    except Exception:
        E.assume(False)
    E.prove("accepted", out.ok)
    E.prove_eq("partitions", [show(p) for p in out.value.partitions], exp)
    if not nested:
        E.prove("scheme", type(out.value.scheme) is type(main))
        E.prove_eq("serial", out.value.serial, main.mbr.vol_no if type(main) is MBR else None)


DRIVERS = [Driver(f"probing-{n}", probing(n), samples=400, xcheck=False, budget=300) for n in range(4)]
