"""C17: MBR tables list every primary and logical partition at its true place."""
import inspect

from dissect.volume.disk.schemes import MBR
from dissect.volume.exceptions import DiskError

from . import disks
from .common import Driver, picks

LEVEL = "proof"
ASSUMPTIONS = [
    "every record of the chain lies on the device and the chain is finite (a cyclic chain denotes no table)",
    "an entry is empty exactly when its type is 0; extended types are 0x05, 0x0f and 0x85",
    "the chain is proved by induction: the method that walks one record is run for an arbitrary record, its recursive calls are answered by the contract being proved",
]


class Logicals:
    """The partitions of the extended record at pos in the chain that starts at base."""

    def __init__(self, pos, base, raw):
        self.pos, self.base, self.raw = pos, base, raw


def obs(E, f):
    plain = disks.mbr_obs(E, f)

    def o(p):
        if isinstance(p, Logicals):
            return ("logicals", p.pos, p.base, E.eq(p.raw, f.bytes_at(p.pos, 512)))
        return plain(p)

    return o


def record(E, f, ss, pos, base, depth=0):
    """Expected listing of the record at pos; base is the start of the chain, None for the primary table."""
    if depth > 12:
        E.assume(False)
    parts = []
    for i in range(4):
        flag, typ, first, count = disks.entry(f, pos, i)
        if typ == 0:
            continue
        if E.Or(*[typ == x for x in disks.EXTENDED]):
            nxt = pos + first * ss if base is None else base + first * ss
            if E.symbolic:
                parts.append(("logicals", nxt, nxt if base is None else base, True))
            else:
                parts += record(E, f, ss, nxt, nxt if base is None else base, depth + 1)
        else:
            parts.append((pos + first * ss, count * ss, typ, flag, True))
    return parts


def nested(f):
    sig = inspect.signature(MBR.__dict__["_partitions"]) if "_partitions" in MBR.__dict__ else None

    def repl(E, *a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        d = b.arguments
        return E.list([Logicals(d["offset"], d["ebr_offset"], E.call(d["mbr"].dumps))])

    return repl


def sample_chain(E, f, ss, start):
    r = E.rng
    used = {0}

    def lba(lo):
        while True:
            x = r.choice([lo + r.randint(1, 40), r.randrange(lo + 1, lo + 100000)])
            if x not in used:
                used.add(x)
                return x

    def rec(pos, base, depth):
        ents, todo = [], []
        for i in range(4):
            k = r.random()
            if depth:
                k = k if i < 2 or r.random() < 0.2 else 0
            if k < 0.3:
                ents.append((r.choice([0, 0x80]), 0, r.randrange(99), r.randrange(99)))
            elif k < 0.65 or depth >= 3:
                ents.append((r.choice([0, 0x80, 1]), r.choice([7, 0x83, 0xA5, 0xEE, 0x42, 0x06, 0x0E, 0x84, 0x86, 1, 0xFF]),
                             r.choice([r.randrange(1 << 32), r.randrange(1 << 12)]), r.randrange(1 << 32)))
            else:
                x = lba(0)
                ents.append((0, r.choice(disks.EXTENDED), x, r.randrange(1 << 32)))
                nxt = (pos if base is None else base) + x * ss
                todo.append((nxt, nxt if base is None else base))
        disks.fill_record(E, f, pos, ents, r.randrange(1 << 32))
        for nxt, b in todo:
            rec(nxt, b, depth + 1)

    rec(start, None, 0)


def setup(E):
    f = E.file("disk", endless=True)
    ss = E.int("ss", 1, pick=picks(512, 512, 4096, 2048, 1024))
    start = E.int("start", 0, pick=picks(0, 0, 512, 1 << 20, 12345))
    if not E.symbolic:
        E.assume(ss % 512 == 0)
        sample_chain(E, f, ss, start)
    E.call(f.seek, start)
    return f, ss, start


def table(E):
    f, ss, start = setup(E)
    disks.assume_mbr(E, f, start)
    E.inductive(MBR, "_partitions", nested(f))
    parts = record(E, f, ss, start, None)
    out = E.attempt(MBR, f, ss)
    E.prove("table accepted", out.ok)
    if not out.ok:
        return
    got = E.get(out.value, "partitions")
    E.prove_list("partitions", got, parts, obs(E, f))
    if E.symbolic:
        mine = [i + 1 for i in range(4) if disks.entry(f, start, i)[1] != 0 and not E.Or(*[disks.entry(f, start, i)[1] == x for x in disks.EXTENDED])]
        E.prove_eq("numbers of the primary entries", [E.get(p, "number") for p in E.items(got) if not isinstance(p, Logicals)], mine)
    E.prove_eq("serial", E.get(E.get(out.value, "mbr"), "vol_no"), f.uint(start + 440, 4))


def chain(E):
    """The step of the induction: an arbitrary extended record in an arbitrary chain."""
    if not E.symbolic:
        return table(E)
    f = E.file("disk", endless=True)
    ss = E.int("ss", 1)
    base = E.int("base", 1)
    pos = E.int("pos", 1)
    num = E.int("num", 0)
    m = object.__new__(MBR)
    E.it.setattr(m, "fh", f)
    E.it.setattr(m, "sector_size", ss)
    E.it.setattr(m, "offset", E.int("start", 0))
    E.call(f.seek, pos)
    rec = E.call(inspect.getmodule(MBR).c_mbr.mbr_s, f)
    E.inductive(MBR, "_partitions", nested(f))
    got = E.call(m._partitions, rec, pos, num, ebr_offset=base)
    E.prove_list("logical partitions", got, record(E, f, ss, pos, base), obs(E, f))


def no_signature(E):
    f, ss, start = setup(E)
    if not E.symbolic:
        f.filln(start + 510, 2, E.rng.choice([0, 0x55AA, 0xAA54, 0xAB55, E.rng.randrange(1 << 16)]))
    E.assume(f.uint(start + 510, 2) != 0xAA55)
    E.prove("refused", E.attempt(MBR, f, ss).raised(DiskError))


def boot_sector(E):
    f, ss, start = setup(E)
    if not E.symbolic:
        k = E.rng.randrange(len(disks.NAMES) + 2)
        if k < len(disks.NAMES):
            w = disks.NAMES[k]
            f.fill(start + 3 + E.rng.randrange(9 - len(w)), w)
        elif k == len(disks.NAMES):
            f.fill(start + 18, b"Hit Esc for .altboot")
        else:
            f.fill(start + 168, b"\r\nQNX ")
    E.assume(f.uint(start + 510, 2) == 0xAA55)
    E.assume(disks.is_vbr(E, f, start))
    E.prove("refused", E.attempt(MBR, f, ss).raised(DiskError))


DRIVERS = [
    Driver("table", table, samples=1500, budget=400),
    Driver("chain", chain, samples=300, budget=400),
    Driver("no-signature", no_signature),
    Driver("boot-sector", boot_sector, samples=400),
]
