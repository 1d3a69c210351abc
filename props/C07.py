"""C07: MD members are grouped into arrays by identity, role and freshest metadata."""
import random
from uuid import UUID

from dissect.volume.md import md
from dissect.volume.md.md import MD, MDConfiguration, MDPhysicalDisk

from .common import Driver

LEVEL = "proof"
ASSUMPTIONS = [
    "the superblock position is the one C06 establishes (contract of find_super_block); members of a set have one metadata version",
    "active members of one set have different roles; members with the same event count agree about the array",
    "number of members: up to 4 for the grouping, up to 3 per array (proof), up to 9 (samples); everything else unbounded",
    "known findings: the size of parity, mirror and striped-mirror arrays is accepted as one member's size or the size of the array, see known-findings.txt",
]
MAGIC = 0xA92B4EFC
LEVELS = (-1, 0, 1, 4, 5, 6, 10)


def member(E, i, version, group=None, **fixed):
    """A member device; returns (file, recorded attributes)."""
    f = E.file(f"dev{i}", 1 << 30, has_size=False) if not E.symbolic else E.file(f"dev{i}", endless=True)
    b = 4096 if version else (1 << 30) - 65536
    u = lambda o, w=4: f.uint(b + o, w)
    if not E.symbolic:
        r = E.rng
        n = lambda o, w, v: f.filln(b + o, w, v % (1 << (8 * w)))
        n(0, 4, MAGIC)
        n(4, 4, version)
        ev = r.choice([3, 4, 4, 5, 1 << 40])
        s = random.Random(f"{E.salt} {group} {ev}")  # members of the same age agree
        lv = s.choice([fixed.get("level"), s.choice([*LEVELS, *LEVELS, 3, -4, 77])]) if "exact" not in fixed else fixed["exact"]
        lv = s.choice(LEVELS) if lv is None else lv
        chunk = s.choice([8, 8, 24, 128, 1])
        name, layout, comp, disks = s.choice([b"host:a", b"host:b"]), s.randrange(3), s.randrange(100, 9000), s.randrange(1, 9)
        ident = bytes([group or 0]) * 16
        act, role = fixed["role"]
        sec = r.randrange(200, 5000)
        if version:
            f.fill(b + 16, ident)
            f.fill(b + 32, name.ljust(32, b"\x00"))
            for o, w, v in ((64, 8, 5), (72, 4, lv), (76, 4, layout), (80, 8, comp), (88, 4, chunk), (92, 4, disks),
                            (128, 8, r.randrange(20, 90)), (136, 8, sec), (160, 4, i), (192, 8, 6), (200, 8, ev), (220, 4, 16),
                            (256 + 2 * i, 2, role if act else r.choice([0xFFFF, 0xFFFE, 0xFFFD]))):
                n(o, w, v)
        else:
            for o, k in ((20, 0), (52, 4), (56, 8), (60, 12)):
                f.fill(b + o, ident[k:k + 4])
            at = 512 + 128 * i
            for o, w, v in ((8, 4, 90), (28, 4, lv), (32, 4, comp), (40, 4, disks), (156, 4, ev), (160, 4, ev >> 32),
                            (256, 4, layout), (260, 4, chunk * 512), (3968, 4, i), (at + 12, 4, role if act else 0), (at + 16, 4, 6 if act else r.choice([0, 1, 9]))):
                n(o, w, v)
    a = {"file": f}
    if version:
        E.assume(E.And(u(0) == MAGIC, u(4) == 1, u(160) < u(220)))
        role = u(256 + 2 * u(160), 2)
        a.update(id=f.bytes_at(b + 16, 16), name=f.bytes_at(b + 32, 32).split(b"\x00", 1)[0].decode(errors="surrogateescape"), events=u(200, 8),
                 level=f.uint(b + 72, 4, "le", True), layout=u(76), chunk=u(88) * 512, disks=u(92), comp=u(80, 8), size=u(136, 8) * 512,
                 active=role <= 0xFF00, role=role, unit=512)
    else:
        E.assume(E.And(u(0) == MAGIC, u(4) == 0, u(8) == 90, u(3968) < 27))
        at = 512 + 128 * u(3968)
        st = u(at + 16)
        a.update(id=f.bytes_at(b + 20, 4) + f.bytes_at(b + 52, 4) + f.bytes_at(b + 56, 4) + f.bytes_at(b + 60, 4), name=None,
                 events=u(160) * (1 << 32) + u(156), level=f.uint(b + 28, 4, "le", True), layout=u(256), chunk=u(260), disks=u(40), comp=u(32),
                 size=b, active=E.And(st % 2 == 0, st // 4 % 2 == 1), role=u(at + 12), unit=1024)
    E.assume(E.Implies(a["level"] == 0, a["chunk"] > 0))
    return a


def located(E, version):
    fn = getattr(md, "find_super_block", None)
    if fn is not None:
        E.contract(fn, lambda E, fh: (8, 1, 0) if version else (((1 << 30) - 65536) // 512, 0, 90))


def ident(E, a):
    return E.call(UUID, bytes_le=a["id"])


def roles(E, n):
    """Distinct roles in any order for the samples."""
    if E.symbolic:
        return [None] * n
    rs = E.rng.sample(range(n + 2), n)
    return [(E.rng.random() < 0.8, x) for x in rs]


def opened(E, ms):
    """Members are handed over as handles or as member objects."""
    wrap = E.choose("as objects", [False, True])
    return E.list([E.call(MDPhysicalDisk, m["file"]) if wrap and i % 2 == 0 else m["file"] for i, m in enumerate(ms)])


def grouping(counts):
    def drv(E):
        n = E.choose("members", counts)
        version = E.choose("version", [1, 0])
        if E.symbolic:
            located(E, version)
        rs = roles(E, n)
        groups = [E.rng.randrange(1, E.rng.choice([2, 3, 6])) for _ in range(n)] if not E.symbolic else [None] * n
        lv = None if E.symbolic else E.rng.choice(LEVELS)
        ms = [member(E, i, version, groups[i], role=rs[i], exact=lv) for i in range(n)]
        if E.symbolic:
            # everything about single arrays is the business of the other contract
            E.contract(md.MDVirtualDisk, lambda E, disks: Ghost(E.items(disks)))
            for m in ms:
                E.assume(m["active"])
        ids = [ident(E, m) for m in ms]
        for i in range(n):
            for j in range(i):
                E.assume(E.Implies(E.And(E.eq(ids[i], ids[j]), ms[i]["active"], ms[j]["active"]), E.Not(ms[i]["role"] == ms[j]["role"])))
        out = E.call(MD, opened(E, ms))
        sets = []
        for i in range(n):
            for s in sets:
                if E.eq(ids[i], ids[s[0]]):
                    s.append(i)
                    break
            else:
                sets.append([i])
        confs = E.items(E.get(out, "configurations"))
        E.prove("one array per identity", len(confs) == len(sets))
        got = []
        for c in confs:
            got.append(sorted(index(ms, E.get(d, "fh")) for d in E.items(E.get(c, "physical_disks"))))
            E.prove("one virtual disk per set", len(E.items(E.get(c, "virtual_disks"))) == 1)
        E.prove("members of each set", sorted(got) == sorted(sets), lambda: f"{got} for {sets}")

    return drv


def one_set(E):
    """The members of one array, given directly, have to be of one set."""
    version = E.choose("version", [1, 0])
    n = E.choose("members", [1, 2, 3])
    if E.symbolic:
        located(E, version)
    rs = roles(E, n)
    group = E.choose("mixed", [False, True])
    lv = None if E.symbolic else E.rng.choice(LEVELS)
    ms = [member(E, i, version, 1 + (group and i == n - 1), role=rs[i], exact=lv) for i in range(n)]
    if E.symbolic:
        E.contract(md.MDVirtualDisk, lambda E, disks: Ghost(E.items(disks)))
        for m in ms:
            E.assume(m["active"])
    ids = [ident(E, m) for m in ms]
    for i in range(n):
        for j in range(i):
            E.assume(E.Implies(E.And(ms[i]["active"], ms[j]["active"]), E.Not(ms[i]["role"] == ms[j]["role"])))
    out = E.attempt(MDConfiguration, E.list([E.call(MDPhysicalDisk, m["file"]) for m in ms]))
    same = E.And(*[E.eq(i, ids[0]) for i in ids])
    if out.ok:
        E.prove("one set only", same)
        E.prove("all members", sorted(index(ms, E.get(d, "fh")) for d in E.items(E.get(out.value, "physical_disks"))) == list(range(n)))
    else:
        E.prove("refused for mixed sets only", E.And(out.raised(ValueError), E.Not(same)))


class Ghost:
    def __init__(self, disks):
        self.disks = disks


def index(ms, f):
    return next((i for i, m in enumerate(ms) if m["file"] is f), -1)


def check_size(E, m, act, size):
    """Does the size follow from the level, for the reference member m?"""
    lv, comp, chunk, disks = m["level"], m["comp"], m["chunk"], m["disks"]
    total = lambda xs: sum(xs[1:], xs[0]) if xs else 0
    if lv == -1:
        ok = size == total([x["size"] for x in act])
        if not E.symbolic and not ok and chunk:
            ok = size == total([x["size"] // chunk * chunk for x in act])
    elif lv == 0:
        ok = size == total([x["size"] // chunk * chunk for x in act])
    else:
        ok = E.Or(size == comp * 512, size == comp * m["unit"])
        if not E.symbolic and not ok and lv in (4, 5, 6):
            ok = size == comp * m["unit"] * (disks - (2 if lv == 6 else 1))
        elif not E.symbolic and not ok and lv == 10 and chunk:
            near, far = m["layout"] % 256, m["layout"] // 256 % 256
            ok = size == comp * m["unit"] // chunk // max(far, 1) * disks // max(near, 1) * chunk
    E.prove("size for the level", ok, lambda: f"{size} for {m}")


def array(counts, version, actives=None):
    def drv(E):
        n = E.choose("members", counts)
        if E.symbolic:
            located(E, version)
        rs = roles(E, n)
        lv = None if E.symbolic else E.rng.choice([*LEVELS, 3, -4])
        ms = [member(E, i, version, 7, role=rs[i], **({"level": lv} if lv is not None and E.rng.random() < 0.8 else {})) for i in range(n)]
        if E.symbolic:
            for m, a in zip(ms, E.choose("active", [p for p in actives if len(p) == n])):
                E.assume(m["active"] if a == "a" else E.Not(m["active"]))
        ids = [ident(E, m) for m in ms]
        for i in range(1, n):
            E.assume(E.eq(ids[i], ids[0]))
            for j in range(i):
                E.assume(E.Implies(ms[i]["events"] == ms[j]["events"], E.And(*[E.eq(ms[i][k], ms[j][k]) for k in ("name", "level", "layout", "chunk", "disks", "comp")])))
        act = [m for m in ms if m["active"]]
        for i, a in enumerate(act):
            for b in act[:i]:
                E.assume(E.Not(a["role"] == b["role"]))
        out = E.attempt(MD, E.list([m["file"] for m in ms]))
        ref = next(m for m in ms if E.And(*[m["events"] >= x["events"] for x in ms]))
        lv = ref["level"]
        if not E.Or(*[lv == x for x in LEVELS]):
            E.prove("unknown level refused", not out.ok)
            return
        E.prove("accepted", out.ok, lambda: repr(out.exc))
        if not out.ok:
            return
        confs = E.items(E.get(out.value, "configurations"))
        E.prove("one array", len(confs) == 1)
        vds = E.items(E.get(confs[0], "virtual_disks"))
        E.prove("one virtual disk", len(vds) == 1)
        g = lambda name: E.get(vds[0], name)
        for name, key in (("name", "name"), ("level", "level"), ("layout", "layout"), ("stripe_size", "chunk"), ("num_disks", "disks")):
            E.prove_eq(f"{name} of the freshest member", g(name), ref[key])
        E.prove_eq("identity", g("uuid"), E.call(str, ids[0]))
        check_size(E, ref, act, g("size"))
        entries = [(k, v[0], E.get(v[1], "fh")) for k, v in g("disk_map").items()]
        E.prove("number of data members", len(entries) == len(act))
        for m in act:
            mine = [e for e in entries if e[2] is m["file"]]
            E.prove("member used once", len(mine) == 1)
            E.prove("member at its role", E.And(E.eq(mine[0][0], m["role"]), E.eq(mine[0][1], 0)))

    return drv


def size_finding(E):
    """Finding: a RAID 5 set of three members of 1000 sectors each has the size of one member."""
    E.concrete_only()
    out = E.call(MD, E.list([plain(E, i, 5, 3, 1000) for i in range(3)]))
    E.prove_eq("size of the array", out.configurations[0].virtual_disks[0].size, 2 * 1000 * 512)


def size_090_finding(E):
    """Finding: version 0.90 records the member size in KiB."""
    E.concrete_only()
    f = E.file("dev", 1 << 22)
    f.zero = True
    b = (1 << 22) - 65536
    for o, v in ((0, MAGIC), (8, 90), (28, 1), (32, 3000), (40, 1), (512 + 16, 6)):
        f.put(b + o, v.to_bytes(4, "little"))
    E.prove_eq("size of the array", E.call(MD, f).configurations[0].virtual_disks[0].size, 3000 * 1024)


def linear_finding(E):
    """Finding: linear sets with a rounding (chunk size) use whole rounding units of every member."""
    E.concrete_only()
    out = E.call(MD, E.list([plain(E, i, -1, 2, 1001) for i in range(2)]))
    E.prove_eq("size of the array", out.configurations[0].virtual_disks[0].size, 2 * 1000 * 512)


def plain(E, i, level, n, sectors):
    f = E.file(f"dev{i}", 1 << 22)
    f.zero = True
    for o, w, v in ((0, 4, MAGIC), (4, 4, 1), (72, 4, level % (1 << 32)), (80, 8, sectors), (88, 4, 8), (92, 4, n), (128, 8, 64), (136, 8, sectors),
                    (160, 4, i), (220, 4, n), (256 + 2 * i, 2, i)):
        f.put(4096 + o, v.to_bytes(w, "little"))
    for j in range(n):
        f.put(4096 + 256 + 2 * j, j.to_bytes(2, "little"))
    return f


PAT3 = ["aaa", "aas", "asa", "saa", "ass", "sas", "ssa", "sss"]
DRIVERS = [Driver("grouping", grouping([1, 2, 3]), samples=300), Driver("one-set", one_set, samples=200), Driver("grouping-4", grouping([4]), samples=100),
           Driver("grouping-many", grouping([5, 6, 7, 8, 9, 12, 15]), symbolic=False, samples=150, bounded="more than 4 members: sampled only")]
for _v in (1, 0):
    DRIVERS.append(Driver(f"array-{_v}", array([1, 2], _v, ["a", "s", "aa", "as", "sa", "ss"]), samples=300))
    for _p in PAT3:
        DRIVERS.append(Driver(f"array-{_v}-{_p}", array([3], _v, [_p]), samples=40, budget=300))
    DRIVERS.append(Driver(f"array-{_v}-many", array([4, 5, 6, 7, 8, 9, 11, 14, 26], _v), symbolic=False, samples=150, bounded="more than 3 members: sampled only"))
DRIVERS += [
    Driver("size-parity", size_finding, finding="C07-parity-size", symbolic=False),
    Driver("size-0.90", size_090_finding, finding="C07-size-090", symbolic=False),
    Driver("size-linear", linear_finding, finding="C07-linear-rounding", symbolic=False),
]
