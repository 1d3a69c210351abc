"""C09: DDF configurations become the right arrays with the right member placement."""
from dissect.volume.ddf import ddf
from dissect.volume.ddf.ddf import DDF, DDFPhysicalDisk
from dissect.volume.raid.stream import LinearStream

from pyvc.terms import Unsupported

from . import ddfs
from .common import Driver, check_stream, picks

LEVEL = "proof"
ASSUMPTIONS = [
    "member objects carry the values recorded on disk (C08); in the proof they are given as such objects, the samples build complete member images",
    "records of the same virtual disk and secondary element are the same on all members; disk references are distinct",
    "every virtual disk has a record of its name and at least one present member; members have one block size where the configuration records none",
    "number of members 1-2, elements 1-3, virtual disks 1-2, secondary elements 1-2 in the proof (all values unbounded), more in the samples; concatenations of any number of elements once they are assembled",
    "qualifiers map to layouts as in mdadm (RAID 1E offset: two far copies)",
]
UNUSED = 0xFFFFFFFF


class Ghost:
    """An object described by a contract."""

    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} is not described by the contract")


class GhostDisk(DDFPhysicalDisk):
    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} is not described by the contract")


# (level, qualifier) -> (level, layout); None: any layout
TABLE = {
    (0x1F, None): (-1, None), (0, 0): (0, None), (1, 0): (1, None), (1, 1): (1, None), (0x11, 0): (10, 0x102), (0x11, 1): (10, 0x201),
    (4, 1): (4, None), (5, 2): (5, 0), (5, 0): (5, 1), (5, 3): (5, 2), (6, 2): (6, 9), (6, 1): (6, 8), (6, 3): (6, 10),
}


def expected_level(E, r):
    """(level, layout, members) or None when the combination is not supported."""
    if r["secn"] > 1:
        if E.Not(E.And(r["prl"] == 1, E.Or(r["srl"] == 0, r["srl"] == 3))):
            return None
        if E.And(r["rlq"] == 0, r["pec"] == 2):
            return 10, 0x102, r["pec"] * r["secn"]
        if E.And(r["rlq"] == 1, r["pec"] == 3):
            return 10, 0x103, r["pec"] * r["secn"]
        return None
    if r["prl"] == 1:
        if E.Or(E.And(r["rlq"] == 0, r["pec"] == 2), E.And(r["rlq"] == 1, r["pec"] == 3)):
            return 1, None, r["pec"]
        return None
    for (p, q), (level, layout) in TABLE.items():
        if p != 1 and E.And(r["prl"] == p, q is None or r["rlq"] == q):
            return level, layout, r["pec"]
    return None


def record(E, ids, v, mppe, refs, name="", **fixed):
    """A configuration record of virtual disk number v."""
    i = lambda n, lo, hi, *p: E.int(f"{n}{name}", lo, hi, pick=picks(*p) if p else None)
    r = {"vd": v, "guid": ids.bytes_at(100 + 24 * v, 24)}
    r["prl"] = i("prl", 0, 255, 0, 1, 1, 4, 5, 6, 0x11, 0x1F, 3, 0xF, 0x15)
    r["rlq"] = i("rlq", 0, 255, 0, 0, 1, 2, 3, 4, 255)
    r["srl"] = i("srl", 0, 255, 0, 0, 3, 1, 2)
    r["secn"] = i("secn", 1, 255, 1, 1, 1, 2, 3)
    r["seq"] = E.int(f"seq{name}", 0, 254, pick=lambda g: g.randrange(min(r["secn"], 3)) if r["secn"] > 1 else g.choice([0, 0, 1, 254]))
    r["pec"] = i("pec", 1, 0xFFFF, 1, 2, 2, 3, mppe)
    r["strip"] = i("strip", 0, 63, 0, 3, 7)
    r["size"] = i("vdsize", 0, (1 << 64) - 1, 1000, 7, 1 << 40)
    r["bs"] = i("vdbs", 0, 0xFFFF, 512, 4096, 0xFFFF)
    r.update(fixed)
    r["refs"] = [E.int(f"ref{name}_{k}", 0, UNUSED, pick=picks(*refs)) for k in range(mppe)]
    r["starts"] = [E.int(f"start{name}_{k}", 0, (1 << 64) - 1, pick=picks(0, 8, 2048, 1 << 33)) for k in range(mppe)]
    # the sequence number means nothing where there is a single secondary element
    E.assume(E.Or(r["secn"] == 1, r["seq"] < r["secn"]))
    return r


def disk(E, k, ids, header, ref, bs, sizes, present, records, all_refs, nvd):
    """Member number k carrying the given records."""
    if E.symbolic:
        vds = [Ghost(guid=ids.bytes_at(100 + 24 * v, 24), name=ids.bytes_at(1000 + 16 * v, 16).split(b"\x00")[0].decode("ascii"), number=v, type=0, state=0,
                     init_state=0) for v in range(nvd)]
        confs = [Ghost(guid=r["guid"], primary_element_count=r["pec"], strip_size=r["strip"], primary_raid_level=r["prl"], raid_level_qualifier=r["rlq"],
                       secondary_element_count=r["secn"], secondary_element_seq=r["seq"], secondary_raid_level=r["srl"], size=r["size"], block_size=r["bs"], block_count=r.get("blocks", 0),
                       physical_disk_sequence=E.list(r["refs"]), starting_block=E.list(r["starts"])) for r in records]
        return GhostDisk(anchor=Ghost(DDF_Header_GUID=header), reference=ref, block_size=bs, size=sizes, offset=0, sector_size=512,
                         virtual_disk_records=E.list(vds), virtual_disk_configuration_records=E.list(confs), fh=E.file(f"dev{k}", endless=True))
    f = E.file(f"dev{k}", 2000 * 512)
    n = lambda p, w, v: f.filln(p, w, v, "be")
    mppe = max([len(r["refs"]) for r in records], default=1)
    reclen = (512 + 12 * mppe + 511) // 512
    slots = [*records]
    for _ in range(E.rng.randrange(3)):
        slots.insert(E.rng.randrange(len(slots) + 1), None)
    ddfs.put_header(f, 1999 * 512, guid=header, primary=1000, secondary=UNUSED << 32 | UNUSED, reclen=reclen, mppe=mppe, controller=1, pdr=2, vdr=40, conf=100,
                    conflen=reclen * len(slots), pdd=90)
    f.fill(1000 * 512, f.bytes_at(1999 * 512, 512))
    at = lambda s: (1000 + s) * 512
    n(at(1), 4, ddfs.CONTROLLER)
    n(at(2), 4, ddfs.PDR)
    n(at(2) + 8, 2, len(all_refs))
    n(at(2) + 10, 2, len(all_refs))
    for i, x in enumerate(all_refs):
        n(at(2) + 64 + 64 * i + 24, 4, x)
        n(at(2) + 64 + 64 * i + 32, 8, sizes)
        n(at(2) + 64 + 64 * i + 58, 2, bs)
    n(at(40), 4, ddfs.VDR)
    n(at(40) + 8, 2, nvd)
    n(at(40) + 10, 2, nvd)
    for v in range(nvd):
        p = at(40) + 64 + 64 * v
        f.fill(p, ids.bytes_at(100 + 24 * v, 24))
        n(p + 28, 4, 0)
        f.fill(p + 48, ids.bytes_at(1000 + 16 * v, 16))
    n(at(90), 4, ddfs.PDD)
    n(at(90) + 32, 4, ref)
    for i, r in enumerate(slots):
        p = at(100) + i * reclen * 512
        if r is None:
            f.fill(p, b"\xff" * 512)
            continue
        n(p, 4, ddfs.VDCR)
        f.fill(p + 8, r["guid"])
        for o, w, key in ((64, 2, "pec"), (66, 1, "strip"), (67, 1, "prl"), (68, 1, "rlq"), (69, 1, "secn"), (70, 1, "seq"), (71, 1, "srl"), (80, 8, "size"), (88, 2, "bs")):
            n(p + o, w, r[key])
        n(p + 72, 8, r.get("blocks", 1000))
        for j in range(mppe):
            n(p + 512 + 4 * j, 4, r["refs"][j] if j < len(r["refs"]) else UNUSED)
            n(p + 512 + 4 * mppe + 8 * j, 8, r["starts"][j] if j < len(r["refs"]) else UNUSED)
    return f


def identities(E, nvd):
    ids = E.file("ids", endless=True)
    if not E.symbolic:
        for v in range(nvd):
            ids.fill(100 + 24 * v, bytes([65 + v]) * 24)
            ids.fill(1000 + 16 * v, f"volume{v}".encode().ljust(16, b"\x00"))
    for v in range(nvd):
        for w in range(v):
            a, b = ids.bytes_at(100 + 24 * v, 24), ids.bytes_at(100 + 24 * w, 24)
            E.assume(E.Not(E.eq(a, b)))
            E.assume(E.Not(E.eq(a.hex(), b.hex())))  # hex() is injective
    return ids


def member_of(d):
    return d.fh if isinstance(d, GhostDisk) else d


def geometry(E, ids, vd, r, bs):
    lv = expected_level(E, r)
    level, layout, num = lv
    E.prove_eq("level", E.get(vd, "level"), level)
    if layout is not None:
        E.prove_eq("layout", E.get(vd, "layout"), layout)
    E.prove_eq("number of members", E.get(vd, "num_disks"), num)
    block = E.ite(r["bs"] == 0xFFFF, bs, r["bs"])
    E.prove_eq("size", E.get(vd, "size"), r["size"] * block)
    E.prove_eq("stripe size", E.get(vd, "stripe_size"), 2 ** r["strip"] * block)
    E.prove_eq("name", E.get(vd, "name"), ids.bytes_at(1000 + 16 * r["vd"], 16).split(b"\x00")[0].decode("ascii"))


def levels(E):
    """One member, one virtual disk: every level, qualifier and element count."""
    ids = identities(E, 1)
    bs = E.int("bs", 1, 0xFFFE, pick=picks(512, 4096))
    r = record(E, ids, 0, 1, [5])
    E.assume(r["refs"][0] == 5)
    d = disk(E, 0, ids, ids.bytes_at(0, 24), 5, bs, 5000, [5], [r], [5], 1)
    out = E.attempt(DDF, E.list([d]))
    if expected_level(E, r) is None:
        E.prove("unsupported combination refused", out.raised(Exception))
        return
    E.prove("supported combination accepted", out.ok, lambda: repr(out.exc))
    if not out.ok:
        return
    confs = E.items(E.get(out.value, "configurations"))
    E.prove("one configuration", len(confs) == 1)
    vds = E.items(E.get(confs[0], "virtual_disks"))
    E.prove("one virtual disk", len(vds) == 1)
    geometry(E, ids, vds[0], r, bs)


def placement(members, elements, nrec, same=False):
    """members: present members; nrec records, of one virtual disk (same) or one each."""

    def drv(E):
        n, m, k = E.choose("members", members), E.choose("elements", elements), E.choose("records", nrec)
        nvd = 1 if same else k
        ids = identities(E, nvd)
        bs = E.int("bs", 1, 0xFFFE, pick=picks(512, 4096))
        pool = [3, 7, 9, 0x10, 0x80000001, 11, 12, 13, 100, 20, 0x200, 0xFFFF, 1, 17, 0xFFFFFFFE]
        refs = [E.int(f"own{i}", 0, UNUSED - 1, pick=picks(pool[i])) for i in range(n)]
        for i in range(n):
            for j in range(i):
                E.assume(refs[i] != refs[j])
        lv = dict(prl=1, rlq=0, srl=0, pec=2) if same else dict(prl=0, rlq=0, srl=0, secn=1)
        recs = []
        order = list(range(m))
        for j in range(k):
            fixed = dict(lv)
            if same:
                fixed.update(secn=k, seq=j)
            r = record(E, ids, 0 if same else j, m, refs + pool[-2:] + [UNUSED], name=f"_{j}", **fixed)
            if not E.symbolic:
                # mostly well-formed sequences: distinct members, unused slots in between
                if not E.asg.get("ints") and E.rng.random() < 0.9:
                    some = E.rng.sample(pool[: n + 1], min(m, n + 1))
                    r["refs"] = [x if E.rng.random() < 0.8 else UNUSED for x in some] + [UNUSED] * (m - len(some))
                    if not same:
                        r["pec"] = max(1, sum(x != UNUSED for x in r["refs"]))
            recs.append(r)
        if same:
            for r in recs[1:]:
                for key in ("strip", "size", "bs"):
                    r[key] = recs[0][key]
        for r in recs:
            used = [x for x in r["refs"]]
            for a in range(m):
                for b in range(a):
                    E.assume(E.Or(used[a] != used[b], used[a] == UNUSED))
        where = []
        if E.symbolic:
            carry = [recs for _ in range(n)] if n == 1 or E.choose("split", [False, True]) is False else [recs[:1], recs[1:] or recs, recs][:n]
        else:
            carry = [E.rng.sample(recs, len(recs)) for _ in range(n)]
        ds = [disk(E, i, ids, ids.bytes_at(0, 24), refs[i], bs, 5000, refs, carry[i], sorted({*refs, *pool}) if not E.symbolic else refs, nvd) for i in range(n)]
        # expected members: position among the used elements
        maps = {}
        for r in recs:
            mp = maps.setdefault(r["vd"], {})
            base = r["seq"] * r["pec"] if same else 0
            pos = 0
            for ref, start in zip(r["refs"], r["starts"]):
                if pos == r["pec"]:
                    break
                if ref == UNUSED:
                    continue
                for i in range(n):
                    if ref == refs[i]:
                        mp[base + pos] = (start * bs, i)
                        break
                pos += 1
        for mp in maps.values():
            E.assume(len(mp) > 0)
        out = E.call(DDF, E.list(ds))
        confs = E.items(E.get(out, "configurations"))
        E.prove("one configuration", len(confs) == 1)
        E.prove("all members in the configuration", len(E.items(E.get(confs[0], "physical_disks"))) == n)
        vds = E.items(E.get(confs[0], "virtual_disks"))
        E.prove("every virtual disk once", len(vds) == nvd)
        for r in recs if not same else recs[:1]:
            vd = None
            for x in vds:
                if E.eq(E.get(x, "uuid"), r["guid"].hex()):
                    vd = x
            E.prove("virtual disk present", vd is not None)
            if vd is None:
                return
            if not E.symbolic:
                geometry(E, ids, vd, r, bs)
            got = E.get(vd, "disk_map")
            mp = maps[r["vd"]]
            E.prove("number of placed members", len(got) == len(mp), lambda: f"{dict(got)} for {mp}")
            for at, (start, i) in mp.items():
                x = E.call(dict.get, got, at) if not E.symbolic else got.get(at)
                E.prove("member at its index", x is not None)
                if x is None:
                    return
                E.prove_eq("data start", x[0], start)
                E.prove("right member", (x[1] is ds[i]) if E.symbolic else (E.get(x[1], "fh") is ds[i]))

    return drv


def concat(counts):
    """A concatenation joins the elements, whose length each disk records for itself."""

    def drv(E):
        n = E.choose("members", counts)
        ids = identities(E, 1)
        bs = E.choose("bs", [512, 4096])
        top = 1000 * 512 // bs
        start = [E.int(f"start{i}", 0, (1 << 64) - 1, pick=picks(0, 1, 8, 40)) for i in range(n)]
        blocks = [E.int(f"blocks{i}", 1, (1 << 64) - 1, pick=picks(1, 2, 7, 60, 80)) for i in range(n)]
        if not E.symbolic:
            E.assume(all(a + b <= top for a, b in zip(start, blocks)))
        total = sum(blocks)
        refs = [3, 7, 9, 11, 12, 13, 100, 20, 0x200, 0xFFFF, 1, 17][:n]
        slots = E.choose("unused", [None, 0, 1])
        at = list(range(n)) if slots is None else [i + (i >= slots) for i in range(n)]
        m = n + (slots is not None)
        rec = dict(vd=0, guid=ids.bytes_at(100, 24), prl=0x1F, rlq=0, srl=0, secn=1, seq=0, pec=n, strip=3, size=total, bs=E.choose("recorded bs", [bs, 0xFFFF]),
                   refs=[UNUSED] * m, starts=[0] * m)
        for i, p in enumerate(at):
            rec["refs"][p], rec["starts"][p] = refs[i], start[i]
        ds = [disk(E, i, ids, ids.bytes_at(0, 24), refs[i], bs, 5000, refs, [{**rec, "blocks": blocks[i]}], refs, 1) for i in range(n)]
        order = E.choose("order", [False, True])
        out = E.call(DDF, E.list(ds[::-1] if order else ds))
        confs = E.items(E.get(out, "configurations"))
        vds = E.items(E.get(confs[0], "virtual_disks"))
        E.prove("one virtual disk", len(confs) == 1 and len(vds) == 1)
        st = E.call(vds[0].open)
        ends = [sum(blocks[: i + 1]) * bs for i in range(n)]

        def spec(p):
            r = None
            for i in reversed(range(n)):
                b = (ds[i].fh if E.symbolic else ds[i]).at(start[i] * bs + p - (ends[i - 1] if i else 0))
                r = b if r is None else E.ite(p < ends[i], b, r)
            return r

        check_stream(E, st, spec, total * bs)

    return drv


def concat_any(E):
    """Any number of elements: the linear set is made of them (what it reads is C04)."""
    if not E.symbolic:
        return concat([4, 5, 6, 11])(E)
    n, size = E.int("n", 1), E.int("size", 1)
    bs = E.choose("bs", [512, 4096])
    fam = E.family("disk")
    start = lambda i: E.fun("start", i, lo=0)
    blocks = lambda i: E.fun("blocks", i, lo=1)
    other = E.int("other", 1)
    guid = b"concatenated virtual dsk"
    more = E.choose("other records", [False, True])

    def member(i):
        recs = [Ghost(guid=b"another virtual disk    ", block_count=other)] * more + [Ghost(guid=guid, block_count=blocks(i))]
        return start(i) * bs, GhostDisk(fh=fam.file(i), offset=0, block_size=bs, virtual_disk_configuration_records=recs)

    rec = Ghost(guid=guid, primary_raid_level=0x1F, raid_level_qualifier=0, secondary_raid_level=0, primary_element_count=n, secondary_element_count=1,
                size=size, block_size=E.choose("recorded bs", [bs, 0xFFFF]), strip_size=3, block_count=blocks(0))
    vd = E.call(ddf.DDFVirtualDisk, rec, Ghost(guid=guid, name="name"), E.table(n, member, lambda i: i))
    K = E.ghost()

    def same(got, i):
        off, d = got
        return E.And(E.get(d, "size") == blocks(i) * bs, E.Implies(E.And(K >= 0, K < blocks(i) * bs),
                     E.stream_byte(E.call(d.open), off + K) == fam.file(i).at(start(i) * bs + K)))

    em = E.emitter("elements", lambda i: [i], lambda r: r, same, keyed=True)
    out = E.file("linear", endless=True)

    def linear(E, vd):
        E.prove_eq("number of elements", E.get(vd, "num_disks"), n)
        E.prove_filled("elements", E.get(vd, "disk_map"), em, n)
        return out

    E.contract(LinearStream, linear)
    if E.call(vd.open) is not out:
        E.unsupported("opened in another way")


def grouping(counts):
    def drv(E):
        n = E.choose("members", counts)
        ids = identities(E, 1)
        heads = []
        for i in range(n):
            if not E.symbolic:
                ids.fill(2000 + 24 * i, bytes([E.rng.choice([1, 2, 3])]) * 24)
            heads.append(ids.bytes_at(2000 + 24 * i, 24))
        r = dict(vd=0, guid=ids.bytes_at(100, 24), prl=0, rlq=0, srl=0, secn=1, seq=0, pec=n, strip=1, size=5, bs=512, refs=list(range(1, n + 1)), starts=[0] * n)
        ds = [disk(E, i, ids, heads[i], i + 1, 512, 5000, None, [r], list(range(1, n + 1)), 1) for i in range(n)]
        if E.symbolic:
            E.contract(ddf.DDFConfiguration, lambda E, disks: Ghost(physical_disks=disks))
        wrap = not E.symbolic and E.rng.random() < 0.5
        out = E.call(DDF, E.list([DDFPhysicalDisk(d) if wrap and i % 2 else d for i, d in enumerate(ds)]) if n != 1 or E.choose("as list", [True, False]) else ds[0])
        sets = []
        for i in range(n):
            for s in sets:
                if E.eq(heads[i], heads[s[0]]):
                    s.append(i)
                    break
            else:
                sets.append([i])
        got = []
        for c in E.items(E.get(out, "configurations")):
            got.append(sorted(next(i for i, x in enumerate(ds) if x is (d if E.symbolic else d.fh)) for d in E.items(E.get(c, "physical_disks"))))
        E.prove("members of each set", sorted(got) == sorted(sets), lambda: f"{got} for {sets}")

    return drv


DRIVERS = [
    Driver("levels", levels, samples=600),
    Driver("placement-1", placement([1], [1, 2, 3], [1]), samples=150),
    Driver("placement-2", placement([2], [2, 3], [1]), samples=150),
    Driver("placement-3", placement([3], [3], [1]), samples=100),
    Driver("two-disks-1", placement([1], [1, 2], [2]), samples=150),
    Driver("two-disks-2", placement([2], [1], [2]), samples=150),
    Driver("secondary", placement([1, 2], [2], [2], same=True), samples=150),
    Driver("many", placement([1, 2, 3, 5, 7, 12], [1, 3, 8, 16], [1, 2, 4]), symbolic=False, bounded="up to 12 members, 16 elements, 4 virtual disks", samples=400),
    Driver("secondary-many", placement([2, 4, 6, 12], [2, 3, 4], [2, 3, 6, 11], same=True), symbolic=False, bounded="up to 12 members in 11 secondary elements", samples=200),
    Driver("concat", concat([1, 2, 3]), samples=60),
    Driver("concat-any", concat_any, samples=30),
    Driver("grouping", grouping([1, 2, 3]), samples=150),
]
