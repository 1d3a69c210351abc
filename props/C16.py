"""C16: LVM logical volumes read the extents their segments describe."""
import itertools

from dissect.util import stream as us
from dissect.volume.dm.thin import ThinPool
from dissect.volume.exceptions import LVM2Error
from dissect.volume.lvm import physical
from dissect.volume.lvm.lvm2 import LVM2
from dissect.volume.lvm.metadata import MirrorSegment, StripedSegment, ThinSegment, VolumeGroup
from dissect.volume.lvm.physical import LVM2Device
from dissect.volume.raid.raid import VirtualDisk

from pyvc.terms import Unsupported

from . import C13, lvmtext, utilstreams
from .common import Driver, check_stream, picks

LEVEL = "proof"
ASSUMPTIONS = [
    "any number of segments of a volume and of legs of a striped segment, given the parsed segments (2 physical volumes, up to 3 segments, stripes and mirror legs from the metadata on); extent size, stripe size, extent numbers and counts, data area positions and sizes are unbounded",
    "segments of a volume are contiguous, extents lie on their physical volume, striped segments hold whole stripes on every leg and the stripe size divides the extent size (what LVM2 writes)",
    "the data area recorded in the header starts where the metadata says (pe_start), in whole sectors; device sizes are whole sectors",
    "legs of striped segments are physical volumes, thin volumes have no external origin",
    "device identities are given (their decoding is C14), the parsed metadata is given (C15); thin pools are C12 and C13",
]
S = 512
HDR = 512 + 32


def device(E, i, meta=False, big=False):
    """Device number i with its label in sector 1; data area at off, recorded size."""
    f = E.file(f"pv{i}", endless=True)
    u = f.uint
    if not E.symbolic:
        r = E.rng
        f.fill(0, bytes(512))
        f.fill(512, b"LABELONE" + bytes(12) + (32).to_bytes(4, "little"))
        f.fill(HDR, IDS[i].replace("-", "").encode())
        f.filln(HDR + 32, 8, S * (1 << 45 if big else r.choice([1 << 12, 1 << 20, 1 << 30])))
        f.filln(HDR + 40, 8, S * r.choice([1, 8, 2048, 4096]) + 16384)
        f.fill(HDR + 48, bytes(8 + 16))
        f.fill(HDR + 72, bytes(32))
        if meta:
            f.filln(HDR + 72, 8, 4096)
    E.assume(f.bytes_at(512, 8) == b"LABELONE")
    E.assume(E.Not(f.bytes_at(0, 8) == b"LABELONE"))
    E.assume(E.And(u(512 + 20, 4) == 32, u(HDR + 40, 8) != 0))
    for p in (HDR + 56, HDR + 72 + (16 if meta else 0)):
        E.assume(E.And(u(p, 8) == 0, u(p + 8, 8) == 0))
    if meta:
        E.assume(u(HDR + 72, 8) == 4096)
    size, off = u(HDR + 32, 8), u(HDR + 40, 8)
    E.assume(E.And(size % S == 0, off % S == 0, *[f.at(HDR + k) < 128 for k in range(32)]))
    return f, off, size


IDS = ["AAAAAA-BBBB-CCCC-DDDD-EEEE-FFFF-00000000"[:38].ljust(38, "0"), "abcdef-0123-4567-89ab-cdef-0123-45678900"[:38].ljust(38, "1")]


class Group:
    """A volume group on two physical volumes; the logical volumes are given as metadata dicts."""

    def __init__(self, E, lvs, es=None, missing=(), big=False):
        self.E = E
        self.es = es if es is not None else extents(E)
        self.dev = [device(E, i, big=big) for i in range(2)]
        pvs = {}
        recorded = E.choose("dev_size", [False, True])
        for i in range(2):
            d = {"id": IDS[i], "status": [], "flags": [], "pe_start": self.dev[i][1] // S, "pe_count": E.int(f"pe_count{i}", 0, pick=picks(10, 100, 100000))}
            if recorded:
                d["dev_size"] = E.int(f"devsize{i}", 1, pick=picks(1, 100, 1 << 20))
            pvs[f"pv{i}"] = E.dict(d.items()) if E.symbolic else d
        self.pvs = pvs
        obj = {
            "id": "vg", "seqno": 1, "status": ["RESIZEABLE"], "flags": [], "extent_size": self.es, "max_lv": 0, "max_pv": 0,
            "physical_volumes": pvs, "logical_volumes": lvs,
        }
        self.vg = E.call(VolumeGroup.from_dict, obj, name="vg")
        E.call(self.vg.attach, {IDS[i].replace("-", ""): self.open(i) for i in range(2) if i not in missing})

    def open(self, i):
        return self.E.call(LVM2Device, self.dev[i][0])

    def room(self, i):
        """Size of the physical volume: the device's own or the recorded one if that is larger."""
        E = self.E
        d = self.pvs[f"pv{i}"]
        n = d["dev_size"] * self.es if "dev_size" in d else (d["pe_start"] + d["pe_count"] * self.es) * S
        return self.dev[i][2], n

    def fits(self, i, first, count):
        """Extents first to first + count lie on the physical volume."""
        E = self.E
        size, n = self.room(i)
        end = (first + count) * self.es * S
        E.assume(E.Or(end <= size, E.And(end <= n, n % S == 0)))

    def at(self, i, first, p):
        """Byte p counted from extent first of physical volume i."""
        f, off, _ = self.dev[i]
        return f.at(off + first * self.es * S + p)

    def lv(self, name):
        return self.E.get(self.vg, "logical_volumes")[name]


def extents(E):
    return E.int("extent_size", 1, pick=picks(1, 2, 8, 16, 8192))


def volume(*segments):
    d = {"id": "lv", "status": ["READ", "VISIBLE"], "flags": [], "segment_count": len(segments)}
    for i, s in enumerate(segments):
        d[f"segment{i + 1}"] = s
    return d


def linear_segment(E, j, start, pv, kind="striped"):
    count, first = E.int(f"count{j}", 1, pick=picks(1, 2, 3, 50)), E.int(f"first{j}", 0, pick=picks(0, 1, 5, 60))
    d = {"start_extent": start, "extent_count": count, "type": kind, "stripe_count": 1, "stripes": [f"pv{pv}", first]}
    return d, count, first


def linear(n):
    """Volumes of n linear segments."""

    def drv(E):
        pvs = E.choose("placement", list(itertools.product(range(2), repeat=n)))
        kind = E.choose("type", ["striped", "linear"])
        order = E.choose("order", [list(range(n)), list(range(n))[::-1]])
        segs, start = [], 0
        for j in range(n):
            d, count, first = linear_segment(E, j, start, pvs[j], kind)
            segs.append((d, start, count, first))
            start = start + count
        g = Group(E, {"lv": volume(*[segs[j][0] for j in order])})
        for j in range(n):
            g.fits(pvs[j], segs[j][3], segs[j][2])
        st = E.call(g.lv("lv").open)
        unit = g.es * S

        def spec(p):
            r = None
            for j in reversed(range(n)):
                b = g.at(pvs[j], segs[j][3], p - segs[j][1] * unit)
                r = b if r is None else E.ite(p < (segs[j][1] + segs[j][2]) * unit, b, r)
            return r

        check_stream(E, st, spec, start * unit)

    return drv


class Part:
    """A segment given by its contract."""

    def __init__(self, start, count, fh):
        self.start_extent, self.extent_count, self.type, self.fh = start, count, "striped", fh

    def open(self):
        return self.fh


def segments_any(E):
    """Any number of segments: one run for each (what such a stream reads is util-mapping-read-any)."""
    if not E.symbolic:
        return linear(E.choose("count", [4, 7, 12]))(E)
    n = E.int("n", 1)
    fam = E.family("segment")
    first = lambda i: E.fun("first", i, lo=0)
    count = lambda i: E.fun("count", i, lo=1)
    d, *_ = linear_segment(E, 0, 0, 0)
    g = Group(E, {"lv": volume(d)})
    lv = g.lv("lv")
    add = us.MappingStream.__dict__.get("add")
    if "_segments" not in lv.__dict__ or not add:
        E.unsupported("the class is organised differently")
    lv._segments = E.symseq(n, lambda i: Part(first(i), count(i), fam.file(i)))
    unit = g.es * S
    K = E.ghost()

    def same(got, i):
        off, sz, fh, skip = got
        return E.And(off == first(i) * unit, sz == count(i) * unit, E.stream_byte(fh, skip + K) == fam.file(i).at(K))

    runs = E.list()
    em = E.emitter("runs", lambda i: [i], lambda r: r, same)
    E.contract(add, lambda E, self, off, sz, fh, skip=0: runs.append((off, sz, fh, skip)))
    st = E.call(lv.open)
    if not isinstance(st, us.MappingStream) or type(st)._read is not us.MappingStream._read:
        E.unsupported("volumes are no mapping of runs")
    E.prove_list("runs", runs, [em.run(0, n)])


def striped(n):
    """One striped segment on n legs."""

    def drv(E):
        pvs = E.choose("placement", list(itertools.product(range(2), repeat=n)))
        rows = E.int("rows", 1, pick=picks(1, 2, 7))
        first = [E.int(f"first{i}", 0, pick=picks(0, 1, 5, 60)) for i in range(n)]
        ss = E.int("stripe_size", 1, pick=picks(1, 2, 4))
        per = E.int("stripes_per_extent", 1, pick=picks(1, 2, 8))
        seg = {"start_extent": 0, "extent_count": n * rows, "type": "striped", "stripe_count": n, "stripe_size": ss,
               "stripes": [x for i in range(n) for x in (f"pv{pvs[i]}", first[i])]}
        g = Group(E, {"lv": volume(seg)}, es=ss * per)
        for i in range(n):
            g.fits(pvs[i], first[i], rows)
        seg = E.get(g.lv("lv"), "segments")[0]
        size = n * rows * ss * per * S
        if E.symbolic:
            ghost = []

            def raid0(E, vd):
                """Contract of C01 for members of equal size: chunk c is chunk c // n of member c % n."""
                dm = E.get(vd, "disk_map")
                E.prove_eq("striped: level", E.get(vd, "level"), 0)
                E.prove_eq("striped: number of legs", E.get(vd, "num_disks"), n)
                E.prove_eq("striped: legs", sorted(dm), list(range(n)))
                E.prove_eq("striped: stripe size", E.get(vd, "stripe_size"), ss * S)
                E.prove_eq("striped: size", E.get(vd, "size"), size)
                r, o = E.int("row", 0), E.int("in stripe", 0)
                E.assume(E.And(r < rows * per, o < ss * S))
                for i in range(n):
                    start, disk = dm[i]
                    E.prove_eq("striped: size of a leg", E.get(disk, "size"), rows * per * ss * S)
                    b = E.stream_byte(E.call(disk.open), start + r * ss * S + o)
                    if b is None:
                        raise Unsupported("leg of unknown kind")
                    E.prove_eq("striped: bytes of a leg", b, g.at(pvs[i], first[i], r * ss * S + o))
                ghost.append(E.file("striped", endless=True))
                return ghost[0]

            E.contract(VirtualDisk.open, raid0)
            st = E.call(seg.open)
            if ghost:
                E.prove("striped: the segment is the striped set", st is ghost[0])
                return
        st = E.call(seg.open)

        def spec(p):
            c = p // (ss * S)
            r = None
            for i in reversed(range(n)):
                b = g.at(pvs[i], first[i], c // n * (ss * S) + p % (ss * S))
                r = b if r is None else E.ite(c % n == i, b, r)
            return r

        check_stream(E, st, spec, size)

    return drv


def striped_any(E):
    """Any number of legs on any number of physical volumes: the striped set is made of them (its content is C01)."""
    if not E.symbolic:
        return striped(E.choose("count", [4, 5, 8, 11]))(E)
    n, rows = E.int("n", 2), E.int("rows", 1)
    ss, per = E.int("stripe_size", 1), E.int("stripes_per_extent", 1)
    es = ss * per
    fam = E.family("pv")
    pv = lambda i: E.fun("pv", i, lo=0)
    first = lambda i: E.fun("first", i, lo=0)
    seg = {"start_extent": 0, "extent_count": n * rows, "type": "striped", "stripe_count": n, "stripe_size": ss, "stripes": ["pv0", 0, "pv1", 0]}
    g = Group(E, {"lv": volume(seg)}, es=es)
    seg = E.get(g.lv("lv"), "segments")[0]
    if "stripes" not in seg.__dict__ or "physical_volumes" not in g.vg.__dict__:
        E.unsupported("the class is organised differently")
    seg.stripes = E.symseq(n, lambda i: (pv(i), first(i)))
    g.vg.physical_volumes = E.symmap(lambda k: True, lambda k: Part(0, 0, fam.file(k)))
    K = E.ghost()

    def same(got, i):
        start, disk = got
        return E.And(E.get(disk, "size") == rows * es * S, E.Implies(E.And(K >= 0, K < rows * es * S),
                     E.stream_byte(E.call(disk.open), start + K) == fam.file(pv(i)).at(first(i) * es * S + K)))

    em = E.emitter("legs", lambda i: [i], lambda r: r, same, keyed=True)
    out = E.file("striped", endless=True)

    def raid0(E, vd):
        E.prove_eq("striped: level", E.get(vd, "level"), 0)
        E.prove_eq("striped: number of legs", E.get(vd, "num_disks"), n)
        E.prove_eq("striped: stripe size", E.get(vd, "stripe_size"), ss * S)
        E.prove_eq("striped: size", E.get(vd, "size"), n * rows * es * S)
        E.prove_filled("striped: legs", E.get(vd, "disk_map"), em, n)
        return out

    E.contract(VirtualDisk.open, raid0)
    if E.call(seg.open) is not out:
        E.unsupported("opened in another way")


def composed(n):
    """A volume is its segments one after the other, whatever they are."""

    def drv(E):
        kinds = E.choose("kinds", list(itertools.product(["striped", "mirror", "thin"], repeat=n)) if E.symbolic else [("striped",) * n, ("striped", "mirror", "striped")[:n]])
        segs, start = [], 0
        first = []
        for j in range(n):
            if kinds[j] == "striped":
                d, count, f = linear_segment(E, j, start, j % 2)
            else:
                count, f = E.int(f"count{j}", 1, pick=picks(1, 2, 3, 50)), E.int(f"first{j}", 0, pick=picks(0, 1, 5, 60))
                d = {"start_extent": start, "extent_count": count, "type": kinds[j]}
                d.update({"mirror_count": 1, "mirrors": ["leg", 0]} if kinds[j] == "mirror" else {"thin_pool": "pool", "transaction_id": 1, "device_id": j})
            segs.append((d, start, count))
            first.append(f)
            start = start + count
        lvs = {"lv": volume(*[s[0] for s in segs])}
        legs = [j for j in range(n) if kinds[j] == "mirror"]
        if not E.symbolic and legs:
            j = legs[0]
            lvs["leg"] = volume({"start_extent": 0, "extent_count": segs[j][2], "type": "striped", "stripe_count": 1, "stripes": [f"pv{j % 2}", first[j]]})
        g = Group(E, lvs)
        unit = g.es * S
        if E.symbolic:
            files = [E.file(f"segment{j}", endless=True) for j in range(n)]
            mine = list(E.get(g.lv("lv"), "segments"))

            def seg_open(E, self):
                return files[next(j for j in range(n) if mine[j] is self)]

            for cls in (StripedSegment, MirrorSegment, ThinSegment):
                E.contract(cls.open, seg_open)
            at = lambda j, p: files[j].at(p)
        else:
            for j in range(n):
                g.fits(j % 2, first[j], segs[j][2])
            at = lambda j, p: g.at(j % 2, first[j], p)
        st = E.call(g.lv("lv").open)

        def spec(p):
            r = None
            for j in reversed(range(n)):
                b = at(j, p - segs[j][1] * unit)
                r = b if r is None else E.ite(p < (segs[j][1] + segs[j][2]) * unit, b, r)
            return r

        check_stream(E, st, spec, start * unit)

    return drv


def mirror(E):
    """Mirrors read one of their legs, the ones on missing physical volumes are passed over."""
    n = E.choose("legs", [1, 2, 3] if E.symbolic else [1, 2, 3, 4, 6])
    pvs = E.choose("placement", list(itertools.product(range(2), repeat=n)))
    missing = E.choose("missing", [(), (0,), (1,), (0, 1)])
    count, extra = E.int("count", 1, pick=picks(1, 2, 50)), E.int("extra", 0, pick=picks(0, 1, 3))
    first = [E.int(f"first{i}", 0, pick=picks(0, 1, 5, 60)) for i in range(n)]
    begin = [E.int(f"begin{i}", 0, pick=picks(0, 0, 1, 4)) for i in range(n)]
    lvs = {"lv": volume({"start_extent": 0, "extent_count": count, "type": "mirror", "mirror_count": n, "region_size": 1024,
                         "mirrors": [x for i in range(n) for x in (f"leg{i}", begin[i])]})}
    for i in range(n):
        lvs[f"leg{i}"] = volume({"start_extent": 0, "extent_count": begin[i] + count + extra, "type": "striped", "stripe_count": 1,
                                 "stripes": [f"pv{pvs[i]}", first[i]]})
    g = Group(E, lvs, missing=missing)
    for i in range(n):
        g.fits(pvs[i], first[i], begin[i] + count + extra)
    alive = [i for i in range(n) if pvs[i] not in missing]
    out = E.attempt(g.lv("lv").open)
    if not alive:
        E.prove("no leg left", out.raised(LVM2Error))
        return
    E.prove("opened", out.ok)
    if not out.ok:
        return
    st = out.value
    size = count * g.es * S
    E.prove_eq("size", E.get(st, "size"), size)
    at = lambda i, p: g.at(pvs[i], first[i], begin[i] * g.es * S + p)
    if E.symbolic:
        p = E.ghost()
        b = E.stream_byte(st, p)
        if b is None:
            raise Unsupported("mirror of unknown kind")
        E.prove("bytes of a leg that is present", E.Implies(E.And(p >= 0, p < size), E.Or(*[b == at(i, p) for i in alive])))
        return
    off = E.int("off", 0, pick=lambda r: r.choice([0, r.randrange(size)]))
    E.assume(off < size)
    E.call(st.seek, off)
    data = E.call(st.read, 700)
    E.prove("bytes of a leg that is present", any(data == bytes(at(i, off + k) for k in range(min(700, size - off))) for i in alive))


def absent(E):
    """A missing physical volume is an error that names it."""
    n = E.choose("legs", [1, 2])
    gone = E.choose("missing", [0, 1])
    pvs = (gone,) if n == 1 else E.choose("placement", [(gone, 1 - gone), (1 - gone, gone)])
    es = E.int("extent_size", 1, pick=picks(1, 8))
    seg = {"start_extent": 0, "extent_count": n, "type": "striped", "stripe_count": n, "stripes": [x for p in pvs for x in (f"pv{p}", 0)]}
    if n > 1:
        seg["stripe_size"] = es
    other = {"start_extent": n, "extent_count": 1, "type": "striped", "stripe_count": 1, "stripes": [f"pv{1 - gone}", 1]}
    segs = E.choose("segments", [[seg], [seg, other]])
    g = Group(E, {"lv": volume(*segs)}, es=es, missing=(gone,))
    out = E.attempt(g.lv("lv").open)
    E.prove("missing physical volume reported", out.raised(LVM2Error))
    if not out.ok:
        E.prove("missing physical volume named", f"pv{gone}" in str(out.exc))


def group(E):
    """From devices to volumes: physical volumes are the devices with their identity, the metadata is that of any device."""
    carrying = E.choose("metadata on", [(0,), (1,), (0, 1), ()])
    present = E.choose("devices", [(0, 1), (1, 0), (0,), (1,)])
    kind = E.choose("given as", ["devices", "files"]) if not E.symbolic else "devices"
    es = extents(E)
    count = [E.int(f"count{j}", 1, pick=picks(1, 2, 3)) for j in range(2)]
    first = [E.int(f"first{j}", 0, pick=picks(0, 1, 5)) for j in range(2)]
    lvs = {f"lv{j}": volume({"start_extent": 0, "extent_count": count[j], "type": "striped", "stripe_count": 1, "stripes": [f"pv{j}", first[j]]}) for j in range(2)}
    dev = [device(E, i, meta=i in carrying) for i in range(2)]
    for j in range(2):
        E.assume((first[j] + count[j]) * es * S <= dev[j][2])
    doc = {
        "vg": {
            "id": "vg", "seqno": 1, "status": ["RESIZEABLE"], "flags": [], "extent_size": es, "max_lv": 0, "max_pv": 0,
            "physical_volumes": {f"pv{i}": {"id": IDS[i], "status": [], "flags": [], "pe_start": dev[i][1] // S, "pe_count": first[i] + count[i]} for i in range(2)},
            "logical_volumes": lvs,
        },
        "contents": "Text Format Volume Group", "version": 1,
    }
    for i in carrying:
        f = dev[i][0]
        if not E.symbolic:
            text = lvmtext.dump(doc, E.rng).encode()
            f.filln(4096 + 24, 8, 4096)
            f.filln(4096 + 32, 8, 16384)
            f.fill(4096 + 40, bytes(48))
            f.filln(4096 + 40, 8, 512)
            f.filln(4096 + 48, 8, len(text) + 1)
            f.fill(4096 + 512, text + b"\0")
        u = f.uint
        E.assume(E.And(u(4096 + 40, 8) == 512, u(4096 + 48, 8) >= 1, u(4096 + 48, 8) <= u(4096 + 32, 8) - 512, u(4096 + 60, 4) == 0, u(4096 + 24, 8) == 4096))
        E.assume(E.And(u(4096 + 64, 8) == 0, u(4096 + 72, 8) == 0, u(4096 + 80, 4) == 0, u(4096 + 84, 4) == 0))
    if E.symbolic and hasattr(physical, "parse_metadata"):
        E.contract(physical.parse_metadata, lambda E, s: E.dict(doc.items()))
    given = []
    for i in present:
        d = dev[i][0]
        if kind == "devices":
            d = E.call(LVM2Device, d)
            if E.symbolic:
                d.id = IDS[i].replace("-", "")
        given.append(d)
    out = E.attempt(LVM2, given if len(given) > 1 or E.choose("list", [True, False]) else given[0])
    if not set(carrying) & set(present):
        E.prove("no metadata anywhere", out.raised(LVM2Error))
        return
    E.prove("opened", out.ok)
    if not out.ok:
        return
    vg = E.get(out.value, "volume_group")
    for j in range(2):
        lv = E.get(vg, "logical_volumes")[f"lv{j}"]
        if j not in present:
            o = E.attempt(lv.open)
            E.prove("missing physical volume reported", o.raised(LVM2Error) and f"pv{j}" in str(o.exc))
            continue
        f, off, _ = dev[j]
        check_stream(E, E.call(lv.open), lambda p: f.at(off + first[j] * es * S + p), count[j] * es * S, f"volume {j}")


class View:
    """A stretch of a device, for building images."""

    def __init__(self, f, base):
        self.f, self.base = f, base

    def fill(self, p, data):
        self.f.fill(self.base + p, data)

    put = fill

    def filln(self, p, *a):
        self.f.filln(self.base + p, *a)

    def uint(self, p, *a):
        return self.f.uint(self.base + p, *a)

    def at(self, p):
        return self.f.at(self.base + p)


def thin(E):
    """Thin volumes read the thin device of the pool made of the pool's metadata and data volumes."""
    pool = E.int("pool extents", 1, pick=picks(1 << 20, 1 << 30))
    # thin volumes may be larger than their pool
    count = E.int("count", 1, pick=lambda r: r.choice([1, 2, 50, pool + r.randint(1, 9)]))
    first = [E.int(f"first{i}", 0, pick=picks(0, 1, 5)) for i in range(2)]
    ident = E.int("device_id", 0, pick=picks(0, 1, 2, 7, 9))
    pvs = E.choose("placement", [(0, 1), (1, 0)])
    lvs = {"lv": volume({"start_extent": 0, "extent_count": count, "type": "thin", "thin_pool": "pool", "transaction_id": 1, "device_id": ident}),
           "pool": volume({"start_extent": 0, "extent_count": pool, "type": "thin-pool", "metadata": "meta", "pool": "data", "transaction_id": 1, "chunk_size": 128})}
    for i, name in enumerate(("meta", "data")):
        lvs[name] = volume({"start_extent": 0, "extent_count": pool, "type": "striped", "stripe_count": 1, "stripes": [f"pv{pvs[i]}", first[i]]})
    g = Group(E, lvs, big=True)
    for i in range(2):
        g.fits(pvs[i], first[i], pool)
    size = count * g.es * S
    if E.symbolic:
        p = E.ghost()
        ghost = E.file("thin", endless=True)

        class Pool:
            def __init__(self, meta, data):
                for i, st in enumerate((meta, data)):
                    b = E.stream_byte(st, p)
                    if b is None:
                        raise Unsupported("pool volume of unknown kind")
                    E.prove(f"thin: {('metadata', 'data')[i]} volume", E.Implies(E.And(p >= 0, p < pool * g.es * S), b == g.at(pvs[i], first[i], p)))

            def __getattr__(self, name):
                raise Unsupported(f"pool.{name}")

            def open(self, device_id, size_hint=None):
                E.prove_eq("thin: device", device_id, ident)
                E.prove_eq("thin: size", size_hint, size)
                return ghost

        E.contract(ThinPool, lambda E, meta, data: Pool(meta, data))
        check_stream(E, E.call(g.lv("lv").open), ghost.at, size, "thin")
        return
    views = [View(g.dev[pvs[i]][0], g.dev[pvs[i]][1] + first[i] * g.es * S) for i in range(2)]
    meta, data, _, known, bs, block = C13.pool(E, files=views, ident=ident, bits=(3, 8))
    # the image built here lies inside the pool's volumes
    E.assume(E.And(known, pool * g.es * S >= 1 << 28))
    check_stream(E, E.call(g.lv("lv").open), C13.spec(E, data, bs, block), size, "thin")


DRIVERS = [Driver(f"linear-{n}", linear(n), samples=150) for n in (1, 2, 3)]
DRIVERS += [Driver("segments-any", segments_any, samples=100)]
DRIVERS += [Driver(f"striped-{n}", striped(n), samples=150) for n in (2, 3)]
DRIVERS += [Driver("striped-any", striped_any, samples=100)]
DRIVERS += [Driver(f"composed-{n}", composed(n), samples=150) for n in (2, 3)]
DRIVERS += [Driver("mirror", mirror, samples=200), Driver("missing", absent, samples=100), Driver("group", group, samples=200), Driver("thin", thin, samples=150)]
DRIVERS += [*utilstreams.ALIGNED, *utilstreams.MAPPING, *utilstreams.RUNLIST]
