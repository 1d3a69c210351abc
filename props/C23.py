"""C23: Shadow copies resolve each block to its state at snapshot time."""
from dissect.volume import vss
from dissect.volume.exceptions import Error
from dissect.volume.vss import VSS

from pyvc.terms import Unsupported

from . import utilstreams
from .common import Driver, check_stream, picks

LEVEL = "proof"
ASSUMPTIONS = [
    "the volume is long enough for every block that is read; bitmaps cover every block that is looked up",
    "a block descriptor is not forwarder and overlay at once; no later full descriptor has the relative offset (in blocks) of an earlier"
    " forwarder of the same store (how such chains of forwarders within one store combine is not documented)",
    "a store has one descriptor of type 2 followed by one of type 3, creation times of stores differ",
    "the variable-length text of the store information is decoded by cstruct (only its position in the file matters)",
]
IDENT = bytes.fromhex("6b87083876c1484eb7ae04046e6cc752")
BS = 0x4000
HDR = 128
DATA = BS - HDR
# record types
VOLUME, CATALOG, INDEX, HEADER, RANGES, BITMAP = 1, 2, 3, 4, 5, 6
FWD, OVER, UNUSED = 1, 2, 4


# ------------------------------------------------------------------ complete images for the samples
def u(v, w=8):
    return int(v).to_bytes(w, "little")


class Image:
    """A volume with shadow copies, newest last in ``stores``."""

    def __init__(self, E, stores, blocks, tail=0):
        self.E, self.f = E, E.file("volume", endless=True)
        self.blocks, self.size = blocks, blocks * BS + tail
        self.r = E.rng
        self.free = (self.r.choice([64, 4096]) + blocks) * BS
        self.where = {}
        self.stores = [self.store(i) for i in range(stores)]
        self.catalog()
        self.f.fill(0x1E00, IDENT + u(self.r.choice([1, 2]), 4) + u(VOLUME, 4) + u(0x1E00) + u(0) * 2 + u(self.where["catalog", 0]) + u(0))

    def place(self, n=BS):
        self.free += BS * self.r.choice([1, 1, 2, 7])
        p = self.free
        self.free += -(-n // BS) * BS
        return p

    def chain(self, name, kind, pieces, size=0):
        """Blocks of metadata, each with its header; returns the offset of the first."""
        at = [self.place() for _ in pieces]
        if self.r.random() < 0.3:
            at.reverse()
        for i, (p, d) in enumerate(zip(at, pieces)):
            self.where[name, i] = p
            nxt = at[i + 1] if i + 1 < len(at) else 0
            self.f.fill(p, IDENT + u(1, 4) + u(kind, 4) + u(i * BS) + u(p) + u(nxt) + u(size if not i else 0) + bytes(72) + d.ljust(DATA, b"\x00"))
        return at[0]

    def store(self, i):
        r = self.r
        ds, rev = [], set()
        for _ in range(r.choice([0, 1, 2, 3, 6, 20])):
            k = r.choice([0, 0, FWD, FWD, OVER, OVER, OVER, UNUSED, UNUSED | r.choice([FWD, OVER])])
            orig = r.randrange(self.blocks) * BS
            rel = r.choice([r.randrange(self.blocks) * BS, orig, r.randrange(4 * self.blocks) * BS])
            if not k & (OVER | UNUSED):
                if rel // BS in rev:
                    continue
                if k & FWD and rel != orig:
                    rev.add(rel // BS)
            bits = r.choice([r.randrange(1 << 32), 1 << r.randrange(32), 0xFFFFFFFF, 0x80000001])
            ds.append((orig, rel, self.place(), k, bits if k & OVER else r.choice([0, bits])))
        bl = [bytearray(DATA) for _ in range(r.choice([1, 1, 2, 3]))]
        slots = sorted(r.sample(range(508 * len(bl)), len(ds))) if r.random() < 0.6 else range(len(ds))
        for s, (o, rel, at, k, bits) in zip(slots, ds):
            bl[s // 508][32 * (s % 508) : 32 * (s % 508) + 32] = u(o) + u(rel) + u(at) + u(k, 4) + u(bits, 4)
        st = {"descriptors": ds, "ident": bytes([i + 1]) * 16, "time": 1000 * r.randrange(1000) + i}
        st["list"] = self.chain(("list", i), INDEX, bl)
        maps = []
        for nm in ("bitmap", "previous"):
            if nm == "previous" and r.random() < 0.4:
                maps.append(None)
                st[nm] = 0
                continue
            full = bytes(r.randrange(256) for _ in range(2048 + self.blocks))
            if r.random() < 0.2:
                full = bytes(len(full))
            maps.append(full)
            st[nm] = self.chain((nm, i), BITMAP, [full] + [b""] * r.choice([0, 0, 1]), len(full))
        st["maps"] = maps
        ranges = [[(r.randrange(1, 1 << 40), r.randrange(1 << 40), r.randrange(1 << 30)) for _ in range(r.choice([0, 1, 3]))]]
        if r.random() < 0.3:
            ranges[0] = [(j + 1, j, j) for j in range(677)]
            ranges.append([(7, 8, 9)])
        st["range list"] = [x for b in ranges for x in b]
        st["ranges"] = self.chain(("ranges", i), RANGES, [b"".join(u(v) for x in b for v in x) for b in ranges])
        text = b"\x04\x00a\x00b\x00" + b"\x02\x00c\x00"
        st["header"] = self.chain(("header", i), HEADER, [bytes(16) + bytes([i]) * 32 + u(9, 4) + u(1, 4) + u(1, 4) + u(0, 4) + text])
        return st

    def catalog(self):
        r = self.r
        es = []
        for st in r.sample(self.stores, len(self.stores)):
            es += [u(1) + bytes(120)] * r.choice([0, 0, 1, 126])
            es.append(u(2) + u(self.size) + st["ident"] + u(5) + u(6) + u(st["time"]) + bytes(72))
            es.append(u(3) + u(st["list"]) + st["ident"] + u(st["header"]) + u(st["ranges"]) + u(st["bitmap"]) + u(3) + u(4) + u(st["previous"]) + bytes(48))
        blocks = [b"".join(es[i : i + 127]) for i in range(0, len(es), 127)]
        self.chain("catalog", CATALOG, blocks or [b""])
        self.stores.sort(key=lambda s: s["time"])

    # -- what a block of a shadow copy is
    def state(self, st):
        """block -> [full copy, overlay], blocks that are the target of a forwarder"""
        m, rev = {}, set()
        for o, rel, at, k, bits in st["descriptors"]:
            if k & UNUSED or (k & FWD and o == rel):
                continue
            e = m.setdefault(o // BS, [None, None])
            if k & OVER:
                e[1] = (at, bits) if e[1] is None else (e[1][0], e[1][1] | bits)
            else:
                e[0] = ("forward", rel) if k & FWD else ("copy", at)
                if k & FWD:
                    rev.add(rel // BS)
        return m, rev

    def byte(self, i, p, opened=True):
        b, k = p // BS, p % BS
        st = self.stores[i]
        if "state" not in st:
            st["state"] = self.state(st)
        m, rev = st["state"]
        full, over = m.get(b, (None, None))
        if opened and over and over[1] >> (k // 512) & 1:
            return self.f.at(over[0] + k)
        last = i + 1 == len(self.stores)
        if full and full[0] == "copy":
            return self.f.at(full[1] + k)
        if full:
            return self.f.at(full[1] + k) if last else self.byte(i + 1, full[1] // BS * BS + k, False)
        if not last:
            return self.byte(i + 1, p, False)
        if b in rev or any(x is not None and x[b // 8] >> (b % 8) & 1 for x in st["maps"]):
            return self.f.at(p)
        return 0


class Side:
    """All stores side by side."""

    align = BS

    def __init__(self, streams, size):
        self.streams, self.each = streams, size

    def seek(self, pos):
        self.st = self.streams[pos // self.each]
        self.st.seek(pos % self.each)

    def read(self, n):
        return self.st.read(n)

    def _read(self, pos, n):
        self.seek(pos)
        return self.read(n)


def image(E):
    if E.symbolic:
        E.concrete_only()
    r = E.rng
    im = Image(E, r.choice([1, 1, 2, 3, 4]), r.choice([2, 5, 12]), r.choice([0, 0, 512, 5000]))
    stores = E.get(E.get(E.call(VSS, im.f), "catalog"), "stores")
    if getattr(E, "on_stream", None):
        return E.on_stream(E, Side([s.open() for s in stores], im.size), None, im.size * len(stores))
    E.prove_eq("stores by age", [E.get(s, "creation_time") for s in stores], [s["time"] for s in im.stores])
    for _ in range(3):
        i = r.randrange(len(stores))
        st = E.call(stores[i].open)
        E.prove_eq("size", E.get(st, "size"), im.size)
        for _ in range(4):
            b = r.choice([r.randrange(im.blocks), *[d[0] // BS for d in im.stores[i]["descriptors"][:1]]])
            o = r.choice([b * BS, b * BS + r.randrange(BS), max(0, im.size - r.randrange(1, BS))])
            n = r.choice([BS, 1, r.randrange(1, 3 * BS), 700])
            im.f.pos = r.randrange(99999)
            E.call(st.seek, o)
            E.prove_bytes("shadow copy", E.call(st.read, n), min(n, im.size - o), lambda k: im.byte(i, o + k))
    i = r.randrange(len(stores))
    E.prove_eq("ranges", [(e.store_offset, e.relative_offset, e.size) for e in E.get(E.get(stores[i], "range_list"), "entries")], im.stores[i]["range list"])


def damaged(E):
    if E.symbolic:
        E.concrete_only()
    r = E.rng
    im = Image(E, 1, 3)
    st = im.stores[0]
    b = next((x for x in range(400, 900) if not any(m and m[x // 8] >> (x % 8) & 1 for m in st["maps"])), None)
    reached = [k for k in im.where if k[0] != ("previous", 0) or b is not None]
    name = r.choice(["volume header", "no catalog", *sorted(reached, key=str)])
    at = 0x1E00 if name == "volume header" else im.where.get(name)
    if name == "no catalog":
        im.f.put(0x1E00 + 48, bytes(8))
    elif r.random() < 0.5:
        k = r.randrange(16)
        im.f.put(at + k, bytes([im.f.at(at + k) ^ 1 << r.randrange(8)]))
    else:
        old = im.f.uint(at + 20, 4)
        im.f.put(at + 20, u(r.choice([x for x in (0, 1, 2, 3, 4, 5, 6, 7, 99) if x != old]), 4))

    def use():
        s = E.get(E.get(E.call(VSS, im.f), "catalog"), "stores")[0]
        if name[0] == ("ranges", 0):
            E.get(s, "range_list")
        if name[0] == ("previous", 0) or name[0] == ("bitmap", 0):
            E.call(s.read_block, b if b is not None else 400)
        E.call(E.call(s.open).read, 1)

    try:
        use()
    except Error:
        E.prove("refused", True)
        return
    E.fail("refused", f"damaged {name}")


# ------------------------------------------------------------------ the functions one by one
def ghost(cls):
    """Objects of the class with given attributes; anything else about them is unknown."""

    class Ghost(cls):
        def __getattr__(self, name):
            raise Unsupported(f"attribute {name} of a ghost {cls.__name__}")

    return object.__new__(Ghost)


def with_attrs(E, o, **attrs):
    for k, v in attrs.items():
        object.__setattr__(o, k, v)
    E.ctx.register(o)
    return o


class Blank:
    pass


def part(name):
    v = getattr(vss, name, None)
    if v is None:
        raise Unsupported(f"no {name} in this version")
    return v


def native_image(E):
    if not E.symbolic:
        image(E)
        return True
    return False


def bit(v, i):
    return v // (1 << i) % 2 == 1


def overlay(E, tag, k):
    return with_attrs(E, ghost(part("BlockDescriptor")), is_used=True, is_overlay=True, is_forwarder=False, overlay=None,
                      store_offset=E.fun(tag + "over", k, lo=0), bitmap=E.fun(tag + "bits", k, lo=0, hi=0xFFFFFFFF),
                      relative_offset=E.fun(tag + "orel", k, lo=0), original_offset=E.fun(tag + "oorig", k, lo=0))


def entry(E, tag, k):
    """The descriptor of a block: a full copy or forwarder with or without an overlay, or an overlay alone."""
    if E.pred(tag + "partial", k):
        return overlay(E, tag, k)
    return with_attrs(E, ghost(part("BlockDescriptor")), is_used=True, is_overlay=False, is_forwarder=E.pred(tag + "fwd", k),
                      store_offset=E.fun(tag + "store", k, lo=0), relative_offset=E.fun(tag + "rel", k, lo=0),
                      original_offset=E.fun(tag + "orig", k, lo=0), bitmap=E.fun(tag + "fbits", k, lo=0, hi=0xFFFFFFFF),
                      overlay=overlay(E, tag, k) if E.pred(tag + "hasover", k) else None)


def resolve(E):
    """One step of the chain of snapshots: the newer one is known by its content."""
    if native_image(E):
        return
    Store = part("Store")
    f, newer = E.file("volume", endless=True), E.file("newer", endless=True)
    b = E.int("block", 0)
    maps = [E.file("bitmap", endless=True), E.file("previous", endless=True)]
    size = E.int("bytes of bitmap", 1)
    E.assume(b // 8 < size)
    last = E.choose("newest", [True, False])
    has_prev = E.choose("previous bitmap", [True, False])

    def bitmap(x):
        return with_attrs(E, ghost(part("StoreBitmap")), data=x.bytes_at(0, size))

    class GMap:
        def __getattr__(self, name):
            raise Unsupported(f"attribute {name} of a block map")

    bm = GMap()
    bm.__dict__.update(map=E.symmap(lambda k: E.pred("known", k), lambda k: entry(E, "", k)),
                       reverse=E.symmap(lambda k: E.pred("target", k), lambda k: entry(E, "r", k)))
    bl = GMap()
    bl.__dict__.update(map=bm)
    nxt = None if last else with_attrs(E, ghost(Store))
    st = with_attrs(E, ghost(Store), fh=f, next_store=nxt, previous_store=None, index=0, block_list=bl,
                    bitmap=bitmap(maps[0]), previous_bitmap=bitmap(maps[1]) if has_prev else None)

    def nested(E, self, block, active_store=None):
        if self is not nxt or nxt is None:
            raise Unsupported("read of another store")
        E.prove("overlays of the newer store are not applied", active_store is not None and active_store is not self)
        return newer.bytes_at(block * BS, BS)

    def is_set(E, self, block):
        x = maps[0] if self is st.bitmap else maps[1] if self is st.previous_bitmap else None
        if x is None:
            raise Unsupported("another bitmap")
        E.prove("within the bitmap", E.And(block >= 0, block // 8 < size))
        return E.pred("set in " + x.name, block)

    E.inductive(Store, "read_block", nested)
    E.contract(part("StoreBitmap").is_set, is_set)
    if getattr(E, "on_call", None):
        return E.on_call(E, lambda o: E.call(st.read_block, b))
    active = E.choose("active", [None, "itself", "another"])
    other = with_attrs(E, ghost(Store))
    if active is None:
        data = E.call(st.read_block, b)
    else:
        data = E.call(st.read_block, b, st if active == "itself" else other)

    def spec(k):
        known, partial = E.pred("known", b), E.pred("partial", b)
        free = E.And(E.Not(E.pred("set in bitmap", b)), E.Not(E.pred("set in previous", b)) if has_prev else True)
        rel, at = E.fun("rel", b, lo=0), b * BS + k
        if last:
            below = E.ite(E.And(E.Not(E.pred("target", b)), free), 0, f.at(at))
            forward = f.at(rel + k)
        else:
            below = newer.at(at)
            forward = newer.at(rel // BS * BS + k)
        full = E.ite(E.And(known, E.Not(partial)), E.ite(E.pred("fwd", b), forward, f.at(E.fun("store", b, lo=0) + k)), below)
        if active == "another":
            return full
        bits = E.fun("bits", b, lo=0, hi=0xFFFFFFFF)
        covered = E.Or(*[E.And(k // 512 == i, bit(bits, i)) for i in range(32)])
        return E.ite(E.And(known, E.Or(partial, E.pred("hasover", b)), covered), f.at(E.fun("over", b, lo=0) + k), full)

    E.prove_bytes("block", data, BS, spec)


def merge(E):
    """One more descriptor for an arbitrary block map."""
    if native_image(E):
        return
    f = E.file("entry", endless=True)
    flags = f.uint(24, 4)
    orig, rel, at, bits = f.uint(0, 8), f.uint(8, 8), f.uint(16, 8), f.uint(28, 4)
    used, fwd, over = E.Not(bit(flags, 2)), bit(flags, 0), bit(flags, 1)
    E.assume(E.Not(E.And(fwd, over)))
    E.assume(E.Implies(E.And(used, E.Not(over)), E.Not(E.pred("target", rel // BS))))
    bm = E.call(part("BlockMap"))
    if not all(isinstance(getattr(bm, n, None), dict) for n in ("map", "reverse")):
        raise Unsupported("another representation of the block map")
    bm.map = E.mutmap(lambda k: E.pred("known", k), lambda k: entry(E, "", k))
    bm.reverse = E.mutmap(lambda k: E.pred("target", k), lambda k: entry(E, "r", k))
    E.call(bm.add, E.call(part("BlockDescriptor"), f.bytes_at(0, 32)))
    q = E.int("q", 0)
    mine = E.And(used, E.Not(E.And(fwd, orig == rel)), orig // BS == q)
    # what was known about block q
    known, partial = E.pred("known", q), E.pred("partial", q)
    had_full = E.And(known, E.Not(partial))
    had_over = E.And(known, E.Or(partial, E.pred("hasover", q)))
    e = bm.map.get(q)
    E.prove("block is known", E.Implies(E.Or(known, mine), e is not None))
    E.prove("block is unknown", E.Implies(E.Not(E.Or(known, mine)), e is None))
    if e is not None:
        ov = e if e.is_overlay else e.overlay
        is_full = E.Not(e.is_overlay)
        E.prove("full copy recorded", E.eq(is_full, E.Or(had_full, E.And(mine, E.Not(over)))))
        if is_full:
            new = E.And(mine, E.Not(over))
            E.prove("kind of the copy", E.eq(e.is_forwarder, E.Or(E.And(new, fwd), E.And(E.Not(new), E.pred("fwd", q)))))
            if e.is_forwarder:
                E.prove("target of the forwarder", e.relative_offset == E.ite(new, rel, E.fun("rel", q, lo=0)))
            else:
                E.prove("place of the copy", e.store_offset == E.ite(new, at, E.fun("store", q, lo=0)))
        E.prove("overlay recorded", E.eq(E.Not(ov is None), E.Or(had_over, E.And(mine, over))))
        if ov is not None:
            new = E.And(mine, over)
            E.prove("overlays are overlays", E.And(ov.is_overlay, ov.overlay is None))
            E.prove("place of the overlay", ov.store_offset == E.ite(had_over, E.fun("over", q, lo=0), at))
            old = E.fun("bits", q, lo=0, hi=0xFFFFFFFF)
            if new:
                want = old | bits if had_over else bits
            else:
                want = old
            E.prove("sectors of the overlay", ov.bitmap == want)
    r = bm.reverse.get(q)
    E.prove("targets of forwarders", E.eq(E.Not(r is None), E.Or(E.pred("target", q), E.And(used, fwd, E.Not(orig == rel), rel // BS == q))))


def known_chain(E, f, kind, n, data):
    """Contract of read_block: the header and the joined data of a chain of records of one kind."""
    head = E.call(getattr(part("c_vss"), "store_header"), f.bytes_at(0, HDR))

    def read_block(E, fh, offset, struct):
        if struct is not part("c_vss").store_header or fh is not f:
            raise Unsupported("unexpected use of read_block")
        E.prove("offset of the list", offset == n)
        return head, data

    E.contract(part("read_block"), read_block)
    return f.uint(20, 4) == kind


def holder(E, **attrs):
    class Holder:
        def __getattr__(self, name):
            raise Unsupported(f"attribute {name} of a ghost")

    return with_attrs(E, Holder(), **attrs)


def blocklist(E):
    if native_image(E):
        return
    f, entries = E.file("list", endless=True), E.file("entries", endless=True)
    n = E.int("n", 0)
    off = E.int("offset", 1)
    good = known_chain(E, f, INDEX, off, entries.bytes_at(0, 32 * n))
    added = E.list()
    E.contract(part("BlockMap").add, lambda E, self, d: added.append(d))

    def emit(i):
        p = 32 * i
        if E.eq(entries.bytes_at(p, 32), bytes(32)):
            return []
        return [(entries.uint(p, 8), entries.uint(p + 8, 8), entries.uint(p + 16, 8), entries.uint(p + 24, 4), entries.uint(p + 28, 4))]

    def obs(d):
        return tuple(E.get(d, x) for x in ("original_offset", "relative_offset", "store_offset", "flags", "bitmap"))

    em = E.emitter("descriptors", emit, obs)
    out = E.attempt(part("BlockList"), holder(E, fh=f), off)
    if not good:
        E.prove("another record refused", out.raised(Error))
        return
    E.prove("list accepted", out.ok)
    E.prove_list("descriptors in order", added, [em.run(0, n)], obs)


def bitmap(E):
    if native_image(E):
        return
    f, bits = E.file("record", endless=True), E.file("bits", endless=True)
    n = E.int("n", 1)
    off = E.int("offset", 1)
    good = known_chain(E, f, BITMAP, off, bits.bytes_at(0, 4 * n))
    out = E.attempt(part("StoreBitmap"), holder(E, fh=f), off)
    if not good:
        E.prove("another record refused", out.raised(Error))
        return
    E.prove("bitmap accepted", out.ok)
    i, j = E.int("i", 0), E.choose("j", range(8))
    E.assume(i < 4 * n)
    E.prove("bit", E.eq(E.call(out.value.is_set, 8 * i + j), bit(bits.at(i), j)))
    E.prove("clear bit", E.eq(E.call(out.value.in_use, 8 * i + j), E.Not(bit(bits.at(i), j))))


def record(E, f, p, kind):
    """A record with the right identifier and kind."""
    return E.And(*[f.at(p + i) == IDENT[i] for i in range(16)], f.uint(p + 20, 4) == kind)


def chain(good):
    def drv(E):
        if not E.symbolic:
            return image(E) if good else damaged(E)
        f = E.file("volume", endless=True)
        n = E.int("n", 1)
        bad = n if good else E.int("bad", 0)
        E.assume(bad <= n if good else bad < n)
        kind = E.int("kind", 0)
        struct = E.choose("struct", [part("c_vss").store_header, part("c_vss").catalog_header])
        off = lambda i: E.fun("off", i, lo=0)
        idx = lambda p: E.fun("idx", p)

        def place(i):
            return E.And(idx(off(i)) == i, off(i) > 0)

        def read(p, ln):
            i = idx(p)
            on = E.And(i >= 0, i < n, p == off(i))
            E.assume(E.Implies(E.And(on, i < bad), record(E, f, p, kind)))
            E.assume(E.Implies(on, f.uint(p + 40, 8) == off(i + 1)))
            E.assume(E.Implies(E.And(on, i == bad), E.Not(record(E, f, p, kind))))
            E.assume(E.Implies(E.And(on, i + 1 < n), place(i + 1)))

        E.assume(E.And(off(n) == 0, place(0)))
        if not good:
            # the kind of a single record is checked by the reader of the list
            E.assume(E.Implies(bad == 0, E.Not(E.And(*[f.at(off(0) + i) == IDENT[i] for i in range(16)]))))
        E.about(f, read=read)

        def inv(a, b, a0, b0):
            i = a // DATA
            return E.And(a % DATA == 0, a >= DATA, i <= bad, b == off(i), E.Implies(i < n, place(i)))

        E.pair_hint("chain", inv)
        E.acc_spec("content", lambda k: f.at(off(k // DATA) + HDR + k % DATA))

        def shrinks(head, back):
            return E.Or(*[E.And(back[k] > head[k], head[k] <= n * DATA) for k in head if k[0] == "len"])

        E.measure("blocks left", shrinks)
        out = E.attempt(part("read_block"), f, off(0), struct)
        if not good:
            E.prove("refused", out.raised(Error))
            return
        E.prove("accepted", out.ok)
        head, data = out.value
        E.prove_eq("header", E.get(head, "next_offset"), f.uint(off(0) + 40, 8))
        E.prove_eq("kind", E.get(head, "record_type"), kind)
        E.prove_bytes("data", data, n * DATA, lambda k: f.at(off(k // DATA) + HDR + k % DATA))

    return drv


def stream(E):
    if native_image(E):
        return
    content = E.file("content", endless=True)
    size = E.int("size", 1)
    st = with_attrs(E, ghost(part("Store")), size=size, volume_size=size)

    def read_block(E, self, block, active_store=None):
        E.prove("block of the opened store", E.And(self is st, active_store is None or active_store is st))
        return content.bytes_at(block * BS, BS)

    E.contract(part("Store").read_block, read_block)
    check_stream(E, E.call(st.open), lambda p: content.at(p), size, "shadow copy")


def store(E):
    """The parts of a store."""
    if native_image(E):
        return
    f, d = E.file("volume", endless=True), E.file("entries", endless=True)
    c = part("c_vss")
    d2 = E.call(c.catalog_entry_2, d.bytes_at(0, 128))
    d3 = E.call(c.catalog_entry_3, d.bytes_at(128, 128))
    made = {}

    def maker(kind):
        def make(E, store, offset):
            made[kind] = store, offset
            return holder(E)

        return make

    def information(E, fh):
        E.prove("place of the store information", E.And(fh is f, fh.tell() == d.uint(128 + 32, 8) + HDR))
        return holder(E, copy_identifier=f.bytes_at(fh.tell() + 16, 16), copy_set_identifier=f.bytes_at(fh.tell() + 32, 16))

    E.contract(c.store_information, information)
    for k in ("BlockList", "RangeList", "StoreBitmap"):
        E.contract(part(k), maker(k))
    cat = holder(E, fh=f)
    out = E.attempt(part("Store"), cat, E.list([d2, d3]))
    good = record(E, f, d.uint(128 + 32, 8), HEADER)
    if not good:
        E.prove("another record refused", out.raised(Error))
        return
    E.prove("store accepted", out.ok)
    s = out.value
    E.prove_eq("size", E.get(s, "size"), d.uint(8, 8))
    E.prove_eq("creation time", E.get(s, "creation_time"), d.uint(48, 8))
    for attr, kind, at in (("block_list", "BlockList", 8), ("range_list", "RangeList", 40), ("bitmap", "StoreBitmap", 48)):
        made.clear()
        E.get(s, attr)
        E.prove(f"{attr}", kind in made and made[kind][0] is s)
        E.prove_eq(f"offset of {attr}", made[kind][1], d.uint(128 + at, 8))
    made.clear()
    p = E.get(s, "previous_bitmap")
    E.prove("previous bitmap", E.eq(p is None, d.uint(128 + 72, 8) == 0))
    if p is not None:
        E.prove("offset of the previous bitmap", E.And("StoreBitmap" in made, E.eq(made["StoreBitmap"][1], d.uint(128 + 72, 8))))


LAYOUTS = ["", "aA", "-aA", "aAbB", "abAB", "a-AbB-", "aAbBcC"]


def catalog(E):
    if native_image(E):
        return
    f, es = E.file("volume", endless=True), E.file("entries", endless=True)
    c = part("c_vss")
    lay = E.choose("layout", LAYOUTS)
    for i in range(128):
        if i < 16:
            E.assume(f.at(0x1E00 + i) == IDENT[i])
    first = {}
    for i, x in enumerate(lay):
        k = x.lower()
        E.assume(es.uint(128 * i, 8) == (1 if x == "-" else 2 if x == k else 3))
        if x == k != "-":
            for o in first.values():
                E.assume(E.Not(E.eq(es.bytes_at(128 * i + 16, 16), es.bytes_at(128 * o + 16, 16))))
                E.assume(es.uint(128 * i + 48, 8) != es.uint(128 * o + 48, 8))
            first[x] = i
        elif x != "-":
            E.assume(E.eq(es.bytes_at(128 * i + 16, 16), es.bytes_at(128 * first[k] + 16, 16)))
    E.assume(es.uint(128 * len(lay), 8) == 0)
    head = E.file("head", endless=True)

    def read_block(E, fh, offset, struct):
        if struct is not c.catalog_header or fh is not f:
            raise Unsupported("unexpected use of read_block")
        E.prove("offset of the catalog", offset == f.uint(0x1E00 + 48, 8))
        return E.call(c.catalog_header, head.bytes_at(0, HDR)), es.bytes_at(0, 128 * (len(lay) + 2))

    E.contract(part("read_block"), read_block)

    def make(E, cat, descriptors):
        ds = E.items(descriptors)
        s = with_attrs(E, holder(E), previous_store=None, next_store=None, index=None, creation_time=E.get(ds[0], "creation_time"), ds=ds)
        return s

    E.contract(part("Store"), make)
    out = E.attempt(VSS, f)
    good = E.And(f.uint(0x1E00 + 20, 4) == VOLUME, f.uint(0x1E00 + 48, 8) != 0, head.uint(20, 4) == CATALOG)
    if not good:
        E.prove("another record refused", out.raised(Error))
        return
    E.prove("catalog accepted", out.ok)
    got = E.items(E.get(E.get(out.value, "catalog"), "stores"))
    E.prove("number of stores", len(got) == len(first))
    if len(got) != len(first):
        return
    for i, s in enumerate(got):
        E.prove("links", (s.next_store is (got[i + 1] if i + 1 < len(got) else None)) and s.previous_store is (got[i - 1] if i else None))
        if i:
            E.prove("older first", got[i - 1].creation_time < s.creation_time)
        E.prove("descriptors of the store", len(s.ds) == 2)
        E.prove("descriptors belong together", E.eq(E.get(s.ds[0], "store_identifier"), E.get(s.ds[1], "store_identifier")))
        E.prove("kinds of descriptors", E.And(E.get(s.ds[0], "entry_type") == 2, E.get(s.ds[1], "entry_type") == 3))
        E.prove("descriptor from the catalog", E.Or(*[E.And(E.get(s.ds[0], "creation_time") == es.uint(128 * o + 48, 8), E.eq(
            E.get(s.ds[1], "store_block_list_offset"), es.uint(128 * lay.index(x.upper()) + 8, 8))) for x, o in first.items()]))


DRIVERS = [
    Driver("image", image, samples=60, sample_time=60, symbolic=False),
    Driver("damaged", damaged, samples=120, sample_time=20, symbolic=False),
    Driver("resolve", resolve, samples=10),
    Driver("merge", merge, samples=10),
    Driver("blocklist", blocklist, samples=5),
    Driver("bitmap", bitmap, samples=5),
    Driver("chain", chain(True), samples=5),
    Driver("chain-refused", chain(False), samples=5),
    Driver("stream", stream, samples=5),
    Driver("store", store, samples=5),
    Driver("catalog", catalog, samples=5),
    *utilstreams.ALIGNED,
]
