"""C13: Thin device reads return mapped data and zeros exactly where unmapped."""
from dissect.volume.dm.btree import BTree
from dissect.volume.dm.thin import ThinPool
from dissect.volume.exceptions import DMError

from pyvc.terms import Unsupported

from . import C12, utilstreams
from .common import Driver, check_stream, picks

LEVEL = "proof"
MAGIC = 27022010
ASSUMPTIONS = [
    "contract of BTree.lookup (established by C12): a stored value of 8 (mapping) or 24 (details) bytes, or None",
    "the data device is long enough for every mapped block",
]
# superblock fields
BLOCKNR, MAGIC_AT, MAP_ROOT, DET_ROOT, DATA_BS, META_BS = 8, 32, 320, 328, 336, 340


def pool(E, good=True, files=None, ident=None, bits=(3, 12, 30, 39)):
    """A pool, the device looked for, and (mapped?, data block) of every block of it."""
    meta, data = files or (E.file("meta", endless=True), E.file("data", endless=True))
    dev = E.int("dev", 0, pick=lambda r: r.choice([0, 1, 2, 7, 1 << 20])) if ident is None else ident
    known = E.bool("known", 0.9)
    if not E.symbolic:
        r = E.rng
        bs = r.choice([1, 2, 8, 128])
        mbs = r.choice([1, 8])
        used = [r.randrange(4)]

        def alloc():
            used[0] += 1
            return used[0]

        space = r.choice([3, 10, 40, 2000])
        table = {}
        for b in range(space):
            if r.random() < r.choice([0.2, 0.6, 0.9]):
                table[b] = r.randrange(1 << r.choice(bits))
        roots = {}
        others = [d for d in (0, 1, 3, 9) if d != dev]
        for d in r.sample(others, r.randrange(len(others) + 1)) + ([dev] if known else []):
            t = table if d == dev else {b: 5 for b in range(r.randrange(4))}
            e = {b: ((v << 24) | r.randrange(1 << 24)).to_bytes(8, "little") for b, v in t.items()}
            roots[d] = C12.build(E, meta, mbs * 512, alloc, e, 8, r.choice([2, 5, 1000]))
        top = C12.build(E, meta, mbs * 512, alloc, {d: b.to_bytes(8, "little") for d, b in roots.items()}, 8, r.choice([1, 3, 100]))
        det = C12.build(E, meta, mbs * 512, alloc, {d: bytes(r.randrange(256) for _ in range(24)) for d in roots}, 24, r.choice([1, 3, 100]))
        meta.filln(MAP_ROOT, 8, top)
        meta.filln(DET_ROOT, 8, det)
        meta.filln(DATA_BS, 4, bs)
        meta.filln(META_BS, 4, mbs)
        meta.filln(MAGIC_AT, 8, MAGIC if good else r.choice([0, MAGIC + 1, MAGIC << 8]))
        return meta, data, dev, known, bs * 512, table.get

    vals, info = E.file("mapping", endless=True), E.file("details", endless=True)
    E.assume((meta.uint(MAGIC_AT, 8) == MAGIC) if good else (meta.uint(MAGIC_AT, 8) != MAGIC))
    bs = meta.uint(DATA_BS, 4)
    E.assume(E.And(bs > 0, meta.uint(META_BS, 4) > 0))

    def lookup(E, self, keys, want_high=False):
        if not want_high is False or self.fh is not meta:
            raise Unsupported("unexpected use of the tree")
        root, size = E.get(self, "root"), E.get(self, "block_size")
        if isinstance(keys, list) and len(keys) == 2:
            E.prove("mapping tree", E.And(root == meta.uint(MAP_ROOT, 8), size == meta.uint(META_BS, 4)))
            E.prove("mapping key", keys[0] == dev)
            return vals.bytes_at(8 * keys[1], 8) if E.And(known, E.pred("mapped", keys[1])) else None
        if isinstance(keys, list) and len(keys) == 1:
            keys = keys[0]
        if isinstance(keys, list):
            raise Unsupported("key path of unexpected length")
        E.prove("details tree", E.And(root == meta.uint(DET_ROOT, 8), size == meta.uint(META_BS, 4)))
        E.prove("details key", keys == dev)
        return info.bytes_at(0, 24) if known else None

    E.contract(BTree.lookup, lookup)

    E.hint("whole blocks", lambda v, v0: v % (bs * 512) == 0)
    E.pair_hint("blocks and length", lambda a, b, a0, b0: a * (bs * 512) + b == a0 * (bs * 512) + b0)

    def block(b):
        # (condition, block number)
        return E.pred("mapped", b), vals.uint(8 * b, 8) // (1 << 24)

    return meta, data, dev, known, bs * 512, block


def spec(E, data, bs, block):
    def at(p):
        if E.symbolic:
            m, v = block(p // bs)
            return E.ite(m, data.at(v * bs + p % bs), 0)
        v = block(p // bs)
        return 0 if v is None else data.at(v * bs + p % bs)

    return at


def sized(E):
    meta, data, dev, known, bs, block = pool(E)
    E.assume(known)
    size = E.int("size", 1, pick=lambda r: r.choice([512, bs, bs * 3, bs * r.randint(1, 50), r.randint(1, bs * 20)]))
    st = E.call(E.call(ThinPool, meta, data).open, dev, size)
    check_stream(E, st, spec(E, data, bs, block), size, "thin")


def unsized(E):
    meta, data, dev, known, bs, block = pool(E)
    E.assume(known)
    st = E.call(E.call(ThinPool, meta, data).open, dev)
    E.prove("no size", E.get(st, "size") is None)
    at = spec(E, data, bs, block)
    align = E.get(st, "align")
    E.prove_eq("alignment", align, bs)
    blk = E.int("blk", 0, pick=lambda r: r.choice([0, r.randint(0, 40), 1 << 60]))
    nblk = E.int("nblk", 1, pick=lambda r: r.randint(1, 6))
    off, ln = E.let("off", blk * bs), E.let("len", nblk * bs)
    E.acc_spec("content", lambda k: at(off + k))
    E.prove_bytes("block read", E.call(st._read, off, ln), ln, lambda k: at(off + k))
    if not E.symbolic:
        r = E.rng
        for _ in range(4):
            o = r.choice([off, r.randrange(40 * bs), off + r.randrange(bs)])
            n = r.choice([1, 512, r.randint(1, 4 * bs)])
            st.seek(o)
            E.prove_bytes("read", st.read(n), n, lambda k: at(o + k))


def opening(E):
    good = E.choose("magic", [True, True, False])
    meta, data, dev, known, bs, block = pool(E, good)
    out = E.attempt(ThinPool, meta, data)
    if not good:
        E.prove("bad magic refused", out.raised(DMError))
        return
    E.prove("pool opened", out.ok)
    if not out.ok:
        return
    out = E.attempt(out.value.open, dev, E.choose("hint", [None, 4096]))
    if known:
        E.prove("device opened", out.ok)
    else:
        E.prove("unknown device refused", out.raised(DMError))


DRIVERS = [
    Driver("sized", sized, samples=150),
    Driver("unsized", unsized, samples=150),
    Driver("opening", opening, samples=150),
    *utilstreams.ALIGNED,
]
