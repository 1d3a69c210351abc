"""C12: Thin-pool B-tree lookups find a key exactly when it is stored."""
import types

from dissect.volume.dm.btree import BTree

from .common import Driver, picks

LEVEL = "proof"
ASSUMPTIONS = [
    "well-formed tree: every node on the search path has flags INTERNAL or LEAF, nr_entries <= max_entries, fits its block, has sorted keys, "
    "and the keys below an internal entry lie between its key and the next one; the depth is finite",
    "key paths of any number of levels over the lookup in one tree, which is proved for the first two levels of a path; depth, fan-out, block size and value size of every tree are arbitrary",
    "memoisation (lru_cache) is treated as identity: the media does not change between lookups",
]
HDR = 32


def build(E, f, block, alloc, entries, vs, fan):
    """Write a tree holding ``entries`` (key -> bytes) and return the number of its root block."""
    room = (block - HDR) // (8 + vs)
    room8 = (block - HDR) // 16
    r = E.rng

    def node(flags, items, vsize, mx):
        b = alloc()
        mx = r.choice([mx, max(len(items), 1)])
        p = b * block
        f.put(p, bytes(r.randrange(256) for _ in range(4)) + flags.to_bytes(4, "little") + b.to_bytes(8, "little"))
        f.put(p + 16, len(items).to_bytes(4, "little") + mx.to_bytes(4, "little") + vsize.to_bytes(4, "little") + bytes(4))
        for i, (k, v) in enumerate(items):
            f.put(p + HDR + 8 * i, k.to_bytes(8, "little"))
            f.put(p + HDR + 8 * mx + vsize * i, v)
        return b

    keys = sorted(entries)
    step = min(room, fan)
    lvl = [(ks[0] if ks else 0, node(2, [(k, entries[k]) for k in ks], vs, room)) for ks in ([keys[i : i + step] for i in range(0, len(keys), step)] or [[]])]
    while len(lvl) > 1 or r.random() < 0.2:
        step = max(2, min(room8, fan))
        nxt = []
        for i in range(0, len(lvl), step):
            part = lvl[i : i + step]
            lo = part[0][0] if r.random() < 0.7 else max(0, part[0][0] - (r.randrange(3) if i == 0 and not nxt else 0))
            nxt.append((lo, node(1, [(lo, part[0][1].to_bytes(8, "little"))] + [(k, b.to_bytes(8, "little")) for k, b in part[1:]], 8, room8)))
        lvl = nxt
    return lvl[0][1]


def concrete(E, levels, want_high):
    f = E.file("meta", endless=True)
    bs = E.int("bs", 1, pick=picks(1, 1, 2, 8))
    block = bs * 512
    r = E.rng
    nb = [r.randrange(3)]

    def alloc():
        nb[0] += 1
        return nb[0]

    vs = r.choice([8, 8, 24, 4, 1])
    space = r.choice([8, 60, 1000, 1 << 24])
    stored = {}

    def level(d):
        ks = set(r.randrange(space) for _ in range(r.choice([0, 1, 2, 5, 30, 200] if d == levels - 1 else [0, 1, 3, 40])))
        fan = r.choice([1, 2, 3, 5, 1000])
        if d == levels - 1:
            e = {k: bytes(r.randrange(256) for _ in range(vs)) for k in ks}
            return build(E, f, block, alloc, e, vs, fan), {(k,): v for k, v in e.items()}
        subs = [level(d + 1) for _ in range(min(2, len(ks)))]
        e, st = {}, {}
        for k in ks:
            b, s = r.choice(subs)
            e[k] = b.to_bytes(8, "little")
            st.update({(k, *t): v for t, v in s.items()})
        return build(E, f, block, alloc, e, 8, fan), st

    root, stored = level(0)
    bt = E.call(BTree, f, root, bs)
    some = list(stored)
    if getattr(E, "on_call", None):
        near = [tuple(max(0, x + r.choice([-1, 0, 0, 1])) for x in k) for k in some]
        return E.on_call(E, lambda o: bt.lookup(list(((some + near) or [(0,) * levels])[o % max(1, 2 * len(some))])))
    for _ in range(25):
        k = r.choice(some) if some and r.random() < 0.6 else tuple(r.randrange(space + 2) for _ in range(levels))
        if some and r.random() < 0.3:
            k = r.choice(some)
            j = r.randrange(levels)
            k = (*k[:j], max(0, k[j] + r.choice([-1, 1])), *k[j + 1 :])
        f.pos = r.randrange(5000)
        arg = k[0] if levels == 1 and r.random() < 0.5 else list(k)
        v = E.call(bt.lookup, arg, True) if want_high else E.call(bt.lookup, arg)
        E.prove_eq("lookup", None if v is None else bytes(v), stored.get(k))


def lookup(levels, want_high=False):
    def drv(E):
        if not E.symbolic:
            return concrete(E, levels, want_high)
        E.name_products()
        f = E.file("meta", endless=True)
        bs = E.int("bs", 1)
        root = E.int("root", 0)
        keys = [E.int("key", 0) for _ in range(levels)]
        # the level at which the key path ends (levels: everything is stored)
        stop = E.choose("stored levels", range(levels + 1))
        block = bs * 512

        def on(L, p):
            return E.pred("onpath", L, p)

        def hdr(p):
            return f.uint(p + 4, 4), f.uint(p + 16, 4), f.uint(p + 20, 4), f.uint(p + 24, 4)

        def ix(L, p):
            return E.fun("index", L, p)

        def depth(p):
            return E.fun("depth", p, lo=0)

        def leaf(L):
            return E.fun("leaf", L)

        nodes = []

        def read(p, n):
            flags, cnt, mx, vs = hdr(p)
            nodes.append(p)
            for L in range(min(stop + 1, levels)):
                i = ix(L, p)
                vpos = p + HDR + 8 * mx + i * vs
                kv = f.uint(p + HDR + 8 * i, 8)
                down = f.uint(vpos, 8) * block
                inner = [vs == 8, E.Implies(i >= 0, E.And(on(L, down), depth(down) < depth(p)))]
                last = [p == leaf(L)]
                if L < stop:
                    inner.append(i >= 0)
                    last += [i >= 0, kv == keys[L]]
                    if L + 1 < levels:
                        last += [vs == 8, on(L + 1, down)]
                else:
                    last.append(E.Implies(i >= 0, kv < keys[L]))
                E.assume(E.Implies(on(L, p), E.And(
                    E.Or(flags == 1, flags == 2), cnt <= mx, HDR + 8 * mx + vs * mx <= block, i >= -1, i < cnt,
                    E.Implies(flags == 1, E.And(*inner)), E.Implies(flags == 2, E.And(*last)))))

        def uint(q, width, endian, v):
            if width != 8:
                return
            for p in nodes:
                i = (q - p - HDR) // 8
                cnt = f.uint(p + 16, 4)
                for L in range(min(stop + 1, levels)):
                    g = ix(L, p)
                    E.assume(E.Implies(E.And(on(L, p), i >= 0, i < cnt, q == p + HDR + 8 * i),
                                       E.And(E.Implies(i <= g, v <= keys[L]), E.Implies(i < g, v < keys[L]), E.Implies(i > g, v > keys[L]))))

        E.about(f, read=read, uint=uint)
        E.assume(on(0, root * block))
        for L in range(levels):
            E.hint(f"on search path {L}", lambda v, v0, L=L: on(L, v * block))
        E.hint("from -1", lambda v, v0: v >= -1)
        for L in range(levels):
            E.pair_hint(f"bracket {L}", lambda a, b, a0, b0, L=L: E.And(*[E.Implies(on(L, p), E.And(a <= ix(L, p), ix(L, p) < b)) for p in nodes[-1:]]))
            E.pair_hint(f"strict bracket {L}", lambda a, b, a0, b0, L=L: E.And(*[
                E.Implies(E.And(on(L, p), hdr(p)[0] == 2), E.And(a < ix(L, p), ix(L, p) < b)) for p in nodes[-1:]]))
        E.view_measure("depth", lambda v: depth(v * block))
        bt = E.call(BTree, f, root, bs)
        arg = keys[0] if levels == 1 and E.choose("as list", [False, True]) is False else E.list(keys)
        if getattr(E, "on_call", None):
            return E.on_call(E, lambda o: E.call(bt.lookup, arg))
        v = E.call(bt.lookup, arg, True) if want_high else E.call(bt.lookup, arg)
        if stop < levels:
            E.prove("absent key", v is None)
        else:
            E.prove("present key", v is not None)
            p = leaf(levels - 1)
            flags, cnt, mx, vs = hdr(p)
            E.prove_bytes("value", v, vs, lambda k: f.at(p + HDR + 8 * mx + ix(levels - 1, p) * vs + k))

    return drv


def levels(E):
    """Key paths of any length, over the lookup of one key in one tree (which the other drivers prove)."""
    if not E.symbolic:
        return concrete(E, E.rng.choice([1, 2, 3, 4]), E.rng.random() < 0.5)
    one = BTree.__dict__.get("_lookup")
    if not isinstance(one, types.FunctionType):
        E.unsupported("the module is organised differently")
    n, bs = E.int("levels", 1), E.int("bs", 1)
    key = lambda i: E.fun("key", i, lo=0)
    # root of the tree at each level
    root = lambda i: E.fun("root", i, lo=0)
    stored = lambda r, k: E.opaque_int("stored", r, k) == 1
    value = lambda r, k: E.opaque("value", r, k, py=bytes)
    high = E.choose("want_high", [False, True])

    def follow(i):
        E.assume(root(i + 1) == E.little(value(root(i), key(i))))

    def single(E, bt, r, k, want_high=False):
        if E.truth(stored(r, k)):
            return k, value(r, k)
        if E.choose("neighbour", [False, True]):
            other = E.int("other", 0)
            E.assume(E.Not(other == k))
            return other, E.opaque("neighbour", r, k, py=bytes)
        return None, None

    E.contract(one, single)

    def all_stored(i, go):
        follow(i)
        return E.ite(i >= n, 1, E.ite(stored(root(i), key(i)), go(i + 1), 0))

    found = E.fold("stored", all_stored, (0,), ints=True)
    last = E.fold("value", lambda i, acc, go: E.vite(i >= n, acc, go(i + 1, value(root(i), key(i)))), (0, None), acc="val")
    E.pair_hint("level", lambda i, r, i0, r0: E.Implies(i < n, r == root(i)))
    bt = E.call(BTree, E.file("meta", endless=True), root(0), bs)
    keys = E.symseq(n, key)
    v = E.call(bt.lookup, keys, True) if high else E.call(bt.lookup, keys)
    if v is None:
        E.prove("absent", E.eq(found(0), 0))
    else:
        E.prove("present", E.eq(found(0), 1))
        E.prove("value", E.veq(v, last(*last.start)))


DRIVERS = [
    Driver("lookup-1", lookup(1), samples=60),
    Driver("lookup-2", lookup(2), samples=60),
    Driver("lookup-3", lookup(3), samples=100, symbolic=False),
    Driver("levels", levels, samples=60),
    Driver("lookup-high-1", lookup(1, True), samples=60),
    Driver("lookup-high-2", lookup(2, True), samples=60),
]
