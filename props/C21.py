"""C21: An opened partition exposes exactly its extent and stays inside it."""
from uuid import UUID

from dissect.volume.disk import partition as mod
from dissect.volume.disk.partition import Partition

from . import utilstreams
from .common import Driver, check_stream, picks

LEVEL = "proof"
ASSUMPTIONS = [
    "the containing disk is long enough for the extent; sequences of seeks and reads are covered by the util-* drivers "
    "(every single seek or read from any state satisfying the class invariant returns the content and keeps the invariant)",
]


class OnDisk:
    def __init__(self, fh):
        self.fh = fh


def partition(E):
    f = E.file("disk", endless=True)
    off = E.int("offset", 0, pick=lambda r: r.choice([0, 512, 32256, 1 << 20, r.randrange(1 << 40)]))
    size = E.int("size", 0, pick=lambda r: r.choice([0, 1, 512, 8192, 8193, r.randrange(1 << 30), r.randrange(30000)]))
    typ = E.choose("kind", [0x83, "Apple_HFS", UUID("0FC63DAF-8483-4772-8E79-3D69D8477DE4"), 0xFE])
    return f, off, size, E.call(Partition, OnDisk(f), E.int("number", 1), off, size, typ)


def window(E):
    f, off, size, p = partition(E)
    E.assume(size > 0)
    check_stream(E, E.call(p.open), lambda x: f.at(off + x), size, "partition")


def step(E):
    """A seek and a read anywhere, also before the start and past the end."""
    f, off, size, p = partition(E)
    st = E.call(p.open)
    at = E.int("at", 0, pick=lambda r: r.choice([0, r.randint(0, size + 5), max(0, size - 3)]))
    E.call(st.seek, at)
    whence = E.choose("whence", [0, 1, 2])
    to = E.int("to", pick=lambda r: r.choice([0, -1, -5, 3, r.randint(-2 * size - 2, 2 * size + 2)]))
    out = E.attempt(st.seek, to, whence)
    pos = at
    if E.Not(E.And(whence == 0, to < 0)):
        pos = to if whence == 0 else E.max(0, (at if whence == 1 else size) + to)
        E.prove_eq("seek returns the position", out.value, pos)
    else:
        E.prove("negative position refused", not out.ok)
    E.prove_eq("tell", E.call(st.tell), pos)
    n = E.int("n", -1, pick=lambda r: r.choice([-1 if size < 100000 else 5, 0, 1, 600, r.randint(0, 20000)]))
    left = E.max(0, size - pos)
    data = E.call(st.read, n)
    E.prove_bytes("read", data, left if n == -1 else E.min(n, left), lambda k: f.at(off + pos + k))


def history(E):
    """Long histories over two partitions that share the disk handle (sampled only)."""
    E.concrete_only()
    f, off, size, p = partition(E)
    E.assume(size < 1 << 24)
    off2, size2 = E.int("offset2", 0), E.int("size2", 0, 70000)
    q = E.call(Partition, OnDisk(f), 2, off2, size2, 7)
    sts = [(E.call(x.open), o, s) for x, o, s in ((p, off, size), (q, off2, size2), (p, off, size))]
    poss = [0, 0, 0]
    r = E.rng
    for _ in range(12):
        k = r.randrange(3)
        st, o, s = sts[k]
        if r.random() < 0.5:
            poss[k] = r.choice([r.randint(0, s + 5), min(s, 8192), max(0, s - 100)])
            st.seek(poss[k])
        f.pos = r.randrange(10000)
        n = r.choice([1, 100, 8192, 9000, 0, 20000])
        d = st.read(n)
        E.prove_bytes("read", d, max(0, min(n, s - poss[k])), lambda j: f.at(o + poss[k] + j))
        poss[k] += len(d)


def labels(E):
    """Two partitions that agree only in the recorded type have the same labels."""
    k = E.choose("kind", ["int", "uuid", "str"])
    f, g = E.file("a", endless=True), E.file("b", endless=True)
    if k == "int":
        t = E.int("type", 0, 255)
    elif k == "uuid":
        if not E.symbolic:
            f.fill(0, E.rng.choice([UUID(int=E.rng.getrandbits(128)), *[x for x in getattr(mod, "PARTITION_TYPES", ()) if isinstance(x, UUID)]]).bytes_le)
        t = E.call(UUID, bytes_le=f.bytes_at(0, 16))
    else:
        t = E.choose("name", ["Apple_HFS", "", "x"])
    a = E.call(Partition, OnDisk(f), 1, E.int("o1", 0), E.int("s1", 0), t)
    b = E.call(Partition, OnDisk(g), E.int("n2", 1), E.int("o2", 0), E.int("s2", 0), t, name="b", flags=3, guid=UUID(int=1))
    for n in ("type_str", "type_name"):
        E.prove_eq(n, E.get(a, n), E.get(b, n))
    E.prove_eq("type", E.get(a, "type"), t)


DRIVERS = [
    Driver("window", window, samples=200),
    Driver("step", step, samples=500),
    Driver("history", history, symbolic=False, samples=150),
    Driver("labels", labels),
    *utilstreams.ALIGNED,
]
