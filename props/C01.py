"""C01: RAID 0 reads return the striped bytes, also across unequal members."""
import itertools

from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk
from dissect.volume.raid import stream as rs

from .common import Driver, between, check_stream, picks

LEVEL = "proof"
ASSUMPTIONS = [
    "reading is proved for any number of zones and members; how the zones are made from the members is proved for 1 to 3 members and sampled up to 16; chunk size, member sizes, data offsets, array size, offset and length are unbounded",
    "array size is at most the capacity of the members; members are at least as long as their recorded size",
]


def weak_orders(n):
    """All ways to rank n members (rank = which distinct chunk-rounded size)."""
    for ranks in itertools.product(range(n), repeat=n):
        if set(ranks) == set(range(max(ranks) + 1)):
            yield ranks


def striped(n, rank_list):
    def drv(E):
        ranks = E.choose("ranks", rank_list)
        order = E.choose("insertion", [list(range(n)), list(range(n))[::-1]])
        layout = E.choose("layout", [0, 1, 2])
        m = max(ranks) + 1
        ss = E.int("ss", 1, pick=picks(1, 3, 8, 16, 512, 4096))
        # distinct rounded sizes in chunks, ascending
        q = [E.int("q0", 0, pick=between(0, 9))]
        for j in range(1, m):
            q.append(q[-1] + E.int(f"dq{j}", 1, pick=between(1, 6)))
        fam = E.family("disk")
        base = [E.int(f"offset{i}", 0, pick=picks(0, 512, 77)) for i in range(n)]
        start = [E.int(f"start{i}", 0, pick=picks(0, 0, 1024, 5)) for i in range(n)]
        rem = [E.int(f"rem{i}", 0, pick=lambda r: r.choice([0, r.randrange(ss)])) for i in range(n)]
        for x in rem:
            E.assume(x < ss)
        disks = [E.call(PhysicalDisk, fam.file(i), base[i], q[ranks[i]] * ss + rem[i]) for i in range(n)]
        dm = E.dict((i, (start[i], disks[i])) for i in order)
        # capacity and zones
        zones, zstart, prev = [], 0, 0
        for j in range(m):
            devs = [i for i in range(n) if ranks[i] >= j]
            zones.append((zstart, prev, devs))
            zstart = zstart + (q[j] - prev) * len(devs)
            prev = q[j]
        size = E.int("size", 1, pick=lambda r: r.choice([max(1, zstart * ss), r.randint(1, max(1, zstart * ss))]))
        E.assume(size <= zstart * ss)
        orig = m == 1 or len(zones[1][2]) == 1 or layout == 1
        vd = E.call(VirtualDisk, "name", "uuid", size, 0, layout, ss, n, dm)
        st = E.call(vd.open)

        def spec(p):
            c, o = p // ss, p % ss
            r = None
            for zs, dev_start, devs in reversed(zones):
                z = c - zs  # chunk number inside the zone
                sel = (c if orig else z) % len(devs)
                row = z // len(devs)
                v = None
                for k in reversed(range(len(devs))):
                    i = devs[k]
                    b = fam.file(i).at(base[i] + start[i] + (dev_start + row) * ss + o)
                    v = b if v is None else E.ite(sel == k, b, v)
                r = v if r is None else E.ite(c < nxt, v, r)
                nxt = zs
            return r

        check_stream(E, st, spec, size, maxblk=4)

    return drv


Zone = getattr(rs, "Zone", None)


class Zones:
    """Any number of zones, each striped over any number of members; positions in chunks."""

    def __init__(self, E, ss):
        self.E, self.ss = E, ss
        self.n = E.int("zones", 1)
        self.fam = E.family("disk")
        self.points = []
        E.assume(self.start(0) == 0)
        self.end = E.let("end", self.start(self.n))

    def start(self, z):
        return self.E.fun("zs", z, lo=0)

    def count(self, z):
        return self.E.fun("cnt", z, lo=1)

    def skip(self, z):
        return self.E.fun("skip", z, lo=0)

    def member(self, z, k):
        return self.E.fun("member", z, k, lo=0)

    def known(self, z):
        """Every zone starts where the one before ends, so later zones start after it."""
        E = self.E
        for j in [*self.points, self.n]:
            for a, b in ((z, j), (j, z)):
                E.assume(E.Implies(E.And(0 <= a, a < b, b <= self.n), self.start(a + 1) <= self.start(b)))
        self.points.append(z)

    def point(self, c):
        E, z = self.E, self.E.fun("zoneof", c)
        E.assume(E.Implies(E.And(c >= 0, c < self.end), E.And(0 <= z, z < self.n, self.start(z) <= c, c < self.start(z + 1))))
        self.known(z)
        return z

    def disk(self, i):
        E = self.E
        return E.fun("start", i, lo=0), E.call(PhysicalDisk, self.fam.file(i), E.fun("base", i, lo=0), E.fun("size", i, lo=0))

    def item(self, z):
        self.known(z)
        devices = self.E.table(self.count(z), lambda k: self.disk(self.member(z, k)))
        return Zone(self.start(z + 1) * self.ss, self.skip(z) * self.ss, devices)

    def at(self, p, orig):
        E, ss = self.E, self.ss
        c, o = p // ss, p % ss
        z = self.point(c)
        y = c - self.start(z)
        i = self.member(z, E.ite(orig, c, y) % self.count(z))
        return self.fam.file(i).at(E.fun("base", i, lo=0) + E.fun("start", i, lo=0) + (self.skip(z) + y // self.count(z)) * ss + o)


def zones_any(layout):
    return lambda E: zones_read(E, layout) if E.symbolic else many(E)


def zones_read(E, layout):
    """Reading, given the zones of any number of members."""
    ss = E.int("ss", 1)
    Z = Zones(E, ss)
    size = E.int("size", 1)
    E.assume(size <= Z.end * ss)
    vd = E.call(VirtualDisk, "name", "uuid", size, 0, layout, ss, 1, E.dict([(0, (0, E.call(PhysicalDisk, Z.fam.file(0), 0, size)))]))
    st = E.call(vd.open)
    if set(getattr(Zone, "_fields", ())) != {"zone_end", "dev_start", "devices"} or "zones" not in st.__dict__:
        E.unsupported("the class is organised differently")
    st.zones = E.symseq(Z.n, Z.item)
    E.split_quotients()
    E.pair_hint("passed", lambda p, z, p0, z0: p >= Z.start(z) * ss)
    orig = E.Or(Z.n == 1, Z.count(1) == 1, layout == 1)
    check_stream(E, st, lambda p: Z.at(p, orig), size)


DRIVERS = []
for n in (1, 2, 3):
    for w in weak_orders(n):
        DRIVERS.append(Driver(f"members-{n}-ranks-{''.join(map(str, w))}", striped(n, [w]), budget=200, samples=150, sample_time=6))


def many(E):
    """Concrete stand-in for more members."""
    n = E.choose("n", [4, 5, 6, 8, 11, 16])
    r = E.rng
    ranks = [r.randrange(3) for _ in range(n)]
    names = sorted(set(ranks))
    striped_sample(E, n, tuple(names.index(x) for x in ranks))


def striped_sample(E, n, ranks):
    striped(n, [ranks])(E)


DRIVERS += [Driver(f"zones-any-{layout}", zones_any(layout), samples=60) for layout in (0, 1, 2)]
DRIVERS.append(Driver("members-4-to-16", many, symbolic=False, samples=400, bounded="4 to 16 members only by sampling"))
