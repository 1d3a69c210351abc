"""C11: Vinum volumes are assembled from the newest configuration and usable parts only."""
import itertools

from dissect.volume.raid.stream import LinearStream, RAID0Stream, RAID456Stream
from dissect.volume.vinum import vinum
from dissect.volume.vinum.config import PlexOrg, PlexState, SDState, VolumeState
from dissect.volume.vinum.vinum import Vinum, VinumPhysicalDisk

from pyvc.terms import Unsupported

from . import C02, utilstreams
from .common import Driver, check_stream, picks, more

LEVEL = "proof"
ASSUMPTIONS = [
    "the records of a configuration are those of its text (C10); the proof starts from these records, the samples from complete drives",
    "records carry the fields FreeBSD writes: plexes a name, organisation and state, subdisks a name, drive, plex, length, offsets and state",
    "configurations written at the same time are the same",
    "subdisks of a plex have different plex offsets, those of striped and RAID 5 plexes have one length; drives have different names",
    "the time of a configuration is compared as the recorded seconds and microseconds, its conversion through floating point is only sampled",
    "number of drives 1-3, volumes 1-2, plexes 1-3, subdisks 1-4 in the proof (all values unbounded), more in the samples; once a plex is assembled its subdisks may be any number",
]
DATA = 135680
MAGIC = {0x494E2056494E4F00: True, 0x4E4F2056494E4F00: False, 0x56494E554D2D3100: True, 0x56494E554D2D2D00: False}
LEVELS = {PlexOrg.CONCAT: -1, PlexOrg.STRIPED: 0, PlexOrg.RAID5: 5}
USABLE = (SDState.UP, SDState.GROWABLE)


class Ghost:
    """An object described by a contract."""

    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} is not described by the contract")


class GhostDrive(VinumPhysicalDisk):
    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} is not described by the contract")


def word(r, state):
    """A state as it is written; anything unknown means down."""
    return state.value if state.name != "DOWN" else r.choice([b"down", b"stale", b"crashed", b"?"])


def line(r, head, pairs):
    pairs = list(pairs)
    r.shuffle(pairs)
    blank = lambda: r.choice([b" ", b" ", b"\t", b"  "])
    return blank().join([head, *[blank().join(p) for p in pairs]])


def text(r, conf):
    """Configuration text as FreeBSD writes it."""
    out = []
    num = lambda n: b"%d%s" % (n // 512, b"s") if n % 512 == 0 and r.random() < 0.5 else b"%d%s" % (n, r.choice([b"", b"x"]))
    for v in conf["volumes"]:
        out.append(line(r, b"volume " + v["name"], [(b"state", word(r, v["state"]))]))
    for p in conf["plexes"]:
        org = (b"org", p["org"].value if p["org"] != PlexOrg.DISORG else b"?") + ((num(p["stripesize"]),) if p["org"] in (PlexOrg.STRIPED, PlexOrg.RAID5) else ())
        out.append(line(r, b"plex", [(b"name", p["name"]), org, (r.choice([b"vol", b"volume"]), p["volume"]), (b"state", word(r, p["state"]))]))
    for s in conf["sds"]:
        out.append(line(r, b"sd", [(b"name", s["name"]), (b"drive", s["drive"]), (r.choice([b"len", b"length"]), num(s["length"])), (b"driveoffset", num(s["driveoffset"])),
                                   (b"plex", s["plex"]), (b"plexoffset", num(s["plexoffset"])), (b"state", word(r, s["state"]))]))
    return b"\n".join(out) + b"\n"


def drive(E, k, name, active, time, conf, size=None):
    """A drive that carries the given configuration."""
    if E.symbolic:
        size = E.int(f"drive size{k}", DATA) if size is None else size
        return GhostDrive(active=active, id=name, name=name.decode(), config_time=time, config=conf, size=size, offset=DATA, fh=E.file(f"drive{k}", endless=True))
    r = E.rng
    f = E.file(f"drive{k}", 1 << 26)
    n = lambda o, v: f.filln(4096 + o, 8, v, "be")
    n(0, r.choice([m for m, a in MAGIC.items() if a == active]))
    f.fill(4096 + 48, name.ljust(32, b"\x00"))
    n(96, time // 1000000)
    n(104, time % 1000000)
    n(112, r.choice([1 << 26, 1 << 25]) if size is None else size)
    data = text(r, conf)
    f.fill(4608, data + b"\x00" * 512)
    n(8, r.choice([len(data), len(data) + 100]))
    return f


def records(E, conf):
    """The records the configuration parser returns for conf (C10)."""
    return E.dict([(key, E.list([Ghost(**x) for x in xs])) for key, xs in conf.items()])


def fh_of(d):
    return d.fh if isinstance(d, GhostDrive) else d


def merged(E, confs):
    """confs: (time, conf) of the active drives in order; newest record of every name."""
    out = {}
    for key in ("volumes", "plexes", "sds"):
        cur = {}
        for time, conf in confs:
            for x in conf[key]:
                old = cur.get(x["name"])
                if old is None or time > old[0]:
                    cur[x["name"]] = (time, x)
        out[key] = {name: x for name, (_, x) in cur.items()}
    return out


def expected(E, conf, present):
    """Volume name -> list of (plex, subdisks in order, {index: subdisk}) of its plexes with a usable subdisk, number of active plexes."""
    out = {}
    for name in conf["volumes"]:
        plexes = [p for p in conf["plexes"].values() if p["volume"] == name and p["state"] != PlexState.DOWN and p["org"] != PlexOrg.DISORG]
        found = []
        for p in sorted(plexes, key=lambda p: p["name"]):
            sds = []
            for s in conf["sds"].values():
                if s["plex"] == p["name"]:
                    i = 0
                    while i < len(sds) and sds[i]["plexoffset"] < s["plexoffset"]:
                        i += 1
                    sds.insert(i, s)
            good = {i: s for i, s in enumerate(sds) if s["state"] in USABLE and s["drive"] in present}
            if good:
                found.append((p, sds, good))
        if found:
            out[name] = (found, len(plexes))
    return out


def check_plex(E, vd, vol, p, sds, good, present):
    n, ln = len(sds), sds[0]["length"]
    E.prove_eq("level", E.get(vd, "level"), LEVELS[p["org"]])
    E.prove_eq("layout", E.get(vd, "layout"), 0)
    E.prove_eq("stripe size", E.get(vd, "stripe_size"), 0 if p["org"] == PlexOrg.CONCAT else p["stripesize"])
    total = sum([s["length"] for s in sds[1:]], ln)
    E.prove_eq("size", E.get(vd, "size"), {PlexOrg.CONCAT: total, PlexOrg.STRIPED: n * ln, PlexOrg.RAID5: (n - 1) * ln}[p["org"]])
    E.prove_eq("number of members", E.get(vd, "num_disks"), n)
    E.prove_eq("name", E.get(vd, "name"), vol.decode())
    E.prove_eq("plex", E.get(vd, "uuid"), p["name"].decode())
    got = E.get(vd, "disk_map")
    keys = sorted(got.keys())
    E.prove("usable members at their positions", keys == sorted(good), lambda: f"{keys} for {sorted(good)}")
    if keys != sorted(good):
        return
    for i, s in good.items():
        off, d = got[i][0], got[i][1]
        E.prove("drive of the subdisk", E.get(d, "fh") is fh_of(present[s["drive"]]))
        E.prove_eq("start of the subdisk on its drive", E.get(d, "offset") + off, s["driveoffset"])


def check(E, out, conf, present):
    """The assembled configuration is the one expected from the merged records."""
    want = expected(E, conf, present)
    if not want:
        E.prove("nothing usable: refused", out.raised(ValueError), lambda: repr(out.exc))
        return
    E.prove("accepted", out.ok, lambda: repr(out.exc))
    if not out.ok:
        return
    confs = E.items(E.get(out.value, "configurations"))
    E.prove("one configuration", len(confs) == 1)
    vds = E.items(E.get(confs[0], "virtual_disks"))
    names = sorted(E.get(v, "name") for v in vds)
    E.prove("exposed volumes", names == sorted(x.decode() for x in want), lambda: f"{names} for {want}")
    if names != sorted(x.decode() for x in want):
        return
    for vd in vds:
        vol = E.get(vd, "name").encode()
        found, count = want[vol]
        E.prove_eq("volume record", E.get(E.get(vd, "volume"), "state"), conf["volumes"][vol]["state"])
        if count == 1:
            check_plex(E, vd, vol, *found[0], present)
            continue
        E.prove_eq("mirror: level", E.get(vd, "level"), 1)
        parts = [v[1] for _, v in sorted(E.get(vd, "disk_map").items())]
        E.prove("mirror: parts", len(parts) == len(found))
        if len(parts) != len(found):
            return
        E.prove_eq("mirror: size", E.get(vd, "size"), E.get(parts[0], "size"))
        for part, (p, sds, good) in zip(parts, found):
            check_plex(E, part, vol, p, sds, good, present)


def sane(E, conf):
    for a, b in itertools.combinations(conf["sds"], 2):
        if a["plex"] == b["plex"]:
            E.assume(a["plexoffset"] != b["plexoffset"])
            if any(p["name"] == a["plex"] and p["org"] in (PlexOrg.STRIPED, PlexOrg.RAID5) for p in conf["plexes"]):
                E.assume(a["length"] == b["length"])


def sd(E, k, plex, where, state, **fixed):
    s = dict(name=b"%s.s%d" % (plex, k), plex=plex, drive=where, state=state)
    tag = f"{plex.decode()}.{k}"
    s["length"] = E.int(f"length {tag}", 1, pick=picks(512, 4096, 1 << 20, 777))
    s["plexoffset"] = E.int(f"plexoffset {tag}", 0, pick=lambda r: r.choice([k * 512, 4096 - k, r.randrange(1 << 20)]))
    s["driveoffset"] = E.int(f"driveoffset {tag}", DATA, pick=picks(DATA, DATA + 512, 1 << 20))
    s.update(fixed)
    return s


def plex(E, name, vol, org, state=PlexState.UP):
    return dict(name=name, volume=vol, org=org, state=state,
                stripesize=E.int(f"stripe {name.decode()}", 1, pick=picks(512, 65536, 262144, 1000)) if org in (PlexOrg.STRIPED, PlexOrg.RAID5) else None)


def assembled(E, ds):
    return E.attempt(Vinum, E.list(ds))


def opened(E, drives):
    """drives: (name, active, time, conf); returns the outcome and the present drives."""
    if E.symbolic:
        E.contract(vinum.parse_vinum_config, lambda E, time, conf: records(E, dict((k, [dict(x, timestamp=time) for x in xs]) for k, xs in conf.items())))
    ds = [drive(E, i, *d) for i, d in enumerate(drives)]
    out = assembled(E, ds)
    return out, {d[0]: f for d, f in zip(drives, ds) if d[1]}


def one_plex(E):
    """One volume with one plex: every organisation and state, subdisks in any order and state, on present and missing drives."""
    org = E.choose("org", list(LEVELS) + [PlexOrg.DISORG])
    pst = E.choose("plex state", [PlexState.UP, PlexState.DEGRADED, PlexState.DOWN, PlexState.GROWABLE, PlexState.INITIALIZING])
    n = E.choose("subdisks", [1, 2, 3])
    known = [b"a", b"b"]
    states = E.choose("states", [p for p in STATES if len(p) == n])
    where = E.choose("drives", [p for p in WHERE if len(p) == n])
    conf = dict(volumes=[dict(name=b"vol", state=VolumeState.UP)], plexes=[plex(E, b"vol.p0", b"vol", org, pst)],
                sds=[sd(E, k, b"vol.p0", where[k], states[k]) for k in range(n)])
    sane(E, conf)
    out, present = opened(E, [(x, True, 77, conf) for x in known])
    check(E, out, merged(E, [(77, conf)]), present)


U, D, G, I, F = SDState.UP, SDState.DOWN, SDState.GROWABLE, SDState.INITIALIZING, SDState.DEGRADED
STATES = [(U,), (D,), (G,), (I,), (F,), (U, U), (D, U), (U, F), (I, D), (U, U, U), (U, D, G)]
WHERE = [(b"a",), (b"z",), (b"a", b"b"), (b"b", b"z"), (b"a", b"a"), (b"a", b"b", b"a"), (b"b", b"z", b"a")]


def many_plexes(E):
    """Volumes with several plexes, plexes without a volume, subdisks without a plex, volumes without anything."""
    shape = E.choose("plexes", [("A", "A"), ("A", "B"), ("A", "A", "A"), ("A", "-"), ("A", "A", "B")])
    down = E.choose("down", [None, 0, 1])
    bare = E.choose("without subdisks", [None, 0, 1])
    org = E.choose("org", [PlexOrg.CONCAT, PlexOrg.RAID5])
    conf = dict(volumes=[dict(name=b"A", state=VolumeState.UP), dict(name=b"B", state=VolumeState.DOWN), dict(name=b"C", state=VolumeState.UP)], plexes=[], sds=[])
    for i, v in reversed(list(enumerate(shape))):
        name = b"%s.p%d" % (v.encode(), i)
        conf["plexes"].append(plex(E, name, v.encode(), org, PlexState.DOWN if down == i else PlexState.UP))
        if bare != i:
            conf["sds"] += [sd(E, k, name, (b"a", b"b", b"z")[(i + k) % 3], SDState.UP) for k in range(1 if i == 1 else 2)]
    conf["sds"].append(sd(E, 9, b"nowhere", b"a", SDState.UP))
    sane(E, conf)
    out, present = opened(E, [(x, True, 77, conf) for x in (b"a", b"b")])
    check(E, out, merged(E, [(77, conf)]), present)


def newest(counts):
    """Drives that disagree: every record comes from the newest active drive that has it."""

    def drv(E):
        n = E.choose("drives", counts)
        act = E.choose("active", [p for p in ACTIVE if len(p) == n])
        missing = E.choose("missing", [None, ("plexes", 0), ("sds", 1), ("volumes", 0)])
        names = [b"a", b"b", b"c"][:n]
        drives, confs = [], []
        for i in range(n):
            t = E.int(f"time{i}", 0, pick=lambda r: r.choice([5, 1700000000, 1700000001]) * 1000000 + r.choice([0, 1, 999999, r.randrange(1000000)]))
            p = plex(E, b"vol.p0", b"vol", (PlexOrg.STRIPED, PlexOrg.RAID5)[i % 2])
            p["stripesize"] = E.int(f"stripe{i}", 1, pick=picks(512, 1024, 5120))
            ln = E.int(f"length{i}", 1, pick=picks(512, 1024, 7777))
            sds = [sd(E, k, b"vol.p0", names[(i + k) % n], SDState.UP, length=ln, plexoffset=E.int(f"plexoffset{k}", 0, pick=picks(512 * k)),
                      driveoffset=E.int(f"driveoffset{i}.{k}", DATA, pick=picks(DATA + 512 * i))) for k in range(2)]
            conf = dict(volumes=[dict(name=b"vol", state=(VolumeState.UP, VolumeState.DOWN)[i % 2])], plexes=[p], sds=sds)
            if missing and missing[1] == i:
                conf[missing[0]] = []
            drives.append((names[i], act[i], t, conf))
            if act[i]:
                confs.append((t, conf))
        for a, b in itertools.combinations(drives, 2):
            E.assume(a[2] != b[2])
        conf = merged(E, confs)
        for a, b in itertools.combinations(conf["sds"].values(), 2):
            E.assume(E.And(a["plexoffset"] != b["plexoffset"], a["length"] == b["length"]))
        out, present = opened(E, drives)
        check(E, out, conf, present)

    return drv


ACTIVE = [(True,), (False,), (True, True), (False, True), (True, False), (True, True, True), (True, False, True), (False, False, False)]


def header(E):
    """What the header of a drive says."""
    f = E.file("drive", E.int("file size", 4608, pick=picks(4608, 1 << 20, 1 << 22)))
    at = lambda o: f.uint(4096 + o, 8, "be")
    if not E.symbolic:
        n = lambda o, v: f.filln(4096 + o, 8, v, "be")
        r = E.rng
        n(0, r.choice([*MAGIC, *MAGIC, 5, 0x56494E554D2D3101]))
        n(8, r.choice([0, 300, 65536]))
        n(96, r.choice([0, 1, 1700000000, 4000000000]))
        n(104, r.choice([0, 1, 999999, r.randrange(1000000)]))
        n(112, r.choice([0, 1 << 20, 1 << 30]))
        f.fill(4096 + 48, bytes(r.choice(b"abcz09.-") for _ in range(r.choice([0, 3, 31, 32]))).ljust(32, b"\x00"))
    if E.symbolic:
        E.assume(at(96) < 1 << 32)
    out = E.attempt(VinumPhysicalDisk, f)
    magic = at(0)
    if not E.Or(*[magic == m for m in MAGIC]):
        E.prove("no Vinum drive: refused", out.raised(ValueError))
        return
    E.prove("Vinum drive accepted", out.ok, lambda: repr(out.exc))
    if not out.ok:
        return
    d = out.value
    E.prove_eq("active", E.get(d, "active"), E.Or(*[magic == m for m, a in MAGIC.items() if a]))
    E.prove_eq("name", E.get(d, "id"), f.bytes_at(4096 + 48, 32).rstrip(b"\x00"))
    E.prove_eq("start of the data", E.get(d, "offset"), DATA)
    E.prove_eq("size", E.get(d, "size"), E.ite(at(112) == 0, f.fsize, at(112)))
    if not E.symbolic:
        t = E.get(d, "config_time").timestamp()
        E.prove("time", abs(t - at(96) - at(104) / 1e6) < 1e-6 and E.get(d, "config_time").microsecond == at(104))
    E.assume(4608 + at(8) <= f.fsize)
    conf = E.get(d, "config")
    E.prove_bytes("configuration text", conf, at(8), lambda k: f.at(4608 + k))


def content(org, n):
    """Data of an opened volume."""

    def drv(E):
        ss = E.int("stripe", 1, pick=picks(512, 4096, 1000))
        rows = E.int("rows", 1, pick=picks(1, 3, 10))
        drives = [bytes([97 + k]) for k in range(max(n, 3))]
        sds = []
        pos = 0
        for k in range(n):
            s = sd(E, k, b"v.p0", drives[k], SDState.UP)
            s["plexoffset"] = pos if org == PlexOrg.CONCAT else k * ss
            if org != PlexOrg.CONCAT:
                s["length"] = rows * ss
            pos = pos + s["length"]
            sds.append(s)
        order = E.choose("order", list(itertools.islice(itertools.permutations(range(n)), 3)))
        conf = dict(volumes=[dict(name=b"v", state=VolumeState.UP)], sds=[sds[k] for k in order],
                    plexes=[dict(name=b"v.p0", volume=b"v", org=org, state=PlexState.UP, stripesize=ss if org != PlexOrg.CONCAT else None)])
        sizes = [None] * len(drives)
        if org == PlexOrg.STRIPED:
            # drive sizes in chunks, a remainder below; drives may differ
            low = E.int("chunks", 0, pick=picks(300, 1000))
            E.assume(rows <= low)
            q = [low] * n
            big = E.choose("larger", [None, 0, 1])
            if big is not None:
                q[big] = q[big] + E.int("difference", 1, pick=picks(1, 50))
            for k in range(n):
                rem = E.int(f"rest{k}", 0, pick=lambda r: r.randrange(ss))
                E.assume(rem < ss)
                sizes[k] = q[k] * ss + rem
        out, present = opened(E, [(x, True, 77, conf, sizes[k]) for k, x in enumerate(drives)])
        E.prove("accepted", out.ok, lambda: repr(out.exc))
        if not out.ok:
            return
        vd = E.items(E.get(E.items(E.get(out.value, "configurations"))[0], "virtual_disks"))[0]
        for s in sds:
            d = present[s["drive"]]
            top = d.size if E.symbolic else sizes[sds.index(s)] or 1 << 25
            E.assume(s["driveoffset"] + s["length"] <= top)
        st = E.call(vd.open)
        at = lambda k, p: fh_of(present[sds[k]["drive"]]).at(sds[k]["driveoffset"] + p)

        def spec(p):
            if org == PlexOrg.CONCAT:
                r = None
                for k in reversed(range(n)):
                    b = at(k, p - sds[k]["plexoffset"])
                    r = b if r is None else E.ite(p < sds[k + 1]["plexoffset"], b, r)
                return r
            c, o = p // ss, p % ss
            nd = n - (org == PlexOrg.RAID5)
            row = c // nd
            m = c % nd if org == PlexOrg.STRIPED else C02.data_disk(E, 5, "LEFT_ASYMMETRIC", n, row, c % nd)
            r = None
            for k in range(n):
                b = at(k, row * ss + o)
                r = b if r is None else E.ite(m == k, b, r)
            if org == PlexOrg.STRIPED and big is not None:
                # behind the end of the volume: the rest of the larger drive
                r = E.ite(c < n * low, r, at(big, (c - (n - 1) * low) * ss + o))
            return r

        check_stream(E, st, spec, pos if org != PlexOrg.RAID5 else rows * ss * (n - 1))

    return drv


def sampled(E):
    """Any number of everything."""
    r = E.rng
    nv, nd = r.randint(1, 4), r.choice([1, 2, 3, 4, 5, 12])
    names = [b"d%d" % i for i in range(nd)]
    drives, confs = [], []
    base = {}  # drives written at the same time agree
    for i in range(nd):
        conf = dict(volumes=[], plexes=[], sds=[])
        for v in range(nv):
            if r.random() < 0.9:
                conf["volumes"].append(dict(name=b"v%d" % v, state=r.choice(list(VolumeState))))
            for p in range(r.choice([1, 1, 2, 3])):
                name = b"v%d.p%d" % (v, p)
                org = r.choice([*LEVELS, *LEVELS, PlexOrg.DISORG])
                conf["plexes"].append(dict(name=name, volume=b"v%d" % v, org=org, state=r.choice([PlexState.UP, *PlexState]),
                                           stripesize=r.choice([512, 65536]) if org in (PlexOrg.STRIPED, PlexOrg.RAID5) else None))
                ln, k = r.choice([512, 4096, 70000]), r.choice([0, 1, 2, 3, 5, 12])
                offs = r.sample(range(0, 100000, 512), k)
                conf["sds"] += [dict(name=b"%s.s%d" % (name, j), plex=r.choice([name] * 9 + [b"gone"]), drive=r.choice(names + names + [b"missing"]), length=ln,
                                     plexoffset=offs[j], driveoffset=DATA + 512 * r.randrange(50), state=r.choice([SDState.UP, SDState.UP, *SDState])) for j in range(k)]
        for xs in conf.values():
            r.shuffle(xs)
        t, a = r.choice([3, 3, 4, 5, 1700000000]) * 1000000 + r.choice([0, 0, 1, 999999]), r.random() < 0.9
        conf = base.setdefault(t, conf)
        drives.append((names[i], a, t, conf))
        if a:
            confs.append((t, conf))
    conf = merged(E, confs)
    sane(E, dict(plexes=conf["plexes"].values(), sds=conf["sds"].values()))
    out, present = opened(E, drives)
    check(E, out, conf, present)


def concat_any(E):
    """A concatenated plex of any number of subdisks: the linear set is made of them (what it reads is C04)."""
    if not E.symbolic:
        return content(PlexOrg.CONCAT, E.choose("count", [4, 5, 8, 11]))(E)
    n = E.int("n", 1)
    fam = E.family("drive")
    base = lambda i: E.fun("base", i, lo=0)
    skip = lambda i: E.fun("skip", i, lo=0)
    length = lambda i: E.fun("length", i, lo=1)
    start = lambda i: E.fun("start", i, lo=0)
    E.assume(start(0) == 0)

    def part(i):
        E.assume(start(i + 1) == start(i) + length(i))
        return Ghost(length=length(i), plexoffset=start(i))

    drive = lambda i: (skip(i), GhostDrive(fh=fam.file(i), offset=base(i), size=E.fun("room", i, lo=1)))
    E.pair_hint("sum", lambda i, p, i0, p0: p == start(i))
    plex = Ghost(name=b"v.p0", org=PlexOrg.CONCAT, stripesize=None)
    vd = E.call(vinum.VinumPlexDisk, Ghost(name=b"v"), plex, E.growseq(n, part), E.table(n, drive, lambda i: i))
    E.prove_eq("size of the plex", E.get(vd, "size"), start(n))
    K = E.ghost()

    def same(got, i):
        off, d = got
        return E.And(E.get(d, "size") == length(i), E.Implies(E.And(K >= 0, K < length(i)),
                     E.stream_byte(E.call(d.open), off + K) == fam.file(i).at(base(i) + skip(i) + K)))

    em = E.emitter("subdisks", lambda i: [i], lambda r: r, same, keyed=True)
    out = E.file("linear", endless=True)

    def linear(E, vd):
        E.prove_eq("number of subdisks", E.get(vd, "num_disks"), n)
        E.prove_filled("subdisks", E.get(vd, "disk_map"), em, n)
        return out

    E.contract(LinearStream, linear)
    if E.call(vd.open) is not out:
        E.unsupported("opened in another way")


def stripes_any(E):
    """Striped and RAID 5 plexes of any number of subdisks: the set that is opened (what it reads is C01 and C02)."""
    org = E.choose("organisation", [PlexOrg.STRIPED, PlexOrg.RAID5])
    if not E.symbolic:
        return content(org, E.choose("count", [4, 5, 8, 11]))(E)
    n, ss, length = E.int("n", 2), E.int("stripe", 1), E.int("length", 1)
    E.assume(length % ss == 0)
    fam = E.family("drive")
    drive = lambda i: (E.fun("skip", i, lo=0), GhostDrive(fh=fam.file(i), offset=E.fun("base", i, lo=0), size=E.fun("room", i, lo=1)))
    dm = E.table(n, drive, lambda i: i)
    plex = Ghost(name=b"v.p0", org=org, stripesize=ss)
    vd = E.call(vinum.VinumPlexDisk, Ghost(name=b"v"), plex, E.growseq(n, lambda i: Ghost(length=length, plexoffset=i * ss)), dm)
    out = E.file("set", endless=True)

    def opened(E, got):
        E.prove_eq("stripes", E.get(got, "stripe_size"), ss)
        E.prove_eq("number of subdisks", E.get(got, "num_disks"), n)
        E.prove_eq("size of the plex", E.get(got, "size"), (n if org == PlexOrg.STRIPED else n - 1) * length)
        E.prove_eq("level", E.get(got, "level"), LEVELS[org])
        if org == PlexOrg.RAID5:
            E.prove_eq("layout", E.get(got, "layout"), 0)
        if E.get(got, "disk_map") is not dm:
            E.unsupported("subdisks given in another way")
        return out

    E.contract(RAID0Stream if org == PlexOrg.STRIPED else RAID456Stream, opened)
    if E.call(vd.open) is not out:
        E.unsupported("opened in another way")


DRIVERS = [
    Driver("header", header, samples=200),
    Driver("one-plex", one_plex, samples=300),
    Driver("many-plexes", many_plexes, samples=200),
    Driver("newest", newest([1, 2]), samples=300),
    Driver("newest-3", newest([3]), samples=100),
    Driver("many", sampled, symbolic=False, samples=400, bounded="up to 12 drives, 4 volumes, 12 plexes, 12 subdisks for each"),
]
DRIVERS += [Driver(f"content-concat-{n}", content(PlexOrg.CONCAT, n), samples=100) for n in (1, 2, 3)]
DRIVERS += [Driver("content-striped", content(PlexOrg.STRIPED, 2), samples=100), Driver("content-raid5", content(PlexOrg.RAID5, 3), samples=100)]
DRIVERS += [Driver(f"content-{o.name.lower()}-many", more(lambda n, o=o: content(o, n), [4, 5, 8, 11]), symbolic=False, samples=60,
                   bounded="4 to 11 subdisks only by sampling") for o in (PlexOrg.STRIPED, PlexOrg.RAID5)]
DRIVERS += [Driver("content-concat-any", concat_any, samples=60), Driver("stripes-any", stripes_any, samples=40)]
DRIVERS += [*utilstreams.ALIGNED, *utilstreams.MAPPING]
