"""C10: Vinum configuration text is parsed exactly as the FreeBSD kernel does."""
import itertools
import re
import types
from datetime import datetime, timezone

from dissect.volume.vinum import config
from dissect.volume.vinum.config import PlexOrg, PlexState, SDState, VolumeState, parse_vinum_config

from .common import Driver

LEVEL = "proof"
ASSUMPTIONS = [
    "a number that is followed by further minus signs and digits (1-2) may count as its leading number or as 0",
    "numbers have at most 4000 digits",
    "int() of a byte string, bytes.lstrip and splitting at single characters are taken as specified by Python",
]
TIME = datetime(2024, 1, 2, tzinfo=timezone.utc)
DATA = 135680


class Bad(Exception):
    pass


def tokens(line):
    out = []
    for t in re.split(rb"[ \t]+", line):
        if t[:1] == b"#":
            break
        if t[:1] in (b'"', b"'") and t:
            raise Bad
        if t:
            out.append(t)
    return out


def size(t):
    """Acceptable values of a size."""
    m = re.match(rb"(-?[0-9]+)(.?)", t, re.DOTALL)
    if not m:
        return {0}
    n = int(m[1])
    if m[2] == b"-":
        return {0, n}
    return {n * {b"b": 512, b"s": 512, b"k": 1024, b"m": 1 << 20, b"g": 1 << 30}.get(m[2].lower(), 1)}


def up(cls, t):
    return next((x for x in cls if x.value == t), list(cls)[0])


def volume(ts):
    v = dict(name=None, state=None)
    ts = iter(ts)
    for t in ts:
        if t == b"state":
            v["state"] = up(VolumeState, value(ts))
        else:
            v["name"] = t
    if v["name"] is None:
        raise Bad
    return v


def value(ts):
    t = next(ts, None)
    if t is None:
        raise Bad
    return t


def plex(ts):
    p = dict.fromkeys(("name", "org", "stripesize", "volume", "state"))
    ts = iter(ts)
    for t in ts:
        if t == b"name":
            p["name"] = value(ts)
        elif t == b"org":
            p["org"] = up(PlexOrg, value(ts))
            if p["org"] in (PlexOrg.STRIPED, PlexOrg.RAID5):
                p["stripesize"] = {x for x in size(value(ts)) if x > 0}
                if not p["stripesize"]:
                    raise Bad
        elif t in (b"vol", b"volume"):
            p["volume"] = value(ts)
        elif t == b"state":
            p["state"] = up(PlexState, value(ts))
        else:
            raise Bad
    return p


def sd(ts):
    s = dict.fromkeys(("name", "drive", "length", "driveoffset", "plex", "plexoffset", "state"))
    ts = iter(ts)
    for t in ts:
        if t in (b"name", b"drive", b"plex"):
            s[t.decode()] = value(ts)
        elif t in (b"len", b"length"):
            s["length"] = {max(x, -1) for x in size(value(ts))}
        elif t == b"driveoffset":
            s["driveoffset"] = {x for x in size(value(ts)) if x == 0 or x >= DATA}
            if not s["driveoffset"]:
                raise Bad
        elif t == b"plexoffset":
            s["plexoffset"] = {x for x in size(value(ts)) if x >= 0}
            if not s["plexoffset"]:
                raise Bad
        elif t == b"state":
            s["state"] = up(SDState, value(ts))
        else:
            raise Bad
    if s["drive"] is None:
        raise Bad
    return s


def reference(text):
    """Records of a configuration text, by the rules of gv_parse_config; unknown record types end parsing."""
    out = {"volumes": [], "plexes": [], "sds": []}
    for ln in re.split(rb"[\x00\n]", text):
        try:
            ts = tokens(ln)
            if not ts:
                continue
            key, fn = {b"volume": ("volumes", volume), b"plex": ("plexes", plex), b"sd": ("sds", sd)}[ts[0]]
            out[key].append(fn(ts[1:]))
        except (Bad, KeyError):
            break
    return out


def ambiguous(text):
    """Refusal depends on how an odd number is read."""
    return re.search(rb"[0-9]-", text) is not None


def compare(E, text):
    out = E.attempt(parse_vinum_config, TIME, text)
    E.prove("never crashes", out.ok, lambda: f"{out.exc!r} for {text!r}")
    if not out.ok:
        return
    want = reference(text)
    got = out.value
    for key, xs in want.items():
        ys = list(E.items(got[key]))
        E.prove(f"number of {key}", len(ys) == len(xs), lambda: f"{ys} for {xs} in {text!r}")
        if len(ys) != len(xs):
            return
        for x, y in zip(xs, ys):
            E.prove("time", E.get(y, "timestamp") is TIME)
            for name, v in x.items():
                g = E.get(y, name)
                ok = g in v if isinstance(v, set) else (g is v if v is None or not isinstance(v, bytes) or not type(v) is bytes else g == v)
                E.prove(f"{key}: {name}", ok, lambda: f"{g!r} for {v!r} in {text!r}")


WORDS = [b"volume", b"plex", b"sd", b"name", b"org", b"vol", b"state", b"drive", b"len", b"length", b"driveoffset", b"plexoffset", b"concat", b"striped", b"raid5", b"?", b"up", b"down",
         b"initializing", b"degraded", b"growable", b"stale", b"a", b"b.p0", b"v", b"x#y", b"it's", b'q"', b"\xff\xfe", b"Volume", b"UP", b"names"]
UNITS = [b"", b"", b"b", b"B", b"s", b"S", b"k", b"K", b"m", b"M", b"g", b"G", b"x", b"ss", b"kB", b" ", b"t", b"\xb5"]


def number(r):
    n = r.choice([0, 1, 7, 512, 4096, DATA - 1, DATA, DATA + 1, 265, 1 << 40, r.randrange(1 << 30), int("9" * r.choice([1, 30, 300]))])
    s = b"%d" % n
    if r.random() < 0.1:
        s = b"0" * r.randint(1, 3) + s
    return r.choice([b"", b"", b"", b"", b"-", b"+", b"--"]) + s + r.choice(UNITS)


def record(r):
    kind = r.choice([b"volume", b"plex", b"sd", b"sd", b"plex"])
    word = lambda: r.choice([b"a", b"vol1", b"drive-2", b"x.p0", b"n#1", b"state", b"name"])
    st = lambda: r.choice([b"up", b"down", b"degraded", b"initializing", b"growable", b"stale", b"UP", b"up2"])
    if kind == b"volume":
        parts = [[word()], [b"state", st()]]
    elif kind == b"plex":
        parts = [[b"name", word()], [b"org", *r.choice([[b"concat"], [b"striped", number(r)], [b"raid5", number(r)], [b"?"], [b"raid6"]])], [r.choice([b"vol", b"volume"]), word()], [b"state", st()]]
    else:
        parts = [[b"name", word()], [b"drive", word()], [r.choice([b"len", b"length"]), number(r)], [b"driveoffset", r.choice([b"0", b"265s", number(r)])], [b"plex", word()],
                 [b"plexoffset", r.choice([b"0s", number(r)])], [b"state", st()]]
    r.shuffle(parts)
    if r.random() < 0.4:
        parts = parts[: r.randint(0, len(parts))]
    if r.random() < 0.1:
        parts += r.choice(parts or [[b"x"]])[:1],
    ts = [kind, *itertools.chain(*parts)]
    if r.random() < 0.1:
        ts.pop(r.randrange(len(ts)))
    return ts


def line(r):
    ts = record(r) if r.random() < 0.8 else [r.choice(WORDS) for _ in range(r.randint(0, 6))]
    blank = lambda: r.choice([b" ", b" ", b" ", b"\t", b"  ", b" \t "])
    s = b"".join(t + blank() for t in ts)
    if r.random() < 0.5:
        s = s.rstrip(b" \t")
    if r.random() < 0.1:
        s = blank() + s
    if r.random() < 0.1:
        s += r.choice([b"#", b" # comment", b"#x 'y", b' "z"', b" 'z", b"\r", b"\x0b"])
    return s


def text(E):
    r = E.rng
    out = b"".join(line(r) + r.choice([b"\n", b"\n", b"\x00", b"\n\n", b"\x00\x00", b"\n \n#c\n"]) for _ in range(r.randint(0, 6)))
    if r.random() < 0.2 and out:
        # damage
        b = bytearray(out)
        for _ in range(r.randint(1, 3)):
            b[r.randrange(len(b))] = r.choice([0, 10, 32, 34, 35, 39, 45, r.randrange(256)])
        out = bytes(b)
    if r.random() < 0.05:
        out = bytes(r.randrange(256) for _ in range(r.randrange(60)))
    E.assume(not ambiguous(out))
    compare(E, out)


def exhaustive(pre, alphabet, n, post=b""):
    """Every string of at most n symbols of the alphabet between pre and post."""

    def drv(E):
        E.concrete_only()
        for k in range(n + 1):
            for xs in itertools.product(alphabet, repeat=k):
                t = pre + b"".join(xs) + post
                if not ambiguous(t):
                    compare(E, t)

    return drv


# ---------------------------------------------------------------- contracts
#
# parse_vinum_config is proved over contracts of tokenize and the record parsers, these over contracts of tokenize
# and _parse_size.  Every specification is a recursive function of the position in the line or token list.
def part(E, *names):
    """The functions of the module that are under contract (symbolically only, they are not part of the interface)."""
    if not E.symbolic:
        text(E)
        return None
    fs = [getattr(config, n, None) for n in names]
    if not all(isinstance(f, types.FunctionType) for f in fs):
        E.unsupported("the module is organised differently")
    return fs


def tokenizing(E):
    fs = part(E, "tokenize")
    if not fs:
        return
    n = E.int("n", lo=0)
    f = E.file("line", size=n)
    line = f.bytes_at(0, n)
    at = lambda i: f.at(i)
    blank = lambda i: E.And(i < n, E.Or(at(i) == 32, at(i) == 9))
    E.slice_hint(line)
    skip = E.fold("skip", lambda i, go: E.ite(blank(i), go(i + 1), i), None, ints=True)
    end = E.fold("end", lambda i, go: E.ite(E.Or(i >= n, blank(i)), i, go(i + 1)), None, ints=True)

    def step(i, acc, go):
        s = skip(i)
        e = end(s)
        skip(e), skip(e + 1)
        return E.vite(E.Or(s >= n, at(s) == 35), acc, E.vite(E.Or(at(s) == 34, at(s) == 39), b"error", go(e, E.snoc(acc, E.piece(line, s, e)))))

    def bad(i, go):
        s = skip(i)
        e = end(s)
        skip(e), skip(e + 1)
        return E.ite(E.Or(s >= n, at(s) == 35), 0, E.ite(E.Or(at(s) == 34, at(s) == 39), 1, go(e)))

    toks = E.fold("tokens", step, (0, E.listed(E.list())), acc="list", depth=2)
    err = E.fold("unterminated", bad, (0,), ints=True, depth=2)
    E.view_measure("left", lambda v: n + 1 - v)
    E.term_hint("end", n + 1)
    out = E.attempt(fs[0], line)
    E.prove("only quotes are refused", E.eq(err(*err.start), 0) if out.ok else (E.eq(err(*err.start), 1) if out.raised(config.TokenizeError) else False))
    if out.ok:
        E.prove("tokens of the line", E.veq(E.listed(out.value), toks(*toks.start)))


class Words:
    """An arbitrary list of tokens and the value each one has as a size."""

    def __init__(self, E):
        self.E = E
        self.n = n = E.int("n", lo=0)
        self.tok = lambda i: E.opaque("token", i, py=bytes, none=True)
        self.err = E.bool("err")
        self.seq = E.sequence(n, self.tok, (self.err, lambda: config.TokenizeError("<symbolic>")))
        E.val_hint("lookahead", lambda t, p: E.veq(t, self.tok(p - 1)))
        E.view_measure("left", lambda v: n + 1 - v)
        E.term_hint("end", n + 1)

    def size(self, t):
        """_parse_size under its contract: some number for every token."""
        return self.E.opaque_int("size", t)

    def at(self, i):
        return self.seq.item(i)

    def is_(self, i, *words):
        return self.E.Or(*[self.E.veq(self.tok(i), w) for w in words])

    def member(self, cls, i):
        """The enum member a token stands for, the default for unknown ones."""
        r = list(cls)[0]
        for m in cls:
            if type(m.value) is bytes:
                r = self.E.vite(self.is_(i, m.value), m, r)
        return r


def fields(E, W, rows, known):
    """Folds for the fields of a record.

    ``rows(i)``: (condition, number of tokens used, is it acceptable, {field: value}); the first that applies counts.
    """
    n = W.n

    def bad(i, go):
        r = 1
        W.at(i), W.at(i + 1), W.at(i + 2)
        for c, w, ok, _ in reversed(rows(i)):
            r = E.ite(c, E.ite(E.And(i + w <= n, ok), go(i + w), 1), r)
        return E.ite(i >= n, 0, r)

    def field(name):
        def step(i, acc, go):
            W.at(i), W.at(i + 1), W.at(i + 2)
            r = b"unknown"
            for c, w, ok, vs in reversed(rows(i)):
                r = E.vite(c, go(i + w, vs.get(name, acc)), r)
            return E.vite(i >= n, acc, r)

        return E.fold(name, step, (0, None), acc="val")

    return E.fold("bad", bad, (0,), ints=True), {k: field(k) for k in known}


def record_contract(E, parser, cls, names, rows, needed=None):
    fs = part(E, parser, "_parse_size")
    if not fs:
        return
    W = Words(E)
    E.contract(fs[1], lambda E, t: W.size(t))
    bad, F = fields(E, W, lambda i: rows(E, W, i), names)
    out = E.attempt(fs[0], TIME, E.iterator(W.seq))
    if not out.ok:
        E.prove("nothing is raised but the error of the line", E.And(W.err, out.raised(config.TokenizeError)))
        return
    r = out.value
    want = {k: f(*f.start) for k, f in F.items()}
    refused = bad(*bad.start) == 1
    if needed is not None:
        refused = E.Or(refused, E.veq(want[needed], None))
    if r is None:
        E.prove("only unusable records are refused", E.Or(W.err, refused))
        return
    E.prove("kind of the record", type(r) is cls)
    E.prove("unusable records are refused", E.Not(E.Or(W.err, refused)))
    E.prove("time", E.get(r, "timestamp") is TIME)
    for k in names:
        E.prove(f"field {k}", E.veq(E.get(r, k), want[k]))


def volume_rows(E, W, i):
    return [(W.is_(i, b"state"), 2, True, dict(state=W.member(VolumeState, i + 1))), (True, 1, True, dict(name=W.tok(i)))]


def plex_rows(E, W, i):
    v = W.tok(i + 1)
    striped = W.is_(i + 1, b"striped", b"raid5")
    org = W.is_(i, b"org")
    size = W.size(W.tok(i + 2))
    return [
        (W.is_(i, b"name"), 2, True, dict(name=v)),
        (E.And(org, striped), 3, size > 0, dict(org=W.member(PlexOrg, i + 1), stripesize=size)),
        (org, 2, True, dict(org=W.member(PlexOrg, i + 1))),
        (W.is_(i, b"vol", b"volume"), 2, True, dict(volume=v)),
        (W.is_(i, b"state"), 2, True, dict(state=W.member(PlexState, i + 1))),
    ]


def sd_rows(E, W, i):
    v = W.tok(i + 1)
    size = W.size(v)
    return [
        (W.is_(i, b"name"), 2, True, dict(name=v)),
        (W.is_(i, b"drive"), 2, True, dict(drive=v)),
        (W.is_(i, b"plex"), 2, True, dict(plex=v)),
        (W.is_(i, b"len", b"length"), 2, True, dict(length=E.ite(size < 0, -1, size))),
        (W.is_(i, b"driveoffset"), 2, E.Or(size == 0, size >= DATA), dict(driveoffset=size)),
        (W.is_(i, b"plexoffset"), 2, size >= 0, dict(plexoffset=size)),
        (W.is_(i, b"state"), 2, True, dict(state=W.member(SDState, i + 1))),
    ]


def volume_contract(E):
    record_contract(E, "_parse_volume_config", config.Volume, ("name", "state"), volume_rows, "name")


def plex_contract(E):
    record_contract(E, "_parse_plex_config", config.Plex, ("name", "org", "stripesize", "volume", "state"), plex_rows)


def sd_contract(E):
    record_contract(E, "_parse_sd_config", config.SD, ("name", "drive", "length", "driveoffset", "plex", "plexoffset", "state"), sd_rows, "drive")


KINDS = [(b"volume", "volumes", "_parse_volume_config"), (b"plex", "plexes", "_parse_plex_config"), (b"sd", "sds", "_parse_sd_config")]


def config_contract(E):
    fs = part(E, "tokenize", *[k[2] for k in KINDS])
    if not fs:
        return
    n = E.int("n", lo=0)
    data = E.file("config", size=n).bytes_at(0, n)
    lines = E.lines(data, b"\x00\n")
    bad = lambda ln: E.opaque_int("bad line", ln) == 1
    count = lambda ln: E.opaque_int("tokens", ln)
    tok = lambda ln, i: E.opaque("token", ln, i, py=bytes, none=True)
    usable = lambda ln, kind: E.opaque_int("usable " + kind, ln) == 1
    cls = dict(volumes=config.Volume, plexes=config.Plex, sds=config.SD)

    def made(ln, kind):
        return E.opaque("record " + kind, ln, py=bytes)

    def tokens(E, ln):
        m = count(ln)
        E.assume(m >= 0)
        it = E.iterator(E.sequence(m, lambda i: tok(ln, i), (bad(ln), lambda: config.TokenizeError("<symbolic>"))))
        it.line = ln
        return it

    def parser(kind):
        def parse(E, time, it):
            if getattr(it, "line", None) is None:
                E.unsupported("other tokens")
            E.prove("the record type is taken off before parsing", E.eq(it.pos, 1))
            E.prove("time is passed on", time is TIME)
            it.step()
            it.pos = it.pos + E.int("consumed", lo=0)
            if E.truth(bad(it.line)):
                if E.truth(E.bool("refused")):
                    return None
                raise E.exception(config.TokenizeError("<symbolic>"))
            if E.truth(usable(it.line, kind)):
                v = made(it.line, kind)
                return cls[kind](timestamp=TIME, drive=v) if kind == "sds" else cls[kind](timestamp=TIME, name=v)
            return None

        return parse

    E.contract(fs[0], tokens)
    for (_, kind, _), f in zip(KINDS, fs[1:]):
        E.contract(f, parser(kind))

    def fine(ln):
        return E.And(E.Not(bad(ln)), E.Or(*[E.And(E.veq(tok(ln, 0), w), usable(ln, kind)) for w, kind, _ in KINDS]))

    def step(k, go):
        ln = lines.item(k)
        m = count(ln)
        return E.ite(k >= lines.n, lines.n, E.ite(E.Or(E.And(m == 0, E.Not(bad(ln))), E.And(m > 0, fine(ln))), go(k + 1), k))

    stop = E.fold("stop", step, (0,), ints=True)

    def emitter(word, kind):
        def emit(k):
            ln = lines.item(k)
            if E.truth(E.And(count(ln) > 0, E.veq(tok(ln, 0), word))):
                return [(kind, made(ln, kind))]
            return []

        def obs(x):
            return next((k for k, c in cls.items() if type(x) is c), None), E.get(x, "drive" if type(x) is config.SD else "name")

        return E.emitter(kind, emit, obs, lambda a, b: E.And(a[0] == b[0], E.veq(a[1], b[1])))

    ems = {kind: emitter(word, kind) for word, kind, _ in KINDS}
    out = E.attempt(parse_vinum_config, TIME, data)
    E.prove("never crashes", out.ok)
    if not out.ok:
        return
    for kind, em in ems.items():
        E.prove_list(kind, out.value[kind], [em.run(0, stop(*stop.start))])


def size_contract(E):
    fs = part(E, "_parse_size")
    if not fs:
        return
    n = E.int("n", lo=0)
    f = E.file("size", size=n)
    b = f.bytes_at(0, n)
    j = E.span(b, b"-0123456789")
    out = E.attempt(fs[0], b)
    E.prove("never crashes", out.ok)
    if not out.ok:
        return
    num = E.piece(b, 0, j)
    unit = f.at(j)
    is_ = lambda cs: E.And(j < n, E.Or(*[unit == c for c in cs]))
    scale = 1
    for cs, v in ((b"bBsS", 512), (b"kK", 1 << 10), (b"mM", 1 << 20), (b"gG", 1 << 30)):
        scale = E.ite(is_(cs), v, scale)
    E.prove("scaled number", E.Implies(E.is_number(num), E.eq(out.value, E.number(num) * scale)))
    E.prove("no number", E.Implies(E.Not(E.is_number(num)), E.eq(out.value, 0)))


BLANKS = [b"a", b" ", b"\t", b"#", b'"', b"'"]
NUMBERS = [bytes([x]) for x in b"-01bSkMgx"]


def once(name, fn, bound):
    return Driver(name, fn, symbolic=False, samples=1, sample_time=60, xcheck=False, bounded=bound)


DRIVERS = [
    Driver("tokenize", tokenizing, samples=2000, sample_time=3, xcheck=False),
    Driver("size", size_contract, samples=2000, sample_time=3, xcheck=False),
    Driver("lines-of-config", config_contract, samples=2000, sample_time=3, xcheck=False),
    Driver("volume-record", volume_contract, samples=2000, sample_time=3, xcheck=False),
    Driver("plex-record", plex_contract, samples=2000, sample_time=3, xcheck=False),
    Driver("sd-record", sd_contract, samples=2000, sample_time=3, xcheck=False),
    Driver("text", text, symbolic=False, samples=40000, sample_time=15, bounded="sampled configuration texts, also damaged ones"),
    once("tokens", exhaustive(b"volume ", BLANKS, 6), "every line with up to 6 of the characters a, blank, tab, # and quotes"),
    once("lines", exhaustive(b"", [b"volume a", b"\n", b"\x00", b" ", b"x", b"#"], 5), "every text of up to 5 pieces"),
    once("lengths", exhaustive(b"sd drive d len ", NUMBERS, 5), "every size of up to 5 of the characters -01bSkMgx"),
    once("stripes", exhaustive(b"plex org raid5 ", NUMBERS, 3, b" vol v"), "every stripe size of up to 3 of the characters -01bSkMgx"),
    once("volume", exhaustive(b"volume", [b" a", b" state", b" up", b" b"], 5), "every volume line of up to 5 words"),
    once("plex", exhaustive(b"plex", [b" name", b" org", b" raid5", b" concat", b" 8k", b" vol", b" state", b" up"], 5), "every plex line of up to 5 words"),
    once("sd", exhaustive(b"sd drive d", [b" name", b" drive", b" len", b" driveoffset", b" 265s", b" plexoffset", b" 0", b" -1", b" state", b" up", b" plex"], 5), "every subdisk line of up to 5 words"),
]
