"""C15: LVM2 metadata text parses to the structure it denotes; the objects carry exactly those values."""
import itertools
import types

from dissect.util import ts
from dissect.volume.lvm import metadata, physical
from dissect.volume.lvm.metadata import VolumeGroup
from dissect.volume.lvm.physical import parse_metadata

from . import lvmtext
from .common import Driver, picks

LEVEL = "proof"
ASSUMPTIONS = [
    "one statement per line, strings in double quotes with \\\\ and \\\" as the only escapes, decimal numbers (what LVM2 writes)",
    "sections close only when they are open; a list that goes on over several lines ends with ] at the end of a line, and no other line of it does",
    "str.strip, str.split, str.join and ast.literal_eval are uninterpreted in the proof (a value is literal_eval of its text); that literal_eval reads LVM2 numbers, strings and lists as LVM2 does is checked with generated documents only",
    "re.sub matches from left to right and takes one of the prefixes in the language of the pattern, the longest one if it ends in a greedy repetition of a single character",
]

# ---------------------------------------------------------------- objects
# fields of each kind of object, as LVM2 writes them: (mandatory, optional)
SEG = (["start_extent", "extent_count", "type"], ["reshape_count", "data_copies", "tags"])
VG = (["id", "seqno", "status", "flags", "extent_size", "max_lv", "max_pv"],
      ["system_id", "allocation_policy", "profile", "metadata_copies", "tags", "format", "lock_type", "lock_args"])
PV = (["id", "status", "pe_start", "pe_count"], ["dev_size", "device", "device_id", "device_id_type", "ba_start", "ba_size", "tags"])
LV = (["id", "status", "flags", "segment_count"],
      ["creation_time", "creation_host", "lock_args", "allocation_policy", "profile", "read_ahead", "tags"])
RAIDS = ["raid", "raid0", "raid0_meta", "raid1", "raid10", "raid10_near", "raid4", "raid5", "raid5_n", "raid5_la", "raid5_ls", "raid5_ra",
         "raid5_rs", "raid6", "raid6_nc", "raid6_nr", "raid6_zr", "raid6_la_6", "raid6_ls_6", "raid6_ra_6", "raid6_rs_6", "raid6_n_6"]
KINDS = {
    "StripedSegment": (["linear", "striped"], ["stripe_count", "stripes"], ["stripe_size"]),
    "MirrorSegment": (["mirror"], ["mirror_count"], ["extents_moved", "region_size", "mirror_log", "mirrors"]),
    "SnapshotSegment": (["snapshot"], ["chunk_size"], ["merging_store", "cow_store", "origin"]),
    "ThinSegment": (["thin"], ["thin_pool", "transaction_id"], ["origin", "merge", "device_id", "external_origin"]),
    "ThinPoolSegment": (["thin-pool"], ["metadata", "pool", "transaction_id", "chunk_size"], ["discards", "zero_new_blocks", "crop_metadata"]),
    "CacheSegment": (["cache"], ["cache_pool", "origin"], ["cleaner", "chunk_size", "cache_mode", "policy", "metadata_format", "metadata_start",
                                                            "metadata_len", "data_start", "data_len", "metadata_id", "data_id"]),
    "CachePoolSegment": (["cache-pool"], ["data", "metadata"], ["metadata_format", "chunk_size", "cache_mode", "policy"]),
    "WriteCacheSegment": (["writecache"], ["origin", "writecache", "writecache_block_size"],
                          ["high_watermark", "low_watermark", "writeback_jobs", "autocommit_blocks", "autocommit_time", "fua", "nofua", "cleaner",
                           "max_age", "metadata_only", "pause_writeback", "writecache_setting_key", "writecache_setting_val"]),
    "IntegritySegment": (["integrity"], ["origin", "data_sectors", "mode", "tag_size", "block_size", "internal_hash"],
                         ["meta_dev", "recalculate", "journal_sectors", "interleave_sectors", "buffer_sectors", "journal_watermark",
                          "commit_time", "bitmap_flush_interval", "sectors_per_bit"]),
    "ErrorSegment": (["error"], [], []),
    "FreeSegment": (["free"], [], []),
    "ZeroSegment": (["zero"], [], []),
    "VdoSegment": (["vdo"], ["vdo_pool", "vdo_offset"], []),
    "VdoPoolSegment": (["vdo-pool"], ["data", "header_size", "virtual_extents", "use_compression", "use_deduplication", "use_metadata_hints",
                                      "minimum_io_size", "block_map_cache_size_mb", "block_map_era_length", "use_sparse_index", "index_memory_size_mb",
                                      "max_discard", "slab_size_mb", "ack_threads", "bio_threads", "bio_rotation", "cpu_threads",
                                      "hash_zone_threads", "logical_threads", "physical_threads"], ["write_policy"]),
    "RAIDSegment": (RAIDS, [], ["device_count", "stripe_count", "region_size", "stripe_size", "writebehind", "min_recovery_rate",
                                "max_recovery_rate", "data_offset", "raids", "raid0_lvs"]),
}
LISTS = {"tags", "status", "flags"}
TEXTS = {"id", "device", "device_id", "device_id_type", "system_id", "allocation_policy", "profile", "format", "lock_type", "lock_args",
         "creation_host", "mirror_log", "merging_store", "cow_store", "origin", "thin_pool", "merge", "external_origin", "metadata", "pool",
         "discards", "cache_pool", "cache_mode", "policy", "metadata_id", "data_id", "data", "writecache", "writecache_setting_key",
         "writecache_setting_val", "mode", "internal_hash", "meta_dev", "vdo_pool", "write_policy"}
PAIRS = {"stripes", "mirrors", "raids"}


def leaf(E, owner, field):
    """Some value for a field."""
    if field in LISTS:
        return E.choose(f"{owner}.{field} empty", [[f"{owner}-{field}", "second"], []]) if not E.symbolic else [f"{owner}-{field}", "second"]
    if field in TEXTS:
        return f"{owner}.{field}"
    if field == "raids":
        return ["m0", "i0", "m1", "i1"]
    if field == "raid0_lvs":
        return ["i0", "i1"]
    if field in PAIRS:
        return [f"{owner}0", E.int(f"{owner}.{field}0", 0, pick=picks(0, 1, 7)), f"{owner}1", E.int(f"{owner}.{field}1", 0, pick=picks(0, 1, 7))]
    return E.int(f"{owner}.{field}", 0, pick=picks(0, 1, 2, 512, 1 << 40))


def made(E, owner, fields, absent):
    """A section with the mandatory and some optional fields."""
    must, may = fields
    return {f: leaf(E, owner, f) for f in [*must, *may] if f not in absent}


def optional(E, owner, may):
    """Which optional fields are left out: none, all, or one of them."""
    return E.choose(f"{owner} without", [[], list(may), *[[f] for f in may]])


def carries(E, obj, given, fields, label, skip=()):
    must, may = fields
    for f in [*must, *may]:
        if f in skip:
            continue
        exp = given.get(f)
        if f in PAIRS and exp is not None:
            exp = [(exp[i], exp[i + 1]) for i in range(0, len(exp), 2)]
        got = E.get(obj, f)
        if exp is None:
            E.prove(f"{label}: {f} absent", got is None)
        elif isinstance(exp, list):
            E.prove(f"{label}: {f}", got is not None and len(got) == len(exp))
            for a, b in zip(got, exp):
                if isinstance(b, tuple):
                    E.prove(f"{label}: {f}", len(a) == len(b))
                    for x, y in zip(a, b):
                        E.prove_eq(f"{label}: {f}", x, y)
                else:
                    E.prove_eq(f"{label}: {f}", a, b)
        else:
            E.prove_eq(f"{label}: {f}", got, exp)


def group(E, **kw):
    d = {"id": "vg", "seqno": 1, "status": [], "flags": [], "extent_size": 8192, "max_lv": 0, "max_pv": 0, "physical_volumes": {}}
    d.update(kw)
    return E.call(VolumeGroup.from_dict, d, name="vg0")


def segments(kind):
    types, must, may = KINDS[kind]

    def drv(E):
        t = E.choose("type", types)
        flags = E.choose("flags", [[], ["VISIBLE"], ["A", "B_C"]])
        fields = (SEG[0] + must, SEG[1] + may)
        given = made(E, "seg", fields, optional(E, "seg", fields[1]))
        given["type"] = "+".join([t, *flags])
        lv = made(E, "lv", LV, ())
        lv["segment1"] = given
        lv["segment2"] = {"start_extent": 7, "extent_count": 1, "type": "error"}
        vg = group(E, logical_volumes={"vol": lv})
        o = E.get(vg, "logical_volumes")["vol"]
        segs = E.get(o, "segments")
        E.prove_eq("number of segments", len(segs), 2)
        s = segs[0]
        E.prove("kind of segment", type(s) is getattr(metadata, kind))
        E.prove("kind of the other segment", type(segs[1]) is metadata.ErrorSegment)
        E.prove_eq("segment type", E.get(s, "type"), t)
        E.prove_eq("segment flags", list(E.get(s, "flags")), flags)
        E.prove_eq("segment name", E.get(s, "name"), "segment1")
        E.prove("segment volume", E.get(s, "logical_volume") is o)
        carries(E, s, given, fields, "segment", skip=("type",))
        E.prove_eq("type of the volume", E.get(o, "type"), t)

    return drv


def volumes(E):
    """Groups, physical, logical and historical volumes."""
    which = E.choose("vary", ["vg", "pv", "lv"])
    vary = lambda n, may: optional(E, n, may) if which == n else ()
    given = made(E, "vg", VG, vary("vg", VG[1]))
    pvs = {f"pv{i}": made(E, f"pv{i}", PV, vary("pv", PV[1]) if i == 0 else PV[1]) for i in range(E.choose("pvs", [0, 2]))}
    shown = E.choose("lvs", [0, 2, None])
    lvs = None if shown is None else {f"lv{i}": made(E, f"lv{i}", LV, vary("lv", LV[1]) if i == 0 else LV[1]) for i in range(shown)}
    if lvs:
        lvs["lv0"]["status"] = ["READ", "VISIBLE"]
        lvs["lv1"]["status"] = ["READ"]
        lvs["lv1"]["segment1"] = {"start_extent": 0, "extent_count": 1, "type": "zero"}
    given["physical_volumes"] = pvs
    if lvs is not None:
        given["logical_volumes"] = lvs
    vg = E.call(VolumeGroup.from_dict, given, name="data")
    E.prove_eq("group name", E.get(vg, "name"), "data")
    carries(E, vg, given, VG, "group")
    for attr, short, objs, fields in (("physical_volumes", "pv", pvs, PV), ("logical_volumes", "lv", lvs or {}, LV)):
        got = E.get(vg, attr)
        E.prove_eq(f"{attr}: names", list(got), list(objs))
        E.prove(f"{attr}: list", len(E.get(vg, short)) == len(objs) and all(a is b for a, b in zip(E.get(vg, short), got.values())))
        for k, d in objs.items():
            E.prove_eq(f"{attr}: name", E.get(got[k], "name"), k)
            E.prove(f"{attr}: group", E.get(got[k], "volume_group") is vg)
            carries(E, got[k], d, fields, attr)
    if lvs:
        a, b = E.get(vg, "lv")
        E.prove("visible", E.get(a, "is_visible") is True and E.get(b, "is_visible") is False)
        E.prove("no segments", len(E.get(a, "segments")) == 0 and E.get(a, "type") is None)
        E.prove("one segment", len(E.get(b, "segments")) == 1 and E.get(b, "type") == "zero")


def historical(E):
    """Removed volumes a group remembers."""
    may = ["name", "creation_time", "removal_time", "origin", "descendants"]
    full = {"id": "old-id", "name": "shown", "creation_time": E.int("created", 1, pick=picks(1, 1700000000)),
            "removal_time": E.int("removed", 1, pick=picks(2, 1700000001)), "origin": "-other", "descendants": ["a", "-b"]}
    gone = optional(E, "hist", may)
    given = {k: v for k, v in full.items() if k not in gone}
    vg = group(E, historical_logical_volumes={"key": given, "key2": {"id": "x"}})
    hs = E.get(vg, "historical_logical_volumes")
    E.prove_eq("names", list(hs), ["key", "key2"])
    h = hs["key"]
    E.prove("kind", type(h) is metadata.HistoricalLogicalVolume)
    E.prove("group", E.get(h, "volume_group") is vg)
    E.prove_eq("name", E.get(h, "name"), given.get("name", "key"))
    E.prove_eq("name of the other", E.get(hs["key2"], "name"), "key2")
    E.prove_eq("identity", E.get(h, "id"), "old-id")
    for k in ("creation_time", "removal_time"):
        got = E.get(h, k)
        E.prove(f"{k}", got is None if k in gone else E.eq(got, E.call(ts.from_unix, given[k])))
    E.prove_eq("origin", E.get(h, "origin"), given.get("origin"))
    E.prove("descendants", E.get(h, "descendants") is None if "descendants" in gone else list(E.get(h, "descendants")) == full["descendants"])


def incomplete(E):
    """Sections without a mandatory field are refused."""
    name, fields = E.choose("section", [("vg", VG), ("pv", PV), ("lv", LV), ("segment", SEG)])
    gone = E.choose("field", fields[0])
    sec = {n: made(E, n, f, [*f[1], gone] if n == name else f[1]) for n, f in (("vg", VG), ("pv", PV), ("lv", LV), ("segment", SEG))}
    if "type" in sec["segment"]:
        sec["segment"]["type"] = "zero"
    sec["lv"]["segment1"] = sec["segment"]
    sec["vg"]["physical_volumes"] = {"pv0": sec["pv"]}
    sec["vg"]["logical_volumes"] = {"lv0": sec["lv"]}
    E.prove("refused", E.attempt(VolumeGroup.from_dict, sec["vg"], name="vg").raised(KeyError))


# ---------------------------------------------------------------- text
NAMES = ["a", "id", "vg_0", "lvol0.x", "pv-1", "segment1", "n+m", "x9"]
WORDS = ["", "x", "a b", "READ", "#no comment", "{", "}", "[", "]", "a]", "k = 1", 'q"q', "\\", "\\n", "a\\", "é€", "/dev/sda1", "a, b", "'", "# \"x\"", "{}", "\t", " x "]
NUMBERS = [0, 1, -1, 42, 8192, 1 << 63, 1700000000]


def scalar(r):
    return r.choice(WORDS) if r.random() < 0.6 else r.choice(NUMBERS)


def document(r, depth=0):
    d = {}
    for k in r.sample(NAMES, r.choice([0, 1, 1, 2, 3, 5])):
        x = r.random()
        if x < 0.35 and depth < 4:
            d[k] = document(r, depth + 1)
        elif x < 0.6:
            d[k] = [scalar(r) for _ in range(r.choice([0, 1, 2, 2, 3, 5]))]
        else:
            d[k] = scalar(r)
    return d


def same(a, b):
    """Equality with types and order."""
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def parsed(E, doc, text):
    got = E.call(parse_metadata, text)
    E.prove_eq("text kept", got.get("_raw"), text)
    E.prove("document", same({k: v for k, v in got.items() if k != "_raw"}, doc), (text, doc, got))


def spelled(E):
    r = E.rng
    doc = document(r)
    parsed(E, doc, lvmtext.dump(doc, r))


class Script:
    """Makes the choices of a writer in a given order, to go through all of them."""

    def __init__(self, picks):
        self.picks, self.at, self.sizes = picks, 0, []

    def choice(self, xs):
        i = self.picks[self.at] if self.at < len(self.picks) else 0
        self.at += 1
        self.sizes.append(len(xs))
        return xs[i]

    def random(self):
        return self.choice([0.9, 0.1])


def spellings(doc, limit):
    """Every spelling of the document (up to the limit)."""
    stack, n = [[]], 0
    while stack and n < limit:
        s = Script(stack.pop())
        text = lvmtext.dump(doc, s)
        n += 1
        yield text
        for i in range(len(s.picks), len(s.sizes)):
            for j in range(1, s.sizes[i]):
                stack.append(s.picks + [0] * (i - len(s.picks)) + [j])


SMALL = [{}, {"a": 1}, {"a": "x"}, {"a": {}}, {"a": []}, {"a": ["x"]}, {"a": ["x", 1]}, {"a": {"b": 1}}, {"a": {}, "b": 2}, {"a": {"b": {}}, "c": "#"},
         {"a": ["]", "["]}, {"a": "\\", "b": '"'}]


def exhaustive(E):
    """All spellings of small documents (up to a few thousand each), in slices."""
    r = E.rng
    doc = SMALL[E.choose("document", list(range(len(SMALL))))]
    skip = r.choice([0, r.randrange(200), r.randrange(2000)])
    for text in itertools.islice(spellings(doc, skip + 200), skip, None):
        parsed(E, doc, text)


# ---------------------------------------------------------------- parser, line by line
#
# strip, split and literal_eval are uninterpreted here.
def part(E, *names):
    """The functions of the module that are under contract (symbolically only, they are not part of the interface)."""
    if not E.symbolic:
        spelled(E)
        return None
    fs = [getattr(physical, n, None) for n in names]
    if not all(isinstance(f, types.FunctionType) for f in fs):
        E.unsupported("the module is organised differently")
    return fs


def statement(E):
    """A key and its value, which is a list that may go on over any number of lines."""
    fs = part(E, "_parse_key_value")
    if not fs:
        return
    n = E.int("n", lo=0)
    p = E.int("p", lo=0)
    E.assume(p <= n)
    text = E.opaque("statement", py=str)
    line = lambda i: E.opaque("line", i, py=str).strip()
    it = E.iterator(E.texts(n, lambda i: E.opaque("line", i, py=str)), p)
    whole = text.strip()
    E.assume(E.contains(whole, "="))
    key = E.pure("upto", whole, "=", py=str).strip()
    first = E.pure("after", whole, "=", py=str).strip()
    E.assume(E.nonempty(first))
    last = lambda i: line(i).endswith("]")
    lines = E.fold("lines", lambda i, acc, go: E.vite(i >= n, acc, E.vite(last(i), E.snoc(acc, line(i)), go(i + 1, E.snoc(acc, line(i))))),
                   (p, E.listed(E.list([first]))), acc="list")
    end = E.fold("end", lambda i, go: E.ite(i >= n, i, E.ite(last(i), i + 1, go(i + 1))), (p,), ints=True)
    E.view_measure("left", lambda v: n + 1 - v)
    E.term_hint("end", n)
    out = E.attempt(fs[0], text, it)
    E.prove("parsed", out.ok)
    if out.ok:
        k, v = out.value
        split = E.And(E.text_item(first, 0) == "[", E.text_item(first, -1) != "]")
        joined = E.pure("join", "", lines(*lines.start))
        E.prove("key", E.veq(k, key))
        E.prove("value", E.veq(v, E.pure("literal", E.vite(split, joined, first))))
        E.prove("lines used", E.eq(it.pos, E.ite(split, end(*end.start), p)))


class Lines:
    """The lines of a text, and which section each one is in.

    Sections are numbered by the line after the one that opens them, 0 is the whole text.  ``top`` holds for the lines that
    start a statement (and the one after the last).  As every statement ends on a later line than it starts, these lines are a
    chain, and ``section`` and ``before``, the start of the statement before, are functions on it.
    """

    def __init__(self, E, n, line, end):
        self.E, self.n, self.line, self.end = E, n, line, end
        top, sec = self.top, self.section
        E.assume(E.And(top(0), sec(0) == 0))

    def top(self, i):
        return self.E.opaque_int("top", i) == 1

    def section(self, i):
        return self.E.opaque_int("section", i)

    def before(self, i):
        return self.E.opaque_int("before", i)

    def blank(self, i):
        t = self.line(i)
        return self.E.Or(self.E.Not(self.E.nonempty(t)), self.E.text_item(t, 0) == "#")

    def opens(self, i):
        return self.E.And(self.E.Not(self.blank(i)), self.E.text_item(self.line(i), -1) == "{")

    def closes(self, i):
        return self.E.And(self.E.Not(self.blank(i)), self.E.text_item(self.line(i), -1) == "}", self.E.Not(self.opens(i)))

    def other(self, i):
        E = self.E
        return E.Not(E.Or(self.blank(i), self.opens(i), self.closes(i)))

    def next(self, i):
        return self.E.ite(self.other(i), self.end(i), i + 1)

    def entered(self, i):
        """What is known about the section a statement is in."""
        E, s = self.E, self.section(i)
        return E.And(0 <= s, s <= i, E.Implies(s > 0, E.And(self.top(s - 1), self.opens(s - 1))))

    def apart(self, i, j):
        """No statement starts before the one in front of it has ended."""
        E = self.E
        return E.Implies(E.And(self.top(i), self.top(j), 0 <= i, i < j), self.next(i) <= j)

    def reached(self, j):
        """Statements start where others end."""
        E, i = self.E, self.before(j)
        E.assume(E.Implies(E.And(self.top(j), j > 0), E.And(0 <= i, i < j, self.top(i), self.next(i) == j)))

    def step(self, i):
        """How the next statement follows from this one, in a text that closes only sections it has opened."""
        E, j, s = self.E, self.next(i), self.section(i)
        E.assume(E.Implies(E.And(0 <= i, i < self.n), E.And(i < self.end(i), self.end(i) <= self.n)))
        here = E.And(self.top(i), 0 <= i, i < self.n)
        E.assume(E.Implies(here, E.And(
            E.Implies(self.closes(i), s > 0),
            self.top(j), self.before(j) == i, self.section(j) == E.ite(self.opens(i), i + 1, E.ite(self.closes(i), self.section(s - 1), s)))))


def sections(E):
    """Every statement is in a section that was opened by an earlier one, no two statements overlap (the induction steps)."""
    if not E.symbolic:
        spelled(E)
        return
    n, i = E.int("n", lo=0), E.int("i", lo=0)
    L = Lines(E, n, lambda i: E.opaque("line", i, py=str).strip(), lambda i: E.opaque_int("end", i))
    E.prove("first", L.entered(0))
    E.assume(E.And(i < n, L.top(i), L.entered(i), E.Implies(L.section(i) > 0, L.entered(L.section(i) - 1))))
    L.step(i)
    E.prove("next is later", L.next(i) > i)
    E.prove("next", L.entered(L.next(i)))
    j = E.int("j", lo=0)
    k = L.before(j)
    L.reached(j)
    # for smaller j
    E.assume(E.And(E.Implies(i < j, L.apart(k, i)), E.Implies(k < j, L.apart(i, k))))
    E.prove("apart", L.apart(i, j))


def uncommented(E, pattern, repl, text):
    """The text without comments, if that is what the substitution makes of every text LVM2 writes.

    Outside of strings (with the escapes LVM2 writes) and comments there are no quotes and no #.  A match starts at a quote or
    at a #, at a quote it can only be the string, at a # it is the rest of the line; so what is matched are the strings, which
    stay, and the comments.
    """
    from pyvc import regex as X

    quote, mark, back, eol = (X.char(ord(c)) for c in '"#\\\n')
    string = X.concat([quote, X.star(X.union([X.but(X.union([quote, back, eol])), X.concat([back, X.union([quote, back])])])), quote])
    comment = X.concat([mark, X.star(X.but(eol))])
    kept, gone, greedy = X.replacing(pattern, repl)
    match, more = X.union([kept, gone]), X.concat([X.ANY, X.ALL])
    if not greedy:
        E.unsupported("matches of unknown length")
    for label, empty in [
        ("matches start with a quote or #", lambda: X.within(match, X.concat([X.union([quote, mark]), X.ALL]))),
        ("strings stay", lambda: X.within(string, kept)),
        ("no match ends in a string", lambda: X.empty(X.both(string, X.concat([match, more])))),
        ("no match goes on after a string", lambda: X.empty(X.both(match, X.concat([string, more])))),
        ("nothing from # on stays", lambda: X.empty(X.both(kept, X.concat([mark, X.ALL])))),
        ("nothing but a comment is removed", lambda: X.within(gone, comment)),
        ("comments are removed", lambda: X.within(comment, gone)),
    ]:
        E.prove_language(label, empty)
    return E.pure("uncommented", text, py=str)


def structure(E):
    """All entries go to the section they are in."""
    fs = part(E, "parse_metadata", "_parse_key_value")
    if not fs:
        return
    text = E.opaque("text", py=str)
    E.on_sub(lambda pattern, repl, s: uncommented(E, pattern, repl, s))
    lines = E.pure("uncommented", text, py=str).split("\n")
    n = lines.sym_len()
    L = Lines(E, n, lambda i: lines.item(i).strip(), lambda i: E.opaque_int("end", i))
    key, value = lambda i: E.opaque("key", i), lambda i: E.opaque("value", i)

    def known(i):
        # proved by sections
        E.assume(E.Implies(L.top(i), L.entered(i)))
        L.step(i)

    def one(E, s, it):
        i = it.pos - 1
        E.prove("statement at its line", E.And(0 <= i, i < n, E.veq(s, L.line(i))))
        E.assume(E.And(i < L.end(i), L.end(i) <= n))
        it.go(L.end(i))
        return key(i), value(i)

    E.contract(fs[1], one)

    def opened(q, p):
        E.assume(L.apart(L.before(p), q - 1))
        return E.And(0 < q, q <= p, L.top(q - 1), L.opens(q - 1))

    heap = E.dictionaries(opened, lambda q, p: L.section(q - 1))

    def step(i, acc, go):
        known(i)
        name = L.line(i)[:-1].strip()
        s = L.section(i)
        return E.vite(i >= n, acc, E.vite(L.opens(i), go(i + 1, E.snoc(acc, E.entry(s, name, E.at_address(i + 1)))),
                                          E.vite(L.other(i), go(L.end(i), E.snoc(acc, E.entry(s, key(i), value(i)))), go(i + 1, acc))))

    doc = E.fold("document", step, (0, E.listed(E.list())), acc="list")
    E.hint("statement", lambda p, e: L.top(p))
    E.pair_hint("section", lambda p, s, p0, s0: s == L.section(p))
    E.view_measure("left", lambda v: n + 1 - v)
    E.term_hint("end", n)
    out = E.attempt(fs[0], text)
    E.prove("parsed", out.ok)
    if out.ok:
        E.prove("the document is returned", E.eq(out.value.addr, 0))
        E.prove("entries", E.veq(E.listed(heap.log), E.snoc(doc(*doc.start), E.entry(0, "_raw", text))))


DRIVERS = [Driver(f"objects-{k}", segments(k), samples=80, sample_time=4) for k in KINDS]
DRIVERS += [
    Driver("objects-volumes", volumes, samples=200),
    Driver("objects-historical", historical, samples=100),
    Driver("objects-incomplete", incomplete, samples=100),
    Driver("statement", statement, samples=300),
    Driver("sections", sections, samples=300),
    Driver("structure", structure, samples=300),
    Driver("text", spelled, symbolic=False, samples=6000, sample_time=30, bounded="random documents of depth up to 5, five entries per section"),
    Driver("text-small", exhaustive, symbolic=False, samples=60, sample_time=30, bounded="spellings of 12 small documents"),
]
