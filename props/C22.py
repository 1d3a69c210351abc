"""C22: Reads have no side effects: results depend only on position and length.

The statement is relational: the same read before and after an arbitrary history gives the same bytes.  The
volumes are the ones of the other properties (their drivers are reused up to the point where the volume is open);
their specifications serve only as hints for loop invariants, so a reader that maps bytes wrongly but always the
same way does not violate this property.
"""
import os
import pickle
import random
import select
import signal

from pyvc.env import CheckFailed, ConEnv, FakeFile, Skip

from . import C01, C02, C03, C04, C06, C08, C11, C12, C13, C14, C16, C17, C18, C19, C20, C21, C23, utilstreams
from .common import Driver

LEVEL = "proof"
ASSUMPTIONS = [
    "readers are used from one thread: a history is a sequence of whole read calls of any readers of the same handles",
    "between two reads of a volume other readers only move the shared handles (they are readers covered by this property too)",
    "memoised functions (lru_cache, cache) return what the function returns for the same arguments at some earlier time, with the handles anywhere",
]
SCOPE = ("same bytes", "same length", "same outcome", "media are never written", "history:")


# ------------------------------------------------------------------ obligations
def symbolic(E, st, spec, size):
    """One read, anything in between, the same read again."""
    del E.on_stream
    plain = E.stream_byte(st, E.ghost()) is not None
    align = None if plain else E.get(st, "align")

    def request(tag):
        if plain:
            o, n = E.int("o" + tag, 0), E.int("n" + tag, 0)
            E.assume(E.And(o < size, o + n <= size))
            return lambda: (E.call(st.seek, o), E.call(st.read, n))[1], o, n
        o, n = E.let("off" + tag, E.int("blk" + tag, 0) * align), E.let("len" + tag, E.int("nblk" + tag, 1) * align)
        if size is not None:
            E.assume(o < size)
        return lambda: E.call(st._read, o, n), o, n

    read, o, n = request("")
    if spec is not None:
        E.acc_spec("content", lambda k: spec(o + k))
    E.ctx.histories = True
    first = read()
    E.history(lambda: (E.disturb(), request("2")[0]()))
    E.disturb()
    again = read()
    compare(E, first, again, n if size is None else E.max(0, E.min(n, size - o)))


def compare(E, first, again, n):
    if first is None or again is None:
        E.prove("same outcome", first is None and again is None)
        return
    # what is behind the end of the volume is cut off by the base class
    E.prove_eq("same length", E.min(E.len(again), n), E.min(E.len(first), n))
    E.prove_bytes_upto("same bytes", again, n, lambda k: E.byte(first, k))


# ------------------------------------------------------------------ real runs
class Opened(BaseException):
    def __init__(self, read, size, align, again=None):
        self.read, self.size, self.align, self.again = read, size, align, again


class Setting(ConEnv):
    """Builds a volume with the driver of another property; two settings may share their files."""

    def __init__(self, E, seed, pool, where):
        super().__init__(rng=random.Random(seed), assignment=E.asg, tier=E.tier)
        self.pool, self.prng = pool, random.Random(where)

    def file(self, name, *a, **k):
        f = super().file(name, *a, **k)
        f = self.pool.setdefault(self.uniq("file:" + name), f)
        self.files[-1] = f
        return f

    def family(self, name, endless=True):
        return self.pool.setdefault(self.uniq("family:" + name), super().family(name, endless))

    def call(self, fn, *a, **k):
        r = super().call(fn, *a, **k)
        self.made = r, lambda: fn(*a, **k)
        return r

    # statements of the other property
    def prove(self, label, cond, info=None):
        if not cond:
            raise Skip("not what the other property wants")

    def prove_eq(self, label, a, b):
        pass

    prove_bytes = prove_list = fail = prove_eq


def handles(pool):
    out = []
    for x in pool.values():
        out += [x] if isinstance(x, FakeFile) else list(x.members.values())
    return out


def reader(st, size):
    def read(how, o, n):
        if how == "next":
            # the stream is where the last read of it ended
            return bytes(st.read(n))
        if how == "block":
            return bytes(st._read(o, n))[: n if size is None else max(0, size - o)]
        st.seek(o)
        return bytes(st.read(n))

    return read


def build(E, fn, seed, pool, where):
    sub = Setting(E, seed, pool, where)

    def opened(sub, st, spec, size):
        v, again = getattr(sub, "made", (None, None))
        raise Opened(reader(st, size), size, st.align, (lambda: reader(again(), size)) if v is st else None)

    sub.on_stream = opened
    sub.on_call = opened_call
    try:
        fn(sub)
    except Opened as e:
        return e
    except CheckFailed as e:
        raise wrote(e)
    except Exception:
        raise Skip("could not be opened")
    raise Skip("nothing opened")


def opened_call(_, call):
    raise Opened(lambda how, o, n: call(o), 1 << 30, 1)


def wrote(e):
    return CheckFailed("media are never written", e.info) if "write" in e.label else Skip(e.label)


def outcome(read, *a):
    try:
        return "ok", read(*a)
    except CheckFailed as e:
        raise wrote(e)
    except Exception as e:
        return "exc", type(e).__name__


def fresh(E, fn, wanted):
    """What each read gives right after opening, in a process of its own."""

    def one(seed, where, *a):
        pool = {}
        v = build(E, fn, seed, pool, where)
        for f in handles(pool):
            f.pos = random.Random(where + 1).randrange(1 << 20)
        return outcome(v.read, *a)

    a, b = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(a)
            out = []
            for w in wanted:
                try:
                    out.append(one(*w))
                except Skip:
                    out.append(None)
            with os.fdopen(b, "wb") as p:
                pickle.dump(out, p)
        finally:
            os._exit(0)
    os.close(b)
    data = b""
    try:
        while select.select([a], [], [], 60)[0]:
            d = os.read(a, 1 << 16)
            if not d:
                return pickle.loads(data) if data else None
            data += d
        return None
    finally:
        os.close(a)
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)


def interleaved(E, fn):
    r = E.rng
    seeds = [r.randrange(1 << 40) for _ in range(2)]
    where = r.randrange(1 << 30)
    pools = [{}, {}]
    # two readers of the same handles and one of other handles
    vols = [(build(E, fn, seeds[i], pools[i], where + i), seeds[i], pools[i]) for i in (0, 0, 1)]
    v = vols[0][0]
    streams = v.again is not None
    if v.again:
        # the same volume opened once more
        vols.append((Opened(v.again(), v.size, v.align), *vols[0][1:]))
    log = []
    last, at = {}, {}
    for step in range(8):
        i = r.randrange(len(vols))
        v, seed, pool = vols[i]
        size = v.size if v.size is not None else 40 * v.align
        if size <= 0:
            raise Skip("empty")
        how = r.choice(["block", "range", "range"])
        near = last.get(seed, 0)
        if how == "block":
            top = (size - 1) // v.align
            o = r.choice([0, r.randint(0, top), min(top, near // v.align)]) * v.align
            n = r.choice([1, 1, 2, 3]) * v.align
        else:
            o = r.choice([0, r.randrange(size), min(near, size - 1), max(0, size - r.randint(1, 3 * v.align))])
            n = r.choice([1, r.randint(1, 600), r.randint(1, 3 * v.align + 1)])
        if i in at and r.random() < 0.3:
            how, o = "next", at[i]
        n = min(n, 1 << 19)
        last[seed] = o + n
        for f in handles(pool):
            if r.random() < 0.5:
                f.pos = r.choice([0, f.pos + r.randint(0, 600), r.randrange(1 << 20), o])
        out = outcome(v.read, how, o, n)
        if streams and out[0] == "ok" and how != "block":
            at[i] = o + len(out[1])
        log.append((seed, "range" if how == "next" else how, o, n, out))
    for (seed, how, o, n, got), exp in zip(log, fresh(E, fn, [(s, where + 7, how, o, n) for s, how, o, n, _ in log]) or ()):
        if exp is None:
            continue
        E.prove("same outcome", got[0] == exp[0], lambda: f"{how} read of {n} bytes at {o}: {str(got)[:80]} after other reads, {str(exp)[:80]} on its own")
        if exp[0] == "ok":
            E.prove("same bytes", got[1] == exp[1], lambda: f"{how} read of {n} bytes at {o}")
        else:
            E.prove("same outcome", got[1] == exp[1])


def histories(fn):
    def drv(E):
        if not E.symbolic:
            return interleaved(E, fn)
        E.on_stream = symbolic
        E.on_call = symbolic_call
        fn(E)

    return drv


def symbolic_call(E, call):
    del E.on_call
    E.ctx.histories = True
    first = call(None)
    E.history(lambda: (E.disturb(), call(None)))
    E.disturb()
    again = call(None)
    compare(E, first, again, E.len(first) if first is not None else 0)


# ------------------------------------------------------------------ opening
def positions(E):
    """Opening a volume gives the same whatever the position of the handles was (sampled)."""
    r = E.rng
    fn = r.choice([d.fn for m in (C06, C08, C11, C13, C14, C16, C17, C18, C19, C20, C23) for d in m.DRIVERS if not d.name.startswith("util-") and not d.finding])
    seed = r.randrange(1 << 40)

    def run(where):
        sub = Setting(E, seed, {}, where)
        try:
            fn(sub)
        except CheckFailed as e:
            raise wrote(e)
        except Skip:
            return "skip", sub.digest
        except Exception as e:
            return type(e).__name__, sub.digest
        return "ok", sub.digest

    a, b = run(r.randrange(1 << 30)), run(r.randrange(1 << 30))
    E.prove("same outcome", a == b, lambda: f"{fn.__qualname__}: {str(a)[:150]} / {str(b)[:150]}")


def pick(mod, *names):
    for n in names:
        d = next(d for d in mod.DRIVERS if d.name == n)
        yield Driver(f"{mod.__name__.split('.')[-1]}-{n}", histories(d.fn), samples=40, sample_time=6, budget=300, xcheck=False, inline=d.inline, scope=SCOPE)


DRIVERS = [
    *pick(C01, "members-2-ranks-00", "members-2-ranks-01", "members-2-ranks-10"),
    *pick(C02, *[d.name for d in C02.DRIVERS if "refused" not in d.name]),
    *pick(C03, "mapping"),
    *pick(C04, "linear-3", "mirror-2"),
    *pick(C11, "content-concat-2", "content-striped", "content-raid5"),
    *pick(C12, "lookup-1"),
    *pick(C13, "sized"),
    *pick(C16, "linear-1", "striped-2", "composed-2", "thin"),
    *pick(C21, "window"),
    *pick(C23, "stream", "resolve"),
    Driver("opening", positions, symbolic=False, samples=400, sample_time=20, xcheck=False, bounded="positions of the handles at opening only by sampling here (arbitrary in the contracts of C06 to C20)"),
    *utilstreams.ALIGNED, *utilstreams.MAPPING, *utilstreams.RUNLIST,
]
