"""C02: RAID 4/5/6 reads map every byte to the right data chunk for all layouts.

The specification places data, P and Q by stating where P (and Q) of a stripe row live and in which order the
remaining members hold data; it is written from the Linux MD layout descriptions, not from the code.
"""
from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk

from .common import Driver, between, check_stream, picks

LEVEL = "proof"
ASSUMPTIONS = [
    "members deliver the bytes of their file at the position they were seeked to; members are at least as long as the range read",
    "stripe_size >= 1, at least 3 members for RAID 4/5 and 4 for RAID 6",
]

L5 = ["LEFT_ASYMMETRIC", "RIGHT_ASYMMETRIC", "LEFT_SYMMETRIC", "RIGHT_SYMMETRIC", "PARITY_0", "PARITY_N"]
L6 = L5 + ["ROTATING_ZERO_RESTART", "ROTATING_N_RESTART", "ROTATING_N_CONTINUE", "LEFT_ASYMMETRIC_6", "RIGHT_ASYMMETRIC_6",
           "LEFT_SYMMETRIC_6", "RIGHT_SYMMETRIC_6", "PARITY_0_6"]
CODES = {"LEFT_ASYMMETRIC": 0, "RIGHT_ASYMMETRIC": 1, "LEFT_SYMMETRIC": 2, "RIGHT_SYMMETRIC": 3, "PARITY_0": 4, "PARITY_N": 5,
         "ROTATING_ZERO_RESTART": 8, "ROTATING_N_RESTART": 9, "ROTATING_N_CONTINUE": 10, "LEFT_ASYMMETRIC_6": 16,
         "RIGHT_ASYMMETRIC_6": 17, "LEFT_SYMMETRIC_6": 18, "RIGHT_SYMMETRIC_6": 19, "PARITY_0_6": 20}


def skip1(E, d, p):
    """d-th member when member p is left out."""
    return E.ite(d < p, d, d + 1)


def data_disk(E, level, layout, n, row, d):
    """Member that holds the d-th data chunk of a stripe row of an n-member array."""
    if level == 4:
        return d
    if level == 5:
        if layout in ("PARITY_0",):
            return d + 1
        if layout == "PARITY_N":
            return d
        p = n - 1 - row % n if layout.startswith("LEFT") else row % n
        if layout.endswith("ASYMMETRIC"):
            return skip1(E, d, p)
        return (p + 1 + d) % n
    # level 6
    if layout == "PARITY_0":
        return d + 2
    if layout == "PARITY_N":
        return d
    if layout.endswith("_6"):
        # RAID 5 over the first n-1 members, Q on the last
        return data_disk(E, 5, layout[:-2], n - 1, row, d)
    if layout == "ROTATING_N_CONTINUE":
        p = n - 1 - row % n
        return (p + 1 + d) % n  # Q is before P: data continues after P
    if layout == "ROTATING_ZERO_RESTART":
        p, kind = row % n, "A"
    elif layout == "ROTATING_N_RESTART":
        p, kind = n - 1 - (row + 1) % n, "A"
    else:
        p = n - 1 - row % n if layout.startswith("LEFT") else row % n
        kind = "A" if layout.endswith("ASYMMETRIC") else "S"
    if kind == "S":
        return (p + 2 + d) % n  # P, Q, then data, wrapping around
    # data restarts at member 0, skipping P and the Q right after it (Q wraps to member 0)
    return E.ite(p == n - 1, d + 1, E.ite(d < p, d, d + 2))


def array(E, level, layout_code, n, ss, size, missing=None, count=None):
    fam = E.family("disk")
    base = lambda i: E.fun("offset", i, lo=0, pick=picks(0, 512, 1536, 7))
    start = lambda i: E.fun("start", i, lo=0, pick=picks(0, 0, 1024, 513))
    present = lambda i: E.And(i >= 0, i < n) if missing is None else E.And(i >= 0, i < n, E.Not(missing(i)))
    dm = E.symmap(present, lambda i: (start(i), E.call(PhysicalDisk, fam.file(i), base(i), E.fun("dsize", i, lo=0))), n, count)
    vd = E.call(VirtualDisk, "name", "uuid", size, level, layout_code, ss, n, dm)
    return fam, base, start, vd


def mapping(level, layouts):
    def drv(E):
        lay = E.choose("layout", layouts)
        n = E.int("n", 4 if level == 6 else 3, pick=between(4 if level == 6 else 3, 9))
        ss = E.int("ss", 1, pick=picks(1, 4, 16, 512, 24))
        size = E.int("size", 1, pick=lambda r: r.choice([ss * r.randint(1, 300), r.randint(1, 200 * ss)]))
        fam, base, start, vd = array(E, level, CODES[lay], n, ss, size)
        st = E.call(vd.open)
        nd = n - (2 if level == 6 else 1)

        def spec(p):
            c, o = p // ss, p % ss
            row, d = c // nd, c % nd
            m = data_disk(E, level, lay, n, row, d)
            return fam.file(m).at(base(m) + start(m) + row * ss + o)

        check_stream(E, st, spec, size)

    return drv


def refused(level):
    """A layout the level does not define is refused at open or at the first read, never guessed."""
    known = [CODES[x] for x in (L5 if level == 5 else L6)]

    def drv(E):
        code = E.int("layout", 0, pick=picks(6, 7, 11, 15, 21, 8, 16, 100, 255))
        for c in known:
            E.assume(code != c)
        n = E.int("n", 4, pick=between(4, 9))
        ss = E.int("ss", 1, pick=picks(1, 4, 16, 512, 24))
        size = E.int("size", 1, pick=lambda r: ss * r.randint(1, 300))
        _, _, _, vd = array(E, level, code, n, ss, size)
        out = E.attempt(vd.open)
        if out.ok:
            p = E.int("off", 0, pick=lambda r: r.randrange(size))
            E.assume(p < size)
            st = out.value
            E.call(st.seek, p)
            out = E.attempt(st.read, 1)
        E.prove("undefined layout refused", not out.ok)

    return drv


DRIVERS = [Driver("raid4", mapping(4, ["PARITY_N"]))]
for _l in L5:
    DRIVERS.append(Driver(f"raid5-{_l}", mapping(5, [_l])))
for _l in L6:
    DRIVERS.append(Driver(f"raid6-{_l}", mapping(6, [_l])))
DRIVERS += [Driver("refused-raid5", refused(5)), Driver("refused-raid6", refused(6))]
