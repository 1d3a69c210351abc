"""Layout constants and observers shared by the partition table contracts (C17 to C21)."""
import struct

NAMES = [b"MSDOS", b"MSWIN", b"NTFS", b"FAT", b"EXFAT", b"-FVE-FS-", b"SYSLINUX"]
EXTENDED = (0x05, 0x0F, 0x85)


def entry(f, base, i):
    """Fields of entry i of the boot record at base: (boot flag, type, first sector, sector count)."""
    p = base + 446 + 16 * i
    return f.at(p), f.at(p + 4), f.uint(p + 8, 4), f.uint(p + 12, 4)


def fill_record(E, f, base, entries, serial=0):
    """Concrete sample content of a boot record."""
    if E.symbolic:
        return
    f.fill(base + 440, struct.pack("<I", serial))
    f.fill(base + 510, b"\x55\xaa")
    f.fill(base, b"\xfa\x31\xc0" + b"ABCDEFGH" + b"\x00" * 27)
    f.fill(base + 168, b"\x00" * 6)
    for i, e in enumerate(entries):
        p = base + 446 + 16 * i
        flag, typ, first, count = e
        f.fill(p, bytes([flag]))
        f.fill(p + 4, bytes([typ]))
        f.filln(p + 8, 4, first)
        f.filln(p + 12, 4, count)


def contains(E, f, pos, n, word):
    """word occurs within the n bytes at pos."""
    return E.Or(*[E.And(*[f.at(pos + o + k) == word[k] for k in range(len(word))]) for o in range(n - len(word) + 1)])


def is_vbr(E, f, base):
    oem = E.Or(*[contains(E, f, base + 3, 8, w) for w in NAMES])
    q1 = E.And(*[f.at(base + 18 + k) == c for k, c in enumerate(b"Hit Esc for .altboot")])
    q2 = E.And(*[f.at(base + 168 + k) == c for k, c in enumerate(b"\r\nQNX ")])
    return E.Or(oem, q1, q2)


def assume_mbr(E, f, base):
    E.assume(f.uint(base + 510, 2) == 0xAA55)
    E.assume(E.Not(is_vbr(E, f, base)))


def mbr_obs(E, f):
    return lambda p: (E.get(p, "offset"), E.get(p, "size"), E.get(p, "type"), E.get(p, "flags"), E.get(E.get(p, "disk"), "fh") is f)
