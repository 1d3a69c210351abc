"""DDF structures as laid out on disk (SNIA DDF 2.0, big endian)."""
HEADER, CONTROLLER, PDR, VDR, VDCR, PDD = 0xDE11DE11, 0xAD111111, 0x22222222, 0xDDDDDDDD, 0xEEEEEEEE, 0x33333333
DECADE = 3600 * 24 * (365 * 10 + 2)


def be(f, p, w):
    return f.uint(p, w, "be")


class Header:
    """Fields of a DDF header at position p."""

    def __init__(self, f, p):
        u = lambda o, w=4: f.uint(p + o, w, "be")
        self.signature, self.guid = u(0), f.bytes_at(p + 8, 24)
        self.primary, self.secondary = u(96, 8), u(104, 8)
        self.reclen, self.mppe = u(134, 2), u(136, 2)
        self.controller, self.pdr, self.vdr, self.conf, self.conflen, self.pdd = u(192), u(200), u(208), u(216), u(220), u(224)


def put_header(f, p, **k):
    n = lambda o, w, v: f.filln(p + o, w, v, "be")
    n(0, 4, k.get("signature", HEADER))
    f.fill(p + 8, k["guid"])
    n(96, 8, k["primary"])
    n(104, 8, k["secondary"])
    n(134, 2, k["reclen"])
    n(136, 2, k["mppe"])
    for o, name in ((192, "controller"), (200, "pdr"), (208, "vdr"), (216, "conf"), (220, "conflen"), (224, "pdd")):
        n(o, 4, k[name])


def vd_name(raw, flags):
    return raw.split(b"\x00")[0].decode("utf-8" if flags // 4 % 2 else "ascii")
