"""The LVM2 metadata text grammar: writing a document in any of its spellings."""


def scalar(v):
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    return str(v)


def noise(r):
    """What may stand between two lines."""
    out = ""
    while r is not None and r.random() < 0.25:
        out += r.choice(["\n", "   \n", "\t\n", "# comment\n", "\t# a = 1 { \"x\" [\n", "#\n", "# }\n", "    # é \" quote\n"])
    return out


def pad(r, depth):
    return "\t" * depth if r is None else r.choice(["\t" * depth, "", " " * 3, "\t" * depth + "  "])


def tail(r):
    return "" if r is None else r.choice(["", "", "", " ", "\t", "\t# Extents", "  # \"quoted\" } ] {", "\t# 12 Megabytes", " #"])


def blank(r):
    return "" if r is None else r.choice(["", "", " ", "  ", "\t"])


def value(r, v, depth):
    if not isinstance(v, list):
        return scalar(v)
    if r is None or r.random() < 0.5:
        sep = "," if r is not None and r.random() < 0.3 else ", "
        b = blank(r)
        return "[" + b + sep.join(scalar(x) for x in v) + b + "]"
    # over several lines
    out = "["
    if r.random() < 0.7:
        out += tail(r) + "\n" + noise(r) + pad(r, depth + 1)
    for i, x in enumerate(v):
        out += scalar(x)
        if i + 1 < len(v):
            out += "," + r.choice([" ", "", tail(r) + "\n" + noise(r) + pad(r, depth + 1)])
    if r.random() < 0.7:
        out += tail(r) + "\n" + noise(r) + pad(r, depth)
    return out + "]"


def dump(doc, r=None, depth=0):
    out = noise(r)
    for k, v in doc.items():
        if isinstance(v, dict):
            gap = " " if r is None else r.choice([" ", " ", "", "  ", "\t"])
            out += pad(r, depth) + k + gap + "{" + tail(r) + "\n" + dump(v, r, depth + 1) + pad(r, depth) + "}" + tail(r) + "\n"
        else:
            eq = " = " if r is None else r.choice([" = ", " = ", "=", "= ", " =", "\t=\t"])
            out += pad(r, depth) + k + eq + value(r, v, depth) + tail(r) + "\n"
        out += noise(r)
    return out
