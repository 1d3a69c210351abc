"""Regular expressions of the repository as z3 regular expressions.

What ``re`` does with a pattern is known here as far as it follows from the language of the pattern.
"""
from __future__ import annotations

import re

try:
    from re import _constants as C
    from re import _parser as parser
except ImportError:  # before Python 3.11
    import sre_constants as C
    import sre_parse as parser

import z3

from .terms import Unsupported

S = z3.ReSort(z3.StringSort())
ANY = z3.AllChar(S)
ALL = z3.Full(S)


def char(code):
    return z3.Range(z3.Unit(z3.CharVal(code)), z3.Unit(z3.CharVal(code)))


def but(r):
    """Any character but these."""
    return z3.Intersect(ANY, z3.Complement(r))


def union(rs):
    rs = list(rs)
    return rs[0] if len(rs) == 1 else z3.Union(*rs) if rs else z3.Empty(S)


def concat(rs):
    rs = list(rs)
    return rs[0] if len(rs) == 1 else z3.Concat(*rs) if rs else z3.Re("")


def one(op, av, flags):
    if op is C.LITERAL:
        return char(av)
    if op is C.NOT_LITERAL:
        return but(char(av))
    if op is C.ANY:
        return ANY if flags & re.DOTALL else but(char(10))
    if op is C.RANGE:
        return z3.Range(z3.Unit(z3.CharVal(av[0])), z3.Unit(z3.CharVal(av[1])))
    if op is C.IN:
        neg = av[0][0] is C.NEGATE
        r = union(one(*x, flags) for x in av[neg:])
        return but(r) if neg else r
    if op in (C.MAX_REPEAT, C.MIN_REPEAT):
        lo, hi, body = av
        r = language(body, flags)
        if hi is C.MAXREPEAT:
            return z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
        return z3.Loop(r, lo, hi)
    if op is C.SUBPATTERN:
        _, add, sub, body = av
        if add or sub:
            raise Unsupported("flags in a regular expression")
        return language(body, flags)
    if op is C.BRANCH:
        return union(language(b, flags) for b in av[1])
    raise Unsupported(f"{op} in a regular expression")


def language(body, flags=0):
    return concat(one(op, av, flags) for op, av in body)


def replacing(pattern, repl):
    """Of a substitution that keeps some matches and removes the others: their languages, and whether the removed ones are as
    long as possible (a greedy repetition of one character at the end)."""
    if not isinstance(pattern, str) or not isinstance(repl, str):
        raise Unsupported("substitution of bytes")
    p = parser.parse(pattern)
    flags = p.state.flags
    if flags & ~(re.UNICODE | re.DOTALL):
        raise Unsupported("flags of a regular expression")
    alts = p[0][1][1] if len(p) == 1 and p[0][0] is C.BRANCH else [p]
    kept, gone, greedy = [], [], True
    for a in alts:
        whole = len(a) == 1 and a[0][0] is C.SUBPATTERN and a[0][1][0] == 1
        inside = any(x is not None and 1 <= x for x in groups(a))
        if repl in (r"\1", r"\g<1>") and whole and len(groups(a)) == 1:
            kept.append(language(a, flags))
        elif (repl == "" or repl in (r"\1", r"\g<1>") and not inside) and len(a):
            gone.append(language(a, flags))
            op, av = a[-1]
            if not (op is C.MAX_REPEAT and av[1] is C.MAXREPEAT and len(av[2]) == 1 and av[2][0][0] in (C.ANY, C.IN, C.LITERAL, C.NOT_LITERAL)
                    and all(o in (C.LITERAL, C.IN) for o, _ in list(a)[:-1])):
                greedy = False
        else:
            raise Unsupported("substitution")
    return union(kept), union(gone), greedy


def groups(body):
    out = []
    for op, av in body:
        if op is C.SUBPATTERN:
            if av[0] is not None:
                out.append(av[0])
            out += groups(av[3])
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            out += groups(av[2])
        elif op is C.BRANCH:
            for b in av[1]:
                out += groups(b)
        elif op in (C.GROUPREF, C.ASSERT, C.ASSERT_NOT):
            raise Unsupported(f"{op} in a regular expression")
    return out


def star(r):
    return z3.Star(r)


def both(a, b):
    return z3.Intersect(a, b)


def empty(r, timeout=20000):
    """Is the language empty (True, False or None)."""
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(z3.InRe(z3.String("x"), r))
    return {"unsat": True, "sat": False}.get(str(s.check()))


def within(a, b):
    return empty(z3.Intersect(a, z3.Complement(b)))
