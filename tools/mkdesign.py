"""Fills the tables of DESIGN.md from properties.jsonl, notes.py, known-findings.txt and seeded/."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(HERE, "tools", "notes.py")).read())
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
tab = "\n".join(f"| {p['id']} | {p['title']} | {NOTE[p['id']]} |" for p in props)
seeds = []
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    seeds.append(f"| {n} | {m['property']} | {CAUGHT.get(n, m['property'])} | {m['what_it_breaks']} |")
f = os.path.join(HERE, "DESIGN.md")
s = open(f).read()


def fill(s, head, rows):
    """Replace the rows of the table with the given header."""
    i = s.index(head)
    j = s.index("\n", s.index("\n", i) + 1) + 1
    k = s.index("\n\n", j)
    return s[:j] + rows + s[k:]


s = fill(s, "| id | what is specified", tab)
s = fill(s, "| bug | property |", "\n".join(seeds))
n = sum(x.startswith("fixed:") for x in open(os.path.join(HERE, "known-findings.txt")))
s = re.sub(r"(lists all of them\.)\s+\S+ were repaired", rf"\1  {n} were repaired", s)
open(f, "w").write(s)
