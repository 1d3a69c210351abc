"""Author and confirm one planted bug.

usage: seed.py ID PROPERTY FILE OLD NEW NEEDS BREAKS DEMO.py
(reads a Python spec file instead: seed.py spec.py with a list SEEDS of dicts)

In a scratch copy of /repo: apply the replacement, check that the stable tests still pass, that the
demonstration passes without and fails with the change; then write /verif/seeded/ID.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

SEEDED = "/verif/seeded"
DEMO_SH = """#!/bin/bash
# exit 0 when the behaviour is right
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py"
"""


def stable(repo):
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    out = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-rA", "tests"], cwd=repo,
                         env={**os.environ, "PYTHONPATH": repo, "PYTHONDONTWRITEBYTECODE": "1"}, capture_output=True, text=True).stdout
    passed = {ln[7:].strip() for ln in out.splitlines() if ln.startswith("PASSED ")}
    return len(passed), len(base)


def main(spec):
    ns = {}
    exec(compile(open(spec).read(), spec, "exec"), ns)
    only = set(sys.argv[2:])
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        if os.path.exists(f"{SEEDED}/{s['id']}") and not only:
            continue
        tmp = tempfile.mkdtemp(prefix="seed_")
        repo = tmp + "/repo"
        try:
            subprocess.run(["cp", "-a", "/repo", repo], check=True)
            subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "dissect"], check=True)
            for f, old, new in s["edits"]:
                p = f"{repo}/dissect/volume/{f}"
                t = open(p).read()
                if t.count(old) != 1:
                    print(s["id"], "ERROR: text occurs", t.count(old), "times in", f)
                    break
                open(p, "w").write(t.replace(old, new))
            else:
                d = f"{tmp}/demo"
                os.makedirs(d)
                open(d + "/demo.sh", "w").write(DEMO_SH)
                os.chmod(d + "/demo.sh", 0o755)
                open(d + "/demo.py", "w").write(s["demo"].lstrip())
                diff = subprocess.run(["git", "-C", repo, "diff", "--", "dissect"], capture_output=True, text=True).stdout
                n, m = stable(repo)
                good = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
                bad = subprocess.run(["bash", d + "/demo.sh"], cwd=repo, capture_output=True, text=True)
                ok = n >= m and good.returncode == 0 and bad.returncode != 0
                print(s["id"], "OK" if ok else "REJECTED", f"tests {n}/{m} demo clean={good.returncode} patched={bad.returncode}",
                      "" if ok else good.stderr[-600:] + bad.stderr[-300:])
                if ok:
                    out = f"{SEEDED}/{s['id']}"
                    shutil.rmtree(out, ignore_errors=True)
                    shutil.copytree(d, out)
                    open(out + "/patch.diff", "w").write(diff)
                    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main(sys.argv[1])
