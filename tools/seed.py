"""Build and confirm planted bugs.

seed.py SPECFILE [ID...]: SPECFILE defines SEEDS, a list of dicts
(id, property, file, edits=[(old, new)...], needs, breaks, demo=python text).
For each: makes a scratch copy of /repo, applies the edit, confirms that the
changed lines are the repository's own, that the repository's tests pass and
that the demonstration passes before and fails after; then writes
/verif/seeded/<id>/."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import textwrap
from concurrent.futures import ThreadPoolExecutor

REPO, SEEDED = "/repo", os.environ.get("SEEDED", "/verif/seeded")
DEMO = """#!/bin/bash
# run with the repository as the working directory
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 exec timeout 120 /opt/venv/bin/python -W ignore "$here/demo.py"
"""
BASE = subprocess.run(
    ["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True
).stdout.split()[0]


def sh(cmd, cwd, timeout=300, env=None):
    return subprocess.run(
        cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout,
        env={**os.environ, **(env or {})},
    )


def one(s):
    tmp = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        d = os.path.join(tmp, "r")
        sh(["cp", "-a", REPO, d], "/")
        files = s["file"] if isinstance(s["file"], list) else [s["file"]]
        for k, e in enumerate(s["edits"]):
            f, old, new = e if len(e) == 3 else (files[0], *e)
            p = os.path.join(d, "src/dynamicprompts", f)
            t = open(p).read()
            old, new = textwrap.dedent(old).strip("\n"), textwrap.dedent(new).strip("\n")
            if t.count(old) != 1:
                # match with the indentation found in the file
                cands = []
                for ind in range(0, 25, 4):
                    o = textwrap.indent(old, " " * ind)
                    if t.count(o) == 1:
                        cands.append((o, textwrap.indent(new, " " * ind)))
                if not cands:
                    return s["id"], f"edit {k} matches {t.count(old)} times"
                old, new = cands[-1]
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "diff"], d).stdout
        # at least one removed line must come from the original repository
        orig = False
        for f in {e[0] if len(e) == 3 else files[0] for e in s["edits"]}:
            b = sh(["git", "blame", "-l", "HEAD", "--", "src/dynamicprompts/" + f], d).stdout.splitlines()
            own = {l.split(") ", 1)[1] for l in b if not l.lstrip("^").startswith(BASE[:38]) and ") " in l}
            removed = [
                l[1:] for l in sh(["git", "diff", "-U0", "--", "src/dynamicprompts/" + f], d).stdout.splitlines()
                if l.startswith("-") and not l.startswith("---")
            ]
            orig = orig or any(l not in own for l in removed)
        if not orig and not os.environ.get("ANY"):
            return s["id"], "touches no original line"
        out = os.path.join(SEEDED, s["id"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO)
        open(os.path.join(out, "demo.py"), "w").write(textwrap.dedent(s["demo"]).lstrip("\n"))
        json.dump(
            {"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
            open(os.path.join(out, "meta.json"), "w"), indent=1,
        )
        r = sh(["bash", os.path.join(out, "demo.sh")], REPO)
        bad = []
        if r.returncode:
            bad.append("demo fails on the unchanged tree: " + (r.stdout + r.stderr)[-600:])
        r = sh(["bash", os.path.join(out, "demo.sh")], d)
        if r.returncode == 0:
            bad.append("demo passes with the change")
        r = sh(
            ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
             "--timeout=20", "tests"],
            d, env={"PYTHONPATH": d + "/src", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"},
        )
        if r.returncode:
            bad.append("tests: " + r.stdout[-500:])
        if bad:
            shutil.rmtree(out)
            return s["id"], "; ".join(bad)
        return s["id"], "ok"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    todo = [s for s in ns["SEEDS"] if not sys.argv[2:] or s["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(4) as ex:
        for i, r in ex.map(one, todo):
            print(i, r, flush=True)
