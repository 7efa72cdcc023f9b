"""Turn bug descriptions into /verif/seeded/<id>/ after confirming them.

    python tools/plant.py FILE.py...     (FILE.py defines BUGS, a list of dicts:
        id, property, edits=[(file, old, new)], needs, what, demo)

For each: a scratch copy of /repo gets the edits; the existing tests have to
pass there, the demonstration has to fail there and pass on the unchanged tree.
"""

import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

PY = "/opt/venv/bin/python"
SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO_SH = """#!/bin/bash
# cwd: the repository. Exit 0 when the library behaves, nonzero otherwise.
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def demo(d, cwd):
    return subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=cwd, capture_output=True, text=True, timeout=300)


def tests(cwd):
    env = dict(os.environ, PYTHONPATH=cwd, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    return subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=cwd, env=env,
                          capture_output=True, text=True, timeout=600)


def foreign(repo):
    """Changed lines that the original repository does not have."""
    base = subprocess.run(["git", "-C", repo, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[-1]
    diff = subprocess.run(["git", "-C", repo, "diff", "-U0"], capture_output=True, text=True).stdout
    out, f = [], None
    for line in diff.splitlines():
        if line.startswith("--- "):
            f = line[6:]
        elif line.startswith("@@"):
            old = line.split()[1][1:]
            a, n = (old.split(",") + ["1"])[:2]
            if int(n) == 0:
                out.append(f"{f}:{a} only adds lines")
                continue
            bl = subprocess.run(["git", "-C", repo, "blame", "-s", "--abbrev=39", "-L", f"{a},+{n}", "HEAD", "--", f], capture_output=True, text=True).stdout
            out += [f"{f}: {x}" for x in bl.splitlines() if not x.lstrip("^").startswith(base[:39])]
    return out


def plant(b):
    tmp = tempfile.mkdtemp(prefix="plant_")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        for f, old, new in b["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return f"{b['id']}: text occurs {s.count(old)} times in {f}"
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True).stdout
        for x in foreign(repo):
            print("   not original:", x)
        out = os.path.join(tmp, "seed")
        os.makedirs(out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "demo.py"), "w").write(b["demo"].strip() + "\n")
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        t = tests(repo)
        if t.returncode:
            return f"{b['id']}: existing tests fail\n{t.stdout[-800:]}"
        ok = demo(out, "/repo")
        if ok.returncode:
            return f"{b['id']}: demo fails on the unchanged tree\n{ok.stdout[-500:]}{ok.stderr[-1200:]}"
        bad = demo(out, repo)
        if bad.returncode == 0:
            return f"{b['id']}: demo passes with the bug"
        dst = os.path.join(SEEDED, b["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return f"{b['id']}: planted ({bad.stderr.strip().splitlines()[-1][:100] if bad.stderr.strip() else bad.returncode})"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor

    bugs = [b for f in sys.argv[1:] for b in runpy.run_path(f)["BUGS"]]
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(plant, bugs):
            print(r, flush=True)
