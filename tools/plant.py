"""Makes /verif/seeded/<id> from the specs in tools/bugs/*.py and confirms each in a scratch
copy of /repo: applies, imports, stable tests pass, demo fails with it and passes without it.

usage: plant.py [-f] [ID...]
A spec: bug(id, property, [(file, old, new), ...], needs, breaks, demo)"""
import concurrent.futures
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
BUGS = {}
PRELUDE = open(os.path.join(HERE, "bugs", "prelude.txt")).read()
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1")


def bug(id, prop, edits, needs, breaks, demo):
    assert id not in BUGS, id
    BUGS[id] = dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)


for path in sorted(glob.glob(os.path.join(HERE, "bugs", "*.py"))):
    exec(open(path).read())


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def stable():
    names = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return {n if isinstance(n, str) else n["id"] for n in names}


def passed(xml):
    out = {}
    for c in ET.parse(xml).getroot().iter("testcase"):
        ok = not any(c.find(k) is not None for k in ("failure", "error", "skipped"))
        out[(c.get("classname"), c.get("name"))] = ok
    return out


def tests(d):
    xml = os.path.join(d, "..", os.path.basename(d) + ".xml")
    env = dict(ENV, MPLCONFIGDIR=os.path.dirname(d))
    run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-W", "ignore", f"--rootdir={d}", "-o", "python_files=*_test.py",
         "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--junitxml={xml}", "test"], cwd=d, env=env)
    return passed(xml)


def plant(b, base):
    work = tempfile.mkdtemp(prefix="plant.")
    msgs = []
    try:
        d = os.path.join(work, "repo")
        shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("__pycache__"))
        target = os.path.join(SEEDED, b["id"])
        stage = os.path.join(work, "stage")
        os.makedirs(stage)
        open(os.path.join(stage, "demo.py"), "w").write(PRELUDE + b["demo"].strip() + "\n")
        open(os.path.join(stage, "demo.sh"), "w").write(
            '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexport MPLCONFIGDIR="$(mktemp -d)"\n/opt/venv/bin/python "$(dirname "$0")/demo.py"\nRC=$?\nrm -rf "$MPLCONFIGDIR"\nexit $RC\n')
        r = run(["bash", os.path.join(stage, "demo.sh")], cwd=d, env=ENV)
        if r.returncode:
            return b["id"], "demo fails on the unchanged tree: " + (r.stdout + r.stderr)[-400:]
        for f, old, new in b["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], f"{f}: old text found {s.count(old)} times"
            open(p, "w").write(s.replace(old, new))
        diff = run(["git", "diff"], cwd=d).stdout
        removed = 0
        for f, old, new in b["edits"]:
            hunks = run(["git", "diff", "-U0", f], cwd=d).stdout
            blame = run(["git", "blame", "-s", "HEAD", "--", f], cwd=d).stdout.splitlines()
            for h in re.findall(r"^@@ -(\d+)(?:,(\d+))? ", hunks, re.M):
                first, count = int(h[0]), int(h[1] or 1)
                for l in range(first, first + count):
                    removed += 1
                    if not blame[l - 1].lstrip("^").startswith("9655f97"[:7]):
                        return b["id"], "touches a line of a later commit: " + blame[l - 1]
        if not removed:
            return b["id"], "changes no original line"
        open(os.path.join(stage, "patch.diff"), "w").write(diff)
        r = run(["bash", os.path.join(stage, "demo.sh")], cwd=d, env=ENV)
        if r.returncode == 0:
            return b["id"], "demo passes with the change"
        why = (r.stdout + r.stderr).strip().splitlines()[-1:]
        t = tests(d)
        broken = [k for k, ok in base.items() if ok and not t.get(k)]
        if broken:
            return b["id"], f"tests notice: {broken[:3]}"
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(stage, "meta.json"), "w"), indent=1)
        shutil.rmtree(target, ignore_errors=True)
        shutil.copytree(stage, target)
        return b["id"], "kept: " + " ".join(why)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    force = "-f" in args
    ids = [a for a in args if a != "-f"] or [i for i in BUGS if force or not os.path.exists(os.path.join(SEEDED, i, "patch.diff"))]
    w = tempfile.mkdtemp(prefix="plant.")
    d = os.path.join(w, "repo")
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("__pycache__"))
    base = tests(d)
    shutil.rmtree(w)
    print(sum(base.values()), "tests pass unchanged")
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for i, m in ex.map(lambda i: plant(BUGS[i], base), ids):
            print(i, "|", m, flush=True)
