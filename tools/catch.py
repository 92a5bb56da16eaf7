"""Runs checks against planted changes, in a private mount namespace (neither /repo nor /verif is touched).

usage: catch.py [-a] [-p N] [-c C01,C02] [ID...]     -a: every check, not just the property's own"""
import concurrent.futures
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(patch, check, jobs, tier="quick"):
    w = tempfile.mkdtemp(prefix="catch.")
    try:
        r, v = os.path.join(w, "repo"), os.path.join(w, "verif")
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns("__pycache__", ".git"))
        shutil.copytree(VERIF, v, ignore=shutil.ignore_patterns("__pycache__", ".git", "seeded", "evidence"))
        os.makedirs(os.path.join(v, "evidence"))
        if patch:
            p = subprocess.run(["git", "apply", "--directory=" + r.lstrip("/"), "--unsafe-paths", patch], cwd="/", capture_output=True, text=True)
            if p.returncode:
                p = subprocess.run(["patch", "-p1", "-i", patch], cwd=r, capture_output=True, text=True)
                if p.returncode:
                    return 99, p.stdout + p.stderr, 0
        t = time.time()
        p = subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {r} /repo && mount --bind {v} /verif && cd /verif && exec timeout 900 ./check {check} --tier {tier} --jobs {jobs}"],
                           capture_output=True, text=True, env=dict(os.environ, SYMX_FIRST="1"))
        return p.returncode, p.stdout + p.stderr, time.time() - t
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    every = "-a" in args
    args = [a for a in args if a != "-a"]
    par, only = 2, None
    if "-p" in args:
        i = args.index("-p"); par = int(args[i + 1]); del args[i:i + 2]
    if "-c" in args:
        i = args.index("-c"); only = args[i + 1].split(","); del args[i:i + 2]
    ids = args or sorted(os.path.basename(d) for d in glob.glob(VERIF + "/seeded/*"))
    all_checks = [c["property"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]]
    work = []
    for i in ids:
        own = json.load(open(f"{VERIF}/seeded/{i}/meta.json"))["property"]
        for c in (only or (all_checks if every else [own])):
            work.append((i, c, own))

    def go(w):
        i, c, own = w
        return w, one(f"{VERIF}/seeded/{i}/patch.diff", c, max(1, 8 // par))

    path = VERIF + "/tools/catches.json"
    with concurrent.futures.ThreadPoolExecutor(par) as ex:
        for (i, c, own), (rc, out, t) in ex.map(go, work):
            try:
                known = json.load(open(path))
            except OSError:
                known = {}
            known.setdefault(i, {})[c] = rc
            json.dump(known, open(path, "w"), indent=0, sort_keys=True)
            lines = [l for l in out.splitlines() if l.startswith("VIOLATION")]
            und = [l for l in out.splitlines() if l.startswith(c + " [")]
            if rc == 1 and lines:
                print(f"{i}: {c} CAUGHT {t:.0f}s {len(lines)} {lines[0][:110]}", flush=True)
            elif not every or rc not in (0, 1):
                print(f"{i}: {c} missed rc={rc} {t:.0f}s {und[-1] if und else out[-300:]}", flush=True)
