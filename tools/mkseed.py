#!/usr/bin/env python3
"""Development tool: create / verify planted bugs under /verif/seeded (no check uses it).

seeds.py: SEEDS = {id: dict(property, needs, what_it_breaks, edits=[(file, old, new)], demo=python source)}
usage: mkseed.py make [id ...]   write patch.diff, demo.sh, demo.py, meta.json
       mkseed.py verify [id ...] demo on the tree / with the patch, in a scratch copy
       mkseed.py check [id ...]  run the property's check against the patched scratch copy
"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/selftest")
from seeds import SEEDS
DEMO = '''#!/bin/bash
# exit 0: behaviour as stated; nonzero: broken. Works in a scratch directory of its own.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
cd "$d"
export MPLBACKEND=Agg MPLCONFIGDIR="$d" PYTHONDONTWRITEBYTECODE=1 HOME="$d"
timeout 250 /opt/venv/bin/python "$here/demo.py"
'''

def make(i):
    s = SEEDS[i]
    d = V + "/seeded/" + i
    os.makedirs(d, exist_ok=True)
    out = ""
    by = {}
    for f, old, new in s["edits"]:
        p = "src/trusspy/" + f
        t = by.get(p) or [open("/repo/" + p).read()] * 2
        if t[1].count(old) != 1:
            raise SystemExit("%s: text found %d times in %s: %s" % (i, t[1].count(old), f, old))
        by[p] = [t[0], t[1].replace(old, new)]
    for p, (a, b) in by.items():
        compile(b, p, "exec")
        out += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + p, "b/" + p))
    open(d + "/patch.diff", "w").write(out)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")}, open(d + "/meta.json", "w"), indent=1)

def scratch(i):
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    shutil.copytree("/repo/src", d + "/src")
    if i:
        subprocess.run(["git", "apply", "--unsafe-paths", "--directory", d, V + "/seeded/%s/patch.diff" % i], cwd=d, check=True)
    return d

def verify(i):
    r = []
    for p in (None, i):
        d = scratch(p)
        e = dict(os.environ, PYTHONPATH=d + "/src")
        q = subprocess.run(["bash", V + "/seeded/%s/demo.sh" % i], cwd=d, env=e, capture_output=True, text=True)
        r.append((q.returncode, (q.stdout[-200:] + q.stderr[-300:])))
        shutil.rmtree(d)
    return i, r

def check(i):
    d = scratch(i)
    ev = tempfile.mkdtemp(prefix="seed_ev_", dir="/tmp")
    pid = json.load(open(V + "/seeded/%s/meta.json" % i))["property"]
    q = subprocess.run(["python3-vt", "-m", "tpsa", pid], cwd=V, env=dict(os.environ, TRUSSPY_REPO=d, TPSA_EVIDENCE=ev), capture_output=True, text=True)
    shutil.rmtree(d); shutil.rmtree(ev)
    return i, pid, q.returncode, q.stdout + q.stderr[-300:]

what = sys.argv[1]
ids = sys.argv[2:] or sorted(SEEDS)
if what == "make":
    for i in ids: make(i)
elif what == "verify":
    with cf.ThreadPoolExecutor(7) as ex:
        for i, r in ex.map(verify, ids):
            ok = r[0][0] == 0 and r[1][0] not in (0, 124)
            print("ok " if ok else "BAD", i, [x[0] for x in r], "" if ok else r, flush=True)
            if ok and os.environ.get("SHOW"): print(r[1][1])
else:
    with cf.ThreadPoolExecutor(7) as ex:
        for i, pid, rc, t in ex.map(check, ids):
            print({0: "MISSED", 1: "caught"}.get(rc, "BROKEN"), pid, i, flush=True)
            if rc != 1: print("\n".join("      " + l[:300] for l in t.splitlines()[-6:]))
