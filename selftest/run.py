#!/usr/bin/env python3
"""Self-test of the checks on edits of the source (development tool, no check uses it).

mutants.py: BUGS = [(name, property, file, old, new)], SAME = [(name, file, old, new)].
Every edit is made in a scratch copy under /tmp; BUGS must be reported by the check of their property,
SAME (behaviour-preserving) must leave every check quiet.
usage: run.py [bugs|same] [substring ...]
"""
import concurrent.futures as cf, os, shutil, subprocess, sys, tempfile, json
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
import mutants, warnings
warnings.simplefilter('ignore')
R = "/repo"

def tree(edits):
    d = tempfile.mkdtemp(prefix="tpsa_mut_", dir="/tmp")
    shutil.copytree(R + "/src", d + "/src")
    for f, old, new in edits:
        p = d + "/src/trusspy/" + f
        s = open(p).read()
        if s.count(old) < 1:
            shutil.rmtree(d); raise SystemExit("text not found in %s: %s" % (f, old))
        s = s.replace(old, new, 1)
        compile(s, p, "exec")
        open(p, "w").write(s)
    return d

def one(name, pids, edits):
    d = tree(edits)
    ev = tempfile.mkdtemp(prefix="tpsa_ev_", dir="/tmp")
    out = {}
    try:
        for pid in pids:
            try:
                p = subprocess.run(["python3-vt", "-m", "tpsa", pid], cwd=V, env=dict(os.environ, TRUSSPY_REPO=d, TPSA_EVIDENCE=ev), capture_output=True, text=True, timeout=900)
                out[pid] = (p.returncode, p.stdout + p.stderr[-500:])
            except subprocess.TimeoutExpired:
                out[pid] = (99, "timeout")
    finally:
        shutil.rmtree(d); shutil.rmtree(ev)
    return name, out

def edits_of(x):
    return x if isinstance(x, list) else [x]

def main():
    what = sys.argv[1] if len(sys.argv) > 1 else "all"
    subs = sys.argv[2:]
    sel = lambda n: not subs or any(s in n for s in subs)
    jobs = []
    claimed = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
    with cf.ThreadPoolExecutor(int(os.environ.get("J", "7"))) as ex:
        if what in ("bugs", "all"):
            for b in mutants.BUGS:
                name, pid, ed = b[0], b[1], b[2:]
                if sel(name + " " + pid):
                    ed = ed[0] if len(ed) == 1 else [tuple(ed)]
                    jobs.append(("bug", ex.submit(one, name, pid.split(","), ed)))
        if what in ("same", "all"):
            for b in mutants.SAME:
                name, ed = b[0], b[1:]
                if sel(name):
                    ed = ed[0] if len(ed) == 1 else [tuple(ed)]
                    jobs.append(("same", ex.submit(one, name, claimed, ed)))
        miss = 0
        for kind, j in jobs:
            name, out = j.result()
            for pid, (rc, txt) in out.items():
                if kind == "bug":
                    print(("caught " if rc == 1 else "MISSED ") + pid, name, "" if rc == 1 else "rc=%d" % rc, flush=True)
                    if rc != 1:
                        miss += 1
                        print("\n".join("      " + l[:300] for l in txt.splitlines() if "undecided" in l or "obligations" in l or rc > 1), flush=True)
                    elif os.environ.get("SHOW"):
                        print("\n".join("      " + l[:400] for l in txt.splitlines()[3:9]))
                elif rc != 0:
                    miss += 1
                    print("ALARM  " + pid, name, "rc=%d" % rc, flush=True)
                    print("\n".join("      " + l[:600] for l in txt.splitlines()[-12:]), flush=True)
            if kind == "same":
                und = {p: t.split(" undecided")[0].split(" ")[-1] for p, (r, t) in out.items() if " undecided" in t and not ", 0 undecided" in t}
                print("same   ", name, "undecided:", und, flush=True)
    print("problems:", miss)
if __name__ == "__main__":
    main()
