"""One module per group of properties; each check is registered under its id."""
import importlib

REG = {}
MODULES = {}


def check(pid, meta):
    def d(f):
        REG[pid] = (f, meta)
        return f

    return d


GROUPS = {
    "material": ("C04", "C05"),
    "evalmodel": ("C01", "C02", "C03", "C06", "C17", "C29"),
    "newton": ("C07",),
    "handlers": ("C15",),
    "building": ("C16",),
    "results": ("C13", "C14"),
    "streams": ("C22",),
    "drawing": ("C25", "C26", "C30"),
    "effects": ("C23", "C24", "C27"),
    "exact": ("C28",),
    "isolation": ("C19", "C20", "C21"),
    "follow": ("C08", "C09", "C10", "C11", "C12", "C18"),
}


def run(pid):
    from .. import report

    for m, ps in GROUPS.items():
        if pid in ps:
            importlib.import_module("tpsa.checks." + m)
            break
    else:
        print("ERROR: no check for %s" % pid)
        return 2
    f, meta = REG[pid]
    import json
    import os

    title = ""
    for l in open(os.path.join(report.VERIF, "properties.jsonl")):
        d = json.loads(l)
        if d["id"] == pid:
            title = d["title"]
    return report.run_check(pid, title, f, meta)
