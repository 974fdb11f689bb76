"""Obligations of one check, their decision, the report and the evidence file."""
import json
import os
import signal
import sys
import time
import traceback

from . import arrays as ar
from . import eq, front, num
from . import terms as tm
from .terms import T, add, band, bsupport, cmp_bdd, const, mk, sub

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ABSTRACT = (("sqrt", "grp", "app"), None)
NUMERIC = ("int", "float", "num", "bool", "any")


def index(name, d):
    """a symbolic index 0 <= i < d"""
    b = ar.dimval(d) if isinstance(d, T) else d
    g = mk("gi", name, b if b is not None else d)
    tm.NONNEG.add(g)
    return g


class Rep:
    def __init__(self, pid, prog):
        self.pid = pid
        self.prog = prog
        self.obs = []
        self.notes = []
        self.interps = []
        self.known = load_known(pid)
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick") or "quick"
        self.samples = 160 if self.tier == "quick" else 1200
        self.limit = 10.0 if self.tier == "quick" else 60.0
        self.rules = {}
        self.stats = []
        self.scratch = False  # only the events of the scenarios are wanted

    # -------------------------------------------------------------- recording
    def _add(self, status, what, node, detail, how=""):
        loc, fn = "", ""
        if node is not None:
            loc = front.where(self.prog, node)
            try:
                fn = self.prog.qual(node)
            except Exception:
                fn = ""
        self.obs.append({"status": status, "what": what, "where": loc, "in": fn, "detail": detail, "how": how})

    def held(self, what, node=None, how=""):
        self._add("held", what, node, "", how)

    def bad(self, what, node=None, detail=""):
        self._add("violated", what, node, detail)

    def und(self, what, node=None, detail=""):
        self._add("undecided", what, node, detail)

    def fact(self, what, ok, node=None, detail=""):
        """ok: True / False / None (unknown)"""
        if ok is True:
            self.held(what, node)
        elif ok is False:
            self.bad(what, node, detail)
        else:
            self.und(what, node, detail)

    # -------------------------------------------------------------- equality
    def equal(self, what, got, want, pc=1, node=None, free=(), prep=None, dims=None, idx=(), assume=None, detail=""):
        r, why = self.same_value(got, want, pc, free, prep, dims, idx, assume)
        if r is True:
            self.held(what, node, why)
        elif r is False:
            self.bad(what, node, (detail + " " if detail else "") + why)
        else:
            self.und(what, node, why)
        return r

    def same_value(self, got, want, pc=1, free=(), prep=None, dims=None, idx=(), assume=None):
        if got is want or self.scratch:
            return True, "same value number"
        for g in idx:
            d = g.a[1]
            pc = band(pc, cmp_bdd("<", g, d if isinstance(d, T) else const(d)))
        if isinstance(got, int) or isinstance(want, int):
            raise TypeError("terms expected")
        if got.op == "tuple" and want.op == "tuple":
            if len(got.a) != len(want.a):
                return False, "tuple of %d values instead of %d" % (len(got.a), len(want.a))
            for p, q in zip(got.a, want.a):
                r = self.same_value(p, q, pc, free, prep, dims, idx, assume)
                if r[0] is not True:
                    return r
            return True, "same value numbers"
        why = "normal form"
        kg, kw = tm.kind(got), tm.kind(want)
        numeric = kg in NUMERIC and kw in NUMERIC
        if numeric:
            try:
                r = None
                for ops in ABSTRACT:
                    ab = eq.abstracted(got, want, bsupport(pc), ops)
                    if ab is not None and r is not True:
                        try:
                            r = eq.is_zero(sub(*ab), pc, eq.Prover(self.limit / 3, 800))
                        except eq.Budget:
                            pass
                if r is not True:
                    r = eq.is_zero(sub(got, want), pc, eq.Prover(self.limit))
                if r is True:
                    return True, "equal in every gate case (%s)" % why
                why = "case: " + ", ".join("%s=%s" % (tm.show(a, 4), v) for a, v in list(r[0].items())[:8])
            except eq.Budget:
                why = "case limit"
        # concrete witness of the difference
        def prep2(s):
            if prep is not None and prep(s) is False:
                return False
            for g in idx:
                d = g.a[1]
                d = d if isinstance(d, int) else s.dim(d)
                if d <= 0:
                    return False
                s.dims[g] = s.rnd.randrange(d)
            return None

        try:
            w = num.differ(got, want, pc, self.samples, "%s/%s" % (self.pid, self.seed), free, dims, prep2, assume)
        except num.Unknown as e:
            return None, "not understood: %s (got %s, expected %s)" % (e, tm.show(got, 5)[:160], tm.show(want, 5)[:160])
        if w is None:
            return None, "no normal form, no witness; " + why
        s, a, b = w
        leaves = witness(s, got, want, pc)
        return False, "value %s, required %s; e.g. %s -> %s instead of %s%s" % (tm.show(got, 6)[:300], tm.show(want, 6)[:300], leaves, fmtv(a), fmtv(b), "")

    def cond(self, what, got, want, pc=1, node=None, free=(), prep=None, dims=None, idx=(), assume=None, detail=""):
        """two gates equal whenever pc"""
        r, why = self.same_cond(got, want, pc, free, prep, dims, idx, assume)
        if r is True:
            self.held(what, node, why)
        elif r is False:
            self.bad(what, node, (detail + " " if detail else "") + why)
        else:
            self.und(what, node, why)
        return r

    def same_cond(self, got, want, pc=1, free=(), prep=None, dims=None, idx=(), assume=None):
        if self.scratch:
            return True, ""
        for q in idx:
            d = q.a[1]
            pc = band(pc, cmp_bdd("<", q, d if isinstance(d, T) else const(d)))
        g, w = band(got, pc), band(want, pc)
        if g == w:
            return True, "same gate"
        try:
            if eq.equal_bdd(g, w, 1, eq.Prover(self.limit)) is True:
                return True, "gates equal in every case"
        except eq.Budget:
            pass
        a, b = tm.mkbool(g), tm.mkbool(w)

        def prep2(s):
            for q in idx:
                d = q.a[1]
                d = d if isinstance(d, int) else s.dim(d)
                if d <= 0:
                    return False
                s.dims[q] = s.rnd.randrange(d)
            return prep(s) if prep is not None else None

        try:
            x = num.differ(a, b, 1, self.samples * 2, "%s/%s" % (self.pid, self.seed), free, dims, prep2, assume)
        except num.Unknown as e:
            return None, "not understood: %s (got %s, expected %s)" % (e, tm.bshow(got)[:200], tm.bshow(want)[:200])
        if x is None:
            return None, "gates differ in form (got %s, expected %s), no witness" % (tm.bshow(got)[:300], tm.bshow(want)[:300])
        return False, "happens if %s, required %s; e.g. %s -> %s" % (tm.bshow(got)[:400], tm.bshow(want)[:400], witness(x[0], a, b, 1), x[1])

    def never(self, what, got, pc=1, node=None, **kw):
        return self.cond(what, got, 0, pc, node, **kw)

    def arr(self, what, A, shape, fn, pc=1, node=None, pre="i", **kw):
        """array term A has the shape and A[idx] == fn(*idx) for every index"""
        s = ar.shape(A)
        if s is None:
            if A.op == "ite":
                a = self.arr_val(A.a[1], shape, fn, band(pc, A.a[0]), pre, **kw)
                b = self.arr_val(A.a[2], shape, fn, band(pc, tm.bnot(A.a[0])), pre, **kw)
                r = a if a[0] is not True else b
            else:
                r = (None, "array of unknown shape: " + tm.show(A, 4)[:200])
        else:
            r = self.arr_val(A, shape, fn, pc, pre, **kw)
        if r[0] is True:
            self.held(what, node, r[1])
        elif r[0] is False:
            self.bad(what, node, r[1])
        else:
            self.und(what, node, r[1])
        return r[0]

    def arr_val(self, A, shape, fn, pc=1, pre="i", assume_el=None, **kw):
        if pc == 0:
            return True, ""
        s = ar.shape(A)
        if s is None:
            return None, "array of unknown shape: " + tm.show(A, 4)[:200]
        if len(s) != len(shape):
            return False, "%d dimensions instead of %d" % (len(s), len(shape))
        unproved = None
        for p, q in zip(s, shape):
            r = self.same_value(p, q, pc, **kw)
            if r[0] is False:
                return False, "shape: " + r[1]
            if r[0] is None:
                unproved = "shape: " + r[1]
        ix = [index("%s%d" % (pre, k), d) for k, d in enumerate(shape)]
        g = pc
        for i, d in zip(ix, shape):
            g = band(g, cmp_bdd("<", i, d))
        x = ar.at(A, list(ix))
        y = fn(*ix)
        kw = dict(kw)
        kw["idx"] = tuple(kw.get("idx", ())) + tuple(ix)
        r = self.same_value(x, y, g, **kw)
        if r[0] is True and unproved:
            return None, unproved
        return r


def witness(s, *ts):
    """values of named leaves in a sample"""
    out = {}
    seen = set()
    for t in ts:
        if isinstance(t, int):
            t = tm.mkbool(t)
        for x in tm.walk(t):
            if x in seen:
                continue
            seen.add(x)
            if x.op in ("sym",) and len(out) < 10 or x.op == "el" and x.a[0].op in ("asym",) and len(out) < 10:
                try:
                    out[tm.show(x, 3)] = fmtv(s.ev(x))
                except (num.Unknown, num.Reject, Exception):
                    pass
    return "{" + ", ".join("%s=%s" % kv for kv in sorted(out.items())) + "}"


def fmtv(v):
    if isinstance(v, float):
        return "%.6g" % v
    return str(v)


# ------------------------------------------------------------------ known findings
KNOWN = os.path.join(VERIF, "known_findings.jsonl")


def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"):
                continue
            d = json.loads(l)
            if d.get("property") == pid and d.get("status", "known") == "known":
                out.append(d)
    return out


def is_known(rep, o):
    for k in rep.known:
        if k.get("what") == o["what"] and k.get("in", o["in"]) == o["in"]:
            return k
    return None


LIMIT = 780


class OutOfTime(BaseException):
    """not caught by the analysis itself"""


def deadline(pid):
    """the check answers within the time a run is given"""

    def stop(sig, frame):
        raise OutOfTime()

    signal.signal(signal.SIGALRM, stop)
    signal.alarm(LIMIT if os.environ.get("VERIF_TIER", "quick") == "quick" else 4 * LIMIT)


def run_check(pid, title, fn, meta):
    t0 = time.time()
    rep = None
    code = 0
    deadline(pid)
    try:
        prog = front.Program()
        rep = Rep(pid, prog)
        fn(rep)
    except front.FrontError as e:
        print("ERROR: %s" % e)
        return 2
    except SyntaxError as e:
        print("ERROR: source does not parse: %s" % e)
        return 2
    except (Exception, OutOfTime) as e:
        from . import world

        if rep is None:
            traceback.print_exc()
            return 2
        tb = traceback.extract_tb(e.__traceback__)
        if isinstance(e, world.AnchorError):
            rep.und("anchor of %s" % pid, None, "not found: %s" % e)
        elif isinstance(e, OutOfTime):
            rep.und("analysis of %s" % pid, None, "time limit of %d s reached" % LIMIT)
        else:
            rep.und("analysis of %s" % pid, None, "internal limit: %s: %s at %s:%s" % (type(e).__name__, str(e)[:200], os.path.basename(tb[-1].filename), tb[-1].lineno))
        if os.environ.get("TPSA_TRACE"):
            traceback.print_exc()
    signal.alarm(0)
    held = [o for o in rep.obs if o["status"] == "held"]
    bad = [o for o in rep.obs if o["status"] == "violated"]
    und = [o for o in rep.obs if o["status"] == "undecided"]
    new, known = [], []
    for o in bad:
        k = is_known(rep, o)
        (known if k else new).append(o)
    funs = {}
    ncalls = events = 0
    unmod = []
    from . import interp

    for I in interp.INTERPS:
        for f in I.analysed:
            funs[f] = funs.get(f, 0) + 1
        ncalls += I.callcount
        events += len(I.events)
        unmod += ["%s" % (u,) for u in I.unmodelled]
    for fs, c, e, u in rep.stats if rep else ():
        for f in fs:
            funs[f] = funs.get(f, 0) + 1
        ncalls += c
        events += e
        unmod += u
    print("%s %s" % (pid, title))
    print("  analysed: %d functions (%d calls in context), %d events" % (len(funs), ncalls, events))
    print("  obligations: %d held, %d violated, %d undecided" % (len(held), len(bad), len(und)))
    for o in und[:30]:
        print("  undecided: %s  [%s] %s" % (o["what"], o["where"], o["detail"][:400]))
    if os.environ.get("TPSA_VERBOSE"):
        for o in held:
            print("  held: %s  [%s] (%s)" % (o["what"], o["where"], o["how"]))
    for o in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, o["what"]))
    ev = os.environ.get("TPSA_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    path = os.path.join(ev, pid + ".json")
    data = {
        "property": pid,
        "tier": rep.tier,
        "seed": rep.seed,
        "level": "other",
        "coverage": {
            "explanation": meta,
            "obligations": len(rep.obs),
            "discharged": len(held),
            "undecided": len(und),
            "violated": len(bad),
            "functions_analysed": sorted(funs),
            "calls_analysed_in_context": ncalls,
            "effect_events": events,
            "rules": sorted({o["what"].split(":")[0] for o in rep.obs}),
            "samples": [{"obligation": o["what"], "where": o["where"], "in": o["in"], "decided_by": o["how"]} for o in held[:40]],
            "undecided_list": [{"obligation": o["what"], "where": o["where"], "why": o["detail"][:500]} for o in und[:40]],
            "violations_list": [{"obligation": o["what"], "where": o["where"], "in": o["in"], "detail": o["detail"][:2000], "known": o in known} for o in bad],
            "not_modelled": sorted(set(unmod))[:40],
            "notes": rep.notes,
        },
        "assumptions": ASSUME,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    if new:
        code = 1
        rp = os.path.join(ev, pid + ".violation.txt")
        with open(rp, "w") as f:
            for o in new:
                f.write("rule: %s\nconstruct: %s (%s)\n%s\n\n" % (o["what"], o["where"], o["in"], o["detail"]))
        for o in new:
            print("  VIOLATED %s\n    at %s in %s\n    %s" % (o["what"], o["where"], o["in"], o["detail"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(rp, VERIF)))
    elif not held:
        print("UNDECIDED property=%s: the analysis could not decide any obligation on this source" % pid)
    return code


ASSUME = [
    "arithmetic is exact (real numbers); rounding is not considered",
    "documented behaviour of Python, NumPy, SciPy, Matplotlib, imageio and the standard library, as modelled in tpsa/lib.py",
    "domain: node/element labels are unique, the two ends of an element are different nodes, undeformed and deformed lengths are nonzero",
]
