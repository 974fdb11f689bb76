"""C06 (commit discipline), C08-C12 and C18 (inside path following): obligations per scenario.

Held: proven on the value graph after matching the loop variables with those of the reference
(solver.Match).  Violated: a sample (random interpretation of both value graphs) on which the two
recurrences, fed the same answers of an arbitrary Newton solver, deviate; the first deviation is
attributed to the property it belongs to.  Anything else: undecided.
"""
import itertools
import multiprocessing as mp
import os
import time
import traceback

from .. import arrays as ar
from .. import eq
from .. import interp as im
from .. import num
from .. import terms as tm
from .. import world as W
from ..report import index
from ..terms import FALSE, NONE, ONE, TRUE, ZERO, add, band, bnot, bor, cmp_bdd, const, div, ite, mk, mul, neg, sub
from . import check
from .solver import DL, DU, PAR, SCEN, V, XC, XV, Impl, Match, Spec, X0, mu_parts, n, nv, sname, values

LIM = ar.asym("par.limits", (nv,))


def lamf(dims, f):
    """array by its elements"""
    g = [ar.gi("λ%d" % k) for k in range(len(dims))]
    body = f(*g)
    vs = []
    for x in g:
        b, body = ar.bind(body, x)
        vs.append(b)
    return mk("lam", tuple(dims), tuple(vs), body)


def impl(rep, scen, form, **kw):
    if form == "scalar":
        return Impl(rep, scen, dxmax=lambda I, st: DU, **kw)
    if form == "full":
        return Impl(rep, scen, dxmax=lambda I, st: I.new_array(st, LIM), **kw)
    return Impl(rep, scen, **kw)


def spec(rep, scen, form, **kw):
    if form == "scalar":
        return Spec(rep, scen, lim=lamf((nv,), lambda i: DU), **kw)
    if form == "full":
        return Spec(rep, scen, lim=LIM, **kw)
    return Spec(rep, scen, **kw)


CASES = [(s, "pair") for s in SCEN] + [(("int", False, False, False), f) for f in ("pair", "scalar", "full")]
FIRST = len(SCEN)  # cases from here on: the first attempt only


def domain(scen):
    if scen[0] == "none":
        return 1
    return band(bnot(cmp_bdd("==", PAR["j"], ZERO)), cmp_bdd("<=", tm.tabs(PAR["j"]), nv))


class Case:
    """one scenario: obligations by property"""

    def __init__(self, rep, scen, form, pids, initial=False):
        self.rep, self.scen, self.form, self.pids, self.initial = rep, scen, form, pids, initial
        self.out = []  # (pid, status, what, node tid, detail)
        self.tag = sname(scen) + {"pair": "", "scalar": ", one limit for all", "full": ", a limit per component"}[form]
        if initial:
            self.tag = {"pair": "limits of displacements and LPF", "scalar": "one limit for all components", "full": "a limit per component"}[form]

    def put(self, pid, status, what, node, detail=""):
        if pid in self.pids:
            self.out.append((pid, status, what, getattr(node, "_tid", None), detail))

    def run(self):
        rep = self.rep
        A = self.A = impl(rep, self.scen, self.form)
        self.f = A.f
        if self.initial:
            return self.begin()
        self.local()
        self.tolerances()
        best = None
        for full in (False, True):
            self.B = spec(rep, self.scen, self.form, full=full)
            if not self.structure():
                return
            r = self.compare()
            if all(t[3] for t in r[0]):
                best = r
                break
            if best is None or not r[1].get("C18") and best[1].get("C18"):
                best = r
        todo, dev, why = best
        if "C18" in self.pids:
            self.influence()
            if dev:
                self.swaps()
        for pid, what, nd, good in todo:
            for p in pid:
                if good:
                    self.put(p, "held", what, nd, "proven on the value graph: loop variables matched by induction")
                    continue
                d = [x for x in dev.get(p, ()) if what.startswith(x[0])]
                if d:
                    self.put(p, "violated", what, d[0][2] or nd, d[0][1])
                else:
                    self.put(p, "undecided", what, nd, why)
        # deviations of a kind that no failing obligation names
        for p, ds in dev.items():
            for what, why, nd in ds:
                if not any(o[0] == p and o[1] == "violated" for o in self.out):
                    self.put(p, "violated", what, nd or self.f, why)

    def influence(self):
        """every setting that matters in this scenario has an influence"""
        cones = []
        for P, obs in ((self.A, [x for _, _, x, y, _ in self.obs]), (self.B, [y for _, _, x, y, _ in self.obs])):
            cones.append(cone(P, obs))
        a, b = cones
        if a is None or b is None:
            return
        for k, t in list(PAR.items()) + [("dxmax", DU), ("dlpf", DL), ("xlimit component", XC), ("xlimit value", XV)]:
            if t in b:
                self.put("C18", "held" if t in a else "violated", "influence: %s acts on path following" % k, self.f, "" if t in a else "no attempt, limit, decision or recorded value depends on it")

    def swaps(self):
        """does the code follow the reference with two settings exchanged?"""
        ks = [k for k in ("nfev", "cycl", "maxfac", "minfac", "reduce", "increase", "dxtol", "incs") if PAR[k] in cone(self.B, [y for _, _, x, y, _ in self.obs])]
        if deviations(self.rep, self.A, self.B, self.form, self.scen, 48)[1][1] < 3:
            return
        for p, q in itertools.combinations(ks, 2):
            dev, (good, bad) = deviations(self.rep, self.A, self.B, self.form, self.scen, 48, {p: q, q: p})
            if bad == 0 and good >= 8:
                self.put("C18", "violated", "influence: %s and %s act in their own places" % (p, q), self.f, "path following behaves like the reference with the two exchanged (%d samples)" % good)

    def compare(self):
        rep, A, B = self.rep, self.A, self.B
        M = self.M = Match(rep, A, B, domain(self.scen))
        self.lists()
        todo = []
        try:
            ok = M.run([(x, y, 1) for pid, what, x, y, nd in self.obs])
        except (eq.Budget, RecursionError):
            ok = False
            M.unmatched = []
        for pid, what, x, y, nd in self.obs:
            if not set(pid) & self.pids:
                continue
            good = False
            if ok:
                try:
                    good = M.same(x, y)
                except (eq.Budget, RecursionError):
                    pass
            todo.append((pid, what, nd, good))
        dev, cnt = {}, (0, 0)
        if not all(t[3] for t in todo):
            dev, cnt = deviations(rep, A, B, self.form, self.scen)
        why = "%s; %d samples agree, %d deviate" % (("loop variables without counterpart: %s" % [str(b[1]) for b in M.unmatched]) if not ok else "no normal form", *cnt)
        return todo, dev, why

    def begin(self):
        """the first attempt: initial limits in all documented forms, initial component"""
        A = self.A
        if A.lids is None or len(A.att) != 1:
            for p in ("C11", "C18"):
                self.put(p, "undecided", "first: initial limit of the initial component", self.f, "structure")
            return
        e = A.att[0]
        J = PAR["j"]
        m = sub(tm.tabs(J), ONE)
        X = lamf((nv,), lambda i: ite(cmp_bdd("==", i, n), ZERO, ar.at(X0, [i])))
        el = lambda t: tm.subst(t.a[2], {t.a[1][0]: m})
        lim = ar.at(LIM, [m]) if self.form == "full" else DU if self.form == "scalar" else ite(cmp_bdd("==", m, n), DL, DU)
        want = sub(ar.at(V, [m]), add(el(X), mul(lim, tm.tsign(J))))

        def prep(s):
            values(s)
            s.memo[PAR["incs"]] = 3

        dom = domain(self.scen)
        if self.form == "full":
            dom = band(dom, cmp_bdd(">", n, ONE))  # two limits have the meaning of the pair
        for p in ("C08", "C11", "C18"):
            self.eq(p, "first: initial limit of the initial component", at0(A, e.data["row"]), want, e.node, (), dom, prep)

    # -- what needs no history: the system handed to the Newton solver
    def local(self):
        A = self.A
        evs = [("attempt", e) for e in A.att] + [("predictor", e) for e in A.pre]
        if not evs:
            return
        for tag, e in evs:
            r, K = e.data["residual"], e.data["K"]
            nd = e.node
            gV = mk("app", "user.g", "arr", (n,), ar.lam(V))
            kV = mk("app", "user.dgdx", "arr", (n, n), lamf((n,), lambda i: ar.at(V, [i])))
            k, m = index("row", n), index("col", n)
            self.eq("C08", "system: free rows are minus the equilibrium function (%s)" % tag, ar.at(r, [k]), neg(ar.at(gV, [k])), nd, (k,))
            s = ar.shape(r)
            self.eq("C08", "system: one row per free degree of freedom and one control row (%s)" % tag, s[0] if s and len(s) == 1 else im.unk("shape"), nv, nd, ())
            s = ar.shape(K)
            for q in (0, 1):
                self.eq("C08", "matrix: square, with the size of the system (%s)" % tag, s[q] if s and len(s) == 2 else im.unk("shape"), nv, nd, ())
            self.eq("C08", "matrix: stiffness block at the same vector (%s)" % tag, ar.at(K, [k, m]), ar.at(kV, [k, m]), nd, (k, m))
            self.eq("C08", "matrix: last column is minus the reference load (%s)" % tag, ar.at(K, [k, n]), neg(ar.at(A.F0, [k, ZERO])), nd, (k,))
            # control row: derivative of the control equation
            row = e.data["row"]
            c = index("comp", nv)
            d = lin(row)
            what = "matrix: last row is the derivative of the control equation (%s)" % tag
            if d is None:
                self.put("C08", "undecided", what, nd, "control equation " + tm.show(row, 4)[:200])
                continue
            want = add(*[ite(cmp_bdd("==", c, i), x, ZERO) for i, x in d]) if d else ZERO
            pc = 1
            for i, x in d:
                pc = band(pc, cmp_bdd(">=", i, ZERO), cmp_bdd("<", i, nv))
            self.eq("C08", what, ar.at(K, [n, c]), want, nd, (c,), pc)

    def eq(self, pid, what, got, want, nd, idx, pc=1, prep=None):
        if pid not in self.pids:
            return
        r, why = self.rep.same_value(got, want, pc, () if prep else ("mu", "last"), prep, None, idx)
        self.put(pid, "held" if r is True else "violated" if r is False else "undecided", what, nd, why)

    def tolerances(self):
        for e in self.A.att + self.A.pre:
            for p in ("ftol", "xtol"):
                self.eq("C18", "tolerances: %s reaches the Newton solver" % p, e.data[p], PAR[p], e.node, ())

    # -- same structure as the reference
    def structure(self):
        A, B = self.A, self.B
        why = None
        if A.lids is None or len(A.att) != 1 or len(A.pre) != len(B.pre) or A.odd:
            why = "Newton calls: %d in the inner loop, %d in the outer loop, %d elsewhere" % (len(A.att), len(A.pre), len(A.odd))
        elif len(B.att) != 1 or len(B.record) != 1 or len(B.commit) != 1:
            why = "reference"
        if why:
            for p in self.pids:
                self.put(p, "undecided", "structure: one Newton solution per attempt", self.f, why)
            return False
        return True

    def lists(self):
        A, B = self.A, self.B
        a, b = A.att[0], B.att[0]
        o = self.obs = []

        def ob(pid, what, x, y, nd):
            o.append((pid if isinstance(pid, tuple) else (pid,), what, x, y, nd))

        nd = a.node
        ob("C10", "start: every attempt starts from the last accepted solution or its scaled prediction", a.data["start"], b.data["start"], nd)
        ob(("C08", "C10", "C11"), "control: target and control component of an attempt", a.data["row"], b.data["row"], nd)
        c = index("comp", nv)
        mB = sub(tm.tabs(b.data["J"]), ONE)
        ob(("C08", "C10"), "component: unit row of the control component", ar.at(a.data["K"], [n, c]), ite(cmp_bdd("==", c, mB), ONE, ZERO), nd)
        ob("C18", "iterations: an attempt gets the iteration limit, less those of the predictor", a.data["bound"], b.data["bound"], nd)
        ob(("C09", "C12"), "attempt: an attempt is made in every pass", a.pc, b.pc, nd)
        for e, g in zip(A.pre, B.pre):
            ob("C10", "start: the predictor starts at the last accepted solution", e.data["start"], g.data["start"], e.node)
            ob(("C08", "C10", "C11"), "control: target and control component of the predictor", e.data["row"], g.data["row"], e.node)
            ob(("C18", "C10"), "iterations: the predictor is one linear step", e.data["bound"], g.data["bound"], e.node)
            ob(("C10", "C18"), "predictor: made in every increment", e.pc, g.pc, e.node)
            ob(("C08", "C10"), "component: unit row of the predictor", ar.at(e.data["K"], [n, c]), ite(cmp_bdd("==", c, sub(tm.tabs(g.data["J"]), ONE)), ONE, ZERO), e.node)
        ia, ib = (P.I.loopinfo[P.lids[1]] for P in (A, B))
        oa, ob_ = (P.I.loopinfo[P.lids[0]] for P in (A, B))
        ob("C12", "recycle: another attempt is made exactly when allowed", more(ia, A.ctr[1]), more(ib, B.ctr[1]), self.f)
        ob("C12", "increment: the step continues exactly when allowed", more(oa, A.ctr[0]), more(ob_, B.ctr[0]), self.f)
        ob("C12", "increment: the first one is made if any is requested", first(oa), first(ob_), self.f)
        if len(A.record) == 1:
            e, g = A.record[0], B.record[0]
            ob("C09", "record: exactly the converged, admissible increments", e.pc, g.pc, e.node)
            xB = g.data["x"]
            for nm, what, d in (("Vred", "combined vector", nv), ("Ured", "displacements", n)):
                v = content(A, e, nm)
                i = index("comp", d)
                sh = ar.shape(v) if v is not None else None
                if sh is None or len(sh) != 1:
                    self.put("C09", "undecided", "record: %s is the accepted solution" % what, e.node, "not understood")
                    continue
                ob("C09", "record: size of the %s" % what, sh[0], d, e.node)
                ob("C09", "record: %s is the accepted solution" % what, ar.at(v, [i]), ar.at(xB, [i]), e.node)
            v = content(A, e, "lpf")
            if v is not None:
                ob("C09", "record: LPF is the last component of the accepted solution", v, ar.at(xB, [n]), e.node)
        if len(A.commit) == 1 and len(A.commit[0].loops) in (1, 2):
            e = A.commit[0]
            g = B.commit[0] if len(e.loops) == 2 else B.record[0]
            ob("C06", "commit: once per accepted increment and never otherwise", e.pc, g.pc, e.node)
            i = index("comp", nv)
            u = A.I.num(e.data["state"], e.data["args"]["Ured"])
            ob("C06", "commit: at the accepted solution", ar.at(u, [i]), ar.at(g.data["x"], [i]), e.node)


def more(info, k):
    """the loop goes on after iteration k"""
    return info.care


def first(info):
    g = info.st0.pc
    if info.N is not None:
        return band(g, cmp_bdd("<", ZERO, info.N))
    return g if info.chead == 1 else band(g, tm.bsubst(info.chead, {info.k: ZERO}))


def at0(P, t):
    """t in the first pass of both loops"""
    t = tm.subst(t, {P.ctr[1]: ZERO})
    t = tm.subst(t, {P.ctr[0]: ZERO})
    for _ in range(6):
        d = {}
        for x in tm.walk(t):
            if x.op == "mu" and all(q is ZERO for q in x.a[3:]):
                p = mu_parts(P.I, mk("mu", x.a[0], x.a[1], x.a[2], P.I.loopinfo[x.a[0]].k, *P.I.loopinfo[x.a[0]].octr))
                if p is not None:
                    v = p[0]
                    for c in reversed(P.ctr):
                        v = tm.subst(v, {c: ZERO})
                    d[x] = v
        if not d:
            break
        t = tm.subst(t, d)
    return t


def lin(row):
    """row of the matrix belonging to an equation that is linear in the unknowns: (index, coefficient) list"""
    out = []
    for m, c in tm.to_poly(row).items():
        vs = [(a, e) for a, e in m if any(x is V for x in tm.walk(a))]
        if not vs:
            continue
        if len(vs) != 1 or vs[0][1] != 1 or vs[0][0].op != "el" or vs[0][0].a[0] is not V:
            return None
        rest = tm.from_poly({tuple(x for x in m if x != vs[0]): c})
        out.append((vs[0][0].a[1], rest))
    return out


# ------------------------------------------------------------------ first deviation
class Dev(Exception):
    pass


def cone(P, obs):
    """all leaves the observables depend on"""
    seen, out = set(), set()
    work = [tm.mkbool(t) if isinstance(t, int) else t for t in obs]
    for t in work:
        for x in tm.walk(t):
            if x.op == "sym":
                out.add(x)
            if x.op == "last" and x.a[0] in P.I.loopinfo and x not in seen:
                seen.add(x)
                work.append(tm.mkbool(P.I.loopinfo[x.a[0]].care))
            if x.op == "mu" and x.a[0] in P.I.loopinfo and (x.a[0], x.a[1]) not in seen:
                seen.add((x.a[0], x.a[1]))
                info = P.I.loopinfo[x.a[0]]
                p = mu_parts(P.I, mk("mu", x.a[0], x.a[1], x.a[2], info.k, *info.octr))
                if p is None:
                    return None
                work += [p[0], p[1]]
    return out


class Run:
    """both recurrences on one sample"""

    def __init__(self, A, B, s, form, sB=None):
        self.A, self.B, self.s, self.form = A, B, s, form
        self.sB = sB or s

    def scope(self, P, i, k):
        m = {P.ctr[0]: i}
        if k is not None:
            m[P.ctr[1]] = k
        return m

    def gate(self, P, g, i, k=None):
        s = self.sB if P is self.B else self.s
        return s.within(self.scope(P, i, k), s.gate, g)

    def ev(self, P, t, i, k=None):
        s = self.sB if P is self.B else self.s
        return s.within(self.scope(P, i, k), s.ev, t)

    def vec(self, P, t, i, k, d):
        return [self.ev(P, ar.at(t, [const(q)]) if t.op != "lam" else tm.subst(t.a[2], {t.a[1][0]: const(q)}), i, k) for q in range(d)]

    def dev(self, pids, what, why, nd):
        raise Dev(pids, what, why, nd)

    def where(self, i, k):
        w = "increment %d, %s" % (i + 1, "predictor" if k is None else "attempt %d" % (k + 1))
        s = self.s
        leaf = {}
        for q in (DU, DL) + tuple(PAR.values()):
            if q in s.memo:
                leaf[q.a[0][4:]] = s.memo[q]
        return w + " with {" + ", ".join("%s=%s" % x for x in sorted(leaf.items())) + "}"

    def attempt(self, a, b, i, k, firsttime):
        A, B, s = self.A, self.B, self.s
        N = s.dim(n)
        nd = a.node
        pre = k is None
        pa, pb = self.gate(A, a.pc, i, k), self.gate(B, b.pc, i, k)
        w = self.where(i, k)
        if pa != pb:
            self.dev(("C10", "C18") if pre else ("C12",), "predictor" if pre else "attempt", "%s is %s" % (w, "made" if pa else "not made"), nd)
        if not pa:
            return False
        a, b = a.data, b.data
        x, y = self.vec(A, a["start"], i, k, N + 1), self.vec(B, b["start"], i, k, N + 1)
        if any(not num.close(p, q, 1e-6) for p, q in zip(x, y)):
            self.dev(("C10",), "start", "start vector %s instead of %s in %s" % (fmt(x), fmt(y), w), nd)
        if a["K"] is not None:
            row = [self.ev(A, ar.at(a["K"], [n, const(q)]), i, k) for q in range(N + 1)]
            one = [q for q, v in enumerate(row) if num.close(v, 1)]
            comp = abs(self.ev(B, b["J"], i, k)) - 1
            if len(one) != 1 or any(not num.close(v, 0) for q, v in enumerate(row) if q not in one):
                self.dev(("C08",), "component", "control row %s instead of the unit row of component %d in %s" % (fmt(row), comp + 1, w), nd)
            if one[0] != comp:
                self.dev(("C10",), "component", "control component %d instead of %d in %s" % (one[0] + 1, comp + 1, w), nd)
        else:
            comp = abs(self.ev(B, b["J"], i, k)) - 1
        ra, rb = self.ev(A, a["row"], i, k), self.ev(B, b["row"], i, k)
        if not num.close(ra, rb, 1e-6):
            X = self.ev(B, ar.at(b["prev"], [const(comp)]), i, k)
            v = s.ev(ar.at(V, [const(comp)]))
            da, db = v - ra - X, v - rb - X
            l0 = s.ev(ar.at(self.limits(), [const(comp)]))
            why = "target minus start value %.6g instead of %.6g (component %d, initial limit %.6g) in %s" % (da, db, comp + 1, l0, w)
            if num.close(abs(da), abs(db), 1e-6):
                self.dev(("C08", "C10"), "control", why, nd)
            if firsttime:
                self.dev(("C08", "C18"), "control", why, nd)
            if num.close(abs(db), l0, 1e-6):
                self.dev(("C08", "C11"), "control", why, nd)
            self.dev(("C11",), "control", why, nd)
        ba, bb = self.ev(A, a["bound"], i, k), self.ev(B, b["bound"], i, k)
        if not num.close(ba, bb):
            self.dev(("C18",), "iterations", "%s iterations instead of %s in %s" % (ba, bb, w), nd)
        return True

    def limit(self, P, d, i, k):
        """distance of the target from the start vector in the control component"""
        try:
            if d.get("K") is not None:
                row = [self.ev(P, ar.at(d["K"], [n, const(q)]), i, k) for q in range(self.s.dim(n) + 1)]
                c = [q for q, v in enumerate(row) if num.close(v, 1)][0]
            else:
                c = abs(self.ev(P, d["J"], i, k)) - 1
            X = self.ev(self.B, ar.at(self.B.att[0].data["prev"], [const(c)]), i, k)
            x = abs(self.s.ev(ar.at(V, [const(c)])) - self.ev(P, d["row"], i, k) - X)
            l0 = self.s.ev(ar.at(self.limits(), [const(c)]))
            return round(x / l0, 5)
        except (num.Reject, num.Unknown, IndexError, ZeroDivisionError):
            return None

    def limits(self):
        if self.form == "full":
            return LIM
        c = index("comp", nv)
        return lamf((nv,), lambda i: DU if self.form == "scalar" else ite(cmp_bdd("==", i, n), DL, DU))

    def run(self):
        A, B, s = self.A, self.B, self.s
        ia, ib = (P.I.loopinfo[P.lids[1]] for P in (A, B))
        oa, ob = (P.I.loopinfo[P.lids[0]] for P in (A, B))
        com = A.commit[0] if len(A.commit) == 1 and len(A.commit[0].loops) in (1, 2) else None
        N = s.dim(n)
        fa, fb = s.gate(first(oa)), self.sB.gate(first(ob))
        if fa != fb:
            self.dev(("C12",), "increment", "the first of %s increments is %smade" % (s.memo[PAR["incs"]], "" if fa else "not "), oa.node)
        if not fa:
            return
        for i in range(11):
            ft = i == 0
            for a, b in zip(A.pre, B.pre):
                if self.attempt(a, b, i, None, ft):
                    ft = False
            for k in range(9):
                self.attempt(A.att[0], B.att[0], i, k, ft)
                ft = False
                w = self.where(i, k)
                acc = self.gate(B, B.commit[0].pc, i, k)
                ca, cb = self.gate(A, ia.care, i, k), self.gate(B, ib.care, i, k)
                if com is not None and len(com.loops) == 2:
                    g = self.gate(A, com.pc, i, k)
                    if g != acc:
                        if ca == cb:
                            self.dev(("C06",), "commit", "state variables are %s although the attempt is %s: %s" % ("committed" if g else "not committed", "accepted" if acc else "not accepted", w), com.node)
                    elif g:
                        self.commit(com, i, k, self.vec(B, B.commit[0].data["x"], i, k, N + 1), w)
                if ca != cb:
                    if acc:
                        self.dev(("C09", "C12"), "recycle", "a converged attempt within the limits is not accepted: " + w, A.f)
                    if cb and len(A.record) == 1 and self.gate(A, A.record[0].pc, i):
                        self.dev(("C09",), "record", "an attempt is recorded that did not converge or exceeds the limits: " + w, A.record[0].node)
                    if ca and self.limit(A, A.att[0].data, i, k + 1) != self.limit(B, B.att[0].data, i, k + 1):
                        self.dev(("C11", "C12"), "", "another attempt is made, with changed incremental limits, where they must not change any more: %s" % w, ia.node)
                    self.dev(("C12",), "recycle", "another attempt is %s: %s" % ("made" if ca else "not made", w), ia.node)
                if not ca:
                    break
            else:
                return
            g = self.gate(B, B.record[0].pc, i)
            if len(A.record) == 1:
                e = A.record[0]
                h = self.gate(A, e.pc, i)
                if g != h:
                    self.dev(("C09",), "record", "increment %d is %srecorded, its last attempt is %saccepted: %s" % (i + 1, "" if h else "not ", "" if g else "not ", w), e.node)
                if g:
                    x = self.vec(B, B.record[0].data["x"], i, None, N + 1)
                    for nm, y in (("Vred", x), ("Ured", x[:-1])):
                        v = content(A, e, nm)
                        if v is None:
                            continue
                        z = self.vec(A, v, i, None, len(y))
                        if s.ev(ar.shape(v)[0]) != len(y) or any(not num.close(p, q, 1e-6) for p, q in zip(z, y)):
                            self.dev(("C09",), "record", "recorded %s %s instead of %s: %s" % (nm, fmt(z), fmt(y), w), e.node)
                    v = content(A, e, "lpf")
                    if v is not None:
                        z = self.ev(A, v, i)
                        if not num.close(z, x[-1], 1e-6):
                            self.dev(("C09",), "record", "recorded LPF %.6g instead of %.6g: %s" % (z, x[-1], w), e.node)
            if com is not None and len(com.loops) == 1:
                h = self.gate(A, com.pc, i)
                if g != h:
                    self.dev(("C06",), "commit", "state variables are %s although the increment is %s: %s" % ("committed" if h else "not committed", "accepted" if g else "not accepted", w), com.node)
                if g:
                    self.commit(com, i, None, self.vec(B, B.record[0].data["x"], i, None, N + 1), w)
            ca, cb = self.gate(A, oa.care, i), self.gate(B, ob.care, i)
            if ca != cb:
                self.dev(("C12",), "increment", "the step %s after %s" % ("continues" if ca else "ends", w), oa.node)
            if not ca:
                return

    def commit(self, com, i, k, want, w):
        A = self.A
        u = A.I.num(com.data["state"], com.data["args"]["Ured"])
        z = self.vec(A, u, i, k, len(want))
        if any(not num.close(p, q, 1e-6) for p, q in zip(z, want)):
            self.dev(("C06",), "commit", "state variables are committed at %s instead of %s: %s" % (fmt(z), fmt(want), w), com.node)


def fmt(v):
    return "[" + ", ".join("%.4g" % x for x in v) + "]"


def content(A, e, name):
    st, r = e.data.get("state"), e.data.get("val")
    if st is None or r is None or r.op != "ref":
        return None
    v = W.fld(A.I, st, r, name)
    if v is None or v is tm.UNBOUND:
        return None
    v = A.I.num(st, v)
    if name != "lpf" and (ar.shape(v) is None or len(ar.shape(v)) != 1):
        return None
    return v


def deviations(rep, A, B, form, scen, N=None, perm=None):
    """first deviation of every kind over the samples"""
    out = {}
    good = bad = 0
    whys = {}
    t0 = time.time()
    for q in range(N or 3 * rep.samples):
        if time.time() - t0 > (60 if rep.tier == "quick" else 300):
            break
        s = num.Sample("dev/%s/%d" % (rep.seed, q))
        values(s)
        try:
            s2 = None
            if perm:
                s2 = num.Sample("dev/%s/%d" % (rep.seed, q))
                values(s2)
                for x, y in perm.items():
                    s2.memo[PAR[x]] = s.memo[PAR[y]]
                if all(s2.memo[PAR[x]] == s.memo[PAR[x]] for x in perm):
                    continue
            Run(A, B, s, form, s2).run()
            good += 1
        except Dev as d:
            if perm:
                return {}, (good, bad + 1)
            pids, what, why, nd = d.args
            for p in pids:
                if not any(x[0] == what for x in out.setdefault(p, [])):
                    out[p].append((what, why, nd))
            bad += 1
        except num.Reject:
            continue
        except (num.Unknown, OverflowError, ZeroDivisionError, RecursionError) as e:
            w = "%s %s" % (type(e).__name__, str(e)[:60])
            whys[w] = whys.get(w, 0) + 1
    if os.environ.get("TPSA_TRACE"):
        print("deviations", sname(scen), form, good, bad, whys, sorted((p, [x[0] for x in v]) for p, v in out.items()), "%.1f s" % (time.time() - t0))
    return out, (good, bad)


# ------------------------------------------------------------------ all scenarios
_job = None


def work(q):
    rep, pids, cases = _job
    scen, form = cases[q]
    c = Case(rep, scen, form, pids, q >= FIRST)
    try:
        c.run()
    except W.AnchorError as e:
        for p in pids:
            c.put(p, "undecided", "anchor", None, str(e))
    except Exception as e:
        if os.environ.get("TPSA_TRACE"):
            traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)
        for p in pids:
            c.put(p, "undecided", "analysis", None, "internal limit: %s: %s at %s:%s" % (type(e).__name__, str(e)[:200], os.path.basename(tb[-1].filename), tb[-1].lineno))
    stats = [(sorted(I.analysed), I.callcount, len(I.events), ["%s" % (u,) for u in I.unmodelled]) for I in im.INTERPS]
    return c.tag, c.out, stats


def follow(rep, *pids, cases=None):
    """decide the obligations of pids in every scenario"""
    global _job
    _job = (rep, set(pids), cases or CASES)
    ctx = mp.get_context("fork")
    k = min(len(_job[2]), os.cpu_count() or 2, 8)
    with ctx.Pool(k, maxtasksperchild=1) as pool:
        res = pool.map(work, range(len(_job[2])), chunksize=1)
    for tag, out, stats in res:
        for pid, status, what, tid, detail in out:
            if pid != rep.pid:
                continue
            node = rep.prog.nodes[tid] if tid is not None else None
            rep._add(status, "%s [%s]" % (what, tag), node, detail if status != "held" else "", detail if status == "held" else "")
        rep.stats += stats


@check("C08", "value graph of the extended residual and matrix handed to the Newton solver: blocks, control row as derivative of the control equation, target by induction over attempts")
def c08(rep):
    follow(rep, "C08")


@check("C09", "value-graph bisimulation of path following with the reference recurrence: record gate and recorded content")
def c09(rep):
    follow(rep, "C09")


@check("C10", "value-graph bisimulation of path following with the reference recurrence: start vector and control component of every attempt")
def c10(rep):
    follow(rep, "C10")


@check("C11", "value-graph bisimulation of path following with the reference recurrence: incremental limits at every attempt")
def c11(rep):
    follow(rep, "C11")


@check("C12", "value-graph bisimulation of path following with the reference recurrence: continuation gates of both loops")
def c12(rep):
    follow(rep, "C12")


@check("C18", "value graph of Model.run: argument terms at each path-following call; value graph of path following: where each setting reaches the Newton solver, dependence of the recurrence on every setting, swap test against the reference")
def c18(rep):
    wiring(rep)
    follow(rep, "C18")


NAMES = {"nfev": "nfev", "cycl": "cycl", "maxfac": "maxfac", "minfac": "minfac", "reduce": "reduce", "increase": "increase", "dxtol": "dxtol", "j_pre": "j_pre", "j_fixed": "j_fixed", "stepcontrol": "stepcontrol", "j": "j0"}


def wiring(rep):
    """Model.run hands every setting to the parameter of its name, in every step"""
    a0, a1, b0, b1 = (mk("sym", "user.%s" % q, k) for q, k in (("incs1", "int"), ("incs2", "int"), ("xc1", "int"), ("xc2", "int")))
    v0, v1 = (mk("sym", "user.%s" % q, "float") for q in ("xv1", "xv2"))
    t0, t1 = mk("tuple", b0, v0), mk("tuple", b1, v1)
    for tag, over, incs, xl in (("one entry for all steps", {"incs": a0, "xlimit": t0}, (a0, a0), (t0, t0)),
                                ("an entry per step", {"incs": mk("tuple", a0, a1), "xlimit": mk("tuple", t0, t1)}, (a0, a1), (t0, t1))):
        w = W.built(rep.prog, steps=2, over=over)
        W.generalise(w)
        W.run_model(w, (2, 1))
        I = w.I
        r = W.method(rep.prog, w.cls, "run")
        evs = [e for e in w.run_events if e.kind == "pathfollow"]
        if {e.data["index"] for e in evs} != {0, 1}:
            rep.und("settings: one path-following call per step", r, "%d calls" % len(evs))
            continue
        for e in evs:
            s, st, a, nd = e.data["index"], e.data["state"], e.data["args"], e.node
            t = " (step %d, %s)" % (s + 1, tag)

            def chk(what, p, want):
                got = a.get(p)
                if got is None:
                    f = W.public(rep.prog, "trusspy.solvers.pathfollow")
                    if p not in [x.arg for x in f.args.posonlyargs + f.args.args + f.args.kwonlyargs]:
                        raise W.AnchorError("pathfollow has no parameter " + p)
                    rep.bad("settings: %s is passed on%s" % (what, t), nd, "parameter %s gets its default" % p)
                    return
                rep.equal("settings: %s is passed on%s" % (what, t), value(I, st, got), want, node=nd, prep=lambda q: small(q))

            for p, f in NAMES.items():
                chk("Settings.%s" % f, p, W.setting(f))
            chk("the step's increment count", "incs", incs[s])
            chk("the step's limit", "xlimit", xl[s])
            for p in ("ftol", "xtol"):
                chk("ten to the minus Settings.%s" % p, p, tm.tpow(const(10), neg(W.setting(p))))
            chk("the incremental limits of displacements and LPF", "dxmax", mk("tuple", W.setting("du"), W.setting("dlpf")))


def small(s):
    for f in ("ftol", "xtol"):
        s.memo[W.setting(f)] = s.rnd.choice((1, 2, 3, 4, 5, 6))


def value(I, st, v):
    """list, tuple or array of known length as a tuple"""
    if v.op == "ref":
        it = I.iter_known(v, st) if not I._is_arr(st, v) else None
        if it is not None:
            return mk("tuple", *it)
        c = I.num(st, v)
        s = ar.shape(c)
        d = ar.dimval(s[0]) if s is not None and len(s) == 1 else None
        if d is not None:
            return mk("tuple", *[ar.at(c, [const(q)]) for q in range(d)])
        return c
    if v.op == "ite" and v.a[1].op == "ref":
        return ite(v.a[0], value(I, st, v.a[1]), value(I, st, v.a[2]))
    return v


def commits(rep):
    follow(rep, "C06")
