"""C07-C12, C18 and the commit discipline of C06: Newton iteration and path following.

pathfollow is analysed with an uninterpreted Newton solver and uninterpreted user functions; its value
graph (per increment i, attempt k) is compared with the one of the reference recurrences in
spec/follow.py: loop variables are matched by induction (initial values equal, next values equal assuming
the match), observables (start vector, control row, iteration limit, commit, record, continuation) must
then be the same terms.
"""
import os

from .. import arrays as ar
from .. import eq
from .. import interp as im
from .. import lib
from .. import num
from .. import terms as tm
from .. import world as W
from ..report import VERIF, index
from ..terms import FALSE, NONE, ONE, TRUE, ZERO, T, add, band, bnot, bor, cmp_bdd, const, div, ite, mk, mul, neg, sub
from . import check
from .common import callv, fn_of

n = mk("dim", "nx")  # number of free degrees of freedom
nv = add(n, ONE)
tm.NONNEG.add(n)
tm.POSITIVE.add(n)
G, DG = mk("sym", "user.g", "any"), mk("sym", "user.dgdx", "any")
V = ar.asym("V", (nv,))
X0 = ar.asym("Xstart", (n,))
DU, DL = mk("sym", "par.du", "float"), mk("sym", "par.dlpf", "float")
XC, XV = mk("sym", "par.xlimit.c", "int"), mk("sym", "par.xlimit.v", "float")

PARAMS = {"j": "int", "j_fixed": "bool", "j_pre": "bool", "incs": "int", "nfev": "int", "cycl": "int", "ftol": "float", "xtol": "float",
          "stepcontrol": "bool", "maxfac": "float", "minfac": "float", "reduce": "float", "increase": "float", "dxtol": "float", "verbose": "int"}
PAR = {k: mk("sym", "par." + k, d) for k, d in PARAMS.items()}
for k in ("maxfac", "minfac", "reduce", "dxtol", "nfev", "cycl"):
    tm.POSITIVE.add(PAR[k])
tm.POSITIVE.add(DU)
tm.POSITIVE.add(DL)

SCEN = []
for j in ("none", "int"):
    for fixed in (False, True):
        for pre in (True, False):
            for sc in (True, False):
                if fixed and (j == "none" or pre):
                    continue
                SCEN.append((j, fixed, pre, sc))


def sname(s):
    return "initial component %s, %s, %s predictor, %s step control" % ("default" if s[0] == "none" else "given", "locked" if s[1] else "free", "with" if s[2] else "no", "with" if s[3] else "no")


def settings(scen, xlimit):
    j, fixed, pre, sc = scen
    a = dict(PAR)
    a.update({"j": NONE if j == "none" else PAR["j"], "j_fixed": TRUE if fixed else FALSE, "j_pre": TRUE if pre else FALSE, "stepcontrol": TRUE if sc else FALSE})
    a["xlimit"] = mk("tuple", XC, XV) if xlimit else NONE
    return a


def nrapp(what, kd, start, row, bound):
    if kd == "arr":
        return mk("app", "nr.x", "arr", (nv,), start, row, bound)
    t = mk("app", "nr." + what, kd, start, row, bound)
    return tm.mkbool(tm.batom(mk("truthy", t))) if kd == "bool" else t


def canon(c):
    """array content by its elements"""
    s = ar.shape(c)
    return ar.lam(c) if s is not None else c


class Obs:
    """observables of one run"""

    def __init__(self, I):
        self.I = I
        self.att = []  # attempt: event data dicts
        self.pre = []
        self.commit = []
        self.record = []


class Impl:
    def __init__(self, rep, scen, xlimit=True, verbose=None, dxmax=None):
        self.prog = rep.prog
        I = self.I = im.Interp(rep.prog)
        st = im.State()
        self.f = W.public(rep.prog, "trusspy.solvers.pathfollow")
        self.newton = W.public(rep.prog, "trusspy.solvers.newton")
        na = self.newton.args
        self.np_ = [a.arg for a in na.posonlyargs + na.args + na.kwonlyargs]
        self.nva = na.vararg.arg if na.vararg else None
        for q in ("f", "dfdx", "x", "nfev", "ftol", "xtol"):
            if q not in self.np_:
                raise W.AnchorError("newton has no parameter " + q)
        cls = W.public(rep.prog, "trusspy.core.Analysis")
        self.A = I.new_inst(st, cls._tid)
        init = W.method(rep.prog, cls, "__init__")
        v, st = I.run(init, {init.args.args[0].arg: self.A}, st)
        for name in ("U", "U0", "r", "g", "stretch", "element_force", "element_stress"):
            st.s[(self.A.a[0], ".", name)] = I.new_array(st, ar.asym("A." + name, (mk("dim", "A." + name), const(3))))
        st.s[(self.A.a[0], ".", "state_v")] = I.new_array(st, ar.asym("A.state_v", (W.ne, const(2))))
        self.F0 = ar.asym("A.f0red", (n, ONE))
        st.s[(self.A.a[0], ".", "f0red")] = I.new_array(st, self.F0)
        st.s[(self.A.a[0], ".", "Ured")] = I.new_array(st, ar.asym("A.Ured", (n,)))
        st.s[(self.A.a[0], ".", "Vred")] = I.new_array(st, ar.asym("A.Vred", (nv,)))
        st.s[(self.A.a[0], ".", "lpf")] = mk("sym", "A.lpf", "float")
        self.x = I.new_array(st, X0)
        I.opaque = self.opaque
        I.contracts[self.newton._tid] = self.nr
        ev0 = I.ev

        def ev(kind, st, node, **data):
            if kind == "store" and data.get("field") == "l" and I.loopstack and not I.muted:
                data["state"] = st.copy()
            return ev0(kind, st, node, **data)

        I.ev = ev
        args = {"g": G, "dgdx": DG, "x": self.x, "analysis": self.A}
        args.update(settings(scen, xlimit))
        args["dxmax"] = I.new_list(st, [im.e_(DU), im.e_(DL)]) if dxmax is None else dxmax(I, st)
        if verbose is not None:
            args["verbose"] = verbose
        params = [a.arg for a in self.f.args.posonlyargs + self.f.args.args + self.f.args.kwonlyargs]
        miss = [p for p in list(args) if p not in params]
        if miss:
            raise W.AnchorError("pathfollow has no parameter " + ", ".join(miss))
        self.args = args
        self.unpack = []
        self.v, self.st = I.run(self.f, args, st)
        self.collect()

    # the user's functions
    def opaque(self, I, fv, args, kw, st, n_):
        if fv is G or fv is DG:
            names = ("Ured", "U0red", "stage", "analysis", "statev_write") if fv is G else ("Ured", "analysis")
            b = dict(zip(names, args))
            b.update(kw)
            if "Ured" not in b:
                return None
            I.ev("user", st, n_, fn=fv.a[0], args=b, state=st.copy())
            sh = (n,) if fv is G else (n, n)
            return I.new_array(st, mk("app", fv.a[0], "arr", sh, canon(I.num(st, b["Ured"]))))
        return None

    def system(self, I, st, b, n_, at=V):
        """residual and matrix the Newton solver is given, at the vector V"""
        extra = b.get(self.nva)
        extra = list(extra.a) if extra is not None and extra.op == "tuple" else []
        out = []
        I.muted += 1
        try:
            for q in ("f", "dfdx"):
                s = st.copy()
                r = callv(I, s, b[q], [I.new_array(s, at)] + extra, {}, n_)
                out.append(I.num(s, r))
        finally:
            I.muted -= 1
        return out

    def nr(self, I, st, b, n_):
        """an arbitrary Newton solver: a function of start, control row and iteration limit"""
        b = dict(b)
        r, K = self.system(I, st, b, n_)
        s = ar.shape(r)
        row = ar.at(r, [n]) if s is not None and len(s) == 1 else im.unk("row", r)
        start = canon(I.num(st, b["x"]))
        I.ev("newton", st, n_, args=b, start=start, row=row, residual=r, K=K, bound=b["nfev"], ftol=b["ftol"], xtol=b["xtol"], state=st.copy())
        k = (start, row, b["nfev"])
        x = I.new_array(st, nrapp("x", "arr", *k))
        return mk("tuple", x, nrapp("ok", "bool", *k), nrapp("n", "int", *k), nrapp("f", "float", *k), nrapp("d", "float", *k))

    def collect(self):
        I, st = self.I, self.st
        ev = I.events
        self.att = [e for e in ev if e.kind == "newton" and len(e.loops) == 2]
        self.pre = [e for e in ev if e.kind == "newton" and len(e.loops) == 1]
        self.odd = [e for e in ev if e.kind == "newton" and len(e.loops) not in (1, 2)]
        self.user = [e for e in ev if e.kind == "user"]
        self.commit = [e for e in self.user if e.data["args"].get("statev_write", FALSE) is not FALSE]
        self.lids = None
        if len(self.att) >= 1:
            l = {tuple(x[0] for x in e.loops) for e in self.att}
            if len(l) == 1:
                self.lids = list(l.pop())
                self.ctr = [x[1] for x in self.att[0].loops]
        # returned values
        self.resx = self.resa = None
        v = self.v
        if v is not None and v.op == "tuple" and len(v.a) == 2:
            self.resx, self.resa = v.a
        self.record = []
        self.xrecord = []
        if self.resa is not None and self.resa.op == "ref":
            for e in ev:
                if e.kind == "store" and e.data.get("field") == "l" and e.data.get("loc") == self.resa.a[0] and e.loops:
                    self.record.append(e)

    def recorded(self, e, name):
        """field of the analysis object appended by the event"""
        r = e.data.get("val")
        if r is None or r.op != "ref":
            return None
        return W.fld(self.I, self.st, r, name)


class Spec:
    def __init__(self, rep, scen, xlimit=True, full=False, lim=None):
        rep.prog.add_source("reference.follow", os.path.join(VERIF, "tpsa", "spec", "follow.py"))
        f = W.public(rep.prog, "reference.follow.follow")
        I = self.I = im.Interp(rep.prog)
        st = im.State()
        I.opaque = self.opaque
        self.S = {k: mk("sym", "ref." + k, "any") for k in ("ATTEMPT", "COMMIT", "RECORD")}
        b = dict(self.S)
        b.update(settings(scen, xlimit))
        for q in ("ftol", "xtol", "verbose"):
            b.pop(q)
        b.update({"x": I.new_array(st, X0), "du": DU, "dlpf": DL, "full_bound": TRUE if full else FALSE, "lim_given": NONE if lim is None else I.new_array(st, lim)})
        self.v, self.st = I.run(f, b, st)
        ev = I.events
        self.att = [e for e in ev if e.kind == "ATTEMPT" and len(e.loops) == 2]
        self.pre = [e for e in ev if e.kind == "ATTEMPT" and len(e.loops) == 1]
        self.commit = [e for e in ev if e.kind == "COMMIT"]
        self.record = [e for e in ev if e.kind == "RECORD"]
        self.lids = [x[0] for x in self.att[0].loops]
        self.ctr = [x[1] for x in self.att[0].loops]

    def opaque(self, I, fv, args, kw, st, n_):
        for k, s in self.S.items():
            if fv is s:
                if k == "ATTEMPT":
                    prev, start, J, lim, bound = args
                    p, l = I.num(st, prev), I.num(st, lim)
                    m = sub(tm.tabs(J), ONE)
                    row = sub(ar.at(V, [m]), add(ar.at(p, [m]), mul(ar.at(l, [m]), tm.tsign(J))))
                    key = (canon(I.num(st, start)), row, bound)
                    I.ev(k, st, n_, start=key[0], row=row, bound=bound, J=J, prev=p, lim=l, state=st.copy())
                    return mk("tuple", I.new_array(st, nrapp("x", "arr", *key)), nrapp("ok", "bool", *key), nrapp("n", "int", *key))
                I.ev(k, st, n_, x=I.num(st, args[0]), state=st.copy())
                return NONE
        return None


# ------------------------------------------------------------------ matching
def mu_parts(I, t):
    """(value before the loop, value after an iteration) of a loop variable"""
    lid, key = t.a[0], t.a[1]
    info = I.loopinfo.get(lid)
    if info is None:
        return None
    path = []
    k0 = key
    while k0 not in info.mod and isinstance(k0, tuple) and len(k0) == 2 and k0[1] in ("T", "F"):
        path.append(k0[1])
        k0 = k0[0]
    sp = info.mod.get(k0)
    v, v0 = info.back.s.get(k0), info.st0.s.get(k0)
    if sp is None or v is None or v0 is None:
        return None
    for side in reversed(path):
        g = sp["gate"] if side == "T" else bnot(sp["gate"])
        v, v0 = tm.restrict(v, g), tm.restrict(v0, g)
        sp = sp["t" if side == "T" else "f"]
    if sp["kind"] == "refarr":
        v, v0 = I.num(info.back, v), I.num(info.st0, v0)
    elif sp["kind"] not in ("arrc", "int", "float", "bool", "num", "any"):
        return None
    return v0, v, info


def mus_of(t, lid):
    return {x for x in tm.walk(t) if x.op == "mu" and x.a[0] == lid}


def base(x):
    """identity of a loop variable"""
    return (x.a[0], x.a[1])


def leaves(g):
    """the terms compared in a condition"""
    for a in tm.bsupport(g):
        if a.op in ("le", "lt0", "eq0"):
            if a.a[0].op == "poly":
                yield from tm.subterms(a.a[0])
            else:
                yield a.a[0]


def quantify(b, keep):
    """weaken a condition: forget the atoms not kept"""
    memo = {}

    def go(b):
        if b < 2:
            return b
        r = memo.get(b)
        if r is None:
            a, lo, hi = tm.bnode(b)
            lo, hi = go(lo), go(hi)
            r = memo[b] = tm.bite(tm.batom(a), hi, lo) if keep(a) else bor(lo, hi)
        return r

    return go(b)


class Match:
    def __init__(self, rep, A, B, domain):
        self.rep, self.A, self.B = rep, A, B
        self.domain = domain
        self.sigma = {}
        self.obs = []
        self.why = []

    def ren(self, t):
        """a term of the analysed program in the names of the reference"""
        isb = isinstance(t, int)
        if isb:
            t = tm.mkbool(t)
        m = {}
        rd = self.renames
        sub0 = {p: q for p, q in rd.items()}
        t = tm.subst(t, sub0)
        for _ in range(4):
            d = {}
            for x in tm.walk(t):
                if x.op == "mu" and base(x) in self.sigma:
                    lid, key, kd = self.sigma[base(x)]
                    d[x] = mk("mu", lid, key, kd, *x.a[3:])
            if not d:
                break
            t = tm.subst(t, d)
        return tm.asbdd_or(t) if isb else t

    def setup(self):
        A, B = self.A, self.B
        self.renames = {}
        for p, q in zip(A.ctr, B.ctr):
            self.renames[p] = q
        lo, li = A.lids
        so, si = B.lids
        self.renames[mk("last", li, A.ctr[0])] = mk("last", si, B.ctr[0])
        self.renames[mk("last", li, B.ctr[0])] = mk("last", si, B.ctr[0])
        self.renames[mk("last", lo)] = mk("last", so)
        self.renames[A.ctr[1]] = B.ctr[1]
        c1 = mk("ctr", li, B.ctr[0])
        self.renames[c1] = B.ctr[1]

    def prove(self, a, b, pc=1, limit=20.0):
        a, b = tm.deep(a, self.pcb), tm.deep(b, self.pcb)
        pc = tm.deep(pc, self.pcb)
        if isinstance(a, int):
            a, b, pc = facts(a, b, pc)
            try:
                return band(a, pc) == band(b, pc) or eq.equal_bdd(band(a, pc), band(b, pc), 1, eq.Prover(limit)) is True
            except eq.Budget:
                return False
        if a is b:
            return True
        ka, kb = tm.kind(a), tm.kind(b)
        if a.op == "bool" or b.op == "bool":
            x, y = tm.asbdd(a), tm.asbdd(b)
            return x is not None and y is not None and self.prove(x, y, pc, limit)
        sa, sb = shp(a), shp(b)
        if sa or sb:
            if sa is None or sb is None or len(sa) != len(sb):
                return False
            if any(not self.prove(p, q, pc) for p, q in zip(sa, sb)):
                return False
            ix = [index("m%d" % k, d) for k, d in enumerate(sa)]
            for i, d in zip(ix, sa):
                pc = band(pc, cmp_bdd("<", i, d))
            return self.prove(elem(a, ix), elem(b, ix), pc, limit)
        if sa is None or sb is None:
            return False
        try:
            a, b, pc = facts(a, b, pc)
            return self.gated(a, b, pc, eq.Prover(limit))
        except eq.Budget:
            return False

    def gated(self, a, b, pc, pr):
        """equality by cases on the gates as a whole, then by normal form"""
        pr.tick()
        if pc == 0:
            return True
        a, b = tm.restrict(a, pc), tm.restrict(b, pc)
        if a is b:
            return True
        for x in (a, b):
            g = x if x.op == "ite" else next((y for m, c in tm.to_poly(x).items() for y, e in m if y.op == "ite"), None) if x.op == "poly" else None
            if g is not None:
                return self.gated(a, b, band(pc, g.a[0]), pr) and self.gated(a, b, band(pc, bnot(g.a[0])), pr)
        d = sub(a, b)
        if d is ZERO or eq.is_zero(d, 1, pr) is True:
            return True
        return eq.is_zero(d, pc, pr) is True

    # -- facts about the loop variables of one program, by induction
    def invariants(self, P, ts, sig):
        lv = set(P.lids)
        cand = []
        for t in ts:
            if t.op == "mu" and t.a[0] in lv and t.a[2] in ("int", "num", "float"):
                p = mu_parts(P.I, t)
                vs = [x[0] for x in sig.get(t, ()) if x is not None]
                if p is not None and vs:
                    if all(x != 0 for x in vs):
                        cand.append(("!=", t, p))
                    if all(x >= 0 for x in vs):
                        cand.append((">=", t, p))
                    if t.a[2] in ("int", "num") and all(abs(x[0]) <= w for x, w in zip(sig[t], sig[nv]) if x is not None):
                        cand.append(("in", t, p))
        def fact(c, t):
            if c == "in":
                return inrange(t)
            return bnot(cmp_bdd("==", t, ZERO)) if c == "!=" else cmp_bdd(">=", t, ZERO)
        def pcs():
            r = self.domain
            for c, t, p in cand:
                r = band(r, fact(c, t))
            return r
        for rnd in range(6):
            drop = []
            pc = pcs()
            for x in cand:
                c, t, (v0, v, info) = x
                i0 = pc if t.a[0] == P.lids[1] else self.domain
                if not self.always(i0, lambda t: fact(c, t), v0) or not self.always(band(pc, info.care), lambda t: fact(c, t), v):
                    drop.append(x)
            if not drop:
                break
            cand = [x for x in cand if x not in drop]
        else:
            cand = []
        pc = pcs()
        # the same facts at the end of the inner loop
        info = P.I.loopinfo[P.lids[1]]
        pc = band(pc, tm.bsubst(pc, {info.k: mk("last", P.lids[1], *info.octr)}))
        return cand, pc

    def always(self, pc, fact, v):
        """every value v can have satisfies the fact"""
        work, seen = [(pc, v)], {}
        while work:
            g, x = work.pop()
            if g == 0:
                continue
            if x.op == "ite":
                work += [(band(g, x.a[0]), x.a[1]), (band(g, bnot(x.a[0])), x.a[2])]
                continue
            y = next((y for m, c in tm.to_poly(x).items() for y, e in m if y.op == "ite"), None) if x.op == "poly" else None
            if y is not None:
                work += [(band(g, y.a[0]), tm.restrict(x, y.a[0])), (band(g, bnot(y.a[0])), tm.restrict(x, bnot(y.a[0])))]
                continue
            seen[x] = bor(seen.get(x, 0), g)
            if len(seen) > 40:
                return False
        return all(self.implies(g, fact(x), 1.5) for x, g in seen.items())

    def implies(self, pc, g, limit=1.5):
        """pc -> g, with the comparison of largest relative changes different from zero"""
        bad = band(pc, bnot(g))
        if bad == 0:
            return True
        t = tm.mkbool(bad)
        bad = band(bad, nonzero(t))
        # first without the conditions that have nothing in common with the fact
        lv = set(leaves(g))
        few = quantify(bad, lambda a: a.op in ("le", "lt0", "eq0") and any(x in lv for x in tm.subterms(a.a[0]) if isinstance(x, T)) or a.op in ("le", "lt0", "eq0") and a.a[0] in lv)
        if few != bad:
            try:
                if few == 0 or eq.equal_bdd(few, 0, 1, eq.Prover(limit)) is True:
                    return True
            except eq.Budget:
                pass
        try:
            return bad == 0 or eq.equal_bdd(bad, 0, 1, eq.Prover(limit)) is True
        except eq.Budget:
            return False

    def needed(self, P, ts):
        lv = set(P.lids)
        out = {}
        work = list(ts)
        seen = set()
        while work:
            t = work.pop()
            t = tm.mkbool(t) if isinstance(t, int) else t
            if t in seen:
                continue
            seen.add(t)
            for x in tm.walk(t):
                if x.op == "mu" and x.a[0] in lv and base(x) not in out:
                    I = P.I
                    info = I.loopinfo[x.a[0]]
                    h = mk("mu", x.a[0], x.a[1], x.a[2], info.k, *info.octr)
                    p = mu_parts(I, h)
                    out[base(x)] = (h, p)
                    if p is not None:
                        work += [self.rs(p[0], self.pca), self.rs(p[1], band(self.pca, info.care) or 1)]
        return out

    def refvars(self):
        B = self.B
        refs = {}
        for l in B.lids:
            info = B.I.loopinfo[l]
            for key, sp in info.mod.items():
                for kk, kd in flatten(key, sp):
                    t = mk("mu", l, kk, kd, info.k, *info.octr)
                    q = mu_parts(B.I, t)
                    if q is not None:
                        refs[t] = q
        return refs

    def run(self, observables):
        """find the correspondence of loop variables needed by the observables: [(impl term, ref term, pc)]"""
        A, B = self.A, self.B
        self.setup()
        level = dict(zip(A.lids, B.lids))
        self.pca = self.pcb = self.domain
        obs = [x for x, y, pc in observables]
        nd = self.needed(A, obs)
        self.pcb = self.domain
        refs = self.refvars()
        sa, sb = self.signatures([h for h, p in nd.values()], list(refs))
        inv, self.pca = self.invariants(A, [h for h, p in nd.values()], sa)
        obs = [self.rs(x, self.pca) for x in obs]
        need = self.needed(A, obs)
        iv, self.pcb = self.invariants(B, list(refs), sb)
        cands = {}
        for b, (h, p) in need.items():
            cands[b] = [((t.a[0], t.a[1], t.a[2]), q) for t, q in refs.items() if p is not None and t.a[0] == level[b[0]] and compatible(sa.get(h, ()), sb[t])]
        self.cands = cands
        self.sigma = {b: cs[0][0] for b, cs in cands.items() if cs}
        cur = {b: 0 for b in cands}
        order = sorted(need, key=lambda b: (A.lids.index(b[0]), str(b[1])))
        for rnd in range(40):
            bad = None
            for b in order:
                h, p = need[b]
                if p is None or b not in self.sigma:
                    continue
                if not self.inductive(p, cands[b][cur[b]][1]):
                    bad = b
                    cur[b] += 1
                    if cur[b] < len(cands[b]):
                        self.sigma[b] = cands[b][cur[b]][0]
                    else:
                        del self.sigma[b]
                    break
            if bad is None:
                break
        self.unmatched = [b for b in need if b not in self.sigma]
        return not self.unmatched

    def rs(self, t, pc):
        if pc < 2:
            return t
        t = tm.deep(t, self.pca)
        if isinstance(t, int):
            return tm.brestrict(t, pc)
        return tm.restrict(t, pc)

    def observe(self, x):
        """an observable of the analysed program in the names of the reference"""
        return tm.deep(self.ren(self.rs(x, self.pca)), self.pcb)

    def same(self, x, y, pc=1):
        return self.prove(self.observe(x), y, pc)

    def signatures(self, ta, tb, N=16):
        """values of loop variables in reachable states: a guess, confirmed by induction afterwards"""
        sa, sb = {t: [] for t in ta}, {t: [] for t in tb}
        sa[nv], sb[nv] = [], []
        prep = sampler(self.A, self.B)
        good = 0
        for k in range(12 * N):
            s = num.Sample("sig/%d" % k)
            try:
                if prep(s) is False:
                    continue
            except num.Unknown:
                continue
            good += 1
            sa[nv].append(s.dim(n) + 1)
            sb[nv].append(s.dim(n) + 1)
            for ts, sg in ((ta, sa), (tb, sb)):
                for t in ts:
                    try:
                        sg[t].append(list(s.array(t).reshape(-1)) if t.a[2] == "arr" else [s.ev(t)])
                    except (num.Unknown, num.Reject, OverflowError, ZeroDivisionError):
                        sg[t].append(None)
            if good >= N:
                break
        return sa, sb

    def inductive(self, p, q):
        (v0, v, info), (w0, w, inf2) = p, q
        v0 = self.rs(v0, self.pca)
        v = self.rs(v, band(self.pca, info.care))
        if not self.prove(self.ren(v0), w0, self.pcb):
            return False
        pc = band(inf2.care, self.pcb)
        return self.prove(self.ren(v), w, pc)


def shp(t):
    return t.a[0] if t.op == "lam" else ar.shape(t)


def facts(a, b, pc):
    """simplify with the domain facts (the facts are restated for the simplified terms)"""
    for k in range(4):
        old = (a, b, pc)
        nz = nonzero(mk("tuple", *[tm.mkbool(x) if isinstance(x, int) else x for x in old]))
        a, b, pc = tm.deep(a, nz), tm.deep(b, nz), band(tm.deep(pc, nz), nz)
        if (a, b, pc) == old:
            break
    return a, b, pc


def inrange(t):
    """|t| <= n + 1"""
    if t.op == "ite":
        return bor(band(t.a[0], inrange(t.a[1])), band(bnot(t.a[0]), inrange(t.a[2])))
    f = tm._common_sign(tm.to_poly(t))
    if f is not None:
        t = f[2]
    P = tm.to_poly(t)
    if all(c <= 0 for c in P.values()):
        t = neg(t)
        P = tm.to_poly(t)
    if all(c >= 0 and all(tm._nonneg_int(a) for a, e in m) for m, c in P.items()):
        return cmp_bdd("<=", t, nv)
    return cmp_bdd("<=", tm.tabs(t), nv)


def elem(a, ix):
    if a.op == "lam":
        return tm.subst(a.a[2], dict(zip(a.a[1], ix)))
    return ar.at(a, ix)


def compatible(a, b):
    n_ = 0
    for x, y in zip(a, b):
        if x is None or y is None:
            continue
        if len(x) != len(y) or any(not num.close(p, q, 1e-6) for p, q in zip(x, y)):
            return False
        n_ += 1
    return n_ > 0


def nonzero(t):
    """domain: the largest relative change is not exactly zero; range of positions of maxima"""
    pc = 1
    for x in tm.walk(t):
        if x.op == "sign" and any(y.op == "argmaxv" for y in tm.walk(x)):
            pc = band(pc, bnot(cmp_bdd("==", x.a[0], ZERO)))
            pc = band(pc, bnot(cmp_bdd("==", x, ZERO)))
        elif x.op == "argmaxv":
            d = x.a[0].a[0] if x.a[0].op == "lam" else ar.shape(x.a[0])
            if d and len(d) == 1:
                pc = band(pc, cmp_bdd("<", x, d[0]))
    return pc


def flatten(key, sp):
    if sp["kind"] == "ite":
        for side, tag in ((sp["t"], "T"), (sp["f"], "F")):
            if side is not None:
                yield from flatten((key, tag), side)
    else:
        kd = {"arrc": "arr", "refarr": "arr"}.get(sp["kind"], sp["kind"])
        yield key, kd


# ------------------------------------------------------------------ obligations
def values(s):
    """settings and answers of the Newton solver in a sample"""
    r, nn, m = s.rnd, s.dim(n), s.memo
    m[DU], m[DL] = r.choice((0.5, 1.0, 2.0)), r.choice((0.5, 1.0, 2.0))
    mode = r.random()
    m[PAR["dxtol"]] = r.choice((1.25, 1.0, 3.0, 50.0) if mode < 0.6 else (1.25, 50.0))
    m[PAR["maxfac"]] = r.choice((1.0, 1.5, 10.0, 4.0))
    m[PAR["minfac"]] = r.choice((1e-6, 0.1, 0.02, 1.0))
    m[PAR["reduce"]] = r.choice((8.0, 2.0, 4.0))
    m[PAR["increase"]] = r.choice((0.5, 1.0, 2.0))
    m[PAR["nfev"]] = r.choice((1, 2, 4, 8))
    m[PAR["cycl"]] = r.choice((1, 2, 3, 4))
    m[PAR["incs"]] = r.choice((1, 2, 3, 4, 5))
    m[PAR["j"]] = r.choice((1, -1)) * r.randrange(1, nn + 2)
    m[PAR["verbose"]] = 0
    m[XC] = r.randrange(1, nn + 2)
    m[XV] = r.choice((0.5, 1.0, 2.0, 100.0))
    s.choice["nr.n"] = (1, 2, 3, 1, 2, 4)
    s.choice["nr.ok"] = r.choice(((True, False), (True, True, True, False), (True,), (True, False, False)))
    if r.random() < 0.6:
        # long histories: most attempts are accepted, one component dominates
        m[PAR["dxtol"]] = r.choice((50.0, 500.0))
        m[PAR["incs"]] = r.choice((6, 8, 10))
        m[PAR["cycl"]] = r.choice((2, 3, 4, 5, 8))
        m[PAR["nfev"]] = r.choice((4, 8))
        m[PAR["maxfac"]] = r.choice((1.0, 1.5, 2.0, 4.0))
        m[PAR["minfac"]] = r.choice((1e-6, 0.2, 0.5, 0.8, 1.0))
        m[PAR["reduce"]] = r.choice((8.0, 2.0, 4.0))
        m[XV] = r.choice((2.0, 100.0, 100.0, 1000.0))
        s.choice["nr.n"] = (1, 2, 3)
        s.choice["nr.ok"] = r.choice(((True, True, True, True, True, False), (True, True, True, False), (True, False)))
        s.scale["nr.x", r.randrange(0, nn + 1)] = r.choice((1, 10, 40))


def sampler(A, B):
    """domain of a sample: reachable increment i and attempt k"""

    def prep(s):
        values(s)
        r, m = s.rnd, s.memo
        ko, ki = r.choice((0, 0, 1, 1, 2, 3)), r.choice((0, 0, 0, 1, 1, 2, 3))
        m[PAR["incs"]] = max(m[PAR["incs"]], ko + r.choice((1, 1, 2)))
        try:
            for P in (A, B):
                if P is None:
                    continue
                io, ii = (P.I.loopinfo[l] for l in P.lids)
                m[P.ctr[0]], m[P.ctr[1]] = ko, ki
                for c in range(ko):
                    if not s.reaches(io, {}, c):
                        return False
                for c in range(ki):
                    if not s.reaches(ii, {p: const(ko) for p in ii.octr}, c):
                        return False
        except num.Reject:
            return False
        return True

    return prep
