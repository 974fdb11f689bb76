"""Scenarios shared by the checks: a model in the middle of a run, summaries of the material laws."""
from .. import arrays as ar
from .. import interp as im
from .. import terms as tm
from .. import world as W
from ..report import index
from ..terms import FALSE, NONE, ONE, TRUE, ZERO, add, band, bnot, bor, cmp_bdd, const, div, ite, mk, mul, neg, sub

V_ = ar.asym("V", (add(W.n1, ONE),))
V0_ = ar.asym("V0", (add(W.n1, ONE),))
U_ = ar.asym("Ured", (W.n1,))
U0_ = ar.asym("U0red", (W.n1,))


def callv(I, st, fv, args, kw=None, node=None):
    """call a callable value of the analysed program"""
    node = node or I.prog.public("trusspy.Model")[1]
    I.fstack.append(im.FnCtx(im.Frame("root", node._mod, None)))
    I.nrun += 1
    I.path.append(("run", I.nrun))
    try:
        v = I.call(fv, list(args), dict(kw or {}), st, node)
        d = fn_of(I.prog, fv)
        if d is not None and not I.muted:
            I.results.append((d._tid, v))
            I.finals.append(st)
        return v
    finally:
        I.path.pop()
        I.fstack.pop()


def fn_of(prog, fv):
    """definition a callable value refers to (for locations)"""
    while fv is not None and fv.op in ("bound", "partial"):
        fv = fv.a[0]
    if fv is not None and fv.op in ("func", "clo"):
        return prog.nodes[fv.a[0]]
    return None


# ------------------------------------------------------------------ material laws as opaque functions
LAWS = (("umat_el", "u1", 1, (0,)), ("umat_elplast_iso", "u2", 2, (0, 1, 2)))


class Laws:
    def __init__(self, I, prog):
        self.nodes = {}
        self.effects = {}
        for nm, tag, ty, par in LAWS:
            f = W.public(prog, "trusspy.materials." + nm)
            self.nodes[tag] = f
            self.effects[tag] = self.effect(prog, f)
            I.contracts[f._tid] = self.contract(f, tag, par)

    def effect(self, prog, f):
        """does the law write the given state array / return the given one?"""
        I = im.Interp(prog)
        st = im.State()
        s = [mk("sym", "law.%d" % k, "float") for k in range(7)]
        mp = I.new_array(st, mk("npa", mk("tuple", *s[:3]), "dyn"))
        q = (s[3], s[4])
        sv = I.new_array(st, mk("npa", mk("tuple", *q), "dyn"))
        b = dict(zip([a.arg for a in f.args.args], [s[5], s[6], mp, sv]))
        v, st2 = I.run(f, b, st)
        now = I.content(st2, sv)
        writes = any(ar.at(now, [const(k)]) is not q[k] for k in (0, 1))
        ret = v.a[3] if v.op == "tuple" and len(v.a) == 4 else None
        same = ret is sv
        return writes, same

    def contract(self, f, tag, par):
        names = [a.arg for a in f.args.args]

        def h(I, st, b, n):
            if len(names) != 4:
                return None
            e, de, mp, sv = (b.get(x) for x in names)
            if None in (e, de, mp, sv):
                return None
            I.ev("umat", st, n, law=tag, args=(e, de, mp, sv))
            pc_ = I.num(st, mp)
            base = [e] + [ar.at(pc_, (const(i),)) for i in par]

            def go(st, sv):
                if sv.op == "ite":
                    return I.split(st, sv.a[0], lambda s: go(s, sv.a[1]), lambda s: go(s, sv.a[2]))
                key = list(base)
                s = sv
                if tag == "u2":
                    q = I.num(st, sv)
                    key += [ar.at(q, (const(i),)) for i in range(2)]
                    q1 = mk("app", tag + ".q", "arr", (const(2),), *key)
                    writes, same = self.effects[tag]
                    if writes and sv.op == "ref":
                        I.store_array(st, sv, (ar.FULL,), q1, n)
                    s = sv if same else I.new_array(st, q1)
                return mk("tuple", mk("app", tag + ".s", "float", *key), mk("app", tag + ".d", "float", *key), ZERO, s)

            r = go(st, sv)
            if r.op == "ite":
                pick = lambda t, i: ite(t.a[0], pick(t.a[1], i), pick(t.a[2], i)) if t.op == "ite" else t.a[i]
                r = mk("tuple", *[pick(r, i) for i in range(4)])
            return r

        return h


# ------------------------------------------------------------------ a model in the middle of a run
class Mid:
    """state at the call of the path-following solver in the last of `steps` steps"""

    def __init__(self, rep, steps=2, counts=(2, 1), laws=True, log=None):
        self.prog = rep.prog
        self.steps = steps
        self.counts = counts
        w = self.w = W.built(rep.prog, steps=steps, log=log)
        W.generalise(w)
        I = self.I = w.I
        W.run_model(w, counts)
        evs = [e for e in w.run_events if e.kind == "pathfollow"]
        if not evs:
            raise W.AnchorError("Model.run does not call pathfollow")
        self.ev = evs[-1]
        pf = W.public(rep.prog, "trusspy.solvers.pathfollow")
        self.params = [a.arg for a in pf.args.args]
        a = self.ev.data["args"]
        self.g, self.dgdx, self.x, self.A = (a[p] for p in self.params[:4])
        self.st = self.ev.data["state"]
        self.F = ar.asym("F", (W.nn, const(3 * steps)))
        if laws:
            self.laws = Laws(I, rep.prog)
        self.gfn, self.kfn = fn_of(rep.prog, self.g), fn_of(rep.prog, self.dgdx)
        # what the solver may have left in the analysis object is arbitrary
        self.U0 = {}
        self.old = {}
        st = self.st = self.st.copy()
        st.pc = 1
        for name, (kd, shp) in W.ANALYSIS.items():
            v = I.get_field(st, self.A.a[0], name)
            if v is None or v is tm.UNBOUND:
                continue
            for loc in W.array_loc(I, st, v):
                st.s[(loc, "a")] = ar.asym("was." + name, shp)
        st.s[(self.A.a[0], ".", "lpf")] = mk("sym", "was.lpf", "float")

    def evaluate(self, ext=True, commit=FALSE, st=None, analysis=True):
        """residual evaluation the way the solver calls it"""
        I = self.I
        st = (st or self.st).copy()
        n = len(I.events)
        u = len(I.unmodelled)
        a, b = (V_, V0_) if ext else (U_, U0_)
        ra, rb = I.new_array(st, a), I.new_array(st, b)
        kw = {"statev_write": commit}
        if analysis:
            kw["analysis"] = self.A
        v = callv(I, st, self.g, [ra, rb], kw, self.gfn)
        r = Out(I, st, v, I.events[n:], I.unmodelled[u:])
        r.args = (ra, rb)
        r.V = a
        r.lpf = ar.at(V_, [W.n1]) if ext else mk("sym", "was.lpf", "float")
        return r

    def stiffness(self, st=None):
        I = self.I
        st = (st or self.st).copy()
        n = len(I.events)
        u = len(I.unmodelled)
        ra = I.new_array(st, U_)
        v = callv(I, st, self.dgdx, [ra], {"analysis": self.A}, self.kfn)
        r = Out(I, st, v, I.events[n:], I.unmodelled[u:])
        r.V = U_
        r.args = (ra,)
        return r

    # ---------------------------------------------------------------- reference formulas
    def fld(self, o, name):
        return self.I.num(o.st, W.fld(self.I, o.st, self.A, name))

    def U(self, o, i, c):
        """displacement of node i in direction c after placing the free DOF"""
        d = add(mul(const(3), i), c)
        return ite(tm.batom(mk("inset", W.DOF1, d)), ar.at(o.V, [mk("pos", W.DOF1, d)]), ar.el(ar.asym("was.U", (W.nn, const(3))), i, c))

    def free(self, i, c):
        return tm.batom(mk("inset", W.DOF1, add(mul(const(3), i), const(c))))

    def types(self, k):
        """domain: element k has a supported material type"""
        t = ar.at(W.MTYPE, [k])
        return bor(cmp_bdd("==", t, ONE), cmp_bdd("==", t, const(2)))

    def node(self, k, e):
        return mk("pos", W.LABN, ar.at(W.CONNS, [k, const(e)]))

    def geom(self, o, k):
        """undeformed length, deformed length, direction"""
        a, b = self.node(k, 0), self.node(k, 1)
        dX = [sub(ar.at(W.COORDS, [b, const(c)]), ar.at(W.COORDS, [a, const(c)])) for c in range(3)]
        dx = [add(dX[c], sub(self.U(o, b, const(c)), self.U(o, a, const(c)))) for c in range(3)]
        L = tm.sqrt(add(*[mul(x, x) for x in dX]))
        l = tm.sqrt(add(*[mul(x, x) for x in dx]))
        return L, l, [div(x, l) for x in dx]

    def law(self, o, k, what):
        """own law of element k at its strain"""
        L, l, n = self.geom(o, k)
        e = sub(div(l, L), ONE)
        p = [ar.at(W.MPROP, [k, const(i)]) for i in range(3)]
        t = ar.at(W.MTYPE, [k])
        s = ar.asym("was.state_v", (W.ne, const(2)))
        u1 = mk("app", "u1." + what, "float", e, p[0])
        u2 = mk("app", "u2." + what, "float", e, *p, ar.at(s, [k, ZERO]), ar.at(s, [k, ONE]))
        is1, is2 = cmp_bdd("==", t, ONE), cmp_bdd("==", t, const(2))
        return tm.restrict(ite(is1, u1, u2), bor(is1, is2))

    def N(self, o, k):
        return mul(self.law(o, k, "s"), ar.at(W.GPROP, [k, ZERO]))

    def force(self, o, i, c):
        """internal force on node i in direction c: sum over all elements"""
        return ar.contract(W.ne, lambda k: self.elforce(o, k, i, c))

    def elforce(self, o, k, i, c):
        L, l, n = self.geom(o, k)
        f = mul(self.N(o, k), n[c])
        return add(ite(cmp_bdd("==", i, self.node(k, 1)), f, ZERO), ite(cmp_bdd("==", i, self.node(k, 0)), neg(f), ZERO))

    def block(self, o, k, c, d):
        """stiffness of element k: derivative of the force at its second node (c) for that node's displacement (d)"""
        L, l, n = self.geom(o, k)
        nnT = mul(n[c], n[d])
        mat = mul(div(mul(self.law(o, k, "d"), ar.at(W.GPROP, [k, ZERO])), L), nnT)
        geo = mul(div(self.N(o, k), l), sub(ONE if c == d else ZERO, nnT))
        return add(mat, geo)

    def stiff(self, o, i, c, j, d):
        """global stiffness between direction c of node i and direction d of node j"""

        def f(k):
            B = self.block(o, k, c, d)
            a, b = self.node(k, 0), self.node(k, 1)
            t = ZERO
            for p, s in ((a, 1), (b, -1)):
                for q, r in ((a, 1), (b, -1)):
                    g = band(cmp_bdd("==", i, p), cmp_bdd("==", j, q))
                    t = add(t, ite(g, B if s * r > 0 else neg(B), ZERO))
            return t

        return ar.contract(W.ne, f)


class Out:
    def __init__(self, I, st, v, events, unmodelled):
        self.I, self.st, self.v, self.events, self.unmodelled = I, st, v, events, unmodelled
