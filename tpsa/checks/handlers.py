"""C15 (records stay in step) and C16 (definition order, defaults)."""
from .. import arrays as ar
from .. import interp as im
from .. import terms as tm
from .. import world as W
from ..report import index
from ..terms import FALSE, NONE, ONE, TRUE, ZERO, add, band, bnot, bor, cmp_bdd, const, ite, mk, sub
from . import check
from .common import callv
from .solver import mu_parts

ne, nn = W.ne, W.nn
nb, nf = mk("dim", "nb"), mk("dim", "nf")
nt = mk("dim", "nt")
for d in (nb, nf, nt):
    tm.NONNEG.add(d)
TLAB = ar.asym("Boundaries.Telements", (nt,), "int")
TVAL = ar.asym("Boundaries.Tvalues", (nt, ONE))
ar.UNIQUE.add(TLAB)
THREE = const(3)
L = W.sym("label", "int")
S = lambda n, k="float": W.sym(n, k)


def mats(w=3, g=1):
    return ar.asym("Elements.material_properties", (ne, const(w))), ar.asym("Elements.geometric_properties", (ne, const(g)))


# handler class: label field, fields -> array of the existing records
def tables(w=3, g=1):
    mp, gp = mats(w, g)
    return {
        "NodeHandler": ("labels", {"labels": W.LABN, "coords": W.COORDS}),
        "ElementHandler": ("labels", {"labels": W.LABE, "conns": W.CONNS, "elem_type": W.ETYPE, "mat_type": W.MTYPE, "material_properties": mp, "geometric_properties": gp}),
        "BoundaryHandler": ("Unodes", {"Unodes": W.BNODES, "Uvalues": W.BVALS}),
        "ExternalForceHandler": ("nodes", {"nodes": W.FNODES, "forces": ar.asym("ExtForces.forces", (nf, const(6)))}),
    }


class H:
    """a handler with arbitrary records (or none) and a call of one of its methods"""

    def __init__(self, rep, name, some=True, w=3, g=1):
        self.rep, self.prog, self.name = rep, rep.prog, name
        I = self.I = im.Interp(rep.prog)
        rep.interps.append(I)
        st = im.State()
        self.cls = W.public(rep.prog, "trusspy.handlers." + name)
        self.ref = I.new_inst(st, self.cls._tid)
        init = W.method(rep.prog, self.cls, "__init__")
        v, st = I.run(init, {init.args.args[0].arg: self.ref}, st)
        self.lab, self.tab = tables(w, g)[name]
        for f in self.tab:
            W.fld(I, st, self.ref, f)
        if some:
            for f, c in self.tab.items():
                st.s[(self.ref.a[0], ".", f)] = I.new_array(st, c)
        self.st = st
        self.f = None
        self.v = None

    def call(self, m, args=(), kw=None):
        self.f = W.method(self.prog, self.cls, m)
        self.v = callv(self.I, self.st, mk("bound", mk("func", self.f._tid), self.ref), args, kw, self.f)
        return self.v

    def list(self, xs):
        return self.I.new_list(self.st, [im.e_(x) for x in xs])

    def make(self, cname, args, kw=None):
        c = W.public(self.prog, cname)
        return callv(self.I, self.st, mk("cls", c._tid), args, kw, c)

    def get(self, f):
        return self.I.num(self.st, W.fld(self.I, self.st, self.ref, f))

    def same(self, what, f, shape, fn, **kw):
        a = self.get(f)
        if self.st.pc == 0:
            self.rep.bad(what, self.f, "never returns")
            return
        self.rep.arr(what, a, shape, fn, node=self.f, pc=self.st.pc, **kw)

    def returns(self, what, assume=1):
        """the call returns normally"""
        self.rep.cond(what + ": returns", self.st.pc, 1, assume, node=self.f, prep=prep(self.lab and self.tab.get(self.lab)))


def prep(labels=None):
    """labels both present and absent"""

    def f(s):
        s.absent = True
        if labels is not None:
            try:
                a = [int(x) for x in s.array(labels).reshape(-1)]
            except Exception:
                return None
            for q in LABS:
                s.memo[q] = s.rnd.choice(a) if a and s.rnd.random() < 0.7 else s.rnd.randrange(1, 40)
        return None

    return f


LABS = [L] + [S("label%d" % k, "int") for k in range(4)]


def old_new(base, n0, rows):
    """records of the array, then the given rows"""
    tail = [n0] + list(ar.shape(base)[1:])

    def fn(i, *j):
        r = ar.at(base, [i, *j]) if True else None
        for k in reversed(range(len(rows))):
            row = rows[k]
            if j:
                v = row[-1]
                for q in reversed(range(len(row) - 1)):
                    v = ite(cmp_bdd("==", j[0], const(q)), row[q], v)
            else:
                v = row
            r = ite(cmp_bdd("==", i, add(n0, const(k))), v, r) if n0 is not ZERO or True else r
        return r

    return fn


def new_only(rows):
    def fn(i, *j):
        out = None
        for k in reversed(range(len(rows))):
            row = rows[k]
            if j:
                v = row[-1]
                for q in reversed(range(len(row) - 1)):
                    v = ite(cmp_bdd("==", j[0], const(q)), row[q], v)
            else:
                v = row
            out = v if out is None else ite(cmp_bdd("==", i, const(k)), v, out)
        return out

    return fn


def record(name, k=0):
    """a new record: constructor name, arguments, keywords, expected row per field"""
    l = S("new.label%d" % k, "int")
    x = [S("new%d.x%d" % (k, q)) for q in range(6)]
    b = [S("new%d.b%d" % (k, q), "int") for q in range(3)]
    if name == "NodeHandler":
        return "trusspy.Node", [l, mk("tuple", *x[:3])], {}, {"labels": l, "coords": x[:3]}
    if name == "BoundaryHandler":
        return "trusspy.BoundaryU", [l, mk("tuple", *b)], {}, {"Unodes": l, "Uvalues": b}
    if name == "ExternalForceHandler":
        return "trusspy.ExternalForce", [l, mk("tuple", *x)], {}, {"nodes": l, "forces": x}
    et, mt = S("new%d.etype" % k, "int"), S("new%d.mtype" % k, "int")
    kw = {"elem_type": et, "mat_type": mt, "material_properties": x[:3], "geometric_properties": x[3:4]}
    return "trusspy.Element", [l, mk("tuple", b[0], b[1])], kw, {"labels": l, "conns": b[:2], "elem_type": et, "mat_type": mt, "material_properties": x[:3], "geometric_properties": x[3:4]}


ADD = {"NodeHandler": ("add_node", "add_nodes"), "ElementHandler": ("add_element", "add_elements"), "BoundaryHandler": ("add_bound_U", "add_bounds_U"), "ExternalForceHandler": ("add_force", "add_forces")}
DEL = {"NodeHandler": "del_node", "ElementHandler": "del_element", "BoundaryHandler": "del_bound_U", "ExternalForceHandler": "del_force"}


def kwargs(h, kw):
    return {k: h.list(v) if isinstance(v, list) else v for k, v in kw.items()}


def check_rows(h, what, rows, some):
    for f, base in h.tab.items():
        sh = ar.shape(base)
        n0 = sh[0] if some else ZERO
        rs = [r[f] for r in rows]
        shape = (add(n0, const(len(rows))),) + tuple(sh[1:])
        h.same("%s: %s" % (what, f), f, shape, old_new(base, n0, rs) if some else new_only(rs))


@check("C15", "value graphs of every handler method on arbitrary records: result arrays compared entry by entry with the reference record operation; induction over loops over all elements")
def c15(rep):
    for name in ADD:
        adding(rep, name)
        deleting(rep, name)
    assigning(rep)
    getters(rep)
    thermal(rep)


def adding(rep, name):
    one, many = ADD[name]
    for some in (False, True):
        t = " to existing records" if some else ", first one"
        cname, args, kw, row = record(name)
        h = H(rep, name, some)
        h.call(one, list(args), kwargs(h, kw))
        check_rows(h, "%s.%s%s, values given" % (name, one, t), [row], some)
        h = H(rep, name, some)
        o = h.make(cname, list(args), kwargs(h, kw))
        h.call(one, [o])
        check_rows(h, "%s.%s%s, object given" % (name, one, t), [row], some)
        h = H(rep, name, some)
        rows = []
        os_ = []
        for k in range(3):
            cname, args, kw, row = record(name, k)
            os_.append(h.make(cname, list(args), kwargs(h, kw)))
            rows.append(row)
        h.call(many, [h.list(os_)])
        check_rows(h, "%s.%s%s, three at once" % (name, many, t), rows, some)
    if name == "ElementHandler":
        # short names of the property lists, default types
        for some in (False, True):
            t = " to existing records" if some else ", first one"
            cname, args, kw, row = record(name)
            h = H(rep, name, some)
            k2 = {"mprop": kw["material_properties"], "gprop": kw["geometric_properties"]}
            h.call(one, list(args), kwargs(h, k2))
            row = dict(row, elem_type=ONE, mat_type=ONE)
            check_rows(h, "%s.%s%s, short names and default types" % (name, one, t), [row], some)


def remaining(lab, label):
    """index array of the records with another label"""
    g = ar.gi("λ0")
    b, body = ar.bind(tm.mkbool(bnot(cmp_bdd("==", ar.at(lab, [g]), label))), g) if False else (None, None)
    return mk("ecmp", "!=", lab, label)


def deleting(rep, name):
    h = H(rep, name)
    h.call(DEL[name], [L])
    lab = h.tab[h.lab]
    keep = remaining(lab, L)
    for f, base in h.tab.items():
        want = mk("get", base, (keep,))
        h.same("%s.%s: %s of every other record stays, in order" % (name, DEL[name], f), f, ar.shape(want), lambda *ix: ar.at(want, list(ix)), prep=prep(lab))


# ------------------------------------------------------------------ assign
def given(labels, i):
    """record i is one of the given ones"""
    if labels == "all":
        return 1
    g = 0
    for l in labels:
        g = bor(g, cmp_bdd("==", ar.at(W.LABE, [i]), l))
    return g


def assigned(h, what, f, base, shape, fn):
    """final content, by induction over the loop if there is one"""
    a = h.get(f)
    ok = all_loops(h, a, base, fn)
    if ok is True:
        s = ar.shape(a)
        r = (True, "") if s is not None and len(s) == len(shape) else (None, "shape")
        if r[0]:
            for p, q in zip(s, shape):
                r = h.rep.same_value(p, q, h.st.pc)
                if r[0] is not True:
                    break
        if r[0] is True:
            h.rep.held(what, h.f, "induction over the loop")
            return
    h.same(what, f, shape, fn, prep=prep(W.LABE))


def all_loops(h, a, base, fn):
    """content built by a loop over all elements: entry i is final once iteration i is done"""
    if a.op == "ite":
        x = all_loops(h, tm.restrict(a.a[1], a.a[0]), base, fn)
        return x and all_loops(h, tm.restrict(a.a[2], bnot(a.a[0])), base, fn)
    if a.op != "mu":
        return None
    I = h.I
    info = I.loopinfo.get(a.a[0])
    if info is None or info.N is not W.ne:
        return None
    if a.a[3] is not W.ne:
        return None
    hd = mk("mu", a.a[0], a.a[1], a.a[2], info.k, *info.octr)
    p = mu_parts(I, hd)
    if p is None:
        return None
    v0, v, _ = p
    s = ar.shape(hd)
    if s is None:
        return None
    ix = [index("i%d" % q, d) for q, d in enumerate(s)]
    k = info.k
    # hypothesis: entries below k are final, the others those before the loop
    lams = [ar.gi("λ%d" % q) for q in range(len(s))]
    body = ite(cmp_bdd("<", lams[0], k), fn(*lams), ar.at(v0, lams))
    vs = []
    for x in lams:
        b, body = ar.bind(body, x)
        vs.append(b)
    hyp = mk("lam", tuple(s), tuple(vs), body)
    nxt = tm.subst(v, {hd: hyp})
    if any(t.op == "mu" and t.a[0] == a.a[0] for t in tm.walk(nxt)):
        return None
    got = ar.at(nxt, list(ix))
    want = ite(cmp_bdd("<", ix[0], add(k, ONE)), fn(*ix), ar.at(v0, list(ix)))
    r, why = h.rep.same_value(got, want, band(cmp_bdd("<", k, W.ne), h.st.pc), ("ctr",), None, None, tuple(ix))
    return r


def assigning(rep):
    lists = ("all", LABS[1:2], LABS[1:3], LABS[1:4])
    for labels in lists:
        t = " [%s]" % ("all elements" if labels == "all" else "%d element%s" % (len(labels), "s" if len(labels) > 1 else ""))

        def larg(h):
            return const("all") if labels == "all" else h.list(list(labels))

        # types
        for m, f in (("assign_etype", "elem_type"), ("assign_mtype", "mat_type")):
            h = H(rep, "ElementHandler")
            T = S("type", "int")
            h.call(m, [larg(h), T])
            base = h.tab[f]
            assigned(h, "%s: %s of the named elements%s" % (m, f, t), f, base, (ne,), lambda i: ite(given(labels, i), T, ar.at(base, [i])))
            others(h, m + t, (f,))
        # geometry
        h = H(rep, "ElementHandler")
        G = S("area")
        h.call("assign_geometry", [larg(h), h.list([G])])
        base = h.tab["geometric_properties"]
        assigned(h, "assign_geometry: properties of the named elements" + t, "geometric_properties", base, (ne, ONE), lambda i, j: ite(given(labels, i), G, ar.at(base, [i, j])))
        others(h, "assign_geometry" + t, ("geometric_properties",))
        # one per element
        if labels != "all":
            h = H(rep, "ElementHandler")
            Gs = [S("area%d" % k) for k in range(len(labels))]
            h.call("assign_geometries", [larg(h), h.list([h.list([g]) for g in Gs])])

            def fn(i, j):
                v = ar.at(base, [i, j])
                for l, g in zip(labels, Gs):
                    v = ite(cmp_bdd("==", ar.at(W.LABE, [i]), l), g, v)
                return v

            assigned(h, "assign_geometries: every named element its own" + t, "geometric_properties", base, (ne, ONE), fn)
            others(h, "assign_geometries" + t, ("geometric_properties",))
        else:
            h = H(rep, "ElementHandler")
            GA = ar.asym("areas", (ne, ONE))
            h.call("assign_geometries", [larg(h), h.I.new_array(h.st, GA)])
            assigned(h, "assign_geometries: every element its own" + t, "geometric_properties", base, (ne, ONE), lambda i, j: ar.at(GA, [i, j]))
            others(h, "assign_geometries" + t, ("geometric_properties",))
        # material: all combinations of widths, list forms, with and without type
        for w, n in ((1, 1), (1, 3), (3, 1), (2, 3), (3, 3)):
            for form in ("list", "tuple") if (w, n) in ((3, 1), (3, 3)) else ("list",):
                for typed in (False, True) if n == 3 else (False,):
                    h = H(rep, "ElementHandler", w=w)
                    P = [S("prop%d" % q) for q in range(n)]
                    T = S("type", "int")
                    pv = h.list(P) if form == "list" else mk("tuple", *P)
                    h.call("assign_material", [larg(h), pv] + ([T] if typed else []))
                    base = h.tab["material_properties"]
                    tt = "%s, %d given for %d%s" % (t, n, w, ", as tuple" if form == "tuple" else "") + (", with type" if typed else "")

                    def fn(i, j, P=P, base=base, w=w, n=n):
                        new = ZERO
                        for q in reversed(range(n)):
                            new = ite(cmp_bdd("==", j, const(q)), P[q], new)
                        old = ite(cmp_bdd("<", j, const(w)), ar.at(base, [i, j]), ZERO) if n > w else ar.at(base, [i, j])
                        return ite(given(labels, i), new, old)

                    assigned(h, "assign_material: properties of the named elements, padded with zeros" + tt, "material_properties", base, (ne, const(max(w, n))), fn)
                    touched = ["material_properties"]
                    if typed:
                        b2 = h.tab["mat_type"]
                        assigned(h, "assign_material: type of the named elements" + tt, "mat_type", b2, (ne,), lambda i: ite(given(labels, i), T, ar.at(b2, [i])))
                        touched.append("mat_type")
                    others(h, "assign_material" + tt, touched)


def others(h, what, touched):
    for f, base in h.tab.items():
        if f not in touched:
            h.same("%s leaves %s alone" % (what, f), f, ar.shape(base), lambda *ix: ar.at(base, list(ix)), prep=prep(W.LABE))


# ------------------------------------------------------------------ getters
GET = {"get_nodes": ("conns", None), "NA": ("conns", 0), "NE": ("conns", 1), "get_material_type": ("mat_type", 0), "get_element_type": ("elem_type", 0),
       "get_material_properties": ("material_properties", None), "get_geometric_properties": ("geometric_properties", None)}


def getters(rep):
    for m, (f, col) in GET.items():
        h = H(rep, "ElementHandler")
        v = h.I.num(h.st, h.call(m, [L]))
        base = h.tab[f]
        p = mk("pos", W.LABE, L)
        there = tm.batom(mk("inset", W.LABE, L))
        what = "%s: the record of the label asked for" % m
        if len(ar.shape(base)) == 1:
            rep.equal(what, v, ar.at(base, [p]), band(there, h.st.pc), node=h.f)
        elif col is not None:
            rep.equal(what, v, ar.at(base, [p, const(col)]), band(there, h.st.pc), node=h.f)
        else:
            rep.arr(what, v, ar.shape(base)[1:], lambda j: ar.at(base, [p, j]), node=h.f, pc=band(there, h.st.pc))
        others(h, m, ())


def thermal(rep):
    """boundaries of elements"""
    for some in (False, True):
        t = " to existing records" if some else ", first one"
        h = H(rep, "BoundaryHandler")
        if some:
            for f, c in (("Telements", TLAB), ("Tvalues", TVAL)):
                h.st.s[(h.ref.a[0], ".", f)] = h.I.new_array(h.st, c)
        l, x = S("new.label0", "int"), S("new.T")
        o = h.make("trusspy.BoundaryT", [l, x])
        h.call("add_bound_T", [o])
        n0 = nt if some else ZERO
        h.same("BoundaryHandler.add_bound_T%s: Telements" % t, "Telements", (add(n0, ONE),), old_new(TLAB, n0, [l]) if some else new_only([l]))
        if some:
            h.same("BoundaryHandler.add_bound_T%s: Tvalues" % t, "Tvalues", (add(n0, ONE), ONE), old_new(TVAL, n0, [[x]]))
        others(h, "add_bound_T" + t, ())
