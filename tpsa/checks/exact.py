"""C28: defined and assigned values are stored exactly, whatever their numeric types."""
from .. import arrays as ar
from .. import terms as tm
from .. import world as W
from ..terms import ONE, ZERO, const, mk
from . import check
from .catalog import Done, S


# ------------------------------------------------------------------ C28
HOW = ("list", "tuple", "array")


class Table:
    """a handler with known records and the reference content of its arrays"""

    def __init__(self, rep, name):
        from .handlers import H

        self.rep, self.name = rep, name
        self.h = H(rep, name, False)
        self.rows = []
        self.k = 0
        self.story = []

    def value(self, n, kd, how):
        """numbers of one type in a container"""
        h = self.h
        self.k += 1
        xs = [S("v%d.%d" % (self.k, q), kd) for q in range(n)]
        if how == "list":
            return xs, h.list(xs)
        if how == "array":
            return xs, h.I.new_array(h.st, mk("npa", mk("tuple", *xs), kd))
        return xs, mk("tuple", *xs)

    def add(self, kd, how, given, w=2):
        from .handlers import ADD

        label = const(len(self.rows) + 1)
        h = self.h
        if self.name == "ElementHandler":
            m, mv = self.value(w, kd, how)
            g, gv = self.value(1, kd, how)
            c = [const(1), const(2)]
            long = given == "object"
            args, kw = [label, mk("tuple", *c)], {"material_properties" if long else "mprop": mv, "geometric_properties" if long else "gprop": gv}
            row = {"labels": label, "conns": c, "elem_type": ONE, "mat_type": ONE, "material_properties": m, "geometric_properties": g}
            cname = "trusspy.Element"
        else:
            n = {"NodeHandler": 3, "ExternalForceHandler": 6, "BoundaryHandler": 3}[self.name]
            x, v = self.value(n, kd, how)
            args, kw = [label, v], {}
            f1, f2, cname = {"NodeHandler": ("labels", "coords", "trusspy.Node"), "ExternalForceHandler": ("nodes", "forces", "trusspy.ExternalForce"), "BoundaryHandler": ("Unodes", "Uvalues", "trusspy.BoundaryU")}[self.name]
            row = {f1: label, f2: x}
        one, many = ADD[self.name]
        if given == "values":
            h.call(one, args, kw)
        elif given == "object":
            h.call(one, [h.make(cname, args, kw)])
        else:
            h.call(many, [h.list([h.make(cname, args, kw)])])
        self.rows.append(row)
        self.told("add %s %s as %s" % (kd, given, how))

    def told(self, s):
        self.story.append(s)

    def delete(self, k):
        from .handlers import DEL

        self.h.call(DEL[self.name], [self.rows[k][self.h.lab]])
        del self.rows[k]
        self.told("delete")

    def fixed(self):
        if self.name == "NodeHandler":
            self.h.call("fix_nodes")
            self.told("sort")
        if self.name == "ExternalForceHandler":
            h = self.h
            n = len(self.rows) + 2
            h.call("fix_forces", [h.I.new_array(h.st, mk("npa", mk("tuple", *[const(k) for k in range(1, n + 1)]), "int")), const(2)])
            have = {tm.cval(r["nodes"]) for r in self.rows}
            self.rows += [{"nodes": const(k), "forces": [ZERO] * 6} for k in range(1, n + 1) if k not in have]
            self.rows.sort(key=lambda r: tm.cval(r["nodes"]))
            self.told("complete")

    def which(self, who):
        if who == "all":
            return const("all"), range(len(self.rows))
        return self.h.list([self.rows[k]["labels"] for k in who]), who

    def material(self, who, n, kd, how, typed=False):
        la, ks = self.which(who)
        x, v = self.value(n, kd, how)
        self.h.call("assign_material", [la, v] + ([const(2)] if typed else []))
        w = max([n] + [len(r["material_properties"]) for r in self.rows])
        for k, r in enumerate(self.rows):
            m = x if k in ks else r["material_properties"]
            r["material_properties"] = m + [ZERO] * (w - len(m))
            if k in ks and typed:
                r["mat_type"] = const(2)
        self.told("assign_material %d %s as %s" % (n, kd, how))

    def geometry(self, who, kd, how):
        la, ks = self.which(who)
        x, v = self.value(1, kd, how)
        self.h.call("assign_geometry", [la, v])
        for k in ks:
            self.rows[k]["geometric_properties"] = x
        self.told("assign_geometry %s as %s" % (kd, how))

    def geometries(self, who, kd, how):
        la, ks = self.which(who)
        h = self.h
        xs = [self.value(1, kd, how) for k in ks]
        if how == "array":
            v = h.I.new_array(h.st, mk("npa", mk("tuple", *[mk("tuple", *x) for x, _ in xs]), kd))
        else:
            v = h.list([v for _, v in xs])
        h.call("assign_geometries", [la, v])
        for k, (x, _) in zip(ks, xs):
            self.rows[k]["geometric_properties"] = x
        self.told("assign_geometries %s as %s" % (kd, how))

    def compare(self):
        from .handlers import new_only

        h = self.h
        t = ", ".join(self.story)
        for f, base in h.tab.items():
            rs = [r[f] for r in self.rows]
            sh = (const(len(rs)),) + ((const(len(rs[0])),) if isinstance(rs[0], list) else ())
            h.same("%s.%s after: %s" % (self.name, f, t), f, sh, new_only(rs))


def tables(rep):
    """histories of definitions and assignments with mixed numeric types"""
    K = ("int", "float")
    deep = rep.tier != "quick"
    for name in ("NodeHandler", "ExternalForceHandler", "ElementHandler"):
        for k0 in K:
            for k1 in K:
                for how in HOW if name != "ElementHandler" or deep else ("list", "array"):
                    for given in ("values", "object", "many"):
                        t = Table(rep, name)
                        t.add(k0, how, given)
                        t.add(k1, how, given)
                        t.compare()
                        t.add("float" if k1 == "int" else "int", "tuple", given)
                        t.fixed()
                        t.delete(0)
                        t.compare()
    # assignments over tables of every type
    for k0 in K:
        for k1 in K:
            for kd in K:
                for how in HOW:
                    for who in ("all", [1], [0, 1]):
                        if not deep and who == [0, 1] and how != "list":
                            continue
                        for n in (1, 2, 3):
                            t = Table(rep, "ElementHandler")
                            t.add(k0, "list", "values")
                            t.add(k1, "list", "values")
                            t.material(who, n, kd, how, n == 3)
                            t.compare()
                        t = Table(rep, "ElementHandler")
                        t.add(k0, "list", "values")
                        t.add(k1, "list", "values")
                        t.geometry(who, kd, how)
                        t.compare()
                        t.geometries(who, kd, how)
                        t.compare()
    # longer histories: assign, assign again in the other type, extend, add
    for k0 in K:
        for kd in K:
            for ke in K:
                t = Table(rep, "ElementHandler")
                t.add(k0, "list", "values", 1)
                t.add(k0, "list", "object", 1)
                t.material([0], 1, kd, "list")
                t.material([1], 3, ke, "tuple", True)
                t.geometry("all", kd, "list")
                t.geometries([1, 0], ke, "list")
                t.add(kd, "list", "values", 3)
                t.material([2, 0], 2, kd, "array")
                t.compare()
                t.delete(1)
                t.geometry([0], ke, "tuple")
                t.compare()


@check("C28", "value graphs with array element types: what the tables hold after every history of definitions and assignments of integers and floats, compared entry by entry; tables of symbolic length of either type; the tables the solver reads after a run")
def c28(rep):
    tables(rep)
    symbolic(rep)
    inrun(rep)


def symbolic(rep):
    """tables with any number of elements, of integer or float type"""
    from . import handlers as hd

    ne = W.ne
    for kd in ("int", "float"):
            for who in ("all", hd.LABS[1:3]):
                for m in ("assign_material", "assign_geometry", "assign_geometries"):
                    h = hd.H(rep, "ElementHandler")
                    f = "material_properties" if m == "assign_material" else "geometric_properties"
                    mp = ar.asym("table", (ne, const(3 if m == "assign_material" else 1)), "float")
                    h.st.s[(h.ref.a[0], ".", f)] = h.I.new_array(h.st, mp)
                    la = const("all") if who == "all" else h.list(list(who))
                    n = 3 if m == "assign_material" else 1
                    if m == "assign_geometries":
                        if who == "all":
                            G = ar.asym("areas", (ne, ONE), kd)
                            v = h.I.new_array(h.st, G)
                            x = lambda i, j, G=G: ar.at(G, [i, j])
                            fn = lambda i, j, x=x: x(i, j)
                        else:
                            Gs = [S("area%d" % k, kd) for k in range(2)]
                            v = h.list([h.list([g]) for g in Gs])

                            def fn(i, j, mp=mp, Gs=Gs):
                                r = ar.at(mp, [i, j])
                                for l, g in zip(who, Gs):
                                    r = tm.ite(tm.cmp_bdd("==", ar.at(W.LABE, [i]), l), g, r)
                                return r
                    else:
                        P = [S("prop%d" % q, kd) for q in range(n)]
                        v = h.list(P)

                        def fn(i, j, mp=mp, P=P, who=who):
                            new = P[-1]
                            for q in reversed(range(len(P) - 1)):
                                new = tm.ite(tm.cmp_bdd("==", j, const(q)), P[q], new)
                            return tm.ite(hd.given(who, i), new, ar.at(mp, [i, j]))

                    h.call(m, [la, v])
                    hd.assigned(h, "%s of %s values to %s of any number of elements" % (m, kd, "all" if who == "all" else "two"), f, mp, (ne, const(n)), fn)


def inrun(rep):
    """definitions are untouched by building and running, whatever their type"""
    d = Done(rep, 1, (2,))
    I, st = d.I, d.st
    for h, f, base in (("Nodes", "coords", W.COORDS), ("Elements", "material_properties", W.MPROP), ("Elements", "geometric_properties", W.GPROP)):
        o = W.fld(I, st, d.M, h)
        got = I.num(st, W.fld(I, st, o, f))
        rep.arr("%s.%s are the defined values after a run" % (h, f), got, ar.shape(base), lambda *i: ar.at(base, list(i)), pc=st.pc, node=W.public(rep.prog, "trusspy.Model"))
