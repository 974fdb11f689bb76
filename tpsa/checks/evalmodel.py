"""C01, C02, C03, C29: residual and stiffness evaluation of a model at an arbitrary state."""
from .. import arrays as ar
from .. import eq
from .. import terms as tm
from .. import world as W
from ..report import index
from ..terms import FALSE, NONE, ONE, TRUE, ZERO, add, band, bnot, bor, cmp_bdd, const, div, ite, mk, mul, neg, sub
from . import check
from .common import Mid

XYZ = "xyz"


def residual_runs(rep, m):
    """the ways the solver evaluates residuals"""
    yield "with LPF", m.evaluate(True)
    yield "without LPF", m.evaluate(False)
    if rep.tier == "thorough" or rep.pid in ("C02",):
        yield "committing", m.evaluate(True, TRUE)
        yield "on the model's own analysis", m.evaluate(True, analysis=False)


@check("C01", "value-graph equality of forces, stretch, stress of a generic element with the element law")
def c01(rep):
    eq.RANGES[W.MTYPE] = (1, 2)
    m = Mid(rep)
    for tag, o in residual_runs(rep, m):
        t = " (%s)" % tag
        f = m.gfn
        r = m.fld(o, "r")
        i = index("node", W.nn)
        for c in range(3):
            rep.equal("force: internal force on a node, direction %s%s" % (XYZ[c], t), at(r, i, const(c)), m.force(o, i, c), node=f, idx=(i,))
        k = index("elem", W.ne)
        kw = dict(node=f, idx=(k,), pc=m.types(k))
        L, l, n = m.geom(o, k)
        rep.equal("stretch: deformed by undeformed length" + t, at(m.fld(o, "stretch"), k, ZERO), div(l, L), **kw)
        rep.equal("stress: own law at strain l/L-1 with own parameters" + t, at(m.fld(o, "element_stress"), k, ZERO), m.law(o, k, "s"), **kw)
        rep.equal("axial force: stress times area" + t, at(m.fld(o, "element_force"), k, ZERO), m.N(o, k), **kw)


def at(A, *idx):
    return ar.at(A, list(idx))


@check("C02", "value-graph equality of the returned residual with load minus the sum of all element forces")
def c02(rep):
    eq.RANGES[W.MTYPE] = (1, 2)
    for steps, counts in ((1, (1,)), (2, (2, 1))):
        m = Mid(rep, steps, counts)
        for tag, o in residual_runs(rep, m):
            t = " (%s, step %d)" % (tag, steps)
            f = m.gfn
            out = o.I.num(o.st, o.v)
            s = ar.shape(out)
            if s is None or len(s) != 1:
                rep.fact("residual: one value per free degree of freedom" + t, None, f, tm.show(out, 4)[:200])
                continue
            rep.equal("residual: one value per free degree of freedom" + t, s[0], W.n1, node=f)
            q = index("dof", W.n1)
            i = index("node", W.nn)
            for c in range(3):
                with ar.assuming({(W.DOF1, q): add(mul(const(3), i), const(c))}):
                    got = at(out, q)
                    want = sub(load(m, o, i, c), m.force(o, i, c))
                rep.equal("residual: free direction %s of a node%s" % (XYZ[c], t), got, want, node=f, idx=(i,), pc=m.free(i, c))
                g = m.fld(o, "g")
                rep.equal("unbalanced: stored residual, direction %s%s" % (XYZ[c], t), flat(g, i, c), sub(load(m, o, i, c), m.force(o, i, c)), node=f, idx=(i,))
                # placement of the passed displacements
                rep.equal("placement: displacement of a node, direction %s%s" % (XYZ[c], t), at(m.fld(o, "U"), i, const(c)), m.U(o, i, const(c)), node=f, idx=(i,))


    m = Mid(rep, 3, (2, 3, 1))
    o = m.evaluate(True)
    for name in ("g",):
        for c in range(3):
            i = index("node", W.nn)
            rep.equal("load: constant part of the third step, direction %s" % XYZ[c], flat(m.fld(o, "g"), i, c), sub(load(m, o, i, c), m.force(o, i, c)), node=m.gfn, idx=(i,))


def flat(g, i, c):
    s = ar.shape(g)
    if s is not None and len(s) == 1:
        return at(g, add(mul(const(3), i), const(c)))
    return at(g, i, const(c))


def load(m, o, i, c):
    """constant part plus LPF times reference load of the last step"""
    s = m.steps - 1
    t = mul(o.lpf, at(m.F, i, const(3 * s + c)))
    for e in range(s):
        t = add(t, mul(mk("app", "pf.lpf", "float", const(e), const(m.counts[e])), at(m.F, i, const(3 * e + c))))
    return t


@check("C03", "value-graph equality of the returned matrix with the derivative of the internal force")
def c03(rep):
    eq.RANGES[W.MTYPE] = (1, 2)
    m = Mid(rep)
    o = m.stiffness()
    f = m.kfn
    out = o.I.num(o.st, o.v)
    s = ar.shape(out)
    if s is None or len(s) != 2:
        rep.fact("matrix: rows and columns of the free degrees of freedom", None, f, tm.show(out, 4)[:200])
        return
    rep.equal("matrix: rows of the free degrees of freedom", s[0], W.n1, node=f)
    rep.equal("matrix: columns of the free degrees of freedom", s[1], W.n1, node=f)
    a, b = index("row", W.n1), index("col", W.n1)
    i, j = index("nodei", W.nn), index("nodej", W.nn)
    for c in range(3):
        for d in range(3):
            with ar.assuming({(W.DOF1, a): add(mul(const(3), i), const(c)), (W.DOF1, b): add(mul(const(3), j), const(d))}):
                got = at(out, a, b)
                want = m.stiff(o, i, c, j, d)
            rep.equal("matrix: derivative of force %s of node i for displacement %s of node j" % (XYZ[c], XYZ[d]), got, want, node=f, idx=(i, j), pc=band(m.free(i, c), m.free(j, d)))


def arr_field(I, st, o, name):
    return I.num(st, W.fld(I, st, o, name))


def partition(rep, w):
    """build: free and locked degrees of freedom"""
    I, st = w.I, w.st
    A = W.fld(I, st, w.M, "Analysis")
    f = W.method(rep.prog, w.cls, "build")
    dof = mk("arange", mul(const(3), W.nn))
    flatbc = mk("reshape", W.UVALS, (mul(const(3), W.nn),))
    for name, val in (("DOF1", 1), ("DOF0", 0)):
        got = arr_field(I, st, A, name)
        want = mk("get", dof, (mk("nonzero", mk("ecmp", "==", flatbc, const(val))),))
        what = "free" if val else "locked"
        s, s2 = ar.shape(got), ar.shape(want)
        if s is None or len(s) != 1:
            rep.fact("partition: %s degrees of freedom" % what, None, f, "no one-dimensional index list: " + tm.show(got, 5)[:200])
            continue
        rep.equal("partition: number of %s degrees of freedom" % what, s[0], s2[0], node=f)
        q = index("dof", s2[0])
        rep.equal("partition: %s degrees of freedom in ascending order" % what, at(got, q), at(want, q), node=f, idx=(q,))
    for name in ("U", "U0"):
        got = arr_field(I, st, A, name)
        rep.arr("start: displacements are zero after the build (%s)" % name, got, (W.nn, const(3)), lambda i, c: ZERO, node=f)


@check("C17", "index-set algebra on the built partition; frame condition on the displacement array for locked indices at every evaluation")
def c17(rep):
    eq.RANGES.update({W.MTYPE: (1, 2), W.UVALS: (0, 1)})
    partition(rep, W.built(rep.prog))
    for steps, counts in ((1, (1,)), (2, (2, 1))):
        m = Mid(rep, steps, counts)
        runs = list(residual_runs(rep, m)) + [("committing", m.evaluate(True, TRUE)), ("stiffness", m.stiffness())]
        for tag, o in runs:
            i = index("node", W.nn)
            for c in range(3):
                rep.equal("locked: displacement %s of a locked node direction is left alone (%s, step %d)" % (XYZ[c], tag, steps),
                          at(m.fld(o, "U"), i, const(c)), ar.el(ar.asym("was.U", (W.nn, const(3))), i, const(c)),
                          pc=bnot(m.free(i, c)), node=m.gfn, idx=(i,))
        # nothing else in a run moves a node: the solver's solution is what remains
        w = m.w
        A = W.fld(m.I, w.post, w.M, "Analysis")
        r = W.method(rep.prog, w.cls, "run")
        last = len([e for e in w.run_events if e.kind == "pathfollow"]) - 1
        end = mk("app", "pfend.U", "arr", (W.nn, const(3)), const(last), const(counts[min(last, len(counts) - 1)]))
        i = index("node", W.nn)
        for c in range(3):
            rep.equal("run: a run moves nothing but by path following (%s, %d steps)" % (XYZ[c], steps),
                      at(arr_field(m.I, w.post, A, "U"), i, const(c)), ar.el(end, i, const(c)), node=r, idx=(i,))


@check("C29", "dispatch gates of every evaluation: law per material type, raising gate for all others, state variables of the build")
def c29(rep):
    eq.RANGES[W.MTYPE] = (1, 2)
    m = Mid(rep)
    k = index("elem", W.ne)
    I = m.I
    for tag, o in list(residual_runs(rep, m)) + [("committing", m.evaluate(True, TRUE))]:
        for ty in (1, 2):
            rep.equal("law: an element of type %d is evaluated with its own law, parameters and state (%s)" % (ty, tag),
                      at(m.fld(o, "element_stress"), k, ZERO), m.law(o, k, "s"), node=m.gfn, idx=(k,), pc=cmp_bdd("==", ar.at(W.MTYPE, [k]), const(ty)))
    runs = [("residual", m.evaluate(True)), ("committing", m.evaluate(True, TRUE)), ("stiffness", m.stiffness())]
    b = W.method(rep.prog, m.w.cls, "build")
    eq.RANGES.clear()
    for tag, o in runs:
        laws = [e for e in o.events if e.kind == "umat"]
        lids = {e.loops[-1][0] for e in laws if e.loops}
        if len(lids) != 1 or any(not e.loops for e in laws):
            rep.und("unsupported: an element of another material type makes the evaluation fail (%s)" % tag, m.gfn, "laws are not called in one loop over the elements")
            continue
        info = I.loopinfo[lids.pop()]
        t = ar.at(W.MTYPE, [info.k])
        other = bnot(bor(cmp_bdd("==", t, ONE), cmp_bdd("==", t, const(2))))
        back = info.back.pc
        left = band(band(back, other), m.w.build_pc)
        unsupported(rep, tag, left, info, m)
    # state variables
    w = W.built(rep.prog)
    I, st = w.I, w.st
    A = W.fld(I, st, w.M, "Analysis")
    sv = W.fld(I, st, A, "state_v")
    has2 = tm.batom(mk("inset", W.MTYPE, const(2)))
    got = tm.restrict(sv, has2) if has2 > 1 else sv
    if got.op == "ref":
        rep.arr("state: a model with an elastic-plastic element gets two state variables per element, zero at first", I.num(st, got), (W.ne, const(2)), lambda i, c: ZERO, pc=has2, node=b)
    elif got is NONE:
        rep.bad("state: a model with an elastic-plastic element gets two state variables per element, zero at first", b, "no state variables are created")
    else:
        rep.und("state: a model with an elastic-plastic element gets two state variables per element, zero at first", b, tm.show(got, 5)[:200])


def unsupported(rep, tag, left, info, m):
    """the gate of normally finishing an element of an unsupported type"""
    g = index("elem", W.ne)
    left = tm.asbdd_or(tm.subst(tm.mkbool(left), {info.k: g}))
    rep.never("unsupported: an element of another material type makes the evaluation fail (%s)" % tag, left, node=m.gfn, idx=(g,),
              prep=other_types(g))


def other_types(g):
    def prep(s):
        A = s.arrs[W.MTYPE].copy()
        A[s.dims[g]] = s.rnd.choice((0, 3, 4, -1))
        s.arrs[W.MTYPE] = A

    return prep


@check("C06", "frame condition on the state array at trial evaluations; value-graph equality of the committed state; commit discipline of the path-following loop")
def c06(rep):
    eq.RANGES[W.MTYPE] = (1, 2)
    has2 = tm.batom(mk("inset", W.MTYPE, const(2)))
    was = ar.asym("was.state_v", (W.ne, const(2)))
    for steps, counts in ((1, (1,)), (2, (2, 1))):
        m = Mid(rep, steps, counts)
        k = index("elem", W.ne)
        kw = dict(node=m.gfn, idx=(k,), pc=has2)
        for tag, o in list(residual_runs(rep, m)) + [("stiffness", m.stiffness())]:
            if tag == "committing":
                continue
            for j in range(2):
                rep.equal("trial: state variable %d of an element is left alone (%s, step %d)" % (j, tag, steps), state(m, o, k, j), ar.el(was, k, const(j)), **kw)
        # commits: alone, and after a trial at another state
        t = m.evaluate(True)
        for tag, st in (("alone", None), ("after a trial evaluation", t.st)):
            o = m.evaluate(True, TRUE, st=st)
            for j in range(2):
                L, l, n = m.geom(o, k)
                p = [ar.at(W.MPROP, [k, const(i)]) for i in range(3)]
                q = mk("app", "u2.q", "arr", (const(2),), sub(div(l, L), ONE), *p, ar.el(was, k, ZERO), ar.el(was, k, ONE))
                ty = cmp_bdd("==", ar.at(W.MTYPE, [k]), const(2))
                want = ite(ty, ar.el(q, const(j)), ar.el(was, k, const(j)))
                rep.equal("commit: state variable %d follows the law from the last committed state (%s, step %d)" % (j, tag, steps), state(m, o, k, j), want, **kw)
    from . import follow
    if not rep.scratch:
        follow.commits(rep)


def state(m, o, k, j):
    sv = m.fld(o, "state_v")
    has2 = tm.batom(mk("inset", W.MTYPE, const(2)))
    return ar.at(tm.restrict(sv, has2), [k, const(j)])
