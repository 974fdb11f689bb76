"""C16 (definition order is irrelevant, undefined means free and unloaded) and C19 (rebuild starts fresh)."""
import numpy as np

from .. import arrays as ar
from .. import eq
from .. import interp as im
from .. import terms as tm
from .. import world as W
from ..report import index
from ..terms import FALSE, NONE, ONE, TRUE, ZERO, add, band, bnot, bor, cmp_bdd, const, ite, mk, sub
from . import check

nn = W.nn
nb, nf = mk("dim", "nb"), mk("dim", "nf")
for d in (nb, nf):
    tm.NONNEG.add(d)
THREE = const(3)
SL = ar.asym("sorted(Nodes.labels)", (nn,), "int")
FVALS = ar.asym("ExtForces.forces", (nf, const(6)))
inset = lambda A, x: tm.batom(mk("inset", A, x))


# ---------------------------------------------------------------- proof: sorting by the own labels
def body_of(L):
    """(bound variable, element) of a 1-d lam"""
    if L.op != "lam" or len(L.a[0]) != 1:
        return None, None
    return L.a[1][0], L.a[2]


def offset(e, b):
    """c when e == b + c"""
    c = sub(e, b)
    return c if not any(x is b for x in tm.walk(c)) else None


class Perm:
    """position of a label in a label array: p with C[p] == x for every node label x

    ``C`` is read off the value graph; the claim C[p(x)] == x is proved for
    every array (not assumed from its form).
    """

    def __init__(self):
        self.memo = {}
        self.facts = 1
        self.case = 1
        self.failed = []

    def at(self, L, x):
        k = (L, x)
        if k not in self.memo:
            self.memo[k] = self._at(L, x)
        return self.memo[k]

    def leaves(self, t, out):
        if t.op == "ite":
            self.leaves(t.a[1], out)
            self.leaves(t.a[2], out)
        else:
            out.append(t)

    def _at(self, L, x):
        b, body = body_of(L)
        if b is None:
            return None
        out = []
        self.leaves(body, out)
        first, rest = [], []
        for v in out:
            if v.op != "el" or len(v.a) != 2 or v.a[0] not in (W.LABN, SL, W.BNODES, W.FNODES):
                # the smallest label at a position of its own
                return None
            S, e = v.a
            here = x.a[1] if S is SL and x.op == "el" and x.a[0] is SL else ar.pos(S, x)
            if S in (W.BNODES, W.FNODES):
                c = offset(e, b)
                if c is None:
                    return None
                self.fact(bor(bnot(inset(S, x)), cmp_bdd("<", here, ar.shape(S)[0])))
                first.append((inset(S, x), sub(here, c)))
            elif e.op == "nth":
                c = offset(e.a[1], b)
                if c is None:
                    return None
                m = e.a[0]
                r = mk("rank", m, here)
                on = band(truth(ar.at(m, [here])), cmp_bdd("<", here, m.a[0][0]))
                self.fact(cmp_bdd("<=", ZERO, r))
                self.fact(bor(bnot(on), cmp_bdd("<", r, ar.count_dim(m))))
                first.append((on, sub(r, c)))
            elif e.op == "const":
                # a single entry
                first.append((cmp_bdd("==", here, e), None if offset(e, b) is not None else ("single", e)))
                return self.single(L, b, body, x, here)
            else:
                c = offset(e, b)
                if c is None:
                    return None
                rest.append((1, sub(here, c)))
        p = None
        for g, v in reversed(first + rest[:1]):
            p = v if p is None else ite(g, v, p)
        if p is None:
            return None
        left = 1
        for g, v in first + rest[:1]:
            if not self.proved(L, v, x, band(left, g)):
                self.failed.append(L)
                return None
            left = band(left, bnot(g))
        if self.nothing(left, x):
            return p
        self.failed.append(L)
        return None

    def single(self, L, b, body, x, here):
        """C is the list of node labels itself, written in pieces"""
        if self.proved(L, here, x):
            return here
        self.failed.append(L)
        return None

    def fact(self, g):
        self.facts = band(self.facts, g)

    def nothing(self, g, x):
        g = band(g, self.facts)
        if x.op == "el" and x.a[0] is SL:
            g = band(g, band(cmp_bdd("<", x.a[1], nn), cmp_bdd("<=", ZERO, x.a[1])))
        return g == 0

    def proved(self, L, p, x, g=1):
        got = ar.at(L, [p])
        g = band(g, self.facts)
        if x.op == "el" and x.a[0] is SL:
            g = band(g, cmp_bdd("<", x.a[1], nn))
            g = band(g, cmp_bdd("<=", ZERO, x.a[1]))
        try:
            return g == 0 or eq.is_zero(tm.restrict(sub(got, x), g), g, eq.Prover(5)) is True
        except eq.Budget:
            return False


def truth(t):
    if t.op == "bool":
        return t.a[0]
    if t is TRUE:
        return 1
    if t is FALSE:
        return 0
    return tm.batom(mk("truthy", t))


def sorted_terms(perm, *ts):
    """replace argsort(C)[j] by the position in C of the j-th smallest node label"""
    for _ in range(12):
        todo = None
        for t in ts:
            todo = innermost(t if not isinstance(t, int) else tm.mkbool(t))
            if todo is not None:
                break
        if todo is None:
            return ts
        L, j = todo.a[0], None
        if todo.op == "argsortv":
            j = todo.a[1]
        else:
            b, body = body_of(L)
            if b is None:
                return None
            n = ar.lam(mk("lam", L.a[0], L.a[1], tm.neg(body)))
            if lab_list(n):
                L, j = n, ZERO
            elif lab_list(L):
                j = sub(L.a[0][0], ONE)
            else:
                return None
        if L is W.LABN:
            p = ar.pos(W.LABN, ar.el(SL, j))
        else:
            p = perm.at(L, ar.el(SL, j))
        if p is None:
            return None
        p = tm.restrict(p, perm.case)
        ts = tuple(rebuild(t, todo, p) for t in ts)
    return None


def lab_list(L):
    out = []
    if L.op != "lam":
        return L is W.LABN
    Perm().leaves(L.a[2], out)
    return all(v.op == "el" and v.a[0] in (W.LABN, SL, W.BNODES, W.FNODES) for v in out)


def rebuild(t, a, b):
    if isinstance(t, int):
        return truth(tm.subst(tm.mkbool(t), {a: b}))
    return tm.subst(t, {a: b})


def innermost(t):
    """an argsort term without sorted subterms"""
    seen, best = set(), None
    for x in tm.walk(t):
        if x.op in ("argsortv", "argmaxv") and x not in seen:
            seen.add(x)
            if not any(y.op in ("argsortv", "argmaxv") for s in tm.subterms(x) for y in tm.walk(s)):
                return x
    return best


def no_sort(t):
    return not any(y.op in ("argsortv", "argmaxv", "argsort") for y in tm.walk(t))


# ---------------------------------------------------------------- samples
def prep(bs, fs, valid):
    def f(s):
        r = s.rnd
        n = s.dims[nn]
        if n < 2:
            return False
        labs = [int(x) for x in s.arrs[W.LABN]]
        r.shuffle(labs)
        s.arrs[W.LABN] = np.array(labs)
        s.arrs[SL] = np.array(sorted(labs))
        s.bad = False
        for A, d, on in ((W.BNODES, nb, bs), (W.FNODES, nf, fs)):
            if not on:
                continue
            k = r.randint(0 if not valid else 1, n)
            a = r.sample(labs, k)
            if not valid and r.random() < 0.5:
                a.insert(r.randint(0, len(a)), max(labs) + r.randint(1, 3) if r.random() < 0.6 else min(labs) - 1)
                s.bad = True
            s.dims[d] = len(a)
            s.arrs[A] = np.array(a, dtype=int)
        return None

    return f


def table(I, st, M, bs, fs, steps=2):
    W.populate(I, st, M, steps=steps)
    r = W.fld(I, st, M, "ExtForces").a[0]
    if fs:
        st.s[(r, ".", "forces")] = I.new_array(st, FVALS)
    else:
        for f in ("nodes", "forces"):
            st.s[(r, ".", f)] = NONE
    if not bs:
        r = W.fld(I, st, M, "Boundaries").a[0]
        for f in ("Unodes", "Uvalues"):
            st.s[(r, ".", f)] = NONE


@check("C16", "value graph of Model.build on arbitrary tables in arbitrary order: label and value arrays compared entry by entry with the reference completion; sorting eliminated by a position lemma proved on the term")
def c16(rep):
    tm.POSITIVE.add(nn)
    for bs in (True, False):
        for fs in (True, False):
            c16_case(rep, bs, fs)
    c16_case(rep, True, False, 1)
    c16_case(rep, True, False, 3)


def c16_case(rep, bs, fs, steps=2):
    I = im.Interp(rep.prog)
    rep.interps.append(I)
    st = im.State()
    M = W.new_model(I, st)
    table(I, st, M, bs, fs, steps)
    cls = W.public(rep.prog, "trusspy.Model")
    b = W.method(rep.prog, cls, "build")
    v, st = I.run(b, {b.args.args[0].arg: M}, st)
    case = "[boundaries %s, forces %s, %d step(s)]" % ("given" if bs else "none", "given" if fs else "none", steps)
    get = lambda h, f: I.num(st, W.fld(I, st, W.fld(I, st, M, h), f))
    i, c = index("i", nn), None

    def default(A, V, k):
        def fn(i, *q):
            x = ar.el(SL, i)
            if A is None:
                return x if V is None else const(k)
            if V is None:
                return x
            return ite(inset(A, x), ar.at(V, [ar.pos(A, x), *q]), const(k))

        return fn

    B = W.BNODES if bs else None
    F = W.FNODES if fs else None
    obs = [
        ("Nodes", "labels", "node labels ascending", (nn,), lambda i: ar.el(SL, i)),
        ("Nodes", "coords", "coordinates of the label", (nn, THREE), lambda i, q: ar.at(W.COORDS, [ar.pos(W.LABN, ar.el(SL, i)), q])),
        ("Boundaries", "Unodes", "one boundary per node, in node order", (nn,), lambda i: ar.el(SL, i)),
        ("Boundaries", "Uvalues", "boundary values of the label, free where undefined", (nn, THREE), default(B, W.BVALS, 1)),
        ("ExtForces", "nodes", "one force per node, in node order", (nn,), lambda i: ar.el(SL, i)),
        ("ExtForces", "forces", "forces of the label in every step, zero where undefined", (nn, const(3 * steps)), default(F, FVALS, 0)),
    ]
    node = b
    nbd = nb if bs else ZERO
    nfd = nf if fs else ZERO
    fin = Perm()
    ts, done = {}, {}
    for h, f, what, shape, fn in obs:
        t = get(h, f)
        ts[f] = t
        what = "%s.%s: %s %s" % (h, f, what, case)
        ok = settled(rep, fin, t, shape, fn, (nbd, nfd))
        done[f] = ok
        if ok:
            rep.held(what, node, "sorting by the own labels; entry for entry equal to the reference")
        else:
            rep.arr(what, positive_n(t), shape, fn, node=node, pc=1, prep=prep(bs, fs, True), assume=lambda s: s.gate(st.pc))
    accept(rep, st, fin, case, bs, fs, ts, node, done["labels"] and done["Unodes"] and done["nodes"])


def sizes(s, d):
    """length of a completed table of valid definitions: the nodes"""
    if s is nn:
        return True
    # nodes not in S, for S a subset of the nodes: nn - len(S)
    P = sub(s, nn)
    for A, n in ((W.BNODES, nb), (W.FNODES, nf)):
        for x in list(tm.walk(s)):
            if x.op == "dim" and len(x.a) == 2 and x.a[0] == "count":
                m = x.a[1]
                b, body = body_of(m)
                if b is None:
                    continue
                for lab in (SL, W.LABN):
                    if m.a[0][0] is nn and truth(body) == bnot(inset(A, ar.el(lab, b))):
                        P = tm.subst(P, {x: sub(nn, n)})
    return P is ZERO


def settled(rep, perm, t, shape, fn, d):
    """proved equal to the reference for all valid definitions"""
    s = ar.shape(t)
    if s is None:
        t = positive_n(t)
        s = ar.shape(t)
    if s is None or len(s) != len(shape):
        return False
    for p, q in zip(s[1:], shape[1:]):
        if p is not q and rep.same_value(p, q)[0] is not True:
            return False
    ix = [index("i%d" % k, n) for k, n in enumerate(shape)]
    cases = [1]
    for A in (W.BNODES, W.FNODES):
        c = inset(A, ar.el(SL, ix[0]))
        cases = [band(q, p) for q in cases for p in (c, bnot(c))]
    for q in cases:
        perm.case = q
        if not settled_case(perm, ar.at(t, list(ix)), s[0], fn(*ix), ix, shape, d, q):
            return False
    return True


def settled_case(perm, x, s0, y, ix, shape, d, q):
    r = sorted_terms(perm, x, s0)
    if r is None:
        return False
    x, s0 = r
    if not sizes(s0, d) or not no_sort(x):
        return False
    if x is y:
        return True
    g = band(perm.facts, q)
    for i, n in zip(ix, shape):
        g = band(g, band(cmp_bdd("<", i, n), cmp_bdd("<=", ZERO, i)))
    try:
        return g == 0 or eq.is_zero(tm.restrict(sub(x, y), g), g, eq.Prover(10)) is True
    except eq.Budget:
        return False


def positive_n(t):
    """at least one node"""
    return tm.restrict(t, cmp_bdd("<=", const(2), nn))


def accept(rep, st, perm, case, bs, fs, ts, node, settled):
    """build returns for valid definitions, and rejects what cannot be matched to the nodes"""
    pc = st.pc
    what = "build accepts valid and rejects unmatched definitions " + case
    want = tm.batom(mk("sym", "definitions.valid", "bool"))
    atoms = tm.bsupport(pc)
    ok = bool(atoms)
    need = {"Unodes": bs, "nodes": fs}
    for a in atoms:
        if a.op != "allsame" or a.a[0].op != "const":
            ok = False
    if settled and (ok or not (bs or fs)):
        r = rejects(rep, perm, pc, ts, need)
        if r:
            return rep.held(what, node, "every return passes a comparison of the node labels with the %s labels" % " and ".join(k for k in need if need[k]))
    # samples: the gate against the definition
    from .. import num

    wit = None
    unk = None
    for k in range(300):
        s = num.Sample("%s/%s/%d" % (rep.pid, rep.seed, k))
        try:
            if prep(bs, fs, False)(s) is False:
                continue
            got = s.gate(truth(positive_n(tm.mkbool(pc))))
        except num.Reject:
            continue
        except num.Unknown as e:
            unk = e
            continue
        if got == s.bad:
            wit = (s, got)
            break
    if wit:
        s, got = wit
        return rep.bad(what, node, "definitions %s the nodes %s, boundaries at %s, forces at %s: build %s" % (
            "that do not match" if s.bad else "matching", list(s.arrs[W.LABN]), list(s.arrs.get(W.BNODES, ())) if bs else None, list(s.arrs.get(W.FNODES, ())) if fs else None, "returns" if got else "raises"))
    rep.und(what, node, "not understood: %s" % (unk or tm.bshow(pc)[:300]))


def rejects(rep, perm, pc, ts, need):
    for f, on in need.items():
        if not on:
            continue
        x, y = ts["labels"], ts[f]
        hit = [a for a in tm.bsupport(pc) if a.op == "allsame" and {a.a[1], a.a[2]} == {ar.lam(x), ar.lam(y)}]
        if not hit or not any(band(pc, bnot(tm.batom(a))) == 0 for a in hit):
            return False
    # valid definitions: both label arrays are the sorted node labels (proved above), the comparison holds
    rest = pc
    for a in tm.bsupport(pc):
        if a.op == "allsame":
            rest = tm.restrict_bdd(rest, tm.batom(a)) if hasattr(tm, "restrict_bdd") else band(rest, tm.batom(a))
    g = pc
    allv = 1
    for a in tm.bsupport(pc):
        if a.op == "allsame":
            allv = band(allv, tm.batom(a))
        elif cmp_bdd("<=", ONE, nn) == 1:
            pass
        else:
            return False
    return g == allv
