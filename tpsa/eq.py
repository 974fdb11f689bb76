"""Deciding equality of two terms.

Equality is *proved* by normal forms: case split over the gates (branch
conditions), infeasible combinations pruned, and in every case the difference is
a rational function that vanishes identically (denominators cleared).  A
difference that survives is reported as a violation only when a concrete
interpretation of the symbols (tpsa.num) confirms that the two terms denote
different values; otherwise the obligation stays undecided.
"""
import time
from fractions import Fraction

from . import arrays as ar
from . import terms as tm
from .terms import ONE, ZERO, T, add, band, batom, bite, bnot, bsupport, cmp_bdd, const, ite, mk, mkbool, mul, neg, powi, sub, to_poly, walk


class Budget(Exception):
    pass


class Prover:
    def __init__(self, limit=20.0, cases=20000):
        self.t0 = time.process_time()
        self.limit = limit
        self.cases = cases
        self.n = 0

    def tick(self):
        self.n += 1
        if self.n > self.cases or time.process_time() - self.t0 > self.limit:
            raise Budget()


# ------------------------------------------------------------ theory of gate atoms
def constraints(assign):
    """linear constraints (poly dict, strict) meaning poly < 0 / <= 0, and equalities"""
    lt, le, eqs = [], [], []
    for a, v in assign.items():
        if a.op == "lt0":
            p = to_poly(a.a[0])
            if v:
                lt.append(p)
            else:
                le.append({m: -c for m, c in p.items()})
        elif a.op == "eq0":
            p = to_poly(a.a[0])
            if v:
                eqs.append(p)
            elif assign.get(mk("lt0", a.a[0])) is False:
                lt.append({m: -c for m, c in p.items()})
        elif a.op == "le":
            p = dict(to_poly(a.a[0]))
            if v:
                p[()] = p.get((), 0) - a.a[1]
                le.append(p)
            else:
                q = {m: -c for m, c in p.items()}
                q[()] = q.get((), 0) + a.a[1] + 1
                le.append(q)
    return lt, le, eqs


def _nonneg_mono(m):
    """'+' strictly positive, '0' nonnegative, None"""
    s = "+"
    for a, e in m:
        if tm.positive(a):
            continue
        if a.op in ("abs", "sqrt", "norm") or a in tm.NONNEG or a.op in ("ctr", "last", "pos", "len", "dim") or (isinstance(e, int) and e % 2 == 0):
            s = "0"
            continue
        return None
    return s


def _norm_con(p):
    return {m: c for m, c in p.items() if c}


def feasible(assign, budget=4000):
    """False only if the linear relaxation of the gate case has no solution"""
    lt, le, eqs = constraints(assign)
    if not (lt or le or eqs):
        return True
    cons = [(p, True) for p in lt] + [(p, False) for p in le]
    # denominators: multiply by positive factors
    pos = set()
    for p in [c for c, _ in cons] + eqs:
        for m in p:
            for a, e in m:
                if tm.positive(a):
                    pos.add(a)
    extra = []
    if len(pos) <= 3:
        for p, s in cons:
            for a in pos:
                for e in (1, -1):
                    if e == -1 and not any(a in dict(m) for m in p):
                        continue
                    extra.append((to_poly(mul(tm.from_poly(dict(p)), powi(a, e))), s))
        neweq = []
        for p in eqs:
            for a in pos:
                neweq.append(to_poly(mul(tm.from_poly(dict(p)), a)))
        eqs = eqs + neweq
    cons += extra
    for p in eqs:
        cons.append((p, False))
        cons.append(({m: -c for m, c in p.items()}, False))
    monos = {m for p, _ in cons for m in p if m}
    for m in monos:
        k = _nonneg_mono(m)
        if k:
            cons.append(({m: -1}, k == "+"))
    return fm(cons, budget)


def fm(cons, budget):
    """Fourier-Motzkin: False iff the system of p < 0 / p <= 0 is unsatisfiable"""
    cur = []
    seen = set()

    def put(lst, p, s):
        p = _norm_con(p)
        if not [m for m in p if m]:
            c = p.get((), 0)
            if c > 0 or (s and c == 0):
                return False
            return True
        k = max(abs(c) for m, c in p.items() if m)
        p = {m: c / k if not isinstance(c, int) else Fraction(c, 1) / k for m, c in p.items()}
        key = (frozenset(p.items()), s)
        if key in seen:
            return True
        seen.add(key)
        lst.append((p, s))
        return True

    for p, s in cons:
        if not put(cur, p, s):
            return False
    while True:
        cnt = {}
        for p, s in cur:
            for m, c in p.items():
                if m:
                    u = cnt.setdefault(m, [0, 0])
                    u[0 if c > 0 else 1] += 1
        if not cnt:
            return True
        m = min(cnt, key=lambda x: cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1])
        up, lo, rest = [], [], []
        for p, s in cur:
            c = p.get(m, 0)
            (up if c > 0 else lo if c < 0 else rest).append((p, s))
        if len(up) * len(lo) + len(rest) > budget:
            return True
        seen = set()
        nxt = []
        for p, s in rest:
            put(nxt, p, s)
        for p, s in up:
            for q, t in lo:
                a, b = p[m], -q[m]
                r = {}
                for x, c in p.items():
                    r[x] = r.get(x, 0) + c * b
                for x, c in q.items():
                    r[x] = r.get(x, 0) + c * a
                r.pop(m, None)
                if not put(nxt, r, s or t):
                    return False
        cur = nxt


RANGES = {}  # array -> (lowest, highest) value of its elements: domain of the current query


def _range(b):
    if b.op == "el":
        return RANGES.get(b.a[0])
    return None


def theory(assign):
    """refute an assignment {atom: bool} of gate atoms; None if infeasible"""
    fixed = []
    les = {}
    for a, v in assign.items():
        if a.op == "le":
            lo, hi = les.get(a.a[0], (None, None))
            if v:
                hi = a.a[1] if hi is None else min(hi, a.a[1])
            else:
                lo = a.a[1] + 1 if lo is None else max(lo, a.a[1] + 1)
            les[a.a[0]] = (lo, hi)
        if a.op == "eq0" and v and assign.get(mk("lt0", a.a[0])):
            return None
    for b, (lo, hi) in les.items():
        if RANGES:
            r = _range(b)
            if r is not None:
                lo = r[0] if lo is None else max(lo, r[0])
                hi = r[1] if hi is None else min(hi, r[1])
        if lo is not None and hi is not None:
            if lo > hi:
                return None
            if lo == hi:
                fixed.append((to_poly(b), lo))
    # a value that is not in an array is not one of its elements
    for a, v in assign.items():
        if a.op == "inset" and not v and a.a[1].op == "const":
            for p, val in fixed:
                if len(p) == 1:
                    (m, c), = p.items()
                    if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "el" and m[0][0].a[0] is a.a[0] and tm.cval(a.a[1]) == val:
                        return None
    # x-p == 0, x-q == 0  =>  p == q : may contradict a domain fact or another atom
    for i in range(len(fixed)):
        for j in range(i):
            for s in (1, -1):
                d = dict(fixed[i][0])
                for m, c in fixed[j][0].items():
                    d[m] = d.get(m, 0) + s * c
                    if not d[m]:
                        del d[m]
                val = fixed[i][1] + s * fixed[j][1]
                if not d:
                    if val != 0:
                        return None
                    continue
                e = cmp_bdd("==", tm.from_poly(dict(d)), const(val))
                if e == 0:
                    return None
                if e != 1:
                    for a in bsupport(e):
                        if a in assign:
                            e = tm.brestrict(e, batom(a) if assign[a] else bnot(batom(a)))
                    if e == 0:
                        return None
    if not feasible(assign):
        return None
    return assign


def abs_free(t):
    """abs and sign as case distinctions"""
    m = {}
    for x in walk(t):
        if x.op == "abs":
            y = x.a[0]
            m[x] = ite(cmp_bdd("<", y, ZERO), neg(y), y)
        elif x.op == "sign":
            y = x.a[0]
            m[x] = ite(cmp_bdd("<", y, ZERO), const(-1), ite(cmp_bdd("==", y, ZERO), ZERO, ONE))
    return tm.subst(t, m) if m else t


def deep(t, c, memo):
    """restrict gates anywhere in t (also inside the arguments of conditions) by c"""
    bm = memo.setdefault("b", {})

    def ft(x):
        r = memo.get(x)
        if r is None:
            if x.op == "ite":
                g = fb(x.a[0])
                r = ft(x.a[1]) if g == 1 else ft(x.a[2]) if g == 0 else ite(g, ft(x.a[1]), ft(x.a[2]))
            elif x.op in ("const", "sym", "asym"):
                r = x
            elif not tm.has_gate(x):
                r = x
            else:
                r = tm.rebuild(x, ft, fb)
            memo[x] = r
        return r

    def fb(b):
        r = bm.get(b)
        if r is None:
            g = tm.brestrict(b, c) if c not in (0, 1) else b
            if g > 1 and any(tm.has_gate(s) for a in bsupport(g) for s in tm.subterms(a)):
                g = tm.bmap(g, lambda a: tm.rebuild_atom(a, ft) if any(tm.has_gate(s) for s in tm.subterms(a)) else batom(a))
                g = tm.brestrict(g, c) if c not in (0, 1) and g > 1 else g
            r = bm[b] = g
        return r

    return ft(t)


def first_atom(t, inside=True):
    """a gate atom without gates of its own (inside=False: not below a sum)"""
    best = None
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "sumk" and not inside:
            continue
        if x.op in ("ite", "bool"):
            for a in bsupport(x.a[0]):
                if not any(tm.has_gate(s) for s in tm.subterms(a)):
                    return a
                best = a
            for a in bsupport(x.a[0]):
                st.extend(tm.subterms(a))
        st.extend(s for s in tm.subterms(x) if tm.has_gate(s) or s.op in ("ite", "bool"))
    return None if best is None else best


def clear(t):
    """numerator of t after clearing composite denominators"""
    for _ in range(12):
        p = to_poly(t)
        g = None
        for m in p:
            for a, e in m:
                if a.op == "grp" and isinstance(e, int) and e < 0:
                    if g is None or len(walk_size(a)) > len(walk_size(g)):
                        g = a
        if g is None:
            return t
        k = max(-e for m in p for a, e in m if a is g)
        out = []
        for m, c in p.items():
            e0 = next((e for a, e in m if a is g), 0)
            rest = tm.from_poly({tuple((a, e) for a, e in m if a is not g): c})
            out.append(mul(rest, powi(g.a[0], k + e0)))
        t = add(ZERO, *out)
    return t


def walk_size(t):
    return list(walk(t))


def sums(t):
    """(rest, {dim: body}) : t = rest + sum over k < dim of body(k)"""
    p = to_poly(t)
    rest, by = [], {}
    for m, c in p.items():
        sk = [(a, e) for a, e in m if a.op == "sumk"]
        if len(sk) == 1 and sk[0][1] == 1:
            a = sk[0][0]
            k = mk("gi", ("κ", a.a[1]))
            tm.NONNEG.add(k)
            o = tm.from_poly({tuple((b, e) for b, e in m if b is not a): c})
            by.setdefault(a.a[1], []).append(mul(o, tm.subst(a.a[2], {a.a[0]: k})))
        else:
            rest.append(tm.from_poly({m: c}))
    return add(ZERO, *rest), {d: add(ZERO, *xs) for d, xs in by.items()}


def is_zero(t, pc=1, pr=None):
    """proof that t == 0 whenever pc; True or the (case, term) that resists"""
    pr = pr or Prover()
    if pc == 0:
        return True
    t = abs_free(tm.restrict(t, pc))
    if pc > 1:
        # the path condition takes part in the case analysis
        t = mk("ite", pc_free(pc), t, ZERO) if pc_free(pc) > 1 else (t if pc_free(pc) == 1 else ZERO)
    return _zero(t, {}, pr)


def pc_free(pc):
    return tm.asbdd_or(abs_free(mkbool(pc)))


def _zero(t, assign, pr):
    pr.tick()
    if t is ZERO:
        return True
    if not tm.has_gate(t):
        n = clear(t)
        if n is ZERO or not to_poly(n):
            return True
    a = first_atom(t, False)
    if a is None:
        n = clear(t)
        if n is ZERO or not to_poly(n):
            return True
        rest, by = sums(n)
        if by:
            ok = True
            for d, b in by.items():
                k = mk("gi", ("κ", d))
                b = mk("ite", cmp_bdd("<", k, d), abs_free(b), ZERO)
                if _zero(b, dict(assign), pr) is not True:
                    ok = False
                    break
            if ok and (rest is ZERO or not to_poly(clear(rest))):
                return True
        if by_equalities(n, assign):
            return True
        a = first_atom(t)
        if a is None:
            return (assign, n)
    for v in (True, False):
        c = batom(a) if v else bnot(batom(a))
        s = dict(assign)
        s[a] = v
        if theory(s) is None:
            continue
        r = _zero(abs_free(deep(t, c, {})), s, pr)
        if r is not True:
            return r
    return True


def by_equalities(n, assign):
    """n vanishes because of an equality of the case (x == linear expression)"""
    m = {}
    for a, v in assign.items():
        if not v:
            continue
        if a.op == "eq0":
            p = dict(to_poly(a.a[0]))
        elif a.op == "le" and assign.get(mk("le", a.a[0], a.a[1] - 1)) is False:
            p = dict(to_poly(a.a[0]))
            p[()] = p.get((), 0) - a.a[1]
        elif a.op == "le" and a.a[1] == 0 and tm._nonneg_int(a.a[0]):
            p = dict(to_poly(a.a[0]))
        else:
            continue
        for mo, c in p.items():
            if len(mo) == 1 and mo[0][1] == 1 and mo[0][0] not in m:
                x = mo[0][0]
                rest = tm.from_poly({k: -q / c for k, q in p.items() if k != mo})
                if x not in walk(rest):
                    m[x] = rest
                    break
    if not m:
        return False
    for _ in range(3):
        n = tm.subst(n, m)
        n = clear(n) if not tm.has_gate(n) else n
        if n is ZERO or not to_poly(n):
            return True
    return False


def abstracted(x, y, keep=(), ops=None):
    """the pair with subterms that both sides contain replaced by fresh symbols

    (gated leaves, or maximal subterms with one of the operators ``ops``).  A
    proof for the abstracted pair holds for every value of the symbols."""
    if ops is None:
        ix = {t for t in walk(x) if t.op == "ite" and not any(u.op == "ite" for u in walk(t) if u is not t)}
    else:
        ix = {t for t in walk(x) if t.op in ops}
    iy = {t for t in walk(y) if t in ix} if ix else ()
    ts = [t for t in iy if (t.op != "ite" or not (set(bsupport(t.a[0])) & set(keep))) and tm.kind(t) in ("int", "float", "num")]
    if not ts:
        return None
    m = {}
    for t in ts:
        bvs = sorted({u for u in walk(t) if u.op in ("bv", "gi")}, key=lambda u: u.id)
        m[t] = mk("app", "leaf%d" % t.id, tm.kind(t), *bvs)
        if t in tm.POSITIVE or t.op == "sqrt":
            tm.NONNEG.add(m[t])
    return tm.subst(x, m), tm.subst(y, m)


def equal_bdd(f, g, pc=1, pr=None):
    """conditions equal whenever pc (modulo the theory of the atoms)"""
    d = tm.bor(band(f, bnot(g)), band(g, bnot(f)))
    d = band(d, pc)
    if d == 0:
        return True
    t = mkbool(d)
    pr = pr or Prover()
    t = abs_free(t)
    return _unsat(tm.asbdd_or(t), {}, pr)


def _unsat(d, assign, pr):
    pr.tick()
    if d == 0:
        return True
    if d == 1:
        return (assign, tm.TRUE)
    t = deep(mkbool(d), 1, {})
    d = tm.asbdd_or(t)
    if d in (0, 1):
        return True if d == 0 else (assign, tm.TRUE)
    a = first_atom(t) or bsupport(d)[0]
    for v in (True, False):
        c = batom(a) if v else bnot(batom(a))
        s = dict(assign)
        s[a] = v
        if theory(s) is None:
            continue
        q = tm.brestrict(d, c)
        if tm.has_gate(mkbool(q)) and any(a in walk(x) for x in bsupport(q)):
            q = tm.asbdd_or(deep(mkbool(q), c, {}))
        r = _unsat(q, s, pr)
        if r is not True:
            return r
    return True


UNDERSTOOD_NOT = {"unk", "unkpart", "fld", "item", "extv", "meth", "extmeth", "iterv", "mu", "fresh", "lst", "match?", "boolx", "npx", "lamarr", "likev", "nz",
                  "vcat", "in?", "cmp?", "exists", "unbound", "dictu", "dictof", "empty", "star", "kvstar", "partial"}


def opaque_ops(t, allow=()):
    """operators in t the analysis has no exact meaning for"""
    out = set()
    for x in walk(t):
        if x.op in UNDERSTOOD_NOT and x not in allow:
            out.add(x.op)
    return out
