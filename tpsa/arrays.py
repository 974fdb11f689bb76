"""Array terms: shapes, dtypes and the element semantics (value at an index)."""
from fractions import Fraction

import math
import struct

from . import terms as tm
from .terms import (
    FALSE, NONE, ONE, T, TRUE, ZERO, add, asbdd, band, bite, bnot, bor, cmp_bdd, const, const_poly, cval, div, inv,
    is_const, ite, kind, mk, mkbool, mul, neg, powi, show, sqrt, sub, tabs, to_poly, tpow, truthy, tsign,
)

SHAPE = {}  # registered shapes for opaque terms (mu, app, fresh)
DTYPE = {}
UNIQUE = set()  # 1-d arrays known to hold distinct values (label arrays)

SCALAR_KINDS = ("int", "float", "num", "bool", "str", "none", "func")


def asym(name, shape, dtype="float"):
    return mk("asym", name, tuple(shape), dtype)


def unk(reason, *args):
    return mk("unk", reason, *[a for a in args if isinstance(a, T)])


def dimval(d):
    c = const_poly(d)
    return int(c) if c is not None and c.denominator == 1 else None


_shm = {}


def shape(t):
    """tuple of dims, () for scalars, None when unknown"""
    r = SHAPE.get(t)
    if r is not None:
        return r
    r = _shm.get(t, 0)
    if r == 0:
        r = _shape(t)
        _shm[t] = r
    return r


def bshape(*shs):
    """broadcast"""
    if any(s is None for s in shs):
        return None
    n = max((len(s) for s in shs), default=0)
    out = []
    for k in range(n):
        d = None
        for s in shs:
            j = k - (n - len(s))
            if j < 0:
                continue
            x = s[j]
            if d is None or dimval(d) == 1:
                d = x
        out.append(d)
    return tuple(out)


def prod(dims):
    r = ONE
    for d in dims:
        r = mul(r, d)
    return r


def _shape(t):
    o, a = t.op, t.a
    if o in ("const", "bool", "tuple") and o != "tuple":
        return ()
    if o == "asym":
        return a[1]
    if o == "el" or o in ("pos", "ctr", "last", "lt0", "floordiv", "mod", "argmaxv", "dim", "len", "gi", "bv", "argsortv", "nth"):
        return ()
    if o == "poly":
        return bshape(*[shape(x) for m, c in a for x, e in m]) if any(m for m, c in a) else ()
    if o in ("abs", "sign", "sqrt", "grp", "enot", "int", "float", "f32", "asdt", "isnan"):
        return shape(a[0])
    if o == "pow":
        return bshape(shape(a[0]), shape(a[1]))
    if o in ("sym", "fresh"):
        return () if kind(t) in SCALAR_KINDS else None
    if o == "app":
        return () if a[1] in SCALAR_KINDS else None
    if o == "mu":
        return () if a[2] in SCALAR_KINDS else None
    if o == "ite":
        x, y = shape(a[1]), shape(a[2])
        if x == y:
            return x
        if a[1].op == "unbound":
            return y
        if a[2].op == "unbound":
            return x
        if x is None or y is None or len(x) != len(y):
            return None
        return tuple(p if p is q else ite(a[0], p, q) for p, q in zip(x, y))
    if o in ("zeros", "empty"):
        return a
    if o == "full":
        return a[1:]
    if o == "eye":
        return (a[0], a[0])
    if o in ("ecmp",):
        return bshape(shape(a[1]), shape(a[2]))
    if o in ("eand", "eor"):
        return bshape(shape(a[0]), shape(a[1]))
    if o == "ew":
        return bshape(*[shape(x) for x in a[1:]])
    if o == "where3":
        return bshape(shape(a[0]), shape(a[1]), shape(a[2]))
    if o == "upd":
        return shape(a[0])
    if o == "reshape":
        return a[1]
    if o == "transpose":
        s = shape(a[0])
        if s is None:
            return None
        return tuple(s[k] for k in (a[1] or tuple(reversed(range(len(s))))))
    if o == "npa":
        return npa_shape(a[0])
    if o == "nonzero":
        return (count_dim(a[0]),)
    if o in ("argsort", "sort"):
        return shape(a[0])
    if o == "isin":
        return shape(a[0])
    if o == "arange":
        return (a[0],)
    if o == "cat":
        ax = a[0]
        ss = [shape(x) for x in a[1:]]
        if any(s is None or len(s) <= ax for s in ss):
            return None
        n = add(*[s[ax] for s in ss])
        return ss[0][:ax] + (n,) + ss[0][ax + 1:]
    if o == "stack":
        ax = a[0]
        s = shape(a[1])
        return None if s is None else s[:ax] + (const(len(a) - 1),) + s[ax:]
    if o == "delete":
        s = shape(a[0])
        if s is None:
            return None
        ax = a[2]
        if a[1].op == "nonzero" and len(shape(a[1].a[0]) or ()) == 1:
            return s[:ax] + (count_dim(notmask(a[1].a[0])),) + s[ax + 1:]
        return s[:ax] + (mk("dim", "delete", mk("keep", a[1], s[ax])),) + s[ax + 1:]
    if o == "get":
        return get_shape(a[0], a[1])
    if o == "matmul":
        x, y = shape(a[0]), shape(a[1])
        if x is None or y is None or not x or not y:
            return None
        if len(x) == 1 and len(y) == 1:
            return ()
        if len(x) == 1:
            return y[:-2] + y[-1:]
        if len(y) == 1:
            return x[:-1]
        return x[:-1] + y[-1:]
    if o == "outer":
        x, y = shape(a[0]), shape(a[1])
        return None if x is None or y is None else (prod(x), prod(y))
    if o in ("asum", "amax", "aall", "aany", "prodx"):
        if a[1] is None:
            return ()
        s = shape(a[0])
        if s is None:
            return None
        return s[: a[1]] + s[a[1] + 1:]
    if o == "argmax":
        return ()
    if o in ("lamarr", "lam"):
        return a[0]
    if o == "addat":
        return shape(a[0])
    if o == "sumk":
        return shape(a[2])
    if o == "tuple":
        return None
    if o == "einsum":
        return einsum_shape(t)
    if o == "block2":
        return None
    if o == "linspace":
        return (a[2],)
    return None


def count_dim(m):
    """number of entries of a mask that are set"""
    L = lam(m)
    if L.op == "lam" and len(L.a[0]) == 1 and L.a[2] is tm.TRUE:
        return L.a[0][0]
    if L.op == "lam" and L.a[2] is tm.FALSE:
        return ZERO
    gs = setgates(L)
    if gs is not None:
        return const(sum(gs))
    return mk("dim", "count", L)


def setgates(L):
    """the entries of a mask of known length, if all of them are known"""
    if L.op != "lam" or len(L.a[0]) != 1:
        return None
    d = dimval(L.a[0][0])
    if d is None or not 0 < d <= 8:
        return None
    gs = [tm.asbdd(tm.subst(L.a[2], {L.a[1][0]: const(k)})) for k in range(d)]
    return gs if all(g in (0, 1) for g in gs) else None


def notmask(m):
    """the entries a mask does not set"""
    g = gi("λ0")
    v = at(m, [g])
    b = tm.asbdd(v)
    body = tm.mkbool(tm.bnot(b)) if b is not None else mk("enot", v)
    b, body = bind(body, g)
    return mk("lam", tuple(shape(m)), (b,), body)


def nth(L, i):
    if L.op == "lam" and len(L.a[0]) == 1 and L.a[2] is tm.TRUE:
        return i
    if i.op == "rank" and len(i.a) == 2 and i.a[0] is L:
        return i.a[1]  # the rank-th true entry is the entry itself (where the mask holds)
    gs = setgates(L)
    if gs is not None:
        r = None
        for p, k in reversed(list(enumerate([k for k, g in enumerate(gs) if g]))):
            r = const(k) if r is None else ite(cmp_bdd("==", i, const(p)), const(k), r)
        if r is not None:
            return r
    return mk("nth", L, i)


tm._REB["nth"] = nth


def npa_shape(v):
    if v.op in ("tuple",):
        if not v.a:
            return (ZERO,)
        s = npa_shape(v.a[0])
        return None if s is None else (const(len(v.a)),) + s
    if v.op == "list":
        n = ZERO
        s = None
        for p in v.a:
            if p.op == "e":
                n = add(n, ONE)
                s = npa_shape(p.a[0]) if s is None else s
            elif p.op == "seg":
                k = len([1 for q in p.a[2] if q.op == "e"])
                if k != len(p.a[2]):
                    return None
                n = add(n, mul(const(k), p.a[1]))
                s = npa_shape(p.a[2][0].a[0]) if s is None and p.a[2] else s
            else:
                return None
        if s is None:
            s = ()
        return (n,) + s
    return shape(v)


def norm_key(A, key):
    """expand Ellipsis / missing axes; returns list of items per axis or None"""
    s = shape(A)
    items = list(key)
    n_ax = sum(1 for k in items if not (k is NONE or (is_const(k) and cval(k) is Ellipsis)))
    # a 2-d mask consumes two axes
    for k in items:
        ks = shape(k)
        if isinstance(k, T) and k.op in ("ecmp", "enot", "eand", "eor") and ks is not None and len(ks) == 2:
            n_ax += 1
    if any(is_const(k) and cval(k) is Ellipsis for k in items):
        if s is None:
            return None
        j = next(i for i, k in enumerate(items) if is_const(k) and cval(k) is Ellipsis)
        items[j:j + 1] = [FULL] * (len(s) - n_ax)
    elif s is not None:
        items += [FULL] * (len(s) - n_ax)
    return items


def mkslice(lo, hi, st):
    return mk("slice", lo, hi, st)


FULL = mkslice(NONE, NONE, NONE)


def slice_bounds(sl, dim):
    """(lo, n, step) for a slice on an axis of size dim; None if unsupported"""
    lo, hi, st = sl.a
    step = ONE if st is NONE else st
    sv = dimval(step)
    if sv not in (1, -1):
        if sv is not None and sv > 0 and lo is NONE and hi is NONE:
            return ZERO, mk("floordiv", add(dim, const(sv - 1)), const(sv)), sv
        return None
    if sv == -1:
        if lo is NONE and hi is NONE:
            return sub(dim, ONE), dim, -1
        return None

    def fix(x):
        c = const_poly(x)
        if c is not None and c < 0:
            return add(dim, x)
        return x

    l = ZERO if lo is NONE else fix(lo)
    h = dim if hi is NONE else fix(hi)
    # clip against a constant dim
    dv = dimval(dim)
    if dv is not None:
        lv, hv = dimval(l), dimval(h)
        if hv is not None and hv > dv:
            h = dim
        if lv is not None and lv > dv:
            l = dim
    n = sub(h, l)
    nv = dimval(n)
    if nv is not None and nv < 0:
        n = ZERO
    return l, n, 1


def is_mask(k):
    if k.op in ("ecmp", "enot", "eand", "eor", "isin"):
        return True
    return k.op == "asym" and k.a[2] == "bool" or DTYPE.get(k) == "bool"


def get_shape(A, key):
    s = shape(A)
    if s is None:
        return None
    items = norm_key(A, key)
    if items is None:
        return None
    out = []
    ax = 0
    fancy = None
    fpos = None
    for it in items:
        if it is NONE:
            out.append(ONE)
            continue
        if ax >= len(s):
            return None
        d = s[ax]
        if it.op == "slice":
            b = slice_bounds(it, d)
            if b is None:
                return None
            out.append(b[1])
            ax += 1
            continue
        ks = shape(it)
        if is_mask(it):
            if ks is None:
                return None
            sh = (count_dim(it),)
            ax += len(ks)
        elif ks == ():
            ax += 1
            continue
        elif ks is None:
            return None
        else:
            sh = ks
            ax += 1
        if fancy is None:
            fancy = sh
            fpos = len(out)
        else:
            fancy = bshape(fancy, sh)
    if fancy is not None:
        out[fpos:fpos] = list(fancy)
    return tuple(out)


# ------------------------------------------------------------- lambda forms
_bvd = [0]


def bv(d):
    return mk("bv", d)


def maxbv(t):
    m = _mbm.get(t)
    if m is None:
        m = -1
        if t.op == "bv":
            m = t.a[0]
        for s in tm.subterms(t):
            m = max(m, maxbv(s))
        if t.op in ("ite", "bool"):
            for s in tm.bsupport(t.a[0]):
                m = max(m, maxbv(s))
        _mbm[t] = m
    return m


_mbm = {}


def bind(body, var):
    """close body over var: canonical bound variable"""
    b = bv(_bound_depth(body) + 1)
    return b, tm.subst(body, {var: b})


def _bound_depth(t):
    # highest bv already bound inside
    return maxbv(t)


def within(body, g, s):
    """the indices stay inside the array"""
    if tm.has_gate(body):
        f = 1
        for x, d in zip(g, s):
            f = tm.band(f, tm.cmp_bdd("<", x, d), tm.cmp_bdd(">=", x, ZERO))
        if f > 1:
            body = tm.restrict(tm.deep(body, f), f)
    return body


def lam(A):
    """canonical form of a 1-d array (or n-d, row-major indices)"""
    s = shape(A)
    if s is None or A.op == "asym":
        return A
    g = [gi("λ%d" % k) for k in range(len(s))]
    body = at(A, g)
    body = within(body, g, s)
    # eta
    if body.op == "el" and list(body.a[1:]) == g and shape(body.a[0]) == s:
        return body.a[0]
    vs = []
    for x in g:
        b, body = bind(body, x)
        vs.append(b)
    return mk("lam", tuple(s), tuple(vs), body)


tm._REB["nonzero"] = lambda m: mk("nonzero", m)


def gi(name, bound=None, kindp="int"):
    return mk("gi", name) if bound is None else mk("gi", name, bound)


_oldkind = tm._kind


def _kind(t):
    o = t.op
    if o == "el":
        b = t.a[0]
        if b.op == "asym":
            return b.a[2]
        return DTYPE.get(b, "num")
    if o in ("gi", "bv", "argsortv", "argmaxv", "nth", "mod", "rank"):
        return "int"
    if o in ("lt0", "eq0", "le", "inset", "truthy", "isnone"):
        return "bool"
    if o in ("asum", "amax", "prodx"):
        s = shape(t)
        return "num" if s == () else ("arr" if s is not None else "any")
    if o in ("aall", "aany"):
        return "bool" if t.a[1] is None else "arr"
    if o in ("get", "matmul", "lam", "einsum", "ew", "mu", "app", "sumk", "fresh"):
        if o in ("mu",):
            if t.a[2] != "arr":
                return t.a[2]
        if o in ("app", "fresh") and t.a[1] not in ("arr", "any"):
            return t.a[1]
        s = shape(t)
        if s is None:
            return "any" if o not in ("mu", "app", "fresh") else t.a[2] if o == "mu" else t.a[1]
        return "num" if s == () else "arr"
    return _oldkind(t)


tm._kind = _kind


def positive(t):
    if t in tm.POSITIVE:
        return True
    if t.op == "el" and t.a[0] in tm.POSITIVE:
        return True
    return False


tm.positive = positive


def _tabs(t):
    c = const_poly(t)
    if c is not None:
        return tm.from_poly({(): abs(c)})
    if t.op in ("abs", "sqrt", "norm", "len", "dim", "pos", "ctr", "gi", "bv") or positive(t):
        return t
    if t.op == "poly":
        p = dict(t.a)
        # pull out positive common factors
        common = None
        for m in p:
            dm = {a: e for a, e in m if positive(a)}
            common = dm if common is None else {a: (min(e, dm[a]) if e > 0 and dm[a] > 0 else max(e, dm[a]) if e < 0 and dm[a] < 0 else 0) for a, e in common.items() if a in dm}
        common = {a: e for a, e in (common or {}).items() if e}
        # denominators that appear in every monomial with different powers: keep simple
        if common:
            mm = tuple(sorted(((a, -e) for a, e in common.items()), key=lambda x: x[0].id))
            inner = tm.from_poly({tm._mmul(m, mm): c for m, c in p.items()})
            f = tm.from_poly({tuple(sorted(common.items(), key=lambda x: x[0].id)): Fraction(1)})
            return mul(f, _tabs(inner))
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) > 1 or c not in (1,) or m[0][1] != 1:
                r = tm.from_poly({(): abs(c)})
                for a, e in m:
                    r = mul(r, powi(_tabs(a), e))
                return r
        items = sorted(p.items(), key=lambda mc: (mc[0] == (), tuple((a.id, e) for a, e in mc[0])))
        if items[0][1] < 0:
            return _tabs(neg(t))
    return mk("abs", t)


tm.tabs = _tabs
tm._REB["abs"] = _tabs
tabs = _tabs


def _tsign(t):
    c = const_poly(t)
    if c is not None:
        return const(int(c > 0) - int(c < 0))
    if t.op == "sign":
        return t
    if t.op == "abs":
        r = _tsign(t.a[0])
        return mul(r, r)
    if t.op == "poly":
        p = dict(t.a)
        if len(p) == 1:
            (m, c), = p.items()
            pos = [a for a, e in m if positive(a)]
            if pos or abs(c) != 1 or c < 0 or len(m) > 1:
                r = const(1 if c > 0 else -1)
                for a, e in m:
                    if positive(a):
                        continue
                    r = mul(r, powi(_tsign(a), 1 if e % 2 else 2))
                return r
        common = None
        for m in p:
            dm = {a: e for a, e in m if positive(a)}
            common = dm if common is None else {a: e for a, e in common.items() if dm.get(a) == e}
        if common:
            mm = tuple(sorted(((a, -e) for a, e in common.items()), key=lambda x: x[0].id))
            return _tsign(tm.from_poly({tm._mmul(m, mm): c for m, c in p.items()}))
    if positive(t):
        return ONE
    if t.op == "poly" and len(t.a) > 1:
        P, fl = tm._sgn_canon(dict(t.a))
        return neg(mk("sign", P)) if fl else mk("sign", P)
    return mk("sign", t)


tm.tsign = _tsign
tm._REB["sign"] = _tsign
tsign = _tsign


# ------------------------------------------------------------- elements
_atm = {}


AT_MU = [None]


def at(t, idx):
    """scalar value of array term t at indices idx (list of scalar terms)"""
    k = (t, tuple(idx))
    r = _atm.get(k)
    if r is None:
        r = _at(t, list(idx))
        _atm[k] = r
    return r


def fixneg(i, d):
    c = const_poly(i)
    if c is not None and c < 0 and d is not None:
        return add(d, i)
    return i


ELVAL = {}  # (array, index) -> value assumed for the query being decided


def assume_el(m):
    """context: elements of opaque arrays with an assumed value"""
    ELVAL.clear()
    ELVAL.update(m)
    _atm.clear()


import contextlib


@contextlib.contextmanager
def assuming(m):
    assume_el(m)
    try:
        yield
    finally:
        assume_el({})


def el(base, *idx):
    """element of an opaque array; double negatives / inverse positions handled here"""
    if ELVAL:
        r = ELVAL.get((base,) + idx)
        if r is not None:
            return r
    if len(idx) == 1:
        # L[pos(L,v)] -> v
        if idx[0].op == "pos" and idx[0].a[0] is base:
            return idx[0].a[1]
    return mk("el", base, *idx)


tm._REB["el"] = lambda b, *i: el(b, *i) if b.op in ("asym", "mu", "app", "fresh", "lam", "unk") else at(b, list(i))


def pos(L, v):
    if L.op != "asym":
        L = lam(L)
    if v.op == "el" and v.a[0] is L and L in UNIQUE and len(v.a) == 2:
        return v.a[1]
    return mk("pos", L, v)


tm._REB["pos"] = pos


def _badix(t, idx):
    return unk("at:" + t.op, t, *idx)


def _at(t, idx):
    o, a = t.op, t.a
    s = shape(t)
    if (s == () and o not in ("get", "matmul", "asum", "einsum")) or (not idx and s is None):
        return t
    if s is None:
        if o == "ite":
            return ite(a[0], at(a[1], idx), at(a[2], idx))
        if o == "poly":
            pass
        elif o == "tuple" or o == "list":
            return at(mk("npa", t, "dyn"), idx)
        else:
            return mk("el", t, *idx)
    if s is not None and len(idx) > len(s):
        return _badix(t, idx)
    if s is not None:
        idx = [fixneg(i, d) for i, d in zip(idx, s)] + idx[len(s):]

    def sub_at(x):
        """broadcast operand"""
        sx = shape(x)
        if sx == ():
            return x
        if sx is None:
            if kind(x) in SCALAR_KINDS:
                return x
            return at(x, idx)
        ii = idx[len(idx) - len(sx):]
        ii = [ZERO if dimval(d) == 1 else i for i, d in zip(ii, sx)]
        return at(x, ii)

    if o == "mu" and s is not None and len(idx) == len(s):
        r = AT_MU[0](t, idx) if AT_MU[0] is not None else None
        if r is not None:
            return r
    if o == "asym" or o in ("mu", "app", "fresh", "unk", "lamsym"):
        return el(t, *idx)
    if o == "lam":
        return tm.subst(a[2], dict(zip(a[1], idx)))
    if o == "poly":
        ts = []
        for m, c in a:
            fs = [tm.from_poly({(): c})]
            for x, e in m:
                fs.append(powi(sub_at(x), e))
            ts.append(mul(*fs))
        return add(*ts)
    if o == "grp":
        return sub_at(a[0])
    if o == "abs":
        return tabs(sub_at(a[0]))
    if o == "sign":
        return tsign(sub_at(a[0]))
    if o == "sqrt":
        return sqrt(sub_at(a[0]))
    if o in ("int", "float", "f32", "asdt"):
        return tm.tint(sub_at(a[0])) if o == "int" else sub_at(a[0])
    if o == "isnan":
        return mkbool(tm.batom(mk("nan", sub_at(a[0]))))
    if o == "pow":
        return tpow(sub_at(a[0]), sub_at(a[1]))
    if o == "ew":
        return ew_scalar(a[0], [sub_at(x) for x in a[1:]])
    if o == "ite":
        return ite(a[0], sub_at(a[1]), sub_at(a[2]))
    if o == "zeros":
        return ZERO
    if o == "full":
        return a[0]
    if o == "empty":
        return unk("uninit")
    if o == "eye":
        return ite(cmp_bdd("==", idx[0], idx[1]), ONE, ZERO)
    if o == "ecmp":
        x, y = sub_at(a[1]), sub_at(a[2])
        return mkbool(ecmp_scalar(a[0], x, y))
    if o == "enot":
        return mkbool(bnot(truthy(sub_at(a[0]))))
    if o in ("eand", "eor"):
        f = band if o == "eand" else bor
        return mkbool(f(truthy(sub_at(a[0])), truthy(sub_at(a[1]))))
    if o == "where3":
        return ite(truthy(sub_at(a[0])), sub_at(a[1]), sub_at(a[2]))
    if o == "isin":
        return mkbool(inset(a[1], sub_at(a[0])))
    if o == "upd":
        return at_upd(a[0], a[1], a[2], idx)
    if o == "get":
        return at_get(a[0], a[1], idx)
    if o == "reshape":
        return at(a[0], reshape_index(idx, a[1], shape(a[0]))) if shape(a[0]) is not None else _badix(t, idx)
    if o == "transpose":
        n = len(s)
        perm = a[1] or tuple(reversed(range(n)))
        src = [None] * n
        for k, p in enumerate(perm):
            src[p] = idx[k]
        return at(a[0], src)
    if o == "npa":
        r = at_npa(a[0], idx)
        return narrow(r, a[1]) if a[1] in ("int", "float32") and shape(r) == () else r
    if o == "nonzero":
        m = a[0]
        if m.op == "ecmp" and m.a[0] == "==":
            for L, v in ((m.a[1], m.a[2]), (m.a[2], m.a[1])):
                if shape(v) == () and shape(L) is not None and len(shape(L)) == 1 and dimval(idx[0]) == 0:
                    return pos(L, v)
        return nth(lam(m), idx[0])
    if o == "argsort":
        return argsortv(a[0], idx[0])
    if o == "sort":
        return at(a[0], [argsortv(a[0], idx[0])])
    if o == "arange":
        return idx[0] if len(a) == 1 else add(a[1], mul(idx[0], a[2]))
    if o == "cat":
        ax = a[0]
        parts = a[1:]
        r = None
        off = ZERO
        offs = []
        for p in parts:
            offs.append(off)
            sp = shape(p)
            if sp is None:
                return _badix(t, idx)
            off = add(off, sp[ax])
        for p, of in reversed(list(zip(parts, offs))):
            v = at(p, idx[:ax] + [sub(idx[ax], of)] + idx[ax + 1:]) if _maybe_in(idx[ax], of, shape(p)[ax]) else None
            if v is None:
                continue
            if r is None:
                r = v
            else:
                r = ite(cmp_bdd("<", idx[ax], add(of, shape(p)[ax])), v, r)
        return r if r is not None else _badix(t, idx)
    if o == "stack":
        ax = a[0]
        parts = a[1:]
        rest = idx[:ax] + idx[ax + 1:]
        k = dimval(idx[ax])
        if k is not None:
            return at(parts[k], rest) if 0 <= k < len(parts) else _badix(t, idx)
        r = at(parts[-1], rest)
        for j in reversed(range(len(parts) - 1)):
            r = ite(cmp_bdd("==", idx[ax], const(j)), at(parts[j], rest), r)
        return r
    if o == "matmul":
        x, y = a
        sx, sy = shape(x), shape(y)
        if len(sx) == 1:
            return contract(sx[0], lambda k: mul(at(x, [k]), at(y, [k] + idx)))
        if len(sy) == 1:
            return contract(sy[0], lambda k: mul(at(x, idx + [k]), at(y, [k])))
        if len(sx) == 2 and len(sy) == 2:
            return contract(sx[1], lambda k: mul(at(x, [idx[0], k]), at(y, [k, idx[1]])))
        return _badix(t, idx)
    if o == "outer":
        return mul(at(a[0], unravel(idx[0], shape(a[0]))), at(a[1], unravel(idx[1], shape(a[1]))))
    if o == "asum":
        ax = a[1]
        d = shape(a[0])[ax]
        return contract(d, lambda k: at(a[0], idx[:ax] + [k] + idx[ax:]))
    if o == "sumk":
        return sumk(a[0], a[1], sub_at(a[2]))
    if o == "delete":
        return mk("el", mk("del", lam_del(t)), *idx) if False else at_delete(t, idx)
    if o == "lamarr":
        return tm.subst(a[2], dict(zip(a[1], idx)))
    if o == "addat":
        # addat(A, bvar, n, cond, val): A + sum over k of ite(cond, val, 0)
        return _badix(t, idx)
    if o == "einsum":
        return einsum_at(t, idx)
    return mk("el", t, *idx) if o in ("tuple",) else _badix(t, idx)


def _maybe_in(i, off, n):
    if n is ZERO:
        return False
    c = const_poly(sub(i, off))
    if c is not None and c < 0:
        return False
    c = const_poly(sub(sub(i, off), n))
    if c is not None and c >= 0:
        return False
    return True


def at_delete(t, idx):
    A, ix, ax = t.a
    # survivors keep their order: element j of the result is the j-th index not deleted
    if ix.op == "nonzero":
        j = nth(lam(notmask(ix.a[0])), idx[ax])
        return at(A, idx[:ax] + [j] + idx[ax + 1:])
    keep = mk("keep", ix, shape(A)[ax])
    j = mk("nth", keep, idx[ax])
    return at(A, idx[:ax] + [j] + idx[ax + 1:])


def ecmp_scalar(op, x, y):
    if op == "==":
        for p, q in ((x, y), (y, x)):
            if p.op == "el" and p.a[0] in UNIQUE and len(p.a) == 2:
                if q.op == "el" and q.a[0] is p.a[0]:
                    return cmp_bdd("==", p.a[1], q.a[1])
                return cmp_bdd("==", p.a[1], pos(p.a[0], q))
    if op == "!=":
        return bnot(ecmp_scalar("==", x, y))
    return cmp_bdd(op, x, y)


_cmp0 = tm.cmp_bdd


def _cmp(op, a, b):
    if op == "==" and a.op == "pos" and b.op == "pos" and a.a[0] is b.a[0] and a.a[0] in UNIQUE:
        return _cmp0("==", a.a[1], b.a[1])
    if op == "==":
        for p, q in ((a, b), (b, a)):
            if p.op == "el" and p.a[0] in UNIQUE and len(p.a) == 2:
                if q.op == "el" and q.a[0] is p.a[0]:
                    return _cmp("==", p.a[1], q.a[1])
                return _cmp0("==", p.a[1], pos(p.a[0], q))
    return _cmp0(op, a, b)


tm.cmp_bdd = _cmp
cmp_bdd = _cmp


def inset(S, v):
    """v in set of values of 1-d array S"""
    if S.op in ("npa",) and S.a[0].op == "tuple":
        r = 0
        for x in S.a[0].a:
            r = bor(r, cmp_bdd("==", x, v))
        return r
    if S.op == "tuple":
        r = 0
        for x in S.a:
            r = bor(r, cmp_bdd("==", x, v))
        return r
    c, s = const_poly(v), shape(S)
    if c is not None and s is not None and len(s) == 1:
        d = dimval(s[0])
        if d is not None and d <= 8:
            vs = [const_poly(at(S, [const(k)])) for k in range(d)]
            if None not in vs:
                return 1 if c in vs else 0
    return tm.batom(mk("inset", lam(S) if s is not None else S, v))


def _reb_inset(S, v):
    return inset(S, v)


tm._REB["inset"] = _reb_inset


def argsortv(A, j):
    """j-th entry of argsort(A)"""
    L = lam(A)
    s = shape(A)
    if s is not None and len(s) == 1:
        d = dimval(s[0])
        if d is not None and 0 < d <= 8:
            vs = [const_poly(at(A, [const(k)])) for k in range(d)]
            if None not in vs and len(set(vs)) == d:
                r = None
                for p, k in reversed(list(enumerate(sorted(range(d), key=lambda k: vs[k])))):
                    r = const(k) if r is None else ite(cmp_bdd("==", j, const(p)), const(k), r)
                return r
        if sub(j, sub(s[0], ONE)) is ZERO:
            return argmaxv(A)
        if j is ZERO:
            return argmaxv(neg(A))
        c = const_poly(sub(j, sub(s[0], ONE)))
        if c is not None and c < 0:
            return mk("argsortv", L, j)
    return mk("argsortv", L, j)


def argmaxv(A):
    return mk("argmaxv", lam(A))


def sumk(b, n, body):
    c = dimval(n)
    if c is not None and c <= 6:
        return add(ZERO, *[tm.subst(body, {b: const(k)}) for k in range(c)])
    if body is ZERO:
        return ZERO
    # linearity: pull monomials apart
    p = to_poly(body)
    out = []
    for m, co in p.items():
        inside, outside = [], [tm.from_poly({(): co})]
        for x, e in m:
            (inside if b in tm.walk(x) else outside).append(powi(x, e))
        if not inside:
            out.append(mul(n, *outside))
            continue
        bd = mul(*inside) if inside else ONE
        # canonical bound variable
        inner = tm.subst(bd, {b: gi("σ")})
        nb = bv(maxbv(inner) + 1)
        out.append(mul(mk("sumk", nb, n, tm.subst(inner, {gi("σ"): nb})), *outside))
    return add(ZERO, *out)


tm._REB["sumk"] = lambda b, n, body: sumk(b, n, body)


def contract(d, f):
    c = dimval(d)
    if c is not None and c <= 12:
        return add(ZERO, *[f(const(k)) for k in range(c)])
    g = gi("contract")
    body = f(g)
    nb = bv(maxbv(body) + 1)
    return sumk(nb, d, tm.subst(body, {g: nb}))


def asum_all(A):
    s = shape(A)
    if s is None:
        return None

    def rec(k, pre):
        if k == len(s):
            return at(A, pre)
        return contract(s[k], lambda i: rec(k + 1, pre + [i]))

    return rec(0, [])


def ew_scalar(name, args):
    if name == "max2":
        a, b = args
        return ite(cmp_bdd("<", a, b), b, a)
    if name == "min2":
        a, b = args
        return ite(cmp_bdd("<", b, a), b, a)
    if name == "clip":
        a, lo, hi = args
        return ew_scalar("min2", [ew_scalar("max2", [a, lo]), hi])
    if name == "copysign":
        a, b = args
        return ite(cmp_bdd("<", b, ZERO), neg(tabs(a)), tabs(a))
    if name == "heaviside":
        a, b = args
        return ite(cmp_bdd("<", a, ZERO), ZERO, ite(cmp_bdd("==", a, ZERO), b, ONE))
    if name == "floordiv":
        return floordiv(*args)
    if name == "mod":
        return mod(*args)
    if name in MATHFN and len(args) == 1:
        c = const_poly(args[0])
        if c is not None and name in ("floor", "ceil", "rint", "trunc"):
            return const({"floor": math.floor, "ceil": math.ceil, "rint": round, "trunc": int}[name](c))
        if c == 0 and name in ZERO_AT_ZERO:
            return ZERO
        if name in ("floor", "ceil", "rint", "trunc") and kind(args[0]) == "int":
            return args[0]
    return mk("ew", name, *args)


def _rnd(x, d=0):
    return round(float(x), min(int(d), 2))  # coarse: must show against the tolerance


MATHFN = {"log": math.log, "log10": math.log10, "log2": math.log2, "log1p": math.log1p, "exp": math.exp, "expm1": math.expm1, "exp2": lambda x: 2.0 ** x,
          "sin": math.sin, "cos": math.cos, "tan": math.tan, "arcsin": math.asin, "arccos": math.acos, "arctan": math.atan,
          "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh, "arcsinh": math.asinh, "arccosh": math.acosh, "arctanh": math.atanh,
          "floor": math.floor, "ceil": math.ceil, "rint": round, "trunc": int, "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x),
          "deg2rad": math.radians, "rad2deg": math.degrees, "arctan2": math.atan2, "round": _rnd, "erf": math.erf, "gamma": math.gamma,
          "fmod": math.fmod, "nextafter": lambda x, y: x, "spacing": lambda x: 0.0,
          # stands for any loss of digits: sampled coarsely, so that it shows against the tolerance
          "round32": lambda x: struct.unpack("e", struct.pack("e", x))[0]}
ZERO_AT_ZERO = {"log1p", "expm1", "sin", "tan", "arcsin", "arctan", "sinh", "tanh", "arcsinh", "arctanh", "cbrt", "deg2rad", "rad2deg", "erf"}


tm._REB["ew"] = lambda name, *args: ew_scalar(name, list(args)) if all(shape(x) == () for x in args) else mk("ew", name, *args)


def bound_of(t):
    """exclusive upper bound (int) of a nonnegative scalar index term, if known"""
    c = const_poly(t)
    if c is not None:
        return int(c) + 1 if c >= 0 else None
    if t.op == "gi" and len(t.a) == 2 and isinstance(t.a[1], int):
        return t.a[1]
    if t.op == "mod":
        return dimval(t.a[1])
    return None


def split_mul(t, d):
    """t = d*q + r with 0<=r<d if recognisable"""
    c = dimval(d)
    if c is None:
        return None
    q, r = {}, {}
    for m, co in to_poly(t).items():
        if m == ():
            q[m] = Fraction(co // c)
            r[m] = co - c * (co // c)
        elif co.denominator == 1 and co % c == 0:
            q[m] = co / c
        else:
            r[m] = co
    rt = tm.from_poly(r)
    b = bound_of(rt)
    if b is None:
        # constant + bounded
        return None
    if b <= c:
        return tm.from_poly(q), rt
    return None


def floordiv(a, b):
    x, y = const_poly(a), const_poly(b)
    if x is not None and y not in (None, 0):
        return const(int(x // y))
    sp = split_mul(a, b)
    if sp is not None:
        return sp[0]
    return mk("floordiv", a, b)


def mod(a, b):
    x, y = const_poly(a), const_poly(b)
    if x is not None and y not in (None, 0):
        v = x % y
        return tm.from_poly({(): v})
    sp = split_mul(a, b)
    if sp is not None:
        return sp[1]
    return mk("mod", a, b)


tm._REB["floordiv"] = floordiv
tm._REB["mod"] = mod


def ravel(idx, dims):
    r = ZERO
    for i, d in zip(idx, dims):
        r = add(mul(r, d), i)
    return r


def unravel(flat, dims):
    if len(dims) == 0:
        return []
    if len(dims) == 1:
        return [flat]
    out = []
    cur = flat
    for d in reversed(dims[1:]):
        if dimval(d) == 1:
            out.append(ZERO)
            continue
        q, r = divmod_sym(cur, d)
        out.append(r)
        cur = q
    out.append(cur)
    return list(reversed(out))


def reshape_index(idx, new, old):
    """index into the array of shape old for index idx of its reshape to new"""
    out = []
    i = j = 0
    new, old = list(new), list(old)
    while i < len(new) or j < len(old):
        gi_, gj = [i], [j]
        i2, j2 = i + 1, j + 1
        if i >= len(new):
            gi_, i2 = [], i
        if j >= len(old):
            gj, j2 = [], j
        pn = prod([new[k] for k in gi_])
        po = prod([old[k] for k in gj])
        while pn is not po:
            # extend the side that divides the other
            if j2 < len(old) and (i2 >= len(new) or _divides(po, pn)):
                po = mul(po, old[j2])
                gj.append(j2)
                j2 += 1
            elif i2 < len(new):
                pn = mul(pn, new[i2])
                gi_.append(i2)
                i2 += 1
            else:
                return unravel(ravel(idx, new), old)
        # swallow unit dims
        out += unravel(ravel([idx[k] for k in gi_], [new[k] for k in gi_]), [old[k] for k in gj])
        i, j = i2, j2
    return out


def _divides(a, b):
    """a properly divides b (monomials)"""
    q = div(b, a)
    if q is ONE:
        return False
    for m, c in to_poly(q).items():
        if c.denominator != 1 or any(e < 0 for x, e in m):
            return False
    return True


def divmod_sym(t, d):
    sp = split_mul(t, d)
    if sp is not None:
        return sp
    # symbolic divisor: t = d*q + r with r not containing d and r a bounded symbol
    if dimval(d) is None:
        q, r = {}, {}
        for m, co in to_poly(t).items():
            dm = dict(m)
            if d.op != "poly" and dm.get(d, 0) >= 1:
                dm[d] -= 1
                q[tuple(sorted(((a, e) for a, e in dm.items() if e), key=lambda x: x[0].id))] = co
            else:
                r[m] = co
        rt = tm.from_poly(r)
        if rt is ZERO or (rt.op == "gi" and len(rt.a) == 2 and rt.a[1] is d):
            return tm.from_poly(q), rt
    return mk("floordiv", t, d), mk("mod", t, d)


def at_npa(v, idx):
    if not idx:
        return v
    if v.op == "tuple":
        k = dimval(idx[0])
        if k is not None:
            if 0 <= k < len(v.a):
                return at_npa(v.a[k], idx[1:])
            return unk("index")
        r = at_npa(v.a[-1], idx[1:])
        for j in reversed(range(len(v.a) - 1)):
            r = ite(cmp_bdd("==", idx[0], const(j)), at_npa(v.a[j], idx[1:]), r)
        return r
    if v.op == "list":
        off = ZERO
        res = []
        for p in v.a:
            if p.op == "e":
                res.append((off, ONE, lambda i, p=p: at_npa(p.a[0], idx[1:])))
                off = add(off, ONE)
            elif p.op == "seg" and len(p.a[2]) == 1 and p.a[2][0].op == "e":
                def f(i, p=p):
                    return at_npa(tm.subst(p.a[2][0].a[0], {p.a[0]: i}), idx[1:])
                res.append((off, p.a[1], f))
                off = add(off, p.a[1])
            else:
                return unk("list-index", v)
        r = None
        for of, n, f in reversed(res):
            if not _maybe_in(idx[0], of, n):
                continue
            x = f(sub(idx[0], of))
            r = x if r is None else ite(cmp_bdd("<", idx[0], add(of, n)), x, r)
        return r if r is not None else unk("index")
    if v.op == "ite":
        return ite(v.a[0], at_npa(v.a[1], idx), at_npa(v.a[2], idx))
    return at(v, idx)


def key_cond(A, items, s, idx):
    """for a store A[key]: (bdd that idx is hit, list of value indices)"""
    cond = 1
    vidx = []
    fanc = []
    ax = 0
    for it in items:
        if it is NONE:
            vidx.append(ZERO)
            continue
        i = idx[ax]
        d = s[ax]
        if it.op == "slice":
            b = slice_bounds(it, d)
            if b is None:
                return None
            lo, n, step = b
            if it is FULL:
                vidx.append(i)
            elif step == 1:
                c = 1
                if lo is not ZERO:
                    c = band(c, cmp_bdd("<=", lo, i))
                hi = add(lo, n)
                if sub(hi, d) is not ZERO:
                    c = band(c, cmp_bdd("<", i, hi))
                cond = band(cond, c)
                vidx.append(sub(i, lo))
            elif step == -1:
                vidx.append(sub(lo, i))
            else:
                return None
            ax += 1
            continue
        ks = shape(it)
        if is_mask(it):
            if ks is None:
                return None
            sub_i = idx[ax:ax + len(ks)]
            cond = band(cond, truthy(at(it, sub_i)))
            u = _single_mask(it)
            vidx.append(ZERO if u else mk("rank", lam(it), *sub_i))
            fanc.append(len(vidx) - 1)
            ax += len(ks)
            continue
        if ks == ():
            cond = band(cond, cmp_bdd("==", i, fixneg(it, d)))
            ax += 1
            continue
        if ks is None or len(ks) != 1:
            return None
        # integer index array
        if it.op == "nonzero":
            m = it.a[0]
            cond = band(cond, truthy(at(m, [i])))
            vidx.append(ZERO if _single_mask(m) else mk("rank", lam(m), i))
        else:
            n = dimval(ks[0])
            if n is not None and n <= 4:
                c = 0
                vi = const(max(n - 1, 0))
                for k in range(n):
                    ck = cmp_bdd("==", i, at(it, [const(k)]))
                    c = bor(c, ck)
                    vi = ite(ck, const(k), vi)
                cond = band(cond, c)
                vidx.append(vi)
            else:
                cond = band(cond, inset(it, i))
                vidx.append(pos(it, i))
        fanc.append(len(vidx) - 1)
        ax += 1
    if len(fanc) > 1:
        return None
    return cond, vidx


def _single_mask(m):
    """mask that selects at most one entry (equality with unique labels)"""
    if m.op == "ecmp" and m.a[0] == "==":
        for L, v in ((m.a[1], m.a[2]), (m.a[2], m.a[1])):
            if shape(v) == ():
                return True
    return False


def at_upd(A, key, val, idx):
    s = shape(A)
    items = norm_key(A, key)
    if s is None or items is None:
        return _badix(mk("upd", A, key, val), idx)
    kc = key_cond(A, items, s, idx)
    if kc is None:
        return _badix(mk("upd", A, key, val), idx)
    cond, vidx = kc
    if cond == 0:
        return at(A, idx)
    v = bcast_at(val, vidx)
    if cond == 1:
        return v
    return ite(cond, v, at(A, idx))


def bcast_at(val, vidx):
    """value broadcast into a selection with indices vidx"""
    if val.op in ("tuple", "list"):
        val = mk("npa", val, "dyn")
    sv = shape(val)
    if sv is None:
        if kind(val) in SCALAR_KINDS:
            return val
        return at(val, vidx) if vidx else val
    if sv == ():
        return val
    n = len(sv)
    if n > len(vidx):
        # extra leading ones
        extra = n - len(vidx)
        return at(val, [ZERO] * extra + [ZERO if dimval(d) == 1 else i for i, d in zip(vidx, sv[extra:])])
    ii = vidx[len(vidx) - n:]
    ii = [ZERO if dimval(d) == 1 else i for i, d in zip(ii, sv)]
    return at(val, ii)


def at_get(A, key, idx):
    s = shape(A)
    items = norm_key(A, key)
    if items is None or s is None:
        return mk("el", mk("get", A, key), *idx)
    src = []
    out = list(idx)
    ax = 0
    # fancy items share leading index block
    nf = [it for it in items if it is not NONE and it.op != "slice" and shape(it) != ()]
    fshape = None
    for it in nf:
        sh = (ZERO,) if is_mask(it) else shape(it)
        if sh is None:
            return mk("el", mk("get", A, key), *idx)
        fshape = sh if fshape is None else bshape(fshape, sh)
    fidx = None
    for it in items:
        if it is NONE:
            out.pop(0)
            continue
        d = s[ax]
        if it.op == "slice":
            b = slice_bounds(it, d)
            if b is None or not out:
                return mk("el", mk("get", A, key), *idx)
            lo, n, step = b
            i = out.pop(0)
            src.append(add(lo, mul(const(step), i)))
            ax += 1
            continue
        ks = shape(it)
        if ks == ():
            src.append(fixneg(it, d))
            ax += 1
            continue
        if fidx is None:
            fidx = out[: len(fshape)]
            out = out[len(fshape):]
        if is_mask(it):
            if len(ks) == 1:
                src.append(at(mk("nonzero", it), fidx))
                ax += 1
            else:
                for q in range(len(ks)):
                    src.append(mk("nth%d" % q, lam(it), *fidx))
                    ax += 1
            continue
        ii = fidx[len(fidx) - len(ks):]
        ii = [ZERO if dimval(dd) == 1 else i for i, dd in zip(ii, ks)]
        v = at(it, ii)
        src.append(fixneg(v, d))
        ax += 1
    return at(A, src)


# einsum ('einsum', spec, ops...)
def einsum_parse(spec):
    spec = spec.replace(" ", "")
    if "->" in spec:
        l, r = spec.split("->")
    else:
        l = spec
        ch = sorted(set(l.replace(",", "")))
        r = "".join(c for c in ch if l.count(c) == 1)
    return l.split(","), r


def einsum_dims(t):
    ins, out = einsum_parse(t.a[0])
    dims = {}
    for s, x in zip(ins, t.a[1:]):
        sh = shape(x)
        if sh is None or len(sh) != len(s):
            return None
        for c, d in zip(s, sh):
            dims[c] = d
    return ins, out, dims


def einsum_shape(t):
    p = einsum_dims(t)
    return None if p is None else tuple(p[2][c] for c in p[1])


def einsum_at(t, idx):
    p = einsum_dims(t)
    if p is None:
        return _badix(t, idx)
    ins, out, dims = p
    env = dict(zip(out, idx))
    free = [c for c in dims if c not in env]

    def rec(k):
        if k == len(free):
            return mul(*[at(x, [env[c] for c in s]) for s, x in zip(ins, t.a[1:])])

        def f(i):
            env[free[k]] = i
            r = rec(k + 1)
            return r

        return contract(dims[free[k]], f)

    return rec(0)


def narrow(x, dt):
    """value as stored in an array of the given type"""
    d = npa_dtype(x) if x.op == "npa" else dtype(x)
    if dt == "int":
        if d not in ("float", "float32"):
            return x
        return mk("int", x) if shape(x) else tm.tint(x)
    if dt == "float32":
        if d not in ("float", "dyn"):
            return x
        c = const_poly(x)
        if c is not None and c == int(c) and abs(c) < 2 ** 24 or x.op in ("zeros", "eye", "empty"):
            return x if not shape(x) else mk("f32", x)
        return mk("ew", "round32", x)
    return x


def npa_dtype(x):
    if x.a[1] not in ("dyn", None):
        return x.a[1]
    ks = []

    def go(y):
        if y.op == "tuple":
            for z in y.a:
                go(z)
        elif y.op == "ite":
            go(y.a[1])
            go(y.a[2])
        else:
            ks.append(dtype(y))

    go(x.a[0])
    return _promote(ks) or "dyn"


def dtype(t):
    """'float' | 'int' | 'bool' | 'dyn' (depends on user data) | None"""
    r = DTYPE.get(t)
    if r is not None:
        return r
    o, a = t.op, t.a
    if o == "asym":
        return {"num": "dyn"}.get(a[2], a[2])
    if o in ("zeros", "full", "eye", "empty"):
        return "float"
    if o == "npa":
        return a[1]
    if o == "int" or o == "float":
        return o
    if o == "f32" or o == "ew" and a[0] == "round32":
        return "float32"
    if o == "asdt":
        return dtype(a[1])
    if o == "upd":
        return dtype(a[0])
    if o in ("cat", "stack"):
        return _promote([dtype(x) for x in (a[1:])])
    if o in ("get", "reshape", "transpose", "delete", "sort", "abs", "grp"):
        return dtype(a[0])
    if o in ("nonzero", "argsort", "arange"):
        return "int"
    if o in ("ecmp", "enot", "eand", "eor", "isin"):
        return "bool"
    if o == "poly":
        ds = [dtype(x) for m, c in a for x, e in m] + ["float" if any(e < 0 for m, c in a for x, e in m) else "bool"]
        return _promote(ds)
    if o == "ite":
        x, y = dtype(a[1]), dtype(a[2])
        return x if x == y else ("dyn" if None not in (x, y) else None)
    if o in ("sqrt",):
        return "float"
    k = kind(t)
    return {"int": "int", "float": "float", "bool": "bool", "num": "dyn"}.get(k)


def _promote(ds):
    if "float" in ds:
        return "float"
    if "float32" in ds:
        return "float32" if all(d in ("float32", "bool") for d in ds) else "float"
    if None in ds:
        return None
    if "dyn" in ds:
        return "dyn"
    if "int" in ds:
        return "int"
    return "bool" if ds else None
