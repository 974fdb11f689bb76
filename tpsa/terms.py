"""Hash-consed terms, decision-diagram gates and the arithmetic normal form.

Everything the analyser knows about a value is a term.  Terms are immutable and
interned, so identity is structural equality.  Conditions are reduced ordered
binary decision diagrams over *atoms* (canonical comparison terms).
"""
from fractions import Fraction
import math
import sys

sys.setrecursionlimit(20000)


class T:
    __slots__ = ("op", "a", "id", "__weakref__")

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = _n[0]
        _n[0] += 1
        _tab[k] = t
    return t


# ---------------------------------------------------------------- constants
_cv = {}


def const(v):
    if isinstance(v, float):
        if v == int(v) if math.isfinite(v) else False:
            key = ("float", repr(v))
        else:
            key = ("float", repr(v))
    else:
        key = (type(v).__name__, repr(v))
    t = mk("const", *key)
    _cv[t] = v
    return t


def cval(t):
    return _cv[t]


def is_const(t):
    return t.op == "const"


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)
UNBOUND = mk("unbound")


# ---------------------------------------------------------------- BDD
# node ids: 0 false, 1 true
_bn = {}
_bl = [None, None]
_avar = {}
_aterm = []


def _bmk(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    r = _bn.get(k)
    if r is None:
        r = len(_bl)
        _bl.append(k)
        _bn[k] = r
    return r


def atom_var(t):
    v = _avar.get(t)
    if v is None:
        v = len(_aterm)
        _avar[t] = v
        _aterm.append(t)
    return v


def batom(t):
    return _bmk(atom_var(t), 0, 1)


def bvar_term(v):
    return _aterm[v]


_im = {}


def bite(f, g, h):
    if f == 1:
        return g
    if f == 0:
        return h
    if g == h:
        return g
    if g == 1 and h == 0:
        return f
    k = (f, g, h)
    r = _im.get(k)
    if r is not None:
        return r
    v = _bl[f][0]
    for x in (g, h):
        if x > 1 and _bl[x][0] < v:
            v = _bl[x][0]

    def cf(x, b):
        if x > 1 and _bl[x][0] == v:
            return _bl[x][2 if b else 1]
        return x

    r = _bmk(v, bite(cf(f, 0), cf(g, 0), cf(h, 0)), bite(cf(f, 1), cf(g, 1), cf(h, 1)))
    _im[k] = r
    return r


def bnot(f):
    return bite(f, 0, 1)


def band(*fs):
    r = 1
    for f in fs:
        r = bite(r, f, 0)
    return r


def bor(*fs):
    r = 0
    for f in fs:
        r = bite(r, 1, f)
    return r


def bimp(f, g):
    return bite(f, g, 1) == 1


_rm = {}


def brestrict(f, c):
    """Simplify f assuming c (Coudert-Madre restrict)."""
    if c == 1 or f < 2:
        return f
    if c == 0:
        return f
    if f == c:
        return 1
    k = (f, c)
    r = _rm.get(k)
    if r is not None:
        return r
    fv, fl, fh = _bl[f]
    cv, cl, ch = _bl[c]
    if cl == 0 and cv == fv:
        r = brestrict(fh, ch)
    elif ch == 0 and cv == fv:
        r = brestrict(fl, cl)
    elif cv < fv:
        r = brestrict(f, bor(cl, ch))
    elif cv == fv:
        r = _bmk(fv, brestrict(fl, cl), brestrict(fh, ch))
    else:
        r = _bmk(fv, brestrict(fl, c), brestrict(fh, c))
    _rm[k] = r
    return r


def bsupport(f):
    out = set()
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        if x < 2 or x in seen:
            continue
        seen.add(x)
        v, l, h = _bl[x]
        out.add(_aterm[v])
        st += [l, h]
    return out


def bnode(f):
    v, l, h = _bl[f]
    return _aterm[v], l, h


def bmap(f, fn, memo=None):
    """Rebuild f with every atom replaced by the BDD fn(atom)."""
    if f < 2:
        return f
    if memo is None:
        memo = {}
    r = memo.get(f)
    if r is None:
        v, l, h = _bl[f]
        r = bite(fn(_aterm[v]), bmap(h, fn, memo), bmap(l, fn, memo))
        memo[f] = r
    return r


def bshow(f, depth=0):
    if f == 0:
        return "False"
    if f == 1:
        return "True"
    # sum of cubes, limited
    cubes = []

    def rec(x, path):
        if len(cubes) > 6:
            return
        if x == 0:
            return
        if x == 1:
            cubes.append(" and ".join(path) or "True")
            return
        a, l, h = bnode(x)
        s = show(a, 4)
        rec(h, path + [s])
        rec(l, path + ["not " + s])

    rec(f, [])
    if len(cubes) > 6:
        cubes = cubes[:6] + ["..."]
    return " OR ".join("(" + c + ")" for c in cubes)


def mkbool(b):
    if b == 1:
        return TRUE
    if b == 0:
        return FALSE
    return mk("bool", b)


def mkite(b, x, y):
    """choice with a gate that is false when all its atoms are false"""
    f = b
    while f > 1:
        f = _bl[f][1]
    return mk("ite", bnot(b), y, x) if f == 1 else mk("ite", b, x, y)


def ite(b, x, y):
    if b == 1 or x is y:
        return x
    if b == 0:
        return y
    x = restrict(x, b)
    y = restrict(y, bnot(b))
    if x is y:
        return x
    bx, by = asbdd(x), asbdd(y)
    if bx is not None and by is not None:
        return mkbool(bite(b, bx, by))
    # same structure: push inside tuples
    if x.op == "tuple" and y.op == "tuple" and len(x.a) == len(y.a):
        return mk("tuple", *[ite(b, p, q) for p, q in zip(x.a, y.a)])
    if y.op == "ite" and y.a[1] is x:
        return ite(bor(b, y.a[0]), x, y.a[2])
    if y.op == "ite" and y.a[2] is x:
        return ite(band(bnot(b), y.a[0]), y.a[1], x)
    if x.op == "ite" and x.a[1] is y:
        return ite(band(b, bnot(x.a[0])), x.a[2], y)
    if x.op == "ite" and x.a[2] is y:
        return ite(band(b, x.a[0]), x.a[1], y)
    return mkite(b, x, y)


def asbdd(t):
    if t is TRUE:
        return 1
    if t is FALSE:
        return 0
    if t.op == "bool":
        return t.a[0]
    return None


_restm = {}


def restrict(t, c):
    """Simplify the gates inside t assuming c."""
    if c == 1 or c == 0:
        return t
    if t.op in ("const", "sym", "ref", "func", "asym", "ext", "cls", "mod"):
        return t
    k = (t, c)
    r = _restm.get(k)
    if r is not None:
        return r
    if t.op == "ite":
        g = brestrict(t.a[0], c)
        if g == 1:
            r = restrict(t.a[1], c)
        elif g == 0:
            r = restrict(t.a[2], c)
        else:
            x, y = restrict(t.a[1], c), restrict(t.a[2], c)
            r = x if x is y else (t if (g == t.a[0] and x is t.a[1] and y is t.a[2]) else mkite(g, x, y))
    elif t.op == "bool":
        r = mkbool(brestrict(t.a[0], c))
    elif not has_gate(t):
        r = t
    else:
        r = rebuild(t, lambda s: restrict(s, c), lambda b: brestrict(b, c))
    _restm[k] = r
    return r


_hg = {}


def has_gate(t):
    r = _hg.get(t)
    if r is None:
        r = t.op in ("ite", "bool") or any(has_gate(s) for s in subterms(t))
        _hg[t] = r
    return r


def subterms(t):
    """Direct subterms (bdd support excluded)."""
    out = []
    for x in t.a:
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            _subt(x, out)
    return out


def _subt(x, out):
    for y in x:
        if isinstance(y, T):
            out.append(y)
        elif isinstance(y, tuple):
            _subt(y, out)


_REB = {}  # op -> smart constructor


def reb(op):
    def d(f):
        _REB[op] = f
        return f

    return d


def rebuild(t, ft, fb):
    if t.op == "ite":
        return ite(fb(t.a[0]), ft(t.a[1]), ft(t.a[2]))
    if t.op == "bool":
        return mkbool(fb(t.a[0]))
    if t.op == "itepart":
        g = fb(t.a[0])
        if g == 1:
            return ft(t.a[1])
        if g == 0:
            return ft(t.a[2])
        p, q = ft(t.a[1]), ft(t.a[2])
        return p if p is q else mk("itepart", g, p, q)

    ch = [False]

    def go(x):
        if isinstance(x, T):
            y = ft(x)
            if y is not x:
                ch[0] = True
            return y
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x

    na = tuple(go(x) for x in t.a)
    if not ch[0]:
        return t
    f = _REB.get(t.op)
    if f:
        return f(*na)
    return mk(t.op, *na)


def subst(t, m, memo=None):
    """Replace terms by terms (m: dict T->T), gates included."""
    if memo is None:
        memo = {}
    bm = memo.setdefault("b", {})

    def ft(x):
        r = memo.get(x)
        if r is None:
            if x in m:
                r = m[x]
            else:
                r = rebuild(x, ft, fb)
            memo[x] = r
        return r

    def fb(b):
        r = bm.get(b)
        if r is None:
            r = bmap(b, lambda a: atom_bdd(ft_atom(a)), bm)
            bm[b] = r
        return r

    def ft_atom(a):
        return a, ft

    def atom_bdd(p):
        a, f = p
        return rebuild_atom(a, f)

    return ft(t)


_deepm = {}


def deep(t, c):
    """Simplify the gates in t, those in comparisons included, assuming the fact c (free variables only)."""
    if c == 1 or c == 0:
        return t
    memo = _deepm.setdefault(c, {})
    bm = memo.setdefault("b", {})

    def ft(x):
        r = memo.get(x)
        if r is None:
            r = rebuild(x, ft, fb) if has_gate_deep(x) else x
            memo[x] = r
        return r

    def fb(b):
        if b < 2:
            return b
        r = bm.get(b)
        if r is None:
            r = brestrict(bmap(b, lambda a: rebuild_atom(a, ft)), c)
            bm[b] = r
        return r

    if isinstance(t, int):
        return fb(t)
    return ft(t)


def has_gate_deep(t):
    return has_gate(t)


def bsubst(b, m):
    return asbdd_or(subst(mkbool(b), m))


def asbdd_or(t):
    r = asbdd(t)
    assert r is not None, t
    return r


def rebuild_atom(a, f):
    """Atom with mapped arguments, as a BDD."""
    na = tuple(f(x) if isinstance(x, T) else x for x in a.a)
    if na == a.a:
        return batom(a)
    g = _REB.get(a.op)
    if g:
        r = g(*na)
        b = asbdd(r) if isinstance(r, T) else r
        if b is not None:
            return b
        return truthy(r)
    return batom(mk(a.op, *na))


def truthy(t):
    b = asbdd(t)
    if b is not None:
        return b
    if t.op == "const":
        return 1 if cval(t) else 0
    if t.op == "ite":
        return bite(t.a[0], truthy(t.a[1]), truthy(t.a[2]))
    if t.op == "tuple":
        return 1 if t.a else 0
    if t.op in ("func", "cls", "bound", "ref", "mod", "ext"):
        return 1
    if t.op == "strv":
        return batom(mk("truthy", t))
    if kind(t) in ("int", "float", "num"):
        return bnot(cmp_bdd("==", t, ZERO))
    return batom(mk("truthy", t))


_REB["truthy"] = lambda x: mkbool(truthy(x))


# --------------------------------------------------------------- kinds
_KIND = {}


def kind(t):
    """Coarse value kind of a term."""
    r = _KIND.get(t)
    if r is not None:
        return r
    r = _kind(t)
    _KIND[t] = r
    return r


FLOATF = {"sqrt", "norm", "sin", "cos", "exp", "log"}


def _kind(t):
    o = t.op
    if o == "const":
        return {"int": "int", "float": "float", "bool": "bool", "str": "str", "NoneType": "none"}.get(t.a[0], "any")
    if o in ("sym", "fresh"):
        return t.a[1] if isinstance(t.a[1], str) else "any"
    if o == "asym":
        return "arr"
    if o == "bool":
        return "bool"
    if o == "ite":
        x, y = kind(t.a[1]), kind(t.a[2])
        if t.a[1].op == "unbound":
            return y
        if t.a[2].op == "unbound":
            return x
        if x == y:
            return x
        if {x, y} <= {"int", "float", "num", "bool"}:
            return "num"
        return "any"
    if o == "poly":
        ks = set()
        for mono, c in t.a:
            if c.denominator != 1:
                ks.add("float")
            for at, e in mono:
                k = kind(at)
                ks.add(k if e >= 0 else ("arr" if k == "arr" else "float"))
        if "arr" in ks:
            return "arr"
        if ks <= {"int", "bool"}:
            return "int"
        if ks <= {"int", "float", "bool"}:
            return "float"
        if "any" in ks:
            return "any"
        return "num"
    if o == "tuple":
        return "tuple"
    if o in ("ctr", "last", "pos", "len", "dim", "floordiv", "argmax", "argmin", "int"):
        return "int"
    if o in ("abs", "neg"):
        return kind(t.a[0])
    if o == "sign":
        return "int" if kind(t.a[0]) in ("int", "float", "num") else kind(t.a[0])
    if o in ("mu",):
        return t.a[2]
    if o in FLOATF:
        return "float"
    if o == "ew":
        ks = {kind(x) for x in t.a[1:]}
        if ks <= {"int", "float", "num", "bool"}:
            return ("int" if t.a[0] in ("floor", "ceil", "trunc", "rint") else "float") if t.a[0] not in ("clip", "mod", "floordiv") else "num"
    if o == "ref":
        return "ref"
    if o in ("func", "bound", "cls", "ext", "partial", "lam"):
        return "func"
    if o in ("strv",):
        return "str"
    if o == "app":
        return t.a[1]
    if o in ARR_OPS:
        return "arr"
    return "any"


ARR_OPS = {"zeros", "full", "eye", "upd", "reshape", "transpose", "cat", "stack", "nonzero", "ecmp", "enot", "eand", "eor",
           "argsort", "sort", "take", "delete", "isin", "arange", "npa", "outer", "linspace", "abs_a", "where3", "ewise",
           "addat", "tile", "unique", "diag", "ix", "fullat", "lamarr"}


# --------------------------------------------------------------- polynomials
# poly term: ('poly', (mono, coef), ...) with mono = ((atom, exp), ...) sorted by id

_PC = {}


def to_poly(t):
    """dict mono->Fraction"""
    if t.op == "poly":
        return dict(t.a)
    if t.op == "const":
        v = cval(t)
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, (int, float)) and (not isinstance(v, float) or math.isfinite(v)):
            return {(): Fraction(v)} if v != 0 else {}
        return {((t, 1),): Fraction(1)}
    return {((t, 1),): Fraction(1)}


def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return const(int(c)) if c.denominator == 1 else const(float(c)) if Fraction(float(c)) == c else mk("poly", ((), c))
        if len(m) == 1 and m[0][1] == 1 and c == 1:
            return m[0][0]
    items = sorted(d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    return mk("poly", *[(m, c) for m, c in items])


def const_poly(t):
    """Fraction value if t is a numeric constant, else None."""
    if t.op == "const":
        v = cval(t)
        if isinstance(v, bool):
            return Fraction(int(v))
        if isinstance(v, int) or (isinstance(v, float) and math.isfinite(v)):
            return Fraction(v)
        return None
    if t.op == "poly" and len(t.a) == 1 and t.a[0][0] == ():
        return t.a[0][1]
    return None


def add(*ts):
    d = {}
    for t in ts:
        for m, c in to_poly(t).items():
            d[m] = d.get(m, 0) + c
    return from_poly(d)


def scale(t, q):
    return from_poly({m: c * q for m, c in to_poly(t).items()})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def _mmul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].id))


def mul(*ts):
    p = {(): Fraction(1)}
    for t in ts:
        q = to_poly(t)
        r = {}
        if len(p) * len(q) > 4000:
            return mk("bigmul", *ts)
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = _mmul(m1, m2)
                r[m] = r.get(m, 0) + c1 * c2
        p = r
        p = _sqrt_reduce(p)
    return from_poly(p)


def _sqrt_reduce(p):
    """sqrt(X)^2 -> X"""
    out = {}
    again = False
    for m, c in p.items():
        hit = None
        for a, e in m:
            if a.op == "sqrt" and (e >= 2 or e <= -2):
                hit = (a, e)
                break
            if a.op == "sign":
                r = _sign_reduce(m, a, e)
                if r is not None:
                    rest, t = r
                    for m2, c2 in to_poly(t).items():
                        mm = _mmul(rest, m2)
                        out[mm] = out.get(mm, 0) + c * c2
                    again = True
                    hit = ()
                    break
        if hit == ():
            continue
        if hit is None:
            out[m] = out.get(m, 0) + c
            continue
        a, e = hit
        k = int(abs(e) // 2) * (1 if e > 0 else -1)
        rest = tuple((b, f) for b, f in m if b is not a)
        if e - 2 * k:
            rest = _mmul(rest, ((a, e - 2 * k),))
        inner = powi(a.a[0], k)
        for m2, c2 in to_poly(inner).items():
            mm = _mmul(rest, m2)
            out[mm] = out.get(mm, 0) + c * c2
        again = True
    if again:
        return _sqrt_reduce({m: c for m, c in out.items() if c})
    return out


def _sign_reduce(m, a, e):
    """sign(x)^3 -> sign(x); |x|*sign(x) -> x; |x|*sign(x)^2 -> |x|"""
    x = a.a[0]
    b = dict(m).get(mk("abs", x))
    if b is not None and b >= 1 and e >= 1:
        rest = tuple((y, f) for y, f in m if y is not a)
        if e % 2:
            rest = _mmul(rest, ((mk("abs", x), -1),))
            return rest, x
        return rest, ONE
    if isinstance(e, int) and e >= 3:
        rest = tuple((y, f) for y, f in m if y is not a)
        return _mmul(rest, ((a, 2 - e % 2),)), ONE
    return None


def inv(t):
    c = const_poly(t)
    if c is not None:
        if c == 0:
            return mk("divzero")
        return from_poly({(): 1 / c})
    p = to_poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        return from_poly({tuple((a, -e) for a, e in m): 1 / c})
    # factor content so that the composite atom is canonical
    items = sorted(p.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    lead = items[0][1]
    base = from_poly({m: c / lead for m, c in items})
    return from_poly({((mk("grp", base), -1),): 1 / lead})


def powi(t, n):
    if n == 0:
        return ONE
    if n < 0:
        return inv(powi(t, -n))
    r = t
    for _ in range(n - 1):
        r = mul(r, t)
    return r


def div(a, b):
    return mul(a, inv(b))


def sqrt(t):
    c = const_poly(t)
    if c is not None and c >= 0:
        r = Fraction(math.isqrt(c.numerator), math.isqrt(c.denominator))
        if r * r == c:
            return from_poly({(): r})
    return mk("sqrt", t)


def tpow(a, b):
    c = const_poly(b)
    if c is not None:
        if c.denominator == 1 and abs(c) <= 8:
            return powi(a, int(c))
        if c.denominator == 2 and abs(c) <= 8:
            return powi(sqrt(a), int(c * 2))
    return mk("pow", a, b)


def _reb_poly(*items):
    ts = []
    for m, c in items:
        fs = [from_poly({(): c})]
        for a, e in m:
            fs.append(powi(a, e))
        ts.append(mul(*fs))
    return add(*ts)


_REB["poly"] = _reb_poly
_REB["sqrt"] = sqrt
_REB["pow"] = tpow
_REB["grp"] = lambda x: x
_REB["tuple"] = lambda *x: mk("tuple", *x)


def tabs(t):
    c = const_poly(t)
    if c is not None:
        return from_poly({(): abs(c)})
    if t.op in ("abs", "sqrt", "norm", "len", "dim", "pos"):
        return t
    if t.op == "poly" and len(t.a) == 1 and t.a[0][1] < 0:
        return tabs(neg(t))
    return mk("abs", t)


def tsign(t):
    c = const_poly(t)
    if c is not None:
        return const(int(c > 0) - int(c < 0))
    return mk("sign", t)


_REB["abs"] = tabs
_REB["sign"] = tsign


def tint(t):
    c = const_poly(t)
    if c is not None:
        return const(int(c))
    if kind(t) in ("int", "bool"):
        return t
    return mk("int", t)


_REB["int"] = tint


# --------------------------------------------------------------- comparisons
# canonical atoms: lt0(P) : P < 0 ;  eq0(P): P == 0 (used only below "not lt0"); nan(P)

NANMODE = [False]


def _sgn_canon(p):
    """(P', flipped) with positive leading coefficient, scaled"""
    items = sorted(p.items(), key=lambda mc: (mc[0] == (), tuple((a.id, e) for a, e in mc[0])))
    lead = items[0][1]
    s = abs(lead)
    q = {m: c / s for m, c in p.items()}
    if lead < 0:
        return from_poly({m: -c for m, c in q.items()}), True
    return from_poly(q), False


def _nan_bdd(P):
    if not NANMODE[0]:
        return 0
    fl = [a for a in atoms_of(P) if kind(a) not in ("int", "bool")]
    if not fl:
        return 0
    # NaN of a sum/product is NaN of any operand: one atom per operand
    r = 0
    for a in fl:
        if a.op in ("sym",) and len(a.a) > 2 and "nonan" in a.a[2:]:
            continue
        r = bor(r, batom(mk("nan", a)))
    return r


def atoms_of(P):
    out = []
    for m, c in to_poly(P).items():
        for a, e in m:
            if a not in out:
                out.append(a)
    return out


def positive(t):
    """syntactically positive factor (assumption facts)"""
    return t in POSITIVE


POSITIVE = set()


def _clear_pos(p):
    """multiply by denominators known positive; drop positive common factors"""
    den = {}
    for m, c in p.items():
        for a, e in m:
            if e < 0 and positive(a):
                den[a] = max(den.get(a, 0), -e)
    if den:
        mm = tuple(sorted(den.items(), key=lambda x: x[0].id))
        p = {_mmul(m, mm): c for m, c in p.items()}
    # common positive factors
    common = None
    for m in p:
        dm = {a: e for a, e in m if positive(a) and e > 0}
        if common is None:
            common = dm
        else:
            common = {a: min(e, dm[a]) for a, e in common.items() if a in dm}
    if common:
        mm = tuple((a, -e) for a, e in common.items())
        p = {_mmul(m, mm): c for m, c in p.items()}
    return p


NEVERZERO = []  # domain assumptions: predicates on differences that are never zero


def _common_sign(p):
    """a sign(..) factor common to all monomials of a sum: (factor, exponent, rest)"""
    if len(p) < 2:
        return None
    ms = list(p)
    for a, e in ms[0]:
        if a.op != "sign" or e < 0:
            continue
        es = [dict(m).get(a, 0) for m in ms]
        k = min(es)
        if k >= 1:
            q = {}
            for m, c in p.items():
                r = tuple((x, y - k) if x is a else (x, y) for x, y in m)
                q[tuple((x, y) for x, y in r if y != 0)] = c
            return a, k, from_poly(q)
    return None


def cmp_bdd(op, a, b):
    """BDD of the scalar comparison a op b."""
    if op in ("!=",):
        return bnot(cmp_bdd("==", a, b))
    # distribute over ites (small)
    for x, y, sw in ((a, b, 0), (b, a, 1)):
        if x.op == "ite":
            p = cmp_bdd(op, x.a[1], y) if not sw else cmp_bdd(op, y, x.a[1])
            q = cmp_bdd(op, x.a[2], y) if not sw else cmp_bdd(op, y, x.a[2])
            return bite(x.a[0], p, q)
    ba, bb = asbdd(a), asbdd(b)
    if op == "==" and (ba is not None or bb is not None):
        if ba is not None and bb is not None:
            return bite(ba, bb, bnot(bb))
        # bool vs number constant
        for x, y in ((ba, b), (bb, a)):
            if x is not None:
                c = const_poly(y)
                if c is not None:
                    return x if c == 1 else (bnot(x) if c == 0 else 0)
    NUM = ("int", "float", "num", "any", "bool")
    ka, kb = kind(a), kind(b)
    if op == "==":
        if a is b and not NANMODE[0]:
            return 1
        if is_const(a) and is_const(b):
            return 1 if cval(a) == cval(b) else 0
        strs = ("str",)
        if (ka in strs and kb in ("int", "float", "num", "none", "bool", "list", "tuple", "ref")) or (
            kb in strs and ka in ("int", "float", "num", "none", "bool", "list", "tuple", "ref")
        ):
            return 0
        if (ka == "none" and kb in ("int", "float", "num", "bool", "str", "tuple", "ref", "arr", "func")) or (
            kb == "none" and ka in ("int", "float", "num", "bool", "str", "tuple", "ref", "arr", "func")
        ):
            return 0
        if ka == "none" or kb == "none" :
            return is_none(b if ka == "none" else a)
        if a.op == "tuple" and b.op == "tuple":
            if len(a.a) != len(b.a):
                return 0
            r = 1
            for x, y in zip(a.a, b.a):
                r = band(r, cmp_bdd("==", x, y))
            return r
        if ka == "str" or kb == "str":
            x, y = sorted((a, b), key=lambda t: t.id)
            if x.op == "const" and y.op != "const":
                x, y = y, x
            return batom(mk("streq", x, y))
        if ka == "func" or kb == "func":
            if a.op == b.op and a.op in ("func", "cls", "ext"):
                return 1 if a is b else 0
    if ka not in NUM or kb not in NUM:
        x, y = a, b
        if op == "==":
            x, y = sorted((a, b), key=lambda t: t.id)
        return batom(mk("cmp?", op, x, y))
    # infinities
    for x, y, sw in ((a, b, 0), (b, a, 1)):
        if is_const(x) and isinstance(cval(x), float) and math.isinf(cval(x)):
            pos = cval(x) > 0
            if const_poly(y) is not None:
                v = (float("inf") if pos else float("-inf"))
                l, r = (v, float(const_poly(y))) if not sw else (float(const_poly(y)), v)
                return {"<": l < r, "<=": l <= r, ">": l > r, ">=": l >= r, "==": l == r}[op] and 1 or 0
    if op in (">", ">="):
        a, b = b, a
        op = {">": "<", ">=": "<="}[op]
    p = to_poly(sub(a, b))
    if not p:
        n = _nan_bdd(a)
        r = 1 if op in ("<=", "==") else 0
        return band(r, bnot(n))
    if len(p) == 1 and () in p:
        c = p[()]
        return {"<": c < 0, "<=": c <= 0, "==": c == 0}[op] and 1 or 0
    f = _common_sign(p)
    if f is not None and not NANMODE[0]:
        x, e, q = f
        zx, nx_ = cmp_bdd("==", x, ZERO), cmp_bdd("<", x, ZERO)
        zq, nq = cmp_bdd("==", q, ZERO), cmp_bdd("<", q, ZERO)
        eq_ = bor(zx, zq)
        if op == "==":
            return eq_
        lt = band(bnot(zx), nq) if e % 2 == 0 else bor(band(nx_, bnot(nq), bnot(zq)), band(bnot(nx_), bnot(zx), nq))
        return lt if op == "<" else bor(lt, eq_)
    p = _clear_pos(p)
    nan = _nan_bdd(from_poly(p))
    P, fl = _sgn_canon(p)
    if op == "==" and any(h(P) for h in NEVERZERO):
        return 0
    if _int_atoms(P):
        r = _int_cmp(op, P, fl)
    else:
        L = batom(mk("lt0", P))
        E = batom(mk("eq0", P))
        sg = _sign_known(P)
        if sg == ">":
            L, E = 0, 0
        elif sg == ">=":
            L = 0
        if not fl:
            r = {"<": L, "<=": bor(L, E), "==": band(bnot(L), E)}[op]
        else:
            r = {"<": band(bnot(L), bnot(E)), "<=": bnot(L), "==": band(bnot(L), E)}[op]
    return band(r, bnot(nan))


def _int_atoms(P):
    return all(kind(a) in ("int", "bool") and isinstance(e, int) and e > 0 for m in to_poly(P) for a, e in m)


def _int_cmp(op, P, fl):
    """Integers: base B (no constant), P = B + c.  atoms le(B,k): B <= k"""
    d = dict(to_poly(P))
    c = d.pop((), Fraction(0))
    # scale B to coprime integer coefficients
    den, g = 1, 0
    for x in d.values():
        den = den * x.denominator // math.gcd(den, x.denominator)
    for x in d.values():
        g = math.gcd(g, int(x * den))
    f = Fraction(den, g or 1)
    d = {m: x * f for m, x in d.items()}
    c = c * f
    B = from_poly(d)
    # P <0  <=> B <= -c-1 ; P<=0 <=> B <= -c ; P == 0 <=> B<=-c and not B<=-c-1 ; P>0 <=> not B<=-c
    import math as _m

    k = -c

    def le(x):
        f = _m.floor(x)
        if f < _int_lower(B):
            return 0
        return batom(mk("le", B, int(f)))

    if op == "==":
        if k.denominator != 1:
            return 0
        return band(le(k), bnot(le(k - 1)))
    if not fl:
        return le(k - 1 if k.denominator == 1 else k) if op == "<" else le(k)
    # flipped: -P op 0  <=> P > 0 or P >= 0
    return bnot(le(k)) if op == "<" else bnot(le(k - 1 if k.denominator == 1 else k))


NONNEG = set()


def _nonneg_int(B):
    for m, c in to_poly(B).items():
        if c < 0:
            return False
        for a, e in m:
            if a in NONNEG or a.op in ("ctr", "last", "pos", "len", "dim", "argmaxv", "argminv"):
                continue
            return False
    return True


def _int_lower(B):
    """a lower bound of B, -inf if none is known"""
    if not _nonneg_int(B):
        return -math.inf
    return sum((int(c) for m, c in to_poly(B).items() if c.denominator == 1 and all(a in POSITIVE for a, e in m)), 0)


def _sign_known(P):
    """'>' / '>=' if P is syntactically positive / nonnegative"""
    strict = False
    for m, c in to_poly(P).items():
        if c < 0:
            return None
        s = True
        for a, e in m:
            if positive(a):
                continue
            s = False
            if a.op in ("abs", "norm", "sqrt") or (isinstance(e, int) and e % 2 == 0):
                continue
            return None
        strict = strict or s
    return ">" if strict else ">="


_REB["lt0"] = lambda x: mkbool(cmp_bdd("<", x, ZERO))


def _reb_eq0(x):
    # 'eq0' is only meaningful below not lt0: rebuild as <=0 (same when lt0 is false)
    return mkbool(cmp_bdd("<=", x, ZERO)) if True else None


def _eq0(x):
    p = to_poly(x)
    if not p:
        return TRUE
    if len(p) == 1 and () in p:
        return FALSE
    if x.op == "ite":
        return mkbool(bite(x.a[0], asbdd_or(_eq0(x.a[1])), asbdd_or(_eq0(x.a[2]))))
    return mkbool(cmp_bdd("==", x, ZERO))


_REB["eq0"] = _eq0
_REB["le"] = lambda B, k: mkbool(cmp_bdd("<=", B, const(k)))
_REB["nan"] = lambda x: mkbool(_nan_bdd(x))
_REB["streq"] = lambda x, y: mkbool(cmp_bdd("==", x, y))
_REB["cmp?"] = lambda op, x, y: mkbool(cmp_bdd(op, x, y))

NEVERNONE_KINDS = ("int", "float", "num", "bool", "str", "tuple", "ref", "arr", "func", "list")


# calls of the plotting library that return objects, never None
FIGURES = ("subplots", "figure", "gcf", "gca", "add_subplot", "subplot", "axes", "subplot2grid", "add_axes", "subplot_mosaic")


def is_none(t):
    if t is NONE:
        return 1
    if t.op == "ite":
        return bite(t.a[0], is_none(t.a[1]), is_none(t.a[2]))
    if t.op == "unbound":
        return 0
    if kind(t) in NEVERNONE_KINDS:
        return 0
    x = t
    while x.op == "item" and isinstance(x.a[0], T):
        x = x.a[0]
    if x.op == "extv" and str(x.a[0]).split(".")[-1] in FIGURES:
        return 0
    return batom(mk("isnone", t))


_REB["isnone"] = lambda x: mkbool(is_none(x))


# --------------------------------------------------------------- printing
def show(t, d=7):
    if not isinstance(t, T):
        return repr(t)
    o, a = t.op, t.a
    if o == "const":
        return repr(cval(t))
    if o in ("sym", "asym"):
        return str(a[0])
    if o == "unbound":
        return "<unbound>"
    if d <= 0:
        return "…"
    if o == "poly":
        s = []
        for m, c in a:
            f = []
            if c != 1 or not m:
                f.append(str(c))
            for x, e in m:
                f.append(show(x, d - 1) + ("" if e == 1 else f"^{e}"))
            s.append("*".join(f))
        return "(" + " + ".join(s) + ")"
    if o == "ite":
        return f"ite({bshow(a[0])}, {show(a[1], d - 1)}, {show(a[2], d - 1)})"
    if o == "bool":
        return "[" + bshow(a[0]) + "]"
    if o == "tuple":
        return "(" + ", ".join(show(x, d - 1) for x in a) + ")"
    if o == "lt0":
        return f"{show(a[0], d - 1)}<0"
    if o == "eq0":
        return f"{show(a[0], d - 1)}==0"
    if o == "le":
        return f"{show(a[0], d - 1)}<={a[1]}"
    if o == "ref":
        return f"&{_loc(a[0])}{'' if not a[1] else '~'}"
    if o == "mu":
        return f"mu{a[0]}.{a[1] if isinstance(a[1], str) else _loc(a[1])}"

    def sx(x):
        if isinstance(x, T):
            return show(x, d - 1)
        if isinstance(x, tuple):
            return "(" + ",".join(sx(y) for y in x) + ")"
        return str(x)

    return f"{o}(" + ", ".join(sx(x) for x in a) + ")"


def _loc(l):
    if isinstance(l, tuple):
        return ".".join(_loc(x) for x in l if x not in ("p", ".", "a", "l"))
    return str(l)


def walk(t, seen=None, gates=True):
    """All terms reachable (gates included)."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(subterms(x))
        if gates and x.op in ("ite", "bool", "itepart"):
            st.extend(bsupport(x.a[0]))
    return seen
