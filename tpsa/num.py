"""Random interpretation of terms (Gulwani/Necula): evidence that two terms differ.

The terms are the value graph computed by the analysis; nothing of the analysed
program is executed.  A sample assigns consistent random values to the leaves
(input arrays, settings, uninterpreted applications) and evaluates a term.  It is
used in one direction only: a difference that the normal form could not refute is
reported as a violation only if some sample exhibits it.
"""
import math
import random
from fractions import Fraction

import numpy as np

from . import arrays as ar
from . import terms as tm
from .terms import T, const


class Unknown(Exception):
    """the term has no exact meaning"""


class Reject(Exception):
    """the sample lies outside the domain of the term"""


SMALLF = (0.0, 0.5, 1.0, -1.0, 1.5, 2.0, -0.5, -2.0, 3.0, 0.25)


VARS = ("ctr", "gi", "bv")
_fv = {}


def fv(t):
    """counters, index and bound variables in t"""
    r = _fv.get(t)
    if r is None:
        st = [t]
        while st:
            x = st[-1]
            if x in _fv:
                st.pop()
                continue
            cs = list(tm.subterms(x))
            if x.op in ("ite", "bool", "itepart"):
                cs += tm.bsupport(x.a[0])
            todo = [c for c in cs if c not in _fv]
            if todo:
                st += todo
                continue
            vs = set()
            for c in cs:
                vs.update(_fv[c])
            if x.op in VARS:
                vs.add(x)
            _fv[x] = tuple(sorted(vs, key=lambda v: v.id))
            st.pop()
        r = _fv[t]
    return r


class Sample:
    def __init__(self, seed, free=(), dims=None):
        self.seed = seed
        self.rnd = random.Random(seed)
        self.memo = {}
        self.arrs = {}
        self.free = free  # ops that may be treated as free leaves (mu, item, ...)
        self.dims = dict(dims or {})
        self.leaf = {}
        self.ties = self.rnd.random() < 0.5
        self.nanp = 0.0
        self.depth = 0
        self.choice = {}
        self.scale = {}
        self.env = {}  # values of loop counters and bound variables in scope
        self.setup()

    # ---------------------------------------------------------------- domain
    def setup(self):
        from . import world as W

        r = self.rnd
        d = self.dims
        big = r.random() < 0.15
        d.setdefault(W.nn, r.choice((5, 6, 9) if big else (2, 3, 4)))
        d.setdefault(W.ne, r.choice((4, 5, 8, 11) if big else (1, 2, 3)))
        for x in (W.nm,):
            d.setdefault(x, r.choice((3, 4)))
        for x in (W.ng,):
            d.setdefault(x, r.choice((1, 2)))
        n, e = d[W.nn], d[W.ne]
        labs = r.sample(range(1, 3 * n + 1), n)
        labs.sort()
        self.arrs[W.LABN] = np.array(labs)
        self.arrs[W.LABE] = np.array(r.sample(range(1, 3 * e + 1), e))
        self.arrs[W.CONNS] = np.array([r.sample(labs, 2) for _ in range(e)])
        self.arrs[W.MTYPE] = np.array([r.choice((1, 2)) for _ in range(e)])
        self.arrs[W.ETYPE] = np.array([1] * e)
        bc = np.array([[r.choice((0, 1)) for _ in range(3)] for _ in range(n)])
        self.arrs[W.UVALS] = bc
        f = bc.reshape(-1)
        d1, d0 = np.where(f == 1)[0], np.where(f == 0)[0]
        self.arrs[W.DOF1], self.arrs[W.DOF0] = d1, d0
        d[W.n1], d[W.n0] = len(d1), len(d0)

    def dim(self, t):
        v = self.dims.get(t)
        if v is None:
            if t.op == "dim" and len(t.a) == 1:
                v = self.dims[t] = self.rnd.choice((1, 2, 3, 4))
            else:
                v = self.ev(t)
                if isinstance(v, float) and v == int(v):
                    v = int(v)
        return int(v)

    def rval(self, kd, key):
        """value of a leaf (function of the key)"""
        r = random.Random("%s|%r" % (self.seed, key))
        if kd == "bool":
            return r.random() < 0.5
        if kd == "int":
            return r.choice((0, 1, 2, 3, 1, 2, 5, -1)) if "Settings" not in str(key) else r.choice((1, 2, 3, 4))
        if kd == "str":
            return "s%d" % r.randrange(4)
        if kd in ("float", "num", "any"):
            if self.nanp and r.random() < self.nanp:
                return float("nan")
            if self.ties and r.random() < 0.5:
                return r.choice(SMALLF)
            return round(r.uniform(-3, 3), 3)
        raise Unknown("leaf of kind %s" % kd)

    # ---------------------------------------------------------------- gates
    def gate(self, b):
        while b > 1:
            a, lo, hi = tm.bnode(b)
            b = hi if self.atom(a) else lo
        return b == 1

    def ek(self, t):
        """memo key of t: the term and the variables in scope it depends on"""
        env = self.env
        if env:
            vs = tuple([(v, env[v]) for v in fv(t) if v in env])
            if vs:
                return (t, vs)
        return t

    def under(self, env, f, *a):
        """f(*a) in an extended scope"""
        old = self.env
        self.env = {**old, **env}
        try:
            return f(*a)
        finally:
            self.env = old

    def within(self, env, f, *a):
        """f(*a) in the given scope only"""
        old = self.env
        self.env = env
        try:
            return f(*a)
        finally:
            self.env = old

    def atom(self, a):
        k = self.ek(a)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = bool(self._atom(a))
        return r

    def _atom(self, a):
        o = a.op
        if o == "lt0":
            v = self.ev(a.a[0])
            return v < 0 and not close(v, 0)
        if o == "eq0":
            return close(self.ev(a.a[0]), 0)
        if o == "le":
            v = self.ev(a.a[0])
            return v < a.a[1] or close(v, a.a[1])
        if o == "nan":
            v = self.ev(a.a[0])
            return isinstance(v, float) and math.isnan(v)
        if o in ("isnanv", "isinfv"):
            return False
        if o == "isfinitev":
            return True
        if o == "inset":
            S = self.array(a.a[0])
            v = self.ev(a.a[1])
            return any(close(x, v) for x in S.reshape(-1))
        if o == "truthy":
            x = a.a[0]
            if x.op == "app" and x.a[0] in self.choice:
                return self.ev(x)
            if x.op in ("sym", "app"):
                return self.rval("bool", ("truthy", self.key(x)))
            if ar.shape(x):
                v = self.array(x).reshape(-1)
                if len(v) > 1:
                    raise Unknown("truth of an array")
                return bool(len(v) and v[0])
            v = self.ev(x)
            return bool(v)
        if o == "isnone":
            return self.rval("bool", ("isnone", self.key(a.a[0])))
        if o == "streq":
            return self.ev(a.a[0]) == self.ev(a.a[1])
        if o == "allsame":
            return self.allsame(tm.cval(a.a[0]), self.array(a.a[1]), self.array(a.a[2]))
        if o == "exists":
            s, vs, body = a.a
            return any(self.under(dict(zip(vs, ix)), self.truth, body) for ix in np.ndindex(*[self.dim(d) for d in s]))
        if o in ("istype", "hasattr", "callable", "isscalar", "strpred"):
            return self.rval("bool", (o,) + tuple(self.key(x) for x in a.a))
        if o in self.free:
            return self.rval("bool", self.key(a))
        raise Unknown("condition " + o)

    def allsame(self, nm, x, y):
        if x.shape != y.shape:
            if nm in ("array_equal", "array_equiv"):
                return False
            if x.size != 1 and y.size != 1:
                return False  # raises: no value on this path
        x, y = np.broadcast_arrays(x, y)
        return all(close(p, q) if nm != "allclose" else abs(p - q) <= 1e-8 + 1e-5 * abs(q) for p, q in zip(x.reshape(-1), y.reshape(-1)))

    def truth(self, t):
        if t.op == "bool":
            return self.gate(t.a[0])
        return bool(self.ev(t))

    def key(self, x):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                return tuple(self.key(y) for y in x)
            return x
        if x.op in ("sym", "const") and (x in self.memo or x.op == "const" or x.a[1] in ("int", "float", "num", "bool")):
            return same_number(self.ev(x))
        if x.op in ("sym", "dim", "asym", "const", "ref", "ext", "func", "cls"):
            return (x.op,) + tuple(str(y) for y in x.a)
        sh = (x.a[0] if x.op == "lam" else ar.shape(x)) if x.op not in ("strv", "fmt") else ()
        if sh:
            A = self.array(x)
            return tuple(same_number(v) for v in A.reshape(-1)) + A.shape
        try:
            v = self.ev(x)
        except Unknown:
            if x.op in ("mu", "fresh", "item"):
                return ("leaf", self.lid(x))
            raise
        return same_number(v)

    # ---------------------------------------------------------------- values
    def lid(self, x):
        k = self.ek(x)
        return x.id if k is x else (x.id,) + tuple(v for _, v in k[1])

    def ev(self, t):
        k = self.ek(t)
        r = self.memo.get(k, self)
        if r is self:
            r = self.memo[k] = self._ev(t)
        return r

    def _ev(self, t):
        o, a = t.op, t.a
        if o == "const":
            return tm.cval(t)
        if o == "poly":
            s = 0.0
            for m, c in a:
                p = float(c)
                for x, e in m:
                    v = self.ev(x)
                    if isinstance(v, (bool, np.bool_)):
                        v = int(v)
                    if not isinstance(v, (int, float, np.integer, np.floating)):
                        raise Unknown("arithmetic on " + x.op)
                    if e < 0 and close(v, 0):
                        raise Reject()
                    p *= float(v) ** e
                s += p
            if abs(s) > 1e12:
                raise Reject()
            return s
        if o == "ite":
            return self.ev(a[1]) if self.gate(a[0]) else self.ev(a[2])
        if o == "bool":
            return self.gate(a[0])
        if o == "dim":
            return self.dim(t) if len(a) == 1 else self.count(t)
        if o == "sym":
            return self.rval(a[1] if isinstance(a[1], str) else "any", ("sym",) + tuple(str(x) for x in a))
        if o in VARS and t in self.env:
            return self.env[t]
        if o == "gi":
            if self.dims.get(t) is None:
                raise Unknown("free index")
            return self.dims[t]
        if o == "tuple":
            return tuple(self.ev(x) for x in a)
        if o == "abs":
            return abs(self.num(a[0]))
        if o == "sign":
            v = self.num(a[0])
            return 0 if close(v, 0) else (1 if v > 0 else -1)
        if o == "sqrt":
            v = self.num(a[0])
            if v < 0:
                if v > -1e-9:
                    return 0.0
                raise Reject()
            return math.sqrt(v)
        if o == "ew" and a[0] in ar.MATHFN:
            try:
                r = ar.MATHFN[a[0]](*[self.num(x) for x in a[1:]])
            except (ValueError, OverflowError, ZeroDivisionError):
                raise Reject()
            if isinstance(r, float) and not abs(r) < 1e12:
                raise Reject()
            return r
        if o == "grp":
            return self.ev(a[0])
        if o == "pow":
            x, y = self.num(a[0]), self.num(a[1])
            try:
                r = x ** y
            except (ZeroDivisionError, OverflowError):
                raise Reject()
            if isinstance(r, complex) or abs(r) > 1e12:
                raise Reject()
            return r
        if o == "int":
            return int(self.num(a[0]))
        if o == "float":
            return float(self.num(a[0]))
        if o == "mod":
            y = self.num(a[1])
            if close(y, 0):
                raise Reject()
            return self.num(a[0]) % y
        if o == "floordiv":
            y = self.num(a[1])
            if close(y, 0):
                raise Reject()
            return self.num(a[0]) // y
        if o == "el":
            return self.el(a[0], tuple(self.idx(i) for i in a[1:]))
        if o == "pos":
            L = self.array(a[0]).reshape(-1)
            v = self.ev(a[1])
            for i, x in enumerate(L):
                if close(x, v):
                    return i
            if getattr(self, "absent", False):
                return -1  # no entry: equal to no index
            raise Reject()
        if o == "rank":
            m = self.array(a[0])
            i = tuple(self.idx(x) for x in a[1:])
            k = int(np.ravel_multi_index(i, m.shape))
            return int(sum(bool(x) for x in m.reshape(-1)[:k]))
        if o == "nth":
            m = a[0]
            j = self.idx(a[1])
            if m.op == "keep":
                hit = self.kept(m)
            else:
                hit = [i for i, x in enumerate(self.array(m).reshape(-1)) if x]
            if not -len(hit) <= j < len(hit):
                raise Reject()
            return hit[j]
        if o == "argmaxv":
            L = [float(x) for x in self.array(a[0]).reshape(-1)]
            if not L:
                raise Reject()
            s = sorted(L)
            if len(s) > 1 and close(s[-1], s[-2]):
                raise Reject()
            return L.index(max(L))
        if o == "argsortv":
            L = [float(x) for x in self.array(a[0]).reshape(-1)]
            s = sorted(L)
            if any(close(p, q) for p, q in zip(s, s[1:])):
                raise Reject()
            j = self.idx(a[1])
            if not -len(L) <= j < len(L):
                raise Reject()
            return L.index(s[j])
        if o == "sumk":
            b, n, body = a
            return float(sum(self.under({b: k}, self.num, body) for k in range(self.idx(n))))
        if o == "norm":
            A = self.array(a[0])
            return math.sqrt(sum(float(x) ** 2 for x in A.reshape(-1)))
        if o in ("asum", "amax", "amin") and a[1] is None:
            A = [float(x) for x in self.array(a[0]).reshape(-1)]
            if o != "asum" and not A:
                raise Reject()
            return {"asum": sum, "amax": max, "amin": min}[o](A)
        if o in ("aall", "aany") and a[1] is None:
            A = self.array(a[0]).reshape(-1)
            return all(A) if o == "aall" else any(A)
        if o == "last":
            return self.last(t)
        if o == "app" and a[0] == "searchsorted" and a[1] == "int":
            L = [float(x) for x in self.array(a[3]).reshape(-1)]
            v = self.num(a[4])
            return sum(1 for x in L if x < v)
        if o == "app":
            if a[0] in self.choice:
                r = random.Random("%s|%r" % (self.seed, ("app", a[0]) + tuple(self.key(x) for x in a[2:])))
                return r.choice(self.choice[a[0]])
            if a[1] in ar.SCALAR_KINDS:
                return self.rval(a[1], ("app", a[0]) + tuple(self.key(x) for x in a[2:]))
            raise Unknown("app " + str(a[0]))
        if o == "strv":
            return "".join(str(self.key(x)) for x in a)
        if o == "fmt":
            return ("fmt", self.key(a[0]), self.key(a[1]))
        if o == "mu" and o not in self.free:
            return self.mu(t)
        if o in self.free:
            k = tm.kind(t)
            return self.rval(k, (o, tuple(self.key(x) if isinstance(x, T) and x.op != t.op else str(x) for x in a if not isinstance(x, tuple)), self.lid(t)))
        raise Unknown(o)

    def count(self, t):
        if t.a[0] == "count":
            m = t.a[1]
            return int(sum(bool(x) for x in self.array(m).reshape(-1)))
        if t.a[0] == "delete":
            return len(self.kept(t.a[1]))
        raise Unknown("dim " + str(t.a[0]))

    def kept(self, t):
        """the indices np.delete leaves along an axis of length n"""
        ix, n = t.a[0], self.dim(t.a[1])
        s = ar.shape(ix)
        if s is None:
            raise Unknown("shape of " + ix.op)
        v = [self.ev(ix)] if s == () else list(self.array(ix).reshape(-1))
        if v and all(isinstance(x, (bool, np.bool_)) for x in v):
            if s == () or len(v) != n:
                raise Reject()
            return [i for i in range(n) if not v[i]]
        gone = set()
        for x in v:
            if not isinstance(x, (int, float, np.integer, np.floating)) or abs(x - round(x)) > 1e-9:
                raise Unknown("index of delete")
            x = int(round(x))
            if not -n <= x < n:
                raise Reject()
            gone.add(x % n)
        return [i for i in range(n) if i not in gone]

    def num(self, t):
        v = self.ev(t)
        if isinstance(v, (bool, np.bool_)):
            return int(v)
        if isinstance(v, (int, float, np.integer, np.floating)):
            return v
        raise Unknown("number expected: " + t.op)

    def idx(self, t):
        v = self.num(t)
        if abs(v - round(v)) > 1e-9:
            raise Reject()
        return int(round(v))

    def el(self, base, idx):
        A = self.arrs.get(base)
        if A is not None:
            try:
                if any(i < 0 for i in idx):
                    raise Reject()
                return A[idx].item() if hasattr(A[idx], "item") else A[idx]
            except IndexError:
                raise Reject()
        o = base.op
        s = ar.shape(base)
        if s is not None:
            for i, d in zip(idx, s):
                if not 0 <= i < self.dim(d):
                    raise Reject()
        if o == "asym":
            return self.rval(base.a[2], ("el", base.a[0]) + idx)
        if o == "mu" and o not in self.free:
            return self.mu(base, idx)
        if o == "lam":
            return self.under(dict(zip(base.a[1], idx)), self.ev, base.a[2])
        if o == "app":
            v = self.rval("float", ("el", base.a[0]) + tuple(self.key(x) for x in base.a[2:] if isinstance(x, T)) + idx)
            return v * self.scale.get((base.a[0],) + idx, 1)
        if o in self.free:
            return self.rval("float", ("el", self.lid(base)) + idx)
        r = ar.at(base, [const(i) for i in idx])
        if r.op == "el" and r.a[0] is base:
            raise Unknown("element of " + o)
        return self.ev(r)

    def mu(self, t, idx=None):
        """value of a loop variable: the recurrence, unrolled for this sample"""
        from . import interp

        lid, key, kd, kk = t.a[:4]
        I = interp.INTERPS[lid[1]]
        info = I.loopinfo.get(lid)
        if info is None or kk is info.k and kk not in self.memo and kk not in self.env:
            raise Unknown("mu")
        n = self.idx(kk)
        if n < 0:
            raise Reject()
        oc = tuple(self.idx(q) for q in t.a[4:])
        mk = ("mu", lid, key, kd, n, oc, idx)
        r = self.memo.get(mk)
        if r is not None:
            return r
        if n > 24:
            raise Reject()
        path = []
        k0 = key
        while k0 not in info.mod and isinstance(k0, tuple) and len(k0) == 2 and k0[1] in ("T", "F"):
            path.append(k0[1])
            k0 = k0[0]
        sp = info.mod.get(k0)
        v, v0 = info.back.s.get(k0), info.st0.s.get(k0)
        if sp is None or v is None or v0 is None:
            raise Unknown("mu")
        for side in reversed(path):
            g = sp["gate"] if side == "T" else tm.bnot(sp["gate"])
            v, v0 = tm.restrict(v, g), tm.restrict(v0, g)
            sp = sp["t" if side == "T" else "f"]
        if (sp["kind"] in ("arrc", "refarr")) != (idx is not None):
            raise Unknown("mu")
        if sp["kind"] == "refarr":
            v, v0 = I.num(info.back, v), I.num(info.st0, v0)
        elif sp["kind"] not in ("arrc", "int", "float", "bool", "num"):
            raise Unknown("mu")
        x = v0 if n == 0 else v
        if idx is not None:
            x = ar.at(x, [const(i) for i in idx])
        env = dict(zip(info.octr, oc))
        if n > 0:
            env[info.k] = n - 1
        self.depth += 1
        if self.depth > 250:
            raise Unknown("mu")
        try:
            r = self.within(env, self.ev, x)
        finally:
            self.depth -= 1
        self.memo[mk] = r
        return r

    def last(self, t):
        """index of the last iteration of a loop: the first one after which it does not continue"""
        from . import interp

        lid = t.a[0]
        I = interp.INTERPS[lid[1]]
        info = I.loopinfo.get(lid)
        if info is None:
            raise Unknown("last")
        m = dict(zip(info.octr, t.a[1:]))
        m = {p: self.idx(q) for p, q in m.items()}
        c = 0
        while self.reaches(info, m, c):
            c += 1
            if c > 12:
                raise Reject()
        return c

    def reaches(self, info, m, c):
        """does the loop continue after iteration c?"""
        if info.care == 0:
            return False
        env = {p: q if isinstance(q, int) else self.idx(q) for p, q in m.items()}
        env[info.k] = c
        return self.within(env, self.gate, info.care)

    def array(self, A):
        k = ("A", self.ek(A))
        r = self.memo.get(k)
        if r is None:
            if A in self.arrs:
                return self.arrs[A]
            if A.op == "lam":
                s = A.a[0]
            else:
                s = ar.shape(A)
            if s is None:
                raise Unknown("shape of " + A.op)
            sh = tuple(self.dim(d) for d in s)
            if any(x < 0 for x in sh):
                raise Reject()
            if int(np.prod(sh)) > 400:
                raise Reject()
            r = np.empty(sh, dtype=object)
            for ix in np.ndindex(*sh):
                if A.op == "lam":
                    r[ix] = self.under(dict(zip(A.a[1], ix)), self.ev, A.a[2])
                else:
                    r[ix] = self.ev(ar.at(A, [const(i) for i in ix]))
            self.memo[k] = r
        return r


def same_number(v):
    if isinstance(v, (bool, np.bool_, int, float, np.integer, np.floating)):
        return round(float(v), 6) + 0.0
    return v


def close(x, y, tol=1e-7):
    if isinstance(x, (bool, np.bool_)):
        x = int(x)
    if isinstance(y, (bool, np.bool_)):
        y = int(y)
    num = (int, float, np.integer, np.floating)
    if isinstance(x, num) and isinstance(y, num):
        if x == y:
            return True
        if math.isnan(x) or math.isnan(y):
            return math.isnan(x) and math.isnan(y)
        if math.isinf(x) or math.isinf(y):
            return False
        return abs(x - y) <= tol * max(1.0, abs(x), abs(y))
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(close(p, q, tol) for p, q in zip(x, y))
    if isinstance(x, num) != isinstance(y, num):
        return False
    return x == y


def differ(x, y, pc=1, n=160, seed=1, free=(), dims=None, prep=None, assume=None):
    """a sample on which x and y denote different values although pc holds; None
    if none was found; raises Unknown when the terms have no exact meaning"""
    unknown = None
    good = 0
    for k in range(n):
        s = Sample("%s/%d" % (seed, k), free, dims)
        try:
            if prep is not None and prep(s) is False:
                continue
            if assume is not None and not assume(s):
                continue
            if not s.gate(pc):
                continue
            a, b = s.ev(x), s.ev(y)
        except Reject:
            continue
        except Unknown as e:
            unknown = e
            continue
        except (OverflowError, ZeroDivisionError):
            continue
        good += 1
        if not close(a, b, 1e-5):
            return s, a, b
    if unknown is not None and good == 0:
        raise unknown
    return None
