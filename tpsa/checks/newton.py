"""C07: the Newton solver on an arbitrary function and Jacobian."""
import itertools

from .. import arrays as ar
from .. import eq
from .. import interp as im
from .. import num
from .. import terms as tm
from .. import world as W
from ..report import index
from ..terms import FALSE, NONE, ONE, TRUE, ZERO, add, band, bnot, bor, cmp_bdd, const, mk, mul, neg, sub
from ..lib import norm_of
from . import check
from .solver import mu_parts, shp

N = mk("dim", "N")
tm.NONNEG.add(N)
tm.POSITIVE.add(N)
X0 = ar.asym("x0", (N,))
EXTRA = (mk("sym", "arg1", "float"), mk("sym", "arg2", "float"))
F, D = mk("sym", "user.f", "any"), mk("sym", "user.dfdx", "any")
P = {k: mk("sym", "par." + k, d) for k, d in (("nfev", "int"), ("ftol", "float"), ("xtol", "float"), ("verbose", "int"))}


def arrc(I, st, v):
    c = I.num(st, v)
    return ar.lam(c) if ar.shape(c) else c


class Run:
    def __init__(self, rep):
        I = self.I = im.Interp(rep.prog)
        st = im.State()
        self.calls = []

        def opq(I, fv, args, kw, st, n):
            if fv is F or fv is D:
                if kw or not args:
                    return None
                key = [arrc(I, st, a) for a in args]
                I.ev("user", st, n, fn=fv, x=key[0], args=tuple(key[1:]))
                sh = (N,) if fv is F else (N, N)
                return I.new_array(st, mk("app", fv.a[0], "arr", sh, *key))
            return None

        I.opaque = opq
        f = self.f = W.public(rep.prog, "trusspy.solvers.newton")
        a = f.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for q in ("f", "dfdx", "x", "nfev", "ftol", "xtol"):
            if q not in names:
                raise W.AnchorError("newton has no parameter " + q)
        b = {"f": F, "dfdx": D, "x": I.new_array(st, X0)}
        b.update({k: v for k, v in P.items() if k in names})
        self.x = b["x"]
        if a.vararg is None:
            raise W.AnchorError("newton takes no extra arguments")
        b[a.vararg.arg] = mk("tuple", *EXTRA)
        self.v, self.st = I.run(f, b, st)
        self.parts = None
        if self.v.op == "tuple" and len(self.v.a) == 5:
            self.parts = [I.num(self.st, t) for t in self.v.a]
        self.loops = list(I.loopinfo.values())


def app(f, x):
    sh = (N,) if f is F else (N, N)
    return mk("app", f.a[0], "arr", sh, x, *EXTRA)


@check("C07", "value graph of the Newton loop with an arbitrary function and Jacobian; success gate compared with NaN-aware comparisons")
def c07(rep):
    tm.NANMODE[0] = True
    try:
        _c07(rep)
    finally:
        tm.NANMODE[0] = False


def _c07(rep):
    R = Run(rep)
    I, f = R.I, R.f
    if R.parts is None:
        rep.und("result: vector, success, iterations, norms", f, tm.show(R.v, 4)[:200])
        return
    x, ok, cnt, fn, xn = R.parts
    ok = tm.asbdd(ok)
    if ok is None:
        rep.und("success: a truth value", f, tm.show(R.parts[1], 4)[:200])
        return
    pcx = R.st.pc  # normal return
    # domain: at least one iteration
    dom = band(cmp_bdd(">=", P["nfev"], ONE), pcx)
    # the loop that updates the vector
    main = [l for l in R.loops if any(t.op == "mu" and t.a[0] == l.lid for t in tm.walk(mk("tuple", x, fn, xn)))]
    if len(main) != 1:
        rep.und("iterates: updated in one loop", f, "%d loops" % len(main))
        return
    info = main[0]
    last = mk("last", info.lid)
    lastv = None
    for t in tm.walk(mk("tuple", x, fn, xn, cnt)):
        if t.op == "mu" and t.a[0] == info.lid and t.a[3] is not info.k:
            lastv = t.a[3]
    xs = {t for t in tm.walk(x) if t.op == "mu" and t.a[0] == info.lid and t.a[2] == "arr"}
    kw = dict(node=f, prep=prep0)
    i = index("comp", N)
    done = False
    for m in sorted(xs, key=lambda t: str(t.a[1])):
        step = mk("app", "solve", "arr", (N,), app(D, m), app(F, m))
        want = sub(ar.at(m, [i]), ar.at(step, [i]))
        r, why = rep.same_value(ar.at(x, [i]), want, dom, (), kw["prep"], None, (i,))
        h = mk("mu", m.a[0], m.a[1], m.a[2], info.k, *info.octr)
        p = mu_parts(I, h)
        if p is None:
            continue
        v0, v, _ = p
        if len(xs) > 1 and r is not True:
            continue
        done = True
        rep._add({True: "held", False: "violated"}.get(r, "undecided"), "update: vector returned is the last iterate minus Jacobian solved for the residual, at that iterate with the caller's arguments", f, why, why)
        rep.equal("update: first iterate is the start vector", ar.at(v0, [i]), ar.at(X0, [i]), idx=(i,), **kw)
        step = mk("app", "solve", "arr", (N,), app(D, h), app(F, h))
        rep.equal("update: every iterate follows from the one before", ar.at(v, [i]), sub(ar.at(h, [i]), ar.at(step, [i])), idx=(i,), free=("mu", "last"), node=f, pc=info.care)
        xl = ar.lam(x)
        fn_want = norm_of(app(F, xl))
        dx = mk("app", "solve", "arr", (N,), app(D, m), app(F, m))
        xn_want = norm_of(dx)
        rep.equal("norms: residual norm is the one of the returned vector", fn, fn_want, dom, **kw)
        rep.equal("norms: update norm is the one of the last update", xn, xn_want, dom, **kw)
        good = band(cmp_bdd("<", fn_want, P["ftol"]), cmp_bdd("<", xn_want, P["xtol"]))
        rep.cond("success: exactly if both norms are below their tolerances (NaN is not)", ok, good, dom, assume=nan, **kw)
        # continuation
        if lastv is not None:
            back = {lastv: info.k}
            g = tm.bsubst(good, back)
        else:
            g = good
        care = info.care
        want_c = band(bnot(g), cmp_bdd("<", add(info.k, ONE), P["nfev"]))
        rep.cond("stop: another iteration is made exactly if not converged and nfev is not reached", care, want_c, band(cmp_bdd(">=", P["nfev"], ONE), cmp_bdd("<", info.k, P["nfev"]), cmp_bdd(">=", info.k, ZERO)), node=f, free=("mu", "last", "ctr"), assume=nan)
        if lastv is not None:
            rep.equal("count: iterations made", cnt, add(lastv, ONE), dom, **kw)
        else:
            rep.und("count: iterations made", f, "no loop index")
        break
    if not done:
        rep.und("update: the iterates of the Newton method", f, "no loop variable found in " + tm.show(x, 4)[:200])
    # the loop is entered, nothing runs before it
    rep.cond("stop: the first iteration is always made", tm.bsubst(info.chead, {info.k: ZERO}) if info.chead != 1 else 1, 1, dom, node=f)
    # functions get the caller's arguments
    for e in I.events:
        if e.kind == "user":
            rep.fact("arguments: %s gets exactly the caller's extra arguments" % ("the function" if e.data["fn"] is F else "the Jacobian"), e.data["args"] == EXTRA, e.node, "called with " + ", ".join(tm.show(t, 3) for t in e.data["args"]))
    # the start vector of the caller is left alone
    for e in I.events:
        if e.kind == "store" and e.data.get("loc") == R.x.a[0]:
            rep.bad("update: the caller's start vector is not overwritten", e.node, "stored into x")


def prep0(s):
    m, r = s.memo, s.rnd
    m[P["nfev"]] = r.choice((1, 2, 3, 4, 8))
    m[P["ftol"]] = r.choice((0.5, 1.0, 2.0, 4.0, 8.0))
    m[P["xtol"]] = r.choice((0.5, 1.0, 2.0, 4.0, 8.0))
    m[P["verbose"]] = r.choice((0, 1))


def nan(s):
    """some samples have NaN among the answers of the user's functions"""
    s.nanp = s.rnd.choice((0.0, 0.0, 0.3))
    return True
