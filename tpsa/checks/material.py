"""C04, C05: the two material laws, for an arbitrary strain, history and parameter set."""
from .. import arrays as ar
from .. import eq
from .. import interp as im
from .. import terms as tm
from .. import world as W
from ..terms import NONE, ONE, ZERO, add, band, bnot, bor, cmp_bdd, const, div, ite, mk, mul, neg, sub
from . import check


def sym(n, *f):
    return mk("sym", n, "float", *f)


E_, K_, SY, EPS, DEPS, Y0, P0 = (sym(n) for n in ("E", "K", "Sy", "strain", "dstrain", "state.yield", "state.plastic_strain"))


def analyse(rep, name, nprop, container):
    """run the law on symbols; container: 'array' or 'list' of material parameters"""
    prog = rep.prog
    f = W.public(prog, "trusspy.materials." + name)
    I = im.Interp(prog)
    st = im.State()
    props = mk("tuple", *(E_, K_, SY)[:nprop])
    mp = I.new_array(st, mk("npa", props, "dyn")) if container == "array" else I.new_list(st, [im.e_(x) for x in props.a])
    sv = I.new_array(st, mk("npa", mk("tuple", Y0, P0), "dyn"))
    args = [EPS, DEPS, mp, sv]
    names = [a.arg for a in f.args.args]
    b = dict(zip(names, args))
    v, st2 = I.run(f, b, st)
    return f, I, st2, v, sv


def ret4(rep, I, f, v):
    if v.op != "tuple" or len(v.a) != 4:
        rep.fact("result: the law returns stress, tangent, thermal tangent and state variables", None if v.op != "tuple" else False, f, "returns " + tm.show(v, 3)[:200])
        return None
    rep.held("result: the law returns stress, tangent, thermal tangent and state variables", f)
    return v.a


@check("C04", "value-graph equality of the linear-elastic law with E*strain; effect analysis of its state argument")
def c04(rep):
    tm.POSITIVE.add(E_)
    for cont in ("array", "list"):
        for nprop in (1, 3):
            f, I, st, v, sv = analyse(rep, "umat_el", nprop, cont)
            t = " (%d parameters as %s)" % (nprop, cont)
            r = ret4(rep, I, f, v)
            if r is None:
                continue
            s, d, dt, q = r
            rep.equal("stress: E times the total strain" + t, I.num(st, s), mul(E_, EPS), node=f)
            rep.equal("tangent: E" + t, I.num(st, d), E_, node=f)
            rep.cond("raise: the law never fails" + t, _raised(I), 0, node=f)
            # state: returned value is the given one, and nothing is written to it
            now = I.content(st, sv)
            for k, x in enumerate((Y0, P0)):
                rep.equal("state: given state variable %d unchanged" % k + t, ar.at(now, [const(k)]), x, node=f)
                c = I.num(st, q)
                if ar.shape(c) is not None and len(ar.shape(c)) == 1:
                    rep.equal("state: returned state variable %d is the given one" % k + t, ar.at(c, [const(k)]), x, node=f)
                else:
                    rep.fact("state: returned state variable %d is the given one" % k + t, None, f, tm.show(c, 4))
    # a law without history (no state variables in the model)
    prog = rep.prog
    f = W.public(prog, "trusspy.materials.umat_el")
    I = im.Interp(prog)
    st = im.State()
    mp = I.new_array(st, mk("npa", mk("tuple", E_), "dyn"))
    v, st2 = I.run(f, dict(zip([a.arg for a in f.args.args], [EPS, DEPS, mp, NONE])), st)
    r = ret4(rep, I, f, v)
    if r:
        rep.equal("stress: E times the total strain (no state variables)", I.num(st2, r[0]), mul(E_, EPS), node=f)
        rep.equal("tangent: E (no state variables)", I.num(st2, r[1]), E_, node=f)
        rep.fact("state: none returned when none given", True if r[3] is NONE else (None if r[3].op in eq.UNDERSTOOD_NOT else False), f, tm.show(r[3], 4))
        rep.cond("raise: the law never fails (no state variables)", _raised(I), 0, node=f)


def _raised(I):
    g = 0
    for e in I.events:
        if e.kind == "raise":
            g = bor(g, e.pc)
    return g


@check("C05", "value-graph equality of the elastic-plastic law with the isotropic-hardening return mapping, per gate case")
def c05(rep):
    for x in (E_, SY):
        tm.POSITIVE.add(x)

    def domain(s):
        return s.ev(E_) > 0 and s.ev(SY) > 0 and s.ev(Y0) >= 0 and s.ev(E_) + s.ev(K_) > 1e-3

    for cont in ("array", "list"):
        f, I, st, v, sv = analyse(rep, "umat_elplast_iso", 3, cont)
        t = " (parameters as %s)" % cont
        r = ret4(rep, I, f, v)
        if r is None:
            continue
        s, d, dt, q = r
        trial = mul(E_, sub(EPS, P0))
        y = ite(cmp_bdd("==", Y0, ZERO), SY, Y0)
        over = sub(tm.tabs(trial), y)
        plastic = cmp_bdd("<", ZERO, over)
        dg = div(over, add(E_, K_))
        sg = tm.tsign(trial)
        kw = dict(node=f, assume=domain)
        dom = cmp_bdd("<=", ZERO, Y0)
        pe, pp = band(dom, bnot(plastic)), band(dom, plastic)
        # trial stress zero is never plastic for a non-negative yield stress
        nz = bnot(cmp_bdd("==", trial, ZERO))
        pp = band(pp, nz)
        S = I.num(st, s)
        D = I.num(st, d)
        rep.equal("stress: trial stress while the yield stress is not exceeded" + t, S, trial, pe, **kw)
        rep.equal("stress: returned to the hardened yield surface in trial direction" + t, S, mul(sub(tm.tabs(trial), mul(E_, dg)), sg), pp, **kw)
        rep.equal("tangent: E while elastic" + t, D, E_, pe, **kw)
        rep.equal("tangent: E*K/(E+K) while plastic" + t, D, div(mul(E_, K_), add(E_, K_)), pp, **kw)
        c = I.num(st, q)
        s0 = ar.shape(c)
        if s0 is None or len(s0) != 1:
            rep.und("state: returned as array of two", f, tm.show(c, 4))
            continue
        yy, pl = ar.at(c, [ZERO]), ar.at(c, [ONE])
        rep.equal("state: yield stress kept (or initialised) while elastic" + t, yy, y, pe, **kw)
        rep.equal("state: yield stress hardens by K*dg" + t, yy, add(y, mul(K_, dg)), pp, **kw)
        rep.equal("state: plastic strain unchanged while elastic" + t, pl, P0, pe, **kw)
        rep.equal("state: plastic strain moves by dg in trial direction" + t, pl, add(P0, mul(dg, sg)), pp, **kw)
        # consistency: the stress lies on the updated yield surface
        rep.equal("surface: |stress| equals the updated yield stress after plastic flow" + t, mul(S, sg), yy, pp, **kw)
        rep.cond("raise: the law never fails" + t, _raised(I), 0, node=f, assume=domain)
