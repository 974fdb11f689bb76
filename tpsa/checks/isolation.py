"""C19 (rebuild starts fresh), C20 (running and plotting leave the definition alone), C21 (models are independent)."""
import ast

from .. import arrays as ar
from .. import front
from .. import interp as im
from .. import lib
from .. import terms as tm
from .. import world as W
from ..report import index
from ..terms import FALSE, NONE, ONE, TRUE, UNBOUND, ZERO, T, band, bnot, const, ite, mk
from . import check
from .catalog import Done, args_of, getters, plots
from .common import Mid, callv
from .results import listleaves, path_to, reach

DEFINITION = ("Nodes", "Elements", "Boundaries", "ExtForces", "Settings")
OWN = ("stdout", "logfile", "logfile_name")


def keys_of(st, loc):
    return [k for k in st.s if k[0] == loc and len(k) > 1]


def index_keys(st):
    out = {}
    for k in st.s:
        if len(k) > 1:
            out.setdefault(k[0], []).append(k)
    return out


def definition(I, st, M, names=DEFINITION):
    out = set()
    for h in names:
        v = I.get_field(st, M.a[0], h)
        if v is not None:
            out |= reach(I, st, v)
    return out


# ------------------------------------------------------------------ C19
class Old:
    """everything an earlier build and run computed becomes a symbol of its own"""

    def __init__(self, I, st, M, keep):
        self.n = 0
        self.name = {}
        idx = index_keys(st)
        self.locs = set()
        todo = [k for k in st.s if k[0] == M.a[0] and len(k) == 3 and k[1] == "." and k[2] not in DEFINITION + OWN]
        roots = set()
        for k in todo:
            lib.reach_refs(st.s[k], roots) if isinstance(st.s[k], T) else None
            self.leaf(st, k, "Model." + k[2])
        for l in roots:
            self.locs |= reach(I, st, mk("ref", l, ()), stop=keep)
        self.locs -= keep
        self.locs.discard(M.a[0])
        for l in self.locs:
            for k in idx.get(l, ()):
                if k[1] == "a":
                    self.arr(st, k)
                elif k[1] == ".":
                    self.leaf(st, k, k[2])

    def arr(self, st, k):
        s = ar.shape(st.s[k])
        self.n += 1
        if s is not None:
            st.s[k] = ar.asym("old.%d" % self.n, tuple(s), "int" if ar_int(st.s[k]) else "float")
        else:
            st.s[k] = mk("sym", "old.%d" % self.n, "any")

    def leaf(self, st, k, name):
        v = st.s[k]
        if isinstance(v, T) and tm.kind(v) in ("int", "float", "num", "bool", "str") and v.op != "ref":
            self.n += 1
            st.s[k] = mk("sym", "old.%d" % self.n, tm.kind(v))
            self.name["old.%d" % self.n] = name


def ar_int(t):
    try:
        return ar.akind(t) == "int"
    except Exception:
        return False


def tainted(v, seen):
    """an old.* symbol in a term (gates included)"""
    for x in tm.walk(v):
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("sym", "asym") and str(x.a[0]).startswith("old."):
            return x
    return None


ZEROS = ("U", "U0", "r", "g", "K", "stretch", "element_force", "element_stress", "element_stress0", "Ured")


@check("C19", "Model.build is analysed a second time, after a build and a run whose every computed number and array was replaced by a symbol of its own: "
              "reachability (no object of the earlier run) and dependence (no symbol of the earlier run) of the new results and analysis, zero contents.")
def c19(R):
    prog = R.prog
    for steps, counts in ((1, (2,)), (2, (1, 2))) if R.tier == "quick" else ((1, (2,)), (2, (1, 2)), (3, (1, 1, 1)), (1, (0,))):
        rebuild(R, prog, steps, counts, True)
    rebuild(R, prog, 1, (1,), False)


def rebuild(R, prog, steps, counts, ran):
    tag = " [after a build and a run, %d step%s]" % (steps, "s" if steps > 1 else "") if ran else " [after a build]"
    w = W.built(prog, steps=steps)
    R.interps.append(w.I)
    I, M = w.I, w.M
    if ran:
        W.generalise(w)
        W.run_model(w, counts)
        st = w.post
    else:
        st = w.st
    st.pc = 1
    keep = definition(I, st, M)
    old = Old(I, st, M, keep)
    # the definition may have been changed in between: arbitrary again
    W.populate(I, st, M, steps=steps)
    bld = W.method(prog, w.cls, "build")
    u = len(I.unmodelled)
    v, st = I.run(bld, {bld.args.args[0].arg: M}, st)
    if st.pc == 0:
        R.bad("rebuild: build can be repeated" + tag, bld, "never returns")
        return
    pos = ok = True
    st2 = st
    Rs, A = W.fld(I, st, M, "Results"), W.fld(I, st, M, "Analysis")
    names = {}
    # 1 nothing old reachable
    for name, o in (("Results", Rs), ("Analysis", A)):
        if o.op != "ref":
            R.und("fresh: Model.%s is an object" % name + tag, bld, tm.show(o, 3)[:100])
            continue
        here = reach(I, st, o)
        both = here & old.locs
        if both:
            b = sorted(both, key=str)[0]
            R.bad("fresh: no object of the earlier run is reachable through Model.%s" % name + tag, bld, "%s is an object of the earlier run" % path_to(I, st, o.a[0], b))
        else:
            R.held("fresh: no object of the earlier run is reachable through Model.%s" % name + tag, bld, "%d locations, disjoint from %d old ones" % (len(here), len(old.locs)))
        seen = set()
        idx = index_keys(st)
        bad = None
        for l in sorted(here, key=str):
            for k in idx.get(l, ()):
                x = st.s[k]
                if isinstance(x, T) and not (k[1] == "l" and x.op == "unk"):
                    t = tainted(x, seen)
                    if t is not None and bad is None:
                        bad = (l, k, x, t)
        if bad:
            l, k, x, t = bad
            where = path_to(I, st, o.a[0], l) + ("." + k[2] if k[1] == "." else "")
            R.bad("fresh: contents of Model.%s do not depend on an earlier run" % name + tag, bld,
                  "%s depends on %s of the earlier run: %s" % (where, old.name.get(str(t.a[0]), "a value"), tm.show(x, 4)[:200]))
        else:
            R.held("fresh: contents of Model.%s do not depend on an earlier run" % name + tag, bld, "no symbol of the earlier run in any reachable value or gate")
    # 2 collection
    L = W.fld(I, st, Rs, "R")
    it = I.iter_known(L, st)
    if it is None:
        R.und("fresh: one entry in the results" + tag, bld, tm.show(L, 3)[:100])
    else:
        R.fact("fresh: one entry in the results" + tag, len(it) == 1, bld, "%d entries" % len(it))
    E = I.iter_known(W.fld(I, st, Rs, "step_lpf_end"), st)
    if E is None:
        R.und("fresh: no step end recorded" + tag, bld)
    else:
        R.fact("fresh: no step end recorded" + tag, len(E) == 0, bld, "%d entries" % len(E))
    # 3 zero contents
    objs = [("analysis", A)] + ([("result", it[0])] if it and len(it) == 1 else [])
    for on, o in objs:
        if o.op != "ref":
            continue
        for f in ZEROS:
            v = I.get_field(st, o.a[0], f)
            what = "fresh: %s of the %s is zero" % (f, on) + tag
            if v is None or v is UNBOUND or v is NONE:
                R.bad(what, bld, "not set")
                continue
            zero(R, I, st, what, v, bld, 1)
        v = I.get_field(st, o.a[0], "state_v")
        if v is not None and v is not NONE and v is not UNBOUND:
            zero(R, I, st, "fresh: state_v of the %s is zero" % on + tag, v, bld, 1)
        v = I.get_field(st, o.a[0], "lpf")
        if on == "result":
            R.equal("fresh: LPF of the result is zero" + tag, I.num(st, v) if v is not None else NONE, ZERO, node=bld)
    if len(objs) == 2:
        both = reach(I, st, objs[0][1]) & reach(I, st, objs[1][1])
        R.fact("fresh: the first entry is a snapshot" + tag, not both, bld, "shares %s with the analysis" % [path_to(I, st, objs[1][1].a[0], b) for b in both][:2])


def zero(R, I, st, what, v, node, pc):
    if v.op == "ite":
        zero(R, I, st, what, v.a[1], node, band(pc, v.a[0]))
        zero(R, I, st, what, v.a[2], node, band(pc, bnot(v.a[0])))
        return
    if v is NONE or v is UNBOUND or pc == 0:
        return
    c = I.num(st, v)
    s = ar.shape(c)
    if s is None:
        R.und(what, node, tm.show(c, 3)[:100])
        return
    ix = [index("i%d" % k, d) for k, d in enumerate(s)]
    R.equal(what, ar.at(c, ix), ZERO, pc, idx=tuple(ix), node=node)


# ------------------------------------------------------------------ C20
def changed(R, I, pre, post, locs, keyfilter=None):
    """keys of the locations whose content differs: [(key, before, after, True/None)]"""
    out = []
    a, b = index_keys(pre), index_keys(post)
    for l in locs:
        ks = set(a.get(l, ())) | set(b.get(l, ()))
        for k in ks:
            if keyfilter is not None and not keyfilter(k):
                continue
            x, y = pre.s.get(k), post.s.get(k)
            if x is y or x == y:
                continue
            if k[1] == "." and x is None and str(k[2]).startswith("_"):
                continue  # a private attribute of its own
            if not isinstance(x, T) or not isinstance(y, T):
                out.append((k, x, y, True))
                continue
            d = differs(R, I, pre, post, x, y)
            if d is not False:
                out.append((k, x, y, d))
    return out


def differs(R, I, pre, post, x, y):
    """True / False / None (unknown)"""
    pc = post.pc
    if pc == 0:
        return False
    x, y = tm.restrict(x, pc), tm.restrict(y, pc)
    if x is y:
        return False
    kx, ky = tm.kind(x), tm.kind(y)
    try:
        sx, sy = ar.shape(x), ar.shape(y)
    except Exception:
        sx = sy = None
    if sx and sy and len(sx) == len(sy):
        r = R.arr_val(x, list(sy), lambda *i: ar.at(y, list(i)), pc)
        return None if r[0] is None else not r[0]
    if kx in ("int", "float", "num", "bool") and ky in ("int", "float", "num", "bool"):
        r = R.same_value(y, x, pc)
        return None if r[0] is None else not r[0]
    if x.op == "unk" or y.op == "unk":
        return None
    return True


def names_of(I, st, M):
    """location -> name through the model"""
    out = {}
    work = [(M.a[0], "Model")]
    idx = index_keys(st)
    while work:
        l, p = work.pop(0)
        if l in out:
            continue
        out[l] = p
        for k in idx.get(l, ()):
            t = st.s[k]
            if isinstance(t, T):
                new = set()
                lib.reach_refs(t, new)
                for o in new:
                    if o not in out:
                        work.append((o, p + ("." + k[2] if k[1] == "." else "[]")))
    return out


def report(R, what, diff, names, events, node):
    if not diff:
        R.held(what, node, "every reachable location has the same content before and after")
        return
    for k, x, y, sure in diff[:5]:
        nm = names.get(k[0], "?") + ("." + str(k[2]) if k[1] == "." else "")
        site = [e.node for e in events if e.kind == "store" and e.data.get("loc") == k[0] and (k[1] != "." or e.data.get("field") == k[2])]
        d = "%s: %s -> %s" % (nm, tm.show(x, 4)[:120] if isinstance(x, T) else x, tm.show(y, 4)[:120] if isinstance(y, T) else y)
        (R.bad if sure else R.und)(what, site[-1] if site else node, d)


MODELFIELDS = ("nnodes", "nelems", "ndim", "ndof", "nproBC", "nproDOF", "nproDOF0", "nproDOF1", "ndof0", "ndof1", "logfile", "logfile_name", "stdout", "Nodes", "Elements",
               "Boundaries", "ExtForces", "Settings")


@check("C20", "abstract heap before and after: every location reachable from the model definition and settings across Model.run, a residual and a stiffness evaluation and path following; "
              "every location reachable from the model across every plot, movie and getter call with documented arguments")
def c20(R):
    prog = R.prog
    # run
    for steps, counts in ((1, (2,)), (2, (2, 1))) if R.tier == "quick" else ((1, (2,)), (2, (2, 1)), (3, (1, 0, 2)), (1, (0,))):
        w = W.generalise(W.built(prog, steps=steps))
        I = w.I
        R.interps.append(I)
        pre = w.st.copy()
        W.run_model(w, counts)
        st = w.post
        locs = definition(I, pre, w.M)
        names = names_of(I, pre, w.M)
        run = W.method(prog, w.cls, "run")
        report(R, "run: nodes, elements, boundaries, forces and settings are left as they were [%d step%s]" % (steps, "s" if steps > 1 else ""),
               changed(R, I, pre, st, locs), names, w.run_events, run)
        report(R, "run: the model keeps its parts and numbers [%d step%s]" % (steps, "s" if steps > 1 else ""),
               changed(R, I, pre, st, [w.M.a[0]], lambda k: k[1] == "." and k[2] in MODELFIELDS), names, w.run_events, run)
    # evaluations
    m = Mid(R)
    I = m.I
    R.interps.append(I)
    M = m.w.M
    for what, go in (("residual evaluation", lambda: m.evaluate()), ("residual evaluation with commit", lambda: m.evaluate(commit=TRUE)), ("stiffness evaluation", lambda: m.stiffness())):
        pre = m.st
        o = go()
        locs = definition(I, pre, M)
        names = names_of(I, pre, M)
        report(R, what + ": nodes, elements, boundaries, forces and settings are left as they were", changed(R, I, pre, o.st, locs), names, o.events, m.gfn)
        report(R, what + ": the model keeps its parts and numbers", changed(R, I, pre, o.st, [M.a[0]], lambda k: k[1] == "." and k[2] in MODELFIELDS), names, o.events, m.gfn)
    # path following: the values it is given
    from .solver import SCEN, Impl, sname

    for scen in SCEN[:1] if R.tier == "quick" else SCEN:
        P = Impl(R, scen)
        R.interps.append(P.I)
        keep = reach(P.I, P.st, P.x)
        t = " [%s]" % sname(scen)
        bad = [e for e in P.I.events if e.kind == "store" and (e.data.get("loc") in keep or isinstance(e.data.get("loc"), tuple) and e.data["loc"] and e.data["loc"][0] == "t")]
        for e in bad[:3]:
            R.bad("path following: the arguments are left alone" + t, e.node, "stores into %s" % (e.data.get("loc"),))
        if not bad:
            R.held("path following: the arguments are left alone" + t, P.f, "no store into the start vector, limits or settings")
    # plots and getters
    d = Done(R, 1, (2,))
    I, M = d.I, d.M
    locs = reach(I, d.st, M)
    names = names_of(I, d.st, M)
    for label, meth, kw in plots(d, R.tier):
        pre = d.st.copy()
        k = args_of(kw, pre)
        c = d.do(meth, [], k, st=pre)
        report(R, "%s: changes nothing in the model, its results and settings" % label, changed(R, I, d.st, c.st, locs), names, c.events, c.f)
        if c.st.pc == 0:
            R.und("%s: returns" % label, c.f, "never returns in the analysis")
    for label, on, meth, args, kw in getters(d):
        c = d.do(meth, args, kw, on=on)
        report(R, "%s: changes nothing in the model, its results and settings" % label, changed(R, I, d.st, c.st, locs), names, c.events, c.f)


# ------------------------------------------------------------------ C21
SHAREDROOT = ("g", "c", "dflt")


def shared_roots(st):
    out = set()
    for k in st.s:
        if isinstance(k[0], tuple) and k[0] and k[0][0] in SHAREDROOT:
            out.add(k[0])
        if k[0] in ("g", "c") and isinstance(st.s[k], T):
            lib.reach_refs(st.s[k], out)
    return out


def is_shared(loc):
    if not isinstance(loc, tuple) or not loc:
        return False
    if loc[0] in SHAREDROOT:
        return True
    return loc[0] == "t" and len(loc) > 1 and isinstance(loc[1], T) and loc[1].op in ("func", "cls", "ext", "rawfunc", "mod")


def where_shared(prog, loc):
    k = loc[0]
    if k == "g":
        return "module-level variable %s.%s" % (loc[1], loc[2])
    if k == "c":
        return "class-level variable %s.%s" % (prog.nodes[loc[1]].name, loc[2])
    if k == "dflt":
        return "default value of parameter %s of %s" % (loc[2], prog.qual(prog.nodes[loc[1]]))
    return "attribute of %s" % tm.show(loc[1], 3)


SHARED = "no store into module-level or class-level variables or default arguments"
CALLER = "the caller's own objects and sequences are left alone"


def stores(R, prog, I, st, events, what, node, caller=()):
    """effects on shared and on the caller's locations"""
    sh = set()
    for r in shared_roots(st):
        sh |= reach(I, st, mk("ref", r, ()))
    bad = []
    for e in events:
        if e.kind != "store":
            continue
        l = e.data.get("loc")
        if e.pc == 0:
            continue
        if is_shared(l):
            bad.append((SHARED, e, where_shared(prog, l)))
        elif l in sh:
            bad.append((SHARED, e, "object kept in a module-level, class-level or default value"))
        elif l in caller:
            bad.append((CALLER, e, "stores into %s" % caller[l]))
    seen = set()
    for rule, e, d in bad:
        if (rule, id(e.node), d) in seen or len(seen) > 5:
            continue
        seen.add((rule, id(e.node), d))
        R.bad("%s: %s" % (what, rule), e.node, d)
    for rule in (SHARED,) + ((CALLER,) if caller else ()):
        if not any(b[0] == rule for b in bad):
            R.held("%s: %s" % (what, rule), node, "%d stores" % sum(1 for e in events if e.kind == "store"))


class User:
    """arguments owned by the caller"""

    def __init__(self, I, st):
        self.I, self.st, self.locs = I, st, {}

    def own(self, v, name):
        for l in reach(self.I, self.st, v):
            self.locs.setdefault(l, name)
        return v

    def list(self, name, xs):
        return self.own(self.I.new_list(self.st, [im.e_(x) for x in xs]), name)

    def array(self, name, shape, k="float"):
        return self.own(self.I.new_array(self.st, ar.asym(name, shape, k)), name)


def handler_history(R, prog, name, kind):
    """records from the caller's lists or arrays, then every assignment and deletion"""
    from .handlers import ADD, DEL

    I = im.Interp(prog)
    R.interps.append(I)
    st = im.State()
    cls = W.public(prog, "trusspy.handlers." + name)
    ref = I.new_inst(st, cls._tid)
    init = W.method(prog, cls, "__init__")
    v, st = I.run(init, {init.args.args[0].arg: ref}, st)
    # another handler that gets the same records
    ref2 = I.new_inst(st, cls._tid)
    v, st = I.run(init, {init.args.args[0].arg: ref2}, st)
    both = reach(I, st, ref) & reach(I, st, ref2)
    R.fact("two %ss share nothing" % name, not both, init, "shared: %s" % [path_to(I, st, ref.a[0], b) for b in both][:2])
    u = User(I, st)
    S = lambda n, k="float": mk("sym", n, k)
    mk_ = (lambda n, xs: u.list(n, xs)) if kind == "list" else (lambda n, xs: u.own(I.new_array(st, mk("npa", mk("tuple", *xs), "float" if tm.kind(xs[0]) == "float" else "int")), n))
    tag = " [values given as %ss]" % kind
    core = {"NodeHandler": "Node", "BoundaryHandler": "BoundaryU", "ExternalForceHandler": "ExternalForce", "ElementHandler": "Element"}[name]
    ccls = W.public(prog, "trusspy." + core)
    objs = []

    def do(target, meth, args, kw=None):
        f = W.method(prog, cls, meth)
        return callv(I, st, mk("bound", mk("func", f._tid), target), args, kw or {}, f)

    def one(k):
        l = S("new.label%d" % k, "int")
        if name == "ElementHandler":
            a = [l, mk_("the connectivity given", [S("c%d" % k, "int"), S("d%d" % k, "int")])]
            kw = {"material_properties": mk_("the material properties given", [S("m%d%d" % (k, q)) for q in range(3)]), "geometric_properties": mk_("the section properties given", [S("g%d" % k)])}
            if kind == "array":
                kw = {"mprop": kw["material_properties"], "gprop": kw["geometric_properties"]}
            return a, kw
        n = 6 if name == "ExternalForceHandler" else 3
        t = "int" if name == "BoundaryHandler" else "float"
        return [l, mk_("the values given", [S("v%d%d" % (k, q), t) for q in range(n)])], {}

    n0 = len(I.events)
    for k in range(3):
        a, kw = one(k)
        o = callv(I, st, mk("cls", ccls._tid), a, kw, ccls)
        objs.append(o)
    stores(R, prog, I, st, I.events[n0:], "%s: construction of records%s" % (core, tag), ccls, dict(u.locs))
    n0 = len(I.events)
    for o in objs:
        u.own(o, "the %s given" % core)
    add1, add2 = ADD[name]
    # first record of an empty handler, then several at once
    do(ref, add1, [objs[0]])
    many = u.list("the list given", objs[1:])
    do(ref, add2, [many])
    do(ref2, add1, [objs[0]])
    if name == "ElementHandler":
        labs = u.list("the labels given", [S("new.label0", "int")])
        mp = mk_("the material properties assigned", [S("am%d" % q) for q in range(3)])
        gp = mk_("the section properties assigned", [S("ag")])
        do(ref, "assign_material", [labs, mp, S("amt", "int")])
        do(ref, "assign_geometry", [labs, gp])
        do(ref, "assign_etype", [labs, S("aet", "int")])
        do(ref, "assign_mtype", [labs, S("amt2", "int")])
        gl = u.list("the list of section properties assigned", [gp])
        do(ref, "assign_geometries", [labs, gl])
        do(ref, "assign_material", [const("all"), mp, S("amt", "int")])
        mp2 = mk_("the material properties assigned", [S("am%d" % q) for q in range(2)])
        do(ref, "assign_material", [labs, mp2])
        for m, a in (("assign_material", [labs, mp2]), ("assign_geometry", [labs, gp]), ("assign_etype", [labs, S("aet", "int")]), ("assign_mtype", [labs, S("amt2", "int")])):
            do(ref2, m, a)
    do(ref, DEL[name], [S("new.label1", "int")])
    fixed = W.method(prog, cls, {"NodeHandler": "fix_nodes"}.get(name, "add_nodes")) if name == "NodeHandler" else None
    if name == "NodeHandler":
        do(ref, "fix_nodes", [])
        do(ref2, "fix_nodes", [])
    elif name in ("BoundaryHandler", "ExternalForceHandler"):
        nodes = u.array("the node list given", (W.nn,), "int")
        do(ref, {"BoundaryHandler": "fix_bounds_U", "ExternalForceHandler": "fix_forces"}[name], [nodes])
    stores(R, prog, I, st, I.events[n0:], "%s: records%s" % (name, tag), cls, u.locs)
    both = reach(I, st, ref) & reach(I, st, ref2)
    if both:
        b = sorted(both, key=str)[0]
        # sharing immutable data is harmless: only containers that a handler changes in place matter
        hot = {e.data.get("loc") for e in I.events[n0:] if e.kind == "store"}
        if both & hot:
            b = sorted(both & hot, key=str)[0]
            R.bad("two %ss given the same records stay independent%s" % (name, tag), cls, "both keep %s" % path_to(I, st, ref.a[0], b))
        else:
            R.und("two %ss given the same records stay independent%s" % (name, tag), cls, "both keep %s" % path_to(I, st, ref.a[0], b))
    else:
        R.held("two %ss given the same records stay independent%s" % (name, tag), cls, "disjoint reachable locations")
    if st.pc == 0:
        R.und("%s: records%s: returns" % (name, tag), cls, "never returns in the analysis")


@check("C21", "effect analysis: every store reached by model creation, handler operations, build, run, evaluations, path following, Newton iteration, material and element functions, plots and getters "
              "is classified by the location it hits (own instance / shared module, class or default value / caller's object); heap reachability of two models and two handlers")
def c21(R):
    prog = R.prog
    # two models
    I = im.Interp(prog)
    R.interps.append(I)
    st = im.State()
    A = W.new_model(I, st)
    B = W.new_model(I, st)
    both = reach(I, st, A) & reach(I, st, B)
    cls = W.public(prog, "trusspy.Model")
    init = W.method(prog, cls, "__init__")
    R.fact("two new models share nothing", not both, init, "shared: %s" % [path_to(I, st, A.a[0], b) for b in sorted(both, key=str)][:3])
    stores(R, prog, I, st, I.events, "Model()", init)
    # both built and run
    W.populate(I, st, A, steps=1)
    W.populate(I, st, B, steps=1)
    I.contracts.update(W.fix_contracts(I, 1))
    b = W.method(prog, cls, "build")
    for X in (A, B):
        v, st = I.run(b, {b.args.args[0].arg: X}, st)
    st.pc = 1
    both = reach(I, st, A) & reach(I, st, B)
    R.fact("two built models share nothing", not both, b, "shared: %s" % [path_to(I, st, A.a[0], x) for x in sorted(both, key=str)][:3])
    for name in ("NodeHandler", "ElementHandler", "BoundaryHandler", "ExternalForceHandler"):
        for kind in ("list", "array"):
            handler_history(R, prog, name, kind)
    # life of a model
    for steps, counts in ((1, (2,)), (2, (2, 1))):
        d = Done(R, steps, counts)
        stores(R, prog, d.I, d.st, d.I.events, "build and run, %d step%s" % (steps, "s" if steps > 1 else ""), W.method(prog, cls, "run"))
    m = Mid(R)
    M = m.w.M
    for what, go in (("residual evaluation", lambda: m.evaluate()), ("residual evaluation with commit", lambda: m.evaluate(commit=TRUE)), ("stiffness evaluation", lambda: m.stiffness())):
        o = go()
        caller = {}
        for r in getattr(o, "args", ()):
            for l in reach(m.I, o.st, r):
                caller[l] = "the displacement vector given"
        stores(R, prog, m.I, o.st, o.events, what, m.gfn, caller)
    laws(R, prog)
    from .solver import SCEN, Impl, sname

    for scen in SCEN[:1] if R.tier == "quick" else SCEN:
        P = Impl(R, scen)
        R.interps.append(P.I)
        caller = {l: "the start vector" for l in reach(P.I, P.st, P.x)}
        stores(R, prog, P.I, P.st, P.I.events, "path following [%s]" % sname(scen), P.f, caller)
    newton(R, prog)
    # plots and getters
    d = Done(R, 1, (2,))
    for label, meth, kw in plots(d, R.tier):
        pre = d.st.copy()
        known = set(index_keys(pre))
        k = args_of(kw, pre)
        caller = {}
        for a, v in k.items():
            for l in reach(d.I, pre, v):
                if l not in known:
                    caller[l] = "the argument %s" % a
        c = d.do(meth, [], k, st=pre)
        stores(R, prog, d.I, c.st, c.events, label, c.f, caller)


def laws(R, prog):
    for nm in ("umat_el", "umat_elplast_iso"):
        f = W.public(prog, "trusspy.materials." + nm)
        I = im.Interp(prog)
        R.interps.append(I)
        st = im.State()
        s = [mk("sym", "law.%d" % k, "float") for k in range(7)]
        mp = I.new_array(st, mk("npa", mk("tuple", *s[:3]), "dyn"))
        sv = I.new_array(st, mk("npa", mk("tuple", s[3], s[4]), "dyn"))
        caller = {mp.a[0]: "the material parameters"}
        v, st = I.run(f, dict(zip([a.arg for a in f.args.args], [s[5], s[6], mp, sv])), st)
        stores(R, prog, I, st, I.events, nm, f, caller)


def newton(R, prog):
    from . import newton as nw

    r = nw.Run(R)
    R.interps.append(r.I)
    stores(R, prog, r.I, r.st, r.I.events, "Newton iteration", r.f, {l: "the start vector" for l in reach(r.I, r.st, r.x)})
