"""C13 (load history over the steps) and C14 (list of results)."""
from .. import arrays as ar
from .. import interp as im
from .. import lib
from .. import terms as tm
from .. import world as W
from ..report import index
from ..terms import FALSE, NONE, ONE, TRUE, ZERO, add, band, bnot, cmp_bdd, const, ite, mk, mul
from . import check
from .common import Mid
from .follow import value
from .solver import SCEN, Impl, sname


# ------------------------------------------------------------------ sharing
def fields_of(st):
    """location -> keys of what is stored there"""
    keys = {}
    for k in st.s:
        if len(k) >= 2 and not (len(k) == 2 and k[1] not in ("a", "l", "d", "k")):
            keys.setdefault(k[0], []).append(k)
    return keys


def reach(I, st, v, stop=(), keys=None):
    """locations of mutable objects reachable from a value"""
    keys = fields_of(st) if keys is None else keys
    new = set()
    lib.reach_refs(v, new)
    out = set()
    work = [l for l in new if l not in stop]
    while work:
        l = work.pop()
        if l in out:
            continue
        out.add(l)
        new = set()
        for k in keys.get(l, ()):
            t = st.s[k]
            if isinstance(t, tm.T):
                lib.reach_refs(t, new)
        work += [o for o in new if o not in out and o not in stop]
    return out


def path_to(I, st, root, loc):
    """attribute path from an object to a location (for messages)"""
    seen = {root}
    work = [(root, "")]
    while work:
        l, p = work.pop(0)
        if l == loc:
            return p.lstrip(".") or "the object itself"
        for k, t in st.s.items():
            if len(k) == 3 and k[0] == l and k[1] == "." and isinstance(t, tm.T):
                new = set()
                lib.reach_refs(t, new)
                for o in new:
                    if o not in seen:
                        seen.add(o)
                        work.append((o, p + "." + k[2]))
    return str(loc)[:60]


def counters(loc):
    """loop counters in a location"""
    out = set()

    def go(x):
        if isinstance(x, tm.T):
            for y in tm.walk(x):
                if y.op in ("ctr", "bv", "gi", "last"):
                    out.add(y)
        elif isinstance(x, tuple):
            for y in x:
                go(y)

    go(loc)
    return out


# ------------------------------------------------------------------ C13
def scenarios(rep):
    s = [(1, (1,)), (1, (0,)), (2, (2, 1)), (2, (0, 1)), (2, (1, 0)), (3, (1, 2, 1)), (3, (1, 0, 2)), (4, (1, 1, 1, 1))]
    if rep.tier != "quick":
        s += [(3, (0, 0, 1)), (4, (2, 0, 1, 3)), (5, (1, 1, 1, 1, 1)), (6, (1, 2, 3, 2, 1, 1))]
    return s


def fs(steps):
    return ar.asym("F", (W.nn, const(3 * steps)))


@check("C13", "value graph of Model.run: load terms, start vector and start LPF at every path-following call, for step sequences with any recorded solutions; effect of path following on the live analysis")
def c13(rep):
    for steps, counts in scenarios(rep):
        loads(rep, steps, counts)
    entries(rep)
    carry(rep)


def calls(rep, w):
    return [e for e in w.run_events if e.kind == "pathfollow"]


def loads(rep, steps, counts):
    w = W.built(rep.prog, steps=steps)
    W.generalise(w)
    W.run_model(w, counts)
    I = w.I
    rep.interps.append(I)
    r = W.method(rep.prog, w.cls, "run")
    evs = calls(rep, w)
    tag = " [%d step%s, %s recorded]" % (steps, "s" if steps > 1 else "", "+".join(map(str, counts)))
    got = [e.data["index"] for e in evs]
    unrolled = sorted(set(got)) == [0] and len(got) == 1 and steps > 1
    if unrolled or len(evs) != steps:
        # one symbolic call site or none
        rep.und("loads: one path-following call per step" + tag, r, "%d calls understood" % len(evs))
        return
    F = fs(steps)
    L = [mk("app", "pf.lpf", "float", const(q), const(counts[q])) if counts[q] else ZERO for q in range(steps)]
    done = {}
    for s, e in enumerate(evs):
        st, a, nd = e.data["state"], e.data["args"], e.node
        names = [x.arg for x in W.public(rep.prog, "trusspy.solvers.pathfollow").args.args]
        A, x = a[names[3]], a[names[2]]
        E = W.fld(I, st, A, "ExtForces")
        t = ", step %d%s" % (s + 1, tag)
        for name, want in (("forces_const", lambda i, c: add(*[mul(L[q], ar.at(F, [i, add(const(3 * q), c)])) for q in range(s)]) if s else ZERO),
                           ("forces", lambda i, c: ar.at(F, [i, add(const(3 * s), c)]))):
            what = {"forces_const": "constant load: every earlier step's columns times the LPF reached in it", "forces": "load: columns of the step"}[name]
            for c in range(3):
                c_ = const(c)
                v = I.num(st, W.fld(I, st, E, name))
                i = index("i", W.nn)
                rep.equal("%s, direction %d%s" % (what, c, t), ar.at(v, [i, c_]), want(i, c_), idx=(i,), node=nd)
        f0 = I.num(st, W.fld(I, st, A, "f0red"))
        sh = ar.shape(f0)
        what = "load: free components of the step's load for the tangent"
        if sh is None or len(sh) not in (1, 2):
            rep.und(what + t, nd, tm.show(f0, 3)[:100])
        else:
            rep.equal(what + ", number" + t, sh[0], W.n1, node=nd)
            k, i = index("k", W.n1), index("i", W.nn)
            for c in range(3):
                with ar.assuming({(W.DOF1, k): add(mul(const(3), i), const(c))}):
                    v = ar.at(f0, [k] + [ZERO] * (len(sh) - 1))
                rep.equal(what + ", direction %d" % c + t, v, ar.at(F, [i, const(3 * s + c)]), idx=(i,), node=nd)
        rep.equal("start: LPF zero" + t, I.num(st, W.fld(I, st, A, "lpf")), ZERO, node=nd)
        prev = max([q for q in range(s) if counts[q]], default=None)
        xv = I.num(st, x)
        i = index("i", W.n1)
        if prev is None:
            want = ar.at(ar.asym("Ured", (W.n1,)), [i])
        else:
            want = ar.at(mk("app", "pfend.Ured", "arr", (W.n1,), const(prev), const(counts[prev])), [i])
        if s - 1 != prev and s > 0:
            # a step that records nothing leaves the displacements alone
            want = final(counts, s, i)
        rep.equal("start: displacements accepted last" + t, ar.at(xv, [i]), want, idx=(i,), node=nd)


def final(counts, s, i):
    for q in reversed(range(s)):
        if counts[q]:
            return ar.at(mk("app", "pfend.Ured", "arr", (W.n1,), const(q), const(counts[q])), [i])
    return ar.at(ar.asym("Ured", (W.n1,)), [i])


def entries(rep):
    """increments and limit per step"""
    n = 3
    a = [mk("sym", "user.incs%d" % q, "int") for q in range(n)]
    b = [mk("sym", "user.xc%d" % q, "int") for q in range(n)]
    v = [mk("sym", "user.xv%d" % q, "float") for q in range(n)]
    t = [mk("tuple", x, y) for x, y in zip(b, v)]
    for tag, over, incs, xl in (("one entry for all steps", {"incs": a[0], "xlimit": t[0]}, [a[0]] * n, [t[0]] * n),
                                ("an entry per step", {"incs": mk("tuple", *a), "xlimit": mk("tuple", *t)}, a, t),
                                ("increments per step", {"incs": mk("tuple", *a), "xlimit": t[0]}, a, [t[0]] * n),
                                ("limit per step", {"incs": a[0], "xlimit": mk("tuple", *t)}, [a[0]] * n, t)):
        w = W.built(rep.prog, steps=n, over=over)
        W.generalise(w)
        W.run_model(w, (1,) * n)
        I = w.I
        evs = calls(rep, w)
        if len(evs) != n:
            rep.und("entries: one path-following call per step (%s)" % tag, W.method(rep.prog, w.cls, "run"), "%d calls" % len(evs))
            continue
        for s, e in enumerate(evs):
            for p, want in (("incs", incs[s]), ("xlimit", xl[s])):
                g = e.data["args"].get(p)
                if g is None:
                    rep.bad("entries: %s of step %d (%s)" % (p, s + 1, tag), e.node, "not passed on")
                    continue
                rep.equal("entries: %s of step %d (%s)" % (p, s + 1, tag), value(I, e.data["state"], g), want, node=e.node)


def carry(rep):
    """after path following the live analysis holds the displacements recorded last"""
    for scen in SCEN[:2] if rep.tier == "quick" else SCEN:
        P = Impl(rep, scen)
        I = P.I
        rep.interps.append(I)
        t = " [%s]" % sname(scen)
        if len(P.record) != 1:
            rep.und("carry: the recorded solutions" + t, P.f, "%d places" % len(P.record))
            continue
        e = P.record[0]
        live = P.A.a[0]
        rec = e.data.get("val")
        if rec is None or rec.op != "ref":
            rep.und("carry: recorded object" + t, e.node)
            continue
        st = e.data["state"]
        i = index("i", mk("dim", "nx"))
        at = lambda o: ar.at(I.num(st, W.fld(I, st, o, "Ured")), [i])
        # right after recording: live displacements equal the recorded ones, or follow in the same iteration
        stores = [x for x in I.events if x.kind == "store" and x.data.get("loc") == live and x.data.get("field") == "Ured" and x.loops]
        wrong = [x for x in stores if x.pc != e.pc or [q[0] for q in x.loops] != [q[0] for q in e.loops]]
        for x in wrong:
            if band(x.pc, bnot(e.pc)) == 0 and x.loops == e.loops:
                continue
            rep.und("carry: displacements are stored when a solution is recorded, not otherwise" + t, x.node, "stored if " + tm.bshow(x.pc)[:200])
        if not stores:
            rep.bad("carry: displacements recorded last stay in the analysis" + t, e.node, "path following never stores the displacements: the next step starts from the ones before")
            continue
        rep.held("carry: displacements are stored when a solution is recorded, not otherwise" + t, e.node, "gate of the store is the gate of the record")
        rep.equal("carry: displacements recorded last stay in the analysis" + t, at(P.A), at(rec), band(e.pc, 1), idx=(i,), node=e.node, free=("mu", "ctr", "last"))
        # nothing writes into the array afterwards
        ua = W.fld(I, st, P.A, "Ured")
        for l in W.array_loc(I, st, ua):
            for x in I.events[I.events.index(e):]:
                if x.kind == "store" and x.data.get("loc") == l:
                    rep.und("carry: displacements recorded last stay in the analysis" + t, x.node, "overwritten in place later")


# ------------------------------------------------------------------ C14
@check("C14", "heap shape of the results: value graph of the list after a run for step sequences with any recorded solutions; reachability over the abstract heap (no shared location); allocation of snapshots inside the path-following loop")
def c14(rep):
    for steps, counts in scenarios(rep):
        listing(rep, steps, counts)
    recorded(rep)
    frozen(rep)


def fields(I, st, o):
    out = {}
    for k, t in st.s.items():
        if len(k) == 3 and k[0] == o.a[0] and k[1] == ".":
            out[k[2]] = t
    return out


def listing(rep, steps, counts):
    w = W.built(rep.prog, steps=steps)
    I = w.I
    rep.interps.append(I)
    run = W.method(rep.prog, w.cls, "run")
    bld = W.method(rep.prog, w.cls, "build")
    tag = " [%d step%s, %s recorded]" % (steps, "s" if steps > 1 else "", "+".join(map(str, counts)))
    W.generalise(w)
    W.run_model(w, counts)
    st = w.post
    L = W.fld(I, st, W.fld(I, st, w.M, "Results"), "R")
    it = I.iter_known(L, st)
    if it is None or any(x.op != "ref" for x in it):
        rep.und("list: known entries" + tag, run, tm.show(L, 3)[:200])
        return
    total = 1 + sum(counts)
    rep.fact("list: undeformed state and every recorded increment, once each" + tag, len(it) == total, run, "%d entries instead of %d" % (len(it), total))
    if len(it) != total:
        return
    # first entry: undeformed, no load
    z = it[0]
    for name, (kd, shp) in W.ANALYSIS.items():
        if name in ("U", "U0", "r", "element_force", "element_stress", "Ured"):
            v = I.num(st, W.fld(I, st, z, name))
            s = ar.shape(v)
            if s is None:
                rep.und("first entry: %s is zero%s" % (name, tag), bld, tm.show(v, 3)[:100])
                continue
            ix = [index("i%d" % k, d) for k, d in enumerate(s)]
            rep.equal("first entry: %s is zero%s" % (name, tag), ar.at(v, ix), ZERO, idx=tuple(ix), node=bld)
    rep.equal("first entry: LPF is zero" + tag, I.num(st, W.fld(I, st, z, "lpf")), ZERO, node=bld)
    # the records in order
    order = [(s, k) for s in range(steps) for k in range(1, counts[s] + 1)]
    F = fs(steps)
    for (s, k), o in zip(order, it[1:]):
        t = "step %d increment %d%s" % (s + 1, k, tag)
        for name, (kd, shp) in list(W.ANALYSIS.items()) + [("lpf", (None, None)), ("Vred", ("arr", None))]:
            v = I.get_field(st, o.a[0], name)
            if v is None or v is tm.UNBOUND or I._gate_none(v) == 1:
                continue
            if name == "Vred":
                want = mk("app", "pf.Vred", "arr", (add(W.n1, ONE),), const(s), const(k))
            elif name == "lpf":
                want = mk("app", "pf.lpf", "float", const(s), const(k))
            else:
                want = mk("app", "pf." + name, "arr", shp, const(s), const(k))
            got = I.num(st, v)
            if name == "U0" and got is not want:
                # displacements at the begin of the increment may be those of the increment before
                continue
            if name == "state_v" and got.op == "ite":
                got = tm.restrict(got, bnot(I._gate_none(v))) if I._gate_none(v) else got
            if name == "lpf":
                rep.equal("record: lpf of " + t, got, want, node=run)
                continue
            sh = ar.shape(want)
            ix = [index("i%d" % q, d) for q, d in enumerate(sh)]
            try:
                g = ar.at(got, ix)
            except Exception:
                rep.und("record: %s of %s" % (name, t), run, tm.show(got, 3)[:100])
                continue
            g2 = ar.at(want, ix)
            if g is not g2 and g.op == "ite":
                gate = I._gate_none(v)
                g = tm.restrict(g, bnot(gate)) if isinstance(gate, int) and gate not in (0, 1) else g
            rep.equal("record: %s of %s" % (name, t), g, g2, idx=tuple(ix), node=run)
        E = I.get_field(st, o.a[0], "ExtForces")
        if E is not None and E.op == "ref":
            v = I.num(st, W.fld(I, st, E, "forces"))
            i, c = index("i", W.nn), index("c", 3)
            rep.equal("record: load columns of " + t, ar.at(v, [i, c]), ar.at(F, [i, add(const(3 * s), c)]), idx=(i, c), node=run)
    # sharing
    R = [reach(I, st, o) for o in it]
    lists = reach(I, st, W.fld(I, st, w.M, "Results"))
    rl = set()
    lib.reach_refs(L, rl)
    rest = reach(I, st, w.M, stop=rl) - {w.M.a[0]}
    bad = False
    names = ["undeformed state"] + ["step %d increment %d" % (s + 1, k) for s, k in order]
    for p in range(len(it)):
        for q in range(p):
            both = R[p] & R[q]
            if both:
                bad = True
                l = sorted(both, key=str)[0]
                rep.bad("snapshots: no two entries share data" + tag, run, "%s of %s is also %s of %s" % (path_to(I, st, it[p].a[0], l), names[p], path_to(I, st, it[q].a[0], l), names[q]))
        both = R[p] & rest
        if both:
            bad = True
            l = sorted(both, key=str)[0]
            rep.bad("snapshots: no entry shares data with the live model" + tag, run, "%s of %s is also Model.%s" % (path_to(I, st, it[p].a[0], l), names[p], path_to(I, st, w.M.a[0], l)))
    if not bad:
        rep.held("snapshots: no two entries share data" + tag, run, "disjoint reachable locations (%s)" % "+".join(str(len(x)) for x in R))
        rep.held("snapshots: no entry shares data with the live model" + tag, run, "disjoint reachable locations")


def listleaves(v):
    """possible list contents behind gates"""
    if v.op == "ite":
        return listleaves(v.a[1]) + listleaves(v.a[2])
    return [v]


def items(I, st, v):
    """(index variable or None, element) of a list content"""
    out = []
    for x in v.a:
        if x.op == "e":
            out.append((None, x.a[0]))
        elif x.op == "seg":
            for y in x.a[2]:
                if y.op != "e":
                    return None
                out.append((x.a[0], y.a[0]))
        else:
            return None
    return out


def recorded(rep):
    """snapshots made inside path following"""
    for scen in SCEN[:2] if rep.tier == "quick" else SCEN:
        P = Impl(rep, scen)
        I, st = P.I, P.st
        rep.interps.append(I)
        t = " [%s]" % sname(scen)
        live = reach(I, st, P.A) | reach(I, st, P.x)
        for l, v in list(P.args.items()):
            if isinstance(v, tm.T):
                live |= reach(I, st, v)
        if P.resa is None:
            rep.und("path following: result lists" + t, P.f)
            continue
        lists = []
        refs = [P.resa] if P.resa.op == "ref" else [x for x in listleaves(P.resa)]
        for x in refs:
            c = x
            if x.op == "ref":
                c = st.s.get((x.a[0], "l"))
            if c is None:
                lists.append(None)
            else:
                lists += listleaves(c)
        its = []
        for c in lists:
            its.append(items(I, st, c) if c is not None and c.op == "list" else None)
        if not its or any(x is None for x in its):
            rep.und("path following: structure of the result list" + t, P.f, tm.show(P.resa, 4)[:200])
            continue
        seen = set()
        ok = True
        groups = {}
        for it in its:
            if not it or it[0][0] is not None:
                rep.bad("path following: the list starts with the state at the begin of the step" + t, P.f, "no start entry") if it is not None and not it else rep.und("path following: the list starts with the state at the begin of the step" + t, P.f)
                ok = False
                continue
            for k, (v, o) in enumerate(it):
                if o.op != "ref":
                    rep.und("path following: recorded objects" + t, P.f, tm.show(o, 3)[:100])
                    ok = False
                    continue
                groups.setdefault(o.a[0], (v, o))
            if len(it) != 1 and [v is None for v, o in it].count(True) != 1 or len(it) > 2:
                rep.und("path following: one entry per recorded increment" + t, P.f, "%d parts" % len(it))
                ok = False
        if not ok:
            continue
        rs = {}
        for l, (v, o) in groups.items():
            lv, s_ = live, st
            if v is not None:
                rec = [e for e in P.record if e.data.get("val") is not None and e.data["val"].op == "ref" and same_site(l, e.data["val"].a[0], v)]
                if len(rec) != 1:
                    rep.und("path following: recorded objects" + t, P.f, "%d places" % len(rec))
                    continue
                s_, o = rec[0].data["state"], rec[0].data["val"]
                v = rec[0].loops[-1][1]
                lv = live | reach(I, s_, P.A)
            R = reach(I, s_, o)
            rs[l] = R
            both = R & lv
            nd = P.record[0].node if v is not None and P.record else P.f
            if both:
                b = sorted(both, key=str)[0]
                rep.bad("path following: recorded state shares nothing with the live analysis" + t, nd, "%s of the entry is %s of the live analysis" % (path_to(I, st, l, b), path_to(I, st, P.A.a[0], b)))
                ok = False
            if v is not None:
                loose = [x for x in R if v not in counters(x)]
                if loose:
                    b = sorted(loose, key=str)[0]
                    rep.bad("path following: every increment gets a snapshot of its own" + t, nd, "%s is the same object for every increment" % path_to(I, st, l, b))
                    ok = False
        ls = list(rs)
        for p in range(len(ls)):
            for q in range(p):
                if rs[ls[p]] & rs[ls[q]]:
                    rep.bad("path following: start entry and increments share nothing" + t, P.f, str(sorted(rs[ls[p]] & rs[ls[q]], key=str)[0])[:100])
                    ok = False
        if ok:
            rep.held("path following: recorded state shares nothing with the live analysis" + t, P.f, "disjoint reachable locations")
            rep.held("path following: every increment gets a snapshot of its own" + t, P.f, "every reachable location carries the increment's number")
            rep.held("path following: start entry and increments share nothing" + t, P.f)
        # nothing is written to an entry of an earlier increment
        for e in I.events:
            if e.kind != "store" or not isinstance(e.data.get("loc"), (tuple, int)):
                continue
            l = e.data["loc"]
            for g, R in rs.items():
                v = groups[g][0]
                for x in R:
                    if same_site(x, l, v):
                        cs = counters(l)
                        cur = {q[1] for q in e.loops}
                        if v is None and e.loops or v is not None and not (cs & cur):
                            rep.bad("path following: entries are left alone after recording" + t, e.node, "stores %s of an earlier entry" % e.data.get("field"))
        rep.held("path following: entries are left alone after recording" + t, P.f)
        # one row of x per entry
        try:
            n1 = I.length(st, P.resa) if hasattr(I, "length") else None
        except Exception:
            n1 = None


def same_site(x, l, v):
    """location l may be the location x of an entry (v: its index variable)"""
    if v is None or x == l:
        return x == l
    if not isinstance(l, tuple) or not isinstance(x, tuple):
        return False

    def strip(y):
        if isinstance(y, tm.T):
            return "ctr" if y.op in ("ctr", "bv", "gi", "last", "poly", "const") else (y.op,) + tuple(strip(z) for z in y.a)
        if isinstance(y, tuple):
            return tuple(strip(z) for z in y)
        return y

    return strip(x) == strip(l)


def frozen(rep):
    """evaluations never write into an entry of the results"""
    m = Mid(rep)
    I = m.I
    st = m.st
    Rs = W.fld(I, st, m.w.M, "Results")
    locs = reach(I, st, Rs)
    shared = locs & reach(I, st, m.A)
    for what, run in (("residual evaluation", lambda: m.evaluate(commit=TRUE)), ("stiffness evaluation", lambda: m.stiffness())):
        o = run()
        bad = [e for e in o.events if e.kind == "store" and e.data.get("loc") in locs]
        for e in bad:
            rep.bad("later computations: %s leaves the results alone" % what, e.node, "stores %s" % e.data.get("field"))
        if not bad:
            rep.held("later computations: %s leaves the results alone" % what, m.gfn, "no store into %d locations" % len(locs))
