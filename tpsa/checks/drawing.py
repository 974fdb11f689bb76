"""C25, C26, C30: what plots draw, read off the calls that reach the plotting library.

The public plot operations are analysed on a model that was built and run
(path following by its contract).  Every call that leaves the program is an
event with the symbolic values of its arguments, its path condition and the
loops around it.  Calls that draw are turned into marks (points, lines, arrows,
as families over a loop counter) and compared with the reference drawing.
"""
from .. import arrays as ar
from .. import interp as im
from .. import terms as tm
from .. import world as W
from ..report import index
from ..terms import FALSE, NONE, ONE, TRUE, ZERO, T, add, band, bnot, bor, cmp_bdd, const, ite, mk, mul, neg, sub
from . import check
from .catalog import CONTOURS, DIRS, S, VIEWS, Done, args_of, plots, statev

AX = {"xy": (0, 1), "xz": (0, 2), "yz": (1, 2), "3d": (0, 1, 2)}
SILENT = ("text", "text2D", "set_title", "title", "legend", "colorbar", "suptitle")
# drawing calls whose geometry is not understood
OTHER = ("quiver", "annotate", "add_collection", "add_collection3d", "add_patch", "add_line", "fill", "fill_between", "vlines", "hlines", "broken_barh", "bar",
         "plot_wireframe", "plot_trisurf", "imshow", "stem", "step", "errorbar", "semilogx", "semilogy", "loglog", "Arrow", "arrow3D", "triplot", "add_artist")


def sub_bdd(b, m):
    return b if isinstance(b, int) and b < 2 else tm.asbdd_or(tm.subst(tm.mkbool(b), m))


class Mark:
    """a family of points, lines or arrows: one per value of the loop counter (or a single one)"""

    def __init__(self, e, kind, xs, extra=None):
        self.e, self.kind, self.xs, self.node, self.pc = e, kind, xs, e.node, e.pc
        self.loop = None
        ls = [(l, k, n) for (l, k), n in zip(e.loops, e.counts) if k is not ZERO and isinstance(k, T)]
        self.loops = ls
        if len(ls) == 1:
            self.loop = (ls[0][1], ls[0][2])
        self.extra = extra or {}

    def over(self, name, n):
        """the same family over an index of the reference; None when it runs over something else"""
        if self.loop is None or self.loop[1] is None:
            return None
        k, N = self.loop
        i = index(name, n)
        m = {k: i}
        r = Mark.__new__(Mark)
        r.__dict__.update(self.__dict__)
        r.xs = [tm.subst(x, m) for x in self.xs]
        r.pc = sub_bdd(self.pc, m)
        r.extra = {a: tm.subst(v, m) if isinstance(v, T) else v for a, v in self.extra.items()}
        r.N = N
        return i, r


def model_data(t):
    """does the value depend on the model (and not only on the current view of the axes)?"""
    for x in tm.walk(t):
        if x.op == "asym" or (x.op == "app" and str(x.a[0]).startswith("pf")) or x.op in ("ctr", "gi"):
            return True
    return False


def strval(x):
    return tm.cval(x) if x is not None and x.op == "const" and isinstance(tm.cval(x), str) else None


def numeric(x):
    if x.op in ("npa", "get", "asym", "app", "lam", "lamarr", "list", "el", "item", "add", "mul", "poly", "ite", "iterv", "range") or ar.shape(x) is not None:
        return x.op != "strv"
    return tm.kind(x) in ("int", "float", "num", "any")


def is_zero_const(x):
    return x is ZERO or (x.op == "const" and not isinstance(tm.cval(x), (str, bool)) and tm.const_poly(x) == 0)


def parts(x):
    """values of a short sequence"""
    if x.op == "tuple":
        return list(x.a)
    if x.op == "npa" and x.a[0].op == "tuple":
        return list(x.a[0].a)
    s = ar.shape(x)
    if s is not None and len(s) == 1:
        d = ar.dimval(s[0])
        if d is not None and d <= 4:
            return [ar.at(x, [const(i)]) for i in range(d)]
    return None


def marks(events):
    """drawing calls -> (marks, calls that draw something not understood)"""
    out, odd = [], []
    for e in events:
        if e.kind == "unkcall":
            odd.append((e, "call of an unknown object"))
            continue
        if e.kind != "extcall":
            continue
        name = e.data["name"].split(".")[-1]
        vals, kw = e.data.get("vals") or [], e.data.get("kwvals") or {}
        if name in ("scatter", "plot", "plot3D", "scatter3D"):
            xs = []
            for v in vals:
                if strval(v) is not None or v.op == "strv" or tm.kind(v) == "str" or not numeric(v):
                    break
                xs.append(v)
            fmt = strval(vals[len(xs)]) if len(vals) > len(xs) else ""
            if any(v.op == "star" for v in vals) or len(xs) < 2:
                odd.append((e, "coordinates not understood"))
                continue
            a = kw.get("alpha")
            if a is not None and is_zero_const(a):
                continue
            if not any(model_data(x) for x in xs):
                continue
            m = strval(kw.get("marker")) if "marker" in kw else None
            ls = strval(kw.get("linestyle") or kw.get("ls") or const("-"))
            pts = name.startswith("scatter") or (fmt and "-" not in fmt and ":" not in fmt) or (m not in (None, "None", "") and ls in ("", "None", " "))
            col = kw.get("color", kw.get("c"))
            out.append(Mark(e, "points" if pts else "line", xs, {"color": col, "size": kw.get("s", kw.get("ms", kw.get("markersize")))}))
        elif name == "arrow":
            if len(vals) < 4:
                odd.append((e, "arrow arguments not understood"))
                continue
            out.append(Mark(e, "arrow", list(vals[:4]), {"color": kw.get("color")}))
        elif name == "add_artist" and vals and vals[0].op == "instv":
            f = {tm.cval(p.a[0]): p.a[1] for p in vals[0].a[1:]}
            v = f.get("_verts3d")
            if v is None:
                odd.append((e, "artist of unknown extent"))
                continue
            if not model_data(v):
                continue
            c = [v.a[i] for i in range(len(v.a))] if v.op == "tuple" else ([ar.at(v, [const(i)]) for i in range(3)] if ar.shape(v) else None)
            if v.op == "npa" and v.a[0].op == "tuple":
                c = list(v.a[0].a)
            ps = [parts(x) for x in c] if c else [None]
            if len(ps) != 3 or any(p is None or len(p) != 2 for p in ps):
                odd.append((e, "artist of unknown extent"))
                continue
            out.append(Mark(e, "arrow", [p[0] for p in ps] + [sub(p[1], p[0]) for p in ps], {}))
        elif name in OTHER:
            if any(model_data(v) for v in vals) or any(model_data(v) for v in kw.values()) or not vals:
                odd.append((e, "drawing call %s not understood" % name))
    return out, odd


class Shot:
    """reference drawing of one increment, from the state before the call"""

    def __init__(self, d, st, inc, scale=ONE):
        self.d, self.st = d, st
        I = self.I = d.I
        n = lambda *p: I.num(st, W.fld(I, st, *p))
        R = W.fld(I, st, W.fld(I, st, d.M, "Results"), "R")
        rs = I.iter_known(R, st)
        self.count = len(rs)
        self.inc = inc if inc >= 0 else len(rs) + inc
        self.r = rs[self.inc]
        self.r = self.I.iter_known(R, st)[self.inc]
        f = lambda name: I.num(st, W.fld(I, st, self.r, name))
        self.U = f("U")
        self.lpf = ONE if self.inc == 0 else f("lpf")
        self.step = f("step")
        E = W.fld(I, st, self.r, "ExtForces")
        self.f0 = I.num(st, W.fld(I, st, E, "forces_const"))
        self.F = I.num(st, W.fld(I, st, W.fld(I, st, d.M, "ExtForces"), "forces"))
        self.labels = I.num(st, W.fld(I, st, W.fld(I, st, d.M, "Nodes"), "labels"))
        self.coords = I.num(st, W.fld(I, st, W.fld(I, st, d.M, "Nodes"), "coords"))
        self.conns = I.num(st, W.fld(I, st, W.fld(I, st, d.M, "Elements"), "conns"))
        self.scale = scale
        self.data = {"stretch": f("stretch"), "force": f("element_force"), "stress": f("element_stress")}

    def P(self, i, c):
        c = const(c)
        return add(ar.at(self.coords, [i, c]), ar.at(self.U, [i, c]))

    def f(self, i, c):
        col = add(mul(const(3), sub(self.step, ONE)), const(c))
        f0 = ar.at(self.f0, [i, const(c)]) if ar.shape(self.f0) else self.f0
        return add(f0, mul(self.lpf, ar.at(self.F, [i, col])))

    def end(self, k, e):
        return ar.pos(self.labels, ar.at(self.conns, [k, const(e)]))


def nodes(R, what, ms, odd, shot, axes, f):
    """every node drawn at its place, in the plane of the view"""
    pts = [m for m in ms if m.kind == "points"]
    if not pts:
        if odd:
            R.und(what, f, odd[0][1])
        else:
            R.bad(what, f, "no nodes are drawn")
        return
    cover = 0
    for m in pts:
        if len(m.xs) != len(axes):
            R.bad(what, m.node, "%d coordinates instead of %d" % (len(m.xs), len(axes)))
            return
        o = m.over("node", W.nn) if m.loops else None
        if m.loops and (o is None or o[1].N is not W.nn):
            R.und(what, m.node, "drawn in a loop that is not understood")
            return
        for x, c in zip(m.xs, axes):
            t = "%s, coordinate %s" % (what, "xyz"[c])
            if o is None:
                R.arr(t, x, (W.nn,), lambda i, c=c: shot.P(i, c), pc=m.pc, node=m.node)
            else:
                i, q = o
                x = q.xs[list(axes).index(c)]
                p = parts(x)
                R.equal(t, p[0] if p and len(p) == 1 else x, shot.P(i, c), pc=q.pc, node=m.node, idx=(i,))
        cover = bor(cover, m.pc if o is None else o[1].pc)
    R.cond("%s: all of them" % what, cover, 1, node=pts[0].node)


def elements(R, what, ms, odd, shot, axes, f, contour=None):
    ls = [m for m in ms if m.kind == "line"]
    if not ls:
        if odd:
            R.und(what, f, odd[0][1])
        else:
            R.bad(what, f, "no elements are drawn")
        return
    cover = 0
    for m in ls:
        o = m.over("elem", W.ne)
        if o is None:
            R.und(what, m.node, "lines that are not drawn element by element")
            return
        k, q = o
        r = R.same_value(q.N, W.ne) if q.N is not W.ne else (True, "")
        if r[0] is not True:
            (R.bad if r[0] is False else R.und)(what, m.node, "drawn for %s elements" % tm.show(q.N, 3))
            return
        ps = [parts(x) for x in q.xs]
        if len(ps) != len(axes) or any(p is None or len(p) != 2 for p in ps):
            R.und(what, m.node, "end points not understood")
            return
        res = []
        for a, b in ((0, 1), (1, 0)):
            bad = None
            for p, c in zip(ps, axes):
                for x, e in ((p[0], a), (p[1], b)):
                    r = R.same_value(x, shot.P(shot.end(k, e), c), pc=q.pc, idx=(k,))
                    if r[0] is not True and (bad is None or r[0] is False):
                        bad = r
                        if r[0] is False:
                            bad = (False, "coordinate %s of an end: %s" % ("xyz"[c], r[1]))
                            break
                if bad is not None and bad[0] is False:
                    break
            res.append(bad)
            if bad is None:
                break
        if res[-1] is None:
            R.held("%s: a line between the drawn positions of its two end nodes" % what, m.node, "end points equal")
        elif all(b[0] is False for b in res):
            R.bad("%s: a line between the drawn positions of its two end nodes" % what, m.node, res[0][1])
        else:
            R.und("%s: a line between the drawn positions of its two end nodes" % what, m.node, [b for b in res if b[0] is None][0][1])
        cover = bor(cover, q.pc)
    k = index("elem", W.ne)
    R.cond("%s: every element" % what, cover, 1, node=ls[0].node, idx=(k,))


def forces(R, what, ms, odd, shot, axes, f):
    arr = [m for m in ms if m.kind == "arrow"]
    n = len(axes)
    fam = {c: [] for c in axes}
    if not arr:
        if odd:
            R.und(what, f, odd[0][1])
        else:
            R.bad(what, f, "no forces are drawn")
        return
    i = index("node", W.nn)
    for m in arr:
        o = m.over("node", W.nn)
        if o is None or o[1].N is not W.nn or len(m.xs) != 2 * n:
            R.und(what, m.node, "arrows that are not drawn node by node")
            return
        i, q = o
        dirs = [j for j in range(n) if not is_zero_const(q.xs[n + j])]
        if len(dirs) != 1:
            # several components in one arrow
            for j in dirs or [0]:
                oth = [x for jj, x in enumerate(q.xs[n:]) if jj != j]
            rs = [R.same_value(x, ZERO, pc=q.pc, idx=(i,)) for x in q.xs[n:]]
            nz = [r for r in rs if r[0] is not True]
            if not dirs:
                R.bad(what + ": along its own axis", m.node, "an arrow without extent")
            elif len(nz) > 1 and all(r[0] is False for r in nz):
                R.bad(what + ": along its own axis", m.node, "one arrow has components in several directions; " + nz[0][1])
            else:
                R.und(what + ": along its own axis", m.node, "an arrow with several components")
            return
        fam[axes[dirs[0]]].append((m, q, dirs[0]))
    for c in axes:
        t = "%s, component %s" % (what, "xyz"[c])
        if not fam[c]:
            if odd:
                R.und(t, f, odd[0][1])
            else:
                R.bad(t, f, "no arrow is drawn for this component")
            continue
        cover = 0
        for m, q, j in fam[c]:
            for jj, cc in enumerate(axes):
                R.equal(t + ": arrow starts at its node", q.xs[jj], shot.P(i, cc), pc=q.pc, idx=(i,), node=m.node)
            R.equal(t + ": length is the force times the force scale", q.xs[n + j], mul(shot.scale, shot.f(i, c)), pc=q.pc, idx=(i,), node=m.node)
            cover = bor(cover, q.pc)
        R.cond(t + ": drawn exactly when it is not zero", cover, bnot(cmp_bdd("==", shot.f(i, c), ZERO)), idx=(i,), node=fam[c][0][0].node)


def axis_labels(R, what, events, view, f):
    got = {}
    for e in events:
        if e.kind == "extcall" and e.data.get("vals"):
            nm = e.data["name"].split(".")[-1]
            if nm in ("xlabel", "ylabel", "zlabel", "set_xlabel", "set_ylabel", "set_zlabel"):
                got[nm[-6]] = (strval(e.data["vals"][0]), e.node)
    for a, c in zip("xyz", AX[view]):
        if a in got and got[a][0] is not None and got[a][0].strip().lower() in ("x", "y", "z"):
            R.fact("%s: name of the %s axis" % (what, {"x": "first", "y": "second", "z": "third"}[a]), got[a][0].strip().lower() == "xyz"[c], got[a][1], "%s instead of %s" % (got[a][0], "xyz"[c]))


def shoot(R, d, label, meth, kw, inc=-1, scale=ONE, view="xz"):
    pre = d.st.copy()
    a = args_of(kw, pre)
    c = d.do(meth, [], a, st=pre)
    ms, odd = marks(c.events)
    if c.st.pc == 0:
        R.und("%s: returns" % label, c.f, "the analysis finds no way to its end")
    if c.unmodelled:
        odd.append((None, "not understood: %s" % (c.unmodelled[0],)))
    return c, ms, odd, Shot(d, d.st, inc, scale)


@check("C25", "value graph of every plotting call: marks (points, lines, arrows) with symbolic coordinates, conditions and loops, compared with the reference drawing of the increment "
              "for an arbitrary model, label numbering and solution")
def c25(R):
    d = Done(R, 1, (2,))
    sc = S("user.force_scale")
    cases = [(v, con, {}) for v in VIEWS for con in (None, "force")]
    cases += [(v, None, {"force_scale": sc, "nodesize": S("user.nodesize"), "lim_scale": S("user.lim_scale")}) for v in VIEWS]
    if R.tier != "quick":
        cases += [(v, con, {"force_scale": sc, "inc": const(k)}) for v in VIEWS for con in (None,) + CONTOURS for k in (0, 1, 2, -1)]
    for v, con, more in cases:
        kw = {"view": const(v)}
        if con:
            kw["contour"] = const(con)
        kw.update(more)
        inc = tm.cval(kw["inc"]) if "inc" in kw else -1
        inc = int(inc)
        label = "plot_model(view=%s%s%s)" % (v, ", contour=" + con if con else "", "".join(", " + k for k in more))
        c, ms, odd, shot = shoot(R, d, label, "plot_model", kw, inc, sc if "force_scale" in more else ONE, v)
        nodes(R, label + ": nodes at their displaced positions", ms, odd, shot, AX[v], c.f)
        elements(R, label + ": elements", ms, odd, shot, AX[v], c.f)
        forces(R, label + ": forces", ms, odd, shot, AX[v], c.f)
        axis_labels(R, label, c.events, v, c.f)
    # two steps: constant forces of the earlier step are drawn as well
    d2 = Done(R, 2, (2, 1))
    for v in ("xy", "3d"):
        label = "plot_model(view=%s) in the second step" % v
        c, ms, odd, shot = shoot(R, d2, label, "plot_model", {"view": const(v)}, -1, ONE, v)
        nodes(R, label + ": nodes at their displaced positions", ms, odd, shot, AX[v], c.f)
        elements(R, label + ": elements", ms, odd, shot, AX[v], c.f)
        forces(R, label + ": forces", ms, odd, shot, AX[v], c.f)
    # the single plots (view xz)
    for cfg in ("undeformed", "deformed"):
        for meth, fn in (("plt_nodes", nodes), ("plt_elements", elements)):
            label = "%s(%s)" % (meth, cfg)
            c, ms, odd, shot = shoot(R, d, label, meth, {"config": const(cfg)}, -1 if cfg == "deformed" else 0)
            fn(R, label, ms, odd, shot, AX["xz"], c.f)


# ------------------------------------------------------------------ C26
def calls_of(t):
    """calls of library objects inside a value: numeric arguments"""
    return [x for x in tm.walk(t) if x.op == "extv" and x.a[0] == "()"]


def colours(R, what, ms, shot, con, f):
    """the colour of every element comes from its own data of the increment"""
    ls = [m for m in ms if m.kind == "line"]
    hit = []
    for m in ls:
        o = m.over("elem", W.ne)
        col = m.extra.get("color")
        if col is None or o is None:
            continue
        k, q = o
        for x in calls_of(q.extra["color"]):
            for y in x.a[2:]:
                if isinstance(y, T) and tm.kind(y) in ("float", "int", "num") and model_data(y):
                    hit.append((m, k, q, y))
    if con is None:
        R.fact(what + ": no contour", not hit, hit[0][0].node if hit else f, "elements are coloured by data")
        return
    if not hit:
        plain = [m for m in ls if m.extra.get("color") is not None and strval(m.extra["color"]) is None]
        if ls and not plain:
            R.bad(what + ": elements are coloured by the %s of the increment" % con, ls[-1].node, "every line has a fixed colour")
        else:
            R.und(what + ": elements are coloured by the %s of the increment" % con, f, "colours not understood")
        return
    for m, k, q, y in hit:
        R.equal(what + ": elements are coloured by the %s of the increment" % con, y, ar.at(shot.data[con], [k, ZERO]), pc=q.pc, idx=(k,), node=m.node)


def limits(R, what, events, want, shot, con, f):
    for e in events:
        if e.kind == "extcall" and e.data["name"].endswith("Normalize"):
            v, kw = list(e.data["vals"]), e.data["kwvals"]
            lo, hi = kw.get("vmin", v[0] if v else None), kw.get("vmax", v[1] if len(v) > 1 else None)
            if lo is None or hi is None:
                continue
            if want is not None:
                R.equal(what + ": lower limit of the colours as given", lo, want[0], pc=e.pc, node=e.node)
                R.equal(what + ": upper limit of the colours as given", hi, want[1], pc=e.pc, node=e.node)
            else:
                # the limits may only use the data that are shown
                for x in tm.walk(mk("tuple", lo, hi)):
                    if x.op == "app" and str(x.a[0]).startswith("pf") and x not in set(tm.walk(shot.data[con])):
                        R.bad(what + ": limits come from the data shown", e.node, "they use %s" % tm.show(x, 3))
                        return
                R.held(what + ": limits come from the data shown", e.node, "dependence")


def series(R, what, x, want, f, node, pc=1):
    """data of a history: the wanted values in order; the plot may start at the origin"""
    p = parts(x)
    if p is None:
        p = list(x.a[0].a) if x.op == "npa" and x.a[0].op == "tuple" else None
    if p is None:
        s = ar.shape(x)
        dv = ar.dimval(s[0]) if s and len(s) == 1 else None
        if dv is None:
            R.und(what, node, "data not understood: %s" % tm.show(x, 3)[:100])
            return None
        p = [ar.at(x, [const(i)]) for i in range(dv)]
    lead = len(p) - len(want)
    if lead < 0 or lead > 1:
        R.bad(what, node, "%d values for %d increments" % (len(p), len(want)))
        return None
    if lead:
        R.fact(what + ": starts at the origin", is_zero_const(p[0]), node, tm.show(p[0], 3))
    for q, (v, w) in enumerate(zip(p[lead:], want)):
        R.equal("%s, increment %d" % (what, q), v, w, pc=pc, node=node)
    return len(p)


def quantity(d, st, r, q, node):
    I = d.I
    n = lambda name: I.num(st, W.fld(I, st, r, name))
    lab = I.num(st, W.fld(I, st, W.fld(I, st, d.M, "Nodes"), "labels"))
    el = I.num(st, W.fld(I, st, W.fld(I, st, d.M, "Elements"), "labels"))
    if q == "LPF":
        return n("lpf")
    if q.startswith("Displacement"):
        return ar.at(n("U"), [ar.pos(lab, node), const(DIRS.index(q[-1]))])
    if q.startswith("Force"):
        return ar.at(n("r"), [ar.pos(lab, node), const(DIRS.index(q[-1]))])
    return ar.at(n("state_v"), [ar.pos(el, node), const(int(q[-1]) - 1)])


def plotted(events):
    """calls that plot; calls on different paths with the same data count once"""
    out = []
    for e in events:
        if e.kind == "extcall" and e.data["name"].split(".")[-1] in ("plot", "scatter", "errorbar", "step", "semilogx", "semilogy", "loglog") and len(e.data.get("vals") or ()) >= 2:
            if any(x.data["vals"][:2] == e.data["vals"][:2] and band(x.pc, e.pc) == 0 for x in out):
                continue
            out.append(e)
    return out


@check("C26", "value graph of the data handed to the plotting library for every quantity, direction, increment and contour option, compared with the recorded results of the increments and nodes asked for")
def c26(R):
    L = lambda *xs: (lambda st: d.list(st, xs))
    cb = (S("user.cb0"), S("user.cb1"))
    for steps, counts in ((1, (2,)), (2, (2, 1))):
        d = Done(R, steps, counts)
        total = 1 + sum(counts)
        tag = " (%d step%s)" % (steps, "s" if steps > 1 else "")
        # undeformed start
        s0 = Shot(d, d.st, 0)
        i = index("node", W.nn)
        for c in range(3):
            R.equal("increment 0 is undeformed, direction %s%s" % ("xyz"[c], tag), ar.at(s0.U, [i, const(c)]), ZERO, idx=(i,), node=W.method(R.prog, d.cls, "build"))
        for inc in sorted(set(range(total)) | set(range(-total, 0))):
            for con in (None, "force") if steps > 1 else (None,) + CONTOURS:
                kw = {"inc": const(inc)}
                if con:
                    kw["contour"] = const(con)
                label = "plot_model(inc=%d%s)%s" % (inc, ", contour=" + con if con else "", tag)
                c, ms, odd, shot = shoot(R, d, label, "plot_model", kw, inc)
                nodes(R, label + ": displacements of the increment", ms, odd, shot, AX["xz"], c.f)
                forces(R, label + ": load level of the increment", ms, odd, shot, AX["xz"], c.f)
                if con != "force" or steps == 1:
                    elements(R, label + ": elements of the increment", ms, odd, shot, AX["xz"], c.f)
                colours(R, label, ms, shot, con if shot.inc else None, c.f)
                if con and shot.inc:
                    limits(R, label, c.events, None, shot, con, c.f)
        if steps == 1:
            for con in CONTOURS:
                for lab, kw in (("contour=%s, cbar_limits" % con, {"contour": const(con), "cbar_limits": L(*cb)}),
                                ("contour=(%s, limits)" % con, {"contour": lambda st, con=con: mk("tuple", const(con), d.list(st, list(cb)))})):
                    for v, inc in (("xz", -1), ("3d", -1), ("xy", 1), ("3d", 1)):
                        label = "plot_model(%s, view=%s, inc=%d)" % (lab, v, inc)
                        c, ms, odd, shot = shoot(R, d, label, "plot_model", dict(kw, view=const(v), inc=const(inc)), inc, view=v)
                        colours(R, label, ms, shot, con, c.f)
                        limits(R, label, c.events, cb, shot, con, c.f)
        history(R, d, tag)
    d = Done(R, 1, (2,), before=plastic)
    history(R, d, " (state variables)", True)


def plastic(w):
    """a model with state variables: nothing to do, the symbolic model has them"""


def history(R, d, tag, state=False):
    I, st = d.I, d.st
    rs = I.iter_known(W.fld(I, st, W.fld(I, st, d.M, "Results"), "R"), st)
    a, b, e = S("user.node1", "int"), S("user.node2", "int"), S("user.node3", "int")
    Q = ["Displacement " + x for x in DIRS] + ["Force " + x for x in DIRS] + ["LPF"]
    pc = 1
    if state:
        Q = ["State Variable 1", "State Variable 2"]
        for r in rs:
            # state variables exist in a model with an elastic-plastic element
            pc = band(pc, bnot(tm.is_none(I.num(st, W.fld(I, st, r, "state_v")))))
        st.pc = pc
    for q in Q:
        for p, other, o in [(p, r, o) for p, r in (("X", "Y"), ("Y", "X")) for o in (("LPF", "Displacement Y") if q != "LPF" else ("Displacement Y", "Force Z"))]:
            label = "plot_history(%s=%s, %s=%s)%s" % (p, q, other, o, tag)
            pre = st.copy()
            c = d.do("plot_history", [], {"nodes": d.list(pre, [a, b]), p: const(q), other: const(o)}, st=pre)
            pl = plotted(c.events)
            if len(pl) != 1:
                R.und(label, c.f, "%d calls that plot" % len(pl))
                continue
            x, y = pl[0].data["vals"][:2]
            qx, qy = (q, o) if p == "X" else (o, q)
            n = series(R, label + ": horizontal axis is %s of the first node" % qx, x, [quantity(d, st, r, qx, a) for r in rs], c.f, pl[0].node, pc)
            m = series(R, label + ": vertical axis is %s of the second node" % qy, y, [quantity(d, st, r, qy, b) for r in rs], c.f, pl[0].node, pc)
            if n and m:
                R.fact(label + ": one pair per increment", n == m, pl[0].node, "%d and %d values" % (n, m))
            axes_named(R, label, c, {"x": qx, "y": qy})
    if not state:
        for p in "XY":
            label = "plot_history(%s=Increments)%s" % (p, tag)
            pre = st.copy()
            c = d.do("plot_history", [], {"nodes": d.list(pre, [a, b]), p: const("Increments"), "Y" if p == "X" else "X": const("Displacement Z")}, st=pre)
            pl = plotted(c.events)
            if len(pl) == 1:
                v = pl[0].data["vals"][0 if p == "X" else 1]
                s = ar.shape(v)
                dv = ar.dimval(s[0]) if s and len(s) == 1 else None
                w = pl[0].data["vals"][1 if p == "X" else 0]
                m = series(R, label + ": other axis is Displacement Z", w, [quantity(d, st, r, "Displacement Z", b if p == "X" else a) for r in rs], c.f, pl[0].node)
                if dv is None:
                    R.und(label, pl[0].node, "data not understood")
                else:
                    if m:
                        R.fact(label + ": one pair per increment", dv == m, pl[0].node, "%d and %d values" % (dv, m))
                    for k in range(dv - 1):
                        R.equal(label + ": consecutive numbers", sub(ar.at(v, [const(k + 1)]), ar.at(v, [const(k)])), ONE, node=pl[0].node)
            else:
                R.und(label, c.f, "%d calls that plot" % len(pl))
        path_axis(R, d, tag, len(rs))
    # paths
    for q in Q:
        for inc in range(len(rs)) if q in ("Displacement X", "State Variable 1") else (-1,):
            label = "plot_path(Y=%s, increment=%d)%s" % (q, inc, tag)
            pre = st.copy()
            c = d.do("plot_path", [], {"nodepath": d.list(pre, [a, b, e]), "increment": const(inc), "Y": const(q)}, st=pre)
            pl = plotted(c.events)
            if len(pl) != 1:
                R.und(label, c.f, "%d calls that plot" % len(pl))
                continue
            y = pl[0].data["vals"][1]
            p = parts(y)
            if p is None:
                R.und(label, pl[0].node, "data not understood: %s" % tm.show(y, 3)[:100])
                continue
            if len(p) != 3:
                R.bad(label + ": every node of the path", pl[0].node, "%d values for 3 nodes" % len(p))
                continue
            for k, (v, n) in enumerate(zip(p, (a, b, e))):
                R.equal("%s: node %d of the path" % (label, k + 1), v, quantity(d, st, rs[inc], q, n), pc=pc, node=pl[0].node)
            axes_named(R, label, c, {"y": q})


def path_axis(R, d, tag, total):
    """the horizontal axis of a path names the nodes in the order of their values"""
    for ns in ([7, 3, 5], [4, 5, 6], [6, 5, 4], [2, 2, 9]):
        label = "plot_path(nodepath=%s)%s" % (ns, tag)
        pre = d.st.copy()
        c = d.do("plot_path", [], {"nodepath": d.list(pre, [const(n) for n in ns]), "Y": const("Displacement Z")}, st=pre)
        pl = plotted(c.events)
        if len(pl) != 1:
            R.und(label, c.f, "%d calls that plot" % len(pl))
            continue
        st, I = d.st, d.I
        r = I.iter_known(W.fld(I, st, W.fld(I, st, d.M, "Results"), "R"), st)[-1]
        x, y = [known(d, c, v) for v in pl[0].data["vals"][:2]]
        if x is None or y is None or any(tm.const_poly(v) is None for v in x):
            R.und(label, pl[0].node, "axis not understood")
            continue
        x = [int(tm.const_poly(v)) for v in x]
        names = dict(zip(x, x))
        ticks, labs = None, None
        for e in c.events:
            if e.kind == "extcall" and e.data["name"].split(".")[-1] in ("set_xticks", "xticks") and e.data["vals"]:
                ticks = known(d, c, e.data["vals"][0])
                l = e.data["vals"][1] if len(e.data["vals"]) > 1 else e.data["kwvals"].get("labels")
                labs = known(d, c, l) if l is not None else labs
            if e.kind == "extcall" and e.data["name"].split(".")[-1] == "set_xticklabels" and e.data["vals"]:
                labs = known(d, c, e.data["vals"][0])
        nums = lambda xs: None if xs is None or any(tm.const_poly(v) is None for v in xs) else [int(tm.const_poly(v)) for v in xs]
        ticks, labs = nums(ticks), nums(labs)
        if x != ns and (ticks is None or labs is None):
            R.und(label, pl[0].node, "ticks not understood")
            continue
        if ticks is not None and labs is not None:
            names.update(zip(ticks, labs))
        R.fact(label + ": one place per node", len(x) == len(ns) == len(y), pl[0].node, "%d places, %d values" % (len(x), len(y)))
        if len(x) != len(y):
            continue
        for k, (p, v) in enumerate(zip(x, y)):
            R.equal("%s: value %d belongs to the node named at its place" % (label, k + 1), v, quantity(d, st, r, "Displacement Z", const(names.get(p, p))), node=pl[0].node)


def known(d, c, v):
    """items of a sequence of known length"""
    if v is None:
        return None
    p = parts(v)
    if p is not None:
        return p
    if v.op == "npa" and v.a[0].op == "tuple":
        return list(v.a[0].a)
    s = ar.shape(v)
    if s is not None and len(s) == 1 and ar.dimval(s[0]) is not None and ar.dimval(s[0]) < 40:
        return [ar.at(v, [const(i)]) for i in range(ar.dimval(s[0]))]
    return d.I.iter_known(v, c.st)


def axes_named(R, label, c, want):
    for e in c.events:
        if e.kind == "extcall" and e.data.get("vals"):
            nm = e.data["name"].split(".")[-1]
            if nm in ("xlabel", "ylabel", "set_xlabel", "set_ylabel") and nm[-6] in want:
                s = strval(e.data["vals"][0])
                qs = ["Displacement " + x for x in DIRS] + ["Force " + x for x in DIRS] + ["LPF"]
                if s in qs and s != want[nm[-6]]:
                    R.bad(label + ": axis named after the quantity shown", e.node, "%s instead of %s" % (s, want[nm[-6]]))


# ------------------------------------------------------------------ C30
RESET = ("close", "clf", "cla", "figure", "subplots", "clear", "subplot", "axes")
WRITERS = ("mimwrite", "mimsave", "imwrite", "imsave", "mimwrite_v2")


def canon(t, memo):
    """value without the identity of the call site it was made at"""
    r = memo.get(t)
    if r is None:
        if t.op == "tok":
            r = const("tok")
        elif t.op in ("const", "sym", "func", "cls", "ext"):
            r = t
        elif t.op in ("poly", "lam", "lamarr", "ctr", "asym", "gi", "bi") or not any(x.op == "tok" for x in tm.walk(t)):
            r = t
        else:
            r = tm.rebuild(t, lambda x: canon(x, memo), lambda b: b)
        memo[t] = r
    return r


def drawing_of(events):
    """the marks of a frame as comparable values"""
    ms, odd = marks(events)
    memo = {}
    out = []
    for m in ms:
        mp = {}
        for n, (l, k, N) in enumerate(m.loops):
            mp[k] = mk("idx", "loop%d" % n, N if N is not None else NONE)
        f = lambda x: canon(tm.subst(x, mp), memo)
        out.append((m.kind, tuple(f(x) for x in m.xs), f(tm.mkbool(sub_bdd(m.pc, mp))), tuple((a, f(v) if isinstance(v, T) else v) for a, v in sorted(m.extra.items()))))
    return out, ms, odd


def depends(events, sym):
    return any(sym in set(tm.walk(v)) for e in events if e.kind == "extcall" for v in list(e.data.get("vals") or ()) + list((e.data.get("kwvals") or {}).values()))


def frames_of(c):
    """segments of events ending with a call that saves a figure: (event index in the program, increment segment)"""
    out, seg = [], []
    for e in c.events:
        if e.kind == "extcall" and e.data["name"].split(".")[-1] == "savefig":
            out.append((e, seg))
            seg = []
        else:
            seg.append(e)
    return out, seg


def movie(R, d, label, incs, kw, opts, stale, view, contour, scale, cbar):
    """one export: frames, their contents and their order in the file"""
    from .. import fsys
    I = d.I
    st = d.st.copy()
    old = []
    if stale:
        fs = {"figures/png/fig_%s.png" % k: mk("extv", "old", const(str(k))) for k in ("000", "001", "002", "00003", "1", "500", "2000", "99999", "a")}
        fs["figures/gif/movie.gif"] = mk("extv", "old", const("movie"))
        fs["figures/png/notes.txt"] = mk("extv", "old", const("notes"))
        fsys.start(st, ("figures", "figures/png", "figures/gif"), fs)
    else:
        fsys.start(st)
    n0 = len(I.events)
    c = d.do("plot_movie", [], args_of(kw, st), st=st)
    if c.st.pc == 0:
        r = [x for x in c.raises if x[0].pc]
        if r:
            R.bad(label + ": the export comes to its end", r[0][2], "%s on every path" % r[0][1])
        else:
            R.und(label + ": the export comes to its end", c.f, "no way to the end was found")
        return
    miss = [x for x in c.raises if x[1] in ("FileNotFoundError", "FileExistsError", "OSError")]
    if miss:
        R.bad(label + ": folders are there when they are needed", miss[0][2], miss[0][1])
    else:
        R.held(label + ": folders are there when they are needed", c.f, "abstract file system")
    fr, rest = frames_of(c)
    lost = c.st.s.get(fsys.KEY)
    if lost is None or lost.op != "fs" or any(f[0].pc != fr[0][0].pc for f in fr) or (fr and band(c.st.pc, bnot(fr[0][0].pc)) != 0):
        R.und(label, c.f, "file names or conditions are not understood (%s)" % (c.unmodelled[:1],))
        return
    if any(k is not ZERO for e, s in fr for l, k in e.loops):
        R.und(label, fr[0][0].node, "frames are saved in a loop that is not understood")
        return
    R.fact(label + ": one frame for each increment asked for", len(fr) == len(incs), fr[0][0].node if fr else c.f, "%d frames for %d increments" % (len(fr), len(incs)))
    if len(fr) != len(incs):
        return
    # contents of the frames
    prev = None
    for q, ((e, seg), inc) in enumerate(zip(fr, incs) if opts is not None else ()):
        what = "%s: frame of increment %d" % (label, inc)
        ref = d.do("plot_model", [], args_of(dict(opts, inc=const(inc)), st), st=d.st)
        a, ms, odd = drawing_of(seg)
        b, rs, _ = drawing_of(ref.events)
        if a == b and a:
            R.held(what + " shows what plot_model shows for it", e.node, "%d drawing calls equal" % len(a))
        if contour:
            limits(R, what, seg, cbar, Shot(d, d.st, inc, scale), contour, c.f)
        if a != b or not a:
            shot = Shot(d, d.st, inc, scale)
            nodes(R, what + ": nodes", ms, odd, shot, AX[view], c.f)
            elements(R, what + ": elements", ms, odd, shot, AX[view], c.f)
            forces(R, what + ": forces", ms, odd, shot, AX[view], c.f)
            colours(R, what, ms, shot, contour, c.f)
        for nm, sym in (("lim_scale", S("user.lim_scale")), ("nodesize", S("user.nodesize"))):
            if nm in opts and depends(ref.events, sym):
                R.fact(what + ": drawn with the given " + nm, depends(seg, sym), e.node, "the drawing does not depend on it")
        if q:
            cov = 0
            for x in seg:
                if x.kind == "extcall":
                    if x.data["name"].split(".")[-1] in RESET:
                        cov = bor(cov, x.pc)
                    elif any(m.e is x for m in ms):
                        break
            R.fact(what + ": does not show the frame before as well", band(e.pc, bnot(cov)) == 0, e.node, "the figure of the frame before is neither closed nor cleared")
    # the file
    # images handed to the writer
    got, site, kws = None, None, None
    for x in c.events:
        if x.kind != "extcall":
            continue
        nm = x.data["name"].split(".")[-1]
        v, k = list(x.data.get("vals") or ()), x.data.get("kwvals") or {}
        if nm in WRITERS and x.data["name"].startswith("imageio"):
            im_ = k.get("ims", k.get("image", v[1] if len(v) > 1 else None))
            site, kws, got = x, k, None
            l = x.data["kw"].get("ims", x.data["args"][1] if len(x.data["args"]) > 1 else im_)
            if im_ is not None and im_.op == "tuple":
                got = list(im_.a)
            elif im_ is not None and im_.op == "npa" and im_.a[0].op == "tuple":
                got = list(im_.a[0].a)
            elif im_ is not None and im_.op in ("list", "lst"):
                y = im_.a[0] if im_.op == "lst" else im_
                got = [p.a[0] for p in y.a] if y.op == "list" and all(p.op == "e" for p in y.a) else None
            elif l is not None and l.op == "ref":
                got = I.iter_known(l, c.st)
        elif nm == "append_data" and v:
            got = (got or []) + [v[0]]
            site = x
            kws = kws or {}
        elif nm == "get_writer":
            kws = k
    what = label + ": the file contains exactly the frames of this export in the order of the increments"
    if site is None:
        (R.und if c.unmodelled else R.bad)(what, c.f, "no call that writes a movie was found")
        return
    if got is None:
        R.und(what, site.node, "the images are not understood: %s" % [tm.show(z, 3)[:80] for z in site.data["vals"][1:2]])
        return
    idx = {id(e): inc for (e, seg), inc in zip(fr, incs)}
    seq = []
    for g in got:
        if g.op == "extv" and g.a[0] == "frame":
            seq.append(idx.get(id(I.events[tm.cval(g.a[1])]), "?"))
        elif g.op == "extv" and g.a[0] == "old":
            seq.append("an older file")
        else:
            seq.append(None)
    if None in seq:
        R.und(what, site.node, "an image is not understood")
    else:
        R.fact(what, seq == list(incs), site.node, "it contains %s" % (seq,))
    for nm, v in kw.items():
        if nm in ("fps", "duration", "loop"):
            g = kws.get(nm)
            R.fact(label + ": options of the writer are passed on", g is not None and g is v, site.node, "%s is not" % nm)


@check("C30", "value graph of the movie export with an abstract file system (arbitrary earlier content, arbitrary order of directory listings): every saved frame compared with the plot of its increment, "
              "and the sequence of images handed to the writer")
def c30(R):
    im.UNROLL[0] = 40
    L = lambda d, *xs: (lambda st: d.list(st, [const(x) for x in xs]))
    far = [1, 2, 3, 9, 10, 11, 99, 100, 101, 999, 1000, 1001, 9999, 10000, 10001]
    if R.tier != "quick":
        far = sorted(far + [19, 20, 21, 199, 200, 201, 1999, 2000, 2001, 19999, 20000, 99999, 100000])
    sc, cb = S("user.force_scale"), (S("user.cb0"), S("user.cb1"))
    opts = lambda d, v="xz", con=None: {"view": const(v), "contour": const(con) if con else NONE, "lim_scale": S("user.lim_scale"), "force_scale": sc, "nodesize": S("user.nodesize"),
                                        "cbar_limits": lambda st: d.list(st, list(cb))}
    # as many increments as the path following made
    for n, steps in (((2,), 1), ((11,), 1), ((2, 3), 2)):
        d = Done(R, steps, n)
        for stale in (False, True):
            o = opts(d)
            movie(R, d, "plot_movie() of %d increments%s" % (sum(n), ", folder exists" if stale else ""), list(range(1, 1 + sum(n))), o, o, stale, "xz", None, sc, None)
    # all options
    d = Done(R, 1, (2,))
    movie(R, d, "plot_movie() without options", [1, 2], {}, None, False, "xz", None, ONE, None)
    for v in VIEWS:
        for con in CONTOURS[:2] if R.tier == "quick" else CONTOURS:
            o = opts(d, v, con)
            movie(R, d, "plot_movie(view=%s, contour=%s, all options)" % (v, con), [1, 2], dict(o, fps=S("user.fps")), o, v == "3d", v, con, sc, cb)
    # increments far apart in a long history
    d = Done(R, 1, (len(far),))
    rs = d.I.iter_known(W.fld(d.I, d.st, W.fld(d.I, d.st, d.M, "Results"), "R"), d.st)
    full = [im.e_(rs[0])] * (far[-1] + 1)
    for k, r in zip(far, rs[1:]):
        full[k] = im.e_(r)
    d.I.set_list(d.st, W.fld(d.I, d.st, W.fld(d.I, d.st, d.M, "Results"), "R"), mk("list", *full), None, what="scenario")
    movie(R, d, "plot_movie(incs=%s)" % far, far, dict(opts(d), incs=L(d, *far)), opts(d), True, "xz", None, sc, None)
    movie(R, d, "plot_movie(incs=[2, 10])", [2, 10], dict(opts(d), incs=L(d, 2, 10)), opts(d), False, "xz", None, sc, None)
