"""The public operations of a model after a run, with documented arguments."""
from .. import arrays as ar
from .. import interp as im
from .. import terms as tm
from .. import world as W
from ..terms import FALSE, NONE, ONE, TRUE, ZERO, const, mk
from .common import callv

S = lambda n, k="float": mk("sym", n, k)
VIEWS = ("xy", "xz", "yz", "3d")
CONTOURS = ("stretch", "force", "stress")
DIRS = "XYZ"


class Done:
    """a model after build and run (path following by its contract)"""

    def __init__(self, rep, steps=1, counts=(2,), log=None, logfile=FALSE, clean=True, before=None):
        self.rep, self.prog = rep, rep.prog
        w = self.w = W.generalise(W.built(rep.prog, log=log, logfile=logfile, steps=steps))
        rep.interps.append(w.I)
        if before is not None:
            before(w)
        W.run_model(w, counts)
        self.I, self.M = w.I, w.M
        self.st = w.post
        if clean:
            self.st.pc = 1
        self.total = 1 + sum(counts)
        self.cls = w.cls

    def list(self, st, xs):
        return self.I.new_list(st, [im.e_(x) for x in xs])

    def do(self, name, args=(), kw=None, st=None, on=None):
        """call a method of the model (or of `on`); -> Call"""
        I = self.I
        st = (st or self.st).copy()
        r = on if on is not None else self.M
        k = I.objkind(st, r.a[0])
        cls = self.prog.nodes[k[1]]
        f = W.method(self.prog, cls, name)
        c = Call()
        c.f, c.name, c.pre = f, name, st.copy()
        n, u = len(I.events), len(I.unmodelled)
        old = I.raises
        I.raises = [[]]
        try:
            c.v = callv(I, st, mk("bound", mk("func", f._tid), r), list(args), kw, f)
            c.raises = I.raises[0]
        finally:
            I.raises = old
        c.st, c.events, c.unmodelled = st, I.events[n:], I.unmodelled[u:]
        return c


class Call:
    pass


def plots(d, tier="quick"):
    """(label, method, function state -> (args, kw)) of every documented plot"""
    L = lambda *xs: (lambda st: d.list(st, xs))
    out = []
    inc = [None, const(0), const(1), const(-1), const(-2)]
    for v in VIEWS:
        for c in (None,) + CONTOURS:
            kw = {"view": const(v)}
            if c:
                kw["contour"] = const(c)
            out.append(("plot_model(view=%s, contour=%s)" % (v, c), "plot_model", kw))
    for i in inc[1:]:
        out.append(("plot_model(inc=%s)" % tm.show(i, 2), "plot_model", {"inc": i, "contour": const("force")}))
    for v in ("xz", "3d"):
        for k in (2, 4, 6):
            if k == 6 and v != "3d":
                continue
            out.append(("plot_model(view=%s, lim_scale of %d)" % (v, k), "plot_model", {"view": const(v), "lim_scale": L(*[S("user.lim%d" % q) for q in range(k)])}))
        out.append(("plot_model(view=%s, lim_scale number)" % v, "plot_model", {"view": const(v), "lim_scale": S("user.lim_scale"), "force_scale": S("user.force_scale"), "nodesize": S("user.nodesize")}))
    for c in CONTOURS:
        out.append(("plot_model(contour=%s, cbar_limits=[a, b])" % c, "plot_model", {"contour": const(c), "cbar_limits": L(S("user.cb0"), S("user.cb1"))}))
        out.append(("plot_model(contour=(%s, [a, b]))" % c, "plot_model", {"contour": lambda st, c=c: mk("tuple", const(c), d.list(st, [S("user.cb0"), S("user.cb1")]))}))
    out.append(("plot_movie()", "plot_movie", {}))
    out.append(("plot_movie(view=3d, contour=stress, incs=[a, b])", "plot_movie", {"view": const("3d"), "contour": const("stress"), "incs": L(const(1), const(2))}))
    Q = ["Displacement " + x for x in DIRS] + ["Force " + x for x in DIRS] + ["LPF"]
    N2 = L(S("user.node1", "int"), S("user.node2", "int"))
    for q in Q + ["Increments"]:
        out.append(("plot_history(X=%s)" % q, "plot_history", {"nodes": N2, "X": const(q), "Y": const("LPF")}))
        out.append(("plot_history(Y=%s)" % q, "plot_history", {"nodes": N2, "X": const("Displacement X"), "Y": const(q)}))
    out.append(("plot_history()", "plot_history", {}))
    out.append(("plot_history(fig, ax)", "plot_history", {"fig": mk("extv", "user.fig"), "ax": mk("extv", "user.ax")}))
    for q in Q:
        out.append(("plot_path(Y=%s)" % q, "plot_path", {"nodepath": L(S("user.node1", "int"), S("user.node2", "int"), S("user.node3", "int")), "increment": const(1), "Y": const(q)}))
    out.append(("plot_path()", "plot_path", {}))
    out.append(("plot_path(fig, ax)", "plot_path", {"fig": mk("extv", "user.fig"), "ax": mk("extv", "user.ax")}))
    for m in ("plt_nodes", "plt_elements", "plt_extforces"):
        out.append((m + "()", m, {}))
        out.append((m + "(config=deformed)", m, {"config": const("deformed")}))
    out.append(("plot_show()", "plot_show", {}))
    return out


def statev(d):
    """plots of state variables need a model with an elastic-plastic element"""
    L = lambda *xs: (lambda st: d.list(st, xs))
    N2 = L(S("user.node1", "int"), S("user.node2", "int"))
    return [("plot_history(X=State Variable 1)", "plot_history", {"nodes": N2, "X": const("State Variable 1"), "Y": const("LPF")}),
            ("plot_history(Y=State Variable 2)", "plot_history", {"nodes": N2, "X": const("LPF"), "Y": const("State Variable 2")}),
            ("plot_path(Y=State Variable 1)", "plot_path", {"nodepath": L(S("user.node1", "int"), S("user.node2", "int")), "increment": const(1), "Y": const("State Variable 1")})]


def getters(d):
    e, n = S("user.element", "int"), S("user.node1", "int")
    out = []
    E = W.fld(d.I, d.st, d.M, "Elements")
    for m in ("get_nodes", "NE", "NA", "get_material_type", "get_element_type", "get_material_properties", "get_geometric_properties"):
        out.append(("Elements." + m, E, m, [e], {}))
    R = W.fld(d.I, d.st, d.M, "Results")
    out.append(("Results.get_result", R, "get_result", [const(1)], {}))
    A = W.fld(d.I, d.st, d.M, "Analysis")
    for m in ("get_U", "get_r"):
        out.append(("Analysis.%s" % m, A, m, [], {}))
        out.append(("Analysis.%s(flat)" % m, A, m, [], {"flat": TRUE}))
        out.append(("Analysis.%s(red)" % m, A, m, [], {"red": TRUE}))
    return out


def args_of(kw, st):
    return {k: (v(st) if callable(v) else v) for k, v in kw.items()}
