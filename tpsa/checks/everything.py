"""Every public operation, analysed: the event streams of all the scenarios of the other checks.

The scenarios of the other checks (definition histories, build, run, evaluations,
path following, Newton iteration, material and element functions, plots, movies,
getters) are analysed again and their events are collected.
"""
import importlib

from .. import arrays as ar
from .. import interp as im
from .. import lib
from .. import report
from .. import terms as tm
from .. import world as W
from ..terms import FALSE, NONE, ONE, TRUE, ZERO, add, const, mk
from . import REG

S = lambda n, k="float": mk("sym", n, k)

SCENARIOS = (("material", "C04"), ("material", "C05"), ("evalmodel", "C01"), ("evalmodel", "C02"), ("evalmodel", "C03"), ("evalmodel", "C06"), ("evalmodel", "C17"), ("evalmodel", "C29"), ("newton", "C07"), ("handlers", "C15"),
             ("building", "C16"), ("results", "C13"), ("streams", "C22"), ("drawing", "C25"), ("drawing", "C26"), ("drawing", "C30"), ("isolation", "C19"), ("isolation", "C20"),
             ("isolation", "C21"))


def harvest(R, tier="quick"):
    """-> [(id of the scenario, interpreter)] ; R gets them for its evidence"""
    out = []

    def go(name, f):
        n = len(im.INTERPS)
        try:
            f()
        except W.AnchorError as e:
            R.notes.append("scenario %s is not complete: %s" % (name, e))
            R.und("scenario " + name, None, "not complete: %s" % e)
        except Exception as e:
            R.und("scenario " + name, None, "internal limit: %r" % (e,))
        out.extend((name, I) for I in im.INTERPS[n:])

    for mod, pid in SCENARIOS:
        importlib.import_module("tpsa.checks." + mod)
        S = report.Rep(pid, R.prog)
        S.tier = tier
        S.scratch = True
        go(pid, lambda: REG[pid][0](S))
    go("models", lambda: models(R))
    extras(R, out)
    from .solver import SCEN, Impl, sname

    for scen in SCEN:
        go("path following [%s]" % sname(scen), lambda: Impl(R, scen))
    return out


def models(R):
    """logging options, several steps, getters, plots of state variables and the catalog of plots"""
    from .catalog import Done, args_of, getters, plots, statev

    for lf in (FALSE, TRUE, S("logfile", "bool")):
        Done(R, 1, (2,), logfile=lf)
    Done(R, 2, (2, 1), log=tm.const(3))
    d = Done(R, 1, (2,))
    for label, on, m, a, kw in getters(d):
        d.do(m, a, kw, on=on)
    for label, m, kw in plots(d, R.tier):
        pre = d.st.copy()
        d.do(m, [], args_of(kw, pre), st=pre)
    for label, m, kw in statev(d):
        pre = d.st.copy()
        pre.pc = plastic(d, pre)
        d.do(m, [], args_of(kw, pre), st=pre)


def extras(R, out):
    """operations outside the scenarios of the other checks; out: (id, interpreter) of each"""
    from .catalog import Done
    from .common import callv
    from .handlers import ADD, H, record
    from .solver import SCEN, Impl, n

    L = [S("label%d" % k, "int") for k in range(3)]

    def group(name, f):
        k = len(im.INTERPS)
        try:
            f()
        except Exception as e:
            R.und("scenario " + name, None, "not complete: %r" % (e,))
        out.extend((name, I) for I in im.INTERPS[k:])

    def arr(h, *xs, k="float"):
        return h.I.new_array(h.st, mk("npa", mk("tuple", *xs), k))

    # elements given with arrays, property names old and new, with defaults
    def elements():
        for mp, gp in ((3, 1), (2, 2), (1, 1), (3, 2)):
            for a, b in (("material_properties", "geometric_properties"), ("mprop", "gprop")):
                for how in ("array", "list", "tuple"):
                    h = H(R, "ElementHandler", False)
                    make = (lambda *x: arr(h, *x)) if how == "array" else (lambda *x: h.list(x)) if how == "list" else (lambda *x: mk("tuple", *x))
                    for k in range(2):
                        o = h.make("trusspy.Element", [L[k], make(S("c0", "int"), S("c1", "int"))], {a: make(*[S("m%d" % q) for q in range(mp)]), b: make(*[S("g%d" % q) for q in range(gp)])})
                        h.call("add_element", [o])
                    h.call("add_element", [L[2], make(S("c0", "int"), S("c1", "int"))], {a: make(*[S("m%d" % q) for q in range(mp)]), b: make(*[S("g%d" % q) for q in range(gp)])})
        h = H(R, "ElementHandler", False)
        h.make("trusspy.Element", [L[0], h.list([S("c0", "int"), S("c1", "int")])])

    def records():
        for name in ADD:
            for some in (False, True):
                h = H(R, name, some)
                cname, args, kw, row = record(name)
                h.call("__enter__")
                h.call(ADD[name][0], [args[0], arr(h, *args[1].a, k=tm.kind(args[1].a[0]))], {k: h.list(v) if isinstance(v, list) else v for k, v in kw.items()})
                h.call("__exit__", [NONE, NONE, NONE])
        for some in (False, True):
            h = H(R, "BoundaryHandler", some)
            o = [h.make("trusspy.BoundaryT", [L[k], S("temperature%d" % k)]) for k in range(2)]
            h.call("add_bounds_T", [h.list(o)])
            h.call("add_bound_T", [o[0]])

    def forces():
        for some in (False, True):
            h = H(R, "ExternalForceHandler", some)
            n6 = h.list([S("f%d" % k) for k in range(6)])
            h.call("add_force", [L[0], n6])

    def results():
        d = Done(R, 1, (2,), before=None)
        I, st = d.I, d.st
        res = W.fld(I, st, d.M, "Results")
        c = d.do("add_increment", [], {}, on=res)
        for m in ("copy_increment", "duplicate_first_increment", "remove_last_increment"):
            d.do(m, [], {}, on=res)
        for i in (const(0), const(-1), S("user.increment", "int")):
            d.do("get_result", [i], {}, on=res)
        A = W.fld(I, st, d.M, "Analysis")
        f0, f1 = W.fld(I, st, A, "DOF0"), W.fld(I, st, A, "DOF1")
        cls = W.public(R.prog, "trusspy.core.Analysis")
        new = callv(I, c.st, mk("cls", cls._tid), [], {}, cls)
        nd = [W.nn, W.ne, const(3), f0, f1]
        for k in (const(0), const(2)):
            d.do("build", nd + [k], {}, st=c.st, on=new)
            d.do("build_result", nd + [k], {}, st=c.st, on=W.fld(I, c.st, d.M, "Results"))
        d.do("build", nd, {}, on=A)

    def drawing():
        d = Done(R, 1, (2,))
        for q in ("Displacement X", "Force Z", "LPF"):
            st = d.st.copy()
            r = mk("iterv", "range", ONE, const(5), ONE)
            d.do("plot_path", [], {"nodepath": r, "Y": const(q), "increment": const(1)}, st=st)

    def limits():
        full = ar.asym("user.dxmax", (add(n, ONE),))
        two = [S("user.du"), S("user.dlpf")]
        for mkv in (lambda I, st: S("user.dxmax"), lambda I, st: mk("tuple", *two), lambda I, st: I.new_array(st, mk("npa", mk("tuple", *two), "float")), lambda I, st: I.new_array(st, full),
                    lambda I, st: I.new_list(st, lib.list_parts(I, st, I.new_array(st, full)))):
            Impl(R, SCEN[0], dxmax=mkv)

    for name, f in (("elements given as arrays", elements), ("records", records), ("forces", forces), ("results", results), ("plots of ranges", drawing), ("incremental limits", limits)):
        group(name, f)


def plastic(d, st):
    """condition: the increments have state variables"""
    pc = st.pc
    for r in d.I.iter_known(W.fld(d.I, st, W.fld(d.I, st, d.M, "Results"), "R"), st):
        pc = tm.band(pc, tm.bnot(tm.is_none(d.I.num(st, W.fld(d.I, st, r, "state_v")))))
    return pc
