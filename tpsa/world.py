"""Abstract program states at the interesting points of a model's life.

The states are not assumed: ``Model.__init__`` is analysed, the input arrays of
the handlers are replaced by arbitrary (symbolic) ones, ``Model.build`` and
``Model.run`` are analysed from there.  What the solver may have stored in the
analysis object is generalised at the call sites of the path-following solver.
"""
import ast

from . import arrays as ar
from . import interp as im
from . import terms as tm
from .arrays import asym
from .terms import NONE, ONE, UNBOUND, ZERO, T, add, const, ite, mk, mul

THREE = const(3)


def sym(name, kd, *flags):
    return mk("sym", name, kd, *flags)


def dim(name):
    return mk("dim", name)


nn, ne, n1 = dim("nn"), dim("ne"), dim("n1")
nm, ng, ncol = dim("nm"), dim("ng"), dim("ncol")
for d in (nn, ne, n1, nm, ng, ncol):
    tm.NONNEG.add(d)
nsteps = sym("Settings.nsteps", "int")

LABN = asym("Nodes.labels", (nn,), "int")
COORDS = asym("Nodes.coords", (nn, THREE))
LABE = asym("Elements.labels", (ne,), "int")
CONNS = asym("Elements.conns", (ne, const(2)), "int")
ETYPE = asym("Elements.elem_type", (ne,), "int")
MTYPE = asym("Elements.mat_type", (ne,), "int")
MPROP = asym("Elements.material_properties", (ne, nm))
GPROP = asym("Elements.geometric_properties", (ne, ng))
BNODES = asym("Boundaries.Unodes", (dim("nb"),), "int")
BVALS = asym("Boundaries.Uvalues", (dim("nb"), THREE), "int")
FNODES = asym("ExtForces.nodes", (dim("nf"),), "int")
FVALS = asym("ExtForces.forces", (dim("nf"), ncol))
for x in (LABN, LABE, BNODES, FNODES):
    ar.UNIQUE.add(x)



def _ends_differ(P):
    """domain: the two ends of an element are different nodes"""
    d = tm.to_poly(P)
    if len(d) != 2 or sorted(d.values()) != [-1, 1]:
        return False
    xs = []
    for m in d:
        if len(m) != 1 or m[0][1] != 1:
            return False
        x = m[0][0]
        if x.op == "pos" and x.a[0] is LABN:
            x = x.a[1]
        elif x.op == "pos":
            return False
        if x.op != "el" or x.a[0] is not CONNS:
            return False
        xs.append(x)
    return xs[0].a[1] is xs[1].a[1] and xs[0].a[2] is not xs[1].a[2]


tm.NEVERZERO.append(_ends_differ)

HANDLERS = {
    "Nodes": {"labels": LABN, "coords": COORDS},
    "Elements": {"labels": LABE, "conns": CONNS, "elem_type": ETYPE, "mat_type": MTYPE,
                 "material_properties": MPROP, "geometric_properties": GPROP},
    "Boundaries": {"Unodes": BNODES, "Uvalues": BVALS, "Telements": None, "Tvalues": None},
    "ExtForces": {"nodes": FNODES, "forces": FVALS},
}

SETK = {"incs": "any", "stepcontrol": "bool", "maxfac": "float", "minfac": "float", "increase": "float", "reduce": "float",
        "dxtol": "float", "ftol": "float", "xtol": "float", "cycl": "int", "nfev": "int", "lpf": "float", "dlpf": "float", "du": "float",
        "xlimit": "any", "log": "int", "j0": "any", "j_pre": "bool", "j_fixed": "bool", "nsteps": "int"}


class AnchorError(Exception):
    """a public name of the library is gone"""


def public(prog, dotted, what=None):
    d = prog.public(dotted)
    if d is None or d[0] not in ("func", "class"):
        raise AnchorError("public name %s not found" % dotted)
    return d[1]


def method(prog, cls, name):
    m = prog.find_method(cls, name)
    if m is None:
        raise AnchorError("%s.%s not found" % (cls.name, name))
    return m


def new_model(I, st, log=None, logfile=None, n=None):
    """Model(log, logfile, logfile_name) -> ref"""
    cls = public(I.prog, "trusspy.Model")
    args = {"log": log if log is not None else sym("log", "int"),
            "logfile": logfile if logfile is not None else tm.FALSE,
            "logfile_name": sym("logfile_name", "str")}
    I.logwanted = tm.bor(getattr(I, "logwanted", 0), tm.truthy(args["logfile"]))
    ref = I.new_inst(st, cls._tid)
    m = method(I.prog, cls, "__init__")
    params = [a.arg for a in m.args.args[1:]]
    b = {m.args.args[0].arg: ref}
    for p in params:
        if p in args:
            b[p] = args[p]
    v, st2 = I.run(m, b, st)
    I.become(st, st2)
    return ref


def fld(I, st, ref, name):
    v = I.get_field(st, ref.a[0], name)
    if v is None or v is UNBOUND:
        v = indirect(I, st, ref, name)
    if v is None or v is UNBOUND:
        raise AnchorError("attribute %s not found" % name)
    return v


def indirect(I, st, ref, name):
    """a class-level attribute or a property"""
    k = I.objkind(st, ref.a[0])
    if not isinstance(k, tuple) or k[1] not in I.prog.nodes:
        return None
    node = I.prog.nodes[k[1]]
    m = I.prog.find_method(node, name)
    if m is not None:
        if any(ast.unparse(d).split(".")[-1] in ("property", "cached_property") for d in m.decorator_list):
            from .checks.common import callv

            return callv(I, st, mk("bound", mk("func", m._tid), ref), [], {}, m)
        return None
    return I.class_attr(node, name, st)


def populate(I, st, M, settings=True, forces=True, steps=None):
    """arbitrary user input"""
    for h, fs in HANDLERS.items():
        ref = fld(I, st, M, h)
        if ref.op != "ref":
            raise AnchorError("Model.%s is not an object" % h)
        loc = ref.a[0]
        for key in [k for k in st.s if len(k) == 3 and k[0] == loc and k[1] == "."]:
            if key[2] not in fs:
                st.s[key] = tm.mk("unk", "handler." + key[2])
        for f, c in fs.items():
            if h == "ExtForces" and not forces:
                continue
            st.s[(loc, ".", f)] = I.new_array(st, c) if c is not None else NONE
    if settings:
        ref = fld(I, st, M, "Settings")
        loc = ref.a[0]
        for f, k in SETK.items():
            if f == "log":
                continue
            st.s[(loc, ".", f)] = setting(f, k) if f != "nsteps" or steps is None else const(steps)
    return M


def setting(f, k=None):
    k = k or SETK[f]
    t = sym("Settings." + f, k)
    if k == "bool":
        return tm.mkbool(tm.batom(mk("truthy", t)))
    return t


# ------------------------------------------------------------------ build
UVALS = asym("BC", (nn, THREE), "int")
FORCES = asym("F", (nn, mul(THREE, nsteps)))
tm.NONNEG.add(nsteps)
DOF1 = asym("DOF1", (n1,), "int")
n0 = dim("n0")
tm.NONNEG.add(n0)
DOF0 = asym("DOF0", (n0,), "int")
ar.UNIQUE.add(DOF1)
ar.UNIQUE.add(DOF0)


def fix_contracts(I, steps=None):
    """completion of the input by build(): decided separately by C16"""
    from . import lib

    lib.SORTED.add(LABN)
    out = {}
    for h, m, fs in (("NodeHandler", "fix_nodes", (("labels", LABN), ("coords", COORDS))),
                     ("BoundaryHandler", "fix_bounds_U", (("Unodes", LABN), ("Uvalues", UVALS))),
                     ("ExternalForceHandler", "fix_forces", (("nodes", LABN), ("forces", FORCES if steps is None else asym("F", (nn, const(3 * steps))))))):
        d = I.prog.public("trusspy.handlers." + h)
        if d is None:
            continue
        f = I.prog.find_method(d[1], m)
        if f is None:
            continue

        def h_(I, st, b, n, f=f, fs=fs, m=m):
            me = b[f.args.args[0].arg]
            if me.op != "ref":
                return None
            I.ev("fixcall", st, n, name=m, args=[b.get(a.arg) for a in f.args.args[1:]])
            for name, c in fs:
                I.set_field(st, me.a[0], name, I.new_array(st, c), n)
            return NONE

        out[f._tid] = h_
    return out


class World:
    pass


def built(prog, log=None, logfile=None, steps=None, over=None):
    """state after Model(); arbitrary input; Model.build()"""
    I = im.Interp(prog)
    I.contracts.update(fix_contracts(I, steps))
    st = im.State()
    M = new_model(I, st, log, logfile)
    populate(I, st, M, steps=steps)
    for f, v in (over or {}).items():
        st.s[(fld(I, st, M, "Settings").a[0], ".", f)] = v
    n_ev = len(I.events)
    cls = public(prog, "trusspy.Model")
    b = method(prog, cls, "build")
    v, st = I.run(b, {b.args.args[0].arg: M}, st)
    w = World()
    w.I, w.M, w.st, w.cls = I, M, st, cls
    w.build_events = I.events[n_ev:]
    return w


ANALYSIS = {"U": ("arr", (nn, THREE)), "U0": ("arr", (nn, THREE)), "r": ("arr", (nn, THREE)), "g": ("arr", (nn, THREE)),
            "K": ("arr", (nn, nn, THREE, THREE)), "stretch": ("arr", (ne, ONE)), "element_force": ("arr", (ne, ONE)),
            "element_stress": ("arr", (ne, ONE)), "element_stress0": ("arr", (ne, ONE)), "Ured": ("arr", (n1,)), "rred": ("arr", (n1,)),
            "state_v": ("arr", (ne, const(2)))}


def array_loc(I, st, t):
    """location of an array value stored directly or under a gate"""
    if t.op == "ref" and I.objkind(st, t.a[0]) == "arr":
        return [t.a[0]]
    if t.op == "ite":
        return array_loc(I, st, t.a[1]) + array_loc(I, st, t.a[2])
    return []


def generalise(w):
    """after build: active DOF list and the current solution are arbitrary"""
    I, st, M = w.I, w.st, w.M
    w.build_pc = st.pc
    st.pc = 1
    A = fld(I, st, M, "Analysis")
    w.A = A
    sub = {}
    for name, (t, d) in (("DOF1", (DOF1, n1)), ("DOF0", (DOF0, n0))):
        v = fld(I, st, A, name)
        c = I.num(st, v)
        s = ar.shape(c)
        sub[c] = t
        if s is not None and len(s) == 1 and s[0].op != "const":
            sub[s[0]] = d
        setattr(w, name + "_term", c)
    if sub:
        for k, v in list(st.s.items()):
            if isinstance(v, T):
                st.s[k] = tm.subst(v, sub)
    for name, (k, shp) in ANALYSIS.items():
        v = I.get_field(st, A.a[0], name)
        if v is None:
            continue
        for loc in array_loc(I, st, v):
            st.s[(loc, "a")] = asym(name, shp)
    return w


# ------------------------------------------------------------------ run with the solver summarised
PFIELDS = ("U", "U0", "r", "g", "K", "stretch", "element_force", "element_stress", "element_stress0", "rred", "state_v", "Kmod", "Kred", "dVmax")


def pf_contract(I, counts):
    """pathfollow(g, dgdx, x, analysis, ...): returns the recorded solutions

    Summary (decided separately by C09/C10/C14): element 0 of both results is
    the start point, element k the k-th recorded one, each an object of its
    own.  ``counts`` is the number of recorded solutions per call.
    """
    f = public(I.prog, "trusspy.solvers.pathfollow")
    from . import lib

    calls = []

    def h(I, st, b, n):
        where = (lib.token(I, n),)
        if where not in calls:
            calls.append(where)
        i = calls.index(where)
        cnt = counts[i] if i < len(counts) else counts[-1]
        I.ev("pathfollow", st, n, args=dict(b), state=st.copy(), index=i)
        params = [a.arg for a in f.args.args]
        A = b[params[3]]
        x = b[params[2]]
        xs = ar.shape(I.num(st, x))
        if A.op != "ref":
            I.note_unk(st, n, "pathfollow argument")
            return None
        xl = add(n1, ONE) if xs is None or len(xs) != 1 else add(xs[0], ONE)
        items = [lib.py_copy(I, A, st, n, True)]
        if cnt == 0:
            return mk("tuple", I.new_array(st, mk("app", "pf.x", "arr", (ONE, xl), const(i))), I.new_list(st, [im.e_(items[0])]))
        for k in range(1, cnt + 1):
            I.path.append(("pf", k))
            r = lib.py_copy(I, A, st, n, True)
            I.path.pop()
            pf_solution(I, st, r, "pf", (const(i), const(k)), xl)
            items.append(r)
        # the live analysis object continues from the last recorded solution
        pf_solution(I, st, A, "pfend", (const(i), const(cnt)), xl)
        res_x = I.new_array(st, mk("app", "pf.x", "arr", (const(cnt + 1), xl), const(i)))
        return mk("tuple", res_x, I.new_list(st, [im.e_(r) for r in items]))

    return f, h


def pf_solution(I, st, r, pre, key, xl):
    for name, (kd, shp) in ANALYSIS.items():
        v = I.get_field(st, r.a[0], name)
        if v is None:
            continue
        c = mk("app", pre + "." + name, "arr", shp, *key)
        if name in ("Ured", "U0"):
            I.st_set_arr(st, r, name, c)
        else:
            for l in array_loc(I, st, v):
                st.s[(l, "a")] = c
    I.st_set_arr(st, r, "Vred", mk("app", pre + ".Vred", "arr", (xl,), *key))
    st.s[(r.a[0], ".", "lpf")] = mk("app", pre + ".lpf", "float", *key)


def _gate_none(self, v):
    return tm.is_none(v)


def st_set_arr(self, st, A, name, c):
    st.s[(A.a[0], ".", name)] = self.new_array(st, c)


im.Interp._gate_none = _gate_none
im.Interp.st_set_arr = st_set_arr


def run_model(w, counts):
    I, M = w.I, w.M
    f, h = pf_contract(I, counts)
    I.contracts[f._tid] = h
    r = method(I.prog, w.cls, "run")
    k = len(I.events)
    w.pre_run = w.st.copy()
    v, st = I.run(r, {r.args.args[0].arg: M}, w.st.copy())
    w.run_events = I.events[k:]
    w.post = st
    return w
