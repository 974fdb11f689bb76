"""Abstract interpreter: builds the gated value graph of a function.

A forward dataflow pass over the syntax tree.  Branches are joined with gates,
loops are solved for their loop-carried values (mu terms) with an optimistic
fixpoint, calls into the package are inlined unless a contract is given.
Nothing of the analysed program is executed.
"""
import ast
import string

from . import arrays as ar
from . import terms as tm
from .arrays import FULL, at, dimval, mkslice, shape, unk
from .front import clsT, funcT
from .terms import (
    FALSE, NONE, ONE, T, TRUE, UNBOUND, ZERO, add, asbdd, band, bite, bnot, bor, brestrict, bsupport, const,
    const_poly, cval, div, is_const, is_none, ite, kind, mk, mkbool, mul, neg, powi, restrict, sub, subst, to_poly,
    truthy,
)


class Bail(Exception):
    """analysis limit reached"""


class State:
    __slots__ = ("s", "pc")

    def __init__(self, s=None, pc=1):
        self.s = s if s is not None else {}
        self.pc = pc

    def copy(self):
        return State(dict(self.s), self.pc)

    @property
    def dead(self):
        return self.pc == 0


class Frame:
    def __init__(self, fid, module, node, parent=None, cls=None):
        self.fid = fid
        self.module = module
        self.node = node
        self.parent = parent
        self.cls = cls
        self.locals = local_names(node) if node is not None else set()
        self.globals = set()
        self.captured = False


_ln = {}


def local_names(node):
    r = _ln.get(node)
    if r is not None:
        return r
    out = set()
    nonl = set()
    if isinstance(node, (ast.FunctionDef, ast.Lambda)):
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            out.add(x.arg)
        if a.vararg:
            out.add(a.vararg.arg)
        if a.kwarg:
            out.add(a.kwarg.arg)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # walrus targets only
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    out.add(c.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            nonl.update(n.names)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name).split(".")[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)

    if node is not None:
        body = node.body if isinstance(node.body, list) else [node.body]
        for s in body:
            visit(s)
    out -= nonl
    _ln[node] = out
    return out


class Peel(Exception):
    """a loop variable is None before the first iteration only"""


class Event:
    def __init__(self, kind, pc, node, loops, path, data, fn):
        self.kind = kind
        self.pc = pc
        self.node = node
        self.loops = loops
        self.path = path
        self.data = data
        self.fn = fn
        self.st = None

    def __repr__(self):
        return "<%s %s pc=%s>" % (self.kind, {k: v for k, v in self.data.items() if k != "st"}, tm.bshow(self.pc))


class LoopCtx:
    def __init__(self, lid, k, N):
        self.lid = lid
        self.k = k
        self.N = N
        self.breaks = []
        self.conts = []


class LoopInfo:
    pass


def external_base(prog, c):
    """does a class have bases that are not analysed?"""
    try:
        m = c._mod
        for b in c.bases:
            d = ast.unparse(b).split("[")[0]
            if d == "object":
                continue
            k = next((x for x in ast.walk(m.tree) if isinstance(x, ast.ClassDef) and x.name == d), None)
            if k is None or external_base(prog, k):
                return True
        return bool(c.keywords)
    except AttributeError:
        return True


class FnCtx:
    def __init__(self, frame):
        self.frame = frame
        self.returns = []
        self.loops = []


_norm_parts = None


def mklist(parts):
    """normalised list content"""
    out = []
    for p in parts:
        if p.op == "seg" and p.a[1] is ZERO:
            continue
        out.append(p)
        # fold seg(count=c, items) + items[c]
        changed = True
        while changed:
            changed = False
            for i, q in enumerate(out):
                if q.op == "seg" and len(q.a[2]) and len(out) - i - 1 == len(q.a[2]):
                    items = [subst(x, {q.a[0]: q.a[1]}) for x in q.a[2]]
                    if all(x is y for x, y in zip(items, out[i + 1:])):
                        out[i:] = [mk("seg", q.a[0], add(q.a[1], ONE), q.a[2])]
                        changed = True
                        break
    return mk("list", *out)


def e_(x):
    return mk("e", x)


def made_here(loc):
    return isinstance(loc, tuple) and loc and loc[0] in ("n", "cp", "sc")


def skeleton(loc):
    """(location with its loop counters removed, the counters)"""
    ts = []

    def go(x):
        if isinstance(x, tuple):
            if x and x[0] == "n":
                ts.extend(x[2:])
                return ("n", x[1], len(x) - 2)
            return tuple(go(y) for y in x)
        if isinstance(x, T) and x.op == "tok":
            ts.extend(x.a[2:])
            return ("tok",) + x.a[:2] + (len(x.a) - 2,)
        return x

    return go(loc), ts


_HT = {}


def has_term(loc, k):
    r = _HT.get((loc, k))
    if r is None:
        def go(x):
            if isinstance(x, tuple):
                return any(go(y) for y in x)
            if isinstance(x, T):
                return k in tm.walk(x)
            return False

        r = _HT[(loc, k)] = go(loc)
    return r


ERREXC = {"unbound": ("UnboundLocalError", "NameError"), "undefined": ("NameError",), "attribute": ("AttributeError",), "none-attr": ("AttributeError",),
          "unpack": ("ValueError", "TypeError"), "import": ("ImportError", "AttributeError"), "ambiguous": ("ValueError",)}
UNROLL = [8]  # loops with at most so many known items are followed item by item


def mkseg(b, n, items):
    c = dimval(n)
    if c is not None and c <= max(6, UNROLL[0] - 2):
        out = []
        for i in range(c):
            out += [subst(x, {b: const(i)}) for x in items]
        return out
    return [mk("seg", b, n, tuple(items))]


tm._REB["list"] = lambda *p: mklist([q for x in p for q in (_flat_part(x))])


def _flat_part(x):
    if x.op == "seg":
        return mkseg(*x.a)
    return [x]


tm._REB["seg"] = lambda b, n, it: mk("seg", b, n, it)
tm._REB["e"] = lambda x: mk("e", x)


INTERPS = []
COVER = set()  # statements that were analysed


class Interp:
    def __init__(self, prog, schema=None, contracts=None, lib=None):
        from . import lib as libmod

        self.prog = prog
        self.schema = schema
        self.contracts = contracts or {}
        self.lib = libmod
        self.events = []
        self.loopinfo = {}
        self.path = []
        self.fstack = []
        self.loopstack = []
        self.raises = [[]]
        self.trystack = []
        self.faults = False  # consider an exception in every statement that can raise one
        self.nfaults = 0
        self.nalloc = 0
        self.frames = {}
        self.nfid = 0
        self.muted = 0
        self.steps = 0
        self.max_steps = 400000
        self.unmodelled = []
        self.opaque = None
        self.generic = {}
        self.analysed = set()
        self.callcount = 0
        self.octr = {}
        self.murescache = {}
        self.serial = len(INTERPS)
        INTERPS.append(self)
        self.nrun = 0
        self.results = []  # (function, value) of the analysed top-level calls
        self.finals = []  # states after them

    # ------------------------------------------------------------- events
    def ev(self, kind, st, node, **data):
        if self.muted:
            return None
        e = Event(kind, st.pc, node, tuple((l.lid, l.k) for l in self.loopstack), tuple(self.path), data,
                  self.fstack[-1].frame.node if self.fstack else None)
        e.counts = tuple(l.N for l in self.loopstack)
        self.events.append(e)
        return e

    def err(self, st, node, what, detail):
        excs = ERREXC.get(what, ("TypeError",))
        caught = any(self._pick_handler(hs, x) is not None for hs in self.trystack for x in excs)
        self.ev("error", st, node, what=what, detail=detail, caught=caught)

    def note_unk(self, st, node, what):
        if not self.muted:
            self.unmodelled.append((what, getattr(node, "lineno", 0), getattr(getattr(node, "_mod", None), "name", "?")))

    # ------------------------------------------------------------- heap
    def alloc(self, tag=None):
        self.nalloc += 1
        ks = [l.k for l in self.loopstack if l.k is not ZERO]
        if ks:
            # an object created in a loop: one location per iteration
            loc = ("n", self.nalloc) + tuple(ks)
            self.register(loc)
            return loc
        return self.nalloc

    # objects created per loop iteration are stored once, indexed by the loop counters
    def register(self, loc):
        if isinstance(loc, tuple):
            sk, ts = skeleton(loc)
            if ts and sk not in self.generic:
                self.generic[sk] = (loc, ts)
            elif ts and self.generic[sk][1] != ts and all(t.op == "ctr" for t in ts):
                self.generic[sk] = (loc, ts)

    def generic_get(self, st, loc, rest):
        if not isinstance(loc, tuple) or loc[0] not in ("n", "cp", "sc"):
            return None
        sk, ts = skeleton(loc)
        if not ts:
            return None
        g = self.generic.get(sk)
        if g is None or g[0] == loc:
            return None
        v = st.s.get((g[0],) + rest)
        if isinstance(v, T):
            m = {a: b for a, b in zip(g[1], ts) if a is not b}
            v = subst(v, m)
        return v

    def sch(self, what, loc, *a):
        """schema-backed value of a symbolic object (or of a copy of one)"""
        if self.schema is None or not isinstance(loc, tuple) or not loc:
            return None
        if loc[0] == "cp":
            v = self.sch(what, loc[2], *a)
            if isinstance(v, T):
                return self.lib.CopyMap(loc[1]).term(v)
            return v
        if loc[0] == "sc":
            return self.sch(what, loc[2], *a)
        if loc[0] in ("n", "mu"):
            return None
        return getattr(self.schema, what)(loc, *a)

    def new_array(self, st, content):
        loc = self.alloc()
        st.s[(loc, "k")] = "arr"
        st.s[(loc, "a")] = content
        return mk("ref", loc, ())

    def new_list(self, st, parts, loc=None):
        loc = loc if loc is not None else self.alloc()
        st.s[(loc, "k")] = "list"
        st.s[(loc, "l")] = mklist(parts)
        return mk("ref", loc, ())

    def new_dict(self, st, items, loc=None):
        loc = loc if loc is not None else self.alloc()
        st.s[(loc, "k")] = "dict"
        st.s[(loc, "d")] = mk("dict", *items)
        return mk("ref", loc, ())

    def new_inst(self, st, cls, loc=None):
        loc = loc if loc is not None else self.alloc()
        st.s[(loc, "k")] = ("inst", cls)
        return mk("ref", loc, ())

    def objkind(self, st, loc):
        k = st.s.get((loc, "k"))
        if k is None and not isinstance(loc, int):
            k = self.generic_get(st, loc, ("k",))
            if k is None:
                k = self.sch("objkind", loc)
        return k

    def tkind(self, st, t):
        """'arr','list','dict',('inst',cls), or scalar kind"""
        if t.op == "ref":
            return self.objkind(st, t.a[0]) or "obj"
        if t.op in ("tuple",):
            return "tuple"
        s = shape(t)
        if s is not None and len(s) > 0:
            return "arr"
        return kind(t)

    def base_content(self, st, loc):
        c = st.s.get((loc, "a"))
        if c is None and not isinstance(loc, int):
            c = self.generic_get(st, loc, ("a",))
            if c is None:
                c = self.sch("content", loc)
        return c

    def content(self, st, ref):
        loc, path = ref.a
        c = self.base_content(st, loc)
        if c is None:
            return unk("content", ref)
        for p in path:
            c = self.apply_view(c, p)
        return c

    def apply_view(self, c, p):
        if p[0] == "get":
            return mk("get", c, p[1])
        if p[0] == "reshape":
            return self.lib.reshape_term(c, p[1])
        if p[0] == "transpose":
            return mk("transpose", c, p[1])
        raise Bail("view")

    def view_store(self, base, path, key, val):
        if not path:
            if key is None:
                return self.bcast_to(base, val)
            return mk("upd", base, key, val)
        p = path[0]
        inner = self.apply_view(base, p)
        new = self.view_store(inner, path[1:], key, val)
        if p[0] == "get":
            return mk("upd", base, p[1], new)
        if p[0] == "reshape":
            return mk("reshape", new, shape(base)) if shape(base) is not None else unk("reshape-store")
        if p[0] == "transpose":
            perm = p[1] or tuple(reversed(range(len(shape(base) or ()))))
            invp = tuple(perm.index(i) for i in range(len(perm)))
            return mk("transpose", new, invp)

    def bcast_to(self, base, val):
        s = shape(base)
        sv = shape(val)
        if s is not None and sv is not None and s == sv:
            return val
        if s is not None:
            return mk("upd", base, tuple([FULL] * len(s)), val)
        return val

    def store_array(self, st, ref, key, val, node=None):
        """in-place store A[key] = val (key None: whole)"""
        loc, path = ref.a
        base = self.base_content(st, loc)
        if base is None:
            base = unk("content", ref)
        dt = ar.dtype(base)
        if dt in ("int", "float32"):
            val = ar.narrow(val, dt)
        new = self.view_store(base, path, key, val)
        st.s[(loc, "a")] = new
        self.ev("store", st, node, loc=loc, field="a", value=new, old=base, key=key, val=val, ref=ref)

    # fields
    def get_field(self, st, loc, name):
        v = st.s.get((loc, ".", name))
        if v is None and not isinstance(loc, int):
            v = self.generic_get(st, loc, (".", name))
            if v is None:
                v = self.sch("field", loc, name)
        return v

    def set_field(self, st, loc, name, v, node=None):
        old = self.get_field(st, loc, name)
        st.s[(loc, ".", name)] = v
        self.ev("store", st, node, loc=loc, field=name, value=v, old=old)

    def num(self, st, t):
        """operand content"""
        if t.op == "ref":
            k = self.objkind(st, t.a[0])
            if k == "arr":
                return self.content(st, t)
            if k == "list":
                return mk("npa", self.deep_list(st, t), "dyn")
            return t
        if t.op == "tuple" :
            return mk("npa", self.deep_list(st, t), "dyn")
        if t.op == "extv" and t.a[0] == "sparse":
            return t.a[1]
        if t.op == "ite":
            x, y = self.num(st, t.a[1]), self.num(st, t.a[2])
            return ite(t.a[0], x, y)
        return t

    def deep_list(self, st, t):
        """pure term of a list/tuple value (refs replaced by contents)"""
        if t.op == "ref":
            k = self.objkind(st, t.a[0])
            if k == "arr":
                return self.content(st, t)
            if k == "list":
                l = self.list_content(st, t)
                if l.op == "list":
                    ps = []
                    for p in l.a:
                        if p.op == "e":
                            ps.append(e_(self.deep_list(st, p.a[0])))
                        elif p.op == "seg":
                            ps.append(mk("seg", p.a[0], p.a[1], tuple(e_(self.deep_list(st, q.a[0])) if q.op == "e" else q for q in p.a[2])))
                        else:
                            ps.append(p)
                    if all(p.op == "e" for p in ps):
                        return mk("tuple", *[p.a[0] for p in ps])
                    return mk("list", *ps)
                return l
            return t
        if t.op == "tuple":
            return mk("tuple", *[self.deep_list(st, x) for x in t.a])
        if t.op == "ite":
            return ite(t.a[0], self.deep_list(st, t.a[1]), self.deep_list(st, t.a[2]))
        return t

    def wrap(self, st, term):
        s = shape(term)
        if s is not None and len(s) > 0:
            return self.new_array(st, term)
        if s == ():
            return at(term, [])
        return term

    def dictc(self, st, loc):
        d = st.s.get((loc, "d"))
        if d is None and not isinstance(loc, int):
            d = self.generic_get(st, loc, ("d",))
        return d

    def list_content(self, st, ref):
        l = st.s.get((ref.a[0], "l"))
        if l is None and not isinstance(ref.a[0], int):
            l = self.generic_get(st, ref.a[0], ("l",))
            if l is None:
                l = self.sch("listcontent", ref.a[0])
        return l if l is not None else mk("list", mk("unkpart", ref))

    def set_list(self, st, ref, content, node=None, what="set", val=None):
        old = self.list_content(st, ref)
        st.s[(ref.a[0], "l")] = content
        self.ev("store", st, node, loc=ref.a[0], field="l", value=content, old=old, what=what, val=val)

    # ------------------------------------------------------------- joins
    def join(self, states):
        states = [s for s in states if s is not None and s.pc != 0]
        if not states:
            return State({}, 0)
        acc = states[0]
        for s in states[1:]:
            acc = self.join2(acc, s)
        return acc

    def join2(self, a, b):
        g = brestrict(a.pc, bor(a.pc, b.pc))
        out = dict(b.s)
        A, B = a.s, b.s
        for k, v in A.items():
            w = B.get(k)
            if w is v:
                continue
            if w is None:
                out[k] = self._join_missing(k, g, v, a, b)
                continue
            out[k] = self._join_val(k, g, v, w)
        for k, w in B.items():
            if k not in A:
                out[k] = self._join_missing(k, bnot(g), w, b, a)
        return State(out, bor(a.pc, b.pc))

    def _join_val(self, k, g, v, w):
        if not isinstance(v, T) or not isinstance(w, T):
            return v
        if v.op == "list" and w.op == "list" and len(v.a) == len(w.a):
            return mklist([p if p is q else (e_(ite(g, p.a[0], q.a[0])) if p.op == "e" and q.op == "e" else mk("itepart", g, p, q)) for p, q in zip(v.a, w.a)])
        return ite(g, v, w)

    def _join_missing(self, k, g, v, has, hasnot):
        """k present in `has` only"""
        if not isinstance(v, T):
            return v
        if len(k) == 2 and k[1] in ("a", "l", "d", "k"):
            loc = k[0]
            d = None
            if not isinstance(loc, int) and not made_here(loc):
                d = self.sch("content", loc) if k[1] == "a" else self.sch("listcontent", loc) if k[1] == "l" else None
            return v if d is None else self._join_val(k, g, v, d)
        if len(k) == 3 and k[1] == ".":
            loc = k[0]
            if (loc, "k") in hasnot.s or not (isinstance(loc, int) or made_here(loc)):
                d = self.sch("field", loc, k[2])
                return ite(g, v, d if d is not None else UNBOUND)
            return v
        return ite(g, v, UNBOUND)

    def fork(self, st, cond):
        a = st.copy()
        b = st.copy()
        a.pc = band(st.pc, cond)
        b.pc = band(st.pc, bnot(cond))
        return a, b

    def become(self, st, other):
        st.s = other.s
        st.pc = other.pc

    def split(self, st, cond, fa, fb):
        """evaluate fa under cond and fb otherwise, join, return joined value"""
        cond = brestrict(cond, st.pc) if st.pc > 1 else cond
        if cond == 1:
            return fa(st)
        if cond == 0:
            return fb(st)
        a, b = self.fork(st, cond)
        if a.pc == 0:
            return fb(st)
        if b.pc == 0:
            return fa(st)
        va = fa(a)
        vb = fb(b)
        self.become(st, self.join([a, b]))
        if a.pc == 0:
            return vb
        if b.pc == 0:
            return va
        g = brestrict(a.pc, st.pc)
        return ite(g, va, vb)

    def raise_(self, st, exc, node):
        """the current path raises"""
        self.raises[-1].append((st.copy(), exc, node, len(self.loopstack)))
        self.ev("raise", st, node, exc=exc)
        st.pc = 0

    # ------------------------------------------------------------- statements
    def block(self, body, st):
        for s in body:
            if st.pc == 0:
                return
            self.stmt(s, st)

    def stmt(self, n, st):
        self.steps += 1
        COVER.add(n)
        if self.steps > self.max_steps:
            raise Bail("step limit")
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            self.note_unk(st, n, "stmt " + type(n).__name__)
            return
        if self.faults and not self.muted and may_fail(n):
            # an operation of this statement raises
            self.raises[-1].append((st.copy(), "Exception", n, len(self.loopstack)))
            self.nfaults += 1
        m(n, st)

    def s_Expr(self, n, st):
        self.eval(n.value, st)

    def s_Pass(self, n, st):
        pass

    def s_Import(self, n, st):
        fr = self.fstack[-1].frame
        for a in n.names:
            name = a.asname or a.name.split(".")[0]
            full = a.name if a.asname else a.name.split(".")[0]
            if full in self.prog.modules:
                st.s[(fr.fid, name)] = mk("mod", full)
            else:
                st.s[(fr.fid, name)] = mk("ext", full)

    def s_ImportFrom(self, n, st):
        fr = self.fstack[-1].frame
        base = self.prog._resolve_from(fr.module, n)
        for a in n.names:
            d = self.prog.lookup(base, a.name) if base in self.prog.modules else ("ext", base + "." + a.name)
            st.s[(fr.fid, a.asname or a.name)] = self.def_value(d, st)

    def s_FunctionDef(self, n, st):
        fr = self.fstack[-1].frame
        fr.captured = True
        for d in n.decorator_list:
            if ast.unparse(d).split("(")[0].split(".")[-1] not in PLAINDECO:
                self.note_unk(st, n, "decorator")
        self._nested_defaults(n, st)
        st.s[(fr.fid, n.name)] = mk("clo", n._tid, fr.fid)

    def _nested_defaults(self, n, st):
        fr = self.fstack[-1].frame
        a = n.args
        for x in list(a.defaults) + [d for d in a.kw_defaults if d is not None]:
            st.s[(fr.fid, "#dflt", x._tid)] = self.eval(x, st)

    def s_ClassDef(self, n, st):
        fr = self.fstack[-1].frame
        st.s[(fr.fid, n.name)] = clsT(n)

    def s_Global(self, n, st):
        self.fstack[-1].frame.globals.update(n.names)

    def s_Nonlocal(self, n, st):
        pass

    def s_Return(self, n, st):
        v = self.eval(n.value, st) if n.value is not None else NONE
        if st.pc == 0:
            return
        self.fstack[-1].returns.append((st.copy(), v, len(self.loopstack)))
        st.pc = 0

    def s_Assign(self, n, st):
        v = self.eval(n.value, st)
        if st.pc == 0:
            return
        for t in n.targets:
            self.assign(t, v, st)

    def s_AnnAssign(self, n, st):
        if n.value is not None:
            v = self.eval(n.value, st)
            if st.pc:
                self.assign(n.target, v, st)

    def s_AugAssign(self, n, st):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.eval_name(t, st)
            v = self.eval(n.value, st)
            if st.pc == 0:
                return
            if self.inplace(n.op, cur, v, st, n):
                return
            self.assign(t, self.binop(n.op, cur, v, st, n), st)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            cur = self.getattr(b, t.attr, st, t)
            v = self.eval(n.value, st)
            if st.pc == 0:
                return
            if self.inplace(n.op, cur, v, st, n):
                return
            self.setattr(b, t.attr, self.binop(n.op, cur, v, st, n), st, t)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st)
            key = self.eval_key(t.slice, st)
            cur = self.getitem(b, key, st, t)
            v = self.eval(n.value, st)
            if st.pc == 0:
                return
            # value semantics: A[k] = A[k] op v
            if cur.op == "ref" and self.objkind(st, cur.a[0]) == "list" and isinstance(n.op, ast.Add):
                self.inplace(n.op, cur, v, st, n)
                return
            nv = self.binop(n.op, cur, v, st, n)
            self.setitem(b, key, nv, st, t, aug=(type(n.op).__name__, v))
        else:
            self.note_unk(st, n, "augassign")

    def inplace(self, op, cur, v, st, n):
        """in-place operator on a mutable object; True when handled"""
        if cur.op == "ite" and any(x.op == "ref" for x in (cur.a[1], cur.a[2])):
            g = cur.a[0]
            a, b = self.fork(st, g)
            oka = self.inplace(op, cur.a[1], v, a, n)
            okb = self.inplace(op, cur.a[2], v, b, n)
            if oka and okb:
                self.become(st, self.join([a, b]))
                return True
            return False
        if cur.op != "ref":
            return False
        k = self.objkind(st, cur.a[0])
        if k == "arr":
            nv = self.lib.arith(self, type(op).__name__, self.content(st, cur), self.num(st, v), st, n)
            self.store_array(st, cur, None, nv, n)
            return True
        if k == "list" and isinstance(op, ast.Add):
            self.lib.list_extend(self, st, cur, v, n)
            return True
        return False

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.bind_name(t.id, v, st, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, t)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            if st.pc:
                self.setattr(b, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st)
            key = self.eval_key(t.slice, st)
            if st.pc:
                self.setitem(b, key, v, st, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            self.note_unk(st, t, "assign")

    def bind_name(self, name, v, st, node=None):
        fr = self.fstack[-1].frame
        if name in fr.globals:
            st.s[("g", fr.module.name, name)] = v
            self.ev("store", st, node, loc=("g", fr.module.name, name), field="global", value=v, old=None)
            return
        f = fr
        if name not in fr.locals and fr.parent is not None:
            p = fr.parent
            while p is not None:
                if name in p.locals:
                    f = p
                    break
                p = p.parent
        st.s[(f.fid, name)] = v

    def unpack(self, elts, v, st, node):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if v.op == "ite" and v.a[1].op == "tuple" and v.a[2].op == "tuple" and not star:
            if len(v.a[1].a) == len(v.a[2].a) == n:
                v = mk("tuple", *[ite(v.a[0], p, q) for p, q in zip(v.a[1].a, v.a[2].a)])
        items = self.iter_known(v, st)
        if items is not None:
            if star:
                i = star[0]
                rest = n - i - 1
                mid = items[i: len(items) - rest]
                vals = items[:i] + [self.new_list(st, [e_(x) for x in mid])] + (items[len(items) - rest:] if rest else [])
            else:
                vals = items
                if len(items) != n:
                    self.err(st, node, "unpack", "cannot unpack %d values into %d names" % (len(items), n))
                    self.raise_(st, "ValueError", node)
                    return
            for e, x in zip(elts, vals):
                self.assign(e, x, st)
            return
        if v is NONE:
            self.err(st, node, "unpack", "cannot unpack None")
            self.raise_(st, "TypeError", node)
            return
        w = self.single(v, st)
        if w:
            self.err(st, node, "unpack", "cannot unpack %s" % w)
            self.raise_(st, "TypeError", node)
            return
        for i, e in enumerate(elts):
            self.assign(e, self.getitem(v, const(i), st, node), st)

    def single(self, v, st):
        """name of the kind of a value that cannot be iterated, or None"""
        if v.op == "ref":
            k = self.objkind(st, v.a[0])
            if isinstance(k, tuple) and k[0] == "inst" and k[1] in self.prog.nodes:
                c = self.prog.nodes[k[1]]
                if not any(self.prog.find_method(c, m) for m in ("__iter__", "__getitem__", "__getattr__")) and not external_base(self.prog, c):
                    return "an object of class " + c.name
            return None
        if v.op in ("const", "poly") and kind(v) in ("int", "float", "bool"):
            return "a number"
        return None

    def iter_known(self, v, st):
        """list of items when the iterable has a statically known, small length"""
        if v.op == "tuple":
            return list(v.a)
        if v.op == "const" and isinstance(cval(v), str):
            return [const(c) for c in cval(v)]
        if v.op == "ref":
            k = self.objkind(st, v.a[0])
            if k == "list":
                l = self.list_content(st, v)
                if l.op == "list" and all(p.op == "e" for p in l.a):
                    return [p.a[0] for p in l.a]
                return None
            if k == "dict":
                d = self.dictc(st, v.a[0])
                return [p.a[0] for p in d.a] if d is not None and d.op == "dict" else None
            if k == "arr":
                s = shape(self.content(st, v))
                if s is not None and len(s) >= 1:
                    c = dimval(s[0])
                    if c is not None and c <= UNROLL[0]:
                        return [self.getitem(v, const(i), st, None) for i in range(c)]
            return None
        if v.op == "iterv":
            return self.lib.iter_items(self, v, st)
        s = shape(v)
        if s is not None and len(s) >= 1:
            c = dimval(s[0])
            if c is not None and c <= UNROLL[0]:
                return [self.getitem(v, const(i), st, None) for i in range(c)]
        return None

    def s_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.s[(self.fstack[-1].frame.fid, t.id)] = UNBOUND
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st)
                key = self.eval_key(t.slice, st)
                self.lib.delitem(self, st, b, key, t)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, st)
                if b.op == "ref":
                    self.set_field(st, b.a[0], t.attr, UNBOUND, t)

    def s_Assert(self, n, st):
        c = self.cond(n.test, st)
        a, b = self.fork(st, c)
        if b.pc:
            self.raise_(b, "AssertionError", n)
        self.become(st, a)

    def s_If(self, n, st):
        c = self.cond(n.test, st)
        if st.pc == 0:
            return
        c = brestrict(c, st.pc) if st.pc > 1 else c
        if c == 1:
            return self.block(n.body, st)
        if c == 0:
            return self.block(n.orelse, st)
        a, b = self.fork(st, c)
        self.refine(n.test, a, True)
        self.refine(n.test, b, False)
        self.block(n.body, a)
        self.block(n.orelse, b)
        self.become(st, self.join([a, b]))

    def refine(self, test, st, val):
        """simplify values of names under the branch condition (cheap: gates of locals)"""
        return

    def s_Raise(self, n, st):
        exc = "Exception"
        if n.exc is not None:
            e = n.exc
            if isinstance(e, ast.Call):
                for x in e.args:
                    self.eval(x, st)
                e = e.func
            exc = ast.unparse(e)
        self.raise_(st, exc, n)

    def s_Break(self, n, st):
        self.loopstack[-1].breaks.append(st.copy())
        st.pc = 0

    def s_Continue(self, n, st):
        self.loopstack[-1].conts.append(st.copy())
        st.pc = 0

    def s_With(self, n, st):
        self.with_items(list(n.items), n, st)

    def with_items(self, items, n, st):
        if not items:
            return self.block(n.body, st)
        it = items[0]
        v = self.eval(it.context_expr, st)
        r = v
        exit_ = None
        if v.op == "ref":
            k = self.objkind(st, v.a[0])
            if isinstance(k, tuple):
                cls = self.prog.nodes[k[1]]
                m = self.prog.find_method(cls, "__enter__")
                if m is not None:
                    r = self.call_func(m, [v], {}, st, n)
                x = self.prog.find_method(cls, "__exit__")
                if x is not None:
                    exit_ = lambda s, exc: self.call_func(x, [v, exc, exc, exc], {}, s, n)
        elif v.op == "extv" and v.a[0] == "redirect":
            old = self.lib.ext_attr(self, mk("ext", "sys"), v.a[1], st, n)
            st.s[("x", "sys." + v.a[1])] = v.a[2]
            self.ev("extset", st, n, target="sys." + v.a[1], value=v.a[2])
            r = v.a[2]

            def exit_(s, exc):
                s.s[("x", "sys." + v.a[1])] = old
                return FALSE
        elif v.op == "extv" and v.a[0] == "ctxgen":
            return self.with_generator(it, v, items, n, st)
        else:
            self.ev("with", st, n, value=v)
            r = self.lib.with_enter(self, st, v, n)
            if v.op not in ("extv", "unk") or not str(v.a[0]).startswith(CTXOK):
                self.note_unk(st, n, "with " + tm.show(v, 3)[:60])
        if it.optional_vars is not None:
            self.assign(it.optional_vars, r, st)
        if exit_ is None:
            return self.with_items(items[1:], n, st)
        fn0 = len(self.fstack[-1].returns)
        self.raises.append([])
        self.with_items(items[1:], n, st)
        rs = self.raises.pop()
        outs = []
        for s_, exc, node, ld in rs:
            r = exit_(s_, mk("exc", exc))
            if s_.pc:
                if r is not None and r is TRUE:
                    outs.append(s_)  # swallowed
                else:
                    self.raises[-1].append((s_, exc, node, ld))
        rets = self.fstack[-1].returns
        for i in range(fn0, len(rets)):
            s_, x_, ld = rets[i]
            exit_(s_, NONE)
        if st.pc:
            exit_(st, NONE)
        if outs:
            self.become(st, self.join([st] + outs))

    def with_generator(self, it, v, items, n, st):
        """body of a context manager written as a generator function: the with block runs at its yield"""
        node = self.prog.nodes[v.a[1]]
        caller, loops = self.fstack[-1], self.loopstack
        nret = len(caller.returns)
        count = [0]

        def at_yield(s, val):
            count[0] += 1
            gen = self.fstack.pop()
            ls, self.loopstack = self.loopstack, loops
            try:
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, val, s)
                self.with_items(items[1:], n, s)
            finally:
                self.fstack.append(gen)
                self.loopstack = ls

        self.enter(node, dict(v.a[2]), st, n, v.a[3], at_yield)
        if count[0] != 1 or len(caller.returns) != nret:
            self.note_unk(st, n, "with generator")

    def s_Try(self, n, st):
        self.raises.append([])
        body = st.copy()
        pre = st.copy()
        fn0 = len(self.fstack[-1].returns)
        self.trystack.append(n.handlers)
        try:
            self.block(n.body, body)
        finally:
            self.trystack.pop()
        rs = self.raises.pop()
        caught, out_raises = [], []
        # raised in a handler or the else block: leaves through the finally block
        self.raises.append([])
        for s_, exc, node, ld in rs:
            h = self._pick_handler(n.handlers, exc)
            if h is None:
                out_raises.append((s_, exc, node, ld))
                continue
            if h.name:
                s_.s[(self.fstack[-1].frame.fid, h.name)] = mk("exc", exc)
            self.block(h.body, s_)
            caught.append(s_)
        if body.pc:
            self.block(n.orelse, body)
        out_raises += self.raises.pop()
        for s_, exc, node, ld in out_raises:
            self.cleanup(n.finalbody, s_)
            if s_.pc:
                self.raises[-1].append((s_, exc, node, ld))
        # returns inside the body also pass through finally
        if n.finalbody:
            rets = self.fstack[-1].returns
            for i in range(fn0, len(rets)):
                s_, v, ld = rets[i]
                self.cleanup(n.finalbody, s_)
        out = self.join([body] + caught)
        self.become(st, out)
        if st.pc:
            self.cleanup(n.finalbody, st)

    def cleanup(self, body, st):
        f, self.faults = self.faults, False  # a failure of the clean-up itself is not considered
        if body:
            self.block(body, st)
        self.faults = f

    def _may_raise(self, body):
        return True

    def _pick_handler(self, hs, exc):
        for h in hs:
            if h.type is None:
                return h
            names = [ast.unparse(x) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
            if "Exception" in names or "BaseException" in names or exc in names:
                return h
            if exc in ("KeyError", "IndexError") and "LookupError" in names:
                return h
        return None

    def s_Match(self, n, st):
        subj = self.eval(n.subject, st)
        rest = st.copy()
        outs = []
        for c in n.cases:
            if rest.pc == 0:
                break
            g = self.pattern(c.pattern, subj, rest)
            if g is None:
                self.note_unk(st, n, "match")
                g = tm.batom(mk("match?", c.pattern._tid if hasattr(c.pattern, "_tid") else n._tid))
            a, b = self.fork(rest, g)
            self._bind_pattern(c.pattern, subj, a)
            if c.guard is not None and a.pc:
                gg = self.cond(c.guard, a)
                a2, b2 = self.fork(a, gg)
                self.block(c.body, a2)
                outs.append(a2)
                b = self.join([b, b2])
            else:
                self.block(c.body, a)
                outs.append(a)
            rest = b
        self.become(st, self.join(outs + [rest]))

    def pattern(self, p, v, st):
        if isinstance(p, ast.MatchValue):
            return self.compare("==", v, self.eval(p.value, st), st, p)
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, const(p.value))
        if isinstance(p, ast.MatchAs):
            return 1 if p.pattern is None else self.pattern(p.pattern, v, st)
        if isinstance(p, ast.MatchOr):
            r = 0
            for q in p.patterns:
                x = self.pattern(q, v, st)
                if x is None:
                    return None
                r = bor(r, x)
            return r
        return None

    def _bind_pattern(self, p, v, st):
        if isinstance(p, ast.MatchAs) and p.name:
            self.bind_name(p.name, v, st, p)

    # ------------------------------------------------------------- loops
    def s_For(self, n, st):
        it = self.eval(n.iter, st)
        if st.pc == 0:
            return
        self.for_over(n, it, st, lambda s, v: self.assign(n.target, v, s), lambda s: self.block(n.body, s),
                      (lambda s: self.block(n.orelse, s)) if n.orelse else None)

    def for_over(self, n, it, st, bind, body, orelse=None):
        items = self.iter_known(it, st)
        if items is not None and len(items) <= UNROLL[0]:
            ctx = LoopCtx(("unroll", n._tid), ZERO, None)
            brk = []
            for i, v in enumerate(items):
                if st.pc == 0:
                    break
                self.path.append(("u", i))
                self.loopstack.append(ctx)
                ctx.conts = []
                ctx.breaks = []
                try:
                    bind(st, v)
                    body(st)
                finally:
                    self.loopstack.pop()
                    self.path.pop()
                brk += ctx.breaks
                self.become(st, self.join([st.copy()] + ctx.conts))
            if orelse and st.pc:
                orelse(st)
            self.become(st, self.join([st.copy()] + brk))
            return
        N, elem, ok = self.lib.iter_domain(self, it, st)
        if not ok:
            self.note_unk(st, n, "iterable " + it.op)
        if N is None:
            self.run_loop(n, st, N, lambda s, k: bind(s, elem(s, k)), body, None, orelse)
            return
        fctx = self.fstack[-1]
        mark = (len(self.events), len(self.unmodelled), self.nalloc, len(fctx.returns), len(self.raises[-1]))
        st1 = st.copy()
        depth = (len(self.loopstack), len(self.path))
        try:
            self.run_loop(n, st, N, lambda s, k: bind(s, elem(s, k)), body, None, orelse, peel=True)
            return
        except Peel:
            del self.loopstack[depth[0]:]
            del self.path[depth[1]:]
        # the first iteration on its own
        del self.events[mark[0]:]
        del self.unmodelled[mark[1]:]
        self.nalloc = mark[2]
        del fctx.returns[mark[3]:]
        del self.raises[-1][mark[4]:]
        self.become(st, st1)
        some = tm.cmp_bdd(">=", N, ONE)
        a, b = st.copy(), st.copy()
        a.pc, b.pc = band(st.pc, some), band(st.pc, bnot(some))
        if a.pc:
            ctx = LoopCtx(("unroll", n._tid), ZERO, None)
            self.path.append(("peel", 0))
            self.loopstack.append(ctx)
            try:
                bind(a, elem(a, ZERO))
                body(a)
            finally:
                self.loopstack.pop()
                self.path.pop()
            a = self.join([a] + ctx.conts)
            self.run_loop(n, a, sub(N, ONE), lambda s, k: bind(s, elem(s, add(k, ONE))), body, None, None)
            a = self.join([a] + ctx.breaks)
        ex = self.join([a, b])
        if orelse and ex.pc:
            orelse(ex)
        self.become(st, ex)

    def s_While(self, n, st):
        if self.unroll_while(n, st):
            return
        self.run_loop(n, st, None, None, lambda s: self.block(n.body, s), lambda s: self.cond(n.test, s),
                      (lambda s: self.block(n.orelse, s)) if n.orelse else None)

    def unroll_while(self, n, st):
        """a while loop whose condition is decided every time, a limited number of times"""
        fctx = self.fstack[-1]
        ev0, un0, alloc0 = len(self.events), len(self.unmodelled), self.nalloc
        ret0, rai0 = len(fctx.returns), len(self.raises[-1])
        s = st.copy()
        ctx = LoopCtx(("unroll", n._tid), ZERO, None)
        brk = []
        ok = False
        for i in range(UNROLL[0] + 1):
            s1 = s.copy()
            c = self.cond(n.test, s1)
            if brestrict(c, s1.pc) == 0 or band(c, s1.pc) == 0:
                s = s1
                ok = i > 0 or True
                break
            if band(s1.pc, bnot(c)) != 0 or i == UNROLL[0]:
                break
            s = s1
            self.path.append(("u", i))
            self.loopstack.append(ctx)
            ctx.conts, ctx.breaks = [], []
            try:
                self.block(n.body, s)
            finally:
                self.loopstack.pop()
                self.path.pop()
            brk += ctx.breaks
            s = self.join([s.copy()] + ctx.conts)
            if s.pc == 0:
                ok = True
                break
            if ctx.breaks:
                break  # an undecided break
        if not ok:
            del self.events[ev0:]
            del self.unmodelled[un0:]
            del fctx.returns[ret0:]
            del self.raises[-1][rai0:]
            self.nalloc = alloc0
            return False
        if n.orelse and s.pc:
            self.block(n.orelse, s)
        self.become(st, self.join([s.copy()] + brk))
        return True

    def run_loop(self, n, st, N, bind, body, cond, orelse, peel=False):
        if st.pc == 0:
            return
        lid = (n._tid, self.serial) + tuple(self.path)
        self.loopinfo.pop(lid, None)
        octr = tuple(l.k for l in self.loopstack if l.k is not ZERO)
        k = mk("ctr", lid, *octr)
        self.octr[lid] = octr
        last = mk("last", lid, *octr)
        if N is not None:
            LOOPN[lid] = N
        ev0 = len(self.events)
        un0 = len(self.unmodelled)
        alloc0 = self.nalloc
        st0 = st.copy()
        fctx = self.fstack[-1]
        ret0 = len(fctx.returns)
        rai0 = len(self.raises[-1])
        mod = {}  # key -> spec
        closed = {}
        care = care0 = 0
        info = LoopInfo()
        zero_pc = None
        if cond is not None:
            s_ = st0.copy()
            c0 = cond(s_)
            st0 = s_
            ev0 = len(self.events)
        final = False
        for it in range(14):
            del self.events[ev0:]
            del self.unmodelled[un0:]
            del fctx.returns[ret0:]
            del self.raises[-1][rai0:]
            self.nalloc = alloc0
            head = st0.copy()
            for key, sp in mod.items():
                self.set_mu(head, st0, key, sp, lid, k, closed)
            headvals = {key: head.s.get(key) for key in mod}
            info.head = head.copy()
            ctx = LoopCtx(lid, k, N)
            chead = 1
            self.loopstack.append(ctx)
            try:
                if cond is not None:
                    self.muted += 1
                    try:
                        chead = cond(head)
                    finally:
                        self.muted -= 1
                    head.pc = band(head.pc, chead)
                if bind is not None and head.pc:
                    bind(head, k)
                body(head)
            finally:
                self.loopstack.pop()
            back = self.join([head] + ctx.conts)
            if back.pc == 0:
                cback = 0
                break
            cback = 1
            if cond is not None:
                self.muted += 1
                self.loopstack.append(ctx)
                try:
                    bc = back.copy()
                    cback = cond(bc)
                finally:
                    self.loopstack.pop()
                    self.muted -= 1
            care0 = brestrict(band(back.pc, cback), st0.pc) if st0.pc > 1 else band(back.pc, cback)
            more = tm.cmp_bdd("<", add(k, ONE), N) if N is not None else 1
            care = band(care0, more)
            if care == 0:
                break
            new = self.find_mods(st0, info.head, back, care, mod, alloc0, lid, k)
            if peel and any(st0.s.get(key) is NONE and isinstance(back.s.get(key), T) and self._refkind(back, restrict(back.s[key], care)) in ("arr", "list") for key in mod) and not ctx.breaks:
                raise Peel()
            if final and not new:
                break
            if not new:
                cf = self.closed_forms(st0, headvals, back, care, mod, lid, k)
                cf = {a: b for a, b in cf.items() if a not in closed}
                if cf:
                    closed.update(cf)
                    continue
                final = True
                break
        else:
            self.note_unk(st, n, "loop fixpoint")
        info.lid, info.k, info.last, info.N = lid, k, last, N
        info.mod, info.closed, info.st0, info.back = mod, closed, st0, back
        info.breaks = ctx.breaks
        info.care = care if back.pc else 0
        info.chead, info.cback = chead, cback
        info.node = n
        info.frame = fctx.frame
        self.loopinfo[lid] = info
        info.octr = octr
        for x in [x for x in self.murescache if x[0] == lid]:
            del self.murescache[x]
        ar._atm.clear()
        # ---- exit states
        nobreak = not ctx.breaks and len(fctx.returns) == ret0
        lastt = last
        if N is not None and not any(s.pc for s in ctx.breaks) and not any(x for x in fctx.returns[ret0:]):
            lastt = sub(N, ONE)
        m = {k: lastt}
        base_keys = st0.s
        exact = set()
        for key in closed:
            vb = back.s.get(key)
            if mod[key]["kind"] not in ("listc", "refarr") and vb is not None and restrict(vb, care) is restrict(vb, care0):
                exact.add(key)

        def leave(s, extra=1, use_closed=False):
            o = State({}, 0)
            atn = {}
            if use_closed and lastt is not last:
                for key, sp in mod.items():
                    if key in closed and sp["kind"] == "refarr":
                        v = s.s.get(key)
                        if v.op == "ref" and v.a[1] == ():
                            atn[(v.a[0], "a")] = closed[key](N)
                    elif key not in closed:
                        self.at_exit(s, key, key, sp, s.s.get(key), lid, N, atn, st0.s.get(key))
            for key, v in s.s.items():
                if key in atn:
                    o.s[key] = atn[key]
                    continue
                if isinstance(key[0], tuple) and has_term(key[0], k):
                    o.s[key] = v
                    continue
                if isinstance(v, T) and base_keys.get(key) is not v:
                    if use_closed and key in exact:
                        v = subst(closed[key](add(k, ONE)), m)
                    else:
                        v = subst(v, m)
                o.s[key] = v
            pc = s.pc
            if chead not in (0, 1):
                pc = brestrict(pc, chead)
            pc = band(pc, extra)
            o.pc = self._bsub(pc, m)
            return o

        nz = 1
        exits = []
        if cond is not None:
            z = st0.copy()
            z.pc = band(st0.pc, bnot(c0))
            nz = c0
        else:
            z = st0.copy()
            zc = tm.cmp_bdd("<=", N, ZERO) if N is not None else 0
            if N is not None and self.dim_positive(N):
                zc = 0
            z.pc = band(st0.pc, zc)
            nz = bnot(zc)
        # returns / raises that leave the loop
        for lst, i0 in ((fctx.returns, ret0), (self.raises[-1], rai0)):
            for i in range(i0, len(lst)):
                tup = lst[i]
                o = leave(tup[0])
                o.pc = band(o.pc, nz)
                if lst is fctx.returns:
                    lst[i] = (o, subst(tup[1], m),) + tuple(tup[2:])
                else:
                    lst[i] = (o,) + tuple(tup[1:])
        exh = []
        if back.pc:
            b = leave(back, bnot(cback) if cond is not None else 1, use_closed=True)
            b.pc = band(b.pc, nz)
            exh.append(b)
            if N is not None and z.pc and b.pc:
                if lastt is not last:
                    for key, sp in mod.items():
                        if key not in closed and sp["kind"] == "arrc":
                            z.s[key] = b.s[key]
                for key in closed:
                    if key in exact:
                        z.s[key] = b.s[key]
                    elif mod[key]["kind"] == "listc":
                        self.merge_zero(key, b, z, N, nz)
                    elif mod[key]["kind"] == "refarr" and lastt is not last and b.s[key].op == "ref":
                        z.s[key] = b.s[key]
                        for q in ("a", "k"):
                            if (b.s[key].a[0], q) in b.s:
                                z.s[(b.s[key].a[0], q)] = b.s[(b.s[key].a[0], q)]
        if z.pc:
            exh.append(z)
        ex = self.join(exh)
        if orelse and ex.pc:
            orelse(ex)
        outs = [ex]
        for b in ctx.breaks:
            o = leave(b)
            o.pc = band(o.pc, nz)
            outs.append(o)
        self.become(st, self.join(outs))
        info.exit = st.copy()

    def at_exit(self, s, key, mkey, sp, v, lid, N, out, v0=None):
        """contents of the arrays a loop builds up, as functions of the trip count"""
        if sp is None or v is None:
            return
        if v0 is UNBOUND:
            return
        if sp["kind"] == "arrc":
            out[key] = self.mkmu(lid, mkey, "arr", N)
        elif sp["kind"] == "refarr":
            if v.op == "ref" and v.a[1] == () and sp.get("shape") is not None:
                out[(v.a[0], "a")] = self.mkmu(lid, mkey, "arr", N)
        elif sp["kind"] == "ite":
            g = sp["gate"]
            v0 = v0 if v0 is not None else NONE
            self.at_exit(s, key, (mkey, "T"), sp["t"], restrict(v, g), lid, N, out, restrict(v0, g))
            self.at_exit(s, key, (mkey, "F"), sp["f"], restrict(v, bnot(g)), lid, N, out, restrict(v0, bnot(g)))

    def resolve_mu(self, t, idx):
        """element of an array built up by a finished loop (sum / last writer), or None"""
        lid, key, kd, kk = t.a[:4]
        info = self.loopinfo.get(lid)
        if info is None or kk.op == "ctr" and kk.a[0] == lid:
            return None
        ck = (lid, key, tuple(idx))
        r = self.murescache.get(ck)
        if r is None:
            self.murescache[ck] = False
            r = self.murescache[ck] = self._resolve_mu(info, lid, key, idx) or False
        if r is False:
            return None
        n, form = r
        m = {a: b for a, b in zip(info.octr, t.a[4:]) if a is not b}
        out = form(kk)
        return subst(out, m) if m else out

    def _resolve_mu(self, info, lid, key, idx):
        path = []
        k0 = key
        while k0 not in info.mod and isinstance(k0, tuple) and len(k0) == 2 and k0[1] in ("T", "F"):
            path.append(k0[1])
            k0 = k0[0]
        sp = info.mod.get(k0)
        v, v0 = info.back.s.get(k0), info.st0.s.get(k0)
        if sp is None or v is None or v0 is None:
            return None
        for side in reversed(path):
            g = sp["gate"] if side == "T" else bnot(sp["gate"])
            v, v0 = restrict(v, g), restrict(v0, g)
            sp = sp["t" if side == "T" else "f"]
        if sp["kind"] == "refarr":
            if v0.op == "unbound":
                return None
            v, v0 = self.num(info.back, v), self.num(info.st0, v0)
        elif sp["kind"] != "arrc":
            return None
        for i in idx:
            if info.k in tm.walk(i):
                return None
        X = ar.at(self.mkmu(lid, key, "arr", info.k), tuple(idx))
        B = restrict(ar.at(v, tuple(idx)), info.care)
        init = ar.at(v0, tuple(idx))
        if B is X:
            return 1, lambda kk: init

        mu = self.mkmu(lid, key, "arr", info.k)

        def same(b, g):
            """elements of the array that the path condition identifies with the one asked for"""
            if b.op == "ite":
                return ite(b.a[0], same(b.a[1], band(g, b.a[0])), same(b.a[2], band(g, bnot(b.a[0]))))
            m = {}
            for x in tm.walk(b):
                if x.op == "el" and x.a[0] is mu and x is not X and len(x.a) == len(idx) + 1:
                    if all(i is j or band(g, bnot(tm.cmp_bdd("==", i, j))) == 0 for i, j in zip(x.a[1:], idx)):
                        m[x] = X
            return subst(b, m) if m else b

        def delta(b):
            if b.op == "ite":
                return ite(b.a[0], delta(b.a[1]), delta(b.a[2]))
            return sub(b, X)

        B = same(B, 1)
        B = self._own_elements(B, X, lid, info)
        D = delta(B)
        if not self._has_mu(D, lid):
            return 1, lambda kk: add(init, ar.sumk(info.k, kk, D))
        cond, V = self._writes(B, X)
        if cond is None or self._has_mu(mkbool(cond), lid):
            return None
        f = single_index(cond, info.k)
        if f is None:
            return None
        # elements of the array itself, read in the only iteration that writes them: still the initial ones
        m = {}
        for x in tm.walk(V):
            if x.op != "el" or x.a[0] is not mu:
                continue
            if x is X:
                m[x] = init
                continue
            ix = tuple(subst(i, {info.k: f}) for i in x.a[1:])
            if any(info.k in tm.walk(i) for i in ix):
                return None
            X2 = ar.at(mu, ix)
            B2 = restrict(ar.at(v, ix), info.care)
            c2, V2 = self._writes(B2, X2)
            if c2 is None or self._has_mu(mkbool(c2), lid):
                return None
            if c2 == 0 or single_index(c2, info.k) is f:
                m[x] = ar.at(v0, ix)
        if m:
            V = subst(V, m)
        if self._has_mu(V, lid):
            return None
        m = {info.k: f}
        c = tm.asbdd_or(subst(mkbool(cond), m))
        V = subst(V, m)

        def form(kk):
            inr = band(tm.cmp_bdd("<=", ZERO, f), tm.cmp_bdd("<", f, kk))
            return ite(band(c, inr), V, init)

        return 1, form

    def _own_elements(self, B, X, lid, info):
        """elements of loop-built arrays read in the iteration that writes them"""
        m = {}
        for x in tm.walk(B):
            if x.op != "el" or x is X or x.a[0].op != "mu" or x.a[0].a[0] != lid or x.a[0].a[3] is not info.k:
                continue
            back, ix = {}, []
            for d, i in enumerate(x.a[1:]):
                if info.k in tm.walk(i):
                    g = ar.gi(("own", d))
                    back[g] = i
                    i = g
                ix.append(i)
            ck = (lid, x.a[0].a[1], tuple(ix))
            r = self.murescache.get(ck)
            if r is None:
                self.murescache[ck] = False
                r = self.murescache[ck] = self._resolve_mu(info, lid, x.a[0].a[1], tuple(ix)) or False
            if r is False:
                continue
            y = subst(r[1](info.k), back)
            if not self._has_mu(y, lid):
                m[x] = y
        return subst(B, m) if m else B

    def _writes(self, b, X):
        """(condition under which X is overwritten, new value)"""
        if b is X:
            return 0, X
        if b.op == "ite":
            c1, v1 = self._writes(b.a[1], X)
            c2, v2 = self._writes(b.a[2], X)
            c = bite(b.a[0], c1, c2)
            if c1 == 0:
                return c, v2
            if c2 == 0:
                return c, v1
            return c, ite(b.a[0], v1, v2)
        return 1, b

    def merge_zero(self, key, b, z, N, nz):
        """P + seg(N) + tail (N > 0) and P + tail0 (N = 0) are one list value"""
        x, y = b.s.get(key), z.s.get(key)
        if x is None or y is None or x.op != "list" or y.op != "list":
            return
        segs = [i for i, p in enumerate(x.a) if p.op == "seg" and p.a[1] is N]
        for i in reversed(segs):
            rest = x.a[:i] + x.a[i + 1:]
            if len(rest) != len(y.a):
                continue
            out = []
            for p, q in zip(rest, y.a):
                if p is q:
                    out.append(p)
                elif p.op == "e" and q.op == "e":
                    out.append(e_(ite(nz, p.a[0], q.a[0])))
                else:
                    out = None
                    break
            if out is None:
                continue
            v = mklist(out[:i] + [x.a[i]] + out[i:])
            b.s[key] = z.s[key] = v
            return

    def _bsub(self, b, m):
        if b < 2:
            return b
        return tm.asbdd_or(subst(mkbool(b), m))

    def dim_positive(self, N):
        c = const_poly(N)
        if c is not None:
            return c > 0
        p = to_poly(N)
        return all(c > 0 and all(x.op in ("dim",) for x, e in mo) for mo, c in p.items() if mo) and p.get((), 0) >= 0

    def set_mu(self, head, st0, key, sp, lid, k, closed, v0=None):
        if key in closed and sp["kind"] == "refarr":
            loc = ("mu", lid, key)
            head.s[(loc, "k")] = "arr"
            head.s[(loc, "a")] = closed[key](k)
            head.s[key] = mk("ref", loc, ())
            return
        if key in closed:
            head.s[key] = closed[key](k)
            return
        if v0 is None:
            v0 = st0.s.get(key)
        kd = sp["kind"]
        if kd == "arrc":  # array content
            t = self.mkmu(lid, key, "arr", k)
            MUSH[(lid, key)] = sp.get("shape")
            MUDT[(lid, key)] = sp.get("dtype")
            head.s[key] = t
        elif kd == "refarr":
            loc = ("mu", lid, key)
            t = self.mkmu(lid, key, "arr", k)
            MUSH[(lid, key)] = sp.get("shape")
            MUK[lid] = k
            MUDT[(lid, key)] = sp.get("dtype")
            head.s[(loc, "k")] = "arr"
            head.s[(loc, "a")] = t
            head.s[key] = mk("ref", loc, ())
        elif kd == "listc":
            head.s[key] = self.mu_list(v0, sp, lid, key, k)
        elif kd == "reflist":
            loc = ("mu", lid, key)
            head.s[(loc, "k")] = "list"
            head.s[(loc, "l")] = self.mu_list(self._list_of(st0, v0), sp, lid, key, k)
            head.s[key] = mk("ref", loc, ())
        elif kd == "extopt":
            t = self.mkmu(lid, key, "ext", k)
            head.s[key] = ite(tm.batom(mk("isnone", t)), NONE, mk("extv", "loopvar", t))
        elif kd == "tuple":
            head.s[key] = mk("tuple", *[self._mu_scalar(lid, (key, i), kk, k, head) for i, kk in enumerate(sp["kinds"])])
        elif kd == "ite":
            g = sp["gate"]
            vs = []
            for side, c, tag in ((sp["t"], g, "T"), (sp["f"], bnot(g), "F")):
                if side is None:
                    vs.append(restrict(v0, c))
                else:
                    self.set_mu(head, st0, (key, tag), side, lid, k, closed, restrict(v0, c) if v0 is not None else None)
                    vs.append(head.s.pop((key, tag)))
            head.s[key] = ite(g, *vs)
        else:
            head.s[key] = self._mu_scalar(lid, key, kd, k, head)

    def mkmu(self, lid, key, kd, k):
        return mk("mu", lid, key, kd, k, *self.octr.get(lid, ()))

    def _mu_scalar(self, lid, key, kd, k, head):
        t = self.mkmu(lid, key, kd, k)
        if kd == "bool":
            return mkbool(tm.batom(mk("truthy", t)))
        return t

    def _list_of(self, st, ref):
        return self.list_content(st, ref)

    def mu_list(self, v0, sp, lid, key, k):
        p, t = sp["p"], sp["t"]
        parts = list(v0.a[:p]) + [self.mkmu(lid, key, "seg", k)]
        tail = v0.a[len(v0.a) - t:] if t else ()
        for i, q in enumerate(tail):
            parts.append(e_(self.mkmu(lid, (key, "tail", i), "ref" if q.a[0].op == "ref" else kind(q.a[0]), k)))
        return mk("list", *parts)

    def find_mods(self, st0, head, back, care, mod, alloc0, lid, k):
        new = False
        live = set()
        f = self.fstack[-1].frame
        while f is not None:
            live.add(f.fid)
            f = f.parent
        for key, vb in list(back.s.items()):
            if not isinstance(vb, T):
                continue
            v0 = st0.s.get(key)
            vh = head.s.get(key)
            isvar = len(key) == 2 and key[1] not in ("a", "l", "d", "k")
            if v0 is None:
                if isvar and key[0] not in live and not (isinstance(key[0], tuple)):
                    continue
                if not isvar:
                    loc = key[0]
                    if isinstance(loc, int) and loc > alloc0:
                        continue
                    if isinstance(loc, tuple) and loc and loc[0] == "mu" and loc[1] == lid:
                        continue
                    if isinstance(loc, tuple) and has_term(loc, k):
                        continue
                if len(key) == 3 and key[1] == "#dflt":
                    continue
                v0 = self._default_for(key)
                if vh is None:
                    vh = v0
            if vb is vh:
                continue
            vb = restrict(vb, care)
            if vb is vh:
                continue
            # mu array held by reference: compare contents
            sp = self.mod_spec(st0, back, key, v0, vb, mod.get(key), care, lid, k)
            if sp is None:
                continue
            if mod.get(key) != sp:
                if key in mod and mod[key]["kind"] == sp["kind"] and sp["kind"] in ("refarr", "arrc"):
                    if mod[key].get("shape") == sp.get("shape") and mod[key].get("dtype") == sp.get("dtype"):
                        continue
                mod[key] = sp
                if key not in st0.s:
                    st0.s[key] = v0
                new = True
        return new

    def _default_for(self, key):
        if len(key) == 3 and key[1] == ".":
            d = self.sch("field", key[0], key[2])
            return d if d is not None else UNBOUND
        if len(key) == 2 and key[1] == "a" and self.schema is not None:
            d = self.sch("content", key[0])
            return d if d is not None else UNBOUND
        if len(key) == 2 and key[1] == "l" and self.schema is not None:
            d = self.sch("listcontent", key[0])
            return d if d is not None else UNBOUND
        return UNBOUND

    def mod_spec(self, st0, back, key, v0, vb, old, care, lid=None, k=None, depth=0):
        if depth < 3 and (old is None or old["kind"] == "ite") and key[1] not in ("a", "l", "d"):
            g = None
            if vb.op == "ite" and (v0.op != "ite" or v0.a[0] is vb.a[0]):
                g = vb.a[0]
            elif v0.op == "ite":
                g = v0.a[0]
            if g is not None and (old is None or old["gate"] == g):
                gt = mkbool(g)
                if not self._has_mu(gt, lid) and not self._contains(gt, k):
                    sp = {"kind": "ite", "gate": g}
                    for nm, c in (("t", g), ("f", bnot(g))):
                        a, b = restrict(v0, c), restrict(vb, c)
                        o = old[nm] if old is not None else None
                        h = o is not None and b.op == "mu" and b.a[0] == lid and b.a[1] == (key, nm.upper())
                        dead = o is None and back.pc > 1 and band(back.pc, c) == 0
                        sp[nm] = o if (a is b or h or dead) else self.mod_spec(st0, back, (key, nm.upper()), a, b, o, care, lid, k, depth + 1)
                    if sp["t"] is not None or sp["f"] is not None:
                        return sp
        if old is not None and old["kind"] == "ite":
            old = None
        if len(key) == 2 and key[1] == "a":
            s0, sb = shape(v0), shape(vb)
            d0, db = ar.dtype(v0), ar.dtype(vb)
            return {"kind": "arrc", "shape": s0 if (s0 == sb or vb.op == "mu") else (s0 if sb is not None and s0 is not None and len(s0) == len(sb) and old is not None else self._mushape(s0, sb)), "dtype": d0 if d0 == db else None}
        if len(key) == 2 and key[1] == "l":
            return self._list_spec(v0, vb, old)
        if len(key) == 2 and key[1] == "d":
            return {"kind": "any"}
        if vb.op == "ref" or v0.op == "ref" or (vb.op == "ite" and any(x.op == "ref" for x in vb.a[1:])):
            kb = self._refkind(back, vb)
            k0 = self._refkind(st0, v0) if v0.op != "unbound" else kb
            if k0 == "arr" and kb == "arr":
                s0 = shape(self.num(st0, v0)) if v0.op != "unbound" else None
                sb = shape(self.num(back, vb))
                d0 = ar.dtype(self.num(st0, v0)) if v0.op != "unbound" else None
                db = ar.dtype(self.num(back, vb))
                if old is not None and old["kind"] == "refarr":
                    # converged when the shape is stable
                    return {"kind": "refarr", "shape": self._mushape(old["shape"], sb, k, True) if v0.op != "unbound" else sb, "dtype": old["dtype"] if old["dtype"] == db else None}
                return {"kind": "refarr", "shape": self._mushape(s0, sb, k) if v0.op != "unbound" else sb, "dtype": d0 if d0 == db else None}
            if k0 == "list" and kb == "list" and v0.op == "ref" and vb.op == "ref":
                return dict(self._list_spec(self.list_content(st0, v0), self.list_content(back, vb), old, ref=True), kind="reflist")
            return {"kind": "ref" if k0 == kb else "any"}
        if v0.op == "tuple" and vb.op == "tuple" and len(v0.a) == len(vb.a):
            return {"kind": "tuple", "kinds": tuple(self._joinkind(x, y) for x, y in zip(v0.a, vb.a))}
        if v0.op != "unbound" and self._extopt(v0) and self._extopt(vb):
            return {"kind": "extopt"}
        if v0.op == "unbound":
            s = shape(vb)
            return {"kind": kind(vb) if vb.op != "tuple" else "any"}
        kd = self._joinkind(v0, vb)
        if old is not None and old["kind"] != kd and old["kind"] in ("num", "any"):
            kd = old["kind"]
        return {"kind": kd}

    def _none_gate(self, v):
        if v.op == "ite":
            return bite(v.a[0], self._none_gate(v.a[1]), self._none_gate(v.a[2]))
        return 1 if v is NONE else 0

    def _extopt(self, v):
        """None or an object of another library"""
        if v.op == "ite":
            return self._extopt(v.a[1]) and self._extopt(v.a[2])
        return v is NONE or v.op == "extv"

    def _mushape(self, s0, sb, k=None, old=False):
        if s0 is None or sb is None:
            return None
        if len(s0) != len(sb):
            return None
        out = []
        for i, (a, b) in enumerate(zip(s0, sb)):
            if k is not None and old:
                # the hypothesis about the dimension, one iteration later
                a_ = subst(a, {k: add(k, ONE)}) if self._contains(a, k) else a
                out.append(a if a_ is b else None)
                continue
            c = sub(b, a)
            if k is not None and i == 0 and a is not b and (ar.dimval(c) or 0) > 0 and not self._contains(a, k):
                # grows along the first axis
                tm.NONNEG.add(k)
                out.append(add(a, mul(c, k)))
                continue
            out.append(a if a is b else None)
        if any(x is None for x in out):
            return None
        return tuple(out)

    def _refkind(self, st, v):
        if v.op == "ref":
            return self.objkind(st, v.a[0])
        if v.op == "ite":
            a, b = self._refkind(st, v.a[1]), self._refkind(st, v.a[2])
            return a if a == b else None
        s = shape(v)
        if s is not None and len(s) > 0:
            return "arr"
        return kind(v)

    def _joinkind(self, a, b):
        x, y = kind(a), kind(b)
        if x == y:
            return x
        if {x, y} <= {"int", "float", "num", "bool"}:
            return "int" if {x, y} <= {"int"} else ("float" if {x, y} == {"int", "float"} else "num")
        return "any"

    def _list_spec(self, v0, vb, old, ref=False):
        if v0.op == "unbound":
            return {"kind": "any"}
        if v0.op != "list" or vb.op != "list":
            # ite of lists: unknown structure
            return {"kind": "listc", "p": 0, "t": 0, "opaque": True}
        p = 0
        while p < len(v0.a) and p < len(vb.a) and v0.a[p] is vb.a[p]:
            p += 1
        if old is not None:
            p = min(p, old["p"])
        r0, rb = v0.a[p:], vb.a[p:]
        t = 0
        while t < len(r0) and t < len(rb) and r0[len(r0) - 1 - t].op == "e" and rb[len(rb) - 1 - t].op == "e":
            t += 1
        if old is not None:
            t = min(t, old["t"])
        return {"kind": "listc", "p": p, "t": t}

    def closed_forms(self, st0, headvals, back, care, mod, lid, k):
        out = {}
        mus = None
        for key, sp in mod.items():
            v0 = st0.s.get(key)
            vb = back.s.get(key)
            if v0 is None or vb is None or not isinstance(vb, T):
                continue
            vb = restrict(vb, care)
            h = headvals.get(key)
            if sp["kind"] in ("int", "float", "num", "arrc") and h is not None:
                if v0.op == "unbound" or h.op == "tuple":
                    continue
                if sp["kind"] == "arrc" and (vb.op != "poly"):
                    continue
                g = sub(vb, h)
                if self._has_mu(g, lid):
                    continue
                if not self._contains(g, k):
                    out[key] = (lambda v0, g: lambda kk: add(v0, mul(kk, g)))(v0, g)
                else:
                    out[key] = (lambda v0, g, k: lambda kk: add(v0, ar.sumk(k, kk, g)))(v0, g, k)
            elif sp["kind"] == "refarr" and sp.get("shape") is not None and any(self._contains(x, k) for x in sp["shape"]) and h is not None:
                f = self._grown(st0, back, v0, vb, h, sp, lid, k)
                if f is not None:
                    out[key] = f
            elif sp["kind"] in ("listc",) and vb.op == "list" and not sp.get("opaque"):
                p, t = sp["p"], sp["t"]
                items = self._seg_items(vb, sp, lid, key)
                if items is None or any(self._has_mu(x, lid, key) for x in items):
                    continue
                if t:
                    # tail becomes next tail: keep mu tails, closed middle
                    pass
                out[key] = self._list_closed(v0, sp, items, lid, key, k)
        return out

    def _grown(self, st0, back, v0, vb, h, sp, lid, k):
        """array that gets the same number of rows appended in every iteration"""
        if vb.op != "ref" or v0.op != "ref" or h.op != "ref":
            return None
        c0, cb = self.num(st0, v0), self.num(back, vb)
        if cb.op != "cat" or cb.a[0] != 0 or len(cb.a) < 3:
            return None
        m = cb.a[1]
        if m.op != "mu" or m.a[0] != lid or m.a[3] is not k:
            return None
        rows = cb.a[2:]
        if any(self._has_mu(x, lid) for x in rows) or shape(c0) is None or any(shape(x) is None for x in rows):
            return None
        if self._contains(c0, k) or any(self._contains(d, k) for x in rows for d in shape(x)):
            return None
        w = ZERO
        for x in rows:
            w = add(w, shape(x)[0])
        if w is not ONE:
            return None
        row = [x for x in rows if shape(x)[0] is ONE]
        if len(row) != 1 or len(rows) != 1:
            return None
        row = row[0]
        rest = shape(row)[1:]
        g = [ar.gi("λr%d" % i) for i in range(1 + len(rest))]
        body = subst(ar.at(row, [ZERO] + g[1:]), {k: g[0]})
        vs = []
        for x in g:
            b, body = ar.bind(body, x)
            vs.append(b)

        def f(kk):
            if kk is ZERO:
                return c0
            return mk("cat", 0, c0, mk("lam", (kk,) + tuple(rest), tuple(vs), body))

        return f

    def _seg_items(self, vb, sp, lid, key):
        p, t = sp["p"], sp["t"]
        mid = list(vb.a[p: len(vb.a) - t if t else None])
        if not mid or mid[0].op != "mu" or mid[0].a[0] != lid or mid[0].a[1] != key:
            return None
        return mid[1:]

    def _list_closed(self, v0, sp, items, lid, key, k):
        p, t = sp["p"], sp["t"]

        def f(kk):
            if not items:
                seg = []
            else:
                g = ar.gi("seg")
                its = [subst(x, {k: g}) for x in items]
                b = ar.bv(max(ar.maxbv(x) for x in its) + 1)
                seg = mkseg(b, kk, [subst(x, {g: b}) for x in its])
            tail = []
            for i in range(t):
                q = v0.a[len(v0.a) - t + i]
                tail.append(e_(self.mkmu(lid, (key, "tail", i), "ref" if q.a[0].op == "ref" else kind(q.a[0]), kk)))
            return mklist(list(v0.a[:p]) + seg + tail)

        return f

    def _has_mu(self, t, lid, key=None):
        for x in tm.walk(t):
            if x.op == "mu" and x.a[0] == lid and (key is None or x.a[1] == key):
                return True
            if x.op == "ref" and isinstance(x.a[0], tuple) and x.a[0][:1] == ("mu",) and x.a[0][1] == lid and key is None:
                return True
        return False

    def _contains(self, t, k):
        return k in tm.walk(t)

    # ------------------------------------------------------------- expressions
    def eval(self, n, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Bail("step limit")
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.note_unk(st, n, "expr " + type(n).__name__)
            return unk("expr", const(n._tid))
        v = m(n, st)
        if v.op in ("ite", "bool") and st.pc > 1:
            v = restrict(v, st.pc) if v.op == "bool" else self._restrict_top(v, st.pc)
        return v

    def _restrict_top(self, v, pc):
        if v.op != "ite":
            return v
        g = brestrict(v.a[0], pc)
        if g == 1:
            return self._restrict_top(v.a[1], pc)
        if g == 0:
            return self._restrict_top(v.a[2], pc)
        return v

    def cond(self, n, st):
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            acc = 1 if isand else 0
            cur = st.copy()
            sts = []
            for x in n.values:
                if cur.pc == 0:
                    break
                c = self.cond(x, cur)
                acc = band(acc, c) if isand else bor(acc, c)
                a, b = self.fork(cur, c)
                if isand:
                    sts.append(b)
                    cur = a
                else:
                    sts.append(a)
                    cur = b
            self.become(st, self.join(sts + [cur]))
            return acc
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return bnot(self.cond(n.operand, st))
        v = self.eval(n, st)
        return self.truth(v, st, n)

    def ambiguous(self, v, st, n):
        """the truth value of an array with more than one item"""
        if n is None:
            return
        s = shape(v)
        if not s:
            return
        size = ONE
        for d in s:
            size = tm.mul(size, d)
        c = tm.cmp_bdd(">", size, ONE)
        if c == 0 or band(st.pc, c) == 0:
            return
        def known(x):
            if x.op == "ite":
                return known(x.a[1]) and known(x.a[2])
            return all(y.op in ("sym", "const", "poly") for y in tm.walk(x))

        if c != 1 and not known(size):
            return  # a count whose value is not known
        pc, st.pc = st.pc, band(st.pc, c)
        self.err(st, n, "ambiguous", "truth value of an array with more than one item")
        st.pc = pc

    def truth(self, v, st, n=None):
        if v.op == "ref":
            k = self.objkind(st, v.a[0])
            if k == "list":
                l = self.list_content(st, v)
                if l.op == "list":
                    if any(p.op == "e" for p in l.a):
                        return 1
                    if not l.a:
                        return 0
                return tm.batom(mk("truthy", mk("len", l)))
            if k == "dict":
                d = self.dictc(st, v.a[0])
                if d is not None and d.op == "dict":
                    return 1 if d.a else 0
            if k == "arr":
                self.ambiguous(self.num(st, v), st, n)
                return tm.batom(mk("truthy", self.content(st, v)))
            return 1
        if v.op == "ite":
            return bite(v.a[0], self.truth(v.a[1], st), self.truth(v.a[2], st))
        self.ambiguous(v, st, n)
        return truthy(v)

    def e_Constant(self, n, st):
        return const(n.value)

    def e_Name(self, n, st):
        return self.eval_name(n, st)

    def eval_name(self, n, st):
        name = n.id
        fr = self.fstack[-1].frame
        if name in fr.locals and name not in fr.globals:
            v = st.s.get((fr.fid, name))
            return self.check_bound(v, name, st, n)
        p = fr.parent
        while p is not None:
            if name in p.locals:
                v = st.s.get((p.fid, name))
                return self.check_bound(v, name, st, n)
            p = p.parent
        return self.global_name(fr.module, name, st, n)

    def check_bound(self, v, name, st, n):
        if v is None or v is UNBOUND:
            self.err(st, n, "unbound", "local variable '%s' is used before it is assigned" % name)
            self.raise_(st, "UnboundLocalError", n)
            return unk("unbound " + name)
        if v.op == "ite" and self._has_unbound(v):
            g = self._unbound_gate(v)
            bad = band(st.pc, g)
            if bad != 0:
                self.ev("maybe_unbound", st, n, name=name, gate=bad)
                s2 = st.copy()
                s2.pc = bad
                self.raise_(s2, "UnboundLocalError", n)
                st.pc = band(st.pc, bnot(g))
            return restrict(v, bnot(g)) if g != 0 else v
        return v

    def _has_unbound(self, v):
        if v is UNBOUND:
            return True
        return v.op == "ite" and (self._has_unbound(v.a[1]) or self._has_unbound(v.a[2]))

    def _unbound_gate(self, v):
        if v is UNBOUND:
            return 1
        if v.op == "ite":
            return bite(v.a[0], self._unbound_gate(v.a[1]), self._unbound_gate(v.a[2]))
        return 0

    def global_name(self, module, name, st, n):
        key = ("g", module.name, name)
        if key in st.s:
            return st.s[key]
        d = self.prog.lookup(module.name, name)
        if d is not None:
            return self.def_value(d, st, n)
        if name in self.lib.BUILTINS:
            return mk("ext", "builtins." + name)
        if name == "__name__":
            return const(module.name)
        if name == "__file__":
            return mk("sym", "__file__", "str")
        self.err(st, n, "undefined", "name '%s' is not defined" % name)
        self.raise_(st, "NameError", n)
        return unk("undefined " + name)

    def def_value(self, d, st, n=None):
        if d is None:
            self.err(st, n, "import", "name cannot be imported")
            return unk("import")
        if d[0] == "func":
            return self.funcval(d[1])
        if d[0] == "class":
            return clsT(d[1])
        if d[0] == "mod":
            return mk("mod", d[1].name)
        if d[0] == "ext":
            return mk("ext", d[1])
        if d[0] in ("assign", "assigni"):
            m, name, expr = d[1], d[2], d[3]
            key = ("g", m.name, name)
            if key in st.s:
                return st.s[key]
            fr = Frame(("modfr", m.name), m, None)
            self.fstack.append(FnCtx(fr))
            a0 = self.nalloc
            try:
                v = self.eval_fixed(expr, st, ("g", m.name, name))
                if d[0] == "assigni":
                    v = self.getitem(v, const(d[4]), st, n)
            finally:
                self.fstack.pop()
            st.s[key] = v
            return v
        if d[0] == "missing":
            self.err(st, n, "import", "cannot import " + d[1])
            return unk("import " + d[1])
        return unk("def")

    def eval_fixed(self, expr, st, loc):
        """evaluate an expression whose mutable result lives at a fixed (shared) location"""
        if isinstance(expr, ast.List):
            return self.new_list(st, [e_(self.eval(x, st)) for x in expr.elts], loc)
        if isinstance(expr, ast.Dict) and all(k is not None for k in expr.keys):
            return self.new_dict(st, [mk("kv", self.eval(a, st), self.eval(b, st)) for a, b in zip(expr.keys, expr.values)], loc)
        v = self.eval(expr, st)
        if v.op == "ref" and isinstance(v.a[0], int) and not v.a[1]:
            # move to the shared location
            for key in [x for x in st.s if x[0] == v.a[0]]:
                st.s[(loc,) + key[1:]] = st.s[key]
            return mk("ref", loc, ())
        return v

    def funcval(self, node):
        for d in node.decorator_list:
            nm = ast.unparse(d)
            if nm.split("(")[0].split(".")[-1] in ("lru_cache", "cache"):
                return mk("cachedfunc", node._tid)
        return funcT(node)

    def e_Tuple(self, n, st):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                it = self.iter_known(v, st)
                if it is None:
                    out.append(mk("star", v))
                else:
                    out += it
            else:
                out.append(self.eval(x, st))
        return mk("tuple", *out)

    def e_List(self, n, st):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                out += self.lib.list_parts(self, st, v)
            else:
                out.append(e_(self.eval(x, st)))
        return self.new_list(st, out)

    def e_Set(self, n, st):
        return mk("setv", *[self.eval(x, st) for x in n.elts])

    def e_Dict(self, n, st):
        items = []
        for a, b in zip(n.keys, n.values):
            if a is None:
                v = self.eval(b, st)
                d = self.dictc(st, v.a[0]) if v.op == "ref" else None
                if d is not None and d.op == "dict":
                    items += list(d.a)
                else:
                    items.append(mk("kvstar", v))
            else:
                items.append(mk("kv", self.eval(a, st), self.eval(b, st)))
        return self.new_dict(st, items)

    def e_Lambda(self, n, st):
        fr = self.fstack[-1].frame
        fr.captured = True
        self._nested_defaults(n, st)
        return mk("clo", n._tid, fr.fid)

    def e_IfExp(self, n, st):
        c = self.cond(n.test, st)
        return self.split(st, c, lambda s: self.eval(n.body, s), lambda s: self.eval(n.orelse, s))

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)

        def rec(i, s):
            v = self.eval(n.values[i], s)
            if i == len(n.values) - 1 or s.pc == 0:
                return v
            c = self.truth(v, s)
            if isand:
                return self.split(s, c, lambda z: rec(i + 1, z), lambda z: v if asbdd(v) is None else FALSE)
            return self.split(s, c, lambda z: v if asbdd(v) is None else TRUE, lambda z: rec(i + 1, z))

        return rec(0, st)

    def e_UnaryOp(self, n, st):
        v = self.eval(n.operand, st)
        if isinstance(n.op, ast.Not):
            return mkbool(bnot(self.truth(v, st)))
        if isinstance(n.op, ast.USub):
            x = self.num(st, v)
            if x.op == "const" and cval(x) is not None and not isinstance(cval(x), (int, float)):
                self.err(st, n, "type", "bad operand for unary -")
            if x.op == "const" and isinstance(cval(x), float) and const_poly(x) is None:
                return const(-cval(x))
            return self.wrap(st, neg(x))
        if isinstance(n.op, ast.UAdd):
            return v
        x = self.num(st, v)
        if asbdd(x) is not None:
            return mkbool(bnot(asbdd(x)))
        s = shape(x)
        if s is not None and len(s):
            return self.wrap(st, mk("enot", x))
        if x.op in ("aall", "aany") or kind(x) == "bool":
            return mkbool(bnot(truthy(x)))
        return sub(neg(x), ONE) if kind(x) == "int" else mk("invert", x)

    def e_BinOp(self, n, st):
        a = self.eval(n.left, st)
        b = self.eval(n.right, st)
        return self.binop(n.op, a, b, st, n)

    def binop(self, op, a, b, st, n):
        return self.lib.binop(self, type(op).__name__, a, b, st, n)

    def e_Compare(self, n, st):
        left = self.eval(n.left, st)
        acc = None
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, st)
            v = self.compare_val(type(op).__name__, left, right, st, n)
            if acc is None:
                acc = v
            else:
                x, y = self.truth(acc, st, n), self.truth(v, st, n)
                acc = mkbool(band(x, y))
            left = right
        return acc

    OPS = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}

    def compare_val(self, op, a, b, st, n):
        if op in ("Is", "IsNot"):
            r = self.is_(a, b)
            return mkbool(r if op == "Is" else bnot(r))
        if op in ("In", "NotIn"):
            r = self.lib.contains(self, st, b, a, n)
            return mkbool(r if op == "In" else bnot(r))
        o = self.OPS[op]
        # lists / tuples
        mixed = False
        for x in (a, b):
            if x.op == "ref" and self.objkind(st, x.a[0]) in ("list", "dict"):
                if self._is_arr(st, b if x is a else a) and self.objkind(st, x.a[0]) == "list":
                    mixed = True  # elementwise
                    break
                return mkbool(self.lib.seq_compare(self, st, o, a, b, n))
        if not mixed and (a.op == "ref" and not self._is_arr(st, a) or b.op == "ref" and not self._is_arr(st, b)):
            if o in ("==", "!="):
                r = self.is_(a, b)
                return mkbool(r if o == "==" else bnot(r))
        x, y = self.num(st, a), self.num(st, b)
        if (a.op == "tuple") != (b.op == "tuple"):
            if a.op == "tuple":
                x = a if not self._is_arr(st, b) else x
            else:
                y = b if not self._is_arr(st, a) else y
        elif a.op == "tuple":
            x, y = a, b
        sx, sy = shape(x), shape(y)
        if (sx is not None and len(sx)) or (sy is not None and len(sy)):
            # str vs array comparison: elementwise on numpy >= 1.25
            if o == "!=":
                return self.wrap(st, mk("enot", mk("ecmp", "==", x, y)))
            return self.wrap(st, self.lib.ecmp(o, x, y))
        if kind(x) == "none" and o not in ("==", "!=") or kind(y) == "none" and o not in ("==", "!="):
            self.err(st, n, "type", "comparison of None with a number")
        if (kind(x) == "str") != (kind(y) == "str") and o not in ("==", "!=") and "any" not in (kind(x), kind(y)):
            self.err(st, n, "type", "ordering comparison of text with a number")
        return mkbool(self.compare(o, x, y, st, n))

    def _is_arr(self, st, t):
        if t.op == "ref":
            return self.objkind(st, t.a[0]) == "arr"
        if t.op == "ite":
            return self._is_arr(st, t.a[1]) and self._is_arr(st, t.a[2])
        s = shape(t)
        return s is not None and len(s) > 0

    def compare(self, o, x, y, st, n):
        return ar.ecmp_scalar(o, x, y) if o in ("==", "!=") else tm.cmp_bdd(o, x, y)

    def is_(self, a, b):
        if a is b and a.op != "unk":
            return 1
        if a is NONE or b is NONE:
            return is_none(b if a is NONE else a)
        ba, bb = asbdd(a), asbdd(b)
        if ba is not None and bb is not None:
            return bite(ba, bb, bnot(bb))
        for x, y in ((a, b), (b, a)):
            if asbdd(y) is not None and x.op == "ite":
                return bite(x.a[0], self.is_(x.a[1], y), self.is_(x.a[2], y))
            if y in (TRUE, FALSE):
                if kind(x) in ("int", "float", "str", "none", "ref", "tuple", "func", "arr"):
                    return 0
                if kind(x) == "bool":
                    t = truthy(x)
                    return t if y is TRUE else bnot(t)
        if a.op == "ref" and b.op == "ref":
            return 1 if a is b else 0
        if a.op in ("cls", "ext", "func") and b.op in ("cls", "ext", "func"):
            return 1 if a is b else 0
        if a.op == "typeof" or b.op == "typeof":
            return self.lib.type_is(a, b)
        return tm.batom(mk("is", *sorted((a, b), key=lambda t: t.id)))

    def e_Subscript(self, n, st):
        b = self.eval(n.value, st)
        key = self.eval_key(n.slice, st)
        if st.pc == 0:
            return unk("dead")
        return self.getitem(b, key, st, n)

    def eval_key(self, n, st):
        if isinstance(n, ast.Slice):
            f = lambda x: NONE if x is None else self.eval(x, st)
            return mkslice(f(n.lower), f(n.upper), f(n.step))
        if isinstance(n, ast.Tuple):
            return mk("tuple", *[self.eval_key(x, st) for x in n.elts])
        return self.eval(n, st)

    def e_Slice(self, n, st):
        return self.eval_key(n, st)

    def key_items(self, key, st):
        """array key -> tuple of item terms"""
        if key.op == "tuple":
            out = []
            for x in key.a:
                out += [self._key_item(x, st)]
            return tuple(out)
        if key.op == "ixv":
            return tuple(key.a)
        return (self._key_item(key, st),)

    def _key_item(self, x, st):
        if x.op in ("slice",) or x is NONE:
            return x
        if x.op == "ref" or x.op == "ite":
            return self.num(st, x)
        if x.op == "tuple":
            return self.num(st, x)
        if x.op == "ext" and x.a[0] in ("numpy.newaxis",):
            return NONE
        return x

    def getitem(self, b, key, st, n):
        return self.lib.getitem(self, b, key, st, n)

    def setitem(self, b, key, v, st, n, aug=None):
        return self.lib.setitem(self, b, key, v, st, n, aug)

    def e_Attribute(self, n, st):
        b = self.eval(n.value, st)
        if st.pc == 0:
            return unk("dead")
        return self.getattr(b, n.attr, st, n)

    def getattr(self, b, name, st, n):
        if b.op == "ite" and self._extopt(b):
            # an object of another library, or None
            g = self._none_gate(b)
            if band(st.pc, g) != 0:
                s = st.copy()
                s.pc = band(st.pc, g)
                self.getattr(NONE, name, s, n)
                st.pc = band(st.pc, bnot(g))
            b = restrict(b, st.pc)
            if st.pc == 0:
                return unk("none." + name)
            if b.op == "ite":
                b = restrict(b, bnot(g)) if g not in (0, 1) else b
            return self.lib.val_attr(self, b, name, st, n) if b.op != "ite" else mk("extmeth", b, name)
        if b.op == "ite":
            return self.split(st, b.a[0], lambda s: self.getattr(b.a[1], name, s, n), lambda s: self.getattr(b.a[2], name, s, n))
        if b.op == "ref":
            k = self.objkind(st, b.a[0])
            if isinstance(k, tuple) and k[0] == "inst":
                return self.inst_attr(b, k[1], name, st, n)
            return self.lib.obj_attr(self, b, k, name, st, n)
        if b.op == "mod":
            d = self.prog.lookup(b.a[0], name)
            if d is None:
                self.err(st, n, "attribute", "module %s has no attribute %s" % (b.a[0], name))
                self.raise_(st, "AttributeError", n)
                return unk("attr")
            key = ("g", b.a[0], name)
            if key in st.s:
                return st.s[key]
            return self.def_value(d, st, n)
        if b.op == "ext":
            return self.lib.ext_attr(self, b, name, st, n)
        if b.op == "cls":
            node = self.prog.nodes[b.a[0]]
            m = self.prog.find_method(node, name)
            if m is not None:
                decs = [ast.unparse(d) for d in m.decorator_list]
                if "classmethod" in decs:
                    return mk("bound", funcT(m), b)
                return funcT(m)
            v = self.class_attr(node, name, st)
            if v is not None:
                return v
            if name == "__name__":
                return const(node.name)
            self.err(st, n, "attribute", "class %s has no attribute %s" % (node.name, name))
            self.raise_(st, "AttributeError", n)
            return unk("attr")
        if b is NONE:
            self.err(st, n, "none-attr", "attribute '%s' of None" % name)
            self.raise_(st, "AttributeError", n)
            return unk("none." + name)
        if b.op == "super":
            node = self.prog.nodes[b.a[0]]
            for base in self.prog.cls_bases(node):
                m = self.prog.find_method(base, name)
                if m is not None:
                    return mk("bound", funcT(m), b.a[1])
            return mk("extmeth", b, name)
        return self.lib.val_attr(self, b, name, st, n)

    def class_attr(self, node, name, st):
        for s in node.body:
            tgt = None
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                tgt = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
                tgt = s.value
            if tgt is not None:
                key = ("c", node._tid, name)
                if key in st.s:
                    return st.s[key]
                self.fstack.append(FnCtx(Frame(("clsfr", node._tid), node._mod, None)))
                try:
                    v = self.eval_fixed(tgt, st, ("c", node._tid, name))
                finally:
                    self.fstack.pop()
                st.s[key] = v
                return v
        for b in self.prog.cls_bases(node):
            v = self.class_attr(b, name, st)
            if v is not None:
                return v
        return None

    def inst_attr(self, b, cls, name, st, n):
        loc = b.a[0]
        v = self.get_field(st, loc, name)
        if v is not None:
            if v is UNBOUND:
                self.err(st, n, "attribute", "attribute '%s' is not set" % name)
                self.raise_(st, "AttributeError", n)
                return unk("attr " + name)
            if v.op == "ite" and self._has_unbound(v):
                g = self._unbound_gate(v)
                bad = band(st.pc, g)
                if bad:
                    self.ev("maybe_noattr", st, n, name=name, gate=bad)
                return restrict(v, bnot(g))
            return v
        node = self.prog.nodes.get(cls)
        if node is not None:
            m = self.prog.find_method(node, name)
            if m is not None:
                decs = [ast.unparse(d) for d in m.decorator_list]
                if "property" in decs or any(d.endswith("cached_property") for d in decs):
                    return self.call_func(m, [b], {}, st, n)
                if "staticmethod" in decs:
                    return funcT(m)
                if "classmethod" in decs:
                    return mk("bound", funcT(m), clsT(node))
                return mk("bound", funcT(m), b)
            v = self.class_attr(node, name, st)
            if v is not None:
                return v
        if name == "__class__":
            return mk("cls", cls)
        if name == "__dict__":
            return mk("dictof", b)
        if self.schema is not None and self.schema.open(loc):
            return mk("fld", b, name)
        if node is not None and (any(not isinstance(x, ast.Name) or self.prog.lookup(node._mod.name, x.id) is None
                                     or self.prog.lookup(node._mod.name, x.id)[0] == "ext" for x in node.bases)):
            return mk("extmeth", b, name)
        self.err(st, n, "attribute", "object of class %s has no attribute '%s'" % (node.name if node else cls, name))
        self.raise_(st, "AttributeError", n)
        return unk("attr " + name)

    def setattr(self, b, name, v, st, n):
        if b.op == "ite":
            a_, b_ = self.fork(st, b.a[0])
            if a_.pc:
                self.setattr(b.a[1], name, v, a_, n)
            if b_.pc:
                self.setattr(b.a[2], name, v, b_, n)
            self.become(st, self.join([a_, b_]))
            return
        if b.op == "ref":
            self.set_field(st, b.a[0], name, v, n)
            return
        if b.op == "cls":
            st.s[("c", b.a[0], name)] = v
            self.ev("store", st, n, loc=("c", b.a[0], name), field="classattr", value=v, old=None)
            return
        if b.op == "mod":
            st.s[("g", b.a[0], name)] = v
            self.ev("store", st, n, loc=("g", b.a[0], name), field="global", value=v, old=None)
            return
        if b.op == "ext":
            self.ev("extset", st, n, target=b.a[0] + "." + name, value=v)
            st.s[("x", b.a[0] + "." + name)] = v
            return
        if b is NONE:
            self.err(st, n, "none-attr", "attribute '%s' of None" % name)
            self.raise_(st, "AttributeError", n)
            return
        # symbolic object
        self.set_field(st, ("t", b), name, v, n)

    # ------------------------------------------------------------- calls
    def e_Call(self, n, st):
        f = n.func
        if isinstance(f, ast.Name) and f.id == "super" and not n.args:
            fr = self.fstack[-1].frame
            me = st.s.get((fr.fid, fr.node.args.args[0].arg)) if fr.node and fr.node.args.args else NONE
            cls = getattr(fr.node, "_parent", None)
            if isinstance(cls, ast.ClassDef):
                return mk("super", cls._tid, me)
        fv = self.eval(f, st)
        if st.pc == 0:
            return unk("dead")
        args = []
        for x in n.args:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                it = self.iter_known(v, st)
                if it is None:
                    args.append(mk("star", v))
                else:
                    args += it
            else:
                args.append(self.eval(x, st))
        kw = {}
        for x in n.keywords:
            if x.arg is None:
                v = self.eval(x.value, st)
                d = self.dictc(st, v.a[0]) if v.op == "ref" else None
                if d is not None and d.op == "dict" and all(p.op == "kv" and p.a[0].op == "const" for p in d.a):
                    for p in d.a:
                        kw[cval(p.a[0])] = p.a[1]
                else:
                    kw["**"] = v
            else:
                kw[x.arg] = self.eval(x.value, st)
        if st.pc == 0:
            return unk("dead")
        return self.call(fv, args, kw, st, n)

    def call(self, fv, args, kw, st, n):
        if fv.op == "ite":
            return self.split(st, fv.a[0], lambda s: self.call(fv.a[1], args, kw, s, n), lambda s: self.call(fv.a[2], args, kw, s, n))
        if fv is UNBOUND:
            return unk("unbound call")
        if fv.op == "func":
            return self.call_func(self.prog.nodes[fv.a[0]], args, kw, st, n)
        if fv.op == "rawfunc":
            return self.call_func(self.prog.nodes[fv.a[0]], args, kw, st, n, closure=fv.a[1], raw=True)
        if fv.op == "cachedfunc":
            node = self.prog.nodes[fv.a[0]]
            self.ev("cachedcall", st, n, fn=node, args=args)
            return self.call_func(node, args, kw, st, n)
        if fv.op == "clo":
            return self.call_func(self.prog.nodes[fv.a[0]], args, kw, st, n, closure=fv.a[1])
        if fv.op == "bound":
            return self.call(fv.a[0], [fv.a[1]] + list(args), kw, st, n)
        if fv.op == "cls":
            return self.construct(self.prog.nodes[fv.a[0]], args, kw, st, n)
        if fv.op == "partial":
            k2 = dict(fv.a[2])
            k2.update(kw)
            return self.call(fv.a[0], list(fv.a[1]) + list(args), k2, st, n)
        if fv.op == "meth":
            return self.lib.call_method(self, fv.a[0], fv.a[1], args, kw, st, n)
        if fv.op == "ext":
            return self.lib.call_ext(self, fv.a[0], args, kw, st, n)
        if fv.op == "extmeth":
            return self.lib.call_extmeth(self, fv, args, kw, st, n)
        if fv.op == "ref":
            k = self.objkind(st, fv.a[0])
            if isinstance(k, tuple):
                m = self.prog.find_method(self.prog.nodes[k[1]], "__call__")
                if m is not None:
                    return self.call_func(m, [fv] + list(args), kw, st, n)
        if fv.op in ("sym", "app", "fld", "attr") and self.opaque is not None:
            r = self.opaque(self, fv, args, kw, st, n)
            if r is not None:
                return r
        if fv.op == "typeof":
            return unk("typeof call")
        if fv is NONE or kind(fv) in ("int", "float", "str", "bool"):
            self.err(st, n, "type", "value is not callable")
            self.raise_(st, "TypeError", n)
            return unk("notcallable")
        if fv.op == "extv" and "." in str(fv.a[0]):
            # an object of another library is called
            self.lib.ext_ev(self, st, n, "()", args, kw, fv)
            return mk("extv", "()", fv, *[self.num(st, x) for x in args])
        self.ev("unkcall", st, n, fn=fv, args=args, kw=kw)
        self.note_unk(st, n, "call of " + fv.op)
        return unk("call", fv, *args)

    def bind_args(self, node, args, kw, st, n, fid, closure=None):
        """returns dict name->term or None on arity error"""
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        pos = list(args)
        name = getattr(node, "name", "<lambda>")
        star = [i for i, x in enumerate(pos) if x.op == "star"]
        if star:
            i = star[0]
            before, sv = pos[:i], pos[i].a[0]
            for p, v in zip(params, before):
                out[p] = v
            rest = params[len(before):]
            if len(before) > len(params) and not a.vararg:
                self.err(st, n, "arity", "%s() takes %d positional arguments" % (name, len(params)))
                return None
            if rest and not a.vararg:
                for j, p in enumerate(rest):
                    if p not in kw:
                        out[p] = self.getitem(sv, const(j), st, n)
            elif a.vararg:
                out[a.vararg.arg] = mk("tuple", *before[len(params):], *[mk("star", sv)]) if before[len(params):] else sv
        else:
            if len(pos) > len(params):
                if a.vararg is None:
                    self.err(st, n, "arity", "%s() takes %d positional arguments but %d were given" % (name, len(params), len(pos)))
                    return None
                out[a.vararg.arg] = mk("tuple", *pos[len(params):])
                pos = pos[: len(params)]
            elif a.vararg is not None:
                out[a.vararg.arg] = mk("tuple")
            for p, v in zip(params, pos):
                out[p] = v
        kwo = [x.arg for x in a.kwonlyargs]
        extra = {}
        unknown_kw = None
        for k, v in kw.items():
            if k == "**":
                unknown_kw = v
                continue
            if k in params or k in kwo:
                if k in out and not star:
                    self.err(st, n, "arity", "%s() got multiple values for argument '%s'" % (name, k))
                    return None
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.err(st, n, "arity", "%s() got an unexpected keyword argument '%s'" % (name, k))
                return None
        if a.kwarg is not None:
            if unknown_kw is not None and not extra:
                out[a.kwarg.arg] = unknown_kw
            else:
                out[a.kwarg.arg] = self.new_dict(st, [mk("kv", const(k), v) for k, v in extra.items()])
        nd = len(a.defaults)
        for p, d in zip(params[len(params) - nd:], a.defaults):
            if p not in out:
                out[p] = self.default_value(node, p, d, st, closure)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in out and d is not None:
                out[x.arg] = self.default_value(node, x.arg, d, st, closure)
        for p in params + kwo:
            if p not in out:
                if star or unknown_kw is not None:
                    out[p] = unk("stararg " + p)
                    continue
                self.err(st, n, "arity", "%s() missing required argument '%s'" % (name, p))
                return None
        return out

    def default_value(self, node, p, d, st, closure):
        if closure is not None:
            v = st.s.get((closure, "#dflt", d._tid))
            if v is not None:
                return v
        key = ("d", node._tid, p)
        if key in st.s:
            return st.s[key]
        self.fstack.append(FnCtx(Frame(("dfltfr", node._tid), node._mod, None)))
        try:
            v = self.eval_fixed(d, st, ("dflt", node._tid, p))
        finally:
            self.fstack.pop()
        st.s[key] = v
        return v

    def decorated(self, node, closure, st):
        """the value the decorators of a function leave under its name"""
        fv = mk("rawfunc", node._tid, closure)
        for d in reversed(node.decorator_list):
            nm = ast.unparse(d).split("(")[0].split(".")[-1]
            if nm in PLAINDECO or nm == "contextmanager":
                continue
            self.fstack.append(FnCtx(Frame("root", node._mod, None)))
            try:
                dv = self.eval(d, st)
                fv = self.call(dv, [fv], {}, st, node)
            finally:
                self.fstack.pop()
        return fv

    def call_func(self, node, args, kw, st, n, closure=None, raw=False):
        self.callcount += 1
        if isinstance(node, ast.FunctionDef) and node.decorator_list:
            names = [ast.unparse(d).split("(")[0].split(".")[-1] for d in node.decorator_list]
            if not raw and any(x not in PLAINDECO and x != "contextmanager" for x in names):
                return self.call(self.decorated(node, closure, st), args, kw, st, n)
            if "contextmanager" in names:
                b = self.bind_args(node, args, kw, st, n, None, closure)
                if b is None:
                    self.raise_(st, "TypeError", n)
                    return unk("arity")
                return mk("extv", "ctxgen", node._tid, tuple(sorted(b.items(), key=lambda x: x[0])), closure)
        if isinstance(node, ast.FunctionDef):
            h = self.contracts.get(node._tid)
            if h is not None:
                b = self.bind_args(node, args, kw, st, n, None, closure)
                if b is None:
                    self.raise_(st, "TypeError", n)
                    return unk("arity")
                r = h(self, st, b, n)
                if r is not None:
                    return r
        if len(self.fstack) > 40 or sum(1 for c in self.fstack if c.frame.node is node) > 3:
            self.note_unk(st, n, "recursion")
            return unk("recursion")
        b = self.bind_args(node, args, kw, st, n, None, closure)
        if b is None:
            self.raise_(st, "TypeError", n)
            return unk("arity")
        return self.enter(node, b, st, n, closure)

    def enter(self, node, b, st, n, closure=None, at_yield=None):
        if isinstance(node, ast.FunctionDef):
            self.analysed.add(self.prog.qual(node))
        self.nfid += 1
        fid = "f%d" % self.nfid
        fr = Frame(fid, node._mod, node, parent=self.frames.get(closure) if closure is not None else None)
        self.frames[fid] = fr
        ctx = FnCtx(fr)
        ctx.at_yield = at_yield
        for k, v in b.items():
            st.s[(fid, k)] = v
        self.fstack.append(ctx)
        self.path.append(n._tid if n is not None and hasattr(n, "_tid") else "entry")
        ls = self.loopstack
        self.loopstack = list(ls)
        try:
            if isinstance(node, ast.Lambda):
                v = self.eval(node.body, st)
                if st.pc:
                    ctx.returns.append((st.copy(), v, 0))
                st.pc = 0
            elif is_generator(node) and at_yield is None:
                v = self.lib.run_generator(self, node, st, ctx)
                if st.pc:
                    ctx.returns.append((st.copy(), v, 0))
                    st.pc = 0
            else:
                self.block(node.body, st)
                if st.pc:
                    ctx.returns.append((st.copy(), NONE, 0))
                    st.pc = 0
        finally:
            self.fstack.pop()
            self.path.pop()
            self.loopstack = ls
        rets = [(s, v) for s, v, _ in ctx.returns if s.pc]
        if not rets:
            st.pc = 0
            return unk("noreturn")
        acc, val = rets[0]
        for s, v in rets[1:]:
            g = brestrict(acc.pc, bor(acc.pc, s.pc))
            if v.op == "tuple" and val.op == "tuple" and len(v.a) == len(val.a):
                val = mk("tuple", *[x if x is y else ite(g, x, y) for x, y in zip(val.a, v.a)])
            else:
                val = ite(g, val, v)
            acc = self.join2(acc, s)
        if not fr.captured:
            for k in [k for k in acc.s if k[0] == fid]:
                del acc.s[k]
        self.become(st, acc)
        return val

    def construct(self, node, args, kw, st, n):
        ref = self.new_inst(st, node._tid)
        decs = [ast.unparse(d).split("(")[0].split(".")[-1] for d in node.decorator_list]
        m = self.prog.find_method(node, "__init__")
        if m is not None:
            self.call_func(m, [ref] + list(args), kw, st, n)
        elif "dataclass" in decs:
            fields = [(s.target.id, s.value) for s in node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
            vals = dict(zip([f for f, _ in fields], args))
            for k, v in kw.items():
                vals[k] = v
            for f, d in fields:
                if f in vals:
                    self.set_field(st, ref.a[0], f, vals[f], n)
                elif d is not None:
                    self.fstack.append(FnCtx(Frame(("clsfr", node._tid), node._mod, None)))
                    try:
                        v = self.eval(d, st)
                        if v.op == "unk" or (v.op == "app" and v.a[0] == "field"):
                            v = unk("dataclass default")
                    finally:
                        self.fstack.pop()
                    self.set_field(st, ref.a[0], f, v, n)
        elif any(ast.unparse(b).split(".")[-1] == "NamedTuple" for b in node.bases):
            fields = [(s.target.id, s.value) for s in node.body if isinstance(s, ast.AnnAssign)]
            vals = dict(zip([f for f, _ in fields], args))
            vals.update(kw)
            items = []
            for f, d in fields:
                v = vals.get(f)
                if v is None and d is not None:
                    v = self.eval(d, st)
                items.append(v if v is not None else unk("nt"))
            return mk("ntup", node._tid, tuple(f for f, _ in fields), *items) if False else mk("tuple", *items)
        elif args or kw:
            if not any(self.prog.lookup(node._mod.name, b.id) is None or self.prog.lookup(node._mod.name, b.id)[0] == "ext"
                       for b in node.bases if isinstance(b, ast.Name)) and not node.bases:
                self.err(st, n, "arity", "%s() takes no arguments" % node.name)
        return ref

    # comprehensions
    def e_ListComp(self, n, st):
        parts = self.comp(n, n.generators, lambda s: self.eval(n.elt, s), st)
        return self.new_list(st, parts)

    def e_SetComp(self, n, st):
        parts = self.comp(n, n.generators, lambda s: self.eval(n.elt, s), st)
        return mk("setl", mklist(parts))

    def e_GeneratorExp(self, n, st):
        parts = self.comp(n, n.generators, lambda s: self.eval(n.elt, s), st)
        return self.new_list(st, parts)

    def e_DictComp(self, n, st):
        parts = self.comp(n, n.generators, lambda s: mk("kv", self.eval(n.key, s), self.eval(n.value, s)), st)
        if all(p.op == "e" for p in parts):
            return self.new_dict(st, [p.a[0] for p in parts])
        loc = self.alloc()
        st.s[(loc, "k")] = "dict"
        st.s[(loc, "d")] = mk("dictl", mklist(parts))
        return mk("ref", loc, ())

    def comp(self, n, gens, elt, st):
        """evaluate a comprehension as an append loop; returns list parts"""
        fr0 = self.fstack[-1].frame
        self.nfid += 1
        fid = "c%d" % self.nfid
        fr = Frame(fid, fr0.module, None, parent=fr0)
        tg = set()
        for g in gens:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    tg.add(x.id)
        fr.locals = tg
        self.frames[fid] = fr
        acc = self.new_list(st, [])
        ctx = FnCtx(fr)
        # first iterable is evaluated in the enclosing scope
        it0 = self.eval(gens[0].iter, st)
        self.fstack.append(ctx)
        try:
            def level(i, s):
                it = it0 if i == 0 else self.eval(gens[i].iter, s)
                if s.pc == 0:
                    return

                def body(z):
                    c = 1
                    for t in gens[i].ifs:
                        c = band(c, self.cond(t, z))
                    a, b = self.fork(z, c)
                    if a.pc:
                        if i + 1 < len(gens):
                            level(i + 1, a)
                        else:
                            v = elt(a)
                            if a.pc:
                                l = self.list_content(a, acc)
                                a.s[(acc.a[0], "l")] = self.lib.lappend(l, [e_(v)])
                    self.become(z, self.join([a, b]))

                self.for_over(gens[i], it, s, lambda z, v: self.assign(gens[i].target, v, z), body)

            for g in gens:
                if not hasattr(g, "_tid"):
                    g._tid = n._tid + "g"
            level(0, st)
        finally:
            self.fstack.pop()
        if st.pc == 0:
            return []
        l = self.list_content(st, acc)
        for k in [k for k in st.s if k[0] == fid]:
            del st.s[k]
        if l.op == "list":
            return list(l.a)
        return [mk("lst", l)]

    def e_NamedExpr(self, n, st):
        v = self.eval(n.value, st)
        fr = self.fstack[-1].frame
        # walrus in comprehension binds in the enclosing function
        while fr.node is None and fr.parent is not None and n.target.id not in fr.locals:
            fr = fr.parent
        st.s[(fr.fid, n.target.id)] = v
        return v

    def e_JoinedStr(self, n, st):
        parts = []
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts.append(const(str(x.value)))
            else:
                v = self.eval(x.value, st)
                spec = ""
                if x.format_spec is not None:
                    sp = self.e_JoinedStr(x.format_spec, st)
                    spec = cval(sp) if sp.op == "const" else "?"
                parts.append(self.lib.fmtv(self, st, v, spec, x.conversion))
        return self.lib.mkstr(parts)

    def e_FormattedValue(self, n, st):
        return self.lib.mkstr([self.lib.fmtv(self, st, self.eval(n.value, st), "", -1)])

    def e_Starred(self, n, st):
        return mk("star", self.eval(n.value, st))

    def e_Yield(self, n, st):
        v = self.eval(n.value, st) if n.value is not None else NONE
        h = getattr(self.fstack[-1], "at_yield", None)
        if h is not None:
            h(st, v)
            return NONE
        acc = getattr(self.fstack[-1], "gen", None)
        if acc is not None:
            l = self.list_content(st, acc)
            st.s[(acc.a[0], "l")] = self.lib.lappend(l, [e_(v)])
        else:
            self.note_unk(st, n, "yield")
        return NONE

    # ------------------------------------------------------------- entry
    MUTABLE = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Call)

    def shared_objects(self, st):
        """module level, class level and default-value objects exist before any call"""
        for m in self.prog.modules.values():
            for nm, d in list(m.defs.items()):
                if d[0] == "assign" and isinstance(d[1], self.MUTABLE) and ("g", m.name, nm) not in st.s:
                    self.def_value(self.prog.lookup(m.name, nm), st, d[1])
            for n in m.tree.body:
                if isinstance(n, ast.ClassDef):
                    for s in n.body:
                        t = s.targets[0] if isinstance(s, ast.Assign) else getattr(s, "target", None)
                        if isinstance(t, ast.Name) and isinstance(getattr(s, "value", None), self.MUTABLE) and ("c", n._tid, t.id) not in st.s:
                            self.class_attr(n, t.id, st)
        for f in self._toplevel():
            a = f.args
            ps = [x.arg for x in a.posonlyargs + a.args]
            for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
                if isinstance(d, self.MUTABLE):
                    self.default_value(f, p, d, st, None)

    def _toplevel(self):
        r = self.prog.__dict__.get("_top")
        if r is None:
            r = self.prog._top = []
            for m in self.prog.modules.values():
                for n in m.tree.body:
                    for x in [n] + (n.body if isinstance(n, ast.ClassDef) else []):
                        if isinstance(x, ast.FunctionDef):
                            r.append(x)
        return r

    def run(self, node, binding, st=None):
        """analyse a function with parameters bound to the given terms"""
        st = st or State()
        if not self.fstack:
            self.shared_objects(st)
        a = node.args
        b = dict(binding)
        params = [x.arg for x in a.posonlyargs + a.args]
        nd = len(a.defaults)
        self.fstack.append(FnCtx(Frame("root", node._mod, None)))
        for p, d in zip(params[len(params) - nd:], a.defaults):
            if p not in b:
                b[p] = self.default_value(node, p, d, st, None)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in b and d is not None:
                b[x.arg] = self.default_value(node, x.arg, d, st, None)
        if a.vararg and a.vararg.arg not in b:
            b[a.vararg.arg] = mk("tuple")
        if a.kwarg and a.kwarg.arg not in b:
            b[a.kwarg.arg] = self.new_dict(st, [])
        missing = [p for p in params if p not in b]
        if missing:
            raise KeyError("parameters %s of %s are not known to the analysis" % (missing, node.name))
        self.nrun += 1
        self.path.append(("run", self.nrun))
        try:
            names = [ast.unparse(d).split("(")[0].split(".")[-1] for d in getattr(node, "decorator_list", [])]
            if any(x not in PLAINDECO for x in names):
                k = {x: y for x, y in b.items() if not (a.vararg and a.vararg.arg == x) and not (a.kwarg and a.kwarg.arg == x)}
                pos = [k.pop(p) for p in params]
                v = self.call(self.decorated(node, None, st), pos, k, st, node)
            else:
                v = self.enter(node, b, st, node)
        finally:
            self.path.pop()
            self.fstack.pop()
        if not self.muted:
            self.results.append((node._tid, v))
            self.finals.append(st)
        return v, st


PLAINDECO = ("property", "cached_property", "staticmethod", "classmethod", "lru_cache", "cache", "setter", "getter", "deleter",
             "abstractmethod", "override", "final", "overload", "wraps")

_FAIL = (ast.Call, ast.Subscript, ast.BinOp, ast.Raise, ast.Import, ast.ImportFrom, ast.Assert, ast.Yield)


def may_fail(n):
    """a simple statement (or the head of a compound one) with an operation that can raise"""
    r = getattr(n, "_mayfail", None)
    if r is None:
        if isinstance(n, (ast.If, ast.While)):
            xs = [n.test]
        elif isinstance(n, ast.For):
            xs = [n.iter]
        elif isinstance(n, ast.With):
            xs = [i.context_expr for i in n.items]
        elif isinstance(n, (ast.Try, ast.FunctionDef, ast.ClassDef, ast.Pass)):
            xs = []
        else:
            xs = [n]
        r = n._mayfail = any(isinstance(x, _FAIL) for y in xs for x in ast.walk(y))
    return r


def single_index(cond, k):
    """the only integer k that can satisfy cond, or None"""
    ats = [a for a in tm.bsupport(cond) if k in tm.walk(a)]
    if not ats:
        return None
    bases = {}
    for a in ats:
        if a.op != "le":
            return None
        bases.setdefault(a.a[0], set()).add(a.a[1])
    for base, ks in bases.items():
        # the other atoms are left free: they may only strengthen the condition
        lo = min(ks)
        sat = []
        for v in range(min(ks) - 1, max(ks) + 2):
            m = {mk("le", base, c): (1 if v <= c else 0) for c in ks}
            r = bmap_atoms(cond, m)
            if r != 0:
                sat.append(v)
        if len(sat) != 1 or sat[0] == min(ks) - 1 and False:
            continue
        v = sat[0]
        if v < lo or v > max(ks):
            # unbounded side: not a single value
            continue
        p = tm.to_poly(base)
        c = p.get(((k, 1),))
        if c is None or abs(c) != 1 or any(k in tm.walk(a) for m, _ in p.items() for a, e in m if m != ((k, 1),)):
            continue
        rest = sub(base, mul(tm.const(int(c)), k))
        f = sub(tm.const(v), rest)
        return f if c == 1 else tm.neg(f)
    return None


def bmap_atoms(b, m):
    return tm.bmap(b, lambda a: m[a] if a in m else tm.batom(a))


def is_generator(node):
    if not isinstance(node, ast.FunctionDef):
        return False
    st = list(node.body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(x))
    return False


CTXOK = ("open", "builtins.open", "file", "numpy.errstate", "warnings.", "suppress", "nullcontext", "matplotlib", "PIL", "imageio")

MUSH = {}
MUK = {}
MUDT = {}
LOOPN = {}
_sh0 = ar._shape


def _shape_ext(t):
    if t.op == "mu":
        if t.a[2] == "arr":
            s = MUSH.get((t.a[0], t.a[1]))
            k = MUK.get(t.a[0])
            if s is not None and k is not None and k is not t.a[3] and any(k in tm.walk(x) for x in s if isinstance(x, T)):
                s = tuple(subst(x, {k: t.a[3]}) for x in s)
            return s
        return () if t.a[2] in ar.SCALAR_KINDS else None
    return _sh0(t)


ar._shape = _shape_ext


def _at_mu(t, idx):
    return INTERPS[t.a[0][1]].resolve_mu(t, idx)


ar.AT_MU[0] = _at_mu
_dt0 = ar.dtype


def _dtype_ext(t):
    if t.op == "mu" and t.a[2] == "arr":
        return MUDT.get((t.a[0], t.a[1]))
    return _dt0(t)


ar.dtype = _dtype_ext
