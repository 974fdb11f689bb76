"""Models of Python built-ins, numpy, scipy and opaque external libraries."""
import ast
import builtins
import math
import string as _string

from . import arrays as ar
from . import fsys
from . import terms as tm
from .arrays import FULL, at, dimval, mkslice, shape, unk
from .terms import (
    FALSE, NONE, ONE, T, TRUE, UNBOUND, ZERO, add, asbdd, band, bite, bnot, bor, const, const_poly, cval, div, is_const,
    ite, kind, mk, mkbool, mul, neg, powi, sqrt, sub, subst, to_poly, tpow, truthy,
)

BUILTINS = set(dir(builtins))

try:
    import numpy as _np
    ND_ATTRS = set(dir(_np.ndarray))
except Exception:  # pragma: no cover
    _np = None
    ND_ATTRS = None

_oldshape = ar._shape


def _shape_lib(t):
    if t.op == "app" and t.a[1] == "arr":
        return t.a[2] if len(t.a) > 2 and isinstance(t.a[2], tuple) else None
    if t.op in ("extv", "item", "strv", "fmt", "exc", "fld", "range", "iterv", "typeof", "setv", "setl"):
        return None
    if t.op == "nz":
        return (ar.count_dim(t.a[0]),)
    return _oldshape(t)


ar._shape = _shape_lib


def IM():
    from . import interp
    return interp


def token(I, n):
    return mk("tok", getattr(n, "_tid", "?"), tuple(I.path), *[l.k for l in I.loopstack if l.k is not ZERO])


def raise_(I, st, n, exc, what=None, detail=None):
    if what:
        I.err(st, n, what, detail)
    I.raise_(st, exc, n)
    return unk(exc)


# ------------------------------------------------------------------ strings
def mkstr(parts):
    out = []
    for p in parts:
        ps = p.a if p.op == "strv" else (p,)
        for q in ps:
            if q.op == "const" and out and out[-1].op == "const" and isinstance(cval(q), str):
                out[-1] = const(cval(out[-1]) + cval(q))
            else:
                out.append(q)
    out = [x for x in out if not (x.op == "const" and cval(x) == "")] or [const("")]
    if len(out) == 1 and (out[0].op in ("const",) or out[0].op == "strv"):
        return out[0]
    return mk("strv", *out)


tm._REB["strv"] = lambda *p: mkstr(list(p))


def fmtv(I, st, v, spec, conv=-1):
    if v.op == "extv" and v.a[0] == "path":
        v = v.a[1]
    if v.op == "ite":
        return ite(v.a[0], fmtv(I, st, v.a[1], spec, conv), fmtv(I, st, v.a[2], spec, conv))
    if v.op == "const" and conv in (-1, ord("s"), "s", None) and "?" not in spec:
        try:
            return const(format(cval(v), spec))
        except Exception:
            pass
    if not spec and kind(v) == "str":
        return v
    return mk("fmt", I.num(st, v) if v.op != "tuple" else v, spec)


def fmt_check(I, st, v, spec, n):
    """numeric format of a value that is certainly text / None"""
    if spec and spec[-1] in "dfgeEGFbxXn%" :
        k = I.tkind(st, v)
        if k in ("str", "none", "tuple", "list", "dict"):
            I.err(st, n, "type", "format '%s' applied to %s" % (spec, k))


def str_format(I, st, s, args, kw, n):
    if s.op != "const":
        return mk("strv", mk("app", "format", "str", s, *args))
    parts = []
    auto = 0
    try:
        items = list(_string.Formatter().parse(cval(s)))
    except Exception:
        I.err(st, n, "type", "malformed format text")
        return mk("strv", mk("app", "format", "str", s, *args))
    if any(a.op == "star" for a in args):
        return mk("strv", mk("app", "format", "str", s, *args))
    for lit, field, spec, conv in items:
        if lit:
            parts.append(const(lit))
        if field is None:
            continue
        base = field.split(".")[0].split("[")[0]
        if base == "":
            j = auto
            auto += 1
            v = args[j] if j < len(args) else None
        elif base.isdigit():
            v = args[int(base)] if int(base) < len(args) else None
        else:
            v = kw.get(base)
            if v is None and "**" in kw:
                v = mk("extv", "kwarg", const(base))
        if v is None:
            return raise_(I, st, n, "IndexError", "type", "format text needs a missing argument '%s'" % field)
        if base != field:
            v = mk("extv", "fmtfield", v, const(field))
        fmt_check(I, st, v, spec or "", n)
        parts.append(fmtv(I, st, v, spec or "", conv))
    return mkstr(parts)


# ------------------------------------------------------------------ arithmetic
def arith(I, op, a, b, st, n):
    sa, sb = shape(a), shape(b)
    isarr = (sa is not None and len(sa)) or (sb is not None and len(sb))
    if op == "Add":
        return add(a, b)
    if op == "Sub":
        return sub(a, b)
    if op == "Mult":
        return mul(a, b)
    if op == "Div":
        c = const_poly(b)
        if c == 0 and kind(a) in ("int", "float", "num"):
            pass
        r = div(a, b)
        return r
    if op == "Pow":
        return tpow(a, b)
    if op in ("FloorDiv", "Mod"):
        nm = "floordiv" if op == "FloorDiv" else "mod"
        if isarr:
            return mk("ew", nm, a, b)
        return getattr(ar, nm)(a, b)
    if op == "MatMult":
        return mk("matmul", a, b)
    if op in ("BitAnd", "BitOr", "BitXor"):
        if isarr:
            if op == "BitXor":
                return mk("enot", mk("ecmp", "==", a, b))
            return mk("eand" if op == "BitAnd" else "eor", a, b)
        x, y = asbdd(a), asbdd(b)
        if (x is not None or kind(a) == "bool") and (y is not None or kind(b) == "bool"):
            x, y = truthy(a), truthy(b)
            return mkbool({"BitAnd": band(x, y), "BitOr": bor(x, y), "BitXor": bite(x, bnot(y), y)}[op])
    return mk("ew", op, a, b)


NUMK = ("int", "float", "num", "bool")


def binop(I, op, a, b, st, n):
    for x, y, sw in ((a, b, 0), (b, a, 1)):
        if x.op == "ite" and (_nonnum(I, st, x) or x.a[1].op == "ref" or x.a[2].op == "ref"):
            g = x.a[0]
            if sw:
                return I.split(st, g, lambda s: binop(I, op, a, x.a[1], s, n), lambda s: binop(I, op, a, x.a[2], s, n))
            return I.split(st, g, lambda s: binop(I, op, x.a[1], b, s, n), lambda s: binop(I, op, x.a[2], b, s, n))
    if op == "Div" and a.op == "extv" and a.a[0] == "path" and fsys.text(b) is not None:
        return fsys.path_meth(a, "joinpath", [b])
    ka, kb = I.tkind(st, a), I.tkind(st, b)
    if ka == "str" or kb == "str":
        if op == "Add":
            if ka == "str" and kb == "str":
                return mkstr([a, b])
            o = kb if ka == "str" else ka
            if o in NUMK + ("none", "tuple", "list", "dict", "func") or isinstance(o, tuple):
                return raise_(I, st, n, "TypeError", "type", "text joined with %s" % (o if isinstance(o, str) else "an object"))
            return mkstr([a, b])
        if op == "Mult":
            if ka == "str" and a.op == "const" and const_poly(b) is not None:
                return const(cval(a) * int(const_poly(b)))
            return mk("strv", mk("app", "rep", "str", a, b))
        if op == "Mod" and ka == "str":
            return mk("strv", mk("app", "pct", "str", a, b))
        if op == "Div" or op == "Sub":
            if ka == "str" and kb in NUMK or kb == "str" and ka in NUMK or (ka == kb == "str"):
                return raise_(I, st, n, "TypeError", "type", "arithmetic with text")
    seq = ("list", "tuple")
    if op == "Add" and ka in seq and kb in seq:
        if ka != kb:
            return raise_(I, st, n, "TypeError", "type", "list joined with tuple")
        if ka == "tuple":
            if a.op == "tuple" and b.op == "tuple":
                return mk("tuple", *a.a, *b.a)
            return unk("tuple+", a, b)
        return I.new_list(st, list_parts(I, st, a) + list_parts(I, st, b))
    if op == "Mult" and (ka in seq or kb in seq):
        l, c = (a, b) if ka in seq else (b, a)
        kc = I.tkind(st, c)
        if kc in ("int", "bool", "num", "any"):
            v = dimval(c)
            parts = list_parts(I, st, l)
            if v is not None and v <= 12:
                if l.op == "tuple":
                    return mk("tuple", *(l.a * v))
                return I.new_list(st, parts * v)
            if all(p.op == "e" for p in parts):
                bvv = ar.bv(max([ar.maxbv(p) for p in parts] + [-1]) + 1)
                return I.new_list(st, IM().mkseg(bvv, c, parts))
            return I.new_list(st, [mk("unkpart", l, c)])
        if kc in ("float", "str", "none") :
            return raise_(I, st, n, "TypeError", "type", "sequence multiplied by %s" % kc)
    if ka in ("list", "tuple", "dict") and kb in NUMK or kb in ("list", "tuple", "dict") and ka in NUMK:
        return raise_(I, st, n, "TypeError", "type", "arithmetic between a sequence and a number")
    if a is NONE or b is NONE:
        if not (op in ("BitOr",)):
            return raise_(I, st, n, "TypeError", "none-op", "arithmetic with None")
    if a.op in ("setv", "setl") or b.op in ("setv", "setl"):
        return mk("extv", "setop", a, b)
    if op == "Mult" and ka == "list" and kb == "list":
        return raise_(I, st, n, "TypeError", "type", "product of lists")
    for x, k in ((a, ka), (b, kb)):
        if isinstance(k, tuple):
            cls = I.prog.nodes.get(k[1])
            nm = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "MatMult": "__matmul__"}.get(op)
            m = I.prog.find_method(cls, nm) if cls is not None and nm else None
            if m is not None and x is a:
                return I.call_func(m, [a, b], {}, st, n)
    x, y = I.num(st, a), I.num(st, b)
    if x.op in ("extv", "item", "fld") or y.op in ("extv", "item", "fld"):
        return mk("extv", "op" + op, x, y)
    return I.wrap(st, arith(I, op, x, y, st, n))


def _nonnum(I, st, x):
    for y in (x.a[1], x.a[2]):
        if y.op == "ite":
            if _nonnum(I, st, y):
                return True
        elif y.op in ("tuple",) or y is NONE or kind(y) == "str":
            return True
    return False


# ------------------------------------------------------------------ lists
def list_parts(I, st, v):
    im = IM()
    items = I.iter_known(v, st)
    if items is not None:
        return [im.e_(x) for x in items]
    if v.op == "ref" and I.objkind(st, v.a[0]) == "list":
        l = I.list_content(st, v)
        if l.op == "list":
            return list(l.a)
        return [mk("lst", l)]
    N, elem, ok = iter_domain(I, v, st)
    if ok:
        g = ar.gi("lp")
        x = elem(st, g)
        b = ar.bv(ar.maxbv(x) + 1)
        return im.mkseg(b, N, [im.e_(subst(x, {g: b}))])
    return [mk("unkpart", v)]


def lappend(l, parts):
    if l.op == "list":
        return IM().mklist(list(l.a) + list(parts))
    if l.op == "ite":
        return ite(l.a[0], lappend(l.a[1], parts), lappend(l.a[2], parts))
    return IM().mklist([mk("lst", l)] + list(parts))


def list_extend(I, st, ref, v, n):
    I.set_list(st, ref, lappend(I.list_content(st, ref), list_parts(I, st, v)), n, what="extend", val=v)


def part_len(p):
    if p.op == "e":
        return ONE
    if p.op == "seg":
        if all(q.op == "e" for q in p.a[2]):
            return mul(const(len(p.a[2])), p.a[1])
        return None
    if p.op == "mu":
        return mk("len", p)
    return None


def list_len(l):
    if l.op == "ite":
        a, b = list_len(l.a[1]), list_len(l.a[2])
        return ite(l.a[0], a, b)
    if l.op != "list":
        return mk("len", l)
    if len(l.a) > 50 and all(p.op == "e" for p in l.a):
        return const(len(l.a))
    r = ZERO
    for p in l.a:
        x = part_len(p)
        if x is None:
            return mk("len", l)
        r = add(r, x)
    return r


def certainly_pos(n):
    p = to_poly(n)
    if not p:
        return False
    if any(c < 0 for c in p.values()):
        return False
    if p.get((), 0) >= 1:
        return all(x.op in ("len", "dim", "ctr", "pos", "last", "gi", "bv") or x in tm.NONNEG for m in p for x, e in m)
    return any(all(x in tm.POSITIVE or x.op == "dim" for x, e in m) for m in p)


def seg_item(p, i):
    """i-th element of a seg with single-item body"""
    if len(p.a[2]) == 1 and p.a[2][0].op == "e":
        return subst(p.a[2][0].a[0], {p.a[0]: i})
    return None


def list_get(l, idx):
    """element of a list content term at integer index term"""
    if l.op == "ite":
        return ite(l.a[0], list_get(l.a[1], idx), list_get(l.a[2], idx))
    if l.op != "list":
        return mk("item", l, idx)
    c = const_poly(idx)
    if c is not None and len(l.a) > 50 and -len(l.a) <= c < len(l.a) and all(p.op == "e" for p in l.a):
        return l.a[int(c)].a[0]
    if c is not None and c < 0:
        k = -int(c)  # k-th from the end
        parts = list(l.a)

        def back(j, k):
            if j < 0:
                return unk("list-index")
            p = parts[j]
            if p.op == "e":
                return p.a[0] if k == 1 else back(j - 1, k - 1)
            if p.op == "seg":
                m = len(p.a[2])
                if any(q.op != "e" for q in p.a[2]):
                    return mk("item", l, idx)
                q, r = divmod(k - 1, m)
                it = subst(p.a[2][m - 1 - r].a[0], {p.a[0]: sub(p.a[1], const(q + 1))})
                cnd = tm.cmp_bdd("<=", const(q + 1), p.a[1])
                if certainly_pos(sub(p.a[1], const(q))):
                    cnd = 1
                if cnd == 1:
                    return it
                if q == 0 and r == 0:
                    return ite(cnd, it, back(j - 1, k))
                return ite(cnd, it, unk("list-index"))
            return mk("item", mk("list", *parts[: j + 1]), const(-k))

        return back(len(parts) - 1, k)
    off = ZERO
    res = []
    tail = None
    for p in l.a:
        n = part_len(p)
        if n is None or p.op == "mu":
            tail = p
            break
        if p.op == "e":
            res.append((off, ONE, (lambda p: lambda i: p.a[0])(p)))
        else:
            if len(p.a[2]) != 1:
                tail = p
                break
            res.append((off, n, (lambda p: lambda i: seg_item(p, i))(p)))
        off = add(off, n)
    r = mk("item", l, idx) if tail is not None else None
    for of, n, f in reversed(res):
        if not ar._maybe_in(idx, of, n):
            continue
        d = const_poly(sub(idx, of))
        x = f(sub(idx, of))
        r = x if r is None else ite(tm.cmp_bdd("<", idx, add(of, n)), x, r)
        if d is not None and d >= 0 and n is ONE:
            pass
    return r if r is not None else unk("list-index", l, idx)


tm._REB["item"] = lambda b, *i: list_get(b, i[0]) if b.op in ("list", "ite") and len(i) == 1 else mk("item", b, *i)


def list_slice(l, sl):
    """parts of l[lo:hi] or None"""
    lo, hi, stp = sl.a
    if l.op != "list":
        return None
    parts = list(l.a)
    if stp is not NONE and dimval(stp) != 1:
        if dimval(stp) == -1 and lo is NONE and hi is NONE and all(p.op == "e" for p in parts):
            return parts[::-1]
        return None
    c = dimval(lo) if lo is not NONE else 0
    h = None
    if hi is not NONE:
        h = dimval(hi)
        if h is None:
            return None
    if c is None:
        return None
    if all(p.op == "e" for p in parts):
        return parts[c:h]
    if c < 0 or (h is not None and h >= 0):
        if h is not None and h >= 0 and c >= 0 and all(p.op == "e" for p in parts[:h]) and len(parts) >= h:
            return parts[c:h]
        return None
    out = list(parts)
    k = c
    while k > 0:
        if not out:
            return []
        p = out[0]
        if p.op == "e":
            out.pop(0)
            k -= 1
            continue
        if p.op == "seg" and len(p.a[2]) == 1:
            g = ar.gi("sl")
            body = subst(p.a[2][0], {p.a[0]: add(g, const(k))})
            b = ar.bv(ar.maxbv(body) + 1)
            out[0:1] = IM().mkseg(b, sub(p.a[1], const(k)), [subst(body, {g: b})])
            k = 0
            continue
        return None
    if h is not None:
        k = -h
        while k > 0:
            if not out:
                return []
            p = out[-1]
            if p.op == "e":
                out.pop()
                k -= 1
                continue
            if p.op == "seg" and len(p.a[2]) == 1:
                out[-1:] = IM().mkseg(p.a[0], sub(p.a[1], const(k)), list(p.a[2]))
                k = 0
                continue
            return None
    return out


def list_set(l, idx, v):
    im = IM()
    c = dimval(idx)
    if l.op != "list":
        return im.mklist([mk("unkpart", l)])
    parts = list(l.a)
    if c is not None and c < 0:
        k = -c
        j = len(parts) - 1
        while j >= 0:
            p = parts[j]
            if p.op == "e":
                if k == 1:
                    parts[j] = im.e_(v)
                    return mk("list", *parts)
                k -= 1
                j -= 1
                continue
            if p.op == "seg" and len(p.a[2]) == 1 and k == 1 and certainly_pos(p.a[1]):
                parts[j:j + 1] = im.mkseg(p.a[0], sub(p.a[1], ONE), list(p.a[2])) + [im.e_(v)]
                return mk("list", *parts)
            break
    elif c is not None:
        if len(parts) > c and all(p.op == "e" for p in parts[: c + 1]):
            parts[c] = im.e_(v)
            return mk("list", *parts)
    return im.mklist([mk("unkpart", l, idx, v)])


# ------------------------------------------------------------------ iteration
def iter_items(I, v, st):
    """iterv with statically known items"""
    k = v.a[0]
    if k == "enumerate":
        it = I.iter_known(v.a[1], st)
        if it is None:
            return None
        return [mk("tuple", add(v.a[2], const(i)), x) for i, x in enumerate(it)]
    if k == "zip":
        its = [I.iter_known(x, st) for x in v.a[1:]]
        if not its or any(i is None for i in its):
            return None
        return [mk("tuple", *xs) for xs in zip(*its)]
    if k == "range":
        lo, hi, stp = (dimval(x) for x in v.a[1:])
        if None in (lo, hi, stp) or stp == 0:
            return None
        r = range(lo, hi, stp)
        return [const(i) for i in r] if len(r) <= 16 else None
    if k == "reversed":
        it = I.iter_known(v.a[1], st)
        return None if it is None else it[::-1]
    return None


def iter_domain(I, it, st):
    """(N, elem(state, k), ok)"""
    if it.op == "iterv":
        k = it.a[0]
        if k == "range":
            lo, hi, stp = it.a[1:]
            s = dimval(stp)
            if s == 1:
                return sub(hi, lo), (lambda st, k: add(lo, k)), True
            if s == -1:
                return sub(lo, hi), (lambda st, k: sub(lo, k)), True
            return mk("len", it), (lambda st, k: add(lo, mul(k, stp))), True
        if k == "enumerate":
            N, el, ok = iter_domain(I, it.a[1], st)
            return N, (lambda st, k: mk("tuple", add(it.a[2], k), el(st, k))), ok
        if k == "zip":
            ds = [iter_domain(I, x, st) for x in it.a[1:]]
            if not ds:
                return ZERO, (lambda st, k: NONE), True
            N = ds[0][0]
            for d in ds[1:]:
                if d[0] is not N:
                    x, y = const_poly(sub(N, d[0])), None
                    if x is not None:
                        N = d[0] if x > 0 else N
                    else:
                        N = ar.ew_scalar("min2", [N, d[0]])
            return N, (lambda st, k: mk("tuple", *[d[1](st, k) for d in ds])), all(d[2] for d in ds)
        if k == "reversed":
            N, el, ok = iter_domain(I, it.a[1], st)
            return N, (lambda st, k: el(st, sub(sub(N, ONE), k))), ok
        return mk("len", it), (lambda st, k: mk("item", it, k)), True
    if it.op == "ref":
        kd = I.objkind(st, it.a[0])
        if kd == "list":
            l = I.list_content(st, it)
            return list_len(l), (lambda st, k: list_get(l, k)), True
        if kd == "dict":
            d = I.dictc(st, it.a[0])
            if d is not None and d.op == "dictl":
                l = d.a[0]
                return list_len(l), (lambda st, k: mk("item", l, k)), True
            return mk("len", mk("dictc", it)), (lambda st, k: mk("item", it, k)), True
        if kd == "arr":
            s = shape(I.content(st, it))
            if s is None or not s:
                return mk("len", it), (lambda st, k: mk("item", it, k)), True
            return s[0], (lambda st, k: getitem(I, it, k, st, None)), True
        if isinstance(kd, tuple):
            m = I.prog.find_method(I.prog.nodes[kd[1]], "__iter__")
            if m is not None:
                return iter_domain(I, I.call_func(m, [it], {}, st, m), st)
        return mk("len", it), (lambda st, k: mk("item", it, k)), True
    if it.op == "tuple":
        l = mk("list", *[IM().e_(x) for x in it.a])
        return const(len(it.a)), (lambda st, k: list_get(l, k)), True
    s = shape(it)
    if s is not None and len(s):
        return s[0], (lambda st, k: getitem(I, it, k, st, None)), True
    if it.op == "ite":
        a = iter_domain(I, it.a[1], st)
        b = iter_domain(I, it.a[2], st)
        g = it.a[0]
        return ite(g, a[0], b[0]), (lambda st, k: ite(g, a[1](st, k), b[1](st, k))), a[2] and b[2]
    return mk("len", it), (lambda st, k: mk("item", it, k)), True


# ------------------------------------------------------------------ comparison / membership
def ecmp(op, x, y):
    if op == "<":
        return mk("ecmp", "<", x, y)
    if op == ">":
        return mk("ecmp", "<", y, x)
    if op == "<=":
        return mk("ecmp", "<=", x, y)
    if op == ">=":
        return mk("ecmp", "<=", y, x)
    return mk("ecmp", op, x, y)


def contains(I, st, cont, x, n):
    if cont.op == "ite":
        return bite(cont.a[0], contains(I, st, cont.a[1], x, n), contains(I, st, cont.a[2], x, n))
    if x.op == "ite" and not (shape(cont) or I._is_arr(st, cont)):
        return bite(x.a[0], contains(I, st, cont, x.a[1], n), contains(I, st, cont, x.a[2], n))
    k = I.tkind(st, cont)
    if cont is NONE:
        raise_(I, st, n, "TypeError", "none-op", "membership test in None")
        return 0
    if cont.op in ("tuple", "setv"):
        r = 0
        for y in cont.a:
            r = bor(r, eq(I, st, x, y, n))
        return r
    if k == "list":
        l = I.list_content(st, cont)
        if l.op == "list":
            r = 0
            for p in l.a:
                if p.op == "e":
                    r = bor(r, eq(I, st, x, p.a[0], n))
                elif p.op == "seg" and len(p.a[2]) == 1 and p.a[2][0].op == "e":
                    r = bor(r, tm.batom(mk("inset", ar.lam(mk("npa", mk("list", p), "dyn")), x)))
                else:
                    return tm.batom(mk("in?", x, l))
            return r
        return tm.batom(mk("in?", x, l))
    if k == "dict":
        d = I.dictc(st, cont.a[0])
        if d is not None and d.op == "dict" and all(p.op == "kv" for p in d.a):
            r = 0
            for p in d.a:
                r = bor(r, eq(I, st, x, p.a[0], n))
            return r
        return tm.batom(mk("in?", x, d if d is not None else cont))
    if k == "arr":
        return ar.inset(I.content(st, cont) if cont.op == "ref" else cont, I.num(st, x))
    if cont.op == "const" and isinstance(cval(cont), str) or cont.op == "strv" or k == "str":
        if x.op == "const" and isinstance(cval(x), str):
            if cont.op == "const":
                return 1 if cval(x) in cval(cont) else 0
            if cont.op == "strv" and any(p.op == "const" and cval(x) in cval(p) for p in cont.a):
                return 1
        elif kind(x) in NUMK + ("none",):
            raise_(I, st, n, "TypeError", "type", "'in' text with a non-text operand")
            return 0
        return tm.batom(mk("in?", x, cont))
    if k in ("int", "float"):
        raise_(I, st, n, "TypeError", "type", "membership test in a number")
        return 0
    return tm.batom(mk("in?", I.num(st, x), I.num(st, cont)))


def eq(I, st, a, b, n):
    v = I.compare_val("Eq", a, b, st, n)
    return I.truth(v, st)


def seq_compare(I, st, o, a, b, n):
    if o in ("==", "!="):
        r = None
        la, lb = I.iter_known(a, st), I.iter_known(b, st)
        ka, kb = I.tkind(st, a), I.tkind(st, b)
        if ka != kb and {ka, kb} & {"str", "int", "float", "none", "bool", "tuple", "num"} and "any" not in (ka, kb) and "arr" not in (ka, kb):
            r = 0
        elif a.op == "iterv" and kb in ("list", "tuple", "dict") or b.op == "iterv" and ka in ("list", "tuple", "dict"):
            r = 0  # a range or an iterator never equals a list
        elif "arr" in (ka, kb):
            return truthy(mk("ecmp", o, I.num(st, a), I.num(st, b)))
        elif la is not None and lb is not None and ka == kb:
            if len(la) != len(lb):
                r = 0
            else:
                r = 1
                for x, y in zip(la, lb):
                    r = band(r, eq(I, st, x, y, n))
        else:
            x, y = sorted((I.num(st, a), I.num(st, b)), key=lambda t: t.id)
            r = tm.batom(mk("seqeq", x, y))
        return r if o == "==" else bnot(r)
    return tm.batom(mk("seqcmp", o, I.num(st, a), I.num(st, b)))


PYT = {"int": "int", "float": "float", "str": "str", "bool": "bool", "tuple": "tuple", "list": "list", "dict": "dict",
       "none": "NoneType"}


def type_of(I, st, v):
    k = I.tkind(st, v)
    if isinstance(k, tuple):
        return mk("cls", k[1])
    if k in PYT:
        return mk("ext", "builtins." + PYT[k])
    if k == "arr":
        return mk("ext", "numpy.ndarray")
    return mk("typeof", v)


def type_is(a, b):
    t, o = (a, b) if a.op == "typeof" else (b, a)
    v = t.a[0]
    if v.op == "ite":
        pass
    return tm.batom(mk("istype", v, o))


# ------------------------------------------------------------------ subscripts
def getitem(I, b, key, st, n):
    if b.op == "ite":
        return I.split(st, b.a[0], lambda s: getitem(I, b.a[1], key, s, n), lambda s: getitem(I, b.a[2], key, s, n))
    if b is NONE:
        return raise_(I, st, n, "TypeError", "none-op", "subscript of None")
    if b.op == "tuple":
        if key.op == "slice":
            lo, hi, stp = (None if x is NONE else dimval(x) for x in key.a)
            if all(x is NONE or dimval(x) is not None for x in key.a):
                return mk("tuple", *b.a[slice(lo, hi, stp)])
            return unk("tuple-slice", b)
        c = dimval(key)
        if c is not None:
            if -len(b.a) <= c < len(b.a):
                return b.a[c]
            return raise_(I, st, n, "IndexError", "index", "tuple index out of range")
        return list_get(mk("list", *[IM().e_(x) for x in b.a]), I.num(st, key))
    if b.op == "ref":
        k = I.objkind(st, b.a[0])
        if k == "arr":
            return arr_get(I, b, key, st, n)
        if k == "list":
            l = I.list_content(st, b)
            if key.op == "slice":
                p = list_slice(l, key)
                if p is None:
                    return I.new_list(st, [mk("unkpart", l, key)])
                return I.new_list(st, p)
            if key.op == "ite":
                return I.split(st, key.a[0], lambda s: getitem(I, b, key.a[1], s, n), lambda s: getitem(I, b, key.a[2], s, n))
            return list_get(l, key)
        if k == "dict":
            return dict_get(I, st, b, key, n, None)
        if isinstance(k, tuple):
            m = I.prog.find_method(I.prog.nodes[k[1]], "__getitem__")
            if m is not None:
                return I.call_func(m, [b, key], {}, st, n)
        return mk("item", b, key)
    if b.op == "const" and isinstance(cval(b), str):
        c = dimval(key) if key.op != "slice" else None
        if c is not None:
            s = cval(b)
            if -len(s) <= c < len(s):
                return const(s[c])
            return raise_(I, st, n, "IndexError", "index", "text index out of range")
        if key.op == "slice" and all(x is NONE or dimval(x) is not None for x in key.a):
            return const(cval(b)[slice(*[None if x is NONE else dimval(x) for x in key.a])])
        return mk("app", "stridx", "str", b, key)
    if kind(b) == "str":
        if b.op == "strv" and dimval(key) is not None and key.op != "slice":
            c = dimval(key)
            p = b.a[-1] if c < 0 else b.a[0]
            if p.op == "const" and (len(cval(p)) >= -c if c < 0 else len(cval(p)) > c):
                return const(cval(p)[c])
        return mk("app", "stridx", "str", b, key)
    s = shape(b)
    if s is not None and len(s):
        return arr_get(I, I.new_array(st, b), key, st, n)
    if kind(b) in ("int", "float", "bool"):
        return raise_(I, st, n, "TypeError", "type", "subscript of a number")
    kk = key if key.op != "ref" else I.num(st, key)
    if b.op in ("app", "mu", "unk", "fresh") and kind(b) == "arr":
        return mk("get", b, I.key_items(key, st))
    return mk("item", b, kk)


def arr_get(I, ref, key, st, n):
    c = I.content(st, ref)
    if key.op == "ite":
        return I.split(st, key.a[0], lambda s: arr_get(I, ref, key.a[1], s, n), lambda s: arr_get(I, ref, key.a[2], s, n))
    items = I.key_items(key, st)
    s = shape(c)
    if s is not None:
        nn = sum(1 for k in items if not (k is NONE or (is_const(k) and cval(k) is Ellipsis)))
        if nn > len(s) and not any(ar.is_mask(k) for k in items):
            return raise_(I, st, n, "IndexError", "index", "too many indices for array of dimension %d" % len(s))
    basic = all(k is NONE or k.op == "slice" or (is_const(k) and cval(k) is Ellipsis) or
                (shape(k) == () and kind(k) in ("int", "num", "any")) for k in items)
    t = mk("get", c, items)
    st_ = shape(t)
    if st_ is None:
        return t
    if st_ == ():
        return at(t, [])
    if basic:
        return mk("ref", ref.a[0], ref.a[1] + (("get", items),))
    return I.new_array(st, t)


def dict_get(I, st, b, key, n, default):
    d = I.dictc(st, b.a[0])
    if d is not None and d.op == "dict" and all(p.op == "kv" for p in d.a):
        r = None
        miss = 1
        for p in d.a:
            c = eq(I, st, p.a[0], key, n)
            if c == 0:
                continue
            miss = band(miss, bnot(c))
            r = p.a[1] if r is None else ite(c, p.a[1], r)
        if default is not None:
            return default if r is None else ite(bnot(miss), r, default)
        miss = tm.brestrict(miss, st.pc) if st.pc > 1 else miss
        if r is None or miss == 1:
            return raise_(I, st, n, "KeyError")
        if miss != 0 and kind(key) == "const":
            pass
        if miss != 0:
            s2 = st.copy()
            s2.pc = band(st.pc, miss)
            if s2.pc:
                I.raise_(s2, "KeyError", n)
                st.pc = band(st.pc, bnot(miss))
        return r
    if d is not None and d.op == "dictl":
        l = d.a[0]
        if l.op == "list" and len(l.a) == 1 and l.a[0].op == "seg" and len(l.a[0].a[2]) == 1:
            p = l.a[0]
            kv = p.a[2][0].a[0]
            if kv.op == "kv":
                kk = kv.a[0]
                if kk.op == "el" and len(kk.a) == 2 and kk.a[1] is p.a[0]:
                    r = subst(kv.a[1], {p.a[0]: ar.pos(kk.a[0], key)})
                    return r
                if kk is p.a[0]:
                    return subst(kv.a[1], {p.a[0]: key})
    r = mk("item", d if d is not None else b, key)
    return r if default is None else mk("extv", "dictget", r, default)


def setitem(I, b, key, v, st, n, aug=None):
    if st.pc == 0:
        return
    if b.op == "ite":
        x, y = I.fork(st, b.a[0])
        if x.pc:
            setitem(I, b.a[1], key, v, x, n, aug)
        if y.pc:
            setitem(I, b.a[2], key, v, y, n, aug)
        I.become(st, I.join([x, y]))
        return
    if b is NONE:
        raise_(I, st, n, "TypeError", "none-op", "item assignment to None")
        return
    if b.op == "ref":
        k = I.objkind(st, b.a[0])
        if k == "arr":
            items = I.key_items(key, st)
            val = I.num(st, v)
            I.store_array(st, b, items, val, n)
            return
        if k == "list":
            l = I.list_content(st, b)
            if key.op == "slice":
                if key is FULL:
                    new = IM().mklist(list_parts(I, st, v))
                else:
                    new = mk("list", mk("unkpart", l, key))
                I.set_list(st, b, new, n, what="setslice", val=v)
            else:
                I.set_list(st, b, list_set(l, I.num(st, key), v), n, what="setitem", val=v)
            return
        if k == "dict":
            dict_set(I, st, b, key, v, n)
            return
        if isinstance(k, tuple):
            m = I.prog.find_method(I.prog.nodes[k[1]], "__setitem__")
            if m is not None:
                I.call_func(m, [b, key, v], {}, st, n)
                return
    if b.op == "tuple" or kind(b) in ("str", "int", "float"):
        raise_(I, st, n, "TypeError", "type", "item assignment to an immutable value")
        return
    I.ev("extcall", st, n, name="setitem", obj=b, args=[key, v], kw={})


def dict_set(I, st, b, key, v, n):
    d = I.dictc(st, b.a[0])
    old = d
    if d is not None and d.op == "dict":
        items = list(d.a)
        for i, p in enumerate(items):
            if p.op == "kv" and p.a[0] is key:
                items[i] = mk("kv", key, v)
                break
        else:
            items.append(mk("kv", key, v))
        d = mk("dict", *items)
    else:
        d = mk("dictu", d if d is not None else NONE, key, v)
    st.s[(b.a[0], "d")] = d
    I.ev("store", st, n, loc=b.a[0], field="d", value=d, old=old, what="setitem", val=v, key=key)


def delitem(I, st, b, key, n):
    if b.op == "ref":
        k = I.objkind(st, b.a[0])
        if k == "list":
            l = I.list_content(st, b)
            c = dimval(key) if key.op != "slice" else None
            if l.op == "list" and c == -1 and l.a and l.a[-1].op == "e":
                I.set_list(st, b, mk("list", *l.a[:-1]), n, what="del")
            elif l.op == "list" and c is not None and all(p.op == "e" for p in l.a) and -len(l.a) <= c < len(l.a):
                ps = list(l.a)
                del ps[c]
                I.set_list(st, b, mk("list", *ps), n, what="del")
            elif c == -1 and l.op == "list" and l.a and l.a[-1].op == "seg":
                p = list_slice(l, mkslice(NONE, const(-1), NONE))
                I.set_list(st, b, mk("list", *p) if p is not None else mk("list", mk("unkpart", l)), n, what="del")
            else:
                I.set_list(st, b, mk("list", mk("unkpart", l)), n, what="del")
            return
        if k == "dict":
            d = I.dictc(st, b.a[0])
            if d is not None and d.op == "dict":
                d = mk("dict", *[p for p in d.a if not (p.op == "kv" and p.a[0] is key)])
                st.s[(b.a[0], "d")] = d
                I.ev("store", st, n, loc=b.a[0], field="d", value=d, old=None, what="del")
            return
    I.ev("extcall", st, n, name="delitem", obj=b, args=[key], kw={})


# ------------------------------------------------------------------ attributes
def obj_attr(I, b, k, name, st, n):
    if k == "arr":
        c = I.content(st, b)
        s = shape(c)
        if name == "shape":
            return mk("tuple", *s) if s is not None else mk("extv", "shape", c)
        if name == "T":
            if s is not None and len(s) == 1:
                return b
            return mk("ref", b.a[0], b.a[1] + (("transpose", None),))
        if name == "size":
            return ar.prod(s) if s is not None else mk("app", "size", "int", c)
        if name == "ndim":
            return const(len(s)) if s is not None else mk("app", "ndim", "int", c)
        if name == "dtype":
            return mk("extv", "dtype", c)
        if name == "flat":
            return mk("ref", b.a[0], b.a[1] + (("reshape", (ar.prod(s),)),)) if s is not None else unk("flat")
        if ND_ATTRS is not None and name not in ND_ATTRS:
            I.err(st, n, "attribute", "array has no attribute '%s'" % name)
            I.raise_(st, "AttributeError", n)
            return unk("attr")
        return mk("meth", b, name)
    if k == "list" or k == "dict":
        if not hasattr(list if k == "list" else dict, name):
            I.err(st, n, "attribute", "%s has no attribute '%s'" % (k, name))
            I.raise_(st, "AttributeError", n)
            return unk("attr")
        return mk("meth", b, name)
    v = st.s.get((b.a[0], ".", name))
    if v is not None:
        return v
    return mk("extmeth", b, name)


EXTCONST = {"numpy.nan": float("nan"), "numpy.inf": float("inf"), "numpy.pi": math.pi, "math.inf": float("inf"),
            "math.nan": float("nan"), "math.pi": math.pi, "numpy.e": math.e, "math.e": math.e, "numpy.NaN": float("nan")}
_CHK = ("numpy", "os", "sys", "time", "copy", "shutil", "math", "operator", "functools", "itertools", "numpy.linalg")


def ext_attr(I, b, name, st, n):
    full = b.a[0] + "." + name
    v = st.s.get(("x", full))
    if v is not None:
        return v
    if full in EXTCONST:
        return const(EXTCONST[full])
    if full == "numpy.newaxis":
        return NONE
    if b.a[0] in _CHK:
        try:
            import importlib

            m = importlib.import_module(b.a[0])
            if not hasattr(m, name):
                try:
                    importlib.import_module(full)
                except Exception:
                    I.err(st, n, "attribute", "module %s has no attribute '%s'" % (b.a[0], name))
                    I.raise_(st, "AttributeError", n)
                    return unk("attr")
        except ImportError:
            pass
    if full in ("sys.stdout", "sys.stderr", "sys.argv", "os.environ", "sys.modules", "sys.__stdout__"):
        return mk("extv", full)
    return mk("ext", full)


def val_attr(I, b, name, st, n):
    if b.op == "extv" and b.a[0] == "path":
        r = fsys.path_attr(I, b, name, st, n)
        if r is not None:
            return r
    if b.op in ("clo", "func", "bound", "partial"):
        if name == "__name__":
            return const("f")
        if b.op in ("func",):
            v = st.s.get((("f", b.a[0]), ".", name))
            if v is not None:
                return v
        return mk("extmeth", b, name)
    k = I.tkind(st, b)
    if k == "arr":
        return obj_attr(I, I.new_array(st, b), "arr", name, st, n)
    if k in ("tuple",) or b.op == "tuple":
        if not hasattr((), name):
            return raise_(I, st, n, "AttributeError", "attribute", "tuple has no attribute '%s'" % name)
        return mk("meth", b, name)
    if k == "str":
        if not hasattr("", name):
            return raise_(I, st, n, "AttributeError", "attribute", "text has no attribute '%s'" % name)
        return mk("meth", b, name)
    if k in NUMK:
        # numpy scalars share the array interface
        if b.op == "const" and not hasattr(cval(b), name) or (ND_ATTRS is not None and name not in ND_ATTRS and not hasattr(0, name) and not hasattr(0.0, name)):
            return raise_(I, st, n, "AttributeError", "attribute", "number has no attribute '%s'" % name)
        if name in ("T", "real"):
            return b
        if name == "shape":
            return mk("tuple")
        if name == "size":
            return ONE
        if name == "ndim":
            return ZERO
        return mk("meth", b, name)
    if b.op in ("setv", "setl"):
        return mk("meth", b, name)
    if k == "none":
        return raise_(I, st, n, "AttributeError", "none-attr", "attribute '%s' of None" % name)
    v = st.s.get((("t", b), ".", name))
    if v is not None:
        return v
    if b.op in ("mu", "fld", "unk") and kind(b) in ("ref", "any"):
        return mk("fld", b, name)
    if kind(b) == "arr":
        if name == "T":
            return mk("transpose", b, None)
        return mk("meth", b, name)
    return mk("extmeth", b, name)


# ------------------------------------------------------------------ methods of built-in objects
def call_method(I, obj, name, args, kw, st, n):
    k = I.tkind(st, obj)
    if k == "list":
        return list_method(I, obj, name, args, kw, st, n)
    if k == "dict":
        return dict_method(I, obj, name, args, kw, st, n)
    if k == "arr" or kind(obj) == "arr":
        return arr_method(I, obj, name, args, kw, st, n)
    if k == "str":
        return str_method(I, obj, name, args, kw, st, n)
    if obj.op == "tuple":
        if name == "index":
            parts = mk("list", *[IM().e_(x) for x in obj.a])
            return seq_index(I, st, parts, args[0], n)
        if name == "count":
            return mk("app", "count", "int", obj, *args)
    if k in NUMK:
        if name in ("copy", "item", "flatten", "reshape", "squeeze", "ravel"):
            return obj if name in ("copy", "item", "squeeze") else I.new_array(st, mk("npa", mk("tuple", obj), "dyn"))
        if name == "astype":
            return astype(I, st, obj, args[0] if args else NONE)
        if name in ("all", "any"):
            return mkbool(truthy(obj))
        if name in ("sum", "max", "min"):
            return obj
        if name == "is_integer":
            return mk("app", "is_integer", "bool", obj)
    if obj.op in ("setv", "setl"):
        return mk("extv", "setmeth", obj, const(name), *args)
    I.note_unk(st, n, "method " + name)
    return unk("method " + name, obj)


def seq_index(I, st, l, v, n):
    if l.op == "list" and len(l.a) == 1 and l.a[0].op == "seg" and len(l.a[0].a[2]) == 1:
        p = l.a[0]
        x = p.a[2][0].a[0]
        if x.op == "el" and len(x.a) == 2 and x.a[1] is p.a[0]:
            return ar.pos(x.a[0], v)
    if l.op == "list" and all(p.op == "e" for p in l.a):
        r = None
        for j in reversed(range(len(l.a))):
            c = eq(I, st, l.a[j].a[0], v, n)
            r = const(j) if r is None else ite(c, const(j), r)
        return r if r is not None else unk("index")
    return mk("app", "index", "int", l, v)


def list_method(I, obj, name, args, kw, st, n):
    l = I.list_content(st, obj)
    e_ = IM().e_
    if name == "append":
        I.set_list(st, obj, lappend(l, [e_(args[0])]), n, what="append", val=args[0])
        return NONE
    if name == "extend":
        list_extend(I, st, obj, args[0], n)
        return NONE
    if name == "pop":
        idx = args[0] if args else const(-1)
        v = list_get(l, idx)
        if dimval(idx) == -1:
            p = list_slice(l, mkslice(NONE, const(-1), NONE))
        elif dimval(idx) == 0:
            p = list_slice(l, mkslice(ONE, NONE, NONE))
        else:
            p = None
        I.set_list(st, obj, mk("list", *p) if p is not None else mk("list", mk("unkpart", l)), n, what="pop")
        return v
    if name == "insert":
        c = dimval(args[0])
        if c is not None and l.op == "list" and c >= 0 and all(p.op == "e" for p in l.a[:c]) and len(l.a) >= c:
            new = mk("list", *l.a[:c], e_(args[1]), *l.a[c:])
        else:
            new = mk("list", mk("unkpart", l, *args))
        I.set_list(st, obj, new, n, what="insert", val=args[1])
        return NONE
    if name == "copy":
        return I.new_list(st, list(l.a) if l.op == "list" else [mk("lst", l)])
    if name == "index":
        return seq_index(I, st, l, args[0], n)
    if name == "clear":
        I.set_list(st, obj, mk("list"), n, what="clear")
        return NONE
    if name in ("sort", "reverse", "remove"):
        new = mk("list", mk("unkpart", l))
        if name == "reverse" and l.op == "list" and all(p.op == "e" for p in l.a):
            new = mk("list", *l.a[::-1])
        elif name == "sort" and l.op == "list" and all(p.op == "e" for p in l.a) and sort_list(I, st, l, kw, n) is not None:
            new = sort_list(I, st, l, kw, n)
        elif name == "sort":
            new = mk("list", mk("sorted", mk("lst", l), kw.get("key", NONE), kw.get("reverse", FALSE)))
        I.set_list(st, obj, new, n, what=name)
        return NONE
    if name == "count":
        return mk("app", "count", "int", l, *args)
    return unk("list." + name)


def sort_list(I, st, l, kw, n):
    r = fsys.sort_known(I, st, [p.a[0] for p in l.a], kw.get("key"), kw.get("reverse", FALSE), n)
    return None if r is None else mk("list", *[IM().e_(x) for x in r])


def dict_method(I, obj, name, args, kw, st, n):
    d = I.dictc(st, obj.a[0])
    known = d is not None and d.op == "dict" and all(p.op == "kv" for p in d.a)
    if name == "get":
        return dict_get(I, st, obj, args[0], n, args[1] if len(args) > 1 else NONE)
    if name in ("items", "keys", "values") and known:
        f = {"items": lambda p: mk("tuple", p.a[0], p.a[1]), "keys": lambda p: p.a[0], "values": lambda p: p.a[1]}[name]
        return I.new_list(st, [IM().e_(f(p)) for p in d.a])
    if name == "copy":
        loc = I.alloc()
        st.s[(loc, "k")] = "dict"
        st.s[(loc, "d")] = d if d is not None else mk("dictu", obj)
        return mk("ref", loc, ())
    if name == "update":
        src = {}
        if args and args[0].op == "ref":
            d2 = I.dictc(st, args[0].a[0])
            if d2 is not None and d2.op == "dict" and all(p.op == "kv" for p in d2.a):
                for p in d2.a:
                    dict_set(I, st, obj, p.a[0], p.a[1], n)
            else:
                dict_set(I, st, obj, mk("extv", "anykey"), mk("extv", "anyval"), n)
        for k, v in kw.items():
            dict_set(I, st, obj, const(k), v, n)
        return NONE
    if name == "setdefault":
        if known:
            for p in d.a:
                if p.a[0] is args[0]:
                    return p.a[1]
        dict_set(I, st, obj, args[0], args[1] if len(args) > 1 else NONE, n)
        return args[1] if len(args) > 1 else NONE
    if name == "pop":
        v = dict_get(I, st, obj, args[0], n, args[1] if len(args) > 1 else None)
        if st.pc:
            delitem(I, st, obj, args[0], n)
        return v
    if name == "clear":
        st.s[(obj.a[0], "d")] = mk("dict")
        I.ev("store", st, n, loc=obj.a[0], field="d", value=mk("dict"), old=d, what="clear")
        return NONE
    return mk("extv", "dict." + name, obj)


def str_method(I, obj, name, args, kw, st, n):
    if name == "format":
        return str_format(I, st, obj, args, kw, n)
    if obj.op == "const" and all(a.op == "const" for a in args) and not kw:
        try:
            r = getattr(cval(obj), name)(*[cval(a) for a in args])
            if isinstance(r, (str, int, bool, float)):
                return const(r)
            if isinstance(r, (list, tuple)):
                return I.new_list(st, [IM().e_(const(x)) for x in r])
        except Exception:
            pass
    if name in ("startswith", "endswith"):
        if args and args[0].op == "const" and obj.op == "strv":
            p = obj.a[0] if name == "startswith" else obj.a[-1]
            if p.op == "const" and isinstance(cval(args[0]), str) and len(cval(p)) >= len(cval(args[0])):
                return TRUE if getattr(cval(p), name)(cval(args[0])) else FALSE
        return mkbool(tm.batom(mk("strpred", const(name), obj, *args)))
    if name == "join":
        items = I.iter_known(args[0], st) if args else None
        if items is not None:
            for x in items:
                if kind(x) in NUMK + ("none",):
                    return raise_(I, st, n, "TypeError", "type", "join of a non-text value")
            ps = []
            for i, x in enumerate(items):
                if i:
                    ps.append(obj)
                ps.append(x)
            return mkstr(ps)
        return mk("strv", mk("app", "join", "str", obj, args[0] if args else NONE))
    if name in ("isdigit", "isalpha", "isnumeric"):
        return mk("app", name, "bool", obj)
    if name in ("find", "index", "count", "rfind"):
        return mk("app", name, "int", obj, *args)
    if name in ("split", "splitlines", "partition", "rsplit"):
        return mk("extv", "str." + name, obj, *args)
    return mk("strv", mk("app", name, "str", obj, *args))


def dims_of(I, st, v):
    """shape argument -> tuple of dim terms"""
    if v.op == "tuple":
        return tuple(v.a)
    if v.op == "ref":
        it = I.iter_known(v, st)
        return tuple(it) if it is not None else None
    if v.op == "ite":
        a, b = dims_of(I, st, v.a[1]), dims_of(I, st, v.a[2])
        if a is None or b is None or len(a) != len(b):
            return None
        return tuple(ite(v.a[0], x, y) for x, y in zip(a, b))
    return (v,)


def fixdims(dims, s):
    """resolve -1 in a reshape"""
    out = list(dims)
    for i, d in enumerate(out):
        if dimval(d) == -1:
            rest = ar.prod([x for j, x in enumerate(out) if j != i])
            out[i] = div(ar.prod(s), rest) if s is not None else unk("dim")
    return tuple(out)


def reshape_term(c, dims):
    s = shape(c)
    if s is not None and tuple(s) == tuple(dims):
        return c
    if c.op == "reshape":
        return reshape_term(c.a[0], dims)
    return mk("reshape", c, tuple(dims))


def astype(I, st, x, ty):
    nm = ty.a[0].split(".")[-1] if ty.op == "ext" else (cval(ty) if ty.op == "const" and isinstance(cval(ty), str) else None)
    c = I.num(st, x)
    if nm is None:
        nm = dt_name(ty)
        if nm == "dyn" and ar.dtype(c) not in ("int", "bool"):
            return I.wrap(st, mk("asdt", c, ty.a[1]))
    if nm in ("int", "int64", "int32", "intp"):
        s = shape(c)
        return I.wrap(st, mk("int", c) if s else tm.tint(c))
    if nm in ("float", "float64", "double"):
        s = shape(c)
        if s:
            return I.wrap(st, mk("float", c))
        return c
    if nm == "bool":
        s = shape(c)
        if s:
            return I.wrap(st, mk("enot", mk("ecmp", "==", c, ZERO)))
        return mkbool(truthy(c))
    if nm in ("float32", "float16", "single", "half"):
        return I.wrap(st, ar.narrow(c, "float32"))
    return I.wrap(st, c)


def arr_method(I, obj, name, args, kw, st, n):
    c = I.num(st, obj)
    s = shape(c)
    A = lambda i, k, d=None: args[i] if len(args) > i else kw.get(k, d)
    if name in ("tofile", "dump"):
        ext_ev(I, st, n, "." + name, args, kw, obj)
        return NONE
    isref = obj.op == "ref"
    if name in ("copy", "flatten", "ravel", "reshape", "view", "squeeze", "transpose"):
        if name in ("flatten", "ravel") and args and args[0].op == "const" and cval(args[0]) in ("F",):
            c2 = mk("transpose", c, None)
            return I.new_array(st, reshape_term(c2, (ar.prod(s),)) if s is not None else unk("F"))
        if name == "copy":
            return I.new_array(st, c)
        if name == "view":
            return obj
        if s is None:
            if name == "transpose":
                return mk("transpose", c, None)
            return mk("app", name, "arr", None, c, *args)
        if name in ("flatten", "ravel"):
            d = (ar.prod(s),)
        elif name == "reshape":
            if kw.get("order") is not None and not (kw["order"].op == "const" and cval(kw["order"]) in ("C", "A")):
                return unk("reshape order", c)
            d = dims_of(I, st, args[0]) if len(args) == 1 else tuple(args)
            if d is None:
                return unk("reshape", c)
            d = fixdims(d, s)
            x, y = const_poly(ar.prod(d)), const_poly(ar.prod(s))
            if x is not None and y is not None and x != y:
                return raise_(I, st, n, "ValueError", "shape", "cannot reshape")
        elif name == "squeeze":
            d = tuple(x for x in s if dimval(x) != 1)
        elif name == "transpose":
            perm = None
            if args:
                pm = args[0].a if args[0].op == "tuple" else args
                perm = tuple(dimval(x) for x in pm)
                if None in perm:
                    return unk("transpose")
            if isref:
                return mk("ref", obj.a[0], obj.a[1] + (("transpose", perm),))
            return mk("transpose", c, perm)
        if name == "flatten" or not isref:
            return I.wrap(st, reshape_term(c, d)) if d else at(c, [ZERO] * len(s))
        return mk("ref", obj.a[0], obj.a[1] + (("reshape", d),))
    if name == "fill":
        if isref:
            items = tuple([FULL] * len(s)) if s is not None else (mk("const", "ellipsis", "Ellipsis"),)
            if s is not None and not obj.a[1]:
                dt = ar.dtype(c)
                v = I.num(st, args[0])
                new = mk("zeros", *s) if const_poly(v) == 0 else mk("full", v, *s)
                old = I.base_content(st, obj.a[0])
                st.s[(obj.a[0], "a")] = new
                I.ev("store", st, n, loc=obj.a[0], field="a", value=new, old=old, key=None, val=v, ref=obj)
            elif s is not None:
                I.store_array(st, obj, items, I.num(st, args[0]), n)
            else:
                st.s[(obj.a[0], "a")] = mk("app", "filled", "arr", None, c, args[0])
                I.ev("store", st, n, loc=obj.a[0], field="a", value=st.s[(obj.a[0], "a")], old=c, key=None, val=args[0], ref=obj)
        return NONE
    if name == "take":
        f = NP["take"]
        return f(I, st, [obj] + args, kw, n)
    if name == "dot":
        return NP["dot"](I, st, [obj] + args, kw, n)
    if name == "astype":
        return astype(I, st, obj, A(0, "dtype", NONE))
    if name in ("tolist", "__iter__"):
        N, el, ok = iter_domain(I, obj if isref else I.wrap(st, c), st)
        g = ar.gi("tl")
        x = I.num(st, el(st, g))
        d = dimval(N)
        if d is not None and d <= 12:
            return I.new_list(st, [IM().e_(subst(x, {g: const(i)})) for i in range(d)])
        b = ar.bv(ar.maxbv(x) + 1)
        return I.new_list(st, IM().mkseg(b, N, [IM().e_(subst(x, {g: b}))]))
    if name == "item":
        if args:
            return getitem(I, obj, args[0] if len(args) == 1 else mk("tuple", *args), st, n)
        return at(c, [ZERO] * len(s)) if s is not None else mk("item", c, ZERO)
    if name in ("sum", "max", "min", "all", "any", "argmax", "argmin", "argsort", "mean", "nonzero", "prod", "clip",
                "cumsum", "repeat", "diagonal", "searchsorted", "conj", "round", "std"):
        if name in NP:
            CALLNAME.append(name)
            try:
                return NP[name](I, st, [obj] + args, kw, n)
            finally:
                CALLNAME.pop()
    if name == "sort":
        new = mk("sort", c)
        if isref:
            I.store_array(st, obj, None, new, n)
        return NONE
    if name == "put" and isref:
        I.store_array(st, obj, (I.num(st, args[0]),), I.num(st, args[1]), n)
        return NONE
    if name == "setflags":
        return NONE
    if name in ("toarray", "todense", "tocsr", "tocsc"):
        return obj
    if name == "__len__":
        return py_len(I, st, obj, n)
    I.note_unk(st, n, "array method " + name)
    return unk("array." + name, c)


# ------------------------------------------------------------------ numpy
NP = {}


def npf(*names):
    def d(f):
        for x in names:
            NP[x] = f
        return f

    return d


def arg(args, kw, i, k, d=None):
    return args[i] if len(args) > i else kw.get(k, d)


def dt_name(t):
    if t is None or t is NONE:
        return None
    if t.op == "ext":
        nm = t.a[0].split(".")[-1]
    elif t.op == "const" and isinstance(cval(t), str):
        nm = cval(t)
    elif t.op == "extv" and t.a[0] == "dtype" and isinstance(t.a[1], T):
        return ar.dtype(t.a[1]) or "?"
    else:
        return "?"
    if nm in ("float", "float64", "double", "longdouble"):
        return "float"
    if nm.startswith("int") or nm.startswith("uint"):
        return "int"
    if nm.startswith("bool"):
        return "bool"
    if nm.startswith("float"):
        return "float32"
    return "?"


def base_dtype(I, st, c):
    return ar.dtype(c)


@npf("array", "asarray", "ascontiguousarray", "asanyarray", "copy", "require")
def _array(I, st, args, kw, n):
    x = arg(args, kw, 0, "object")
    if x is None:
        x = arg(args, kw, 0, "a")
    dt = dt_name(arg(args, kw, 1, "dtype"))
    if x.op == "ref" and I.objkind(st, x.a[0]) == "arr" and n is not None:
        nm = CALLNAME[-1]
        if nm in ("asarray", "ascontiguousarray", "asanyarray") and (dt is None or ar.dtype(I.num(st, x)) == dt):
            return x
    if x.op == "ite":
        return I.split(st, x.a[0], lambda s: _array(I, s, [x.a[1]] + args[1:], kw, n), lambda s: _array(I, s, [x.a[2]] + args[1:], kw, n))
    c = I.num(st, x)
    if x.op in ("tuple",) or (x.op == "ref" and I.objkind(st, x.a[0]) == "list"):
        c = mk("npa", c.a[0], dt or npa_dt(c.a[0]))
        if c.a[0].op == "list" or ar.npa_shape(c.a[0]) is not None:
            return I.new_array(st, c)
        return I.new_array(st, c)
    s = shape(c)
    if s is None:
        if kind(c) in NUMK:
            return c
        if c.op == "iterv":
            if c.a[0] == "range":
                return NP["arange"](I, st, list(c.a[1:]), kw, n)
            return I.new_array(st, mk("npa", mk("list", *list_parts(I, st, c)), dt or "dyn"))
        sh = ar.SHAPE.get(("np", c))
        t = mk("npx", c, dt or "dyn")
        return I.new_array(st, t)
    if s == ():
        return I.new_array(st, mk("npa0", c, dt or "dyn")) if False else c
    if dt in ("float",):
        return I.new_array(st, c if ar.dtype(c) == "float" else mk("float", c))
    if dt == "int":
        return I.new_array(st, c if ar.dtype(c) == "int" else mk("int", c))
    if dt == "float32":
        return I.new_array(st, ar.narrow(c, dt))
    return I.new_array(st, c)


def npa_dt(v):
    """dtype of an array built from python values"""
    ks = set()

    def go(x):
        if x.op in ("tuple",):
            for y in x.a:
                go(y)
            return
        if x.op == "list":
            for p in x.a:
                if p.op == "e":
                    go(p.a[0])
                elif p.op == "seg":
                    for q in p.a[2]:
                        if q.op == "e":
                            go(q.a[0])
                else:
                    ks.add(None)
            return
        if x.op == "ite":
            go(x.a[1])
            go(x.a[2])
            return
        ks.add(ar.dtype(x))

    go(v)
    return ar._promote(list(ks)) or "dyn"


def _shape_npx(t):
    if t.op == "npx":
        s = shape(t.a[0])
        return s
    return _shape_lib(t)


ar._shape = _shape_npx


def new_dims(I, st, args, kw, n):
    return dims_of(I, st, arg(args, kw, 0, "shape"))


@npf("zeros", "ones", "empty", "full")
def _zeros(I, st, args, kw, n):
    nm = CALLNAME[-1]
    d = new_dims(I, st, args, kw, n)
    if d is None:
        return unk("shape arg")
    dt = dt_name(arg(args, kw, 1 if nm != "full" else 2, "dtype"))
    if nm == "zeros":
        t = mk("zeros", *d)
    elif nm == "empty":
        t = mk("empty", *d)
    elif nm == "ones":
        t = mk("full", ONE, *d)
    else:
        v = I.num(st, arg(args, kw, 1, "fill_value"))
        t = mk("full", v, *d) if shape(v) == () or shape(v) is None else mk("upd", mk("zeros", *d), tuple([FULL] * len(d)), v)
    if dt in ("int", "bool"):
        t = mk("int", t) if dt == "int" else mk("enot", mk("ecmp", "==", t, ZERO))
    if dt == "float32":
        t = mk("f32", t)
    return I.new_array(st, t)


def fname(n):
    f = getattr(n, "func", None)
    return f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "?")


@npf("zeros_like", "ones_like", "empty_like", "full_like")
def _like(I, st, args, kw, n):
    c = I.num(st, args[0])
    s = shape(c)
    nm = CALLNAME[-1]
    if s is None:
        if kind(c) in NUMK:
            return ZERO if nm == "zeros_like" else ONE
        v = {"zeros_like": ZERO, "ones_like": ONE}.get(nm)
        t = mk("likev", const(nm), c)
        return t
    dt = dt_name(kw.get("dtype"))
    src = ar.dtype(c)
    if nm == "zeros_like":
        t = mk("zeros", *s)
    elif nm == "ones_like":
        t = mk("full", ONE, *s)
    elif nm == "empty_like":
        t = mk("empty", *s)
    else:
        t = mk("full", I.num(st, args[1]), *s)
    d = dt or src
    if d == "int":
        t = mk("int", t)
    elif d == "float32":
        t = mk("f32", t)
    elif d == "dyn" or d is None:
        t = mk("asdt", t, c)
    if not s:
        return at(t, [])
    return I.new_array(st, t)


CALLNAME = ["?"]


@npf("eye", "identity")
def _eye(I, st, args, kw, n):
    return I.new_array(st, mk("eye", args[0]))


@npf("arange")
def _arange(I, st, args, kw, n):
    if len(args) == 1:
        return I.new_array(st, mk("arange", args[0]))
    lo, hi = args[0], args[1]
    step = args[2] if len(args) > 2 else ONE
    if step is ONE:
        if lo is ZERO:
            return I.new_array(st, mk("arange", sub(hi, lo)))
        return I.new_array(st, mk("arange", sub(hi, lo), lo, ONE))
    return I.new_array(st, mk("arange", mk("floordiv", sub(add(hi, step), add(lo, ONE)), step), lo, step))


@npf("linspace")
def _linspace(I, st, args, kw, n):
    num = arg(args, kw, 2, "num", const(50))
    d = dimval(num)
    if d is not None and 2 <= d <= 12 and "dtype" not in kw:
        lo, hi = args[0], args[1]
        return I.new_array(st, mk("npa", mk("tuple", *[add(lo, mul(const(i), div(sub(hi, lo), const(d - 1)))) for i in range(d)]), "float"))
    return I.new_array(st, mk("app", "linspace", "arr", (num,), I.num(st, args[0]), I.num(st, args[1])))


def seq_contents(I, st, v):
    """contents of the arrays in a sequence argument"""
    it = I.iter_known(v, st)
    if it is None:
        return None
    out = []
    for x in it:
        c = I.num(st, x)
        if c.op == "npa" and c.a[1] == "dyn":
            c = mk("npa", c.a[0], npa_dt(c.a[0]))
        if shape(c) is None and kind(c) not in NUMK:
            # unknown raw sequence: treat as an array of unknown shape
            pass
        out.append(c)
    return out


@npf("append")
def _append(I, st, args, kw, n):
    ax = arg(args, kw, 2, "axis")
    a, b = I.num(st, args[0]), I.num(st, args[1])
    if ax is None or ax is NONE:
        a, b = flat(a), flat(b)
        if a is None or b is None:
            return mk("app", "append", "arr", None, I.num(st, args[0]), I.num(st, args[1]))
        return I.new_array(st, mk("cat", 0, a, b))
    k = dimval(ax)
    if k is None or shape(a) is None or shape(b) is None:
        return unk("append")
    return I.new_array(st, mk("cat", k % max(len(shape(a)), 1), a, b))


def flat(c):
    s = shape(c)
    if s is None:
        return mk("npa", mk("tuple", c), {"int": "int", "float": "float"}.get(kind(c), "dyn")) if kind(c) in NUMK else None
    if s == ():
        return mk("npa", mk("tuple", c), {"int": "int", "float": "float"}.get(kind(c), "dyn"))
    if len(s) == 1:
        return c
    return reshape_term(c, (ar.prod(s),))


def cat(I, st, cs, ax):
    out = []
    for c in cs:
        s = shape(c)
        if s is None:
            return mk("app", "cat", "arr", None, const(ax), *cs)
        out.append(c)
    if len(out) == 1:
        return I.new_array(st, out[0])
    return I.new_array(st, mk("cat", ax, *out))


@npf("concatenate", "hstack", "vstack", "row_stack", "column_stack", "stack", "r_")
def _concat(I, st, args, kw, n):
    nm = CALLNAME[-1]
    cs = seq_contents(I, st, args[0])
    if cs is None:
        c = I.num(st, args[0])
        if nm in ("vstack", "stack") and shape(c) is not None and len(shape(c)) == 2:
            return I.new_array(st, c)
        return mk("app", nm, "arr", None, c)
    if any(shape(c) is None and kind(c) not in NUMK for c in cs):
        if nm == "vstack" and all(shape(c) is None or len(shape(c)) in (1, 2) for c in cs):
            return I.new_array(st, mk("vcat", *cs))
        return mk("app", nm, "arr", None, *cs)
    cs = [c if shape(c) not in ((), None) else flat(c) for c in cs]
    if nm == "vstack" or nm == "row_stack":
        cs = [reshape_term(c, (ONE,) + tuple(shape(c))) if len(shape(c)) == 1 else c for c in cs]
        return cat(I, st, cs, 0)
    if nm == "hstack":
        return cat(I, st, cs, 0 if len(shape(cs[0])) == 1 else 1)
    if nm == "column_stack":
        cs = [reshape_term(c, tuple(shape(c)) + (ONE,)) if len(shape(c)) == 1 else c for c in cs]
        return cat(I, st, cs, 1)
    if nm == "stack":
        ax = dimval(arg(args, kw, 1, "axis", ZERO))
        if ax is not None and ax < 0:
            ax += len(shape(cs[0])) + 1
        return I.new_array(st, mk("stack", ax, *cs))
    ax = arg(args, kw, 1, "axis", ZERO)
    if ax is NONE:
        cs = [flat(c) for c in cs]
        ax = ZERO
    k = dimval(ax)
    if k is not None and k < 0:
        k += len(shape(cs[0]))
    return cat(I, st, cs, k) if k is not None else unk("concat axis")


@npf("block")
def _block(I, st, args, kw, n):
    rows = I.iter_known(args[0], st)
    if rows is None:
        return unk("block")
    rs = []
    for r in rows:
        it = I.iter_known(r, st) if not I._is_arr(st, r) else None
        if it is None:
            rs.append(I.num(st, r))
            continue
        cs = [I.num(st, x) for x in it]
        cs = [c if shape(c) not in ((), None) else reshape_term(flat(c), (ONE, ONE)) for c in cs]
        cs = [reshape_term(c, (ONE,) + shape(c)) if shape(c) is not None and len(shape(c)) == 1 else c for c in cs]
        if any(shape(c) is None for c in cs):
            return mk("app", "block", "arr", None, *cs)
        rs.append(mk("cat", 1, *cs) if len(cs) > 1 else cs[0])
    if any(shape(c) is None for c in rs):
        return mk("app", "block", "arr", None, *rs)
    return I.new_array(st, mk("cat", 0, *rs) if len(rs) > 1 else rs[0])


@npf("where")
def _where(I, st, args, kw, n):
    c = I.num(st, args[0])
    if len(args) == 1:
        return _nonzero(I, st, args, kw, n)
    x, y = I.num(st, args[1]), I.num(st, args[2])
    if shape(c) == () or (shape(c) is None and kind(c) == "bool"):
        if shape(x) in ((), None) and shape(y) in ((), None):
            return ite(truthy(c), x, y)
    return I.wrap(st, mk("where3", c, x, y))


@npf("nonzero")
def _nonzero(I, st, args, kw, n):
    c = tobool(I.num(st, args[0]))
    s = shape(c)
    if s is None:
        if asbdd(c) is not None or kind(c) == "bool":
            return unk("nonzero of scalar")
        return mk("extv", "nonzero", c)
    if len(s) == 0:
        return unk("nonzero of scalar", c)
    if len(s) == 1:
        return mk("tuple", I.new_array(st, mk("nonzero", c)))
    return mk("tuple", *[I.new_array(st, mk("nz", c, i)) for i in range(len(s))])


def tobool(c):
    if ar.is_mask(c) or shape(c) is None:
        return c
    if shape(c):
        return mk("enot", mk("ecmp", "==", c, ZERO))
    return c


@npf("flatnonzero")
def _fnz(I, st, args, kw, n):
    c = tobool(I.num(st, args[0]))
    s = shape(c)
    if s is None:
        return mk("app", "flatnonzero", "arr", None, c)
    if len(s) > 1:
        c = reshape_term(c, (ar.prod(s),))
    return I.new_array(st, mk("nonzero", c))


@npf("argwhere")
def _argwhere(I, st, args, kw, n):
    c = tobool(I.num(st, args[0]))
    s = shape(c)
    if s is None or len(s) != 1:
        return mk("app", "argwhere", "arr", None, c)
    t = mk("nonzero", c)
    return I.new_array(st, mk("reshape", t, (shape(t)[0], ONE)))


@npf("argsort")
def _argsort(I, st, args, kw, n):
    return I.wrap(st, mk("argsort", I.num(st, args[0])))


@npf("sort")
def _sort(I, st, args, kw, n):
    return I.wrap(st, mk("sort", I.num(st, args[0])))


@npf("argmax", "argmin")
def _argmax(I, st, args, kw, n):
    c = I.num(st, args[0])
    s = shape(c)
    nm = CALLNAME[-1]
    if s is None or len(s) != 1:
        return mk("app", nm, "int", c)
    if nm == "argmax" and c.op == "ecmp" and c.a[0] == "==":
        for L, v in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
            if shape(v) == () and shape(L) is not None and len(shape(L)) == 1:
                return ar.pos(L, v)
    return ar.argmaxv(c if nm == "argmax" else neg(c))


@npf("isin", "in1d")
def _isin(I, st, args, kw, n):
    x = I.num(st, arg(args, kw, 0, "element"))
    S = I.num(st, arg(args, kw, 1, "test_elements"))
    if S is NONE:
        r = mk("enot", mk("ecmp", "==", x, x)) if shape(x) else FALSE
        S = mk("npa", mk("tuple"), "dyn")
    inv = arg(args, kw, 3, "invert", FALSE)
    t = mk("isin", x, S)
    if inv is TRUE:
        t = mk("enot", t)
    return I.wrap(st, t)


@npf("searchsorted")
def _ss(I, st, args, kw, n):
    L, v = I.num(st, args[0]), I.num(st, args[1])
    if L in SORTED and shape(v) == ():
        return ar.pos(L, v)
    if L in SORTED and shape(v) is not None and len(shape(v)) == 1:
        g = ar.gi("ss")
        return I.new_array(st, mk("lamarr", shape(v), (g,), ar.pos(L, at(v, [g]))))
    if shape(v) is not None and shape(v) != () and len(args) == 2 and not kw:
        g = tuple(ar.gi("ss%d" % i) for i in range(len(shape(v))))
        x = at(v, list(g))
        return I.new_array(st, mk("lamarr", shape(v), g, ar.pos(L, x) if L in SORTED else mk("app", "searchsorted", "int", None, L, x)))
    return mk("app", "searchsorted", "int" if shape(v) == () else "arr", None, L, v)


SORTED = set()


@npf("take")
def _take(I, st, args, kw, n):
    c = I.num(st, args[0])
    idx = I.num(st, arg(args, kw, 1, "indices"))
    ax = arg(args, kw, 2, "axis")
    s = shape(c)
    if s is None:
        return mk("app", "take", "arr", None, c, idx)
    if ax is None or ax is NONE:
        c = flat(c)
        key = (idx,)
    else:
        k = dimval(ax)
        if k is None:
            return unk("take")
        if k < 0:
            k += len(s)
        key = tuple([FULL] * k + [idx])
    return I.wrap(st, mk("get", c, key))


@npf("delete")
def _delete(I, st, args, kw, n):
    c = I.num(st, args[0])
    idx = I.num(st, args[1])
    ax = arg(args, kw, 2, "axis")
    s = shape(c)
    if s is None:
        return mk("app", "delete", "arr", None, c, idx)
    if ax is None or ax is NONE:
        c = flat(c)
        k = 0
    else:
        k = dimval(ax)
        if k is None:
            return unk("delete")
        if k < 0:
            k += len(s)
    return I.new_array(st, mk("delete", c, idx, k))


@npf("reshape")
def _reshape(I, st, args, kw, n):
    x = args[0] if args[0].op == "ref" and I.objkind(st, args[0].a[0]) == "arr" else I.wrap(st, I.num(st, args[0]))
    return arr_method(I, x, "reshape", [arg(args, kw, 1, "shape", arg(args, kw, 1, "newshape"))], {k: v for k, v in kw.items() if k == "order"}, st, n)


@npf("ravel", "transpose", "squeeze")
def _ravel(I, st, args, kw, n):
    x = args[0] if args[0].op == "ref" and I.objkind(st, args[0].a[0]) == "arr" else I.wrap(st, I.num(st, args[0]))
    if shape(I.num(st, x)) in (None,):
        return mk("app", CALLNAME[-1], "arr", None, I.num(st, x))
    return arr_method(I, x, CALLNAME[-1], args[1:], kw, st, n)


@npf("atleast_1d", "atleast_2d")
def _atleast(I, st, args, kw, n):
    c = I.num(st, args[0])
    s = shape(c)
    want = 1 if CALLNAME[-1] == "atleast_1d" else 2
    if s is None and kind(c) in NUMK:
        s = ()
        c = flat(c)
        s = shape(c)
    if s is None:
        return mk("app", CALLNAME[-1], "arr", None, c)
    if len(s) >= want:
        return args[0] if args[0].op == "ref" and I.objkind(st, args[0].a[0]) == "arr" else I.wrap(st, c)
    return I.new_array(st, reshape_term(c if s else flat(c), (ONE,) * (want - len(s)) + tuple(s) if s else (ONE,) * want))


@npf("expand_dims")
def _expd(I, st, args, kw, n):
    c = I.num(st, args[0])
    s = shape(c)
    k = dimval(arg(args, kw, 1, "axis"))
    if s is None or k is None:
        return unk("expand_dims")
    if k < 0:
        k += len(s) + 1
    return I.new_array(st, reshape_term(c, tuple(s[:k]) + (ONE,) + tuple(s[k:])))


@npf("dot", "matmul", "inner", "vdot")
def _dot(I, st, args, kw, n):
    a, b = I.num(st, args[0]), I.num(st, args[1])
    if shape(a) == () or shape(b) == ():
        return I.wrap(st, mul(a, b))
    if CALLNAME[-1] == "inner" and shape(a) is not None and len(shape(a)) == 2:
        b = mk("transpose", b, None)
    return I.wrap(st, mk("matmul", a, b))


@npf("outer")
def _outer(I, st, args, kw, n):
    return I.wrap(st, mk("outer", I.num(st, args[0]), I.num(st, args[1])))


@npf("kron")
def _kron(I, st, args, kw, n):
    return mk("app", "kron", "arr", None, I.num(st, args[0]), I.num(st, args[1]))


@npf("einsum")
def _einsum(I, st, args, kw, n):
    if args[0].op != "const":
        return unk("einsum")
    return I.wrap(st, mk("einsum", cval(args[0]), *[I.num(st, x) for x in args[1:]]))


def axis_of(args, kw, s, i=1):
    ax = arg(args, kw, i, "axis")
    if ax is None or ax is NONE:
        return None
    k = dimval(ax)
    if k is None:
        return "?"
    return k % len(s) if s else k


@npf("sum", "prod", "max", "min", "amax", "amin", "all", "any", "mean", "nansum")
def _reduce(I, st, args, kw, n):
    nm = CALLNAME[-1]
    c = I.num(st, args[0])
    s = shape(c)
    if nm in ("all", "any"):
        if asbdd(c) is not None or s == ():
            return mkbool(truthy(c))
        if s is None:
            return mk("app", nm, "bool", c)
        k = axis_of(args, kw, s)
        if k == "?":
            return unk("axis")
        if k is None:
            return mkbool(allany(nm, c))
        return I.wrap(st, mk("aall" if nm == "all" else "aany", c, k))
    if s is None:
        return mk("app", nm, "num", c)
    if s == ():
        return c
    k = axis_of(args, kw, s)
    if k == "?":
        return unk("axis")
    if nm == "sum":
        if k is None:
            return ar.asum_all(c)
        return I.wrap(st, mk("asum", c, k))
    if nm == "mean" and k is None:
        return div(ar.asum_all(c), ar.prod(s))
    if nm in ("max", "amax", "min", "amin") and k is None:
        neg_ = nm in ("min", "amin")
        d = dimval(s[0]) if len(s) == 1 else None
        if d is not None and d <= 4:
            r = at(c, [ZERO])
            for i in range(1, d):
                r = ar.ew_scalar("min2" if neg_ else "max2", [r, at(c, [const(i)])])
            return r
        if len(s) == 1:
            x = neg(c) if neg_ else c
            return at(c, [ar.argmaxv(x)])
    return mk("app", nm, "num", ar.lam(c)) if k is None else unk("reduce " + nm, c)


def allany(nm, c):
    """quantified condition over all elements, canonical"""
    s = shape(c)
    ds = [dimval(d) for d in s]
    if all(d is not None for d in ds) and math.prod(ds) <= 12:
        import itertools

        r = 1 if nm == "all" else 0
        for idx in itertools.product(*[range(d) for d in ds]):
            v = truthy(at(c, [const(i) for i in idx]))
            r = band(r, v) if nm == "all" else bor(r, v)
        return r
    # all(P) = not any(not P)
    g = [ar.gi("q%d" % i) for i in range(len(s))]
    b = truthy(at(c, g))
    if nm == "all":
        return bnot(exists(g, s, bnot(b)))
    return exists(g, s, b)


def exists(g, s, b):
    if b in (0,):
        return 0
    t = ar.within(mkbool(b), g, s)
    vs = []
    for x in g:
        v, t = ar.bind(t, x)
        vs.append(v)
    return tm.batom(mk("exists", tuple(s), tuple(vs), t))


tm._REB["exists"] = lambda s, v, t: FALSE if asbdd(t) == 0 else mk("boolx", mk("exists", s, v, t)) if False else mkbool(tm.batom(mk("exists", s, v, t)) if asbdd(t) != 0 else 0)


@npf("abs", "absolute", "fabs")
def _abs(I, st, args, kw, n):
    return I.wrap(st, tm.tabs(I.num(st, args[0])))


@npf("sign")
def _sign(I, st, args, kw, n):
    return I.wrap(st, tm.tsign(I.num(st, args[0])))


@npf("sqrt")
def _sqrt(I, st, args, kw, n):
    return I.wrap(st, sqrt(I.num(st, args[0])))


MATHALIAS = {"asin": "arcsin", "acos": "arccos", "atan": "arctan", "atan2": "arctan2", "asinh": "arcsinh", "acosh": "arccosh", "atanh": "arctanh",
             "fix": "trunc", "radians": "deg2rad", "degrees": "rad2deg", "around": "round", "round_": "round"}


def mathfn(I, st, name, cs):
    name = MATHALIAS.get(name, name)
    if name == "round" and len(cs) == 1:
        name = "rint"
    if all(shape(x) == () for x in cs):
        return ar.ew_scalar(name, cs)
    return I.wrap(st, mk("ew", name, *cs))


@npf(*(set(ar.MATHFN) | {"fix", "radians", "degrees", "around", "round_"}))
def _mathfn(I, st, args, kw, n):
    cs = [I.num(st, x) for x in args] + [I.num(st, kw[k]) for k in ("decimals",) if k in kw]
    return mathfn(I, st, CALLNAME[-1], cs)


@npf("square")
def _square(I, st, args, kw, n):
    c = I.num(st, args[0])
    return I.wrap(st, mul(c, c))


@npf("power", "pow")
def _power(I, st, args, kw, n):
    return I.wrap(st, tpow(I.num(st, args[0]), I.num(st, args[1])))


def _bin(op):
    def f(I, st, args, kw, n):
        return binop(I, op, args[0], args[1], st, n)

    return f


for _n, _o in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"), ("true_divide", "Div"),
               ("floor_divide", "FloorDiv"), ("mod", "Mod"), ("remainder", "Mod"), ("bitwise_and", "BitAnd"), ("bitwise_or", "BitOr")):
    NP[_n] = _bin(_o)


@npf("negative")
def _neg(I, st, args, kw, n):
    return I.wrap(st, neg(I.num(st, args[0])))


@npf("logical_not", "invert")
def _lnot(I, st, args, kw, n):
    c = I.num(st, args[0])
    if shape(c):
        return I.wrap(st, mk("enot", tobool(c)))
    return mkbool(bnot(truthy(c)))


@npf("logical_and", "logical_or")
def _land(I, st, args, kw, n):
    a, b = I.num(st, args[0]), I.num(st, args[1])
    o = "eand" if CALLNAME[-1] == "logical_and" else "eor"
    if shape(a) or shape(b):
        return I.wrap(st, mk(o, tobool(a), tobool(b)))
    return mkbool((band if o == "eand" else bor)(truthy(a), truthy(b)))


def _cmpf(op):
    def f(I, st, args, kw, n):
        return I.compare_val(op, args[0], args[1], st, n)

    return f


for _n, _o in (("equal", "Eq"), ("not_equal", "NotEq"), ("less", "Lt"), ("less_equal", "LtE"), ("greater", "Gt"), ("greater_equal", "GtE")):
    NP[_n] = _cmpf(_o)


@npf("maximum", "minimum", "fmax", "fmin")
def _maximum(I, st, args, kw, n):
    a, b = I.num(st, args[0]), I.num(st, args[1])
    nm = "max2" if CALLNAME[-1] in ("maximum", "fmax") else "min2"
    if shape(a) == () and shape(b) == ():
        return ar.ew_scalar(nm, [a, b])
    return I.wrap(st, mk("ew", nm, a, b))


@npf("clip")
def _clip(I, st, args, kw, n):
    c = [I.num(st, x) for x in args]
    if len(c) < 3:
        return unk("clip")
    if all(shape(x) == () for x in c):
        return ar.ew_scalar("clip", c)
    return I.wrap(st, mk("ew", "clip", *c))


@npf("copysign", "heaviside")
def _copysign(I, st, args, kw, n):
    c = [I.num(st, x) for x in args]
    if all(shape(x) == () for x in c):
        return ar.ew_scalar(CALLNAME[-1], c)
    return I.wrap(st, mk("ew", CALLNAME[-1], *c))


@npf("isnan", "isfinite", "isinf")
def _isnan(I, st, args, kw, n):
    c = I.num(st, args[0])
    if shape(c) in ((), None):
        if CALLNAME[-1] == "isnan":
            return mkbool(tm.batom(mk("nan", c)) if tm.NANMODE[0] else tm.batom(mk("isnanv", c)))
        return mkbool(tm.batom(mk(CALLNAME[-1] + "v", c)))
    return I.wrap(st, mk("ew", CALLNAME[-1], c))


@npf("allclose", "array_equal", "isclose", "array_equiv")
def _allclose(I, st, args, kw, n):
    a, b = I.num(st, args[0]), I.num(st, args[1])
    x, y = sorted((a, b), key=lambda t: t.id)
    if x is y and x.op != "unk" and not kw.get("equal_nan"):
        return TRUE if CALLNAME[-1] != "isclose" or not shape(x) else I.wrap(st, mk("full", TRUE, *shape(x)))
    if shape(a) in ((), None) and shape(b) in ((), None) and CALLNAME[-1] == "isclose":
        return mkbool(tm.batom(mk("close", x, y)))
    return mkbool(tm.batom(mk("allsame", const(CALLNAME[-1]), ar.lam(x), ar.lam(y))))


@npf("cumsum", "diff", "cross", "diag", "tile", "repeat", "unique", "meshgrid", "roll", "std", "pad", "interp",
     "diagonal", "union1d", "intersect1d", "setdiff1d", "fill_diagonal", "lexsort", "argpartition", "insert",
     "nanmax", "nanmin", "median", "bincount", "flip", "swapaxes", "moveaxis", "broadcast_to", "triu", "tril", "trace")
def _opaque_np(I, st, args, kw, n):
    nm = CALLNAME[-1]
    cs = [I.num(st, a) for a in args]
    if nm == "diff" and len(cs) == 1 and shape(cs[0]) is not None:
        s = shape(cs[0])
        k = axis_of(args, kw, s, 2)
        k = len(s) - 1 if k is None else k
        pre = [FULL] * k
        return I.wrap(st, sub(mk("get", cs[0], tuple(pre + [mkslice(ONE, NONE, NONE)])),
                              mk("get", cs[0], tuple(pre + [mkslice(NONE, const(-1), NONE)]))))
    if nm == "diag" and len(cs) == 1 and shape(cs[0]) is not None and len(shape(cs[0])) == 1:
        g = [ar.gi("d0"), ar.gi("d1")]
        d = shape(cs[0])[0]
        return I.new_array(st, mk("lamarr", (d, d), tuple(g), ite(tm.cmp_bdd("==", g[0], g[1]), at(cs[0], [g[0]]), ZERO)))
    if nm == "tile" and len(cs) == 2 and shape(cs[0]) is not None and len(shape(cs[0])) == 1 and shape(cs[1]) == ():
        d = shape(cs[0])[0]
        g = ar.gi("tl", d)
        gg = ar.gi("t0")
        return I.new_array(st, mk("lamarr", (mul(d, cs[1]),), (gg,), at(cs[0], [ar.mod(gg, d)])))
    s0 = shape(cs[0]) if cs else None
    if nm == "tile" and len(cs) == 2 and s0 and len(s0) <= 2:
        reps = dims_of(I, st, args[1])
        if reps is not None and len(reps) >= len(s0):
            src = (ONE,) * (len(reps) - len(s0)) + tuple(s0)
            g = [ar.gi("t%d" % k) for k in range(len(reps))]
            ix = [ZERO if ar.dimval(d) == 1 else x if r is ONE else ar.mod(x, d) for x, d, r in zip(g, src, reps)][len(reps) - len(s0):]
            return I.new_array(st, mk("asdt", mk("lamarr", tuple(mul(d, r) for d, r in zip(src, reps)), tuple(g), at(cs[0], ix)), cs[0]))
    if nm == "broadcast_to" and s0 is not None:
        d = dims_of(I, st, args[1])
        if d is not None and len(d) >= len(s0):
            g = [ar.gi("t%d" % k) for k in range(len(d))]
            ix = [ZERO if ar.dimval(q) == 1 else x for x, q in zip(g[len(d) - len(s0):], s0)]
            return I.new_array(st, mk("asdt", mk("lamarr", tuple(d), tuple(g), at(cs[0], ix)), cs[0]))
    if nm == "insert" and len(cs) == 3 and s0 and len(s0) == 1 and shape(cs[1]) == () and shape(cs[2]) == () and not kw:
        g = ar.gi("t0")
        i = ar.fixneg(args[1], s0[0])
        v = ite(tm.cmp_bdd("<", g, i), at(cs[0], [g]), ite(tm.cmp_bdd("==", g, i), ar.narrow(cs[2], ar.dtype(cs[0])), at(cs[0], [sub(g, ONE)])))
        return I.new_array(st, mk("asdt", mk("lamarr", (add(s0[0], ONE),), (g,), v), cs[0]))
    if nm in ("swapaxes", "moveaxis") and s0 and len(s0) == 2 and len(cs) == 3 and {ar.dimval(cs[1]), ar.dimval(cs[2])} in ({0, 1}, {0, -1}):
        return I.wrap(st, mk("transpose", cs[0], None))
    if nm == "flip" and len(cs) == 1 and shape(cs[0]) is not None and len(shape(cs[0])) == 1:
        return I.wrap(st, mk("get", cs[0], (mkslice(NONE, NONE, const(-1)),)))
    if nm == "meshgrid":
        return mk("tuple", *[mk("app", "meshgrid%d" % i, "arr", None, *cs) for i in range(len(cs))])
    if nm == "unique" and "return_index" not in kw and "return_inverse" not in kw and len(cs) == 1 and cs[0] in SORTED:
        return args[0]
    if nm in ("std", "median", "trace", "nanmax", "nanmin"):
        return mk("app", nm, "num", *cs)
    return mk("app", nm, "arr", None, *[c for c in cs])


@npf("count_nonzero")
def _cnz(I, st, args, kw, n):
    c = tobool(I.num(st, args[0]))
    if shape(c) is None:
        return mk("app", "count_nonzero", "int", c)
    return ar.count_dim(c)


@npf("ndim", "size", "shape")
def _ndim(I, st, args, kw, n):
    c = I.num(st, args[0])
    s = shape(c)
    if CALLNAME[-1] == "ndim":
        if s is None and kind(c) in NUMK:
            return ZERO
        return const(len(s)) if s is not None else mk("app", "ndim", "int", c)
    if s is None:
        return mk("extv", CALLNAME[-1], c)
    return ar.prod(s) if CALLNAME[-1] == "size" else mk("tuple", *s)


@npf("isscalar")
def _isscalar(I, st, args, kw, n):
    k = I.tkind(st, args[0])
    if k in NUMK + ("str",):
        return TRUE
    if k in ("arr", "list", "tuple", "dict", "none"):
        return FALSE
    return mkbool(tm.batom(mk("isscalar", args[0])))


@npf("ix_")
def _ix(I, st, args, kw, n):
    cs = [I.num(st, a) for a in args]
    out = []
    m = len(cs)
    for i, c in enumerate(cs):
        s = shape(c)
        if s is None or len(s) != 1:
            return unk("ix_")
        d = [ONE] * m
        d[i] = s[0]
        out.append(I.new_array(st, mk("reshape", c, tuple(d))))
    return mk("tuple", *out)


@npf("add.at", "subtract.at")
def _addat(I, st, args, kw, n):
    ref, key, v = args
    items = I.key_items(key, st)
    if ref.op == "ref" and all(shape(k) == () for k in items):
        cur = I.num(st, getitem(I, ref, key, st, n))
        nv = add(cur, I.num(st, v)) if CALLNAME[-1] == "add.at" else sub(cur, I.num(st, v))
        I.store_array(st, ref, items, nv, n)
        return NONE
    if ref.op == "ref":
        # repeated indices accumulate: expand a short list of indices
        c = I.num(st, v)
        if len(items) == 1 and shape(items[0]) is not None and len(shape(items[0])) == 1 and dimval(shape(items[0])[0]) is not None:
            for i in range(dimval(shape(items[0])[0])):
                ki = at(items[0], [const(i)])
                vi = mk("get", c, (const(i),)) if shape(c) and len(shape(c)) == len(shape(I.content(st, ref))) else c
                cur = mk("get", I.content(st, ref), (ki,))
                I.store_array(st, ref, (ki,), add(cur, vi), n)
            return NONE
        I.store_array(st, ref, None, unk("add.at", I.content(st, ref), c), n)
    return NONE


@npf("copyto")
def _copyto(I, st, args, kw, n):
    ref = args[0]
    if ref.op == "ref":
        c = I.content(st, ref)
        s = shape(c)
        if s is not None:
            I.store_array(st, ref, tuple([FULL] * len(s)), I.num(st, args[1]), n)
        else:
            I.store_array(st, ref, None, unk("copyto"), n)
    return NONE


@npf("put")
def _put(I, st, args, kw, n):
    if args[0].op == "ref":
        c = I.content(st, args[0])
        if shape(c) is not None and len(shape(c)) > 1:
            f = mk("ref", args[0].a[0], args[0].a[1] + (("reshape", (ar.prod(shape(c)),)),))
            I.store_array(st, f, (I.num(st, args[1]),), I.num(st, args[2]), n)
        else:
            I.store_array(st, args[0], (I.num(st, args[1]),), I.num(st, args[2]), n)
    return NONE


@npf("linalg.norm")
def _norm(I, st, args, kw, n):
    c = I.num(st, args[0])
    o = arg(args, kw, 1, "ord")
    s = shape(c)
    if o is not None and o is not NONE:
        return mk("app", "norm" , "float", c, o)
    if s is None:
        return mk("norm", c)
    if s == ():
        return tm.tabs(c)
    k = axis_of(args, kw, s, 2)
    if k is None:
        return norm_of(c)
    return unk("norm axis", c)


def norm_of(c):
    s = shape(c)
    if s is None:
        return mk("norm", c)
    ds = [dimval(d) for d in s]
    if all(d is not None for d in ds):
        return sqrt(ar.asum_all(mul(c, c)))
    L = ar.lam(c)
    if L.op == "lam" and tm.kind(L.a[2]) in ("float", "num", "int", "any"):
        # the norm does not depend on the sign
        P = tm.to_poly(L.a[2])
        if P and tm._sgn_canon(P)[1]:
            b = neg(L.a[2])
            L = b.a[0] if b.op == "el" and tuple(b.a[1:]) == tuple(L.a[1]) and shape(b.a[0]) == tuple(L.a[0]) else mk("lam", L.a[0], L.a[1], b)
    return mk("norm", L)


tm._REB["norm"] = lambda c: mk("norm", c) if shape(c) is None else norm_of(c)


@npf("hypot")
def _hypot(I, st, args, kw, n):
    a, b = I.num(st, args[0]), I.num(st, args[1])
    return I.wrap(st, sqrt(add(mul(a, a), mul(b, b))))


@npf("linalg.det", "linalg.slogdet", "linalg.inv", "linalg.eigh", "linalg.eigvalsh", "linalg.lstsq", "linalg.cond", "linalg.matrix_rank", "linalg.eigvals", "linalg.eig")
def _det(I, st, args, kw, n):
    c = I.num(st, args[0])
    nm = CALLNAME[-1]
    if nm == "linalg.det":
        return mk("app", "det", "float", c)
    if nm == "linalg.inv":
        return mk("app", "matinv", "arr", shape(c), c)
    return mk("extv", nm, c)


def solve_term(A, b):
    """canonical A^-1 b (scalar factors of b pulled out)"""
    p = to_poly(b)
    if len(p) == 1:
        (m, c), = p.items()
        sc = [(x, e) for x, e in m if shape(x) == ()]
        ve = [(x, e) for x, e in m if shape(x) != ()]
        if len(ve) == 1 and ve[0][1] == 1 and (sc or c != 1):
            f = tm.from_poly({tuple(sc): c})
            return mul(f, solve_term(A, ve[0][0]))
    return mk("app", "solve", "arr", shape(b), A, b)


@npf("linalg.solve")
def _solve(I, st, args, kw, n):
    return I.wrap(st, solve_term(I.num(st, args[0]), I.num(st, args[1])))


@npf("errstate", "seterr", "set_printoptions", "printoptions")
def _errstate(I, st, args, kw, n):
    return mk("extv", "np." + CALLNAME[-1])


@npf("float64", "int64", "float32", "int32", "bool_", "intp", "float_", "int_")
def _cast(I, st, args, kw, n):
    return astype(I, st, args[0], mk("ext", "numpy." + CALLNAME[-1].rstrip("_")))


# ------------------------------------------------------------------ python built-ins
def py_len(I, st, v, n):
    if v.op == "ite":
        return I.split(st, v.a[0], lambda s: py_len(I, s, v.a[1], n), lambda s: py_len(I, s, v.a[2], n))
    if v.op == "tuple":
        if any(x.op == "star" for x in v.a):
            return mk("len", v)
        return const(len(v.a))
    if v.op == "const" and isinstance(cval(v), str):
        return const(len(cval(v)))
    if v.op == "ref":
        k = I.objkind(st, v.a[0])
        if k == "list":
            return list_len(I.list_content(st, v))
        if k == "dict":
            d = I.dictc(st, v.a[0])
            if d is not None and d.op == "dict" and all(p.op == "kv" for p in d.a):
                return const(len(d.a))
            if d is not None and d.op == "dictl":
                return list_len(d.a[0])
            return mk("len", mk("dictc", v))
        if k == "arr":
            s = shape(I.content(st, v))
            if s == ():
                return raise_(I, st, n, "TypeError", "type", "len() of unsized object")
            return s[0] if s is not None else mk("len", I.content(st, v))
        if isinstance(k, tuple):
            m = I.prog.find_method(I.prog.nodes[k[1]], "__len__")
            if m is not None:
                return I.call_func(m, [v], {}, st, n)
            return raise_(I, st, n, "TypeError", "type", "object has no len()")
        return mk("len", v)
    s = shape(v)
    if s is not None and len(s):
        return s[0]
    k = kind(v)
    if k in NUMK or k == "none":
        return raise_(I, st, n, "TypeError", "type", "len() of %s" % ("None" if k == "none" else "a number"))
    if v.op == "iterv":
        N, _, ok = iter_domain(I, v, st)
        return N
    if v.op in ("list", "mu", "lst"):
        return list_len(v)
    return mk("len", v)


PB = {}


def pb(*names):
    def d(f):
        for x in names:
            PB[x] = f
        return f

    return d


@pb("len")
def b_len(I, st, args, kw, n):
    return py_len(I, st, args[0], n)


def as_index(I, st, x, n):
    k = kind(x)
    if k in ("float", "str", "none") and x.op != "unk" and not (x.op == "poly" and const_poly(x) is not None and const_poly(x).denominator == 1 and False):
        if k == "float" and x.op != "const":
            # real-valued symbolic counts: only report literal misuse
            return x
        I.err(st, n, "type", "'%s' object cannot be interpreted as an integer" % k)
        I.raise_(st, "TypeError", n)
    return x


@pb("range")
def b_range(I, st, args, kw, n):
    a = [as_index(I, st, I.num(st, x), n) for x in args]
    if len(a) == 1:
        return mk("iterv", "range", ZERO, a[0], ONE)
    if len(a) == 2:
        return mk("iterv", "range", a[0], a[1], ONE)
    return mk("iterv", "range", *a[:3])


@pb("enumerate")
def b_enum(I, st, args, kw, n):
    return mk("iterv", "enumerate", args[0], arg(args, kw, 1, "start", ZERO))


@pb("zip")
def b_zip(I, st, args, kw, n):
    if any(a.op == "star" for a in args):
        return mk("extv", "zip", *args)
    return mk("iterv", "zip", *args)


@pb("reversed")
def b_rev(I, st, args, kw, n):
    return mk("iterv", "reversed", args[0])


@pb("iter")
def b_iter(I, st, args, kw, n):
    return args[0]


@pb("next")
def b_next(I, st, args, kw, n):
    it = I.iter_known(args[0], st)
    if it:
        return it[0]
    if it == [] and len(args) > 1:
        return args[1]
    v = args[0]
    if v.op == "ref" and I.objkind(st, v.a[0]) == "list":
        l = I.list_content(st, v)
        if l.op == "list" and l.a and l.a[0].op == "e":
            return l.a[0].a[0]
    return unk("next", v)


@pb("abs")
def b_abs(I, st, args, kw, n):
    c = I.num(st, args[0])
    return I.wrap(st, tm.tabs(c))


def _flatargs(I, st, args):
    """scalar items of max/min/sum arguments; None when unknown"""
    if len(args) == 1:
        v = args[0]
        if I._is_arr(st, v):
            return None
        return I.iter_known(v, st)
    return list(args)


@pb("max", "min")
def b_max(I, st, args, kw, n):
    nm = CALLNAME[-1]
    it = _flatargs(I, st, args)
    if it is None:
        v = args[0]
        if I._is_arr(st, v):
            return NP[nm](I, st, [v], {}, n)
        if v.op == "iterv" or v.op == "ref":
            return mk("app", nm, "num", I.num(st, v))
        return unk(nm, v)
    if not it:
        return arg([], kw, 0, "default", NONE)
    if "key" in kw:
        return unk(nm + " key", *it)
    acc = I.num(st, it[0])
    for x in it[1:]:
        x = I.num(st, x)
        # python semantics: max keeps the first maximal item
        c = tm.cmp_bdd(">" if nm == "max" else "<", x, acc)
        acc = ite(c, x, acc)
    return acc


@pb("sum")
def b_sum(I, st, args, kw, n):
    v = args[0]
    start = arg(args, kw, 1, "start", ZERO)
    if I._is_arr(st, v):
        return NP["sum"](I, st, [v], {"axis": ZERO} if len(shape(I.num(st, v))) > 1 else {}, n)
    it = I.iter_known(v, st)
    if it is not None:
        acc = start
        for x in it:
            acc = binop(I, "Add", acc, x, st, n)
        return acc
    if v.op == "ref" and I.objkind(st, v.a[0]) == "list":
        l = I.list_content(st, v)
        if l.op == "list":
            acc = start
            for p in l.a:
                if p.op == "e":
                    acc = binop(I, "Add", acc, p.a[0], st, n)
                elif p.op == "seg" and all(q.op == "e" for q in p.a[2]):
                    b, N, its = p.a
                    g = ar.gi("sum")
                    tot = ZERO
                    for q in its:
                        x = q.a[0]
                        if x.op == "ref":
                            x = I.num(st, x)
                        tot = add(tot, subst(x, {b: g}))
                    acc = add(I.num(st, acc), ar.sumk(g, N, tot))
                else:
                    return unk("sum", l)
            return I.wrap(st, acc)
    return unk("sum", v)


@pb("int")
def b_int(I, st, args, kw, n):
    if not args:
        return ZERO
    x = I.num(st, args[0])
    if kind(x) in ("none",):
        return raise_(I, st, n, "TypeError", "type", "int() of None")
    if x.op == "const" and isinstance(cval(x), str) and len(args) == 1:
        try:
            return const(int(cval(x)))
        except ValueError:
            return raise_(I, st, n, "ValueError", "type", "int() of text")
    if kind(x) == "str" or x.op == "strv":
        return mk("app", "int", "int", x)
    s = shape(x)
    if s:
        x = at(x, [ZERO] * len(s)) if all(dimval(d) == 1 for d in s) else unk("int(array)")
    return tm.tint(x)


@pb("float")
def b_float(I, st, args, kw, n):
    if not args:
        return ZERO
    x = I.num(st, args[0])
    if kind(x) == "none":
        return raise_(I, st, n, "TypeError", "type", "float() of None")
    if x.op == "const" and isinstance(cval(x), str):
        try:
            return const(float(cval(x)))
        except ValueError:
            return raise_(I, st, n, "ValueError", "type", "float() of text")
    if kind(x) == "str":
        return mk("app", "float", "float", x)
    s = shape(x)
    if s:
        return at(x, [ZERO] * len(s)) if all(dimval(d) == 1 for d in s) else unk("float(array)")
    return x


@pb("bool")
def b_bool(I, st, args, kw, n):
    return mkbool(I.truth(args[0], st)) if args else FALSE


@pb("str", "repr", "ascii")
def b_str(I, st, args, kw, n):
    if not args:
        return const("")
    v = args[0]
    if v.op == "ite":
        return ite(v.a[0], b_str(I, st, [v.a[1]], kw, n), b_str(I, st, [v.a[2]], kw, n))
    if v.op == "cls":
        node = I.prog.nodes[v.a[0]]
        return const("<class '%s.%s'>" % (node._mod.name, node.name))
    if v.op == "ext":
        return const("<class '%s'>" % v.a[0].replace("builtins.", ""))
    if v.op == "typeof":
        return mk("app", "str", "str", v)
    return fmtv(I, st, v, "")


@pb("list", "tuple", "set", "frozenset")
def b_list(I, st, args, kw, n):
    nm = CALLNAME[-1]
    if not args:
        if nm == "list":
            return I.new_list(st, [])
        return mk("tuple") if nm == "tuple" else mk("setv")
    v = args[0]
    if v.op == "ite":
        return I.split(st, v.a[0], lambda s: b_list(I, s, [v.a[1]], kw, n), lambda s: b_list(I, s, [v.a[2]], kw, n))
    it = I.iter_known(v, st)
    if it is not None:
        if nm == "list":
            return I.new_list(st, [IM().e_(x) for x in it])
        return mk("tuple" if nm == "tuple" else "setv", *it)
    if kind(v) == "none" or kind(v) in NUMK:
        return raise_(I, st, n, "TypeError", "type", "object is not iterable")
    parts = list_parts(I, st, v)
    if nm in ("list", "tuple"):
        return I.new_list(st, parts)
    return mk("setl", IM().mklist(parts))


@pb("dict")
def b_dict(I, st, args, kw, n):
    items = []
    if args:
        v = args[0]
        if v.op == "ref" and I.objkind(st, v.a[0]) == "dict":
            d = I.dictc(st, v.a[0])
            if d is not None and d.op == "dict":
                items += list(d.a)
            else:
                items.append(mk("kvstar", v))
        else:
            its = I.iter_known(v, st)
            if its is not None and all(x.op == "tuple" and len(x.a) == 2 for x in its):
                items += [mk("kv", x.a[0], x.a[1]) for x in its]
            else:
                loc = I.alloc()
                st.s[(loc, "k")] = "dict"
                st.s[(loc, "d")] = mk("dictl", IM().mklist(list_parts(I, st, v)))
                return mk("ref", loc, ())
    for k, v in kw.items():
        items.append(mk("kv", const(k), v))
    return I.new_dict(st, items)


@pb("sorted")
def b_sorted(I, st, args, kw, n):
    v = args[0]
    keyf = kw.get("key")
    rv = kw.get("reverse", FALSE)
    items = I.iter_known(v, st) if not I._is_arr(st, v) else None
    if items is not None:
        r = fsys.sort_known(I, st, items, keyf, rv, n)
        if r is not None:
            return I.new_list(st, [IM().e_(x) for x in r])
    if I._is_arr(st, v):
        return mk("app", "sorted", "list", I.num(st, v), keyf or NONE, rv)
    return mk("app", "sorted", "list", v if v.op != "ref" else mk("lst", I.list_content(st, v)) if I.objkind(st, v.a[0]) == "list" else v,
              keyf or NONE, rv)


@pb("print")
def b_print(I, st, args, kw, n):
    for a in args:
        pass
    I.ev("print", st, n, args=args, kw=kw)
    return NONE


@pb("type")
def b_type(I, st, args, kw, n):
    if len(args) == 1:
        return type_of(I, st, args[0])
    return unk("type()")


def isinst(I, st, v, c, n):
    if c.op == "tuple":
        r = 0
        for x in c.a:
            r = bor(r, isinst(I, st, v, x, n))
        return r
    if v.op == "ite":
        return bite(v.a[0], isinst(I, st, v.a[1], c, n), isinst(I, st, v.a[2], c, n))
    k = I.tkind(st, v)
    if c.op == "cls":
        if isinstance(k, tuple):
            node = I.prog.nodes[k[1]]
            seen = [node]
            while seen:
                x = seen.pop()
                if x._tid == c.a[0]:
                    return 1
                seen += I.prog.cls_bases(x)
            return 0
        if k in ("int", "float", "str", "bool", "none", "list", "dict", "arr", "tuple"):
            return 0
        return tm.batom(mk("istype", v, c))
    if c.op == "ext":
        nm = c.a[0].split(".")[-1]
        if isinstance(k, tuple):
            return 0
        M = {"int": ("int", "integer", "Integral", "Number", "Real"), "float": ("float", "floating", "float64", "Number", "Real"),
             "str": ("str", "str_"), "bool": ("bool", "int", "bool_"), "none": ("NoneType",), "list": ("list", "Sequence", "Iterable"),
             "tuple": ("tuple", "Sequence", "Iterable"), "dict": ("dict", "Mapping"), "arr": ("ndarray", "Iterable")}
        if k in M:
            if nm in M[k]:
                return 1
            if k in ("int", "float") and nm in ("int", "float", "integer", "floating", "Number", "Real", "Integral", "number", "generic", "float64", "int64"):
                return tm.batom(mk("istype", v, c))
            return 0
        return tm.batom(mk("istype", v, c))
    return tm.batom(mk("istype", v, c))


@pb("isinstance")
def b_isinst(I, st, args, kw, n):
    return mkbool(isinst(I, st, args[0], args[1], n))


@pb("issubclass")
def b_issub(I, st, args, kw, n):
    return mkbool(tm.batom(mk("issub", *args)))


def has_attr(I, st, v, name):
    """BDD or None"""
    if v.op == "ite":
        a, b = has_attr(I, st, v.a[1], name), has_attr(I, st, v.a[2], name)
        return None if a is None or b is None else bite(v.a[0], a, b)
    if v.op == "ref":
        k = I.objkind(st, v.a[0])
        if isinstance(k, tuple):
            x = I.get_field(st, v.a[0], name)
            if x is not None:
                return bnot(I._unbound_gate(x))
            node = I.prog.nodes.get(k[1])
            if node is not None and (I.prog.find_method(node, name) is not None or I.class_attr(node, name, st) is not None):
                return 1
            if I.schema is not None and I.schema.open(v.a[0]):
                return None
            return 0
        if k == "list":
            return 1 if hasattr([], name) else 0
        if k == "dict":
            return 1 if hasattr({}, name) else 0
        if k == "arr" and ND_ATTRS is not None:
            return 1 if name in ND_ATTRS else 0
        return None
    k = kind(v)
    for kk, o in (("int", 0), ("float", 0.0), ("str", ""), ("none", None), ("tuple", ())):
        if k == kk or (kk == "tuple" and v.op == "tuple"):
            return 1 if hasattr(o, name) else 0
    return None


@pb("hasattr")
def b_hasattr(I, st, args, kw, n):
    nm = args[1]
    if nm.op == "const":
        r = has_attr(I, st, args[0], cval(nm))
        if r is not None:
            return mkbool(r)
    return mkbool(tm.batom(mk("hasattr", args[0], nm)))


@pb("getattr")
def b_getattr(I, st, args, kw, n):
    nm = args[1]
    if nm.op == "ite":
        return I.split(st, nm.a[0], lambda s: b_getattr(I, s, [args[0], nm.a[1]] + args[2:], kw, n), lambda s: b_getattr(I, s, [args[0], nm.a[2]] + args[2:], kw, n))
    if nm.op == "const" and isinstance(cval(nm), str):
        if len(args) > 2:
            r = has_attr(I, st, args[0], cval(nm))
            if r is None:
                return ite(tm.batom(mk("hasattr", args[0], nm)), mk("fld", args[0], cval(nm)), args[2])
            return I.split(st, r, lambda s: I.getattr(args[0], cval(nm), s, n), lambda s: args[2])
        return I.getattr(args[0], cval(nm), st, n)
    I.note_unk(st, n, "getattr")
    return unk("getattr", *args)


@pb("setattr")
def b_setattr(I, st, args, kw, n):
    nm = args[1]
    if nm.op == "const" and isinstance(cval(nm), str):
        I.setattr(args[0], cval(nm), args[2], st, n)
    else:
        I.note_unk(st, n, "setattr")
        I.ev("dynset", st, n, obj=args[0], name=nm, value=args[2])
        if args[0].op == "ref":
            for key in [x for x in st.s if len(x) == 3 and x[0] == args[0].a[0] and x[1] == "."]:
                st.s[key] = unk("setattr")
    return NONE


@pb("delattr")
def b_delattr(I, st, args, kw, n):
    if args[1].op == "const" and args[0].op == "ref":
        I.set_field(st, args[0].a[0], cval(args[1]), UNBOUND, n)
    return NONE


@pb("vars")
def b_vars(I, st, args, kw, n):
    return mk("dictof", args[0]) if args else unk("vars")


@pb("id", "hash")
def b_id(I, st, args, kw, n):
    I.ev("nondet", st, n, what=CALLNAME[-1])
    return mk("app", "id", "int", args[0])


@pb("round")
def b_round(I, st, args, kw, n):
    x = I.num(st, args[0])
    if len(args) == 1:
        return mk("app", "round", "int", x) if kind(x) != "int" else x
    return mk("app", "roundn", "float", x, args[1])


@pb("any", "all")
def b_any(I, st, args, kw, n):
    nm = CALLNAME[-1]
    v = args[0]
    if I._is_arr(st, v):
        return NP[nm](I, st, [v], {}, n)
    it = I.iter_known(v, st)
    if it is None:
        if v.op == "ref" and I.objkind(st, v.a[0]) == "list":
            l = I.list_content(st, v)
            if l.op == "list" and len(l.a) == 1 and l.a[0].op == "seg" and len(l.a[0].a[2]) == 1 and l.a[0].a[2][0].op == "e":
                b, N, its = l.a[0].a
                x = its[0].a[0]
                if x.op != "ref" and shape(x) in ((), None):
                    arr = mk("lamarr", (N,), (b,), x) if False else mk("npa", l, "bool")
                    return NP[nm](I, st, [arr], {}, n)
        return mk("app", nm, "bool", v)
    r = 1 if nm == "all" else 0
    for x in it:
        t = I.truth(x, st)
        r = band(r, t) if nm == "all" else bor(r, t)
    return mkbool(r)


@pb("map", "filter")
def b_map(I, st, args, kw, n):
    f = args[0]
    if CALLNAME[-1] == "map":
        its = args[1:]
        known = [I.iter_known(x, st) for x in its]
        if all(k is not None for k in known):
            return I.new_list(st, [IM().e_(I.call(f, list(xs), {}, st, n)) for xs in zip(*known)])
        N, el, ok = iter_domain(I, its[0] if len(its) == 1 else mk("iterv", "zip", *its), st)
        acc = I.new_list(st, [])

        def body(s):
            x = s.s[("map", "x")]
            v = I.call(f, list(x.a) if len(its) > 1 else [x], {}, s, n)
            s.s[(acc.a[0], "l")] = lappend(I.list_content(s, acc), [IM().e_(v)])

        class _N:
            _tid = getattr(n, "_tid", "?") + "map"
            lineno = getattr(n, "lineno", 0)
        I.for_over(_N, its[0] if len(its) == 1 else mk("iterv", "zip", *its), st, lambda s, v: s.s.__setitem__(("map", "x"), v), body)
        st.s.pop(("map", "x"), None)
        return acc
    return unk("filter", *args)


@pb("callable")
def b_callable(I, st, args, kw, n):
    v = args[0]
    if v.op in ("func", "clo", "bound", "cls", "ext", "extmeth", "partial", "meth", "cachedfunc"):
        return TRUE
    k = kind(v)
    if k in NUMK + ("str", "none", "tuple") or v.op == "ref" and I.objkind(st, v.a[0]) in ("list", "dict", "arr"):
        return FALSE
    return mkbool(tm.batom(mk("callable", v)))


@pb("open")
def b_open(I, st, args, kw, n):
    ext_ev(I, st, n, "open", args, kw)
    return mk("extv", "file", token(I, n))


@pb("format")
def b_format(I, st, args, kw, n):
    sp = cval(args[1]) if len(args) > 1 and args[1].op == "const" else ("" if len(args) == 1 else "?")
    fmt_check(I, st, args[0], sp, n)
    return mkstr([fmtv(I, st, args[0], sp)])


@pb("divmod")
def b_divmod(I, st, args, kw, n):
    return mk("tuple", binop(I, "FloorDiv", args[0], args[1], st, n), binop(I, "Mod", args[0], args[1], st, n))


@pb("pow")
def b_pow(I, st, args, kw, n):
    return binop(I, "Pow", args[0], args[1], st, n)


@pb("slice")
def b_slice(I, st, args, kw, n):
    a = list(args)
    if len(a) == 1:
        return mkslice(NONE, a[0], NONE)
    return mkslice(a[0], a[1], a[2] if len(a) > 2 else NONE)


@pb("object")
def b_object(I, st, args, kw, n):
    return mk("extv", "object", token(I, n))


# ------------------------------------------------------------------ external functions
PURE_OS = {"os.path.join": "str", "os.path.basename": "str", "os.path.dirname": "str", "os.path.abspath": "str", "os.path.splitext": "any",
           "os.fspath": "str", "os.path.normpath": "str", "os.getcwd": "str"}
EXCS = {x for x in dir(builtins) if isinstance(getattr(builtins, x), type) and issubclass(getattr(builtins, x), BaseException)}


NPFILES = ("save", "savez", "savez_compressed", "savetxt", "load", "loadtxt", "genfromtxt", "fromfile", "memmap", "DataSource")


def call_ext(I, name, args, kw, st, n):
    root = name.split(".")[0]
    if root == "builtins":
        f = name[9:]
        if f in PB:
            CALLNAME.append(f)
            try:
                try:
                    return PB[f](I, st, list(args), kw, n)
                except IndexError:
                    return raise_(I, st, n, "TypeError", "arity", "%s() called with missing arguments" % f)
            finally:
                CALLNAME.pop()
        if f in EXCS:
            return mk("exc", f)
        I.note_unk(st, n, "builtin " + f)
        return unk("builtin " + f, *args)
    if root == "numpy":
        f = name[6:]
        if f.startswith("random."):
            I.ev("nondet", st, n, what=name)
            return mk("extv", name, token(I, n))
        h = NP.get(f)
        if h is None:
            if f in NPFILES:
                ext_ev(I, st, n, name, args, kw)
                return mk("extv", name, token(I, n)) if f not in NPFILES[:4] else NONE
            I.note_unk(st, n, name)
            return unk(name, *args)
        CALLNAME.append(f)
        try:
            try:
                if any(a.op == "star" for a in args):
                    I.note_unk(st, n, name + " star")
                    return unk(name, *args)
                return h(I, st, list(args), kw, n)
            except (IndexError, AttributeError, TypeError, ValueError) as e:
                if isinstance(e, IndexError) and not args and not kw:
                    return raise_(I, st, n, "TypeError", "arity", "%s called with missing arguments" % name)
                I.note_unk(st, n, name + ": " + repr(e)[:80])
                return unk(name, *args)
        finally:
            CALLNAME.pop()
    if name in ("copy.deepcopy", "copy.copy"):
        return py_copy(I, args[0] if args else kw.get("x", NONE), st, n, name == "copy.deepcopy")
    if root == "scipy":
        last = name.split(".")[-1]
        if last in ("csr_matrix", "csc_matrix", "coo_matrix", "csr_array", "csc_array", "lil_matrix", "bsr_matrix", "dia_matrix", "dok_matrix", "coo_array"):
            x = args[0] if args else kw.get("arg1", NONE)
            if I._is_arr(st, x):
                return mk("extv", "sparse", I.num(st, x))
            if x.op == "extv" and x.a[0] == "sparse":
                return x
            I.note_unk(st, n, name)
            return unk(name, *args)
        if last in ("spsolve", "solve"):
            return I.wrap(st, solve_term(I.num(st, args[0]), I.num(st, args[1])))
        if last == "norm":
            return NP["linalg.norm"](I, st, args, kw, n)
        if last in ("factorized", "splu"):
            A = I.num(st, args[0])
            return mk("extv", "factor", A)
        I.note_unk(st, n, name)
        ext_ev(I, st, n, name, args, kw)
        return unk(name, *args)
    if name in ("functools.wraps", "functools.update_wrapper"):
        if name.endswith("wraps"):
            return mk("extv", "identity")
        return args[0]
    if name == "functools.partial":
        return mk("partial", args[0], tuple(args[1:]), tuple(sorted(kw.items())))
    if name == "functools.reduce":
        it = I.iter_known(args[1], st)
        if it is not None and (it or len(args) > 2):
            acc = args[2] if len(args) > 2 else it.pop(0)
            for x in it:
                acc = I.call(args[0], [acc, x], {}, st, n)
            return acc
        return unk(name, *args)
    if root == "operator":
        OPN = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "pow": "Pow", "mod": "Mod", "floordiv": "FloorDiv", "matmul": "MatMult"}
        f = name.split(".")[-1]
        if f in OPN and len(args) == 2:
            return binop(I, OPN[f], args[0], args[1], st, n)
        if f == "neg":
            return I.wrap(st, neg(I.num(st, args[0])))
        CM = {"lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq", "ne": "NotEq"}
        if f in CM and len(args) == 2:
            return I.compare_val(CM[f], args[0], args[1], st, n)
        if f == "itemgetter":
            return mk("extv", name, *args)
        return unk(name, *args)
    if root == "math":
        f = name.split(".")[-1]
        xs = [I.num(st, a) for a in args]
        if f == "sqrt":
            return sqrt(xs[0])
        if f == "fabs":
            return tm.tabs(xs[0])
        if f == "pow":
            return tpow(xs[0], xs[1])
        if f in ("hypot", "dist"):
            if f == "hypot":
                acc = ZERO
                for x in xs:
                    acc = add(acc, mul(x, x))
                return sqrt(acc)
            return unk(name, *xs)
        if f in ("isnan", "isfinite", "isinf", "copysign"):
            CALLNAME.append(f)
            try:
                return NP[f](I, st, args, kw, n)
            finally:
                CALLNAME.pop()
        if f == "fsum":
            return PB["sum"](I, st, args, kw, n)
        if MATHALIAS.get(f, f) in ar.MATHFN and all(shape(x) == () for x in xs):
            return mathfn(I, st, f, xs)
        return mk("app", "math." + f, "int" if f in ("floor", "ceil", "factorial", "gcd") else "bool" if f == "isclose" else "float", *xs)
    if root == "itertools":
        f = name.split(".")[-1]
        its = [I.iter_known(a, st) for a in args]
        im = IM()
        if f == "chain" and args:
            parts = []
            for a in args:
                parts += list_parts(I, st, a)
            return I.new_list(st, parts)
        if f == "chain.from_iterable" or f == "from_iterable":
            if its and its[0] is not None:
                parts = []
                for a in its[0]:
                    parts += list_parts(I, st, a)
                return I.new_list(st, parts)
        if f == "product" and all(i is not None for i in its) and not kw:
            import itertools

            return I.new_list(st, [im.e_(mk("tuple", *c)) for c in itertools.product(*its)])
        if f == "count":
            return mk("iterv", "range", args[0] if args else ZERO, mk("extv", "infinity"), args[1] if len(args) > 1 else ONE)
        I.note_unk(st, n, name)
        return unk(name, *args)
    if name in ("collections.OrderedDict",):
        return PB["dict"](I, st, args, kw, n)
    if name in ("warnings.warn", "warnings.simplefilter", "warnings.filterwarnings", "warnings.catch_warnings") or root == "logging":
        if root == "logging":
            ext_ev(I, st, n, name, args, kw)
        return mk("extv", name, token(I, n))
    if name in ("dataclasses.field", "dataclasses.dataclass", "typing.cast", "functools.lru_cache"):
        if name == "typing.cast" and len(args) == 2:
            return args[1]
        I.note_unk(st, n, name)
        return mk("extv", name, *args)
    if name in ("contextlib.redirect_stdout", "contextlib.redirect_stderr"):
        return mk("extv", "redirect", name.split("_")[-1], args[0] if args else NONE)
    if name == "contextlib.nullcontext":
        return mk("extv", "nullcontext", *args)
    if name in PURE_OS:
        a = [x for x in args]
        r = fsys.fold(name, a)
        if r is not None:
            return r
        if name == "os.path.join" and a:
            parts = []
            for i, x in enumerate(a):
                if i:
                    parts.append(const("/"))
                parts.append(fmtv(I, st, x, ""))
            return mkstr(parts)
        return mk("app", name, PURE_OS[name], *[I.num(st, x) for x in a])
    if root == "re":
        r = fsys.regex(I, name, args, kw, st)
        if r is not None:
            return r
    ext_ev(I, st, n, name, args, kw)
    r = fsys.call(I, name, args, kw, st, n)
    if r is not None:
        return r
    if root == "time":
        return mk("app", "time", "float", token(I, n)) if not name.endswith("strftime") and not name.endswith("ctime") else mk("app", "timestr", "str", token(I, n))
    if root in ("datetime", "random", "uuid", "secrets", "tempfile"):
        I.ev("nondet", st, n, what=name)
    if name in ("os.path.exists", "os.path.isfile", "os.path.isdir"):
        return mk("app", name, "bool", token(I, n), *[I.num(st, x) for x in args])
    return mk("extv", name, token(I, n))


def ext_ev(I, st, n, name, args, kw, obj=None):
    """a call that leaves the program: with the contents of its arguments at this point"""
    if I.muted:
        return

    def val(x):
        if x.op == "star":
            return mk("star", I.num(st, x.a[0]))
        if x.op == "ref" and I.objkind(st, x.a[0]) == "dict":
            d = I.dictc(st, x.a[0])
            return d if d is not None else x
        if x.op == "ref" and isinstance(I.objkind(st, x.a[0]), tuple) and I.objkind(st, x.a[0])[0] == "inst":
            fs = sorted(((key[2], v) for key, v in st.s.items() if len(key) == 3 and key[0] == x.a[0] and key[1] == "." and isinstance(v, T)), key=lambda y: y[0])
            return mk("instv", I.objkind(st, x.a[0])[1], *[mk("kv", const(k), mk("tuple", *[I.num(st, y) for y in v.a]) if v.op == "tuple" else I.num(st, v)) for k, v in fs])
        return I.num(st, x)

    I.ev("extcall", st, n, name=name, obj=obj, args=args, kw=kw, vals=[val(x) for x in args], kwvals={k: val(x) for k, x in kw.items()})


def call_extmeth(I, fv, args, kw, st, n):
    obj, name = fv.a
    if obj.op == "extv" and obj.a[0] == "sparse":
        A = obj.a[1]
        if name in ("toarray", "todense"):
            return I.new_array(st, A)
        if name in ("tocsr", "tocsc", "tocoo", "copy", "tolil", "asformat", "tobsr"):
            return obj
        if name in ("dot", "__matmul__", "multiply"):
            if name == "multiply":
                return mk("extv", "sparse", mul(A, I.num(st, args[0])))
            return NP["dot"](I, st, [I.new_array(st, A)] + list(args), kw, n)
        if name in ("transpose",):
            return mk("extv", "sparse", mk("transpose", A, None))
    if obj.op == "extv" and obj.a[0] == "factor":
        return I.wrap(st, solve_term(obj.a[1], I.num(st, args[0])))
    if obj.op == "extv" and obj.a[0] == "rematch":
        if name == "group" and len(args) <= 1:
            i = dimval(args[0]) if args else 0
            if i is not None and i + 1 < len(obj.a):
                return obj.a[1 + i]
        if name == "groups" and not args:
            return mk("tuple", *obj.a[2:])
    if obj.op == "extv" and obj.a[0] == "path":
        r = fsys.path_meth(obj, name, args)
        if r is not None:
            return r
    ext_ev(I, st, n, "." + name, args, kw, obj)
    r = fsys.call(I, "." + name, args, kw, st, n, obj)
    if r is not None:
        return r
    if obj.op == "fld" or (obj.op == "extv" and obj.a[0] == "opaque-object"):
        I.note_unk(st, n, "method " + name)
        return unk("method " + name, obj)
    return mk("extv", "." + name, obj, token(I, n))


def with_enter(I, st, v, n):
    return v


def run_generator(I, node, st, ctx):
    acc = I.new_list(st, [])
    ctx.gen = acc
    I.block(node.body, st)
    outs = [st.copy()] if st.pc else []
    outs += [r[0] for r in ctx.returns]
    ctx.returns[:] = []
    I.become(st, I.join(outs))
    return acc


# ------------------------------------------------------------------ copies
def reach_refs(t, acc):
    for x in tm.walk(t):
        if x.op == "ref":
            acc.add(x.a[0])


def _isprefix(p, loc):
    return isinstance(loc, tuple) and isinstance(p, tuple) and len(loc) > len(p) and loc[: len(p)] == p


def py_copy(I, v, st, n, deep):
    if v.op == "ite":
        return I.split(st, v.a[0], lambda s: py_copy(I, v.a[1], s, n, deep), lambda s: py_copy(I, v.a[2], s, n, deep))
    if v.op == "tuple" and deep:
        return mk("tuple", *[py_copy(I, x, st, n, deep) for x in v.a])
    if v.op != "ref":
        return v
    k = I.objkind(st, v.a[0])
    if k == "arr":
        return I.new_array(st, I.content(st, v))
    if not deep:
        loc = v.a[0]
        nl = ("sc", token(I, n), loc)
        I.register(nl)
        if k == "list":
            return I.new_list(st, list_parts(I, st, v))
        if k == "dict":
            st.s[(nl, "k")] = "dict"
            st.s[(nl, "d")] = (I.dictc(st, loc) or unk("dict"))
            return mk("ref", nl, ())
        st.s[(nl, "k")] = k
        for key in list(st.s):
            if len(key) == 3 and key[0] == loc and key[1] == ".":
                st.s[(nl, ".", key[2])] = st.s[key]
        I.ev("copy", st, n, src=loc, dst=nl, deep=False)
        return mk("ref", nl, ())
    tok = token(I, n)
    root = v.a[0]
    locs = {root}
    work = [root]
    keys = {}
    for key in st.s:
        if len(key) >= 2 and not (len(key) == 2 and key[1] not in ("a", "l", "d", "k")):
            keys.setdefault(key[0], []).append(key)
    while work:
        l = work.pop()
        new = set()
        for key in keys.get(l, ()):
            t = st.s[key]
            if isinstance(t, T):
                reach_refs(t, new)
        if isinstance(l, tuple):
            for o in keys:
                if _isprefix(l, o):
                    new.add(o)
        for o in new:
            if o not in locs:
                locs.add(o)
                work.append(o)
    mp = CopyMap(tok, locs)
    for l in locs:
        I.register(mp.loc(l))
    for l in locs:
        for key in keys.get(l, ()):
            t = st.s[key]
            st.s[(mp.loc(l),) + key[1:]] = mp.term(t) if isinstance(t, T) else t
        # objects known through the schema only are copied lazily
        kk = I.objkind(st, l)
        if kk is not None:
            st.s.setdefault((mp.loc(l), "k"), kk)
        if kk == "arr" and (mp.loc(l), "a") not in st.s and isinstance(l, tuple) and l[0] == "n":
            # array of a certain iteration of a loop
            st.s[(mp.loc(l), "a")] = mp.term(I.content(st, mk("ref", l, ())))
    I.ev("copy", st, n, src=root, dst=mp.loc(root), deep=True)
    return mk("ref", mp.loc(root), v.a[1])


class CopyMap:
    """renames object identities inside a deep copy"""

    def __init__(self, tok, locs=None):
        self.tok = tok
        self.memo = {}
        self.locs = locs

    def loc(self, l):
        return ("cp", self.tok, l)

    def term(self, t):
        return self._t(t)

    def _t(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        if t.op == "ref":
            r = mk("ref", self.loc(t.a[0]), t.a[1])
        elif t.op in ("const", "poly", "sym", "func", "cls", "ext"):
            r = t
        elif not any(x.op == "ref" for x in tm.walk(t)):
            r = t
        else:
            r = tm.rebuild(t, self._t, lambda b: b)
        self.memo[t] = r
        return r
