"""C22: standard output is given back on every way out of a run; without a log file it is never replaced."""
import ast

from .. import front
from .. import interp as im
from .. import terms as tm
from .. import world as W
from ..terms import FALSE, NONE, ONE, TRUE, band, bnot, const, mk
from . import check

OUT = ("x", "sys.stdout")
ORIG = mk("extv", "sys.stdout")
NOW = mk("extv", "sys.stdout at the time of the call")


def leaves(t, pc, acc):
    if pc == 0:
        return
    if t.op == "ite":
        leaves(t.a[1], band(pc, t.a[0]), acc)
        leaves(t.a[2], band(pc, bnot(t.a[0])), acc)
    else:
        acc.append((t, pc))


def stream(st):
    v = st.s.get(OUT)
    return ORIG if v is None else v


def is_stdout(prog, n):
    """target expression that denotes sys.stdout"""
    return isinstance(n, ast.Attribute) and n.attr == "stdout" and isinstance(n.value, ast.Name) and prog.lookup(n._mod.name, n.value.id) == ("ext", "sys")


def write_sites(prog):
    """every construct of the package that can replace the stream"""
    out = []
    for mod in prog.modules.values():
        for n in ast.walk(mod.tree):
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)) else \
                [i.optional_vars for i in n.items if i.optional_vars is not None] if isinstance(n, ast.With) else []
            for t in ts:
                for x in ast.walk(t):
                    if isinstance(x, ast.Attribute) and x.attr == "stdout" and isinstance(x.ctx, (ast.Store, ast.Del)):
                        d = None
                        if isinstance(x.value, ast.Name):
                            d = prog.lookup(mod.name, x.value.id)
                        if d is not None and d[0] == "ext" and d[1] == "sys" or d is None and not (isinstance(x.value, ast.Name) and x.value.id == "self"):
                            out.append(n)
            if isinstance(n, ast.Call):
                s = ast.unparse(n.func)
                if s.endswith(("redirect_stdout",)) or s in ("setattr", "delattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and n.args[1].value == "stdout":
                    out.append(n)
    return out


def scenario(prog, logfile, counts, steps):
    w = W.built(prog, logfile=logfile, steps=steps)
    I = w.I
    st0 = w.st
    w.st = st0
    W.generalise(w)
    return w


EXITS = "the stream of the model's creation is in place on every way out of run"


def run_faulty(R, prog, steps, counts):
    w = scenario(prog, TRUE, counts, steps)
    I = w.I
    M = w.M
    f, h = W.pf_contract(I, counts)
    I.contracts[f._tid] = h
    r = W.method(prog, w.cls, "run")
    I.faults, I.nfaults = True, 0
    I.raises = [[]]
    u0 = len(I.unmodelled)
    st = w.st.copy()
    try:
        v, st = I.run(r, {r.args.args[0].arg: M}, st)
    finally:
        I.faults = False
    exits = [(st, None, "return")] if st.pc else []
    exits += [(s, n, "exception at") for s, e, n, ld in I.raises[0]]
    unm = I.unmodelled[u0:]
    what = "steps=%d: " % steps + EXITS
    bad, seen = {}, 0
    for s, n, how in exits:
        acc = []
        leaves(stream(s), s.pc, acc)
        seen += 1
        for t, pc in acc:
            if t is not ORIG:
                bad.setdefault(n, (t, how))
    R.notes.append("%s: %d ways out analysed (%d statements that may raise)" % (what, seen, I.nfaults))
    if not exits:
        R.und(what, r, "no way out of run found")
    elif bad:
        for n, (t, how) in list(bad.items())[:6]:
            detail = "%s %s: sys.stdout is %s" % (how, front.where(prog, n) if n is not None else front.where(prog, r), tm.show(t, 4)[:120])
            odd = [u for u in unm if "with" in str(u) or "call" in str(u) or "setattr" in str(u)]
            if t.op == "unk" or odd:
                R.und(what, n or r, detail + (" (not modelled: %s)" % (odd[0],) if odd else ""))
            else:
                R.bad(what, n or r, detail)
    else:
        R.held(what, r, "%d ways out, all with the stream found at creation" % seen)
    return w


def stdout_sets(events):
    return [e for e in events if e.kind == "extset" and e.data.get("target") == "sys.stdout"]


def quiet(R, prog):
    """no operation replaces the stream of a model without log file"""
    import inspect

    w = scenario(prog, FALSE, (2, 1), 2)
    I = w.I
    ev0 = list(I.events)
    w.st.s[OUT] = NOW
    W.run_model(w, (2, 1))
    st = w.post
    ops = 0
    for name, args, kw in PUBLIC:
        try:
            m = prog.find_method(w.cls, name)
            if m is None:
                continue
            s = st.copy()
            I.raises = [[]]
            k = len(I.events)
            from .common import callv

            callv(I, s, mk("bound", mk("func", m._tid), w.M), args, kw, m)
            ops += 1
        except RecursionError:
            R.und("without log file: %s" % name, None, "recursion")
    evs = stdout_sets(I.events)
    bad = []
    for e in evs:
        acc = []
        before = ORIG if e in ev0 else NOW
        leaves(e.data["value"], e.pc, acc)
        bad += [(e, t) for t, pc in acc if t is not before]
    for e, t in bad[:4]:
        (R.und if t.op == "unk" else R.bad)("without log file: the standard output stream is not replaced", e.node, "sys.stdout = %s" % tm.show(t, 4)[:150])
    if not bad:
        R.held("without log file: the standard output stream is not replaced", None, "%d operations, %d assignments reached" % (ops + 3, len(evs)))
    return w


PUBLIC = [("plot_model", [], {}), ("plot_model", [], {"view": const("3d"), "contour": const("force"), "inc": const(1)}),
          ("plot_history", [], {}), ("plot_path", [], {}), ("plot_movie", [], {}), ("plot_show", [], {}),
          ("plt_nodes", [], {}), ("plt_elements", [], {}), ("plt_extforces", [], {})]


@check("C22", "Every way out of Model.run - the return and an exception in any statement that can raise one, in any function reached - is followed "
              "through the try/finally/with structure; the value of sys.stdout there is compared with the stream found when the model was created. "
              "Without a log file no reached assignment replaces the stream.")
def c22(R):
    prog = R.prog
    reached = set()
    for steps, counts in ((1, (2,)), (2, (2, 1))):
        w = run_faulty(R, prog, steps, counts)
        reached |= {id(e.node) for e in w.I.events if e.kind == "extset"}
        fns = set(w.I.analysed)
    # the stream is recorded before it is replaced
    w2 = quiet(R, prog)
    fns |= set(w2.I.analysed)
    for n in write_sites(prog):
        if prog.qual(n) not in fns:
            R.und("replacement of sys.stdout is analysed", n, "in a function that the analysed operations do not reach: %s" % prog.qual(n))
        else:
            R.held("replacement of sys.stdout is analysed", n, "reached")
