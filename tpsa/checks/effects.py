"""C23 (files), C24 (determinism), C27 (no failing names, attributes, calls, types), C28 (values stored exactly)."""
import ast
import builtins
import posixpath
import symtable

from .. import arrays as ar
from .. import fsys
from .. import interp as im
from .. import terms as tm
from .. import world as W
from ..report import index
from ..terms import FALSE, NONE, ONE, TRUE, ZERO, T, add, band, bnot, bor, cmp_bdd, const, cval, ite, mk
from . import check
from .catalog import Done, S
from .everything import harvest


# ------------------------------------------------------------------ C27
WHAT = {"unbound": "a variable that is not assigned", "undefined": "a name that is not defined", "attribute": "an attribute that is not set", "none-attr": "an attribute of None",
        "arity": "a call that does not fit the parameters", "type": "a value of a type that does not fit", "unpack": "values that do not unpack", "import": "an import that fails",
        "ambiguous": "the truth value of an array"}


def counted(e):
    """condition of an event with the loop counters as indices"""
    m = {k: index("loop%d" % i, n) for i, ((l, k), n) in enumerate(zip(e.loops, e.counts)) if isinstance(k, T) and k is not ZERO and isinstance(n, T)}
    if not m or e.pc in (0, 1):
        return e.pc, ()
    g = tm.asbdd_or(tm.subst(tm.mkbool(e.pc), m))
    return g, tuple(x for x in m.values() if any(y is x for q in tm.bsupport(g) for y in tm.walk(q)))


def functions(prog):
    for m in prog.modules.values():
        if m.name.startswith("reference."):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield m, n


def own_statements(f):
    out = []
    work = list(f.body)
    while work:
        s = work.pop()
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        out.append(s)
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.stmt):
                work.append(c)
            elif isinstance(c, (ast.ExceptHandler,)) or type(c).__name__ == "match_case":
                work += c.body
    return out


def is_doc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)


@check("C27", "abstract interpretation of every public operation with every documented option: no reachable use of an undefined name, unset attribute, unfitting call or type; name resolution of the statements outside the scenarios")
def c27(rep):
    h = harvest(rep, rep.tier)
    seen = {}
    bad = set()
    ncall = 0
    for name, I in h:
        ncall += I.callcount
        for e in I.events:
            if e.kind == "error" and e.pc != 0 and not e.data.get("caught"):
                k = (e.node, e.data["what"], e.data["detail"])
                seen.setdefault(k, []).append((name, e))
    for (node, what, detail), es in seen.items():
        r = None
        done = set()
        for name, e in es:
            if e.pc in done:
                continue
            done.add(e.pc)
            t = "%s: %s (%s)" % (WHAT.get(what, what), detail, name)
            g, idx = counted(e)
            r = rep.never("no use of " + t, possible(g), node=node, idx=idx)
            if r is not True:
                bad.add(node)
                break
    total = left = 0
    for m, f in functions(rep.prog):
        st = [s for s in own_statements(f) if not is_doc(s)]
        if not st:
            continue
        miss = [s for s in st if s not in im.COVER]
        total += len(st)
        left += len(miss)
        und = undefined(rep.prog, m, f, miss)
        for nm, node in und:
            rep.bad("every name used is defined", node, "'%s' is not defined in %s" % (nm, f.name))
        for nm, node in unset(rep.prog, m, f, miss):
            und.append((nm, node))
            rep.bad("every attribute used is set somewhere", node, "no code sets '%s'" % nm)
        inner = {x for s in st for x in ast.walk(s)}
        if not und and not any(b in inner for b in bad):
            rep.held("%s.%s: %d of %d statements analysed, no failing name, attribute, call or type" % (m.name, f.name, len(st) - len(miss), len(st)), f, "no error event; names of the other statements resolved")
    rep.notes.append("%d statements, %d not reached by a scenario; %d calls analysed in context, %d scenarios" % (total, left, ncall, len(h)))


def undefined(prog, m, f, stmts):
    """names read in the statements that are bound nowhere"""
    if not stmts:
        return []
    bound = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__class__", "__builtins__"}
    if any(isinstance(x, ast.ImportFrom) and any(a.name == "*" for a in x.names) for x in ast.walk(m.tree)):
        return []
    for x in ast.walk(m.tree):
        # any binding in the module counts, except local ones of other functions
        if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            bound.add(x.name)
        elif isinstance(x, ast.alias):
            bound.add((x.asname or x.name).split(".")[0])
        elif isinstance(x, ast.Global):
            bound |= set(x.names)
    for s in m.tree.body:
        bound |= stored(s)
    # enclosing functions and the function itself
    for g in ast.walk(m.tree):
        if isinstance(g, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)) and (g is f or any(x is f for x in ast.walk(g))):
            a = g.args
            bound |= {y.arg for y in a.posonlyargs + a.args + a.kwonlyargs + [z for z in (a.vararg, a.kwarg) if z]}
            for s in g.body if isinstance(g.body, list) else [g.body]:
                bound |= stored(s)
    out = []
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in bound:
                out.append((x.id, x))
    return out


def unset(prog, m, f, stmts):
    """attributes of self read in the statements that no code ever sets"""
    c = next((x for x in ast.walk(m.tree) if isinstance(x, ast.ClassDef) and f in x.body), None)
    if c is None or not stmts or not f.args.args or im.external_base(prog, c):
        return []
    me = f.args.args[0].arg
    known = set(dir(object)) | {"__dict__"}
    for mod in prog.modules.values():
        for x in ast.walk(mod.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                known.add(x.attr)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                known.add(x.name)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                known.add(x.id)
            elif isinstance(x, ast.alias):
                known.add((x.asname or x.name).split(".")[0])
            elif isinstance(x, ast.Constant) and isinstance(x.value, str):
                known.add(x.value)  # set by name
    if any(isinstance(x, ast.FunctionDef) and x.name == "__getattr__" for x in c.body):
        return []
    return [(x.attr, x) for s in stmts for x in ast.walk(s) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == me and x.attr not in known]


def stored(s):
    out = set()
    for x in ast.walk(s):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, ast.arg):
            out.add(x.arg)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        elif type(x).__name__ in ("MatchAs", "MatchStar") and x.name:
            out.add(x.name)
    return out


# ------------------------------------------------------------------ C24
SOURCES = ("random.", "numpy.random", "secrets.", "uuid.", "datetime.", "os.environ", "os.getenv", "os.getpid", "os.getcwd", "os.urandom", "os.cpu_count", "sys.argv", "platform.", "socket.",
           "getpass.", "tempfile.", "os.getlogin", "os.uname", "sys.flags", "sys.hash_info", "os.times", "locale.", "psutil.", "resource.", "threading.", "os.get_terminal_size", "gc.")


def source(x):
    """does a term stand for a value from outside the model?"""
    if x.op == "app" and x.a[0] in ("time", "timestr"):
        return "the clock"
    if x.op == "app" and x.a[0] == "id":
        return "an object identity"
    if x.op == "extv" and x.a and isinstance(x.a[0], str):
        for s in SOURCES:
            if x.a[0] == s.rstrip(".") or x.a[0].startswith(s):
                return s.rstrip(".")
    if x.op == "ext" and x.a and isinstance(x.a[0], str) and any(x.a[0] == s.rstrip(".") for s in ("os.environ", "sys.argv")):
        return x.a[0]
    return None


DATA = ("trusspy.core.Analysis", "trusspy.Node", "trusspy.Element", "trusspy.BoundaryU", "trusspy.BoundaryT", "trusspy.ExternalForce", "trusspy.handlers.NodeHandler", "trusspy.handlers.ElementHandler",
        "trusspy.handlers.BoundaryHandler", "trusspy.handlers.ExternalForceHandler", "trusspy.handlers.ResultHandler", "trusspy.handlers.SettingsHandler")


def data_classes(prog):
    out = {}
    for d in DATA:
        try:
            out[W.public(prog, d)._tid] = d.split(".")[-1]
        except W.AnchorError:
            pass
    return out


def stored_values(I, st, classes):
    """(object, field, value) of every field of the data objects in a state"""
    from .results import fields_of, reach

    keys = fields_of(st)
    known = {}
    for k, t in list(st.s.items()):
        if len(k) == 3 and k[1] == "." and isinstance(t, T):
            o = I.objkind(st, k[0])
            c = classes.get(o[1]) if isinstance(o, tuple) and len(o) > 1 else None
            if c is None:
                continue
            yield c, k[2], t
            if t not in known:
                known[t] = [st.s.get((l, q)) for l in reach(I, st, t, keys=keys) if not isinstance(I.objkind(st, l), tuple) for q in ("a", "l", "d")]
            for v in known[t]:
                if isinstance(v, T):
                    yield c, k[2], v


@check("C24", "taint analysis on the value graphs: no clock, random, environment, identity or uninitialised value reaches a stored or returned value, or the condition under which it is stored")
def c24(rep):
    h = harvest(rep, rep.tier)
    classes = data_classes(rep.prog)
    nodes = {n: rep.prog.nodes.get(k) for k, n in classes.items()}
    bad = {}
    nvals = 0
    fields = {}
    seen = {}
    clean, vague = set(), set()

    def tainted(v):
        if v in seen:
            return seen[v]
        if v in clean:
            return None
        new = set()
        work = [v]
        r = None
        while work:
            x = work.pop()
            if x in new or x in clean:
                continue
            r = source(x) or seen.get(x)
            if r:
                break
            new.add(x)
            work += tm.subterms(x)
            if x.op in ("ite", "bool", "itepart"):
                work += tm.bsupport(x.a[0])
            if x.op == "empty":
                vague.add(x)
        if r:
            seen[v] = r
        else:
            clean.update(new)
        return r

    voids = {}

    def void(v, c, f, name):
        """does memory that was never written show in the value?"""
        if v in voids or not vague or not any(x.op == "empty" for x in tm.walk(v)):
            return
        w = voids[v] = tm.subst(v, {x: mk("zeros", *x.a) for x in tm.walk(v) if x.op == "empty"})
        u = tm.subst(v, {x: ar.asym("uninit", x.a) for x in tm.walk(v) if x.op == "empty"})
        s, s2 = ar.shape(u), ar.shape(w)
        if w is v or s is None or s2 is None or len(s) != len(s2):
            rep.und("%s.%s: memory that was not written" % (c, f), None, "not understood (%s)" % name)
            return
        k = len(rep.obs)
        r = rep.arr("%s.%s has no value from memory that was not written" % (c, f), u, s, lambda *i: ar.at(w, list(i)), node=nodes.get(c))
        if r is True:
            del rep.obs[k:]

    for name, I in h:
        for st in I.finals:
            if st.pc == 0:
                continue
            for c, f, v in stored_values(I, st, classes):
                nvals += 1
                w = tainted(v)
                if v.op not in ("list", "dict"):
                    void(v, c, f, name)
                key = (c, f)
                fields.setdefault(key, 0)
                fields[key] += 1
                if w and key not in bad:
                    bad[key] = (w, name, v)
        for fid, v in I.results:
            w = tainted(v) if isinstance(v, T) else None
            if w and ("result", fid) not in bad:
                bad[("result", fid)] = (w, name, v)
        for e in I.events:
            if e.kind in ("pathfollow", "newton", "user", "umat"):
                a = e.data.get("args") or ()
                for v in a.values() if isinstance(a, dict) else a:
                    if isinstance(v, T):
                        v = I.num(e.data["state"], v) if "state" in e.data and v.op == "ref" and isinstance(I.objkind(e.data["state"], v.a[0]), str) else v
                        w = tainted(v)
                        if w and ("call", e.node) not in bad:
                            bad[("call", e.node)] = (w, name, v)
            if e.kind == "raise" and e.pc not in (0, 1):
                for x in tm.bsupport(e.pc):
                    w = tainted(x)
                    if w and ("raise", e.node) not in bad:
                        bad[("raise", e.node)] = (w, name, x)
    for (c, f), k in sorted(fields.items()):
        if (c, f) not in bad:
            rep.held("%s.%s does not depend on the clock, random numbers, the environment or identities" % (c, f), None, "%d values in all scenarios" % k)
    for key, (w, name, v) in bad.items():
        if key[0] == "result":
            n = rep.prog.nodes.get(key[1])
            rep.bad("the result of %s is a function of its arguments" % getattr(n, "name", key[1]), n, "depends on %s (%s): %s" % (w, name, tm.show(v, 5)[:200]))
        elif key[0] == "call":
            rep.bad("what is computed is a function of the model", key[1], "an argument depends on %s (%s): %s" % (w, name, tm.show(v, 5)[:200]))
        elif key[0] == "raise":
            rep.bad("an exception is raised for the model alone", key[1], "depends on %s (%s)" % (w, name))
        else:
            rep.bad("%s.%s is a function of the model" % key, origin(rep, h, key, tainted), "depends on %s (%s): %s" % (w, name, tm.show(v, 5)[:200]))
    events(rep, h)


def origin(rep, h, key, tainted):
    """statement that stores the value"""
    for name, I in h:
        for e in I.events:
            if e.kind == "store" and isinstance(e.data.get("value"), T) and tainted(e.data["value"]):
                if e.data.get("field") in (key[1], "a", "l", "d"):
                    return e.node
    return None


def events(rep, h):
    """uses of sources in the program, for the evidence"""
    n = {}
    for name, I in h:
        for e in I.events:
            if e.kind == "nondet":
                n.setdefault((e.node, e.data["what"]), name)
            elif e.kind == "extcall" and e.data["name"].split(".")[0] == "time":
                n.setdefault((e.node, e.data["name"]), name)
    for (node, what), name in n.items():
        rep.held("%s is only reported" % what, node, "no stored or returned value depends on it")


# ------------------------------------------------------------------ C23
DELETE = {"shutil.rmtree": ("path",), "os.remove": ("path",), "os.unlink": ("path",), "os.rmdir": ("path",), "os.removedirs": ("name",), ".unlink": None, ".rmdir": None}
MAKE = {"os.mkdir": ("path",), "os.makedirs": ("name",), ".mkdir": None}
WRITE = {".savefig": ("fname",), "matplotlib.pyplot.savefig": ("fname",), "matplotlib.pyplot.imsave": ("fname",), "numpy.save": ("file",), "numpy.savez": ("file",), "numpy.savez_compressed": ("file",),
         "numpy.savetxt": ("fname",), ".tofile": ("fid",), ".dump": ("file",), "logging.FileHandler": ("filename",), "zipfile.ZipFile": ("file",), "tarfile.open": ("name",), "os.truncate": ("path",),
         "os.mknod": ("path",), "os.mkfifo": ("path",), "matplotlib.image.imsave": ("fname",), "sqlite3.connect": ("database",), "shelve.open": ("filename",)}
for _m in ("imageio", "imageio.v2", "imageio.v3"):
    for _f in ("mimwrite", "mimsave", "imwrite", "imsave", "volwrite", "mvolwrite", "get_writer"):
        WRITE["%s.%s" % (_m, _f)] = ("uri",)
PATHW = {".write_text", ".write_bytes", ".touch", ".symlink_to", ".hardlink_to", ".chmod"}
TWO = {"os.rename": 2, "os.replace": 2, "shutil.move": 2, "shutil.copy": 1, "shutil.copy2": 1, "shutil.copyfile": 1, "shutil.copytree": 1, "os.link": 1, "os.symlink": 1, "os.renames": 2, ".rename": 1, ".replace": 1}
OPEN = {"open": ("file", "mode", 0, 1), "io.open": ("file", "mode", 0, 1), "codecs.open": ("filename", "mode", 0, 1), "gzip.open": ("filename", "mode", 0, 1), "bz2.open": ("filename", "mode", 0, 1),
        "lzma.open": ("filename", "mode", 0, 1), ".open": (None, "mode", None, 0), "os.open": ("path", "flags", 0, 1)}
FORBID = ("subprocess.", "os.system", "os.popen", "os.exec", "os.spawn", "os.fork", "os.kill", "multiprocessing.", "socket.", "urllib.", "requests.", "http.", "ftplib.", "smtplib.", "webbrowser.", "os.chdir",
          "os.chmod", "os.chown", "os.umask", "os.startfile", "os.putenv", "os.setuid", "shutil.chown", "concurrent.futures.ProcessPoolExecutor", "asyncio.create_subprocess", "os.posix_spawn", "tempfile.",
          "os.chroot", "os.lchown", "os.fchmod", "signal.", "os.nice", "os.makedev", "pty.", "os.setxattr")


WORK, PNG, GIF = (mk("sym", "user." + q, "str") for q in ("workdir", "png_subdir", "gif_subdir"))
LOGNAME = W.sym("logfile_name", "str")
# texts the user may give: the path of a call is compared for each of them
SAMPLES = ({WORK: "Work.d/", PNG: "Pngs/", GIF: "Gifs/", LOGNAME: "Log.v1"}, {WORK: "a/b/", PNG: "c/", GIF: "d/e/", LOGNAME: "runs/Model one"})
STRM = ("lower", "upper", "strip", "lstrip", "rstrip", "replace", "removesuffix", "removeprefix", "title", "capitalize", "zfill", "ljust", "rjust", "casefold", "swapcase")


def text_of(p, env):
    """the path for the given texts of the user, or None"""
    t = fsys.text(p)
    if t is not None:
        return t
    if p in env:
        return env[p]
    if p.op == "extv" and p.a[0] in ("path", "pathlib.Path"):
        xs = [text_of(x, env) for x in p.a[1:] if isinstance(x, T) and x.op != "tok"]
        return None if any(x is None for x in xs) else posixpath.join(*xs) if xs else "."
    if p.op == "strv":
        out = ""
        for x in p.a:
            if x.op == "const":
                out += str(cval(x))
            elif x.op in ("fmt", "fmtv") or tm.kind(x) in ("int", "float"):
                out += "7"
            else:
                q = text_of(x, env)
                if q is None:
                    return None
                out += q
        return out
    if p.op == "fmt":
        return "7"
    if p.op == "ite":
        return None
    if p.op == "app" and p.a[0] in STRM:
        xs = [text_of(x, env) for x in p.a[2:] if isinstance(x, T)]
        if xs and all(x is not None for x in xs):
            try:
                return getattr(xs[0], p.a[0])(*xs[1:])
            except TypeError:
                return None
    if p.op == "app" and p.a[0] in fsys.FOLD:
        xs = [text_of(x, env) for x in p.a[2:] if isinstance(x, T) and x.op != "tok"]
        if xs and all(x is not None for x in xs):
            r = fsys.FOLD[p.a[0]](*xs)
            return r if isinstance(r, str) else None
    return None


def allowed(kind, s, env):
    """is the path one of the documented ones?"""
    s = posixpath.normpath(s)

    def inside(folder):
        f = posixpath.normpath(folder)
        return s == f or s.startswith(f + "/")

    gifs = [w + g for w in (env[WORK], "figures/") for g in (env[GIF], "gif/")]
    if kind in ("delete", "make"):
        return inside("figures") or any(inside(g) for g in gifs)
    return inside("figures/png") or any(inside(g) for g in gifs) or is_log(s, env)


def is_log(s, env):
    return posixpath.normpath(s) == posixpath.normpath(env[LOGNAME] + ".md")


def effect(e, I):
    """[(kind, path or None)] of a call that works on files, or ()"""
    nm = e.data["name"]
    vals, kw, obj = e.data.get("vals") or [], e.data.get("kwvals") or {}, e.data.get("obj")

    def arg(i, *names):
        for q in names:
            if q in kw:
                return kw[q]
        return vals[i] if i is not None and i < len(vals) else None

    isp = obj is not None and obj.op == "extv" and obj.a[0] in ("path", "pathlib.Path", "pathlib.PurePath")
    for table, kind in ((DELETE, "delete"), (MAKE, "make"), (WRITE, "write")):
        if nm in table:
            q = table[nm]
            if q is None:
                return [(kind, obj)] if isp else ()
            p = arg(0, *q)
            if nm == ".dump" and not (obj is not None and I is not None):
                return ()
            return [(kind, p)]
    if nm in PATHW:
        return [("write", obj)] if isp else ()
    if nm in TWO:
        if nm.startswith("."):
            return [("write", obj), ("write", arg(0, "target"))] if isp else ()
        out = [("write", arg(1, "dst"))]
        if TWO[nm] == 2:
            out.append(("delete", arg(0, "src")))
        return out
    if nm in OPEN:
        f, m, i, j = OPEN[nm]
        p = obj if f is None else arg(i, f)
        if f is None and not isp:
            return ()
        mode = arg(j, m)
        if nm == "os.open":
            return [("write", p)]
        if mode is None:
            return [("read", p)]
        t = fsys.text(mode)
        if t is None or set(t) & set("wax+"):
            return [("write", p)]
        return [("read", p)]
    if any(nm == q.rstrip(".") or nm.startswith(q) for q in FORBID):
        return [("forbidden", None)]
    return ()


def movie_runs(rep):
    """the movie with arguments of the user"""
    d = Done(rep, 1, (2,))
    base = {"view": const("xz"), "incs": None}
    for kw in ({"workdir": WORK, "png_subdir": PNG, "gif_subdir": GIF}, {"gif_subdir": GIF}, {"workdir": WORK}, {"fps": S("user.fps")}):
        for incs in (None, (const(1),)):
            st = d.st.copy()
            k = dict(kw)
            if incs:
                k["incs"] = d.list(st, incs)
            d.do("plot_movie", [], k, st=st)
    return d


@check("C23", "effect analysis: every call that deletes, creates, writes or opens a file, starts a process or opens a connection, with the symbolic path it gets, against the documented folders")
def c23(rep):
    h = harvest(rep, rep.tier)
    n = len(im.INTERPS)
    try:
        movie_runs(rep)
    except W.AnchorError as e:
        rep.und("plot_movie with the folders of the user", None, "not found: %s" % e)
    h += [("movie in folders of the user", I) for I in im.INTERPS[n:]]
    sites = {}
    for name, I in h:
        for e in I.events:
            if e.kind != "extcall" or e.pc == 0:
                continue
            for kind, p in effect(e, I):
                sites.setdefault(e.node, []).append((kind, p, e, I, name))
            if e.data["name"] not in sites:
                pass
    for node, es in sites.items():
        r = True
        done = set()
        for kind, p, e, I, name in es:
            key = (kind, p, e.pc)
            if key in done:
                continue
            done.add(key)
            q = judge(rep, node, kind, p, e, I, name)
            r = r if q is True else q
            if q is False:
                break
        if r is True:
            rep.held("%s works on the documented path only" % es[0][2].data["name"], node, "%d analysed calls" % len(es))
    unreached(rep, sites)


def possible(pc):
    """the condition with the answers of other libraries left open"""
    for v in list(tm.bsupport(pc)) if not isinstance(pc, bool) and pc not in (0, 1) else ():
        if any(x.op == "tok" for x in tm.walk(v)):
            a = tm.batom(v)
            pc = bor(tm.brestrict(pc, a), tm.brestrict(pc, bnot(a)))
    return pc


def judge(rep, node, kind, p, e, I, name):
    nm = e.data["name"]
    if kind == "forbidden":
        return rep.never("no call of %s (%s)" % (nm, name), possible(counted(e)[0]), node=node, idx=counted(e)[1])
    if p is None:
        rep.und("path of " + nm, node, "the call has no path argument")
        return None
    if p.op == "ite":
        pc = e.pc
        r = True
        for g, q in ((p.a[0], p.a[1]), (bnot(p.a[0]), p.a[2])):
            if band(pc, g) == 0:
                continue
            x = judge(rep, node, kind, q, e, I, name)
            r = r if x is True else x
        return r
    ts = [text_of(p, env) for env in SAMPLES]
    if any(t is None for t in ts):
        rep.und("path of " + nm, node, "not known: " + tm.show(p, 4)[:160])
        return None
    if kind == "read":
        return rep.never("%s is not opened (%s)" % (ts[0], name), possible(counted(e)[0]), node=node, idx=counted(e)[1])
    wrong = [(t, env) for t, env in zip(ts, SAMPLES) if not allowed(kind, t, env)]
    if not wrong:
        if kind == "write" and is_log(ts[0], SAMPLES[0]):
            return rep.never("the log file is opened only when it is requested (%s)" % name, band(e.pc, bnot(I.logwanted)) if hasattr(I, "logwanted") else 0, node=node)
        return True
    verb = {"delete": "deletes", "make": "creates", "write": "writes"}[kind]
    t, env = wrong[0]
    given = ", ".join("%s=%r" % (k.a[0].split(".")[-1], v) for k, v in env.items() if k in tm.walk(p))
    return rep.never("%s only what is documented: %s %r%s (%s)" % (nm, verb, t, " for " + given if given else "", name), possible(counted(e)[0]), node=node, idx=counted(e)[1])


EFFECTNAMES = {q.split(".")[-1] for q in list(DELETE) + list(MAKE) + list(WRITE) + list(OPEN)} | {"write_text", "write_bytes", "touch", "system", "popen", "Popen", "check_call", "check_output", "urlopen", "chdir"}


def unreached(rep, sites):
    """calls in statements of analysed functions no scenario reaches: judged by their name and a constant path"""
    for m, f in functions(rep.prog):
        st = own_statements(f)
        live = any(s in im.COVER for s in st)
        names = imports(m.tree)
        for s in st:
            if s in im.COVER or isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)) or guarded_off(m.tree, s):
                continue
            for x in ast.walk(s):
                if not isinstance(x, ast.Call) or x in sites:
                    continue
                nm = dotted(x.func, names)
                last = nm.split(".")[-1]
                p = x.args[0] if x.args else None
                if any(nm == q.rstrip(".") or nm.startswith(q) for q in FORBID):
                    if live:
                        rep.bad("no call of " + nm, x, "reached by an operation with suitable arguments")
                    else:
                        rep.und("call of " + nm, x, "in a statement no scenario reaches")
                    continue
                kind = "delete" if nm in DELETE else "make" if nm in MAKE else "write" if nm in WRITE or nm in OPEN or last == "savefig" else None
                if kind is None:
                    if last in EFFECTNAMES and last not in ("replace", "dump"):
                        rep.und("call of " + nm, x, "in a statement no scenario reaches")
                    continue
                if live and isinstance(p, ast.Constant) and isinstance(p.value, str):
                    if not all(allowed(kind, p.value, env) for env in SAMPLES):
                        rep.bad("%s only what is documented" % nm, x, "uses %r" % p.value)
                else:
                    rep.und("call of " + nm, x, "in a statement no scenario reaches")


def guarded_off(tree, s):
    """is the statement in a branch whose test is a false constant?"""
    for x in ast.walk(tree):
        if isinstance(x, (ast.If, ast.While)) and isinstance(x.test, ast.Constant) and not x.test.value and any(s is y for b in x.body for y in ast.walk(b)):
            return True
    return False


def imports(tree):
    out = {}
    for x in ast.walk(tree):
        if isinstance(x, ast.Import):
            for a in x.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(x, ast.ImportFrom) and not x.level and x.module:
            for a in x.names:
                out[a.asname or a.name] = x.module + "." + a.name
    return out


def dotted(f, names):
    if isinstance(f, ast.Name):
        return names.get(f.id, f.id)
    if isinstance(f, ast.Attribute):
        b = dotted(f.value, names)
        return b + "." + f.attr
    return "?"
