"""An abstract file system: names and contents of the files below the working
directory, for programs whose file names are constants in a scenario.

The state entry ("x", "fs!") holds fs(("d", path) | ("f", path, content), ...).
Without that entry nothing here applies.  The order in which a directory is
listed is arbitrary, so an unfavourable one is used.
"""
import fnmatch
import hashlib
import posixpath
import re

from . import terms as tm
from .terms import FALSE, NONE, TRUE, T, bor, const, cval, mk, mkbool

KEY = ("x", "fs!")


def text(x):
    """constant path, or None"""
    if x is None:
        return None
    if x.op == "const" and isinstance(cval(x), str):
        return cval(x)
    if x.op == "extv" and x.a[0] == "path":
        return cval(x.a[1])
    return None


def norm(p):
    return posixpath.normpath(p)


def get(st):
    """(dirs, files) or None"""
    f = st.s.get(KEY)
    if f is None or f.op != "fs":
        return None
    return {e[1] for e in f.a if e[0] == "d"} | {"."}, {e[1]: e[2] for e in f.a if e[0] == "f"}


def put(st, dirs, files):
    st.s[KEY] = mk("fs", *[("d", d) for d in sorted(dirs)], *[("f", f, c) for f, c in sorted(files.items())])


def start(st, dirs=(), files=None):
    put(st, set(norm(d) for d in dirs), {norm(f): c for f, c in (files or {}).items()})


def shuffle(xs):
    return sorted(xs, key=lambda x: hashlib.md5(x.encode()).hexdigest())


def children(dirs, files, p):
    return {posixpath.basename(x) for x in list(dirs) + list(files) if x != "." and posixpath.dirname(x) == ("" if p == "." else p)}


IMREAD = ("imageio.imread", "imageio.v2.imread", "imageio.v3.imread", "matplotlib.image.imread", "matplotlib.pyplot.imread", "PIL.Image.open", "imageio.v3.imopen")


def call(I, name, args, kw, st, n, obj=None):
    """value of a call that works on files, or None"""
    last = name.split(".")[-1]
    if st.s.get(KEY) is not None and st.s[KEY].op == "ite" and st.pc:
        f = st.s[KEY]

        def side(v):
            def go(s):
                s.s[KEY] = v
                r = call(I, name, args, kw, s, n, obj)
                return r if r is not None else mk("unk", "file")
            return go
        return I.split(st, f.a[0], side(f.a[1]), side(f.a[2]))
    fs = get(st)
    if name == "pathlib.Path" or name == "pathlib.PurePath":
        ps = [text(a) for a in args]
        if all(p is not None for p in ps):
            return mk("extv", "path", const(posixpath.join(*ps) if ps else "."))
        return None
    if fs is None:
        return None
    dirs, files = fs
    a = [I.num(st, x) if x.op == "ref" else x for x in args]

    def arg(i, *names):
        for nm in names:
            if nm in kw:
                return kw[nm]
        return a[i] if i < len(a) else None

    def fail(exc):
        I.raise_(st, exc, n)
        return mk("unk", exc)

    def flag(x):
        return x is TRUE or (x is not None and x.op == "const" and bool(cval(x)))

    if name in ("os.path.isdir", "os.path.exists", "os.path.isfile", "os.path.lexists"):
        p = text(arg(0, "path", "s"))
        if p is None:
            return None
        p = norm(p)
        r = (p in dirs if last != "isfile" else False) or (p in files if last != "isdir" else False)
        return TRUE if r else FALSE
    if name in ("os.mkdir", "os.makedirs"):
        p = text(arg(0, "path", "name"))
        if p is None:
            return lost(I, st, n, name)
        return mkdir(st, dirs, files, norm(p), name == "os.makedirs", flag(kw.get("exist_ok", a[2] if len(a) > 2 else None)), fail)
    if name == "shutil.rmtree":
        p = text(arg(0, "path"))
        if p is None:
            return lost(I, st, n, name)
        p = norm(p)
        if p not in dirs:
            return NONE if flag(arg(1, "ignore_errors")) else fail("FileNotFoundError")
        return rmtree(st, dirs, files, p)
    if name in ("os.remove", "os.unlink"):
        p = text(arg(0, "path"))
        if p is None:
            return lost(I, st, n, name)
        return remove(st, dirs, files, norm(p), fail)
    if name == "os.rmdir":
        p = text(arg(0, "path"))
        if p is None:
            return lost(I, st, n, name)
        p = norm(p)
        if p not in dirs:
            return fail("FileNotFoundError")
        if children(dirs, files, p):
            return fail("OSError")
        put(st, dirs - {p, "."}, files)
        return NONE
    if name == "os.listdir":
        p = text(arg(0, "path")) if args or kw else "."
        if p is None:
            return None
        p = norm(p)
        if p not in dirs:
            return fail("FileNotFoundError")
        return listing(I, st, [const(c) for c in shuffle(children(dirs, files, p))])
    if name in ("glob.glob", "glob.iglob"):
        p = text(arg(0, "pathname"))
        if p is None or "**" in p:
            return None
        d, pat = posixpath.split(p)
        return listing(I, st, [const(posixpath.join(d, c)) for c in shuffle(children(dirs, files, norm(d or "."))) if fnmatch.fnmatchcase(c, pat)])
    if last == "savefig" and (name.startswith("matplotlib") or obj is not None):
        p = text(arg(0, "fname"))
        if p is None:
            return lost(I, st, n, name)
        p = norm(p)
        if not posixpath.splitext(p)[1]:
            p += ".png"
        if (posixpath.dirname(p) or ".") not in dirs:
            return fail("FileNotFoundError")
        files[p] = mk("extv", "frame", const(len(I.events) - 1))
        put(st, dirs - {"."}, files)
        return NONE
    if name in IMREAD:
        p = text(arg(0, "uri", "fname", "fp"))
        if p is None:
            return None
        c = files.get(norm(p))
        return c if c is not None else fail("FileNotFoundError")
    if obj is not None and obj.op == "extv" and obj.a[0] == "path":
        p = norm(cval(obj.a[1]))
        if last == "mkdir":
            return mkdir(st, dirs, files, p, flag(kw.get("parents", a[1] if len(a) > 1 else None)), flag(kw.get("exist_ok", a[2] if len(a) > 2 else None)), fail)
        if last in ("exists", "is_dir", "is_file"):
            r = (p in dirs if last != "is_file" else False) or (p in files if last != "is_dir" else False)
            return TRUE if r else FALSE
        if last == "unlink":
            return NONE if p not in files and flag(arg(0, "missing_ok")) else remove(st, dirs, files, p, fail)
        if last in ("iterdir", "glob"):
            pat = text(arg(0, "pattern")) if last == "glob" else "*"
            if pat is None or "**" in pat or p not in dirs:
                return None if p in dirs or last == "glob" else fail("FileNotFoundError")
            return listing(I, st, [mk("extv", "path", const(posixpath.join(cval(obj.a[1]), c))) for c in shuffle(children(dirs, files, p)) if fnmatch.fnmatchcase(c, pat)])
    return None


def listing(I, st, xs):
    from .interp import e_
    return I.new_list(st, [e_(x) for x in xs])


def lost(I, st, n, name):
    st.s[KEY] = mk("fs?")
    I.note_unk(st, n, "files: %s with a path that is not constant" % name)
    return None


def mkdir(st, dirs, files, p, parents, exist_ok, fail):
    if p in files or p in dirs:
        return NONE if exist_ok and p in dirs else fail("FileExistsError")
    q = posixpath.dirname(p) or "."
    if q not in dirs:
        if not parents:
            return fail("FileNotFoundError")
        while q not in dirs and q not in ("", "/"):
            dirs = dirs | {q}
            q = posixpath.dirname(q) or "."
    put(st, (dirs | {p}) - {"."}, files)
    return NONE


def rmtree(st, dirs, files, p):
    inside = lambda x: x == p or x.startswith(p + "/") or (p == "." and not x.startswith("/"))
    put(st, {d for d in dirs if not inside(d)} - {"."}, {f: c for f, c in files.items() if not inside(f)})
    return NONE


def remove(st, dirs, files, p, fail):
    if p not in files:
        return fail("FileNotFoundError")
    files = dict(files)
    del files[p]
    put(st, dirs - {"."}, files)
    return NONE


# ---------------------------------------------------------------- constant text
def path_attr(I, obj, name, st, n):
    """attribute of a constant path, or None"""
    p = cval(obj.a[1])
    if name == "name":
        return const(posixpath.basename(p.rstrip("/")))
    if name == "stem":
        return const(posixpath.splitext(posixpath.basename(p))[0])
    if name == "suffix":
        return const(posixpath.splitext(p)[1])
    if name == "parent":
        return mk("extv", "path", const(posixpath.dirname(norm(p)) or "."))
    return None


def path_meth(obj, name, args):
    if name == "joinpath" and all(text(a) is not None for a in args):
        return mk("extv", "path", const(posixpath.join(cval(obj.a[1]), *[text(a) for a in args])))
    if name == "as_posix" and not args:
        return const(norm(cval(obj.a[1])))
    return None


FOLD = {"os.path.join": posixpath.join, "os.path.basename": posixpath.basename, "os.path.dirname": posixpath.dirname, "os.path.splitext": posixpath.splitext,
        "os.path.normpath": posixpath.normpath, "os.fspath": str}


def fold(name, args):
    """constant result of a function of constant texts, or None"""
    f = FOLD.get(name)
    ps = [text(a) for a in args]
    if f is not None and args and all(p is not None for p in ps):
        r = f(*ps)
        return mk("tuple", *[const(x) for x in r]) if isinstance(r, tuple) else const(r)
    return None


def regex(I, name, args, kw, st):
    """re functions on constants, or None"""
    last = name.split(".")[-1]
    cs = []
    for a in args:
        if a.op != "const" or not isinstance(cval(a), (str, int)):
            return None
        cs.append(cval(a))
    if kw or len(cs) < 2:
        return None
    try:
        if last in ("findall", "split"):
            r = getattr(re, last)(*cs)
            return listing(I, st, [mk("tuple", *[const(y) for y in x]) if isinstance(x, tuple) else const(x) for x in r])
        if last == "sub":
            return const(re.sub(*cs))
        if last in ("search", "match", "fullmatch"):
            m = getattr(re, last)(*cs)
            if m is None:
                return NONE
            return mk("extv", "rematch", *[NONE if x is None else const(x) for x in (m.group(0),) + m.groups()])
    except re.error:
        return None
    return None


def sortable(k):
    """Python value of a key, or None"""
    if k.op == "const" and isinstance(cval(k), str):
        return cval(k)
    c = tm.const_poly(k)
    if c is not None:
        return c
    if k.op == "extv" and k.a[0] == "path":
        return cval(k.a[1])
    if k.op == "tuple":
        r = [sortable(x) for x in k.a]
        return None if any(x is None for x in r) else tuple(r)
    return None


def sort_known(I, st, items, keyf, rev, n):
    """items in order, or None when the keys are not constants"""
    if rev not in (TRUE, FALSE):
        return None
    ks = []
    for x in items:
        k = x if keyf is None or keyf is NONE else I.call(keyf, [x], {}, st, n)
        if k.op == "ref":
            xs = I.iter_known(k, st)
            if xs is None:
                return None
            k = mk("tuple", *xs)
        s = sortable(k)
        if s is None:
            return None
        ks.append(s)
    try:
        o = sorted(range(len(items)), key=lambda i: ks[i], reverse=rev is TRUE)
    except TypeError:
        I.err(st, n, "type", "sorting values that cannot be compared")
        return None
    return [items[i] for i in o]
