"""C10: files are opened, closed, written and deleted only where allowed."""
import ast
from .. import model as M
from .. import sym as Y
from . import common as C
from .process import sites, all_units, unit_of, stmt_of, block_of, _quiet_stmt

OPENERS = {"builtins.open", "gzip.open", "bz2.open", "lzma.open", "os.fdopen", "tarfile.open", "zipfile.ZipFile",
           "tempfile.TemporaryFile", "tempfile.NamedTemporaryFile", "tempfile.SpooledTemporaryFile", "gzip.GzipFile",
           "bz2.BZ2File", "lzma.LZMAFile", "tarfile.TarFile", "io.FileIO", "io.open", "codecs.open",
           "urllib.request.urlopen", "sqlite3.connect", "mmap.mmap"}
MK = {"tempfile.mkdtemp": ("shutil.rmtree", "os.rmdir", "os.removedirs"),
      "tempfile.mkstemp": ("os.remove", "os.unlink", "os.replace", "os.rename", "shutil.move")}


def opener(u, n):
    nm = u.lib(n.func)
    if nm in OPENERS:
        return nm
    if isinstance(n.func, ast.Attribute) and n.func.attr == "open" and nm is None:
        b = n.func.value
        if isinstance(b, ast.Call) and (u.lib(b.func) or "").startswith("pathlib."):
            return "Path.open"
        if isinstance(b, ast.Name):
            v = u.scope.assigned.get(b.id)
            if isinstance(v, ast.Call) and (u.lib(v.func) or "").startswith("pathlib."):
                return "Path.open"
    return None


def closes(u, stmts, name, names=("close", "__exit__", "cleanup")):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in names and \
                    isinstance(n.func.value, ast.Name) and n.func.value.id == name:
                return True
            if isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id == name for a in n.args):
                r = u.scope.resolve(n.func)
                if r is not None and r[0] == "func":
                    f = r[1]
                    i = [j for j, a in enumerate(n.args) if isinstance(a, ast.Name) and a.id == name][0]
                    ps = [p[0] for p in f.params() if p[1] == "pos"]
                    if i < len(ps) and closes(unit_of(u.prog, f), f.node.body, ps[i], names):
                        return True
    return False


def removes(u, stmts, names, funcs):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and u.lib(n.func) in funcs and n.args and any(
                    isinstance(x, ast.Name) and x.id in names for x in ast.walk(n.args[0])):
                return True
            if isinstance(n, ast.Call):
                r = u.scope.resolve(n.func)
                if r is not None and r[0] == "func" and any(isinstance(a, ast.Name) and a.id in names for a in n.args):
                    u2 = unit_of(u.prog, r[1])
                    if any(isinstance(x, ast.Call) and u2.lib(x.func) in funcs for x in u2.nodes()):
                        return True
    return False


def guarded_by_finally(u, node, test):
    """Is `test(stmts)` true for the finally (or handlers + rest) of a try that covers everything after `node`?"""
    s = stmt_of(u, node)
    for p in u.up(node):
        if isinstance(p, (ast.FunctionDef, ast.Lambda)):
            break
        if isinstance(p, ast.Try) and p.finalbody and test(p.finalbody) and any(
                s is x for b in p.body for x in ast.walk(b)):
            return True
    blk, i, parent, fld = block_of(u, s)
    while blk is not None:
        for nx in blk[i + 1:]:
            if isinstance(nx, ast.Try):
                return bool(nx.finalbody and test(nx.finalbody))
            if isinstance(nx, ast.With) and test([nx]) is None:
                return True
            if not _quiet_stmt(nx):
                return False
        if isinstance(parent, (ast.If,)):
            s = parent
            blk, i, parent, fld = block_of(u, s)
        else:
            break
    return False


def check_handle(prog, rep, u, n, what, depth=0, via=""):
    rel, q = u.module.rel, u.qual
    rule = "closed"

    def ok(how):
        rep.ok(rule, "%s:%s %s (%s)" % (rel, q, C.short(n, 50), how))

    def bad(msg):
        rep.violation(rule, rel, q, C.short(n, 60), msg, C.line(n), via)
    p = u.par.get(n)
    if isinstance(p, ast.withitem):
        return ok("with")
    if isinstance(p, ast.IfExp):
        n2 = p
        p2 = u.par.get(p)
        if isinstance(p2, ast.withitem):
            return ok("with")
        p, n = p2, n2
    if isinstance(p, ast.Call) and p.func is not n:
        nm = u.lib(p.func)
        if nm in ("contextlib.closing", "contextlib.nullcontext") and isinstance(u.par.get(p), ast.withitem):
            return ok("with closing")
        if isinstance(p.func, ast.Attribute) and p.func.attr in ("enter_context", "push"):
            return ok("exit stack")
        if nm in OPENERS or nm in ("io.TextIOWrapper", "csv.reader", "csv.writer", "io.BufferedReader"):
            if isinstance(u.par.get(p), ast.withitem) and nm in OPENERS:
                return ok("wrapped in with")
        r = u.scope.resolve(p.func)
        if r is not None and r[0] in ("func", "class"):
            return rep.undecided(rule, "%s:%s" % (rel, q), "handle passed to %s" % C.short(p.func))
        return bad("the file opened here is never closed: it is passed straight to %s" % C.short(p.func, 40))
    if isinstance(p, ast.Attribute):
        return bad("the file opened here is never closed explicitly (.%s on a temporary handle)" % p.attr)
    if isinstance(p, (ast.For, ast.comprehension)):
        return bad("the file opened here is iterated without being closed")
    if isinstance(p, ast.Return) or (isinstance(p, ast.Expr) and False):
        f = u.func
        cs = sites(prog).get(f, []) if f is not None else []
        if f is not None and depth < 3 and cs:
            for cu, c in cs:
                check_handle(prog, rep, cu, c, what, depth + 1, "%s:%d" % (q, C.line(n)))
            return
        return rep.undecided(rule, "%s:%s" % (rel, q), "handle returned")
    if isinstance(p, ast.Yield):
        return rep.undecided(rule, "%s:%s" % (rel, q), "handle yielded")
    name = None
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
        name = p.targets[0].id
    elif isinstance(p, ast.NamedExpr):
        name = p.target.id
    elif isinstance(p, ast.Assign):
        return rep.undecided(rule, "%s:%s" % (rel, q), "handle stored in %s" % C.short(p.targets[0]))
    elif isinstance(p, ast.Expr):
        return bad("the file opened here is never closed")
    if name is None:
        return rep.undecided(rule, "%s:%s" % (rel, q), "use of the handle not recognised")
    # with NAME:
    for x in u.nodes():
        if isinstance(x, ast.withitem) and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x.context_expr)):
            s = stmt_of(u, n)
            w = u.par.get(x)
            blk, i, _, _ = block_of(u, s)
            if blk is not None and w in blk and all(_quiet_stmt(z) for z in blk[i + 1:blk.index(w)]):
                return ok("with %s" % name)
            return rep.undecided(rule, "%s:%s" % (rel, q), "with %s somewhere later" % name)
    if guarded_by_finally(u, n, lambda b: closes(u, b, name)):
        return ok("closed in finally")
    fn = u.root
    if closes(u, fn.body if not isinstance(fn, ast.Lambda) else [], name):
        return bad("%s is closed, but not when an exception is raised before" % name)
    # returned / stored / passed on?
    for x in u.nodes():
        if isinstance(x, ast.Return) and isinstance(x.value, ast.Name) and x.value.id == name:
            f = u.func
            cs = sites(prog).get(f, [])
            if cs and depth < 3:
                for cu, c in cs:
                    check_handle(prog, rep, cu, c, what, depth + 1, "%s:%d" % (q, C.line(n)))
                return
            return rep.undecided(rule, "%s:%s" % (rel, q), "handle returned")
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id == name:
            return rep.undecided(rule, "%s:%s" % (rel, q), "handle stored")
    return bad("%s is never closed" % name)


# ------------------------------------------------------------------------------------------------ targets
W_LIB = {  # name -> (index of the path argument, keyword, action)
    "os.remove": (0, "path", "delete"), "os.unlink": (0, "path", "delete"), "os.rmdir": (0, "path", "rmdir"),
    "os.removedirs": (0, "name", "rmtree"), "shutil.rmtree": (0, "path", "rmtree"),
    "os.rename": (1, "dst", "write"), "os.replace": (1, "dst", "write"), "shutil.move": (1, "dst", "write"),
    "os.renames": (1, "new", "write"), "shutil.copy": (1, "dst", "write"), "shutil.copyfile": (1, "dst", "write"),
    "shutil.copy2": (1, "dst", "write"), "shutil.copytree": (1, "dst", "write"), "os.truncate": (0, "path", "write"),
    "os.makedirs": (0, "name", "mkdir"), "os.mkdir": (0, "path", "mkdir"),
    "numpy.save": (0, "file", "write"), "numpy.savez": (0, "file", "write"), "numpy.savetxt": (0, "fname", "write"),
    "numpy.savez_compressed": (0, "file", "write"),
    "joblib.dump": (1, "filename", "write"), "wget.download": (1, "out", "write"),
    "urllib.request.urlretrieve": (1, "filename", "write"), "matplotlib.pyplot.savefig": (0, "fname", "write"),
    "os.symlink": (1, "dst", "write"), "os.link": (1, "dst", "write"), "os.chmod": (0, "path", "write"),
}
W_METH = {"to_csv": "path_or_buf", "to_json": "path_or_buf", "to_pickle": "path", "to_excel": "excel_writer",
          "to_parquet": "path", "to_hdf": "path_or_buf", "to_feather": "path", "to_html": "buf", "savefig": "fname",
          "tofile": "fid", "extractall": "path", "to_latex": "buf", "to_string": "buf", "render": "directory"}
PATH_METH = {"write_text": "write", "write_bytes": "write", "touch": "write", "unlink": "delete", "rmdir": "rmdir",
             "mkdir": "mkdir"}
THROUGH = {"os.path.abspath", "os.path.realpath", "os.path.expanduser", "os.path.normpath", "os.path.expandvars",
           "os.fspath", "builtins.str", "pathlib.Path", "pathlib.PurePath", "os.fsdecode"}


def writes_in(u):
    for n in u.nodes():
        if not isinstance(n, ast.Call):
            continue
        nm = u.lib(n.func)
        if nm in W_LIB:
            return True
        if nm in ("builtins.open", "gzip.open", "bz2.open", "lzma.open", "zipfile.ZipFile", "tarfile.open", "os.open"):
            return True
        if nm and nm.startswith(("tempfile.", "graphviz.")):
            return True
        if isinstance(n.func, ast.Attribute) and nm is None and (n.func.attr in W_METH or n.func.attr in PATH_METH):
            return True
    return False


def roots(t, sy, d=0, under=False):
    """Where a path comes from: set of (kind, how) with how in exact, under, sibling."""
    if d > 12:
        return {("unknown", "")}
    how = "under" if under else "exact"
    o, a = t.op, t.a
    if o == "p" or o == "idx" and a[0].op == "p":
        return {("caller", how)}
    if o == "attr":
        if a[0].op == "self":
            return {("attr:" + a[1], how)}
        r = roots(a[0], sy, d + 1, under)
        if a[1] in ("parent", "parents"):
            return {(k, "sibling") for k, h in r}
        if a[1] == "name" and any(k == "temp" for k, h in r):
            return r
        return {("unknown", "")}
    if o in ("enter",):
        return roots(a[0], sy, d + 1, under)
    if o == "item":
        r = roots(a[0], sy, d + 1, under)
        return r
    if o == "ite":
        return roots(a[1], sy, d + 1, under) | roots(a[2], sy, d + 1, under)
    if o in ("or", "and"):
        out = set()
        for x in a[0]:
            out |= roots(x, sy, d + 1, under)
        return out
    if o == "c":
        if a[0] is None or a[0] is False:
            return set()
        return {("fixed", how)}
    if o == "rcall":
        if a[0].name == "get_data_home":
            return {("home", how)}
        return {("unknown", "")}
    if o == "call" and not isinstance(a[0], Y.T):
        n = a[0]
        if n == "os.path.join" and a[1]:
            return roots(a[1][0], sy, d + 1, True)
        if n in THROUGH and a[1]:
            r = roots(a[1][0], sy, d + 1, under or len(a[1]) > 1)
            return r
        if n == "os.path.dirname" and a[1]:
            return {(k, "sibling") for k, h in roots(a[1][0], sy, d + 1)}
        if n == "os.path.splitext":
            return {(k, "sibling" if h == "exact" else h) for k, h in roots(a[1][0], sy, d + 1)}
        if n.startswith("tempfile."):
            return {("temp", how)}
        if n == "os.path.expanduser" and a[1] and a[1][0].op == "c":
            return {("fixed", how)}
        if n in ("os.getcwd",) or n.startswith("pathlib.Path.cwd"):
            return {("cwd", how)}
        if n in ("os.environ.get", "os.getenv"):
            return {("environment", how)}
        if n in ("glob.glob", "os.listdir", "glob.iglob", "os.scandir", "os.walk") and a[1]:
            return {(k, "listing") for k, h in roots(a[1][0], sy, d + 1)}
        return {("unknown", "")}
    if o in ("elem", "val"):
        return roots(a[0], sy, d + 1, under)
    if o == "comp":
        return roots(a[1], sy, d + 1, under)
    if o == "bin":
        if a[0] == "/":
            return roots(a[1], sy, d + 1, True)
        if a[0] == "+":
            l = roots(a[1], sy, d + 1, under)
            if a[2].op == "c" and isinstance(a[2].a[0], str) and a[2].a[0].startswith(("/", "\\")) or under or \
                    _starts_slash(a[2]):
                return {(k, "under" if h == "exact" else h) for k, h in l}
            return {(k, "sibling" if h == "exact" else h) for k, h in l}
        if a[0] == "%" and a[1].op == "c" and isinstance(a[1].a[0], str):
            fmt = a[1].a[0]
            if fmt.startswith("%s"):
                x = a[2].a[0][0] if a[2].op == "tup" else a[2]
                r = roots(x, sy, d + 1, under)
                rest = fmt[2:]
                if not rest:
                    return r
                return {(k, ("under" if rest.startswith("/") else "sibling") if h == "exact" else h) for k, h in r}
            return {("fixed", how)}
    if o == "fstr" and a[0]:
        parts = a[0]
        x = parts[0]
        r = roots(x, sy, d + 1, under)
        if len(parts) == 1:
            return r
        rest = parts[1]
        slash = rest.op == "c" and str(rest.a[0]).startswith("/")
        return {(k, ("under" if slash else "sibling") if h == "exact" else h) for k, h in r}
    if o == "meth":
        recv, name, args = a[0], a[1], a[2]
        if name == "joinpath":
            return roots(recv, sy, d + 1, True)
        if name in ("with_suffix", "with_name", "with_stem"):
            return {(k, "sibling" if h == "exact" else h) for k, h in roots(recv, sy, d + 1)}
        if name in ("resolve", "absolute", "expanduser", "as_posix", "strip", "rstrip"):
            return roots(recv, sy, d + 1, under)
        if name in ("glob", "iterdir", "rglob"):
            return {(k, "listing") for k, h in roots(recv, sy, d + 1)}
        if name == "format" and recv.op == "c" and isinstance(recv.a[0], str):
            if recv.a[0].startswith("{") and args:
                rest = recv.a[0].split("}", 1)[1]
                r = roots(args[0], sy, d + 1, under)
                return r if not rest else {(k, ("under" if rest.startswith("/") else "sibling") if h == "exact" else h)
                                           for k, h in r}
            return {("fixed", how)}
        if name in ("replace",):
            return {(k, "sibling" if h == "exact" else h) for k, h in roots(recv, sy, d + 1)}
    if o == "new":
        return {("unknown", "")}
    return {("unknown", "")}


def _starts_slash(t):
    while t.op == "bin" and t.a[0] == "+":
        t = t.a[1]
    if t.op == "c":
        return isinstance(t.a[0], str) and t.a[0][:1] in "/\\"
    if t.op == "attr" and t.a[1] == "sep":
        return True
    return t.op == "lib" and t.a[0] == "os.sep"


def targets(ev):
    """[(action, path term)] of a call event."""
    if ev.kind == "call":
        t, name, args, kw = ev.data
        if isinstance(name, Y.T):
            return []
        name = C.canon_lib(name)
        if name in W_LIB:
            i, k, act = W_LIB[name]
            if name == "os.makedirs" or name == "os.mkdir":
                pass
            x = kw.get(k, args[i] if i < len(args) else None)
            if x is None:
                return [("write", Y.const("."))] if name in ("wget.download",) else []
            return [(act, x)]
        if name in ("builtins.open", "gzip.open", "bz2.open", "lzma.open", "zipfile.ZipFile", "tarfile.open"):
            mode = kw.get("mode", args[1] if len(args) > 1 else None)
            if mode is not None and mode.op == "c" and isinstance(mode.a[0], str) and any(c in mode.a[0] for c in "wax+"):
                x = args[0] if args else kw.get("file")
                return [("write", x)] if x is not None else []
    if ev.kind == "meth":
        t, recv, name, args, kw = ev.data
        if name in ("render", "save", "view") and any(y.op == "call" and str(y.a[0]).startswith("graphviz.") for y in Y.walk(recv)):
            d, p = kw.get("directory", args[1] if len(args) > 1 else None), kw.get("filename", args[0] if args else None)
            if name == "render":
                p = kw.get("outfile", p)
            x = [v for v in (d, p) if v is not None and v is not Y.NONE]
            return [("write", v) for v in x[:1]] or [("write", Y.const("."))]      # a file named after the graph, in the working directory
        if name in W_METH:
            x = kw.get(W_METH[name], args[0] if args and name != "render" else None)
            if x is not None:
                return [("write", x)]
        if name in PATH_METH and recv.op in ("call", "bin", "meth") and any(
                y.op == "call" and str(y.a[0]).startswith("pathlib.") for y in Y.walk(recv)):
            return [(PATH_METH[name], recv)]
    return []


def entry_points(prog):
    """Functions that reach a write site, by call graph, and the public ones among them."""
    direct = {u.func for u in all_units(prog) if u.func is not None and writes_in(u)}
    calls = sites(prog)
    reach = set(direct)
    todo = list(direct)
    while todo:
        f = todo.pop()
        for u, c in calls.get(f, []):
            if u.func is not None and u.func not in reach:
                reach.add(u.func)
                todo.append(u.func)
        if f.parent is not None and f.parent not in reach:
            reach.add(f.parent)
            todo.append(f.parent)
    # references such as delayed(self._explore_root)
    names = {f.name for f in reach}
    for u in all_units(prog):
        if u.func is None or u.func in reach:
            continue
        for n in u.nodes():
            if isinstance(n, ast.Attribute) and n.attr in names and isinstance(n.value, ast.Name) and n.value.id == "self":
                reach.add(u.func)
    public = [f for f in reach if not f.name.startswith("_") and f.parent is None]
    return direct, reach, public


def delayed_run(sy_cls, prog, reach):
    """A Sym that also analyses joblib.delayed(f)(args) in place."""
    class S(Y.Sym):
        def call(self, fn, args, kw, st, node):
            if fn.op == "call" and fn.a[0] in ("joblib.delayed", "joblib.parallel.delayed") and fn.a[1]:
                return Y.Sym.call(self, fn.a[1][0], args, kw, st, node)
            return Y.Sym.call(self, fn, args, kw, st, node)
    return S(prog, opaque={"get_data_home"}, only=lambda f: f in reach)


def check_C10(prog, rep):
    rep.rule("closed", "Every handle opened anywhere in the library is closed on every exit: it is the subject of a with "
             "statement or closed in the finally of a try that starts right after it; handles returned by helpers are "
             "judged at the call sites.")
    rep.rule("temporary", "Every mkdtemp/mkstemp/NamedTemporaryFile(delete=False) is removed in a finally block.")
    rep.rule("target", "The symbolic path term of every write reached from a public operation starts at a caller argument "
             "(the named place itself or below it), a temporary location or the data home; constants, the current "
             "directory and siblings of the named place are violations.")
    rep.rule("delete", "Deletions only reach temporary locations, single cache files or the named file itself.")
    nopen = 0
    for u in all_units(prog):
        for n in u.nodes():
            if not isinstance(n, ast.Call):
                continue
            w = opener(u, n)
            if w:
                nopen += 1
                check_handle(prog, rep, u, n, w)
                if w == "tempfile.NamedTemporaryFile" and any(
                        k.arg == "delete" and isinstance(k.value, ast.Constant) and not k.value.value for k in n.keywords):
                    if not _any_finally(u, n, lambda b: any(
                            isinstance(x, ast.Call) and u.lib(x.func) in MK["tempfile.mkstemp"] for s in b
                            for x in ast.walk(s))):
                        rep.violation("temporary", u.module.rel, u.qual, C.short(n, 60),
                                      "temporary file is kept (delete=False) and not removed in a finally block", C.line(n))
            nm = u.lib(n.func)
            if nm in MK:
                p = u.par.get(n)
                names = {x.id for t in getattr(p, "targets", []) for x in ast.walk(t) if isinstance(x, ast.Name)}
                fin = _any_finally(u, n, lambda b: removes(u, b, names, MK[nm]))
                if names and (fin or guarded_by_finally(u, n, lambda b: removes(u, b, names, MK[nm]))):
                    rep.ok("temporary", "%s:%s %s removed in finally" % (u.module.rel, u.qual, nm))
                elif isinstance(p, ast.Return):
                    rep.undecided("temporary", u.module.rel + ":" + u.qual, "temporary location returned")
                else:
                    rep.violation("temporary", u.module.rel, u.qual, nm,
                                  "the location made by %s is not removed on every exit" % nm, C.line(n))
            elif nm == "tempfile.TemporaryDirectory":
                if isinstance(u.par.get(n), ast.withitem):
                    rep.ok("temporary", "%s:%s with TemporaryDirectory" % (u.module.rel, u.qual))
                elif isinstance(u.par.get(n), ast.Attribute):
                    rep.violation("temporary", u.module.rel, u.qual, nm,
                                  "the temporary directory object is dropped at once", C.line(n))
                else:
                    rep.undecided("temporary", u.module.rel + ":" + u.qual, "TemporaryDirectory without with")
    rep.need("closed", 5)
    direct, reach, public = entry_points(prog)
    rep.count("functions_reaching_file_writes", len(reach))
    rep.count("public_entries_analysed", len(public))
    seen = set()
    for f in sorted(public, key=lambda x: x.where):
        classes = [f.cls]
        if f.cls is not None:
            classes = [c for m in prog.modules.values() for c in m.classes.values()
                       if f.cls in c.mro() and c.find(f.name) is f]
        for c in classes:
            sy = delayed_run(Y.Sym, prog, reach)
            sy.run(f, self_cls=c)
            evs = [(e, act, p) for e in sy.events for act, p in targets(e)]
            temps = {p for e, act, p in evs if act in ("delete", "write")}
            for e, act, p in evs:
                judge_target(prog, rep, sy, f, e, act, p, evs, seen)
    rep.need("target", 5)


def _any_finally(u, n, test):
    for p in u.up(n):
        if isinstance(p, ast.Try) and p.finalbody and test(p.finalbody):
            return True
    s = stmt_of(u, n)
    blk, i, parent, _ = block_of(u, s)
    if blk is not None:
        for nx in blk[i + 1:]:
            if isinstance(nx, ast.Try) and nx.finalbody and test(nx.finalbody):
                return True
            if not _quiet_stmt(nx):
                break
    return False


def _attr_ok(prog, f, name):
    """An attribute of self holding a caller supplied destination (an option or argument stored earlier)."""
    cls = f.cls
    if cls is None:
        return None
    init = cls.find("__init__")
    if init is not None and name.rstrip("_") in [p[0] for p in init.params()]:
        return True
    return None


def judge_target(prog, rep, sy, f, e, act, p, evs, seen):
    rel, q = e.func.module.rel, e.func.qual
    rs = roots(p, sy)
    txt = Y.show(p)
    txt = txt if len(txt) < 100 else txt[:100] + "..."
    key = (rel, q, id(e.node), act, frozenset(rs))
    if key in seen:
        return
    seen.add(key)
    rule = "delete" if act in ("delete", "rmtree", "rmdir") else "target"
    name = "%s of %s" % (act, C.short(e.node, 50))
    if f.name == "get_data_home" and act == "mkdir":
        rep.ok(rule, "get_data_home makes the cache directory")
        return
    worst = None
    if bare_name(f, p):
        worst = ("bad", "%s names a file of the data home, but is taken relative to the current directory" % txt)
    for k, how in rs:
        if k.startswith("attr:"):
            k = "caller" if _attr_ok(prog, f, k[5:]) else "unknown"
        if k == "temp":
            continue
        if k in ("unknown", "environment"):
            worst = worst or ("undecided", "origin of %s not resolved" % txt)
            continue
        if k == "home":
            if act == "rmtree" and how == "exact" or how == "listing" and rule == "delete":
                worst = ("bad", "removes the whole data home (%s)" % txt)
            elif how == "sibling" and act != "mkdir":
                worst = ("bad", "touches a path beside the data home (%s)" % txt)
            continue
        if k == "caller":
            if how == "exact":
                if act in ("rmtree",):
                    worst = ("bad", "removes the whole directory the caller named (%s)" % txt)
                continue
            if how == "under":
                if act == "rmtree" and not _made_here(evs, p):
                    worst = worst or ("undecided", "removes a directory below the caller's (%s)" % txt)
                continue
            if how == "listing":
                if rule == "delete":
                    worst = ("bad", "deletes whatever is found in the caller's directory (%s)" % txt)
                continue
            if act == "mkdir":
                continue
            if rule == "target" and any(e2.i > e.i and (_same(p, p2) and a2 == "delete" or _is_src(e2, p))
                                        for e2, a2, p2 in evs if e2 is not e):
                continue      # private work file next to the destination, moved or removed again
            if rule == "delete" and any(e2.i < e.i and _same(p, p2) and a2 in ("write", "mkdir") for e2, a2, p2 in evs if e2 is not e):
                continue
            worst = ("bad", "touches a path beside the one the caller named (%s)" % txt)
            continue
        worst = ("bad", "%s is a fixed place (%s), not one the caller named" % (txt, k))
    if worst is None:
        rep.ok(rule, "%s -> %s" % (f.qual, name) if rs else None)
    elif worst[0] == "undecided":
        rep.undecided(rule, "%s:%s" % (rel, q), worst[1])
    else:
        rep.violation(rule, rel, q, name, worst[1], e.line, f.qual + " " + e.chain())


def bare_name(f, p):
    """Is the path the bare parameter for the name of a file inside the data home, another parameter?"""
    if p.op != "p" or p.a[0] == "data_home":
        return False
    ps = {x: d for x, k, d in f.params()}
    d = ps.get(p.a[0])
    return "data_home" in ps and isinstance(d, ast.Constant) and isinstance(d.value, str) and "/" not in d.value


def _same(a, b):
    return Y.strip_occ(a) is Y.strip_occ(b)


def _is_src(e, p):
    if e.kind == "call" and not isinstance(e.data[1], Y.T) and C.canon_lib(e.data[1]) in (
            "os.replace", "os.rename", "shutil.move") and e.data[2]:
        return _same(e.data[2][0], p)
    return False


def _made_here(evs, p):
    return any(a == "mkdir" and _same(p, p2) for _, a, p2 in evs)
