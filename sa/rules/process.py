"""C09 process-wide settings, C18 failures surface, C25 nothing is executed."""
import ast
from .. import model as M
from . import common as C

ALL = "every function and every module body of skmine (tests excluded)"


def sites(prog):
    if not hasattr(prog, "_sites"):
        prog._sites = C.call_sites(prog)
    return prog._sites


def all_units(prog):
    if not hasattr(prog, "_units"):
        prog._units = list(C.units(prog))
        if len(prog._units) < 200:
            raise M.AnalysisBroken("only %d functions found" % len(prog._units))
    return prog._units


def unit_of(prog, f):
    if not hasattr(prog, "_unit_of"):
        prog._unit_of = {u.func: u for u in all_units(prog) if u.func is not None}
    return prog._unit_of[f]


# ------------------------------------------------------------------------------------------------ C09
CALLS = {
    "os.chdir": "cwd", "os.fchdir": "cwd", "os.chroot": "root", "os.umask": "umask", "os.putenv": "env",
    "os.unsetenv": "env", "os.nice": "nice", "os.setuid": "uid", "os.setgid": "uid", "os.setpriority": "nice",
    "os.sched_setaffinity": "nice", "resource.setrlimit": "rlimit",
    "sys.setrecursionlimit": "sys", "sys.settrace": "sys", "sys.setprofile": "sys", "sys.setswitchinterval": "sys",
    "sys.set_int_max_str_digits": "sys", "sys.addaudithook": "sys", "sys.set_coroutine_origin_tracking_depth": "sys",
    "locale.setlocale": "locale", "signal.signal": "signal", "signal.alarm": "signal", "signal.setitimer": "signal",
    "time.tzset": "tz", "random.seed": "rng", "random.setstate": "rng", "numpy.random.seed": "rng",
    "numpy.random.set_state": "rng", "numpy.random.mtrand.seed": "rng",
    "numpy.seterr": "np.err", "numpy.seterrcall": "np.err", "numpy.set_printoptions": "np.print",
    "numpy.set_string_function": "np.print", "numpy.setbufsize": "np.err",
    "pandas.set_option": "pd.options", "pandas.reset_option": "pd.options", "pandas.set_eng_float_format": "pd.options",
    "pandas.options.display.__setattr__": "pd.options", "pandas.plotting.register_matplotlib_converters": "mpl",
    "warnings.filterwarnings": "warnings", "warnings.simplefilter": "warnings", "warnings.resetwarnings": "warnings",
    "logging.basicConfig": "logging", "logging.disable": "logging", "logging.captureWarnings": "logging",
    "logging.setLoggerClass": "logging", "logging.setLogRecordFactory": "logging", "logging.addLevelName": "logging",
    "logging.config.dictConfig": "logging", "logging.config.fileConfig": "logging", "logging.shutdown": "logging",
    "matplotlib.use": "mpl", "matplotlib.rc": "mpl", "matplotlib.rcdefaults": "mpl", "matplotlib.pyplot.rc": "mpl",
    "matplotlib.pyplot.ion": "mpl", "matplotlib.pyplot.ioff": "mpl", "matplotlib.pyplot.switch_backend": "mpl",
    "matplotlib.style.use": "mpl", "matplotlib.pyplot.style.use": "mpl", "matplotlib.pyplot.rcdefaults": "mpl",
    "matplotlib.interactive": "mpl", "matplotlib.pyplot.xkcd": "mpl",
    "seaborn.set": "mpl", "seaborn.set_theme": "mpl", "seaborn.set_style": "mpl",
    "gc.disable": "gc", "gc.enable": "gc", "gc.set_threshold": "gc", "gc.set_debug": "gc", "gc.freeze": "gc",
    "threading.settrace": "sys", "threading.setprofile": "sys", "threading.stack_size": "sys",
    "multiprocessing.set_start_method": "mp", "faulthandler.enable": "sys", "socket.setdefaulttimeout": "socket",
    "decimal.setcontext": "decimal", "sklearn.set_config": "sklearn", "codecs.register": "codecs",
    "joblib.parallel.register_parallel_backend": "joblib", "atexit.register": "atexit",
    "tracemalloc.start": "sys", "sys.path.append": "sys", "sys.path.insert": "sys", "sys.path.extend": "sys",
    "sys.path.remove": "sys", "sys.path.pop": "sys", "sys.path.clear": "sys", "sys.modules.pop": "sys",
    "sys.modules.update": "sys", "sys.modules.setdefault": "sys", "sys.modules.clear": "sys",
    "urllib.request.install_opener": "socket", "ssl._create_default_https_context": None,
}
for _m in ("update", "setdefault", "pop", "popitem", "clear", "__setitem__", "__delitem__"):
    CALLS["os.environ." + _m] = "env"
    CALLS["matplotlib.rcParams." + _m] = "mpl"
    CALLS["matplotlib.pyplot.rcParams." + _m] = "mpl"
for _m in ("insert", "append", "clear", "remove", "pop", "extend"):
    CALLS["warnings.filters." + _m] = "warnings"
ATTR_ROOTS = {"pandas.options": "pd.options", "sys": "sys", "os.environ": "env", "warnings": "warnings",
              "logging": "logging", "matplotlib.rcParams": "mpl", "matplotlib.pyplot.rcParams": "mpl", "locale": "locale",
              "tempfile": "tempfile", "builtins": "builtins", "numpy": "numpy", "pandas": "pandas", "sklearn": "sklearn",
              "networkx": "networkx", "joblib": "joblib", "os": "os", "ssl": "socket", "socket": "socket", "math": "math",
              "json": "json", "matplotlib": "mpl", "random": "rng", "time": "time", "multiprocessing": "mp"}
CONTEXTS = {
    "pandas.option_context": {"pd.options"}, "numpy.errstate": {"np.err"}, "numpy.printoptions": {"np.print"},
    "warnings.catch_warnings": {"warnings"}, "contextlib.chdir": {"cwd"}, "matplotlib.pyplot.rc_context": {"mpl"},
    "matplotlib.rc_context": {"mpl"}, "matplotlib.style.context": {"mpl"}, "matplotlib.pyplot.style.context": {"mpl"},
    "sklearn.config_context": {"sklearn"}, "decimal.localcontext": {"decimal"},
    "contextlib.redirect_stdout": {"sys"}, "contextlib.redirect_stderr": {"sys"},
    "unittest.mock.patch.dict": {"env", "sys"}, "unittest.mock.patch": {"env", "sys"},
    "matplotlib.pyplot.ioff": {"mpl"}, "matplotlib.pyplot.ion": {"mpl"}, "matplotlib.pyplot.xkcd": {"mpl"},
}
# joblib back ends and the like are only set when used as a call, not as a context manager
SETS_UNLESS_WITH = {"joblib.parallel_backend": "joblib", "joblib.parallel_config": "joblib",
                    "matplotlib.pyplot.ioff": "mpl", "matplotlib.pyplot.ion": "mpl", "matplotlib.pyplot.xkcd": "mpl"}
GETTERS = {
    "cwd": ("os.getcwd", "os.getcwdb", "pathlib.Path.cwd", "os.path.abspath", "os.path.realpath", "os.open",
            "pathlib.Path"),
}


def _root_of(name):
    best = None
    for r in ATTR_ROOTS:
        if name == r or name.startswith(r + "."):
            if best is None or len(r) > len(best):
                best = r
    return best


def _is_root_logger(u, e, d=0):
    if d > 4:
        return False
    if isinstance(e, ast.Call):
        if u.lib(e.func) == "logging.getLogger":
            if not e.args and not e.keywords:
                return True
            a = e.args[0] if e.args else e.keywords[0].value
            return isinstance(a, ast.Constant) and a.value in (None, "", "root")
        return False
    if u.lib(e) == "logging.root":
        return True
    if isinstance(e, ast.Name):
        v = u.scope.assigned.get(e.id)
        if v is not None:
            return _is_root_logger(u, v, d + 1)
        r = u.prog.resolve_name(u.module, e.id)
        if r is not None and r[0] == "var" and r[2] is not None:
            return _is_root_logger(C.Unit(u.prog, r[1]), r[2], d + 1)
    if isinstance(e, ast.Attribute):
        b = u.scope.resolve(e.value)
        if b is not None and b[0] == "module":
            r = u.prog.resolve_name(b[1], e.attr)
            if r is not None and r[0] == "var" and r[2] is not None:
                return _is_root_logger(C.Unit(u.prog, r[1]), r[2], d + 1)
    return False


def setters(u):
    """[(node, kind, text)] of the places in a unit that change a process-wide setting."""
    out = []
    for n in u.nodes():
        if isinstance(n, ast.Call):
            name = u.lib(n.func)
            if name in SETS_UNLESS_WITH:
                p = u.par.get(n)
                if not isinstance(p, ast.withitem):
                    out.append((n, SETS_UNLESS_WITH[name], name))
                continue
            if name in CALLS and CALLS[name]:
                if name == "signal.signal" or name == "locale.setlocale":
                    if name == "locale.setlocale" and len(n.args) < 2 and not n.keywords:
                        continue
                if name == "threading.stack_size" and not n.args:
                    continue
                out.append((n, CALLS[name], name))
                continue
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "setLevel", "addHandler", "removeHandler", "addFilter", "removeFilter") \
                    and _is_root_logger(u, n.func.value):
                out.append((n, "logging", "root logger." + n.func.attr))
                continue
            if name == "builtins.setattr" and n.args:
                r = u.lib(n.args[0])
                rt = _root_of(r) if r else None
                if rt:
                    out.append((n, ATTR_ROOTS[rt], "setattr(%s)" % r))
        tg = []
        if isinstance(n, ast.Assign):
            tg = n.targets
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            tg = [n.target]
        elif isinstance(n, ast.Delete):
            tg = n.targets
        flat = []
        for t in tg:
            flat += list(t.elts) if isinstance(t, (ast.Tuple, ast.List)) else [t]
        for t in flat:
            if isinstance(t, ast.Starred):
                t = t.value
            e = None
            if isinstance(t, ast.Attribute):
                e = t
            elif isinstance(t, ast.Subscript):
                e = t.value
            if e is None:
                continue
            name = u.lib(e)
            if name is None and isinstance(t, ast.Attribute) and t.attr in ("propagate", "disabled", "handlers", "level") \
                    and _is_root_logger(u, t.value):
                out.append((n, "logging", "root logger." + t.attr))
                continue
            if name is None and isinstance(t, ast.Attribute) and isinstance(t.value, ast.Call) \
                    and u.lib(t.value.func) == "decimal.getcontext":
                out.append((n, "decimal", "decimal context"))
                continue
            rt = _root_of(name) if name else None
            if rt:
                out.append((n, ATTR_ROOTS[rt], name + (" =" if isinstance(t, ast.Attribute) else "[...] =")))
    return out


def _fn_setters(prog, f, memo, depth=0):
    """Kinds of settings a repository function changes (directly or through callees)."""
    if f in memo:
        return memo[f]
    memo[f] = set()
    if depth > 6:
        return memo[f]
    u = unit_of(prog, f)
    out = {k for _, k, _ in setters(u)}
    for n in u.nodes():
        if isinstance(n, ast.Call):
            r = u.scope.resolve(n.func)
            if r is not None and r[0] == "func":
                out |= _fn_setters(prog, r[1], memo, depth + 1)
            elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" \
                    and f.cls is not None and f.cls.find(n.func.attr):
                out |= _fn_setters(prog, f.cls.find(n.func.attr), memo, depth + 1)
    memo[f] = out
    return out


def block_of(u, s):
    """(list of statements, index) holding statement s."""
    p = u.par.get(s)
    for fld in ("body", "orelse", "finalbody"):
        b = getattr(p, fld, None)
        if isinstance(b, list) and s in b:
            return b, b.index(s), p, fld
    if isinstance(p, ast.Try):
        for h in p.handlers:
            if s in h.body:
                return h.body, h.body.index(s), h, "body"
    return None, None, p, None


def stmt_of(u, n):
    while not isinstance(n, ast.stmt):
        n = u.par.get(n)
        if n is None:
            return None
    return n


def restores(prog, u, stmts, kind, memo):
    """Nodes below `stmts` that set `kind` (directly or through a helper)."""
    sset = {id(n): n for n, k, _ in setters(u) if k == kind}
    out = []
    for s in stmts:
        for n in ast.walk(s):
            if id(n) in sset:
                out.append(n)
            elif isinstance(n, ast.Call):
                r = u.scope.resolve(n.func)
                f = r[1] if r is not None and r[0] == "func" else None
                if f is None and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                        n.func.value.id == "self" and u.func is not None and u.func.cls is not None:
                    f = u.func.cls.find(n.func.attr)
                if f is not None and kind in _fn_setters(prog, f, memo):
                    out.append(n)
    return out


_SAFE = (ast.Name, ast.Constant, ast.Assign, ast.Attribute, ast.Load, ast.Store, ast.Tuple, ast.List, ast.Pass, ast.Expr,
         ast.Dict, ast.operator, ast.BinOp)


def _quiet_stmt(s):
    return all(isinstance(n, _SAFE) for n in ast.walk(s))


def protected(prog, u, node, kind, memo):
    """('with'|'finally'|'enter', restoring node or None) if the setting is put back on every exit, else None."""
    for p in u.up(node):
        if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            break
        if isinstance(p, (ast.With, ast.AsyncWith)):
            inbody = any(node is x for b in p.body for x in ast.walk(b))
            for it in p.items:
                ce = it.context_expr
                nm = u.lib(ce.func) if isinstance(ce, ast.Call) else None
                if nm in CONTEXTS and kind in CONTEXTS[nm] and inbody:
                    return ("with", None)
                if isinstance(ce, ast.Call):
                    r = u.scope.resolve(ce.func)
                    if r is not None and r[0] == "func" and _is_ctx(r[1]) and inbody and \
                            kind in _ctx_kinds(prog, r[1], memo):
                        return ("with", None)
                    if nm in ("contextlib.ExitStack",):
                        if _exitstack(u, p, kind):
                            return ("with", None)
        if isinstance(p, ast.Try):
            if p.finalbody and any(node is x for b in p.body + p.orelse + [y for h in p.handlers for y in h.body]
                                   for x in ast.walk(b)):
                rs = restores(prog, u, p.finalbody, kind, memo)
                if rs:
                    return ("finally", rs[0])
            if any(node is x for b in p.finalbody for x in ast.walk(b)):
                # this node is itself the restoring one, if the setting was changed under or right before the try
                s = stmt_of(u, p)
                blk, i, _, _ = block_of(u, s)
                before = restores(prog, u, p.body, kind, memo)
                if not before and blk is not None:
                    before = restores(prog, u, blk[:i], kind, memo)
                if before:
                    return ("restore", None)
            if any(node is x for h in p.handlers for b in h.body for x in ast.walk(b)):
                if restores(prog, u, p.body, kind, memo) or _prev_sets(prog, u, p, kind, memo):
                    return ("restore", None)
    # setter directly followed by a try with the restoring finally
    s = stmt_of(u, node)
    while s is not None:
        blk, i, parent, fld = block_of(u, s)
        if blk is None:
            break
        for nx in blk[i + 1:]:
            if isinstance(nx, ast.Try):
                if nx.finalbody and restores(prog, u, nx.finalbody, kind, memo):
                    return ("finally", restores(prog, u, nx.finalbody, kind, memo)[0])
                if _all_handlers_restore(prog, u, nx, blk, kind, memo):
                    return ("finally", None)
                break
            if isinstance(nx, ast.With) and any(isinstance(x, ast.Try) for x in nx.body):
                break
            if not _quiet_stmt(nx):
                break
        # a conditional setter: `if cond: set` followed by the try
        if isinstance(parent, ast.If) and blk[-1] is s:
            s = parent
            continue
        break
    return None


def _prev_sets(prog, u, t, kind, memo):
    blk, i, _, _ = block_of(u, t)
    return bool(blk and restores(prog, u, blk[:i], kind, memo))


def _all_handlers_restore(prog, u, t, blk, kind, memo):
    broad = [h for h in t.handlers if _broad(u, h)]
    if not broad or not all(restores(prog, u, h.body, kind, memo) for h in t.handlers):
        return False
    after = blk[blk.index(t) + 1:] + t.orelse
    return bool(restores(prog, u, after, kind, memo))


def _is_ctx(f):
    return any(d and d.split(".")[-1] == "contextmanager" for d in f.decorators)


def _ctx_kinds(prog, f, memo):
    u = unit_of(prog, f)
    out = set()
    for n, k, _ in setters(u):
        if protected(prog, u, n, k, memo):
            out.add(k)
    for n in u.nodes():
        if isinstance(n, ast.With):
            for it in n.items:
                nm = u.lib(it.context_expr.func) if isinstance(it.context_expr, ast.Call) else None
                out |= CONTEXTS.get(nm, set())
    return out


def _exitstack(u, w, kind):
    for n in ast.walk(w):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("callback", "enter_context"):
            for a in n.args:
                nm = u.lib(a.func if isinstance(a, ast.Call) else a)
                if nm and (CALLS.get(nm) == kind or kind in CONTEXTS.get(nm, ())):
                    return True
    return False


def _restore_value(u, setter, rest, kind):
    """None if fine, else why the restoring call does not put the old value back."""
    if kind != "cwd" or not isinstance(rest, ast.Call) or not rest.args:
        return None
    if u.lib(rest.func) not in ("os.chdir", "os.fchdir"):
        return None
    a = rest.args[0]
    if isinstance(a, ast.Constant):
        return "the finally block changes to the fixed directory %r instead of the saved one" % (a.value,)
    if isinstance(a, ast.Call):
        nm = u.lib(a.func)
        if nm in ("os.getcwd", "pathlib.Path.cwd"):
            return "the directory is read back after it was changed, not before"
        return None
    if isinstance(a, ast.Name) and u.func is not None:
        if a.id in [p[0] for p in u.func.params()]:
            return "the finally block changes to parameter %s, not to the directory found on entry" % a.id
        defs = [n for n in u.nodes() if isinstance(n, ast.Assign) and any(
            isinstance(t, ast.Name) and t.id == a.id for t in n.targets)]
        if len(defs) == 1:
            nm = [u.lib(x.func) for x in ast.walk(defs[0].value) if isinstance(x, ast.Call)]
            if any(x in ("os.getcwd", "pathlib.Path.cwd", "os.getcwdb") for x in nm):
                s1 = stmt_of(u, setter)
                if defs[0].lineno > s1.lineno and not any(isinstance(p, (ast.For, ast.While)) for p in u.up(s1)):
                    return "the current directory is saved only after it was changed"
                return None
            if not nm and not any(isinstance(x, ast.Call) for x in ast.walk(defs[0].value)):
                if all(isinstance(x, (ast.Constant, ast.Name, ast.Load)) for x in ast.walk(defs[0].value)):
                    return "the finally block changes to %s, not to the directory found on entry" % C.short(defs[0].value)
    return None


def _restore_depends(u, setter, rest):
    """None if fine, else the condition, unrelated to what was saved, under which alone the setting is put back."""
    if rest is None:
        return None
    used = {x.id for x in ast.walk(rest) if isinstance(x, ast.Name)} - {"os", "self"}
    outer = [C.src(x.test) for x in u.up(setter) if isinstance(x, (ast.If, ast.While))]
    cur = rest
    for p in u.up(rest):
        if isinstance(p, ast.Try) and any(cur is x or cur in ast.walk(x) for x in p.finalbody):
            return None
        if isinstance(p, ast.If):
            t = p.test
            core = t.operand if isinstance(t, ast.UnaryOp) else t
            if p.orelse or C.src(t) in outer or not isinstance(core, (ast.Compare, ast.Call)) or \
                    used & {x.id for x in ast.walk(t) if isinstance(x, ast.Name)} or \
                    (isinstance(core, ast.Compare) and all(isinstance(x, (ast.Name, ast.Constant))
                                                           for x in [core.left] + core.comparators)):
                return None
            return "the value found before is only put back if %s" % C.short(t)
        cur = p
    return None


def check_C09(prog, rep):
    rep.rule("settings", "Every call, assignment or deletion in %s that changes process-wide state (table of %d setters and "
             "%d library roots) is inside the library's own restoring context manager, or restored in a finally block with "
             "the value found before, or is the restoring step itself; helpers are judged at all their call sites, and "
             "import-time code may not change any setting." % (ALL, len(CALLS), len(ATTR_ROOTS)))
    rep.rule("scanned", "Functions and module bodies searched for setters.")
    memo = {}
    for u in all_units(prog):
        rep.ok("scanned")
        for n, kind, text in setters(u):
            judge(prog, rep, u, n, kind, text, memo)
    rep.need("scanned", 200)
    selftest_C09()


def judge(prog, rep, u, n, kind, text, memo, depth=0, via=""):
    p = protected(prog, u, n, kind, memo)
    if p is not None:
        why = (_restore_value(u, n, p[1], kind) or _restore_depends(u, n, p[1])) if p[0] == "finally" else None
        if why:
            rep.violation("settings", u.module.rel, u.qual, text, "%s: %s" % (text, why), C.line(n), via)
        else:
            rep.ok("settings", "%s:%s %s restored (%s)" % (u.module.rel, u.qual, text, p[0]))
        return
    f = u.func
    if f is not None and f.cls is not None and f.name in ("__enter__", "__exit__"):
        other = f.cls.methods.get("__exit__" if f.name == "__enter__" else "__enter__")
        if other is not None and kind in _fn_setters(prog, other, memo):
            rep.ok("settings", "%s:%s %s restored by __exit__" % (u.module.rel, u.qual, text))
            return
    # a helper: judged where it is called
    if f is not None and f.name.startswith("_") and not f.name.startswith("__") or (f is not None and f.parent is not None):
        cs = [(cu, c) for cu, c in sites(prog).get(f, []) if cu.func is not f]
        if cs and depth < 4:
            for cu, c in cs:
                judge(prog, rep, cu, c, kind, text + " in " + f.qual, memo, depth + 1, via or "%s:%d" % (u.qual, C.line(n)))
            return
    rep.violation("settings", u.module.rel, u.qual, text,
                  "%s changes process-wide state (%s) and nothing restores it on every exit" % (text, kind), C.line(n), via)


def selftest_C09():
    """The rule must still recognise a setter: a tiny positive example on every run."""
    m = M.ModuleInfo("x", "x", "x", ast.parse("import os\ndef f(d):\n    os.chdir(d)\n"), False)

    class P:
        modules = {}
        func_by_node = {}
    p = M.Program.__new__(M.Program)
    p.modules, p.func_by_node = {"x": m}, {}
    p._index(m)
    u = C.Unit(p, m, m.names["f"][1])
    if [k for _, k, _ in setters(u)] != ["cwd"]:
        raise M.AnalysisBroken("positive example of C09 not recognised")


# ------------------------------------------------------------------------------------------------ C18
BROAD = {"builtins.Exception", "builtins.BaseException"}
STOPS = {"builtins.breakpoint": "stops in a debugger", "builtins.input": "waits for keyboard input",
         "builtins.exit": "terminates the interpreter", "builtins.quit": "terminates the interpreter",
         "sys.exit": "terminates the interpreter", "os._exit": "terminates the interpreter",
         "os.abort": "terminates the interpreter", "os.kill": "terminates a process",
         "pdb.set_trace": "stops in a debugger", "pdb.post_mortem": "stops in a debugger", "pdb.run": "stops in a debugger",
         "pdb.runcall": "stops in a debugger", "ipdb.set_trace": "stops in a debugger",
         "code.interact": "waits for keyboard input", "IPython.embed": "stops in a debugger",
         "getpass.getpass": "waits for keyboard input", "sys.stdin.readline": "waits for keyboard input",
         "sys.stdin.read": "waits for keyboard input", "pudb.set_trace": "stops in a debugger",
         "signal.pause": "waits forever"}
BENIGN = {"builtins." + x for x in ("int", "float", "str", "bool", "getattr", "hasattr", "callable", "list", "tuple", "map",
                                    "len", "range", "repr", "type", "isinstance", "complex", "set", "frozenset", "print",
                                    "iter", "hash")} | {"inspect.signature", "inspect.getsource", "ast.literal_eval"}
BENIGN_METH = {"split", "strip", "append", "replace", "lower", "upper", "startswith", "endswith", "isdigit", "rstrip",
               "lstrip", "rsplit", "join", "parameters"}


def _broad(u, h):
    if h.type is None:
        return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return any(u.lib(t) in BROAD for t in ts)


def exc_classes():
    import builtins
    return {"builtins." + n for n in dir(builtins) if isinstance(getattr(builtins, n), type)
            and issubclass(getattr(builtins, n), BaseException)}


EXC = exc_classes()


def _is_exc_class(u, e):
    r = u.scope.resolve(e)
    if r is None:
        return False
    if r[0] == "builtin":
        return "builtins." + r[1] in EXC
    if r[0] == "lib":
        n = C.canon_lib(r[1])
        last = n.split(".")[-1]
        return n in EXC or last.endswith(("Error", "Exception", "Warning")) and last[0].isupper()
    if r[0] == "class":
        return any("builtins." + b in EXC or b in EXC or b.split(".")[-1].endswith(("Error", "Exception"))
                   for b in r[1].lib_bases())
    return False


def _exc_value(prog, u, e, d=0):
    """Does the expression denote an exception object (or class)?"""
    if d > 4 or e is None:
        return False
    if isinstance(e, ast.Call):
        if _is_exc_class(u, e.func):
            return True
        r = u.scope.resolve(e.func)
        if r is not None and r[0] == "func":
            u2 = unit_of(prog, r[1])
            rs = [n for n in u2.nodes() if isinstance(n, ast.Return) and n.value is not None]
            return bool(rs) and all(_exc_value(prog, u2, n.value, d + 1) for n in rs)
        return False
    if isinstance(e, (ast.Name, ast.Attribute)):
        if _is_exc_class(u, e):
            return True
    if isinstance(e, ast.Name):
        v = u.scope.assigned.get(e.id)
        if v is not None and e.id in u.scope.local:
            return _exc_value(prog, u, v, d + 1)
        for n in u.nodes():
            if isinstance(n, ast.ExceptHandler) and n.name == e.id and any(x is e for x in ast.walk(n)):
                return True
    if isinstance(e, ast.IfExp):
        return _exc_value(prog, u, e.body, d + 1) or _exc_value(prog, u, e.orelse, d + 1)
    if isinstance(e, ast.Tuple):
        return any(_exc_value(prog, u, x, d + 1) for x in e.elts)
    return False


def _maker(prog, f):
    """A helper whose result is only ever raised: every call is the operand of a raise (or returned by such a helper)."""
    cs = sites(prog).get(f, [])
    if not cs:
        return False
    for u, c in cs:
        p = u.par.get(c)
        if isinstance(p, ast.Raise):
            continue
        if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
            nm = p.targets[0].id
            if any(isinstance(n, ast.Raise) and n.exc is not None and any(
                    isinstance(x, ast.Name) and x.id == nm for x in ast.walk(n.exc)) for n in u.nodes()):
                continue
        if isinstance(p, ast.Return) and u.func is not None and u.func is not f and _maker(prog, u.func):
            continue
        return False
    return True


def always_raises(stmts):
    for s in stmts:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return False
        if isinstance(s, ast.If):
            if s.orelse and always_raises(s.body) and always_raises(s.orelse):
                return True
            if any(isinstance(n, (ast.Return, ast.Break, ast.Continue)) for n in ast.walk(s)):
                return False
        elif isinstance(s, ast.With):
            if always_raises(s.body):
                return True
        elif isinstance(s, ast.Try):
            if s.finalbody and always_raises(s.finalbody):
                return True
            if always_raises(s.body) and all(always_raises(h.body) for h in s.handlers):
                return True
    return False


def _raises_through_helper(prog, u, stmts):
    for s in stmts:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            r = u.scope.resolve(s.value.func)
            if r is not None and r[0] == "func" and always_raises(r[1].node.body):
                return True
            if u.lib(s.value.func) in ("os._exit", "sys.exit"):
                return False
    return False


def benign_block(prog, u, stmts, d=0):
    """Only conversions and look-ups that answer a question (can this be converted, is it callable)."""
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                nm = u.lib(n.func)
                if nm in BENIGN:
                    continue
                r = u.scope.resolve(n.func)
                if r is not None and r[0] == "func" and d < 3 and benign_block(prog, unit_of(prog, r[1]), r[1].node.body, d + 1):
                    continue
                if isinstance(n.func, ast.Attribute) and n.func.attr in BENIGN_METH and nm is None:
                    continue
                return False
    return True


STATUS = ("os.system", "subprocess.call", "subprocess.run", "os.spawnl", "os.spawnv", "os.spawnlp", "os.spawnvp")


def _unchecked(prog, u, n, d=0):
    """None, or what happens to the exit status of the command."""
    if any(k.arg == "check" and not (isinstance(k.value, ast.Constant) and not k.value.value) or k.arg is None for k in n.keywords):
        return None
    cur, p = n, u.par.get(n)
    while isinstance(p, (ast.BoolOp, ast.IfExp)) and not (isinstance(p, ast.BoolOp) and cur is not p.values[-1]) and \
            not (isinstance(p, ast.IfExp) and cur is p.test):
        cur, p = p, u.par.get(p)
    if isinstance(p, ast.Expr):
        return "its exit status is dropped"
    if isinstance(p, ast.Return) and u.func is not None and d < 3 and (u.func.name.startswith("_") or u.func.parent is not None):
        for cu, c in sites(prog).get(u.func, []):
            why = _unchecked(prog, cu, c, d + 1)
            if why:
                return why
    if isinstance(p, ast.Attribute) and p.attr in ("stdout", "stderr", "args"):
        return "only its output is used"
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and u.func is not None:
        v = p.targets[0].id
        uses = [x for x in ast.walk(u.func.node) if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load)]
        if not uses:
            return "its exit status is never looked at"
        if u.lib(n.func) == "subprocess.run" and all(isinstance(u.par.get(x), ast.Attribute) and u.par[x].attr in ("stdout", "stderr", "args")
                                                     for x in uses):
            return "only its output is used"
    return None


def check_C18(prog, rep):
    rep.rule("no-exception-result", "No function of the library returns, yields or merely builds an exception object "
             "(helpers whose result every caller raises are exempt).")
    rep.rule("no-catch-all", "Every bare/Exception/BaseException handler re-raises on all paths, unless its try body only "
             "probes values (conversions, attribute look-ups).")
    rep.rule("no-hidden-failure", "No handler of a failed read, decoding, network access or of a refusal raised by the library "
             "itself goes on with a constant in place of the missing result.")
    rep.rule("no-stop", "No reference to a debugger, keyboard input or interpreter exit; no SystemExit raised.")
    rep.rule("no-swallow", "No return/break/continue in a finally block, no __exit__ that returns a true constant, no "
             "suppress(Exception).")
    rep.rule("scanned", "Functions and module bodies searched.")
    rep.rule("no-lenient-parsing", "No file, text or column is parsed or decoded with an option that drops or blanks out what cannot be read "
             "(errors=coerce/ignore/replace, on_bad_lines=skip), nor are unreadable fields filtered away; the one remote log named by a "
             "constant of its module is exempt.")
    rep.rule("status", "The exit status of every command run in another process is looked at, by the code or by check=True.")
    rep.rule("no-message-result", "No function whose other results are values answers a case with a printed or logged message and None.")
    for u in all_units(prog):
        rep.ok("scanned")
        rel, q = u.module.rel, u.qual
        for n in u.nodes():
            if isinstance(n, (ast.Return, ast.Yield)) and n.value is not None:
                if _exc_value(prog, u, n.value):
                    if u.func is not None and _maker(prog, u.func):
                        rep.ok("no-exception-result", "%s:%s builds an exception its callers raise" % (rel, q))
                    else:
                        rep.violation("no-exception-result", rel, q, "returns " + C.short(n.value, 60),
                                      "the exception %s is handed back as a result instead of being raised" %
                                      C.short(n.value, 60), C.line(n))
                else:
                    rep.ok("no-exception-result")
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and _is_exc_class(u, n.value.func):
                rep.violation("no-exception-result", rel, q, "unraised " + C.short(n.value, 60),
                              "the exception %s is built but never raised" % C.short(n.value, 60), C.line(n))
            if isinstance(n, ast.ExceptHandler):
                t = u.par.get(n)
                if _broad(u, n):
                    if always_raises(n.body) or _raises_through_helper(prog, u, n.body):
                        rep.ok("no-catch-all", "%s:%s catch-all handler re-raises" % (rel, q))
                    elif t.finalbody and always_raises(t.finalbody):
                        rep.ok("no-catch-all")
                    elif benign_block(prog, u, t.body):
                        rep.ok("no-catch-all", "%s:%s try body only probes: %s" % (rel, q, C.short(t.body[0], 50)))
                    elif any(isinstance(x, ast.Raise) for b in n.body for x in ast.walk(b)):
                        rep.undecided("no-catch-all", "%s:%s" % (rel, q), "catch-all handler raises on some paths only")
                    else:
                        rep.violation("no-catch-all", rel, q, "except around " + C.short(t.body[0], 60),
                                      "catch-all handler hides every failure of: %s" % C.short(t.body[0], 60), C.line(n))
                else:
                    rep.ok("no-catch-all")
                    why = _hides(prog, u, t, n)
                    if why:
                        rep.violation("no-hidden-failure", rel, q, "except around " + C.short(t.body[0], 60),
                                      "the handler goes on with a made-up value after %s in: %s" % (
                                          why, C.short(t.body[0], 60)), C.line(n))
                    else:
                        rep.ok("no-hidden-failure")
            how = _lenient(prog, u, n)
            if how:
                rep.violation("no-lenient-parsing", rel, q, how, "%s: what cannot be read is silently %s" % (
                    how, "replaced" if "coerce" in how or "replace" in how else "left out"), C.line(n) or C.line(u.par.get(n)))
            elif isinstance(n, ast.Call):
                rep.ok("no-lenient-parsing")
            if isinstance(n, ast.Call) and u.lib(n.func) in STATUS:
                why = _unchecked(prog, u, n)
                if why:
                    rep.violation("status", rel, q, C.short(n, 60), "the command %s may fail, and %s" % (C.short(n, 60), why), C.line(n))
                else:
                    rep.ok("status", "%s:%s %s" % (rel, q, C.short(n, 60)))
            if isinstance(n, ast.Call):
                nm = u.lib(n.func)
                if nm == "contextlib.suppress" and any(u.lib(a) in BROAD for a in n.args):
                    rep.violation("no-swallow", rel, q, "suppress(Exception)", "suppress() of every exception", C.line(n))
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, "ctx", None), ast.Load):
                nm = u.lib(n)
                if nm in STOPS or (nm or "").startswith(("pdb.", "ipdb.")) and isinstance(u.par.get(n), ast.Call):
                    rep.violation("no-stop", rel, q, nm, "%s %s" % (nm, STOPS.get(nm, "stops in a debugger")), C.line(n))
            if isinstance(n, ast.Raise) and n.exc is not None:
                e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                if u.lib(e) in ("builtins.SystemExit", "builtins.KeyboardInterrupt"):
                    rep.violation("no-stop", rel, q, "raise " + C.src(e), "raises %s" % C.src(e), C.line(n))
                elif isinstance(e, ast.Name) and e.id == "NotImplemented":
                    rep.violation("no-exception-result", rel, q, "raise NotImplemented",
                                  "raises the constant NotImplemented, which is not an exception", C.line(n))
            if isinstance(n, ast.Try) and n.finalbody:
                bad = _jumps(n.finalbody)
                if bad:
                    rep.violation("no-swallow", rel, q, "%s in finally" % type(bad).__name__.lower(),
                                  "%s in a finally block discards the exception in flight" % type(bad).__name__.lower(),
                                  C.line(bad))
                else:
                    rep.ok("no-swallow")
            if isinstance(n, ast.If):
                for blk in (n.body, n.orelse):
                    r = _told_only(u, blk)
                    if r is not None:
                        rep.violation("no-message-result", rel, q, C.short(n.test, 60), "when %s the caller gets None and only a message is "
                                      "printed" % C.short(n.test, 60), C.line(r))
                    elif blk:
                        rep.ok("no-message-result")
        f = u.func
        if f is not None and f.cls is not None and f.name == "__exit__":
            rs = [n for n in u.nodes() if isinstance(n, ast.Return) and n.value is not None]
            if rs and all(isinstance(r.value, ast.Constant) and r.value.value for r in rs):
                rep.violation("no-swallow", rel, q, "__exit__ returns true", "__exit__ discards every exception", C.line(rs[0]))
            else:
                rep.ok("no-swallow")
    rep.need("scanned", 200)
    rep.need("no-exception-result", 200)
    rep.need("no-catch-all", 5)


PARSERS = ("pandas.to_numeric", "pandas.to_datetime", "pandas.to_timedelta", "builtins.open", "io.open", "codecs.open", "builtins.str", "gzip.open",
           "pandas.read_csv", "pandas.read_table", "bz2.open", "io.TextIOWrapper", "io.StringIO", "codecs.decode")


def _lenient(prog, u, n):
    """A parser or decoder told to go on over what it cannot read."""
    if isinstance(n, ast.comprehension):
        for c in n.ifs:
            for x in ast.walk(c):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("isdigit", "isnumeric", "isdecimal") and \
                        isinstance(x.func.value, ast.Name) and isinstance(n.target, ast.Name) and x.func.value.id == n.target.id:
                    comp = u.par.get(n)
                    elt = getattr(comp, "elt", None)
                    if elt is not None and any(isinstance(y, ast.Call) and u.lib(y.func) in ("builtins.int", "builtins.float") for y in ast.walk(elt)):
                        return "%s filter on what is converted to a number" % x.func.attr
        return None
    if not isinstance(n, ast.Call):
        return None
    nm = u.lib(n.func)
    meth = n.func.attr if isinstance(n.func, ast.Attribute) and nm is None else None
    for k in n.keywords:
        v = k.value.value if isinstance(k.value, ast.Constant) else None
        if k.arg == "errors" and v in ("coerce", "ignore", "replace", "surrogateescape", "backslashreplace") and (
                nm in PARSERS or meth in ("decode", "encode", "astype", "open", "read_text", "to_numeric", "to_datetime")):
            return "%s(errors=%r)" % (nm or meth, v)
        if k.arg == "encoding_errors" and v in ("ignore", "replace") or k.arg in ("error_bad_lines", "invalid_raise") and v is False or \
                k.arg == "on_bad_lines" and v in ("skip", "warn"):
            a = n.args[0] if n.args else next((k2.value for k2 in n.keywords if k2.arg in ("filepath_or_buffer", "fname")), None)
            if not (nm or "").startswith(("pandas.", "numpy.")) or a is not None and is_constant(prog, u, a):
                continue
            return "%s(%s=%r)" % (nm or meth, k.arg, v)
    if (meth in ("decode", "encode")) and len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and n.args[1].value in ("ignore", "replace"):
        return "%s(%r)" % (meth, n.args[1].value)
    return None


def _told_only(u, blk):
    """The return of a block that prints a message and gives back nothing, in a function that otherwise gives back values."""
    if u.func is None or len(blk) < 2 or not isinstance(blk[-1], ast.Return):
        return None
    r = blk[-1]
    if not (r.value is None or isinstance(r.value, ast.Constant) and r.value.value is None):
        return None
    for s in blk[:-1]:
        if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)):
            return None
        c = s.value
        if not (u.lib(c.func) in ("builtins.print", "sys.stderr.write", "sys.stdout.write", "warnings.warn") or isinstance(c.func, ast.Attribute) and
                c.func.attr in ("warning", "error", "info", "critical", "exception", "debug")):
            return None
    rs = [n for n in u.nodes() if isinstance(n, ast.Return) and n is not r]
    vals = [n for n in rs if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None)]
    return r if vals and len(vals) == len(rs) else None


HARD = ("OSError", "IOError", "EnvironmentError", "PermissionError", "IsADirectoryError", "InterruptedError", "ConnectionError",
        "TimeoutError", "UnicodeError", "UnicodeDecodeError", "UnicodeEncodeError", "EOFError", "MemoryError", "RuntimeError",
        "RecursionError", "NotFittedError", "URLError", "HTTPError", "RequestException", "BadZipFile", "BadGzipFile",
        "JSONDecodeError", "ParserError", "EmptyDataError", "NetworkXError", "JoblibException", "LinAlgError", "AssertionError",
        "UnpicklingError")
CLEANUP = {"os.remove", "os.unlink", "os.rmdir", "shutil.rmtree", "os.makedirs", "os.mkdir", "os.path.exists", "os.close"}
QUIET = {"builtins.print", "warnings.warn", "builtins.str", "builtins.repr", "builtins.dict", "builtins.list", "builtins.set",
         "builtins.tuple", "pandas.DataFrame", "pandas.Series", "numpy.array"}


def _names_of(u, h):
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    out = []
    for t in ts:
        r = u.scope.resolve(t)
        if r is None:
            continue
        out.append((r[1] if r[0] in ("builtin", "lib") else r[1].name if r[0] == "class" else "").split(".")[-1])
    return out


def _made_up(e):
    """A value that holds no result: a constant other than None, or an empty container or table."""
    if isinstance(e, ast.Constant):
        return e.value is not None
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        return all(isinstance(x, ast.Constant) for x in e.elts)
    if isinstance(e, ast.Dict):
        return not e.keys
    if isinstance(e, ast.Call):
        return isinstance(e.func, (ast.Name, ast.Attribute)) and all(isinstance(a, ast.Constant) for a in e.args) and (
            e.func.id if isinstance(e.func, ast.Name) else e.func.attr) in ("list", "dict", "set", "tuple", "DataFrame", "Series")
    return False


def _hides(prog, u, t, h):
    names = _names_of(u, h)
    goes = False
    for s in h.body:
        if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            nm = u.lib(s.value.func)
            if nm in QUIET or nm and nm.startswith("logging.") or isinstance(s.value.func, ast.Attribute) and \
                    s.value.func.attr in ("debug", "info", "warning", "error", "exception"):
                continue
            return None
        if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None and _made_up(s.value):
            goes = True
            continue
        if isinstance(s, ast.Return) and (s.value is None or isinstance(s.value, ast.Constant) or isinstance(s.value, ast.Name) and s.value.id == "self"):
            goes = True
            continue
        return None
    last = t.body[-1]
    if not goes and (isinstance(last, (ast.Return, ast.Continue, ast.Break)) or t.orelse):
        return None     # what follows is the second attempt
    hard = [n for n in names if n in HARD]
    calls = [n for s in t.body for n in ast.walk(s) if isinstance(n, ast.Call)]
    if hard:
        if goes and any(u.lib(c.func) not in CLEANUP for c in calls) and not benign_block(prog, u, t.body):
            return "a failure (%s)" % ", ".join(hard)
        if not goes and any(_reads(u, c) for c in calls):
            return "a failed read (%s)" % ", ".join(hard)
    if goes and any(n in ("ValueError", "TypeError", "KeyError", "LookupError", "IndexError") for n in names) and any(
            _reads(u, c) and u.lib(c.func) not in ("builtins.open", "gzip.open") for c in calls):
        return "a failed read (%s)" % ", ".join(names)
    for c in calls:
        r = u.scope.resolve(c.func)
        f = r[1] if r is not None and r[0] == "func" else None
        if f is None and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and u.func is not None \
                and u.func.cls is not None and c.func.value.id == "self":
            f = u.func.cls.find(c.func.attr)
        if f is not None and hasattr(f, "node"):
            x = _refuses(prog, f, names)
            if x:
                return "the refusal %s raised by %s" % (x, f.name)
        elif u.lib(c.func) == "sklearn.utils.validation.check_is_fitted" and "NotFittedError" in names:
            return "NotFittedError"
    return None


def _reads(u, c):
    nm = u.lib(c.func) or ""
    return nm in ("builtins.open", "gzip.open") or nm.startswith("pandas.read_") or nm.startswith("urllib.") or nm == "json.load" \
        or isinstance(c.func, ast.Attribute) and c.func.attr in ("read", "decode", "readlines", "extractall")


def _refuses(prog, f, names, d=0, seen=None):
    seen = set() if seen is None else seen
    if f in seen or d > 3:
        return None
    seen.add(f)
    u = unit_of(prog, f)
    for n in u.nodes():
        if isinstance(n, ast.Raise) and n.exc is not None:
            e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
            r = u.scope.resolve(e)
            k = (r[1] if r[0] in ("builtin", "lib") else "").split(".")[-1] if r is not None else ""
            if k in names:
                return k
        elif isinstance(n, ast.Call):
            r = u.scope.resolve(n.func)
            if r is not None and r[0] == "func" and hasattr(r[1], "node"):
                x = _refuses(prog, r[1], names, d + 1, seen)
                if x:
                    return x
    return None


def _jumps(stmts, loop=False):
    for s in stmts:
        if isinstance(s, ast.Return):
            return s
        if isinstance(s, (ast.Break, ast.Continue)) and not loop:
            return s
        for fld in ("body", "orelse", "finalbody"):
            sub = getattr(s, fld, None)
            if isinstance(sub, list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                r = _jumps([x for x in sub if isinstance(x, ast.stmt)], loop or isinstance(s, (ast.For, ast.While)))
                if r is not None:
                    return r
        for h in getattr(s, "handlers", []) or []:
            r = _jumps(h.body, loop)
            if r is not None:
                return r
    return None


# ------------------------------------------------------------------------------------------------ C25
EXEC = {"builtins.eval", "builtins.exec", "builtins.compile", "builtins.execfile", "pandas.eval", "numexpr.evaluate",
        "runpy.run_path", "runpy.run_module", "importlib.import_module", "builtins.__import__", "code.compile_command",
        "sympy.sympify", "sympy.parse_expr", "pandas.core.computation.eval.eval", "timeit.timeit", "cProfile.run"}
UNPICKLE = {"pickle.load", "pickle.loads", "pickle.Unpickler", "cPickle.load", "cPickle.loads", "_pickle.load",
            "_pickle.loads", "dill.load", "dill.loads", "cloudpickle.load", "cloudpickle.loads", "joblib.load",
            "marshal.load", "marshal.loads", "shelve.open", "pandas.read_pickle", "networkx.read_gpickle",
            "jsonpickle.decode", "yaml.unsafe_load", "yaml.full_load", "yaml.load_all", "torch.load"}
SHELL = {"os.system", "os.popen", "subprocess.getoutput", "subprocess.getstatusoutput", "commands.getoutput",
         "os.popen2", "os.popen3"}
SUBPROC = {"subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "subprocess.Popen",
           "asyncio.create_subprocess_shell"}


def is_constant(prog, u, e, d=0):
    """True: built from literals only; False: depends on caller data; None: unknown."""
    if d > 8 or e is None:
        return None
    if isinstance(e, ast.Constant):
        return True
    kids = None
    if isinstance(e, ast.JoinedStr):
        kids = [v.value if isinstance(v, ast.FormattedValue) else v for v in e.values]
    elif isinstance(e, ast.BinOp):
        kids = [e.left, e.right]
    elif isinstance(e, (ast.Tuple, ast.List)):
        kids = e.elts
    elif isinstance(e, ast.IfExp):
        kids = [e.body, e.orelse]
    elif isinstance(e, ast.BoolOp):
        kids = e.values
    elif isinstance(e, ast.Starred):
        kids = [e.value]
    elif isinstance(e, ast.Call):
        nm = u.lib(e.func)
        if isinstance(e.func, ast.Attribute) and nm is None:
            kids = [e.func.value] + list(e.args) + [k.value for k in e.keywords]
        elif nm and nm.startswith(("os.path.", "builtins.str", "shlex.")):
            if nm == "shlex.quote" or nm == "shlex.join":
                return True
            kids = list(e.args)
        else:
            return None
    if kids is not None:
        rs = [is_constant(prog, u, k, d + 1) for k in kids]
        return False if False in rs else (None if None in rs else True)
    if isinstance(e, ast.Name):
        f = u.func
        if f is not None and e.id in [p[0] for p in f.params()] and e.id not in u.scope.assigned:
            cs = [x for x in sites(prog).get(f, []) if x[0].func is not f]
            if f.name.startswith("_") and cs:
                rs = []
                names = [p[0] for p in f.params() if p[1] in ("pos", "kwonly")]
                if f.cls is not None and not f.is_static:
                    names = names[1:]
                for cu, c in cs:
                    a = None
                    for k in c.keywords:
                        if k.arg == e.id:
                            a = k.value
                    if a is None and e.id in names and names.index(e.id) < len(c.args):
                        a = c.args[names.index(e.id)]
                    if a is None:
                        a = [p[2] for p in f.params() if p[0] == e.id][0]
                    rs.append(is_constant(prog, cu, a, d + 1))
                return False if False in rs else (None if None in rs else True)
            return False
        if f is not None and e.id in f.locals:
            vs = [n.value for n in u.nodes() if isinstance(n, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
            aug = [n.value for n in u.nodes() if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)
                   and n.target.id == e.id]
            fors = [n.iter for n in u.nodes() if isinstance(n, ast.For) and any(
                isinstance(t, ast.Name) and t.id == e.id for t in ast.walk(n.target))]
            if not vs and not aug and not fors:
                return None
            if e.id in [p[0] for p in f.params()] and not f.name.startswith("_") and \
                    any(isinstance(y, ast.Name) and y.id == e.id for v in vs for y in ast.walk(v)):
                return False        # the caller's value, with a default in its place if there is none
            rs = [is_constant(prog, u, v, d + 1) for v in vs + aug + fors]
            return False if False in rs else (None if None in rs else True)
        r = prog.resolve_name(u.module, e.id)
        if r is not None and r[0] == "var":
            return is_constant(prog, C.Unit(prog, r[1]), r[2], d + 1)
        return None
    if isinstance(e, ast.Subscript):
        return is_constant(prog, u, e.value, d + 1)
    if isinstance(e, ast.Attribute):
        b = u.scope.resolve(e.value)
        if b is not None and b[0] == "module":
            r = prog.resolve_name(b[1], e.attr)
            if r is not None and r[0] == "var":
                return is_constant(prog, C.Unit(prog, r[1]), r[2], d + 1)
        if isinstance(e.value, ast.Name) and e.value.id == "self":
            return False
    return None


def check_C25(prog, rep):
    rep.rule("no-eval", "No eval/exec/compile/import of anything but literals, neither called nor passed as a function.")
    rep.rule("no-unpickle", "No unpickling (pickle, joblib.load, read_pickle, np.load(allow_pickle), unsafe yaml).")
    rep.rule("shell", "Every shell command is built from literals and module constants only.")
    rep.rule("scanned", "Functions and module bodies searched.")
    for u in all_units(prog):
        rep.ok("scanned")
        rel, q = u.module.rel, u.qual
        for n in u.nodes():
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                nm = u.lib(n)
                if nm in EXEC or nm in UNPICKLE or nm in SHELL:
                    p = u.par.get(n)
                    called = isinstance(p, ast.Call) and p.func is n
                    if called:
                        continue
                    if isinstance(p, (ast.Assign, ast.Attribute)):
                        continue
                    rep.violation("no-eval" if nm in EXEC else "no-unpickle" if nm in UNPICKLE else "shell", rel, q,
                                  nm + " as a function", "%s is passed on as a function and applied to data" % nm, C.line(n))
            if not isinstance(n, ast.Call):
                continue
            nm = u.lib(n.func)
            arg = n.args[0] if n.args else (n.keywords[0].value if n.keywords else None)
            if nm in EXEC:
                c = is_constant(prog, u, arg)
                if c:
                    rep.ok("no-eval", "%s:%s %s of a literal" % (rel, q, nm))
                else:
                    rep.violation("no-eval", rel, q, nm, "%s(%s) evaluates a computed string" % (nm, C.short(arg, 50)), C.line(n))
            elif nm in UNPICKLE or nm == "numpy.load" and any(
                    k.arg == "allow_pickle" and not (isinstance(k.value, ast.Constant) and not k.value.value)
                    for k in n.keywords):
                if nm in ("pickle.loads", "cloudpickle.loads", "dill.loads") and isinstance(arg, ast.Call) and \
                        u.lib(arg.func) == nm.replace("loads", "dumps"):
                    rep.ok("no-unpickle", "%s:%s in-memory copy" % (rel, q))
                else:
                    rep.violation("no-unpickle", rel, q, nm, "%s(%s) unpickles data" % (nm, C.short(arg, 50)), C.line(n))
            elif nm == "yaml.load":
                safe = any(k.arg == "Loader" and "Safe" in C.src(k.value) for k in n.keywords) or \
                    len(n.args) > 1 and "Safe" in C.src(n.args[1])
                if not safe:
                    rep.violation("no-unpickle", rel, q, nm, "yaml.load without a safe loader", C.line(n))
            elif nm in SHELL or nm in SUBPROC:
                shell = nm in SHELL or any(k.arg == "shell" and not (
                    isinstance(k.value, ast.Constant) and not k.value.value) for k in n.keywords) or nm.endswith("_shell")
                c = is_constant(prog, u, arg)
                if not shell:
                    first = arg.elts[0] if isinstance(arg, (ast.List, ast.Tuple)) and arg.elts else arg
                    sh = isinstance(first, ast.Constant) and str(first.value).split("/")[-1] in ("sh", "bash", "zsh", "python",
                                                                                                 "perl")
                    if not sh or c:
                        rep.ok("shell", "%s:%s %s without a shell" % (rel, q, nm))
                        continue
                if c:
                    rep.ok("shell", "%s:%s %s(%s)" % (rel, q, nm, C.short(arg, 50)))
                elif c is False:
                    rep.violation("shell", rel, q, nm + " " + C.short(arg, 40),
                                  "caller data becomes part of the shell command %s" % C.short(arg, 60), C.line(n))
                else:
                    rep.undecided("shell", "%s:%s" % (rel, q), "origin of %s unknown" % C.short(arg, 60))
            elif isinstance(n.func, ast.Attribute) and n.func.attr in ("eval", "query") and nm is None and arg is not None:
                fs = [c for m in prog.modules.values() for c in m.classes.values() if n.func.attr in c.methods]
                if fs:
                    continue
                c = is_constant(prog, u, arg)
                if c is False or (c is None and n.func.attr == "eval"):
                    rep.violation("no-eval", rel, q, "." + n.func.attr, "frame.%s(%s) evaluates a computed string" % (
                        n.func.attr, C.short(arg, 50)), C.line(n))
                else:
                    rep.ok("no-eval")
    rep.need("scanned", 200)
    # instances that exist today: the shell commands of the UbiqLog download
    rep.count("shell_commands", rep.rules["shell"]["checked"])
    from_lit = ast.parse("eval(x)").body[0].value
    m = M.ModuleInfo("x", "x", "x", ast.parse("def f(x):\n    return eval(x)\n"), False)
    p = M.Program.__new__(M.Program)
    p.modules, p.func_by_node = {"x": m}, {}
    p._index(m)
    if C.Unit(p, m, m.names["f"][1]).lib(from_lit.func) != "builtins.eval":
        raise M.AnalysisBroken("positive example of C25 not recognised")
