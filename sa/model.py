"""Program model: parsed modules, resolved imports, classes with MRO, functions.

Everything is read from the working tree of the repository with `ast`; nothing is imported."""
import ast
import os

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "skmine"


class AnalysisBroken(Exception):
    """An anchor the analysis depends on is missing; reported as an error exit, never as a pass."""


class FuncInfo:
    __slots__ = ("node", "module", "cls", "name", "qual", "parent", "is_static", "is_classmethod", "is_property",
                 "decorators", "is_gen", "locals", "_params", "globals_", "nonlocals")

    def __init__(self, node, module, cls, parent):
        self.node, self.module, self.cls, self.parent = node, module, cls, parent
        self.name = getattr(node, "name", "<lambda>")
        pre = parent.qual + "." if parent is not None else (cls.name + "." if cls is not None else "")
        self.qual = pre + (self.name if self.name != "<lambda>" else "<lambda:%d>" % node.lineno)
        self.decorators = [dotted_name(d.func if isinstance(d, ast.Call) else d) for d in
                           getattr(node, "decorator_list", [])]
        self.is_static = "staticmethod" in self.decorators
        self.is_classmethod = "classmethod" in self.decorators
        self.is_property = "property" in self.decorators
        self._params = None
        self.is_gen = not isinstance(node, ast.Lambda) and _has_yield(node)
        self.locals, self.globals_, self.nonlocals = bound_names(node)

    @property
    def where(self):
        return "%s:%s" % (self.module.rel, self.qual)

    def params(self):
        """[(name, kind, default expr or None)], kind in pos, kwonly, vararg, kwarg."""
        if self._params is None:
            a = self.node.args
            pos = list(a.posonlyargs) + list(a.args)
            dflt = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
            out = [(p.arg, "pos", d) for p, d in zip(pos, dflt)]
            if a.vararg:
                out.append((a.vararg.arg, "vararg", None))
            out += [(p.arg, "kwonly", d) for p, d in zip(a.kwonlyargs, a.kw_defaults)]
            if a.kwarg:
                out.append((a.kwarg.arg, "kwarg", None))
            self._params = out
        return self._params

    def __repr__(self):
        return "<F %s>" % self.where


class ClassInfo:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.methods = {}      # name -> FuncInfo
        self.attrs = {}        # class level name -> value expr
        self.bases = []        # ClassInfo or dotted str
        self._mro = None

    @property
    def qual(self):
        return self.module.name + "." + self.name

    def mro(self):
        if self._mro is None:
            seqs = [b.mro() for b in self.bases if isinstance(b, ClassInfo)] + \
                   [[b for b in self.bases if isinstance(b, ClassInfo)]]
            self._mro = [self] + _c3([list(s) for s in seqs if s])
        return self._mro

    def lib_bases(self):
        out = []
        for c in self.mro():
            out += [b for b in c.bases if not isinstance(b, ClassInfo)]
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def find_after(self, cls, name):
        m = self.mro()
        i = m.index(cls) if cls in m else -1
        for c in m[i + 1:]:
            if name in c.methods:
                return c.methods[name]
        return None

    def __repr__(self):
        return "<C %s>" % self.qual


def _c3(seqs):
    out = []
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            c = seqs[0][0]
        out.append(c)
        for s in seqs:
            if s[0] is c:
                del s[0]
            elif c in s:
                s.remove(c)


class ModuleInfo:
    def __init__(self, name, path, rel, tree, is_pkg):
        self.name, self.path, self.rel, self.tree, self.is_pkg = name, path, rel, tree, is_pkg
        self.names = {}       # name -> ('func',F)|('class',C)|('import',dotted)|('from',mod,name)|('var',expr)
        self.functions = []   # all FuncInfo incl. nested and lambdas
        self.classes = {}


def dotted_name(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted_name(e.value)
        return b + "." + e.attr if b else None
    return None


def _has_yield(fn):
    st = list(fn.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


def bound_names(fn):
    """Names bound in the scope of a function (excluding nested scopes and comprehension targets)."""
    names, gl, nl = set(), set(), set()
    a = fn.args
    for p in list(a.posonlyargs) + list(a.args) + list(a.kwonlyargs):
        names.add(p.arg)
    for p in (a.vararg, a.kwarg):
        if p:
            names.add(p.arg)
    if isinstance(fn, ast.Lambda):
        st = [fn.body]
    else:
        st = list(fn.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            st.extend(n.decorator_list)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # walrus inside comprehensions binds in the function; targets do not
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    names.add(w.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, ast.Global):
            gl.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nl.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        st.extend(ast.iter_child_nodes(n))
    return names - gl - nl, gl, nl


def is_test_path(rel):
    parts = rel.split(os.sep)
    return any(p in ("test", "tests") for p in parts) or parts[-1].startswith("test_") or parts[-1] == "conftest.py"


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.func_by_node = {}
        self.parse_errors = []
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken("package directory %s not found" % root)
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, self.repo)
                if is_test_path(rel):
                    continue
                self._load(path, rel)
        for m in self.modules.values():
            self._index(m)
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    c.bases.append(self._resolve_base(m, b, c))

    def _load(self, path, rel):
        with open(path, encoding="utf-8") as f:
            src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(src, rel)   # a syntax error is an analysis error (the build would fail too)
        name = rel[:-3].replace(os.sep, ".")
        is_pkg = name.endswith(".__init__")
        if is_pkg:
            name = name[: -len(".__init__")]
        self.modules[name] = ModuleInfo(name, path, rel, tree, is_pkg)

    def _index(self, m):
        def bind(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.names[s.name] = ("func", self._func(s, m, None, None))
                elif isinstance(s, ast.ClassDef):
                    m.names[s.name] = ("class", self._class(s, m))
                elif isinstance(s, ast.Import):
                    for al in s.names:
                        if al.asname:
                            m.names[al.asname] = ("import", al.name)
                        else:
                            m.names[al.name.split(".")[0]] = ("import", al.name.split(".")[0])
                elif isinstance(s, ast.ImportFrom):
                    mod = self._abs(m, s)
                    for al in s.names:
                        if al.name == "*":
                            m.names.setdefault("*", ("star", []))[1].append(mod)
                        else:
                            m.names[al.asname or al.name] = ("from", mod, al.name)
                elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    tg = s.targets if isinstance(s, ast.Assign) else [s.target]
                    for t in tg:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                m.names.setdefault(n.id, ("var", s.value)) if isinstance(s, ast.AugAssign) else \
                                    m.names.__setitem__(n.id, ("var", s.value))
                    if s.value is not None:
                        self._lambdas(s.value, m, None, None)
                elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                    for fld in ("body", "orelse", "finalbody"):
                        bind(getattr(s, fld, []) or [])
                    for h in getattr(s, "handlers", []) or []:
                        bind(h.body)
                    if isinstance(s, ast.For):
                        for n in ast.walk(s.target):
                            if isinstance(n, ast.Name):
                                m.names[n.id] = ("var", None)
                    if isinstance(s, ast.With):
                        for it in s.items:
                            if it.optional_vars is not None:
                                for n in ast.walk(it.optional_vars):
                                    if isinstance(n, ast.Name):
                                        m.names[n.id] = ("var", it.context_expr)
                elif isinstance(s, ast.Expr):
                    self._lambdas(s.value, m, None, None)
        bind(m.tree.body)

    def _abs(self, m, s):
        if s.level == 0:
            return s.module
        base = m.name.split(".")
        if not m.is_pkg:
            base = base[:-1]
        base = base[: len(base) - (s.level - 1)]
        return ".".join(base + ([s.module] if s.module else []))

    def _func(self, node, m, cls, parent):
        f = FuncInfo(node, m, cls, parent)
        m.functions.append(f)
        self.func_by_node[node] = f
        body = [node.body] if isinstance(node, ast.Lambda) else node.body
        st = list(body)
        while st:
            n = st.pop(0)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._func(n, m, None, f)
                for d in n.decorator_list:
                    st.append(d)
                continue
            if isinstance(n, ast.Lambda):
                self._func(n, m, None, f)
                continue
            if isinstance(n, ast.ClassDef):
                self._class(n, m)
                continue
            st.extend(ast.iter_child_nodes(n))
        return f

    def _lambdas(self, expr, m, cls, parent):
        for n in ast.walk(expr):
            if isinstance(n, ast.Lambda) and n not in self.func_by_node:
                self._func(n, m, cls, parent)

    def _class(self, node, m):
        c = ClassInfo(node, m)
        m.classes[node.name] = c

        def body(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    c.methods[s.name] = self._func(s, m, c, None)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            if isinstance(s.value, ast.Name) and s.value.id in c.methods:
                                c.methods[t.id] = c.methods[s.value.id]      # alias of a method
                            else:
                                c.attrs[t.id] = s.value
                                c.methods.pop(t.id, None)
                        elif isinstance(t, ast.Tuple):
                            for e in t.elts:
                                if isinstance(e, ast.Name):
                                    c.attrs[e.id] = s.value
                    self._lambdas(s.value, m, c, None)
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    if s.value is not None:
                        c.attrs[s.target.id] = s.value
                elif isinstance(s, (ast.If, ast.Try, ast.For, ast.With)):
                    for fld in ("body", "orelse", "finalbody"):
                        body(getattr(s, fld, []) or [])
                elif isinstance(s, ast.Expr):
                    self._lambdas(s.value, m, c, None)
        body(node.body)
        return c

    def _resolve_base(self, m, b, cls):
        d = dotted_name(b)
        if d is None:
            return "?"
        r = self.resolve_dotted(m, d, exclude=cls)
        if r and r[0] == "class":
            return r[1]
        if r and r[0] == "lib":
            return r[1]
        return d

    # ---- name resolution -------------------------------------------------------------------
    def resolve_name(self, m, name, exclude=None, depth=0):
        """-> ('func',F)|('class',C)|('module',M)|('lib',dotted)|('var',module,expr)|None"""
        if depth > 12:
            return None
        e = m.names.get(name)
        if e is not None and e[0] == "class" and e[1] is exclude:
            # class X(X): the base is the imported X of the same name
            for s in m.tree.body:
                if isinstance(s, ast.ImportFrom):
                    for al in s.names:
                        if (al.asname or al.name) == name:
                            e = ("from", self._abs(m, s), al.name)
            if e[0] == "class":
                return None
        if e is None:
            star = m.names.get("*")
            if star:
                for mod in star[1]:
                    if mod in self.modules:
                        r = self.resolve_name(self.modules[mod], name, None, depth + 1)
                        if r:
                            return r
                    else:
                        return ("lib", mod + "." + name)
            return None
        if e[0] in ("func", "class"):
            return e
        if e[0] == "var":
            return ("var", m, e[1], name)
        if e[0] == "import":
            return ("module", self.modules[e[1]]) if e[1] in self.modules else ("lib", e[1])
        if e[0] == "from":
            return self._from(e[1], e[2], depth)
        return None

    def _from(self, mod, name, depth):
        if mod in self.modules:
            r = self.resolve_name(self.modules[mod], name, None, depth + 1)
            if r:
                return r
            if mod + "." + name in self.modules:
                return ("module", self.modules[mod + "." + name])
            return ("missing", mod + "." + name)
        if mod and mod + "." + name in self.modules:
            return ("module", self.modules[mod + "." + name])
        return ("lib", (mod or "") + "." + name)

    def resolve_dotted(self, m, dotted, exclude=None):
        parts = dotted.split(".")
        r = self.resolve_name(m, parts[0], exclude)
        for p in parts[1:]:
            if r is None:
                return None
            r = self.member(r, p)
        return r

    def member(self, r, attr):
        if r[0] == "module":
            x = self.resolve_name(r[1], attr)
            if x is None and r[1].name + "." + attr in self.modules:
                x = ("module", self.modules[r[1].name + "." + attr])
            return x
        if r[0] == "lib":
            return ("lib", r[1] + "." + attr)
        if r[0] == "class":
            f = r[1].find(attr)
            return ("func", f) if f else None
        return None

    # ---- anchors ------------------------------------------------------------------------------
    def cls(self, dotted):
        mod, name = dotted.rsplit(".", 1)
        m = self.modules.get(mod)
        if m is not None:
            r = self.resolve_name(m, name)
            if r and r[0] == "class":
                return r[1]
        raise AnalysisBroken("class %s not found" % dotted)

    def func(self, dotted):
        mod, name = dotted.rsplit(".", 1)
        if mod in self.modules:
            r = self.resolve_name(self.modules[mod], name)
            if r and r[0] == "func":
                return r[1]
        else:
            m2, cn = mod.rsplit(".", 1)
            if m2 in self.modules:
                r = self.resolve_name(self.modules[m2], cn)
                if r and r[0] == "class":
                    f = r[1].find(name)
                    if f:
                        return f
        raise AnalysisBroken("function %s not found" % dotted)

    def all_functions(self):
        for m in self.modules.values():
            yield from m.functions


def literal_loop(s):
    """The string constants that a for statement or comprehension clause runs over, if it is a literal of a few of them."""
    it = s.iter
    if not isinstance(it, (ast.Tuple, ast.List)) or not isinstance(s.target, ast.Name) or not 0 < len(it.elts) <= 12:
        return None
    if not all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in it.elts):
        return None
    if isinstance(s, ast.For):
        todo = list(s.body) + list(s.orelse)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Break, ast.Continue)):
                return None
            if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                todo.extend(ast.iter_child_nodes(n))
    return it.elts
