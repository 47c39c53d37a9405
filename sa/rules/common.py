"""Shared by the rules: life-cycle runs of all estimators, public function runs, syntactic helpers."""
import ast
from .. import model as M
from .. import session as S
from ..interp import Interp, Ref, Const, Tag, Cls, refs, tags, OPQ, BOT

# modules whose module-level functions are part of the public surface
FUNC_MODULES = ["skmine.utils", "skmine.datasets", "skmine.datasets._base", "skmine.datasets._samples_generator",
                "skmine.datasets.utils", "skmine.datasets.fimi", "skmine.datasets.periodic",
                "skmine.emerging.mbdldorber", "skmine.preprocessing.mdlp_discretizer", "skmine.itemsets.lcm",
                "skmine.itemsets.slim", "skmine.periodic.cycles"]


def public_functions(prog):
    out = []
    for mn in FUNC_MODULES:
        m = prog.modules.get(mn)
        if m is None:
            continue
        for n, e in m.names.items():
            if e[0] == "func" and not n.startswith("_"):
                out.append(e[1])
    if len(out) < 15:
        raise M.AnalysisBroken("only %d public functions found" % len(out))
    return out


def lives(prog, names=None, tagged=False, hooks=None, tokens=False):
    """Constructor, fit and every public operation of every estimator."""
    for n in names or S.ESTIMATORS:
        L = S.Life(prog, n, hooks=hooks, tagged=tagged)
        L.I.use_tokens = tokens
        L.init()
        L.init_reach = L.reach("init")
        L.fit()
        L.fit_reach = L.reach("fit")
        yield L


def run_rest(L):
    """Analyse the remaining public operations; returns (queries, other fitting operations)."""
    qs, fits = [], []
    for n in L.public():
        f = L.cls.find(n)
        if n == "fit" or S.is_abstract(f):
            continue
        if n in S.FITTING:
            if n == "set_params":
                continue
            L.query(n)
            fits.append(n)
    for n in L.queries():
        L.query(n)
        qs.append(n)
    for n in L.public():
        f = L.cls.find(n)
        if f.is_property and n not in qs:
            L.query(n)
            qs.append(n)
    return qs, fits


def run_func(prog, f, hooks=None, tagged=False, self_cls=None, tokens=False):
    I = Interp(prog, hooks)
    I.use_tokens = tokens
    self_obj = None
    sv = None
    if self_cls is not None and not f.is_static:
        self_obj = I.new(("self",), self_cls, owner=("self", self_cls.name), lazy=True)
        sv = frozenset([Ref(self_obj)])
    m = S.bind_args(I, f, f.name, sv, tagged=tagged)
    end, ret = I.run_entry(f, self_obj, m, f.name)
    return I, end, ret


def effects(I, *kinds):
    return [e for e in I.effects.values() if e.kind in kinds]


def src(n):
    try:
        return ast.unparse(n)
    except Exception:
        return type(n).__name__


def short(n, k=90):
    s = " ".join(src(n).split())
    return s if len(s) <= k else s[:k] + "..."


def line(n):
    return getattr(n, "lineno", 0)


def count_engine(rep, I):
    rep.count("functions_interpreted", len(I.funcs_seen))
    rep.count("call_sites_resolved", len(I.calls_seen))
    rep.count("effects_recorded", len(I.effects))
    rep.count("library_calls_modelled", len(I.libcalls))


# ------------------------------------------------------------------------------------------ syntax helpers
def parents(fn):
    p = {}
    for n in ast.walk(fn):
        for c in ast.iter_child_nodes(n):
            p[c] = n
    return p


def always_exits(stmts, loop_level=True):
    """Every path through stmts leaves by return/raise, or by break of the loop they are in (loop_level)."""
    for s in stmts:
        if isinstance(s, (ast.Return, ast.Raise)):
            return True
        if isinstance(s, ast.Break):
            return loop_level
        if isinstance(s, ast.Continue):
            return False
        if isinstance(s, ast.If):
            if s.orelse and always_exits(s.body, loop_level) and always_exits(s.orelse, loop_level):
                return True
            if _may_continue(s):
                return False
        elif isinstance(s, ast.With):
            if always_exits(s.body, loop_level):
                return True
        elif isinstance(s, ast.Try):
            if s.finalbody and always_exits(s.finalbody, loop_level):
                return True
            if always_exits(s.body, loop_level) and all(always_exits(h.body, loop_level) for h in s.handlers):
                return True
            if _may_continue(s):
                return False
    return False


def _may_continue(s):
    st = [s]
    while st:
        n = st.pop()
        if isinstance(n, ast.Continue):
            return True
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)) and n is not s:
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


def returns_to_loop(loop, stmt):
    """After `stmt` (inside the body of `loop`) has run, can control get back to the head of `loop`?"""
    if not isinstance(loop, (ast.For, ast.While)):
        return True
    chain = []

    def find(block):
        for i, s in enumerate(block):
            if s is stmt:
                chain.append((block, i, None))
                return True
            for fld in ("body", "orelse", "finalbody"):
                sub = getattr(s, fld, None)
                if isinstance(sub, list) and sub and isinstance(sub[0], ast.stmt):
                    if find(sub):
                        chain.append((block, i, s))
                        return True
            for h in getattr(s, "handlers", []) or []:
                if find(h.body):
                    chain.append((block, i, s))
                    return True
        return False
    if not find(loop.body):
        return True
    inner = False     # are we inside an inner loop at this level?
    # chain is innermost first; decide level by level, tracking inner loops from the outside in
    depth_inner = []
    seen_inner = 0
    for block, i, owner in reversed(chain):
        depth_inner.append(seen_inner)
        if isinstance(owner, (ast.For, ast.While)):
            seen_inner += 1
    depth_inner.reverse()
    for (block, i, owner), d in zip(chain, depth_inner):
        if isinstance(stmt, (ast.Return, ast.Raise)):
            return False
        if always_exits(block[i + 1:], loop_level=(d == 0)):
            return False
    return True


# ------------------------------------------------------------------------------------------ resolved names
class Scope:
    """Resolution of names and dotted paths in a function (or module body) to library or repository symbols.

    Function-local imports and single-assignment aliases of functions (`cd = os.chdir`) are followed."""

    def __init__(self, prog, module, func=None):
        self.prog, self.module, self.func = prog, module, func
        self.local = {}
        self.assigned = {}
        f = func
        chain = []
        while f is not None:
            chain.append(f)
            f = f.parent
        self.nested = {}
        for f in reversed(chain):
            for n in own_nodes(f.node):
                if isinstance(n, ast.FunctionDef):
                    self.nested[n.name] = ("func", self.prog.func_by_node[n])
            for n in f.locals:
                self.local[n] = None
            for n in own_nodes(f.node):
                if isinstance(n, ast.Import):
                    for al in n.names:
                        nm, d = (al.asname, al.name) if al.asname else (al.name.split(".")[0],) * 2
                        self.local[nm] = ("module", prog.modules[d]) if d in prog.modules else ("lib", d)
                elif isinstance(n, ast.ImportFrom):
                    mod = prog._abs(module, n)
                    for al in n.names:
                        self.local[al.asname or al.name] = prog._from(mod, al.name, 0)
            binds = {}
            for n in own_nodes(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    binds.setdefault(n.targets[0].id, []).append(n.value)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    binds.setdefault(n.id, [])
            stores = {}
            for n in own_nodes(f.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    stores[n.id] = stores.get(n.id, 0) + 1
            for nm, vs in binds.items():
                if len(vs) == 1 and stores.get(nm) == 1:
                    self.assigned[nm] = vs[0]

    def resolve(self, e, d=0):
        """-> ('lib', dotted) | ('func', F) | ('class', C) | ('module', M) | ('builtin', name) | None"""
        if d > 6:
            return None
        if isinstance(e, ast.Name):
            if e.id in self.local:
                r = self.local[e.id]
                if r is not None:
                    return r
                v = self.assigned.get(e.id)
                if isinstance(v, (ast.Name, ast.Attribute)):
                    return self.resolve(v, d + 1)
                return self.nested.get(e.id)
            r = self.prog.resolve_name(self.module, e.id)
            if r is None:
                import builtins
                return ("builtin", e.id) if hasattr(builtins, e.id) else None
            if r[0] == "var":
                if isinstance(r[2], (ast.Name, ast.Attribute)):
                    return Scope(self.prog, r[1]).resolve(r[2], d + 1)
                return None
            return r
        if isinstance(e, ast.Attribute):
            b = self.resolve(e.value, d + 1)
            if b is None:
                return None
            if b[0] == "builtin":
                return ("lib", "builtins.%s.%s" % (b[1], e.attr))
            if b[0] in ("func",):
                return None
            r = self.prog.member(b, e.attr)
            if r is not None and r[0] == "var":
                if isinstance(r[2], (ast.Name, ast.Attribute)):
                    return Scope(self.prog, r[1]).resolve(r[2], d + 1)
                return None
            return r
        return None

    def lib(self, e):
        r = self.resolve(e)
        if r is None:
            return None
        if r[0] == "lib":
            return canon_lib(r[1])
        if r[0] == "builtin":
            return "builtins." + r[1]
        return None


_ALIAS = {"np": "numpy", "pd": "pandas", "posix": "os", "nt": "os", "posixpath": "os.path", "io.open": "builtins.open",
          "codecs.open": "builtins.open"}


def canon_lib(n):
    for a, b in _ALIAS.items():
        if n == a or n.startswith(a + "."):
            return b + n[len(a):]
    return n


def own_nodes(fn):
    """Nodes of a function body without nested functions (their definition node itself is included)."""
    body = [fn.body] if isinstance(fn, ast.Lambda) else list(fn.body)
    st = list(reversed(body))
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(reversed(list(ast.iter_child_nodes(n))))


def module_nodes(tree):
    """Nodes executed at import: module body and class bodies, without function bodies."""
    st = list(reversed(tree.body))
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            for d in getattr(n, "decorator_list", []):
                st.append(d)
            continue
        st.extend(reversed(list(ast.iter_child_nodes(n))))


class Unit:
    """A function, or the import-time code of a module."""

    def __init__(self, prog, module, func=None):
        self.prog, self.module, self.func = prog, module, func
        self.scope = Scope(prog, module, func)
        self.root = func.node if func is not None else module.tree
        self.qual = func.qual if func is not None else "<module>"
        self._par = None

    def nodes(self):
        return own_nodes(self.root) if self.func is not None else module_nodes(self.root)

    @property
    def par(self):
        if self._par is None:
            self._par = parents(self.root)
        return self._par

    def up(self, n):
        while n in self.par:
            n = self.par[n]
            yield n

    def lib(self, e):
        return self.scope.lib(e)


def units(prog):
    for m in prog.modules.values():
        yield Unit(prog, m)
        for f in m.functions:
            yield Unit(prog, m, f)


def call_sites(prog):
    """FuncInfo -> [(Unit, Call node)] for calls resolved by name (functions, self/cls methods, class methods)."""
    out = {}
    for u in units(prog):
        cls = None
        f = u.func
        while f is not None and cls is None:
            cls = f.cls
            f = f.parent
        for n in u.nodes():
            if not isinstance(n, ast.Call):
                continue
            r = u.scope.resolve(n.func)
            fs = []
            if r is not None and r[0] == "func":
                fs = [r[1]]
            elif r is not None and r[0] == "class":
                x = r[1].find("__init__")
                fs = [x] if x else []
            elif isinstance(n.func, ast.Attribute):
                if cls is not None and isinstance(n.func.value, ast.Name) and n.func.value.id in ("self", "cls"):
                    cand = [cls] + [c for m in prog.modules.values() for c in m.classes.values() if cls in c.mro()]
                    fs = {c.find(n.func.attr) for c in cand} - {None}
                else:
                    fs = {c.methods[n.func.attr] for m in prog.modules.values() for c in m.classes.values()
                          if n.func.attr in c.methods}
                    if len(fs) > 3:
                        fs = set()
            for x in fs:
                out.setdefault(x, []).append((u, n))
    return out
