"""C04 options kept as given, C05 no option ignored, C06 a completed fit is complete."""
import ast
import itertools
import re
from .. import model as M
from .. import sym as Y
from .. import session as S
from . import common as K
from . import gated

NOT_ESTIMATORS = {"MDLPVectDiscretizer"}


def estimators(prog):
    for n, q in S.ESTIMATORS.items():
        if n not in NOT_ESTIMATORS:
            yield n, prog.cls(q)


def options(cls):
    f = cls.find("__init__")
    if f is None:
        return None, []
    return f, [(n, k, d) for n, k, d in f.params()[1:]]


def opaque(t):
    return t.op in ("unk", "rcall", "phi", "last", "loop", "never", "unbound", "missing", "default")


def methods(cls):
    out = {}
    for c in cls.mro():
        for n, f in c.methods.items():
            out.setdefault(n, f)
    return out


def only_from_init(prog, sites, f, seen=()):
    """Is the method only ever called while the object is being constructed?"""
    if f.name == "__init__":
        return True
    cs = [u.func for u, _ in sites.get(f, []) if u.func is not f]
    if not cs or f in seen:
        return False
    return f.name.startswith("_") and all(g is not None and only_from_init(prog, sites, g, seen + (f,)) for g in cs)


# ------------------------------------------------------------------------------------------ C04
def check_C04(prog, rep):
    rep.rule("stored-as-given", "On every path through a constructor (super().__init__ and helpers included) each option ends up in the "
             "attribute of its own name as the very object that was passed in.")
    rep.rule("no-open-signature", "Constructors take no *args or **kwargs.")
    rep.rule("not-overwritten", "No method other than the constructor and set_params rebinds an option attribute or edits the object in it.")
    rep.rule("not-frozen", "No attribute derived from an option in the constructor is read by fit or by a query instead of the option.")
    rep.rule("introspection", "get_params lists every constructor option with the attribute itself; set_params stores what it is given "
             "and refuses unknown names.")
    sites = K.call_sites(prog)
    for name, cls in estimators(prog):
        init, opts = options(cls)
        if init is None:
            rep.ok("stored-as-given", "%s has no options" % name)
            continue
        self_t = Y.mk("self", cls.qual)
        for n, k, d in opts:
            if k in ("vararg", "kwarg"):
                rep.violation("no-open-signature", init.module.rel, init.qual, n, "%s accepts options that get_params does not list" % name,
                              init.node.lineno)
        rep.ok("no-open-signature", init.where)
        names = [n for n, k, d in opts if k not in ("vararg", "kwarg")]
        Sy = Y.Sym(prog)
        rets = Sy.run(init, self_cls=cls)
        if not rets:
            raise M.AnalysisBroken("constructor of %s never returns" % name)
        derived = {}
        for st, v, node in rets:
            for n in names:
                prop = cls.find(n)
                if prop is not None and prop.is_property:
                    rep.undecided("stored-as-given", init.where, "option %s is a property" % n)
                    continue
                x = st.heap.get((self_t, n))
                if x is Y.mk("p", n):
                    rep.ok("stored-as-given", "%s.%s" % (name, n))
                elif x is None:
                    if any(e.kind == "setattr" and e.data[0] is self_t and not isinstance(e.data[1], str) for e in Sy.events) or \
                       uses_dict(init):
                        rep.undecided("stored-as-given", init.where, "options stored through a computed name")
                    else:
                        rep.violation("stored-as-given", init.module.rel, init.qual, n,
                                      "option %s of %s is not stored under its name" % (n, name), init.node.lineno)
                elif opaque(x):
                    rep.undecided("stored-as-given", init.where, "%s holds %s" % (n, Y.show(x)[:60]))
                else:
                    ev = [e for e in Sy.events if e.kind == "setattr" and e.data[0] is self_t and e.data[1] == n]
                    e = ev[-1] if ev else None
                    rep.violation("stored-as-given", (e.func if e else init).module.rel, (e.func if e else init).qual, n,
                                  "option %s of %s is stored as %s, not as given" % (n, name, Y.show(x)[:80]), e.line if e else 0,
                                  e.chain() if e else "")
            for (b, a), x in st.heap.items():
                if b is self_t and isinstance(a, str) and a not in names and isinstance(x, Y.T):
                    src = {y.a[0] for y in Y.walk(x) if y.op == "p" and y.a[0] in names}
                    if src:
                        derived.setdefault(a, set()).update(src)
        overwrites(prog, rep, sites, name, cls, names, self_t)
        frozen(prog, rep, sites, name, cls, derived)
    introspection(prog, rep)
    rep.need("stored-as-given", 20)
    rep.need("not-overwritten", 40)


def uses_dict(f):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr == "__dict__":
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("vars", "locals", "setattr"):
            return True
    return False


def overwrites(prog, rep, sites, name, cls, names, self_t):
    for mn, f in sorted(methods(cls).items()):
        if mn in ("__init__", "set_params", "__setstate__") or only_from_init(prog, sites, f) or f.is_static:
            continue
        Sy = Y.Sym(prog, only=lambda g: touches(g, names, cls))
        rets = Sy.run(f, self_cls=cls)
        for e in Sy.events:
            if e.kind == "setattr" and e.data[0] is self_t and e.data[1] in names:
                opt, v = e.data[1], e.data[2]
                if v is Y.mk("attr", self_t, opt):
                    continue
                restored = rets and all(st.heap.get((self_t, opt), Y.mk("attr", self_t, opt)) is Y.mk("attr", self_t, opt)
                                        for st, _, _ in rets)
                if restored and restores_finally(f, opt):
                    rep.undecided("not-overwritten", e.where, "%s is changed and restored" % opt)
                    continue
                rep.violation("not-overwritten", e.func.module.rel, e.func.qual, K.short(e.node),
                              "%s.%s overwrites option %s" % (name, mn, opt), e.line, e.chain())
            elif e.kind == "meth" and e.data[2] in Y.MUTATORS | {"sort_values"}:
                recv = e.data[1]
                if recv.op == "attr" and recv.a[0] is self_t and recv.a[1] in names and \
                        (e.data[2] != "sort_values" or e.data[4].get("inplace") is Y.TRUE):
                    rep.violation("not-overwritten", e.func.module.rel, e.func.qual, K.short(e.node),
                                  "%s.%s edits the object given as option %s" % (name, mn, recv.a[1]), e.line, e.chain())
            elif e.kind in ("store", "del", "delattr"):
                recv = e.data[0]
                if recv.op == "attr" and recv.a[0] is self_t and recv.a[1] in names:
                    rep.violation("not-overwritten", e.func.module.rel, e.func.qual, K.short(e.node),
                                  "%s.%s edits the object given as option %s" % (name, mn, recv.a[1]), e.line, e.chain())
                if e.kind == "delattr" and recv is self_t and e.data[1] in names:
                    rep.violation("not-overwritten", e.func.module.rel, e.func.qual, K.short(e.node), "option %s is deleted" % e.data[1], e.line)
        rep.ok("not-overwritten", "%s.%s" % (name, mn))


_touch = {}


def touches(g, names, cls):
    """Analyse a helper in place only if its text can store to an attribute named like an option (directly or below)."""
    key = (g.where, tuple(names))
    if key not in _touch:
        r = False
        for n in ast.walk(g.node):
            if isinstance(n, ast.Attribute) and n.attr in names:
                r = True
            if isinstance(n, ast.Call):
                r = r or (isinstance(n.func, ast.Name) and n.func.id in ("setattr", "vars")) or \
                    (isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("self", "cls")) or \
                    any(isinstance(a, ast.Name) and a.id == "self" for a in n.args)
        _touch[key] = r
    return _touch[key]


def restores_finally(f, opt):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Try):
            for s in n.finalbody:
                for x in ast.walk(s):
                    if isinstance(x, ast.Attribute) and x.attr == opt and isinstance(x.ctx, ast.Store):
                        return True
    return False


def frozen(prog, rep, sites, name, cls, derived):
    """derived: attribute computed from options in the constructor -> options."""
    if not derived:
        rep.ok("not-frozen", "%s derives nothing in its constructor" % name)
        return
    for mn, f in sorted(methods(cls).items()):
        if mn.startswith("_") or mn in ("set_params", "get_params"):
            continue
        Sy = Y.Sym(prog)
        Sy.run(f, self_cls=cls)
        self_t = Y.mk("self", cls.qual)
        for e in Sy.events:
            for x in Y.walk(tuple(y for y in e.data if isinstance(y, (Y.T, tuple)))):
                if x.op == "attr" and x.a[0] is self_t and x.a[1] in derived:
                    rep.violation("not-frozen", e.func.module.rel, e.func.qual, x.a[1],
                                  "reads %s, which the constructor derived from option %s: set_params has no effect on it"
                                  % (x.a[1], ", ".join(sorted(derived[x.a[1]]))), e.line)
        rep.ok("not-frozen")


def introspection(prog, rep):
    base = prog.cls("skmine.base.BaseMiner")
    classes = [base] + [c for _, c in estimators(prog)]
    done = set()
    for c in classes:
        for mn in ("get_params", "set_params", "_get_param_names"):
            f = c.find(mn)
            if f is None or f in done:
                continue
            done.add(f)
            Sy = Y.Sym(prog, opaque=("get_params", "_get_param_names"))
            Sy.run(f, self_cls=c)
            if mn == "get_params":
                get_params(rep, f, Sy, Y.mk("self", c.qual))
            elif mn == "set_params":
                set_params(rep, f, Sy, Y.mk("self", c.qual))
            else:
                names(rep, f, Sy)
    rep.need("introspection", 3)


def getattr_key(v, self_t):
    """key term k if v is getattr(self, k[, default])."""
    if v.op == "call" and v.a[0] == "builtins.getattr" and v.a[1] and v.a[1][0] is self_t and len(v.a[1]) >= 2:
        return v.a[1][1]
    return None


def get_params(rep, f, Sy, self_t):
    hit = 0
    items = []
    for e in Sy.events:
        if e.kind == "store":
            items.append((e, e.data[1], e.data[2], [c for c, p in e.conds if c.op != "iter"]))
        elif e.kind == "return" and e.data[0].op == "comp":
            t = e.data[0]
            kv = t.a[1]
            if kv.op == "tup" and len(kv.a[0]) == 2:
                items.append((e, kv.a[0][0], kv.a[0][1], [x for g in t.a[2] for x in g[2]]))
    for e, k, v, conds in items:
        ks = [getattr_key(x, self_t) for x in Y.walk(v)]
        if k not in ks:
            continue
        hit += 1
        if getattr_key(v, self_t) is not k:
            rep.violation("introspection", f.module.rel, f.qual, K.short(e.node), "the option is listed as %s, not as stored" % Y.show(v)[:60], e.line)
        elif any(any(y is v or y is k for y in Y.walk(c)) for c in conds):
            rep.violation("introspection", f.module.rel, f.qual, K.short(e.node), "options are left out of the listing depending on name or value", e.line)
        else:
            rep.ok("introspection", f.where)
    if not hit:
        rep.undecided("introspection", f.where, "form of get_params not recognised")


def set_params(rep, f, Sy, self_t):
    sets = [e for e in Sy.events if e.kind == "setattr" and e.data[0] is self_t and isinstance(e.data[1], Y.T)]
    if not sets:
        rep.undecided("introspection", f.where, "form of set_params not recognised")
        return
    raises = [e for e in Sy.events if e.kind == "raise"]
    for e in sets:
        k, v = e.data[1], e.data[2]
        if v.op in ("call", "meth", "bin", "ite", "new") and any(x.op == "p" for x in Y.walk(v)):
            rep.violation("introspection", f.module.rel, f.qual, K.short(e.node), "the value is stored as %s" % Y.show(v)[:60], e.line)
        bad = [c for c, p in e.conds if any(y is v for y in Y.walk(c))]
        if bad:
            rep.violation("introspection", f.module.rel, f.qual, K.short(e.node), "whether an option is set depends on its value: %s"
                          % Y.show(bad[0])[:60], e.line)
        elif not raises:
            rep.violation("introspection", f.module.rel, f.qual, "unknown names", "unknown parameter names are not refused", f.node.lineno)
        else:
            rep.ok("introspection", f.where)
    for e in raises:
        for c, p in e.conds:
            for x in Y.walk(c):
                if x.op == "call" and x.a[0] in ("builtins.hasattr", "builtins.dir", "builtins.vars") and self_t in Y.walk(x):
                    rep.violation("introspection", f.module.rel, f.qual, K.short(e.node), "names that are no options are refused only if "
                                  "%s%s" % ("" if p else "not ", Y.show(c)[:60]), e.line)
    for e in Sy.events:
        if e.kind == "return" and e.func is f and e.data[0] is not self_t:
            if Y.is_const(e.data[0]):
                rep.violation("introspection", f.module.rel, f.qual, "return", "set_params gives back %s instead of the estimator"
                              % Y.show(e.data[0]), e.line)
            else:
                rep.undecided("introspection", f.where, "returns %s" % Y.show(e.data[0])[:60])


def names(rep, f, Sy):
    atoms = []
    from .rand import atoms_of
    for e in Sy.events:
        for x in Y.walk(tuple(y for y in e.data if isinstance(y, (Y.T, tuple)))):
            if x.op == "comp":
                for g in x.a[2]:
                    for c in g[2]:
                        atoms.extend(atoms_of(c))
            if x.op == "attr" and x.a[1] in ("default", "annotation"):
                rep.violation("introspection", f.module.rel, f.qual, x.a[1], "options are listed depending on their default", e.line)
    for a in atoms:
        t = Y.show(a)
        if "KEYWORD_ONLY" in t or "POSITIONAL_OR_KEYWORD" in t or "POSITIONAL_ONLY" in t or "startswith" in t or "endswith" in t:
            rep.violation("introspection", f.module.rel, f.qual, t[:60], "options of some kind are left out of the listing: %s" % t[:80], f.node.lineno)
    rep.ok("introspection", f.where)


# ------------------------------------------------------------------------------------------ C05
EXEMPT_DOC = re.compile(r"ignored|not used|unused|does not influence|compatib|for api|by convention|kept for", re.I)
NEUTRAL_OPT = {"n_jobs", "verbose", "random_state"}
CHECKERS = {"builtins.isinstance", "builtins.type", "builtins.hasattr", "builtins.callable", "builtins.print", "builtins.repr",
            "builtins.str", "builtins.issubclass", "builtins.id", "builtins.bool", "warnings.warn"}


def doc_exempt(f, pname):
    d = ast.get_docstring(f.node) or ""
    lines = d.split("\n")
    for i, l in enumerate(lines):
        m = re.match(r"^(\s*)[\w, ]*\b%s\b[\w, ]*\s*(:|$)" % re.escape(pname), l)
        if m:
            ind = len(m.group(1))
            txt = [l]
            for x in lines[i + 1:]:
                if x.strip() and len(x) - len(x.lstrip()) <= ind:
                    break
                txt.append(x)
            if EXEMPT_DOC.search(" ".join(txt)):
                return True
    return False


def check_C05(prog, rep):
    rep.rule("takes-effect", "Every option of a constructor and every parameter of a public operation reaches (through helpers and state) "
             "a branch other than an argument check, a library call, stored state or the result.")
    rep.rule("forwarded", "An estimator built inside another estimator gets every option the two share from the outer one.")
    rep.rule("same-on-all-branches", "Where an option is passed to a helper in one branch, no other call of that helper in the same "
             "operation falls back to the helper's default.")
    rep.rule("every-pool", "In a class with an n_jobs option, every pool of workers is opened with that option.")
    rep.rule("open-parameters", "What a public operation takes as *args or **kwargs is read; where it overrides an operation, every "
             "option of the overridden operation is handed on to it or read.")
    rep.rule("composed", "An operation that fits and then queries (fit_discover, fit_transform, fit_predict) hands the data, the labels "
             "(unless there are none) and its further options to the fit and the query it is made of.")
    rep.rule("selected", "A table is not compared with another table's rows through isin, which goes by row label: a selection made "
             "by an option has other labels than the whole.")
    rep.rule("not-switched-off", "No option of an operation or constructor is without any effect for a setting of another option, or "
             "for a state of a flag of the estimator.")
    rep.rule("copied", "A copy of an estimator is an estimator of the same class built with every option of the original.")
    Sm = Summaries(prog)
    for name, cls in estimators(prog):
        self_t = Y.mk("self", cls.qual)
        init, opts = options(cls)
        onames = [o[0] for o in opts if o[1] not in ("vararg", "kwarg")]
        L = S.Life(prog, name)
        pub = [m for m in L.public() if not S.is_abstract(cls.find(m)) and m not in S.PROTOCOL | {"set_params"}]
        ms = methods(cls)
        used = set()
        for mn, f in sorted(ms.items()):
            if mn in ("__init__", "set_params", "get_params", "__copy__", "__repr__", "__str__") or S.is_abstract(f):
                continue
            s = Sm.of(f, cls)
            for c in cls.mro():
                if mn in c.methods and (c.methods[mn] is f or via_super(cls, mn)):
                    used |= {a[1] for a in Sm.of(c.methods[mn], cls).eff if a[0] == "attr"}
            if (mn not in pub and mn != "__copy__") or f.is_static or (name, mn) in S.HELPERS:
                continue
            open_params(rep, prog, cls, f, "%s.%s" % (name, mn))
            for p, k, d in f.params():
                if k not in ("pos", "kwonly") or p in ("self", "cls"):
                    continue
                judge(rep, f, p, d, ("p", p) in s.eff or any(Sm.attr_read(cls, a, p) for a in s.stored.get(("p", p), ())), "%s.%s" % (name, mn))
            forwarded(rep, name, cls, onames, self_t, mn, s.sym)
        for mn, f in sorted(ms.items()):
            if mn not in pub and not S.is_abstract(f) and mn not in ("__init__", "set_params", "get_params", "__copy__"):
                forwarded(rep, name, cls, onames, self_t, mn, Sm.of(f, cls).sym)
            branches(rep, f, Sm.of(f, cls).sym)
            handed(rep, name, cls, onames, self_t, f, Sm.of(f, cls).sym)
            if "n_jobs" in onames:
                pools(rep, name, Sm.of(f, cls).sym, self_t)
        kept = Sm.of(init, cls) if init is not None else None
        for o in onames:
            if o in used and kept is not None and ("p", o) not in kept.eff and not kept.stored.get(("p", o)) and not doc_exempt_cls(cls, init, o):
                rep.violation("takes-effect", init.module.rel, init.qual, o, "option %s of %s is dropped by the constructor" % (o, name), init.node.lineno)
            elif o in used and ranges(rep, [f for c in cls.mro() for f in c.methods.values()], o, True):
                pass
            elif o in used:
                rep.ok("takes-effect", "%s(%s=...)" % (name, o))
            elif doc_exempt_cls(cls, init, o):
                rep.ok("takes-effect", n=0)
            else:
                rep.violation("takes-effect", init.module.rel, init.qual, o, "option %s of %s is never used" % (o, name), init.node.lineno)
        copied(prog, rep, name, cls, onames, self_t)
    composed(prog, rep)
    selected(prog, rep)
    gated.check(prog, rep, estimators(prog), options, lambda name, cls: [
        m for m in S.Life(prog, name).public() if not S.is_abstract(cls.find(m)) and m not in S.PROTOCOL | {"set_params"}])
    for f in K.public_functions(prog):
        s = Sm.of(f, None)
        for p, k, d in f.params():
            if k in ("pos", "kwonly") and p not in ("_", "args", "kwargs"):
                if not ranges(rep, [f], p, False):
                    judge(rep, f, p, d, ("p", p) in s.eff, f.qual)
    for m in prog.modules.values():
        for f in m.functions:
            if f.cls is None and f.parent is None:
                branches(rep, f, Sm.of(f, None).sym)
    rep.need("takes-effect", 70)
    rep.need("forwarded", 3)
    rep.need("copied", 2)


def ranges(rep, fs, o, on_self):
    """Is every use of a numeric option behind a test that shuts out a whole range of its values?"""
    def is_opt(n):
        if on_self:
            return isinstance(n, ast.Attribute) and n.attr == o and isinstance(n.value, ast.Name) and n.value.id == "self"
        return isinstance(n, ast.Name) and n.id == o

    def gate(t, pol):
        """the test when it lets through only values beyond a constant above 1"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return gate(t.operand, not pol)
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And) == pol:
                return next((g for g in (gate(v, pol) for v in t.values) if g is not None), None)
            return None
        if not isinstance(t, ast.Compare) or len(t.ops) != 1:
            return None
        a, b, op = t.left, t.comparators[0], type(t.ops[0])
        if is_opt(b):
            a, b, op = b, a, {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}.get(op)
        if not pol:
            op = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt}.get(op)
        if not is_opt(a) or not isinstance(b, ast.Constant) or type(b.value) not in (int, float) or op is None:
            return None
        if op is ast.Gt and b.value >= 2 or op is ast.GtE and b.value >= 3 or op in (ast.Lt, ast.LtE) and b.value >= 2:
            return t
        return None
    def size(t, pol):
        """the test when it lets through only data beyond a size that the program made up"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return size(t.operand, not pol)
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And) == pol:
                return next((g for g in (size(v, pol) for v in t.values) if g is not None), None)
            return None
        if not isinstance(t, ast.Compare) or len(t.ops) != 1 or not isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            return None
        for a, b in ((t.left, t.comparators[0]), (t.comparators[0], t.left)):
            if isinstance(b, ast.Constant) and type(b.value) in (int, float) and b.value > 3 and (
                    isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "len" or
                    isinstance(a, ast.Subscript) and isinstance(a.value, ast.Attribute) and a.value.attr == "shape" or
                    isinstance(a, ast.Attribute) and a.attr in ("size", "n_transactions_", "n_features_in_")):
                return t
        return None
    for f in fs:
        t = loosened(f, o, is_opt)
        if t is not None:
            rep.violation("takes-effect", f.module.rel, f.qual, K.short(t), "the bound %s gives way to a value of the data: %s" % (o, K.short(t)), t.lineno)
            return True
    uses = []
    for f in fs:
        if on_self and f.name in ("__init__", "get_params", "set_params", "__copy__", "__repr__", "__str__"):
            continue
        par = K.parents(f.node)
        for n in ast.walk(f.node):
            if not is_opt(n) or not isinstance(n.ctx, ast.Load):
                continue
            x, found, test = n, None, False
            while x in par and x is not f.node:
                q = par[x]
                if isinstance(q, ast.Compare) and (gate(q, True) or gate(q, False)):
                    test = True
                if isinstance(q, (ast.If, ast.While, ast.IfExp)) and x is not q.test:
                    body = q.body if isinstance(q.body, list) else [q.body]
                    found = found or gate(q.test, x in body) or size(q.test, x in body)
                elif isinstance(q, ast.BoolOp):
                    for v in q.values[:q.values.index(x)]:
                        found = found or gate(v, isinstance(q.op, ast.And))
                    if isinstance(q.op, ast.And):
                        found = found or next((g for g in (size(v, True) for v in q.values if v is not x) if g is not None), None)
                x = q
            if not test:
                uses.append((f, n, found))
    if on_self and o != "n_jobs":
        for f, n, _ in uses:
            t = replaced(f, n, o, K.parents(f.node))
            if t is not None:
                rep.violation("takes-effect", f.module.rel, f.qual, K.short(t), "option %s is replaced by something else unless %s" % (o, K.short(t)), n.lineno)
                return True
    if uses and all(g is not None for _, _, g in uses):
        f, n, g = uses[0]
        rep.violation("takes-effect", f.module.rel, f.qual, K.short(g), "option %s has no effect for the values or data that %s shuts out" % (o, K.short(g)), g.lineno)
        return True
    return False


def loosened(f, o, is_opt):
    """min(lower bound of the caller, something of the data), or max of an upper bound."""
    fn = "min" if re.match("min(_|$|imum|imal)", o) else "max" if re.match("max(_|$|imum|imal)", o) else None
    if fn is None:
        return None
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and K.src(n.func) in (fn, "np.%simum" % fn) and len(n.args) > 1 and not n.keywords:
            opt = [a for a in n.args if is_opt(a) or isinstance(a, ast.BoolOp) and isinstance(a.op, ast.Or) and is_opt(a.values[0])]
            for a in n.args:
                if opt and a not in opt and any(isinstance(x, ast.Call) and K.src(x.func) in ("len", "min", "max", "sum") for x in ast.walk(a)) and \
                        not any(is_opt(x) for x in ast.walk(a)):
                    return n
    return None


def replaced(f, n, o, par):
    """The test of a choice between an option and a value that knows nothing of any option, made by the data alone."""
    q = par.get(n)
    if not isinstance(q, ast.IfExp) or n is q.test or n not in (q.body, q.orelse):
        return None
    other = q.orelse if n is q.body else q.body
    names = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs}
    derived = names | {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    for part in (q.test, other):
        for x in ast.walk(part):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in ("self", "cls"):
                return None
    if isinstance(other, ast.Constant) and other.value is None:
        return None
    loads = {x.id for x in ast.walk(q.test) if isinstance(x, ast.Name)}
    data = {x.id for x in ast.walk(other) if isinstance(x, ast.Name)}
    if not (loads & derived) or any(isinstance(x, ast.Constant) and x.value is None for x in ast.walk(q.test)):
        return None
    # an argument of the operation may take the place of the option of the constructor; data may not
    if isinstance(other, ast.Name) or not data & derived and not isinstance(other, ast.Constant):
        return None
    return q.test


def frame_expr(e, f, cls, depth=0):
    """Is the expression a data frame for sure (by its constructor, or the constructor of what a method of the class returns)?"""
    if depth > 6:
        return False
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Attribute):
            if e.func.attr == "DataFrame":
                return True
            if isinstance(e.func.value, ast.Name) and e.func.value.id == "self" and cls is not None:
                g = cls.find(e.func.attr)
                if g is None or g is f:
                    return False
                rets = [n.value for n in ast.walk(g.node) if isinstance(n, ast.Return)]
                return bool(rets) and all(r is not None and frame_expr(r, g, cls, depth + 1) for r in rets)
            if e.func.attr in ("sort_values", "drop_duplicates", "reset_index", "copy", "dropna", "astype", "merge"):
                return frame_expr(e.func.value, f, cls, depth + 1)
        return False
    if isinstance(e, ast.Name):
        vals = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Assign) and any(
            isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
        vals = [v for v in vals if not (isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id == e.id)]
        return bool(vals) and all(frame_expr(v, f, cls, depth + 1) for v in vals)
    return False


def selected(prog, rep):
    for m in prog.modules.values():
        for f in m.functions:
            for n in ast.walk(f.node):
                if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "isin" and len(n.args) == 1):
                    continue
                if frame_expr(n.func.value, f, f.cls) and frame_expr(n.args[0], f, f.cls):
                    rep.violation("selected", f.module.rel, f.qual, K.short(n), "the rows of two tables are compared by their labels, which a "
                                  "selection of patterns or rows does not share with the whole", n.lineno)
                else:
                    rep.ok("selected", "%s: %s" % (f.where, K.short(n, 40)))


def composed(prog, rep):
    for m in prog.modules.values():
        for cls in m.classes.values():
            for mn, f in cls.methods.items():
                if not mn.startswith("fit_") or S.is_abstract(f):
                    continue
                query = mn[4:]
                Sy = Y.Sym(prog, opaque=("fit", query))
                Sy.run(f, self_cls=cls)
                ps = f.params()[1:]
                first = [Y.mk("p", p) for p, k, d in ps if k == "pos"]
                kws = [Y.mk("p", p) for p, k, d in ps if k == "kwarg"]
                calls = {"fit": [], query: []}
                for e in Sy.events:
                    if e.kind == "meth" and e.data[2] in calls:
                        calls[e.data[2]].append((e, list(e.data[3]) + list(e.data[4].values())))
                    elif e.kind == "rcall" and e.data[1].name in calls:
                        calls[e.data[1].name].append((e, list(e.data[2].values())))
                if not calls["fit"] or not calls[query]:
                    continue      # goes to another class's operation of this name

                def given(args, t):
                    return any(x is t for x in Y.walk(tuple(args)))
                for e, args in calls["fit"]:
                    if first and not given(args, first[0]):
                        rep.violation("composed", f.module.rel, f.qual, K.short(e.node), "the data is not handed to fit", e.line)
                    if len(first) > 1 and not given(args, first[1]) and not doc_exempt(f, first[1].a[0]):
                        none = any(p and c.op == "cmp" and c.a[0] in ("is", "==") and first[1] in c.a and Y.NONE in c.a or
                                   not p and c.op == "cmp" and c.a[0] in ("is not", "!=") and first[1] in c.a and Y.NONE in c.a
                                   for c, p in e.conds)
                        if not none:
                            rep.violation("composed", f.module.rel, f.qual, K.short(e.node), "%s is not handed to fit" % first[1].a[0], e.line)
                            continue
                    rep.ok("composed", "%s: fit" % f.where)
                for e, args in calls[query]:
                    lost = [k for k in kws if not given(args, k) and not any(given(a, k) for _, a in calls["fit"])]
                    if lost:
                        rep.violation("composed", f.module.rel, f.qual, K.short(e.node), "%s is not handed to %s" % (lost[0].a[0], query), e.line)
                    else:
                        rep.ok("composed", "%s: %s" % (f.where, query))


def pools(rep, name, Sy, self_t):
    for e in Sy.events:
        if e.kind != "call" or not isinstance(e.data[1], str) or e.data[1].split(".")[-1] not in (
                "Parallel", "ProcessPoolExecutor", "ThreadPoolExecutor", "Pool"):
            continue
        v = e.data[3].get("n_jobs", e.data[3].get("max_workers", e.data[3].get("processes")))
        if v is None and e.data[2]:
            v = e.data[2][0]
        if any(k.startswith("**") for k in e.data[3]):
            rep.undecided("every-pool", e.where, "options unpacked")
        elif v is not None and opt_of(v, self_t, "n_jobs"):
            rep.ok("every-pool", e.where)
        elif v is None or Y.is_const(v):
            rep.violation("every-pool", e.func.module.rel, e.func.qual, K.short(e.node),
                          "%s opens workers with n_jobs=%s instead of its own option" % (name, Y.show(v) if v is not None else "default"),
                          e.line)
        else:
            rep.undecided("every-pool", e.where, Y.show(v)[:60])


def open_params(rep, prog, cls, f, what):
    ps = f.params()
    va = [p for p, k, d in ps if k == "vararg"]
    kw = [p for p, k, d in ps if k == "kwarg"]
    loads = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
    for p in va + kw:
        if p in loads or p.startswith("_"):
            rep.ok("open-parameters", "%s(*%s)" % (what, p))
        elif not delegates(cls, f) or p in kw:
            rep.undecided("open-parameters", f.where, "%s is never read" % p)
        else:
            rep.violation("open-parameters", f.module.rel, f.qual, p, "%s ignores what it is given in *%s" % (what, p), f.node.lineno)
    g = over(cls, f)
    if g is None or not kw or not loads & set(kw) or not delegates(cls, f):
        return
    strs = {n.value for n in ast.walk(f.node) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
    own = {p for p, k, d in ps}
    whole = False
    for n in ast.walk(f.node):
        if isinstance(n, ast.keyword) and n.arg is None and any(isinstance(x, ast.Name) and x.id in kw for x in ast.walk(n.value)):
            whole = True
        if isinstance(n, (ast.Assign, ast.Return)) and isinstance(n.value, ast.Name) and n.value.id in kw:
            whole = True
        if isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id in kw for a in n.args):
            whole = True
    for q, k, d in g.params():
        if k not in ("pos", "kwonly") or d is None or q in own:
            continue
        if whole or q in strs:
            rep.ok("open-parameters", "%s(%s)" % (what, q))
        else:
            rep.violation("open-parameters", f.module.rel, f.qual, q,
                          "%s takes the option %s of the operation it overrides but never hands it on" % (what, q), f.node.lineno)


def delegates(cls, f):
    """Does the operation call the one it overrides?"""
    g = over(cls, f)
    for n in ast.walk(f.node):
        if g is not None and isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == f.name:
            v = n.func.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" or \
                    isinstance(v, ast.Name) and v.id in [b.name for b in cls.mro()]:
                return True
    return False


def over(cls, f):
    seen = False
    for c in cls.mro():
        if f.name in c.methods:
            if seen:
                return c.methods[f.name] if not S.is_abstract(c.methods[f.name]) else None
            seen = c.methods[f.name] is f
    return None


def via_super(cls, mn):
    """Does some class of the hierarchy call the overridden method of this name?"""
    for c in cls.mro():
        for f in c.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == mn:
                    v = n.func.value
                    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
                        return True
                    if isinstance(v, ast.Name) and v.id in [b.name for b in cls.mro()]:
                        return True
    return False


def documented(f, p, d):
    """Is it a parameter a caller may expect to matter? `y=None` by itself is the scikit-learn signature."""
    doc = ast.get_docstring(f.node) or ""
    if re.search(r"(?m)^\s*[\w, ]*\b%s\b[\w, ]*\s*(:|$)" % re.escape(p), doc) is not None:
        return True
    return d is not None and p != "y"


def doc_exempt_cls(cls, init, o):
    if doc_exempt(init, o):
        return True
    d = ast.get_docstring(cls.node) or ""
    m = re.search(r"(?ms)^\s*%s\s*:.*?(?=^\s*\w+\s*:|\Z)" % re.escape(o), d)
    return bool(m and EXEMPT_DOC.search(m.group(0)))


def raise_only(stmts):
    return bool(stmts) and isinstance(stmts[-1], ast.Raise) and \
        all(isinstance(s, (ast.Raise, ast.Expr, ast.Assign)) for s in stmts)


def validation(node):
    if isinstance(node, ast.If):
        return raise_only(node.body) and not node.orelse or bool(node.orelse) and raise_only(node.orelse)
    return False


def idle(node):
    """A choice between twice the same."""
    if not isinstance(node, (ast.If, ast.IfExp)):
        return False
    b, o = (x if isinstance(x, list) else [x] for x in (node.body, node.orelse))
    return [ast.dump(x) for x in b] == [ast.dump(x) for x in o]


def telling(fn):
    """The nodes of a function, without the tests of choices between twice the same."""
    st = [fn]
    while st:
        n = st.pop()
        yield n
        st.extend(c for c in ast.iter_child_nodes(n) if not (idle(n) and c is n.test))


def vacuous(prog, cls, node):
    """A test whether an option is among the values outside which the constructor refuses it: always true."""
    t = getattr(node, "test", None)
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t = t.operand
    if cls is None or not isinstance(t, ast.Compare) or len(t.ops) != 1 or not isinstance(t.ops[0], (ast.In, ast.NotIn)):
        return False
    a = t.left
    if not (isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == "self"):
        return False
    init = cls.find("__init__")
    for n in ast.walk(init.node) if init is not None else ():
        if validation(n) and isinstance(n.test, ast.Compare) and len(n.test.ops) == 1 and isinstance(n.test.ops[0], ast.NotIn) \
                and ast.dump(n.test.comparators[0]) == ast.dump(t.comparators[0]):
            l = n.test.left
            if (l.attr if isinstance(l, ast.Attribute) else getattr(l, "id", None)) == a.attr:
                return True
    return False


def overridden(rep, f, p, d):
    """A parameter that is true, false or left out: what takes the place of "left out" must not take that of "false"."""
    if not (isinstance(d, ast.Constant) and d.value is None) or not re.search(r"\bbool", S.doc_types(f).get(p, "")):
        return
    def is_p(n):
        return isinstance(n, ast.Name) and n.id == p
    for n in K.own_nodes(f.node):
        bad = None
        if isinstance(n, ast.If) and isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) and is_p(n.test.operand) and not n.orelse:
            bad = next((s for s in n.body if isinstance(s, ast.Assign) and any(is_p(t) for t in s.targets)), None)
        elif isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or) and is_p(n.values[0]):
            bad = n
        elif isinstance(n, ast.IfExp) and is_p(n.test) and is_p(n.body):
            bad = n
        elif isinstance(n, ast.IfExp) and isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) and is_p(n.test.operand) and is_p(n.orelse):
            bad = n
        v = bad.value if isinstance(bad, ast.Assign) else bad.values[-1] if isinstance(bad, ast.BoolOp) else \
            (bad.orelse if is_p(bad.body) else bad.body) if isinstance(bad, ast.IfExp) else None
        if bad is not None and not (isinstance(v, ast.Constant) and not v.value):
            rep.violation("takes-effect", f.module.rel, f.qual, K.short(bad), "%s=False given to %s is replaced as if it had been left out"
                          % (p, f.qual), bad.lineno)
            return


def judge(rep, f, p, d, live, what):
    overridden(rep, f, p, d)
    if live:
        rep.ok("takes-effect", "%s(%s)" % (what, p))
    elif doc_exempt(f, p):
        rep.ok("takes-effect", n=0)
    elif documented(f, p, d):
        rep.violation("takes-effect", f.module.rel, f.qual, p, "parameter %s of %s has no effect" % (p, what), f.node.lineno)
    else:
        rep.undecided("takes-effect", f.where, "parameter %s has no effect and is not documented" % p)


class Summary:
    def __init__(self):
        self.eff, self.edges, self.stored, self.sym = set(), [], {}, None


class Summaries:
    """Per function: which parameters and attributes of self take effect, directly or through callees (fixpoint)."""

    def __init__(self, prog):
        self.prog, self.tab, self.reads = prog, {}, {}

    def of(self, f, cls):
        key = (f, cls)
        if key not in self.tab:
            s = self.tab[key] = Summary()
            self.fill(f, cls, s)
            self.solve()
        return self.tab[key]

    def attr_read(self, cls, a, p=None):
        if a.endswith("_") and a.strip("_") != p:
            return True            # learned state, part of the public interface (a mere copy of the option is not)
        return self.loads(cls, a)

    def loads(self, cls, a):
        key = (cls, a)
        if key not in self.reads:
            self.reads[key] = any(isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.ctx, ast.Load) or
                                  isinstance(n, ast.Constant) and n.value == a
                                  for c in cls.mro() for mn, f in c.methods.items() if mn != "__init__"
                                  for n in telling(f.node))
        return self.reads[key]

    def solve(self):
        while True:
            new = False
            for s in list(self.tab.values()):
                for atom, key, q in s.edges:
                    if atom in s.eff:
                        continue
                    t = self.tab.get(key)
                    if t is None:
                        continue
                    if ("p", q) in t.eff or any(key[1] is None or self.attr_read(key[1], a, q) for a in t.stored.get(("p", q), ())):
                        s.eff.add(atom)
                        new = True
            if not new:
                return

    def fill(self, f, cls, s):
        own = cls if cls is not None else f.cls
        Sy = s.sym = Y.Sym(self.prog, inline=False)
        Sy.run(f, self_cls=own)
        self_t = Y.mk("self", own.qual) if own is not None else None
        memo = {}
        todo = []
        said = {e.data[0] for e in Sy.events if e.kind == "test" and (idle(e.node) or vacuous(self.prog, own, e.node))}

        def atom(x):
            if x.op == "p":
                return ("p", x.a[0])
            if x.op == "attr" and x.a[0] is self_t:
                return ("attr", x.a[1])
            return None

        def hits(t):
            if not isinstance(t, (Y.T, tuple)):
                return ()
            if t not in memo:
                memo[t] = frozenset(a for a in map(atom, Y.walk(t, Sy)) if a)
            return memo[t]

        def inside(t):
            """Atoms that reach a term other than through the arguments of calls of repository functions."""
            out, st, seen = set(), [t], set()
            while st:
                x = st.pop()
                if isinstance(x, tuple):
                    st.extend(x)
                    continue
                if not isinstance(x, Y.T) or x in seen or x in said:
                    continue
                seen.add(x)
                a = atom(x)
                if a:
                    out.add(a)
                if x.op == "rcall":
                    continue
                if x.op == "call" and isinstance(x.a[0], str) and (x.a[0] in CHECKERS and x.a[0] != "builtins.str" or is_exc(x.a[0])):
                    continue
                st.extend(x.a)
                if x.op == "loop":
                    init, back = Sy.loops.get((x.a[0], x.a[1]), (None, ()))
                    st.extend([y for y in (init,) + tuple(back) if y is not None])
            return out
        for e in Sy.events:
            k, d = e.kind, e.data
            if k == "test":
                if not validation(e.node) and not idle(e.node) and not vacuous(self.prog, own, e.node):
                    s.eff |= set(hits(d[0]))
            elif k in ("for", "comp", "with", "return", "yield", "yieldfrom", "aug"):
                for x in d:
                    if isinstance(x, (Y.T, tuple)):
                        s.eff |= inside(x)
                if k == "comp":
                    s.eff |= set(hits(tuple(x for x in d if isinstance(x, (Y.T, tuple)))))
            elif k == "call":
                nm = d[1]
                if isinstance(nm, str) and (nm in CHECKERS or is_exc(nm)):
                    continue
                for x in list(d[2]) + list(d[3].values()):
                    s.eff |= inside(x)
                if not isinstance(nm, str):
                    s.eff |= set(hits(nm))
            elif k == "meth":
                if d[2] in ("debug", "info", "warning"):
                    continue
                for x in [d[1]] + list(d[3]) + list(d[4].values()):
                    s.eff |= inside(x)
            elif k == "rcall":
                g, env = d[1], d[2]
                if env is None:
                    s.eff |= set(hits(d[0]))
                    continue
                gc = g.cls
                if gc is not None and env:
                    first = next(iter(env.values()))
                    if first is self_t:
                        gc = own
                        first = None
                todo.append((g, gc))
                for q, v in env.items():
                    if v is self_t:
                        continue
                    for a in hits(v):
                        s.edges.append((a, (g, gc), q))
            elif k == "new":
                for x in list(d[2]) + list(d[3].values()):
                    s.eff |= inside(x)
            elif k == "store":
                s.eff |= inside(d[1]) | inside(d[2])
            elif k == "setattr":
                for x in inside(d[2]):
                    if d[0] is self_t and isinstance(d[1], str):
                        s.stored.setdefault(x, set()).add(d[1])
                    else:
                        s.eff.add(x)
        for g, gc in todo:
            if (g, gc) not in self.tab:
                t = self.tab[(g, gc)] = Summary()
                self.fill(g, gc, t)


def is_exc(nm):
    return nm.startswith("builtins.") and nm[9:].endswith(("Error", "Exception", "Warning"))


def forwarded(rep, name, cls, onames, self_t, mn, Sy):
    est = {c: n for n, c in estimators(rep_prog(Sy))}
    for e in Sy.events:
        if e.kind != "new" or e.data[1] not in est:
            continue
        t, c, args, kw = e.data
        init, opts = options(c)
        shared = [o[0] for o in opts if o[0] in onames and o[0] not in NEUTRAL_OPT]
        if not shared or mn == "__copy__":
            continue
        bound = dict(zip([o[0] for o in opts if o[1] == "pos"], args))
        bound.update(kw)
        if any(k.startswith("**") for k in kw) or any(a.op == "star" for a in args):
            rep.undecided("forwarded", e.where, "arguments of %s unpacked" % c.name)
            continue
        later = {x.data[1]: x.data[2] for x in Sy.events if x.kind == "setattr" and x.data[0] is t and isinstance(x.data[1], str)}
        sp = [x for x in Sy.events if x.kind == "meth" and x.data[1] is t and x.data[2] == "set_params"]
        for x in sp:
            later.update(x.data[4])
        for o in shared:
            v = later.get(o) if o in later and opt_of(later[o], self_t, o) else bound.get(o)
            if v is None:
                rep.violation("forwarded", e.func.module.rel, e.func.qual, "%s(%s)" % (c.name, o),
                              "%s builds a %s without its own option %s" % (name, c.name, o), e.line, e.chain())
            elif opt_of(v, self_t, o):
                rep.ok("forwarded", "%s -> %s(%s)" % (name, c.name, o))
            elif Y.is_const(v) or any(x.op == "attr" and x.a[0] is self_t and x.a[1] in onames for x in Y.walk(v)):
                rep.violation("forwarded", e.func.module.rel, e.func.qual, "%s(%s)" % (c.name, o),
                              "%s builds a %s with %s=%s instead of its own option" % (name, c.name, o, Y.show(v)[:40]), e.line, e.chain())
            else:
                rep.undecided("forwarded", e.where, "%s=%s" % (o, Y.show(v)[:60]))


def handed(rep, name, cls, onames, self_t, f, Sy):
    """A helper that takes the option under its own name gets something fixed in an operation that never reads the option."""
    if f.cls is not cls or f.name in ("__init__", "__copy__", "set_params", "get_params"):
        return
    for e in Sy.events:
        if e.kind != "rcall" or e.func is not f or e.data[1].cls is not None:
            continue
        for o in onames:
            v = e.data[2].get(o)
            if v is None or v.op == "default" or o in NEUTRAL_OPT:
                continue
            if any(isinstance(n, ast.Attribute) and n.attr.strip("_") == o for n in ast.walk(f.node)) or \
                    any(isinstance(n, ast.Constant) and n.value == o for n in ast.walk(f.node)) or o in [p[0] for p in f.params()]:
                continue
            if Y.is_const(v) or v.op in ("set", "list", "tup", "dict") and not v.a[0] or \
                    v.op == "call" and v.a[0] in ("builtins.set", "builtins.list", "builtins.dict", "builtins.frozenset", "builtins.tuple") and not v.a[1]:
                rep.violation("forwarded", e.func.module.rel, e.func.qual, "%s(%s)" % (e.data[1].name, o),
                              "%s calls %s with %s=%s instead of its own option" % (name, e.data[1].name, o, Y.show(v)[:40]), e.line, e.chain())
            else:
                rep.ok("forwarded", "%s -> %s(%s)" % (name, e.data[1].name, o))


def rep_prog(Sy):
    return Sy.prog


def opt_of(v, self_t, o):
    return any(x.op == "attr" and x.a[0] is self_t and (x.a[1] == o or x.a[1] == o + "_" or x.a[1].strip("_") == o) for x in Y.walk(v))


def branches(rep, f, Sy):
    """Calls of one helper in one function, in exclusive branches, that differ in whether a parameter is handed on."""
    calls = {}
    for e in Sy.events:
        if e.kind == "rcall" and e.data[2] is not None and isinstance(e.node, ast.Call):
            calls.setdefault(e.data[1], []).append((e, e.data[2]))
    for g, cs in calls.items():
        if len({id(e.node) for e, _ in cs}) < 2:
            continue
        for q, k, d in g.params():
            if d is None or k not in ("pos", "kwonly"):
                continue
            given = [(e, env[q]) for e, env in cs if explicitly(e.node, g, q) and q in env]
            for e, v in given:
                if not (v.op == "p" or v.op == "attr" and v.a[0].op == "self"):
                    continue
                for e2, env2 in cs:
                    if e2.node is e.node or explicitly(e2.node, g, q):
                        continue
                    x = exclusive(e2, e)
                    if not x:
                        continue
                    if any(y is v for c in x for y in Y.walk(c)):
                        continue       # the branch is chosen by this very value
                    rep.violation("same-on-all-branches", e2.func.module.rel, e2.func.qual, K.short(e2.node),
                                  "%s is handed to %s in one branch but not here" % (Y.show(v), g.name), e2.line)
                rep.ok("same-on-all-branches", "%s: %s(%s)" % (e.where, g.name, q))


def exclusive(a, b):
    ca = {c: p for c, p in a.conds}
    return [c for c, p in b.conds if c in ca and ca[c] != p]


def explicitly(call, g, q):
    if not isinstance(call, ast.Call):
        return True
    if any(k.arg is None for k in call.keywords) or any(isinstance(a, ast.Starred) for a in call.args):
        return True
    if any(k.arg == q for k in call.keywords):
        return True
    pos = [p[0] for p in g.params() if p[1] == "pos"]
    off = 1 if g.cls is not None and not g.is_static else 0
    i = pos.index(q) - off if q in pos else 99
    return i < len(call.args)


def copied(prog, rep, name, cls, onames, self_t):
    for mn in ("__copy__", "copy", "__deepcopy__"):
        f = cls.find(mn)
        if f is None:
            continue
        Sy = Y.Sym(prog)
        rets = Sy.run(f, self_cls=cls)
        for st, v, node in rets:
            if v.op == "new":
                if v.a[0] is not cls:
                    rep.violation("copied", f.module.rel, f.qual, "%s for %s" % (v.a[0].name, name),
                                  "copying a %s gives a %s" % (name, v.a[0].name), K.line(node))
                    continue
                kw = dict(v.a[2])
                if any(k.startswith("**") for k in kw):
                    rep.ok("copied", "%s.%s unpacks its parameters" % (name, mn))
                    continue
                bound = dict(zip([o[0] for o in options(cls)[1] if o[1] == "pos"], v.a[1]))
                bound.update(kw)
                for (b, a), x in st.heap.items():
                    if b is v and isinstance(a, str) and opt_of(x, self_t, a):
                        bound[a] = x
                for o in onames:
                    x = bound.get(o)
                    if x is None:
                        rep.violation("copied", f.module.rel, f.qual, "%s.%s" % (name, o), "the copy loses option %s" % o, K.line(node))
                    elif opt_of(x, self_t, o):
                        rep.ok("copied", "%s.%s(%s)" % (name, mn, o))
                    elif opaque(x):
                        rep.undecided("copied", f.where, "%s=%s" % (o, Y.show(x)[:40]))
                    else:
                        rep.violation("copied", f.module.rel, f.qual, "%s.%s" % (name, o), "the copy gets %s=%s" % (o, Y.show(x)[:40]), K.line(node))
            elif v.op in ("call", "meth") and any(x.op == "self" for x in Y.walk(v)):
                if any(x.op == "meth" and x.a[1] == "get_params" for x in Y.walk(v)):
                    rep.ok("copied", "%s.%s" % (name, mn))
                else:
                    rep.undecided("copied", f.where, Y.show(v)[:60])
            else:
                rep.undecided("copied", f.where, Y.show(v)[:60])


# ------------------------------------------------------------------------------------------ C06
REFUSE = [("LCM", "transform"), ("LCMMax", "transform"), ("SLIM", "transform"), ("SlimClassifier", "predict"),
          ("PeriodicPatternMiner", "transform"), ("GraphMDL", "discover"), ("GraphMDL", "patterns")]
LIB_SET = {"n_features_in_": ("_validate_data", "validate_data", "_check_n_features"),
           "feature_names_in_": ("_validate_data", "validate_data", "_check_feature_names")}


def check_C06(prog, rep):
    from ..interp import Ref, Const, refs
    rep.rule("returns-self", "Every return of fit gives back the estimator itself.")
    rep.rule("state-complete", "Every attribute that a read operation reads is assigned on every path of the constructor or of fit "
             "(or is a class attribute).")
    rep.rule("refuses-unfitted", "The listed read operations reach no return without having passed a check that the estimator was fitted, "
             "and that check looks at something only fit sets.")
    rep.rule("parts-fitted", "The estimators that fit builds and keeps are all fitted by it, under no further condition.")
    for L in K.lives(prog):
        returns_self(prog, rep, L.name, L.cls)
        bad = incomplete(L, rep)
        if bad:
            # attributes may be set and read under the same option: decide for every combination of the boolean options
            flags = [n for n, k, d in options(L.cls)[1] if isinstance(d, ast.Constant) and isinstance(d.value, bool)]
            if flags and len(flags) <= 4:
                keep = set()
                for combo in itertools.product((True, False), repeat=len(flags)):
                    L2 = S.Life(prog, L.name)
                    L2.init()
                    for n, v in zip(flags, combo):
                        L2.state["init"][n] = frozenset([Const(v)])
                    L2.fit()
                    keep |= set(incomplete(L2, None))
                bad = {k: v for k, v in bad.items() if k in keep}
        for (q, attr), (e, written) in sorted(bad.items()):
            rep.violation("state-complete", e.func.module.rel if hasattr(e, "func") and e.func is not None else L.cls.module.rel,
                          "%s.%s" % (L.name, q), "self." + attr,
                          "%s.%s reads %s, which fit does not set on every path (read at %s; written in %s)"
                          % (L.name, q, attr, e.where, ", ".join(written) or "nowhere"), getattr(e, "line", 0))
        K.count_engine(rep, L.I)
        parts_fitted(rep, L.name, L.cls, L.prog)
    for name, mn in REFUSE:
        refuses(prog, rep, name, mn)
    rep.need("returns-self", 9)
    rep.need("state-complete", 30)
    rep.need("refuses-unfitted", 7)


def parts_fitted(rep, name, cls, prog):
    """The estimators built by fit (directly or in a method of the class) are fitted whenever they are kept."""
    names = {c.name for _, c in estimators(prog)}
    fs = [f for f in methods(cls).values() if not S.is_abstract(f)]
    if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in names for f in fs
               if f.name not in ("__copy__", "__init__") for n in ast.walk(f.node)):
        return

    def builds(n):
        return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in names for x in ast.walk(n))

    def fits(n):
        return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "fit" and \
            not (isinstance(n.func.value, ast.Name) and n.func.value.id in ("self", "cls")) and \
            not (isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super")

    def any_fit(stmts):
        return any(fits(x) for s in stmts for x in ast.walk(s))
    for f in fs:
        par = K.parents(f.node)
        for n in ast.walk(f.node):
            if not fits(n):
                continue
            rep.ok("parts-fitted", "%s: %s" % (f.where, K.short(n)))
            x, bad = n, None
            while x in par and x is not f.node and bad is None:
                q = par[x]
                if isinstance(q, ast.If) and x is not q.test:
                    mine, other = (q.body, q.orelse) if x in q.body else (q.orelse, q.body)
                    if not any(builds(s) for s in mine) and not any_fit(other) and not K.always_exits(other, False):
                        bad = q.test
                elif isinstance(q, ast.IfExp) and x is not q.test:
                    if not builds(x) and not any(fits(y) for y in ast.walk(q.orelse if x is q.body else q.body)):
                        bad = q.test
                elif isinstance(q, ast.BoolOp) and q.values[0] is not x and not builds(x):
                    bad = q
                elif isinstance(q, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
                    if any(g.ifs for g in q.generators) and not builds(x):
                        bad = q.generators[0].ifs[0] if q.generators[0].ifs else q
                elif isinstance(q, ast.Try) and x in q.body and any(not K.always_exits(h.body, False) for h in q.handlers):
                    bad = q.handlers[0].type or q
                elif isinstance(q, (ast.For, ast.While)) and x in q.body:
                    for s in q.body[:q.body.index(x)]:
                        if isinstance(s, ast.If) and any(isinstance(y, (ast.Continue, ast.Break)) for y in ast.walk(s)) and \
                                not any(builds(z) for z in q.body[q.body.index(s):q.body.index(x) + 1]):
                            bad = s.test
                x = q
            if bad is not None:
                rep.violation("parts-fitted", f.module.rel, f.qual, K.short(bad), "%s keeps an estimator that it fits only if %s"
                              % (f.qual, K.short(bad)), n.lineno)


def incomplete(L, rep):
    """(query, attribute) -> (read effect, writers) for attributes a query reads and no path of fit is sure to have set."""
    end, ret = L.done["fit"]
    qs, fits = K.run_rest(L)
    init_def = getattr(L, "init_def", frozenset()) or frozenset()
    lib_set = set()
    for a, setters in LIB_SET.items():
        for g in methods(L.cls).values():
            if any(isinstance(n, ast.Attribute) and n.attr in setters for n in ast.walk(g.node)):
                lib_set.add(a)
    okset = set(end.sdef) | set(init_def) | lib_set
    optional = guarded_attrs(L.cls)
    bad = {}
    for q in qs:
        for e in L.effects(q, "readself"):
            if e.info or e.name.startswith("cache:"):
                continue
            if e.name in okset or L.cls.find_attr(e.name) is not None or L.cls.find(e.name) is not None:
                if rep is not None:
                    rep.ok("state-complete", "%s.%s reads %s" % (L.name, q, e.name))
                continue
            if e.name.startswith("__") or (e.name in optional):
                continue
            written = sorted({(g.qual) for g in all_methods(L.cls) for n in ast.walk(g.node)
                              if isinstance(n, ast.Attribute) and n.attr == e.name and isinstance(n.ctx, ast.Store)})
            if not written and L.cls.lib_bases():
                if rep is not None:
                    rep.undecided("state-complete", e.where, "%s is never written in the repository" % e.name)
                continue
            if written == ["%s.%s" % (L.cls.name, q)]:
                if rep is not None:
                    rep.undecided("state-complete", e.where, "%s is written by the operation itself" % e.name)
                continue
            bad[(q, e.name)] = (e, written)
    return bad


def all_methods(cls):
    for c in cls.mro():
        yield from c.methods.values()


def guarded_attrs(cls):
    """Attributes that the class itself probes with hasattr / getattr(default): optional by design."""
    out = set()
    for f in all_methods(cls):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr") and len(n.args) >= 2 \
                    and isinstance(n.args[1], ast.Constant) and (n.func.id == "hasattr" or len(n.args) == 3):
                out.add(n.args[1].value)
    return out


def returns_self(prog, rep, name, cls):
    f = cls.find("fit")
    self_t = Y.mk("self", cls.qual)
    # only methods that return something of self matter: calls that give back the estimator are followed
    Sy = Y.Sym(prog, only=lambda g: g.cls is not None and g.cls in cls.mro() and g.name in ("fit", "prefit") or small(g))
    rets = Sy.run(f, self_cls=cls)
    if not rets:
        raise M.AnalysisBroken("%s.fit never returns" % name)
    for st, v, node in rets:
        for x in leaves(v):
            if x is self_t:
                rep.ok("returns-self", "%s.fit" % name)
            elif x.op == "rcall" and x.a[0].name in ("fit", "prefit", "_fit"):
                rep.undecided("returns-self", f.where, Y.show(x)[:60])
            elif x.op in ("unk", "rcall", "meth", "call", "loop", "phi", "never"):
                if x.op == "meth" and x.a[0] is not self_t or x.op == "call":
                    rep.violation("returns-self", f.module.rel, f.qual, K.short(node) if node is not None else "return",
                                  "%s.fit returns %s instead of the estimator" % (name, Y.show(x)[:60]), K.line(node) if node else f.node.lineno)
                else:
                    rep.undecided("returns-self", f.where, Y.show(x)[:60])
            else:
                rep.violation("returns-self", f.module.rel, f.qual, K.short(node) if node is not None else "end of fit",
                              "%s.fit returns %s instead of the estimator" % (name, Y.show(x)[:60]), K.line(node) if node is not None else f.node.lineno)


def small(g):
    return not isinstance(g.node, ast.Lambda) and len(g.node.body) <= 4


def leaves(t, d=0):
    if t.op == "ite" and d < 10:
        yield from leaves(t.a[1], d + 1)
        yield from leaves(t.a[2], d + 1)
    else:
        yield t


def mentions_state(c, self_t):
    """Attribute names of self whose presence or value the condition looks at."""
    out = set()
    for x in Y.walk(c):
        if x.op == "attr" and x.a[0] is self_t:
            out.add(x.a[1])
        if x.op == "call" and x.a[0] in ("builtins.hasattr", "builtins.getattr") and x.a[1] and x.a[1][0] is self_t and len(x.a[1]) > 1 and \
                Y.is_const(x.a[1][1]):
            out.add(x.a[1][1].a[0])
    return out


def at_birth(c, self_t, initset):
    """Truth of a condition on an estimator that was only constructed, None if not known."""
    if c.op == "not":
        r = at_birth(c.a[0], self_t, initset)
        return None if r is None else not r
    if c.op in ("and", "or"):
        rs = [at_birth(x, self_t, initset) for x in (c.a[0] if isinstance(c.a[0], tuple) else c.a)]
        if c.op == "and":
            return False if False in rs else (True if all(rs) else None)
        return True if True in rs else (False if all(r is False for r in rs) else None)

    def val(t):
        if t.op == "attr" and t.a[0] is self_t and t.a[1] in initset:
            v = initset[t.a[1]]
            return v if v.op in ("c", "list", "dict", "tup") else None
        if t.op == "call" and t.a[0] == "builtins.getattr" and len(t.a[1]) == 3 and t.a[1][0] is self_t and Y.is_const(t.a[1][1]):
            n = t.a[1][1].a[0]
            return initset[n] if n in initset and initset[n].op == "c" else None if n in initset else t.a[1][2]
        return t if t.op == "c" else None
    if c.op == "call" and c.a[0] == "builtins.hasattr" and len(c.a[1]) == 2 and c.a[1][0] is self_t and Y.is_const(c.a[1][1]):
        return c.a[1][1].a[0] in initset
    if c.op == "cmp":
        a, b = val(c.a[1]), val(c.a[2])
        if a is not None and b is not None and a.op == "c" and b.op == "c":
            if c.a[0] in ("is", "=="):
                return a.a[0] == b.a[0]
            if c.a[0] in ("is not", "!="):
                return a.a[0] != b.a[0]
        if a is not None and b is not None and "c" in (a.op, b.op) and Y.NONE in (a, b):
            return c.a[0] in ("is not", "!=")
        return None
    v = val(c)
    if v is not None and v.op == "c" and c.op != "c":
        return bool(v.a[0])
    return None


def refuses(prog, rep, name, mn):
    cls = prog.cls(S.ESTIMATORS[name])
    f = cls.find(mn)
    if f is None:
        raise M.AnalysisBroken("%s.%s not found" % (name, mn))
    self_t = Y.mk("self", cls.qual)
    Sy = Y.Sym(prog, only=lambda g: g.cls is not None and g.cls in cls.mro() or small(g))
    Sy.run(f, self_cls=cls)
    init, opts = options(cls)
    onames = {o[0] for o in opts}
    initset = {}
    if init is not None:
        S2 = Y.Sym(prog)
        S2.run(init, self_cls=cls)
        for e in S2.events:
            if e.kind == "setattr" and e.data[0] is self_t and isinstance(e.data[1], str):
                initset[e.data[1]] = e.data[2]
    checks, bad = [], []
    for e in Sy.events:
        if e.kind in ("call", "rcall"):
            nm = e.data[1] if e.kind == "call" else e.data[1].name
            if isinstance(nm, str) and nm.split(".")[-1] in ("check_is_fitted", "check_is_fitted_"):
                args = list(e.data[2]) if e.kind == "call" else list((e.data[2] or {}).values())
                kw = e.data[3] if e.kind == "call" else {}
                a = args[1] if len(args) > 1 else kw.get("attributes")
                attrs = None
                if a is not None and Y.is_const(a) and isinstance(a.a[0], str):
                    attrs = [a.a[0]]
                elif a is not None and a.op in ("tup", "list"):
                    attrs = [x.a[0] for x in a.a[0] if Y.is_const(x)]
                if a is None or a is Y.NONE:
                    trail = [x for x in initset if x.endswith("_") and not x.startswith("__")]
                    if trail:
                        rep.violation("refuses-unfitted", e.func.module.rel, e.func.qual, K.short(e.node),
                                      "the check cannot refuse: the constructor sets %s" % trail[0], e.line)
                elif attrs:
                    for x in attrs:
                        if x in initset:
                            rep.violation("refuses-unfitted", e.func.module.rel, e.func.qual, K.short(e.node),
                                          "the check cannot refuse: the constructor sets %s" % x, e.line)
                        elif not any(isinstance(n, ast.Attribute) and n.attr == x and isinstance(n.ctx, ast.Store)
                                     for g in all_methods(cls) for n in ast.walk(g.node)) and x not in LIB_SET:
                            rep.violation("refuses-unfitted", e.func.module.rel, e.func.qual, K.short(e.node),
                                          "the check refuses fitted estimators as well: nothing sets %s" % x, e.line)
                checks.append(e)
        elif e.kind == "raise":
            if any(at_birth(c, self_t, initset) == (not p) for c, p in e.conds):
                continue        # not reached on an estimator that was never fitted
            for c, p in e.conds:
                ms = mentions_state(c, self_t)
                if ms - onames:
                    checks.append(e)
                    # an attribute the constructor initialises must be told apart by value
                    break
    rets = [e for e in Sy.events if e.kind == "return" and not e.stack]
    for r in rets:
        good = any(at_birth(c, self_t, initset) == (not p) for c, p in r.conds)
        for e in checks:
            if e.i > r.i:
                continue
            if e.kind == "raise":
                rc = set(r.conds)
                st = [(c, p) for c, p in e.conds if mentions_state(c, self_t) - onames]
                if any((c, not p) in rc for c, p in st):
                    rest = [(c, p) for c, p in e.conds if (c, p) not in st]
                    if all(x in rc for x in rest):
                        good = True
                # several atoms: `a or b` raised
                if not good and all((c, p) in rc or mentions_state(c, self_t) for c, p in e.conds) and \
                        any(mentions_state(c, self_t) and (c, p) not in rc for c, p in e.conds):
                    good = True
            elif all(x in r.conds for x in e.conds):
                good = True
        if good:
            rep.ok("refuses-unfitted", "%s.%s" % (name, mn))
        elif any(d for d in f.decorators if d and d not in ("property", "staticmethod", "classmethod") and "doc" not in d.lower()):
            rep.undecided("refuses-unfitted", f.where, "decorated")
        else:
            rep.violation("refuses-unfitted", f.module.rel, "%s.%s" % (name, mn), "return",
                          "%s.%s can return without having checked that the estimator was fitted" % (name, mn), r.line)
