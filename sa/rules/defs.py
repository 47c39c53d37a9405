"""C20: every local variable is set before it is used, every name exists, every attribute of own objects exists."""
import ast
import builtins
import json
import os
from .. import model as M
from .. import sym as Y
from . import common as K

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "libnames.json")
BUILTINS = set(dir(builtins)) | {"__name__", "__file__", "__doc__", "__path__", "__package__", "__spec__", "__loader__",
                                 "__class__", "__builtins__", "__qualname__", "__module__", "__annotations__", "WindowsError"}

# Loops that run at least once for a reason outside the function (reviewed by hand): function -> why.
NONEMPTY_LOOPS = {
    "skmine/periodic/run_mine.py:prepare_tree_nested":
        "a nested candidate has at least as many periods as its pattern has levels; tree[0] is indexed right after the loop",
    "skmine/periodic/run_mine.py:run_combine_horizontal":
        "cliques are collected only over candidates kept by the loop that sets the variable",
}


def dual(c):
    """all(x == y) <-> not any(x != y), as a pair (term, polarity); None for other terms."""
    x, kind = None, None
    if c.op == "meth" and c.a[1] in ("all", "any") and not c.a[2] and not c.a[3]:
        x, kind = c.a[0], c.a[1]
    elif c.op == "call" and c.a[0] in ("numpy.all", "numpy.any") and len(c.a[1]) == 1 and not c.a[2]:
        x, kind = c.a[1][0], c.a[0][6:]
    if x is None:
        return None
    if x.op == "cmp" and x.a[0] in ("==", "!="):
        if (x.a[0] == "==") != (kind == "all"):
            x, pol = Y.mk("cmp", "!=" if x.a[0] == "==" else "==", x.a[1], x.a[2]), False
            kind = "any" if kind == "all" else "all"
            return Y.mk("quant", kind, x), False
        return Y.mk("quant", kind, x), True
    return Y.mk("quant", kind, x), True


def canon_quant(c, pol):
    d = dual(c)
    if d is None:
        return c, pol
    q, p = d
    kind, x = q.a
    if x.op == "cmp" and x.a[0] == "!=" and kind == "any":
        q, p = Y.mk("quant", "all", Y.mk("cmp", "==", x.a[1], x.a[2])), not p
    return q, (pol if p else not pol)


def counter_range(t, sym):
    """Range of an integer counter: starts at a constant, only ever incremented, and only while below a constant."""
    if sym is None or t.op != "loop":
        return None
    init, back = sym.loops.get((t.a[0], t.a[1]), (None, ()))
    test = sym.loopinfo.get(t.a[0], {}).get("test")
    if init is None or not Y.is_const(init) or type(init.a[0]) is not int or test is None or not back:
        return None
    if any(Y.linear(b) != {t: 1, None: 1} for b in back):
        return None
    for c, p in Y.split_cond(test, True):
        r = Y.cmp_norm(c, p)
        if r and set(r[1]) <= {t, None} and r[1].get(t) == 1 and r[0] in ("<", "<="):
            k = -r[1].get(None, 0)
            return init.a[0], max(init.a[0], k if r[0] == "<" else k + 1)
    return None


def decided(c, conds, d=0, sym=None):
    """Truth of c under the path conditions, or None."""
    if c.op == "c":
        return bool(c.a[0])
    if d > 8:
        return None
    q, qp = canon_quant(c, True)
    if q is not c:
        for cc, p in conds:
            q2, p2 = canon_quant(cc, p)
            if q2 is q:
                return p2 == qp
    r = Y.cmp_norm(c)
    if r is not None and sym is not None:
        at = [k for k in r[1] if k is not None]
        rg = counter_range(at[0], sym) if len(at) == 1 and r[1][at[0]] in (1, -1) else None
        if rg is not None:
            rel, k, v = r[0], r[1].get(None, 0), r[1][at[0]]
            poss = set()
            lo, hi = rg
            for cc, p in conds:
                qq = Y.cmp_norm(cc, p)
                if qq and set(x for x in qq[1] if x is not None) == {at[0]} and qq[1][at[0]] in (1, -1):
                    poss.add((qq[0], qq[1].get(None, 0), qq[1][at[0]]))
            vals = [x for x in range(lo, min(hi, lo + 1000) + 1)
                    if all({"<": b + a * x < 0, "<=": b + a * x <= 0, "==": b + a * x == 0, "!=": b + a * x != 0}[o]
                           for o, b, a in poss)]
            res = {{"<": k + v * x < 0, "<=": k + v * x <= 0, "==": k + v * x == 0, "!=": k + v * x != 0}[rel] for x in vals}
            if len(res) == 1:
                return res.pop()
    for cc, p in conds:
        if cc is c:
            return p
    n = Y.neg(c)
    if n is not c:
        for cc, p in conds:
            if cc is n:
                return not p
    if c.op == "not":
        r = decided(c.a[0], conds, d + 1, sym)
        return None if r is None else not r
    if c.op in ("and", "or"):
        rs = [decided(x, conds, d + 1, sym) for x in c.a[0]]
        stop = c.op == "or"
        if any(r is stop for r in rs):
            return stop
        if all(r is (not stop) for r in rs):
            return not stop
        return None
    r = Y.cmp_norm(c)
    if r is not None:
        for cc, p in conds:
            q = Y.cmp_norm(cc, p)
            if q is None:
                continue
            v = implies(q, r)
            if v is not None:
                return v
    return None


def implies(q, r):
    """Does `lin rel 0` (q) decide r, for forms that differ by a constant?"""
    (a, x), (b, y) = q, r
    kx, ky = {k: v for k, v in x.items() if k is not None}, {k: v for k, v in y.items() if k is not None}
    if not kx:
        return None
    for s in (1, -1):
        if kx == {k: s * v for k, v in ky.items()}:
            cx, cy = x.get(None, 0), s * y.get(None, 0)
            # q: L + cx rel 0 ; r: s*(L + cy) rel 0   (L = linear part of x)
            lo, hi = None, None      # bounds of L from q as (value, strict)
            if a == "<":
                hi = (-cx, True)
            elif a == "<=":
                hi = (-cx, False)
            elif a == "==":
                lo = hi = (-cx, False)
            else:
                if b in ("==", "!=") and cx == cy:
                    return b == "!="
                return None
            t = -cy
            above = lo is not None and (lo[0] > t)
            below = hi is not None and (hi[0] < t or hi[0] == t and hi[1])
            ge = lo is not None and lo[0] >= t
            le = hi is not None and hi[0] <= t
            if b == "==":
                return True if (ge and le and lo == hi) else False if (above or below) else None
            if b == "!=":
                return False if (ge and le and lo == hi) else True if (above or below) else None
            # s*(L - t) < 0
            if s == 1:
                if b == "<":
                    return True if below else False if ge else None
                return True if le else False if above else None
            if b == "<":
                return True if above else False if le else None
            return True if ge else False if below else None
    return None


def may_raise(e):
    return any(isinstance(n, (ast.Call, ast.Subscript, ast.Attribute, ast.BinOp, ast.Await, ast.Compare)) for n in ast.walk(e))


class Defs(Y.Sym):
    def __init__(self, prog, rep, f, inline=False):
        Y.Sym.__init__(self, prog, inline=inline, only=lambda g: g.module is f.module and g is not f and small(g))
        self.rep, self.f = rep, f
        self.uses = 0
        self.bad = []
        self.unk_names = []
        self.comp_depth = 0

    def name(self, n, st, node):
        fr = self.frames[-1]
        if not self.quiet:
            if n in fr.func.locals and fr.func is self.f:
                self.uses += 1
                v = st.env.get(n)
                if v is None:
                    self.bad.append((n, node, "it has not been set on this path", st.conds))
                else:
                    why = self.unset(v, st.conds, set())
                    if why:
                        self.bad.append((n, node, why, st.conds))
            elif n not in st.env and fr.func is self.f and not self.known(fr.func, n):
                self.unk_names.append((n, node))
        return Y.Sym.name(self, n, st, node)

    def known(self, f, n):
        p = f
        while p is not None:
            if n in p.locals:
                return True
            p = p.parent
        if n in f.globals_:
            return True
        r = self.prog.resolve_name(f.module, n)
        if r is not None and r[0] != "missing":
            return True
        if n in f.module.names and (r is None or r[0] != "missing"):
            return True
        return n in BUILTINS

    def unset(self, v, conds, seen):
        if v.op == "unbound":
            return "it is set on another branch only"
        if v in seen:
            return None
        seen = seen | {v}
        if v.op == "ite":
            d = decided(v.a[0], conds, 0, self)
            if d is None:
                return self.unset(v.a[1], conds + tuple(Y.split_cond(v.a[0], True)), seen) or \
                    self.unset(v.a[2], conds + tuple(Y.split_cond(v.a[0], False)), seen)
            return self.unset(v.a[1] if d else v.a[2], conds, seen)
        if v.op == "last":
            info = self.loopinfo.get(v.a[0], {})
            if reviewed(info):
                return None
            if info.get("nonempty"):
                if v.a[1] not in info.get("partial", ()):
                    return self.unset(v.a[2], (), seen)
                return "it is set in only some rounds of the loop"
            return "it is set inside a loop that may not run at all"
        if v.op == "phi":
            if v.a[1].op == "unbound":
                return "the exception may be raised before it is set"
            return self.unset(v.a[1], conds, seen)
        if v.op == "loop":
            init, back = self.loops.get((v.a[0], v.a[1]), (None, ()))
            if init is not None:
                return self.unset(init, conds, seen)
        return None


def small(g):
    return sum(1 for _ in ast.walk(g.node)) < 1500


def reviewed(info):
    f = info.get("func")
    return f is not None and f.where in NONEMPTY_LOOPS


def members(prog, names):
    """ClassInfo -> set of attribute names of its instances (own, inherited, stored anywhere in the hierarchy), or None."""
    subs = {}
    allc = [c for m in prog.modules.values() for c in m.classes.values()]
    stored = {}
    dyn = set()
    for c in allc:
        s = stored.setdefault(c, set())
        s |= set(c.methods) | set(c.attrs)
        for n in c.node.body:
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                s.add(n.target.id)
        for f in c.methods.values():
            for g in [f] + nested(prog, f):
                for n in ast.walk(g.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        s.add(n.attr)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                        if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                            s.add(n.args[1].value)
                        elif f.name != "set_params" and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == "self":
                            dyn.add(c)
                    if isinstance(n, ast.Attribute) and n.attr == "__dict__" and isinstance(n.value, ast.Name) and n.value.id == "self":
                        dyn.add(c)
        if "__getattr__" in c.methods or "__getattribute__" in c.methods:
            dyn.add(c)
    out = {}
    outside = set()
    for u in K.units(prog):
        for n in u.nodes():
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                outside.add(n.attr)
    for c in allc:
        fam = set(c.mro())
        for d in allc:
            if c in d.mro():
                fam |= set(d.mro())
        s = set(outside)
        ok = True
        for d in fam:
            s |= stored[d]
            if d in dyn:
                ok = False
            for b in d.bases:
                if isinstance(b, M.ClassInfo):
                    continue
                bb = K.canon_lib(b if "." in b else "builtins." + b)
                got = names["modules"].get("class " + bb)
                if got is None:
                    ok = False
                else:
                    s |= set(got)
        s |= set(names["modules"]["class builtins.object"]) | {"__dict__", "__class__", "__name__"}
        out[c] = s if ok else None
    return out


def nested(prog, f):
    return [g for g in f.module.functions if g.parent is f]


def check_C20(prog, rep):
    rep.rule("set-before-use", "On every path of every function, the value of each local variable at each use is defined: gated "
             "value numbering of the body; a use whose value can be the unset one under the branch conditions is reported.")
    rep.rule("names-exist", "Every name used resolves to a local, an enclosing local, a module level definition or import, or a builtin; "
             "every import from and every dotted use of a module of the package or of a library names something it defines.")
    rep.rule("attributes-exist", "Every attribute used on self, on the package's classes or on objects built from them is a method, class "
             "attribute or stored attribute of the class family or its library base; attribute names used anywhere exist somewhere.")
    rep.rule("set-at-construction", "Objects of the package's plain classes (not estimators): each attribute a method reads on self is set by "
             "every path of the constructor (through the methods it calls), at class level, or earlier in that method or under a test of its presence.")
    with open(DATA) as fh:
        lib = json.load(fh)
    mem = members(prog, lib)
    universe = set(lib["attrs"])
    for m in prog.modules.values():
        universe |= set(m.names)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                universe.add(n.value)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                universe.add(n.attr)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                universe.add(n.name)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                universe |= {w for w in n.value.replace(",", " ").split() if w.isidentifier()} if len(n.value) < 200 else set()
        for c in m.classes.values():
            universe |= set(c.attrs) | set(c.methods)
            for n in c.node.body:
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    universe.add(n.target.id)
    nf = 0
    for m in prog.modules.values():
        for f in m.functions:
            nf += 1
            one(prog, rep, f, mem)
        module_level(prog, rep, m, lib)
    rep.count("functions_analysed", nf)
    for u in K.units(prog):
        for n in u.nodes():
            if not isinstance(n, ast.Attribute):
                continue
            if isinstance(n.ctx, ast.Load) and n.attr not in universe and not n.attr.startswith("__"):
                rep.violation("attributes-exist", u.module.rel, u.qual, K.short(n), "no object has an attribute named %r" % n.attr, K.line(n))
                continue
            r = u.scope.resolve(n.value)
            if r is None:
                continue
            if r[0] == "module":
                x = prog.member(r, n.attr)
                if (x is None or x[0] == "missing") and isinstance(n.ctx, ast.Load) and not n.attr.startswith("__"):
                    rep.violation("names-exist", u.module.rel, u.qual, K.short(n), "module %s defines no %r" % (r[1].name, n.attr), K.line(n))
                else:
                    rep.ok("names-exist")
            elif r[0] == "lib" and isinstance(n.ctx, ast.Load):
                base = K.canon_lib(r[1])
                t = lib["modules"].get(base)
                if t is not None:
                    if n.attr not in t:
                        rep.violation("names-exist", u.module.rel, u.qual, K.short(n), "%s has no %r" % (base, n.attr), K.line(n))
                    else:
                        rep.ok("names-exist")
            elif r[0] == "class" and isinstance(n.ctx, ast.Load):
                s = mem.get(r[1])
                if s is not None and n.attr not in s and not n.attr.startswith("__"):
                    rep.violation("attributes-exist", u.module.rel, u.qual, K.short(n), "class %s has no %r" % (r[1].name, n.attr), K.line(n))
                else:
                    rep.ok("attributes-exist")
        imports(prog, rep, u, lib)
    construction(prog, rep)
    rep.need("set-before-use", 2000)
    rep.need("names-exist", 300)
    rep.need("attributes-exist", 500)


def _self(f):
    ps = f.params()
    return ps[0][0] if ps else None


def sets_on_self(cls, f, seen=()):
    """Attributes of self set on every normal path of method f of an object of class cls."""
    me = _self(f)
    if me is None or f in seen:
        return set()
    seen = seen + (f,)

    def exprs(n):
        out = set()
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                continue
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                v, g = x.func.value, None
                if isinstance(v, ast.Name) and v.id == me:
                    g = cls.find(x.func.attr)
                elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and f.cls is not None:
                    g = cls.find_after(f.cls, x.func.attr)
                elif isinstance(v, ast.Name) and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == me:
                    g = next((c.methods.get(x.func.attr) for c in cls.mro() if c.name == v.id), None)
                if g is not None:
                    out |= sets_on_self(cls, g, seen)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and len(x.args) > 1 and \
                    isinstance(x.args[0], ast.Name) and x.args[0].id == me and isinstance(x.args[1], ast.Constant):
                out.add(x.args[1].value)
        return out

    def targets(t):
        if isinstance(t, (ast.Tuple, ast.List)):
            return set().union(*[targets(x) for x in t.elts]) if t.elts else set()
        if isinstance(t, ast.Starred):
            return targets(t.value)
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
            return {t.attr}
        return set()

    rets = []

    def block(stmts, have):
        """have at the end, or None when the end is not reached"""
        for st in stmts:
            if isinstance(st, ast.Return):
                rets.append(have | (exprs(st) if st.value is not None else set()))
                return None
            if isinstance(st, (ast.Raise, ast.Continue, ast.Break)):
                return None
            if isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                have = have | (exprs(st.value) if st.value is not None else set())
                if not isinstance(st, ast.AnnAssign) or st.value is not None:
                    for t in st.targets if isinstance(st, ast.Assign) else [st.target]:
                        have = have | targets(t)
            elif isinstance(st, ast.If):
                have = have | exprs(st.test)
                a, b = block(st.body, have), block(st.orelse, have)
                if a is None and b is None:
                    return None
                have = a if b is None else b if a is None else a & b
            elif isinstance(st, (ast.For, ast.While)):
                h = have | exprs(st.iter if isinstance(st, ast.For) else st.test)
                block(st.body, h)
                b = block(st.orelse, h)
                have = b if st.orelse and b is not None and not any(isinstance(x, ast.Break) for x in ast.walk(st)) else h
                if isinstance(st, ast.While) and isinstance(st.test, ast.Constant) and st.test.value and \
                        not any(isinstance(x, ast.Break) for x in ast.walk(st)):
                    return None
            elif isinstance(st, ast.With):
                for w in st.items:
                    have = have | exprs(w.context_expr)
                have = block(st.body, have)
                if have is None:
                    return None
            elif isinstance(st, ast.Try):
                a = block(st.body, have)
                if a is not None and st.orelse:
                    a = block(st.orelse, a)
                hs = [block(h.body, have) for h in st.handlers]
                ends = [x for x in [a] + hs if x is not None]
                fin = block(st.finalbody, have)
                if not ends or fin is None:
                    return None
                have = set.intersection(*ends) | fin
            elif isinstance(st, ast.Delete):
                have = have - set().union(*[targets(t) for t in st.targets])
            elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                pass
            elif not isinstance(st, ast.Match if hasattr(ast, "Match") else ()):
                have = have | exprs(st)
        return have

    end = block(f.node.body, set())
    outs = rets + ([end] if end is not None else [])
    return set.intersection(*outs) if outs else set()


def construction(prog, rep):
    from .. import session as S_
    est = set()
    for name in S_.ESTIMATORS:
        est |= set(S_.Life(prog, name).cls.mro())
    outside = set()
    for m in prog.modules.values():
        for f in m.functions:
            me = _self(f)
            for n in K.own_nodes(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == me):
                    outside.add(n.attr)
    allc = [c for m in prog.modules.values() for c in m.classes.values()]
    for c in allc:
        if c in est or any(not isinstance(b, M.ClassInfo) and b not in ("object", "builtins.object") for d in c.mro() for b in d.bases):
            continue
        if any(c in d.mro() and d is not c for d in allc):
            continue        # looked at through its subclasses
        names = set()
        for d in c.mro():
            names |= set(d.methods) | set(d.attrs)
            for n in d.node.body:
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    names.add(n.target.id)
        if {"__getattr__", "__getattribute__", "__new__", "__setstate__"} & names or any(d.node.decorator_list for d in c.mro()):
            rep.undecided("set-at-construction", "%s:%s" % (c.module.rel, c.name), "objects are made by other means than __init__")
            continue
        init = c.find("__init__")
        have = sets_on_self(c, init) if init is not None else set()
        stored = set()
        meths = [f for d in c.mro() for k, f in d.methods.items() if c.find(k) is f]
        for f in meths:
            me = _self(f)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                    stored.add(n.attr)
        for f in meths:
            me = _self(f)
            if me is None or f is init or any("static" in K.short(d) or "classmethod" in K.short(d) for d in f.node.decorator_list):
                continue
            tested = {x.args[1].value for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and
                      x.func.id in ("hasattr", "getattr") and len(x.args) > 1 and isinstance(x.args[1], ast.Constant)}
            catches = any(isinstance(h, ast.ExceptHandler) and (h.type is None or any(isinstance(y, ast.Name) and y.id in ("AttributeError", "Exception")
                          for y in ast.walk(h.type))) for h in ast.walk(f.node))
            for n in ast.walk(f.node):
                if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == me):
                    continue
                a = n.attr
                if a in names or a.startswith("__"):
                    continue
                if a in have:
                    rep.ok("set-at-construction", "%s.%s" % (c.name, a))
                elif a not in stored or a in outside:
                    rep.undecided("set-at-construction", "%s.%s" % (c.name, a), "set by code outside the class")
                elif a in tested or catches:
                    rep.ok("set-at-construction", "%s.%s tested" % (c.name, a))
                elif any(isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and y.attr == a and isinstance(y.value, ast.Name) and
                         y.value.id == me and y.lineno < n.lineno for y in ast.walk(f.node)):
                    rep.ok("set-at-construction", "%s.%s set earlier in %s" % (c.name, a, f.name))
                else:
                    rep.violation("set-at-construction", f.module.rel, f.qual, K.short(n),
                                  "an object of class %s may not have its attribute %r yet: the constructor does not set it on every path" % (c.name, a),
                                  n.lineno)
    rep.need("set-at-construction", 60)


def imports(prog, rep, u, lib):
    for n in u.nodes():
        if not isinstance(n, ast.ImportFrom) or n.level == 0 and n.module == "__future__":
            continue
        mod = prog._abs(u.module, n)
        guarded = any(isinstance(p, ast.Try) for p in u.up(n))
        for al in n.names:
            if al.name == "*":
                continue
            if mod in prog.modules:
                r = prog._from(mod, al.name, 0)
                if r[0] == "missing":
                    rep.violation("names-exist", u.module.rel, u.qual, "from %s import %s" % (mod, al.name),
                                  "module %s defines no %r" % (mod, al.name), K.line(n))
                else:
                    rep.ok("names-exist")
            elif not guarded:
                t = lib["modules"].get(K.canon_lib(mod or ""))
                if t is not None and al.name not in t and mod + "." + al.name not in lib["modules"]:
                    rep.violation("names-exist", u.module.rel, u.qual, "from %s import %s" % (mod, al.name),
                                  "%s has no %r" % (mod, al.name), K.line(n))


def one(prog, rep, f, mem):
    s = Defs(prog, rep, f)
    cls = f.cls
    s.run(f)
    if s.bad:
        # once more with the module's own helpers analysed in place (helpers that raise, bounds they establish)
        s2 = Defs(prog, rep, f, inline=True)
        s2.run(f)
        s.bad = s2.bad
    rep.ok("set-before-use", "%s: %d uses of local variables" % (f.where, s.uses), n=max(0, s.uses - len(s.bad)))
    for n, node, why, conds in s.bad:
        rep.violation("set-before-use", f.module.rel, f.qual, "use of %s" % n,
                      "local variable %r can be used unset: %s (path: %s)" % (
                          n, why, " and ".join(("" if p else "not ") + Y.show(c)[:60] for c, p in conds[-3:]) or "entry"), K.line(node))
    rep.ok("names-exist", n=1)
    for n, node in s.unk_names:
        rep.violation("names-exist", f.module.rel, f.qual, "name " + n, "name %r is not defined anywhere" % n, K.line(node))
    for e in s.events:
        if e.kind != "getattr":
            continue
        b, name = e.data
        c = s.classof(b)
        if c is None:
            continue
        t = mem.get(c)
        if t is None:
            rep.undecided("attributes-exist", e.where, "class %s has dynamic or unknown members" % c.name)
            continue
        if name in t or name.startswith("__"):
            rep.ok("attributes-exist", "%s: .%s on %s" % (e.where, name, c.name))
        else:
            rep.violation("attributes-exist", f.module.rel, f.qual, K.short(e.node), "objects of class %s have no attribute %r" % (c.name, name), e.line)
    # methods resolved on self are events of other kinds; count them
    for n in K.own_nodes(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and cls is not None:
            rep.ok("attributes-exist")


def module_level(prog, rep, m, lib):
    """Names used by import-time code: defined in the module, imported or builtin."""
    u = K.Unit(prog, m)
    comp = set()
    for n in u.nodes():
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                comp |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        if isinstance(n, ast.ExceptHandler) and n.name:
            comp.add(n.name)
        if isinstance(n, ast.ClassDef):
            for x in n.body:
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                        comp.add(y.id)
                if isinstance(x, ast.FunctionDef):
                    comp.add(x.name)
    for n in u.nodes():
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            r = prog.resolve_name(m, n.id)
            if (r is None and n.id not in m.names or r is not None and r[0] == "missing") and n.id not in comp and n.id not in BUILTINS:
                rep.violation("names-exist", m.rel, "<module>", "name " + n.id, "name %r is not defined anywhere" % n.id, K.line(n))
            else:
                rep.ok("names-exist")
