"""C17 callbacks, C19 rejection of invalid data and options."""
import ast
from .. import model as M
from .. import sym as Y
from .. import session as S
from . import common as K
from . import params as P

# ------------------------------------------------------------------------------------------ C17
DICT_MUTATORS = ("__setitem__", "__delitem__", "__ior__", "update", "setdefault", "pop", "popitem", "clear")


def check_C17(prog, rep):
    rep.rule("wrapper", "The function that post() gives back calls the original method exactly once on every path, with the arguments it got, "
             "outside any handler, hands the result to the callback afterwards, and returns that very result.")
    rep.rule("frozen", "Every dict operation that would change a CallBacks collection is overridden by code that always raises, and no "
             "method of the class changes the collection by way of dict.")
    rep.rule("validated", "The constructor refuses values that are not callable and callbacks that assign to self, for every value.")
    rep.rule("attached", "Attaching refuses names the miner has no method for before it replaces anything, and replaces each named method "
             "by the wrapper of that same method.")
    rep.rule("observers", "The callbacks that the library itself ships change neither the miner nor the results they are shown.")
    post = prog.func("skmine.callbacks.post")
    wrapper(prog, rep, post)
    cls = prog.cls("skmine.callbacks.CallBacks")
    frozen(prog, rep, cls)
    validated(prog, rep, cls)
    attached(prog, rep, cls, post)
    observers(prog, rep, cls)
    rep.need("frozen", 8)
    rep.need("wrapper", 3)
    rep.need("validated", 2)
    rep.need("attached", 2)


def wrapper(prog, rep, post):
    ps = [p[0] for p in post.params()]
    if len(ps) < 3:
        raise M.AnalysisBroken("post() has other parameters")
    me, fname, cb = (Y.mk("p", x) for x in ps[:3])
    Sy = Y.Sym(prog)
    rets = Sy.run(post)
    if len(rets) != 1:
        rep.undecided("wrapper", post.where, "several wrappers")
        for r in ("wrapper",) * 3:
            rep.ok(r, n=0)
    n0 = len(Sy.events)
    st, w, node = rets[-1]
    if w.op == "call" and w.a[0] == "functools.wraps":
        w = w.a[1][0]
    if w.op not in ("closure", "fn", "partial", "bound"):
        rep.violation("wrapper", post.module.rel, post.qual, "return", "post() does not give back a wrapper but %s" % Y.show(w)[:60], K.line(node))
        return
    A, KW = Y.mk("p", "*args"), Y.mk("p", "**kwargs")
    fr = Y.Fr(post, post.node, None)
    Sy.frames.append(fr)
    s2 = Y.St(dict(st.env), dict(st.heap), ())
    v = Sy.call(w, [Y.mk("star", A)], {"**kw": KW}, s2, post.node)
    Sy.frames.pop()
    evs = Sy.events[n0:]

    def is_orig(t):
        """Is the callee term the original method, looked up when post() ran (or by the wrapper)?"""
        return t.op == "call" and t.a[0] == "builtins.getattr" and t.a[1][:1] == (me,) and t.a[1][1:2] == (fname,)

    orig = [e for e in evs if e.kind in ("call", "meth") and isinstance(e.data[1], Y.T) and e.kind == "call" and is_orig(e.data[1])]
    cbs = [e for e in evs if e.kind == "call" and e.data[1] is cb]
    rel, q = post.module.rel, post.qual
    if not orig:
        if any(isinstance(e.data[1], Y.T) for e in evs if e.kind == "call"):
            und = [e for e in evs if e.kind == "call" and isinstance(e.data[1], Y.T) and e.data[1] is not cb]
            past = [e for e in und if any(x.op == "call" and x.a[0] == "builtins.type" and me in x.a[1] or x.op == "attr" and x.a[0] is me and
                                          x.a[1] == "__class__" for x in Y.walk(e.data[1]))]
            if past:
                rep.violation("wrapper", rel, q, "original", "the method is looked up in the class, past what is attached to the object (%s)"
                              % Y.show(past[0].data[1])[:60], past[0].line)
                return
            if und:
                rep.undecided("wrapper", und[0].where, "callee " + Y.show(und[0].data[1])[:60])
                rep.ok("wrapper", n=3)
                return
        rep.violation("wrapper", rel, q, "original call", "the original method is not called", post.node.lineno)
        return
    for e in orig:
        if e.loops:
            rep.violation("wrapper", rel, q, "original call in a loop", "the original method may run any number of times", e.line)
        handlers = [t for t, part in e.tries if part == "body" and t.handlers and not all(reraises(h) for h in t.handlers)]
        if handlers:
            rep.violation("wrapper", rel, q, "original call in try", "a failure of the original method is caught", e.line)
        if any(part != "body" and part != "else" for t, part in e.tries):
            rep.violation("wrapper", rel, q, "original call in handler", "the original method runs again in a handler", e.line)
        args, kw = e.data[2], e.data[3]
        okargs = len(args) == 1 and args[0].op == "star" and args[0].a[0] is A
        okkw = len(kw) == 1 and list(kw.values())[0] is KW
        if okargs and okkw:
            rep.ok("wrapper", "%s: original method gets the caller's arguments" % e.where)
        elif any(x is A or x is KW for x in Y.walk(tuple(args) + tuple(kw.values()))) or not args or not kw:
            if args and kw and any(x.op in ("rcall", "unk") for x in Y.walk(tuple(args))):
                rep.undecided("wrapper", e.where, "arguments of the original call")
            else:
                rep.violation("wrapper", rel, q, K.short(e.node), "the original method does not get the caller's arguments as given", e.line)
        else:
            rep.undecided("wrapper", e.where, "arguments of the original call")
    for i, a in enumerate(orig):
        for b in orig[i + 1:]:
            if a.node is not b.node and not P.exclusive(a, b):
                rep.violation("wrapper", rel, q, "second call", "the original method is called twice", b.line)
    if len(orig) == 1 and [c for c in orig[0].conds]:
        rep.violation("wrapper", rel, q, "conditional call", "the original method is only called if %s" % Y.show(orig[0].conds[0][0])[:60], orig[0].line)
    res = {e.data[0] for e in orig}
    for x in P.leaves(v):
        if x in res:
            rep.ok("wrapper", "%s: the result of the original method is returned" % post.where)
        elif x.op in ("unk", "rcall", "loop"):
            rep.undecided("wrapper", post.where, "returns %s" % Y.show(x)[:60])
        else:
            rep.violation("wrapper", rel, q, "return", "the wrapper returns %s instead of the original result" % Y.show(x)[:60], post.node.lineno)
    if not cbs:
        rep.violation("wrapper", rel, q, "callback", "the callback is never called", post.node.lineno)
    for e in cbs:
        if any(o.i > e.i and not P.exclusive(o, e) for o in orig):
            rep.violation("wrapper", rel, q, K.short(e.node), "the callback runs before the original method", e.line)
        elif not any(x in res for x in Y.walk(tuple(e.data[2]) + tuple(e.data[3].values()), Sy)):
            rep.violation("wrapper", rel, q, K.short(e.node), "the callback does not get the result", e.line)
        else:
            rep.ok("wrapper", "%s: callback sees the result" % e.where)
        if e.loops:
            rep.violation("wrapper", rel, q, K.short(e.node), "the callback may run several times per call", e.line)
    main = [e for e in cbs if not any(isinstance(p, tuple) for _, p in e.tries)]
    for i, a in enumerate(main):
        for b in main[i + 1:]:
            if not P.exclusive(a, b):
                rep.violation("wrapper", rel, q, K.short(b.node), "the callback runs twice per call", b.line)
    for e in evs:
        if e.kind == "meth" and e.data[2] in Y.MUTATORS and (e.data[1] in res):
            rep.violation("wrapper", rel, q, K.short(e.node), "the wrapper edits the result", e.line)
        if e.kind in ("store", "del", "setattr") and e.data[0] in res:
            rep.violation("wrapper", rel, q, K.short(e.node), "the wrapper edits the result", e.line)


def observers(prog, rep, cls):
    for m in prog.modules.values():
        sc = K.Scope(prog, m)
        for n in K.module_nodes(m.tree):
            if not (isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and sc.resolve(n.func) == ("class", cls)):
                continue
            for kw in n.keywords:
                r = sc.resolve(kw.value) if kw.arg and isinstance(kw.value, (ast.Name, ast.Attribute)) else None
                if r is None or r[0] != "func":
                    rep.undecided("observers", m.rel, K.short(kw.value))
                    continue
                g, bad = r[1], None
                Sy = Y.Sym(prog)
                Sy.run(g)
                for e in Sy.events:
                    if e.kind in ("setattr", "store", "del"):
                        root = e.data[0]
                    elif e.kind == "meth" and e.data[2] in Y.MUTATORS:
                        root = e.data[1]
                    else:
                        continue
                    while isinstance(root, Y.T) and root.op in ("attr", "idx", "elem", "val"):
                        root = root.a[0]
                    if isinstance(root, Y.T) and root.op == "p":
                        bad = e
                        rep.violation("observers", e.func.module.rel, e.func.qual, K.short(e.node), "a callback of the library changes %s"
                                      % Y.show(root), e.line)
                if bad is None:
                    rep.ok("observers", g.where)


def reraises(h):
    return bool(h.body) and isinstance(h.body[-1], ast.Raise) and h.body[-1].exc is None


def class_member(prog, cls, name):
    """FuncInfo of a member, also when it is an alias of another method of the class."""
    seen = 0
    while seen < 5:
        f = cls.find(name)
        if f is not None:
            return f
        a = cls.find_attr(name)
        if a is None:
            return None
        e = a[1]
        if isinstance(e, ast.Name):
            if e.id == name:
                return None
            name = e.id
            seen += 1
            r = K.Scope(prog, a[0].module if hasattr(a[0], "module") else cls.module).resolve(e)
            if cls.find(name) is None and cls.find_attr(name) is None and r is not None and r[0] == "func":
                return r[1]
            continue
        if isinstance(e, ast.Lambda):
            return prog.func_by_node.get(e) or "unknown"
        return "unknown"
    return None


def frozen(prog, rep, cls):
    libs = cls.lib_bases()
    if not any(str(b).split(".")[-1] == "dict" for b in libs):
        rep.undecided("frozen", cls.qual, "not a dict")
        rep.ok("frozen", n=8)
        return
    dynamic = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and
                  any(isinstance(a, ast.Name) and a.id == cls.name for a in n.args) for n in K.module_nodes(cls.module.tree))
    for m in DICT_MUTATORS:
        f = class_member(prog, cls, m)
        if f is None:
            if dynamic:
                rep.undecided("frozen", cls.qual, m)
            else:
                rep.violation("frozen", cls.module.rel, cls.qual, m, "%s.%s is dict's own: the collection can be altered" % (cls.name, m), cls.node.lineno)
            continue
        if f == "unknown":
            rep.undecided("frozen", cls.qual, m)
            continue
        rets = Y.Sym(prog).run(f, self_cls=cls)
        if rets:
            rep.violation("frozen", f.module.rel, f.qual, m, "%s.%s can return instead of raising" % (cls.name, m), f.node.lineno)
        else:
            rep.ok("frozen", "%s.%s always raises" % (cls.name, m))
    for n, f in P.methods(cls).items():
        if n in ("__init__", "__new__", "__setstate__"):
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in DICT_MUTATORS:
                v = x.func.value
                if isinstance(v, ast.Name) and v.id in ("dict", "self") and f.params()[0][0] == "self" and (v.id == "self" or x.args) or \
                        isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
                    if v is not None and isinstance(v, ast.Name) and v.id == "self":
                        continue      # raises, as shown above
                    rep.violation("frozen", f.module.rel, f.qual, K.short(x), "the collection is changed through dict", x.lineno)
    rep.ok("frozen", n=0)


def validated(prog, rep, cls):
    init = cls.find("__init__")
    if init is None:
        rep.violation("validated", cls.module.rel, cls.qual, "__init__", "nothing validates the callbacks", cls.node.lineno)
        return
    Sy = Y.Sym(prog, opaque=("has_self_assigment",))
    Sy.run(init, self_cls=cls)
    raises = [e for e in Sy.events if e.kind in ("raise", "assert")]

    def looks(c, what):
        for x in Y.walk(c, Sy):
            if what == "callable" and x.op == "call" and x.a[0] == "builtins.callable":
                return True
            if what == "self" and (x.op == "rcall" and "self" in x.a[0].name or x.op == "call" and isinstance(x.a[0], str) and
                                   x.a[0] in ("inspect.getsource", "re.finditer", "re.search", "re.findall", "re.match")):
                return True
        return False
    for what, text in (("callable", "values that are not callable"), ("self", "callbacks that assign to self")):
        hit = None
        for e in raises:
            cs = list(e.conds) + ([(e.data[0], False)] if e.kind == "assert" else [])
            if any(looks(c, what) for c, p in cs):
                hit = e
                extra = [c for c, p in cs if c.op != "iter" and not looks(c, "callable") and not looks(c, "self")]
                its = [c.a[1] for c, p in cs if c.op == "iter"]
                bad = [c for c in extra if any(x.op in ("self", "p") for x in Y.walk(c)) or any(x.op == "elem" for x in Y.walk(c))]
                if bad:
                    rep.violation("validated", e.func.module.rel, e.func.qual, K.short(e.node),
                                  "%s are refused only if %s" % (text, Y.show(bad[0])[:60]), e.line)
                elif any(sliced(x) for x in its) or cut_short(e):
                    rep.violation("validated", e.func.module.rel, e.func.qual, K.short(e.node), "only some of the callbacks are checked", e.line)
                else:
                    rep.ok("validated", "%s: %s" % (e.where, text))
                break
        if hit is None:
            rep.violation("validated", init.module.rel, init.qual, what, "%s are not refused" % text, init.node.lineno)
    # the wrong polarity: a raise that needs callable(v) to hold
    for e in raises:
        for c, p in e.conds:
            if c.op == "call" and c.a[0] == "builtins.callable" and p and not any(looks(d, "self") for d, _ in e.conds):
                rep.violation("validated", e.func.module.rel, e.func.qual, K.short(e.node), "callables are refused", e.line)


def cut_short(e):
    """Does a loop around the event stop before it has seen every element?"""
    f = e.func.node
    for n in ast.walk(f):
        if isinstance(n, (ast.For, ast.While)) and any(x is e.node for x in ast.walk(n)):
            todo = list(n.body)
            while todo:
                x = todo.pop()
                if isinstance(x, (ast.Break, ast.Return)):
                    return True
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(x, (ast.For, ast.While)):
                    todo += [y for y in ast.walk(x) if isinstance(y, ast.Return)]
                    continue
                todo += list(ast.iter_child_nodes(x))
    return False


def late_bound(f, e, v):
    """Names a closure made in a loop takes from its surroundings although the loop gives them new values."""
    if v.op != "closure" or not e.loops:
        return []
    g = v.a[1]
    if g is None:
        return []
    own = {p[0] for p in g.params()} | {n.id for n in ast.walk(g.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    free = {n.id for n in ast.walk(g.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} - own
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, (ast.For, ast.While)) and any(x is g.node for x in ast.walk(n)):
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in free:
                    out.add(x.id)
    return sorted(out)


def sliced(t):
    return any(x.op == "idx" and any(y.op == "slice" for y in Y.walk(x.a[1])) for x in Y.walk(t))


def attached(prog, rep, cls, post):
    f = cls.find("__call__")
    if f is None:
        raise M.AnalysisBroken("CallBacks.__call__ not found")
    Sy = Y.Sym(prog, opaque=(post.qual, post.where))
    Sy.run(f, self_cls=cls)
    miner = Y.mk("p", f.params()[1][0])
    sets = [e for e in Sy.events if e.kind == "setattr" and e.data[0] is miner]
    posts = [e for e in Sy.events if e.kind == "rcall" and e.data[1] is post and e.data[2]]
    if not sets or not posts:
        for e in sets:
            lb = late_bound(f, e, e.data[2])
            if lb:
                rep.violation("attached", f.module.rel, f.qual, K.short(e.node), "every method gets the wrapper of the last one: the wrapper "
                              "looks up %s after the loop" % ", ".join(lb), e.line)
                return
        if posts:
            rep.violation("attached", f.module.rel, f.qual, "attach", "the wrappers are not installed", f.node.lineno)
        else:
            rep.undecided("attached", f.where, "form not recognised")
            rep.undecided("attached", f.where, "order not decided")
        return
    names = [p[0] for p in post.params()]
    for e in sets:
        v, key = e.data[2], e.data[1]
        if v.op == "rcall" and v.a[0] is post:
            env = dict(v.a[1])
            if env.get(names[0]) is not miner:
                rep.violation("attached", f.module.rel, f.qual, K.short(e.node), "the wrapper belongs to another object", e.line)
            if env.get(names[1]) is not key:
                rep.violation("attached", f.module.rel, f.qual, K.short(e.node), "method %s is replaced by the wrapper of %s"
                              % (Y.show(key) if isinstance(key, Y.T) else key, Y.show(env.get(names[1]))), e.line)
            else:
                rep.ok("attached", e.where)
        elif v.op in ("rcall", "unk", "loop"):
            rep.undecided("attached", e.where, Y.show(v)[:60])
        else:
            rep.violation("attached", f.module.rel, f.qual, K.short(e.node), "the miner's method is replaced by %s" % Y.show(v)[:60], e.line)
        extra = [c for c, p in e.conds if c.op not in ("iter", "exc") and not membership(c)]
        if extra:
            rep.undecided("attached", e.where, "only if %s" % Y.show(extra[0])[:60])
    raises = [e for e in Sy.events if e.kind in ("raise", "assert")]
    first = min(e.i for e in sets)
    good = [e for e in raises if any(membership(c) for c, p in list(e.conds) + ([(e.data[0], False)] if e.kind == "assert" else []))]
    for e in good:
        for c, p in e.conds:
            if c.op not in ("iter", "exc") and not membership(c) and any(x.op in ("elem", "key") for x in Y.walk(c)):
                rep.violation("attached", f.module.rel, f.qual, K.short(e.node), "names without a method are refused only if %s%s"
                              % ("" if p else "not ", Y.show(c)[:60]), e.line)
        if cut_short(e):
            rep.violation("attached", f.module.rel, f.qual, K.short(e.node), "only some of the names are checked", e.line)
        mine = [s for s in sets if s.loops and e.loops and s.loops[0] == e.loops[0]]
        if mine and e.func is mine[0].func and not any(g.i < first and g not in mine and not g.loops for g in good):
            rep.violation("attached", f.module.rel, f.qual, "order in the loop", "methods are replaced before all names are checked", e.line)
    if not good:
        rep.violation("attached", f.module.rel, f.qual, "unknown names", "names without a method are not refused", f.node.lineno)
    elif all(e.i > first for e in good):
        rep.violation("attached", f.module.rel, f.qual, "order", "methods are replaced before the names are checked", good[0].line)
    else:
        rep.ok("attached", "%s: unknown names are refused first" % f.where)


def membership(c):
    for x in Y.walk(c):
        if x.op == "cmp" and x.a[0] in ("in", "not in", "<=", "<", "!=", ">", ">="):
            return True
        if x.op == "call" and x.a[0] in ("builtins.hasattr", "builtins.callable"):
            return True
        if x.op == "meth" and x.a[1] in ("issubset", "difference", "issuperset"):
            return True
        if x.op == "bin" and x.a[0] == "-":
            return True
    return False


# ------------------------------------------------------------------------------------------ C19
class Unknown(Exception):
    pass


class Hyp:
    """A hypothesis about one argument: a cell of the partition of its values that the guards induce."""

    def __init__(self, label, subject, value=None, facts=None, root=None):
        self.label, self.subject, self.value, self.facts = label, subject, value, facts or (lambda t: None)
        self.root = root if root is not None else subject

    def about(self, t):
        return any(x is self.root for x in Y.walk(t))

    def val(self, t, d=0):
        """Value of a term under the hypothesis; raises Unknown."""
        if d > 30:
            raise Unknown
        r = self.facts(t)
        if r is not None:
            return r[0]
        if self.subject is not None and t is self.subject:
            return self.value
        o = t.op
        if o == "c":
            return t.a[0]
        if o in ("tup", "list", "set"):
            return tuple(self.val(x, d + 1) for x in t.a[0])
        if o == "lib":
            return ("lib", t.a[0])
        if o == "not":
            return not self.val(t.a[0], d + 1)
        if o == "neg":
            return -self.val(t.a[0], d + 1)
        if o in ("and", "or"):
            unk = False
            for x in t.a[0]:
                try:
                    v = self.val(x, d + 1)
                except Unknown:
                    unk = True
                    continue
                if o == "and" and not v:
                    return False
                if o == "or" and v:
                    return v
            if unk:
                raise Unknown
            return o == "and"
        if o == "ite":
            try:
                c = self.val(t.a[0], d + 1)
            except Unknown:
                a, b = self.val(t.a[1], d + 1), self.val(t.a[2], d + 1)
                if type(a) is type(b) and a == b:
                    return a
                raise
            return self.val(t.a[1] if c else t.a[2], d + 1)
        if o == "cmp":
            a, b = self.val(t.a[1], d + 1), self.val(t.a[2], d + 1)
            return compare(t.a[0], a, b)
        if o == "bin":
            a, b = self.val(t.a[1], d + 1), self.val(t.a[2], d + 1)
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                try:
                    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[t.a[0]]()
                except (KeyError, ZeroDivisionError):
                    raise Unknown
            raise Unknown
        if o == "call" and isinstance(t.a[0], str):
            n = K.canon_lib(t.a[0])
            if n == "builtins.isinstance" and len(t.a[1]) == 2:
                v = self.val(t.a[1][0], d + 1)
                return isinst(v, t.a[1][1])
            if n == "builtins.type" and len(t.a[1]) == 1:
                v = self.val(t.a[1][0], d + 1)
                return ("lib", "builtins." + type(v).__name__)
            if n in ("builtins.float", "builtins.int", "builtins.abs", "builtins.bool", "builtins.len", "math.isnan", "numpy.isnan",
                     "math.isfinite", "numpy.isfinite", "builtins.str") and len(t.a[1]) == 1:
                v = self.val(t.a[1][0], d + 1)
                import math
                try:
                    return {"float": float, "int": int, "abs": abs, "bool": bool, "len": len, "isnan": math.isnan,
                            "isfinite": math.isfinite, "str": str}[n.split(".")[-1]](v)
                except Exception:
                    raise Unknown
            if n == "numpy.isscalar":
                v = self.val(t.a[1][0], d + 1)
                return isinstance(v, (int, float, str))
            if n == "builtins.range":
                try:
                    return range(*[self.val(x, d + 1) for x in t.a[1]])
                except TypeError:
                    raise Unknown
        raise Unknown


NUM = {"builtins.int": (int,), "builtins.float": (float,), "builtins.str": (str,), "builtins.bool": (bool,), "numbers.Integral": (int,),
       "numbers.Real": (int, float), "numbers.Number": (int, float), "numbers.Rational": (int,), "builtins.complex": (),
       "numpy.integer": (), "numpy.floating": (float,), "numpy.number": (), "numpy.float64": (), "numpy.int64": (), "builtins.list": (list,),
       "builtins.tuple": (tuple,), "builtins.dict": (dict,), "builtins.set": (set,)}
NUM["numpy.floating"] = ()


def isinst(v, c):
    names = c.a[0] if c.op in ("tup", "list") else (c,)
    out = False
    for y in names:
        if y.op != "lib":
            raise Unknown
        n = K.canon_lib(y.a[0])
        if n not in NUM:
            if isinstance(v, (int, float, str, type(None))):
                continue
            raise Unknown
        if isinstance(v, bool) and n not in ("builtins.bool", "builtins.int", "numbers.Integral", "numbers.Number", "numbers.Real"):
            continue
        out = out or isinstance(v, NUM[n])
    return out


def compare(op, a, b):
    try:
        if op == "==":
            return a == b
        if op == "!=":
            return a != b
        if op == "<":
            return a < b
        if op == "<=":
            return a <= b
        if op == ">":
            return a > b
        if op == ">=":
            return a >= b
        if op == "in":
            return a in b
        if op == "not in":
            return a not in b
        if op == "is":
            return a is b if a is None or b is None or isinstance(a, bool) else a == b
        if op == "is not":
            return a is not b if a is None or b is None or isinstance(a, bool) else a != b
    except TypeError:
        raise Refused
    raise Unknown


class Refused(Exception):
    """The comparison itself raises a TypeError for such a value."""


def outcome(h, conds):
    """'out': some condition is false under h; 'in': none is; 'unknown': conditions about the subject stay open."""
    unk = False
    for c, p in conds:
        if c.op in ("iter", "exc", "noreturn"):
            continue
        try:
            v = bool(h.val(c))
        except Refused:
            return "out"
        except Unknown:
            if h.about(c):
                unk = True
            continue
        if v != p:
            return "out"
    return "unknown" if unk else "in"


class Entry:
    """The returns, state writes and refusals of one public operation."""

    def __init__(self, prog, name, funcs, cls=None, only=None):
        self.name, self.cls = name, cls
        self.parts = []
        for f in funcs:
            Sy = Y.Sym(prog, only=only)
            Sy.run(f, self_cls=cls)
            self.parts.append((f, Sy))
        self.f = funcs[-1]

    def judge(self, h):
        """-> 'refused' | 'accepted' | 'unknown' and, if accepted, the return event."""
        worst, ev = "refused", None
        for f, Sy in self.parts:
            if self.stop(h, Sy) is not None:
                return "refused", None
            res = [(outcome(h, e.conds), e) for e in Sy.events if e.kind == "return" and not e.stack]
            if not res or all(r == "out" for r, _ in res):
                return "refused", None
            ins = [e for r, e in res if r == "in"]
            if ins:
                worst, ev = ("accepted", ins[0]) if worst != "unknown" else (worst, ev)
            else:
                worst = "unknown"
        return worst, ev

    def stop(self, h, Sy):
        """The first refusal that is certainly reached under h."""
        rets = [e for e in Sy.events if e.kind == "return" and not e.stack]
        for e in Sy.events:
            if e.kind not in ("raise", "assert") or e.loops:
                continue
            if any(part == "body" and t.handlers and not all(reraises(x) for x in t.handlers) or isinstance(part, tuple) for t, part in e.tries):
                continue
            cs = list(e.conds) + ([(e.data[0], False)] if e.kind == "assert" else [])
            if not any(h.about(c) for c, p in cs):
                continue
            try:
                if all(c.op not in ("iter", "exc", "noreturn") and self.met(h, c, p, rets) for c, p in cs):
                    return e
            except Refused:
                return e
        return None

    @staticmethod
    def met(h, c, p, rets):
        """The condition holds under h, or is about something else and holds on every normal path."""
        try:
            return bool(h.val(c)) == p
        except Unknown:
            return not h.about(c) and all((c, p) in r.conds for r in rets)

    def guards(self, h):
        """Refusals whose condition looks at the subject."""
        out = []
        for f, Sy in self.parts:
            for e in Sy.events:
                if e.kind in ("raise", "assert"):
                    cs = list(e.conds) + ([(e.data[0], False)] if e.kind == "assert" else [])
                    if any(h.about(c) for c, p in cs):
                        out.append((e, cs))
        return out

    def unclear(self, h):
        """A guard about the subject whose condition cannot be decided under h."""
        for e, cs in self.guards(h):
            for c, p in cs:
                if c.op in ("iter", "exc") or not h.about(c):
                    continue
                try:
                    h.val(c)
                except Refused:
                    pass
                except Unknown:
                    if not self.evaded(h, c, p):
                        return e
        return None

    def history(self, h):
        """A guard about the subject that is met under h but for conditions on earlier state."""
        for e, cs in self.guards(h):
            if any(self.evaded(h, c, p) for c, p in cs):
                return True
            rest = []
            try:
                for c, p in cs:
                    try:
                        if bool(h.val(c)) != p:
                            rest = None
                            break
                    except Unknown:
                        rest.append(c)
            except Refused:
                continue
            if rest and all(not h.about(c) and self.earlier(c) for c in rest):
                return True
        return False

    @staticmethod
    def earlier(x):
        return any(y.op == "attr" and y.a[0].op == "self" and (y.a[1].startswith("_") or y.a[1].endswith("_")) or
                   y.op == "call" and y.a[0] == "builtins.hasattr" for y in Y.walk(x))

    @staticmethod
    def evaded(h, c, p):
        """`invalid and <something about earlier state>`: the refusal depends on the history of the estimator."""
        parts = Y.split_cond(c, p)
        if len(list(parts)) < 2:
            return False
        for x, q in Y.split_cond(c, p):
            if h.about(x):
                continue
            if Entry.earlier(x):
                return True
        return False


def near(*xs):
    return xs


def cells(Sy_list, subject, bounds):
    """Representatives of the cells that the constants compared with the subject cut the number line into."""
    cs = set(bounds)
    for Sy in Sy_list:
        for e in Sy.events:
            for c, p in e.conds + (((e.data[0], True),) if e.kind == "assert" else ()):
                for x in Y.walk(c):
                    if x.op == "cmp" and (any(y is subject for y in Y.walk(x.a[1])) or any(y is subject for y in Y.walk(x.a[2]))):
                        for y in Y.walk((x.a[1], x.a[2])):
                            if y.op == "c" and isinstance(y.a[0], (int, float)) and not isinstance(y.a[0], bool):
                                cs.add(y.a[0])
    cs = sorted(cs)
    pts = set(cs)
    for a, b in zip(cs, cs[1:]):
        pts.add((a + b) / 2)
    pts.add(cs[0] - 1)
    pts.add(cs[-1] + 1)
    pts.add(cs[-1] * 10 + 100)
    pts.add(cs[0] * 10 - 100)
    ints = sorted({int(x) for x in pts if float(x).is_integer()} | {int(c) + d for c in cs for d in (-1, 0, 1)})
    return sorted(float(x) for x in pts), ints


def check_C19(prog, rep):
    rep.rule("range", "The constants in the guards on an option cut its values into cells; every cell outside the documented range reaches no "
             "return of the operation, every cell inside reaches one.")
    rep.rule("data", "Data of an unsupported kind, shape or content (each kind a hypothesis about the argument) reaches no return of the operation.")
    rep.rule("before-state", "Under such a hypothesis no learned attribute is written before the refusal.")
    rep.rule("checked-by-library", "Fits that leave the validation of their data to scikit-learn call the validator on every path, on the "
             "data itself, before learned state is written.")
    E = {}

    def est(name, meths, only=None):
        cls = prog.cls(S.ESTIMATORS[name])
        fs = [cls.find(m) for m in meths]
        if any(f is None for f in fs):
            raise M.AnalysisBroken("%s has no %s" % (name, "/".join(meths)))
        return Entry(prog, "%s.%s" % (name, meths[-1]), fs, cls, only or follow(cls))

    def fn(dotted):
        f = prog.func(dotted)
        return Entry(prog, f.qual, [f], None, lambda g: True)

    def num(entry, subject, what, reject, accept, ints=True, floats=True, other=()):
        syms = [Sy for _, Sy in entry.parts]
        fl, it = cells(syms, subject, BOUNDS[what])
        todo = [("%s %r" % (what, v), v) for v in (fl if floats else [])] + [("%s %r" % (what, v), v) for v in (it if ints else [])]
        todo += [("%s %r" % (what, v), v) for v in other]
        for label, v in todo:
            h = Hyp(label, subject, v)
            want = "refused" if reject(v) else ("accepted" if accept(v) else None)
            if want is None:
                continue
            decide(rep, "range", entry, h, want)
    opt = lambda entry, n: Y.mk("attr", Y.mk("self", entry.cls.qual), n)
    isn = lambda v: isinstance(v, (int, float)) and not isinstance(v, bool)
    supp_bad = lambda v: not isn(v) or (isinstance(v, int) and v < 1) or (isinstance(v, float) and (v < 0 or v > 1))
    supp_ok = lambda v: isn(v) and (isinstance(v, int) and v >= 1 or isinstance(v, float) and 0 < v <= 1)
    for n in ("LCM", "LCMMax"):
        e = est(n, ["fit"])
        num(e, opt(e, "min_supp"), "min_supp", supp_bad, supp_ok, other=("a", None))
    e = est("MBDLLBorder", ["__init__"])
    num(e, Y.mk("p", "min_supp"), "min_supp", lambda v: isinstance(v, int) or supp_bad(v), lambda v: isinstance(v, float) and supp_ok(v), other=("a", None))
    num(e, Y.mk("p", "min_growth_rate"), "growth rate", lambda v: v <= 1, lambda v: v > 1)
    e = est("SLIMVectorizer", ["__init__"])
    for v, want in (("codes", "accepted"), ("one-hot", "accepted"), ("", "refused"), ("code", "refused"), ("one-hot ", "refused"), (None, "refused")):
        decide(rep, "range", e, Hyp("strategy %r" % (v,), Y.mk("p", "strategy"), v), want)
    e = fn("skmine.datasets.make_transactions")
    num(e, Y.mk("p", "density"), "density", lambda v: v <= 0 or v >= 1, lambda v: 0 < v < 1, ints=False)
    e = fn("skmine.datasets.make_classification")
    num(e, Y.mk("p", "class_sep"), "class_sep", lambda v: v < 0 or v > 1, lambda v: 0 <= v <= 1)
    num(e, Y.mk("p", "n_classes"), "n_classes", lambda v: v <= 0, lambda v: v >= 1, floats=False)
    for nm in ("weights", "densities"):
        for wl, nc, want in ((2, 3, "refused"), (3, 2, "refused"), (1, 2, "refused")):
            decide(rep, "data", e, lens(nm, wl, nc), want)
    data_rules(prog, rep, est, fn)
    libs(prog, rep)
    rep.need("range", 70)
    rep.need("data", 20)
    rep.need("checked-by-library", 2)


BOUNDS = {"min_supp": (0, 1), "growth rate": (1,), "density": (0, 1), "class_sep": (0, 1), "n_classes": (0, 1)}


def follow(cls):
    def only(g):
        n = g.name
        if n.startswith("__") and n != "__init__":
            return False
        return P.small(g) or "check" in n or "valid" in n or n in ("prefit", "fit", "__init__") or has_refusal(g)
    return only


_ref = {}


def has_refusal(g):
    if g not in _ref:
        _ref[g] = any(isinstance(n, (ast.Raise, ast.Assert)) for n in ast.walk(g.node)) and len(list(ast.walk(g.node))) < 600
    return _ref[g]


def decide(rep, rule, entry, h, want):
    got, ev = entry.judge(h)
    f = entry.f
    if got == want:
        rep.ok(rule, "%s: %s is %s" % (entry.name, h.label, want))
        if want == "refused":
            state_order(rep, entry, h)
    elif got == "unknown" and not (want == "refused" and entry.history(h)):
        rep.undecided(rule, f.where, h.label)
    elif want == "refused" and entry.unclear(h) is not None:
        rep.undecided(rule, entry.unclear(h).where, "guard on %s" % h.label)
    else:
        rep.violation(rule, f.module.rel, entry.name, h.label, "%s %s %s" % (
            entry.name, "accepts" if want == "refused" else "refuses", h.label), ev.line if ev is not None else f.node.lineno)


def state_order(rep, entry, h):
    """Refused under h: was learned state written before?"""
    if entry.cls is None or not (entry.f.name == "fit"):
        return
    self_t = Y.mk("self", entry.cls.qual)
    private = learned_private(entry.cls)
    for f, Sy in entry.parts:
        last = entry.stop(h, Sy)
        for e in Sy.events:
            if last is not None and e.i >= last.i:
                break
            if e.kind == "setattr" and e.data[0] is self_t and isinstance(e.data[1], str) and (
                    e.data[1].endswith("_") or e.data[1] in private) and outcome(h, e.conds) == "in":
                if e.data[1] in ("n_features_in_",):
                    continue
                rep.violation("before-state", e.func.module.rel, e.func.qual, e.data[1],
                              "%s has replaced %s when it refuses %s" % (entry.name, e.data[1], h.label), e.line, e.chain())
        rep.ok("before-state")


def learned_private(cls):
    """Attributes like _code_table that the constructor leaves empty, fit fills and public queries read."""
    from .params import all_methods
    init = cls.find("__init__")
    if init is None:
        return set()
    empty = {n.targets[0].attr for n in ast.walk(init.node) if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute)
             and n.targets[0].attr.startswith("_") and isinstance(n.value, ast.Constant)}
    read = {n.attr for g in all_methods(cls) if not g.name.startswith("_") and g.name != "fit" for n in ast.walk(g.node)
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)}
    return empty & read


def lens(nm, wl, nc):
    """A list of the wrong length for the number of classes."""
    def facts(t):
        if t.op == "p" and t.a[0] == "n_classes":
            return (nc,)
        if t.op == "cmp" and t.a[0] in ("is", "is not") and t.a[2] is Y.NONE and t.a[1].op == "p":
            if t.a[1].a[0] == nm:
                return (t.a[0] == "is not",)
            return (t.a[0] == "is",)
        if t.op == "p" and t.a[0] == nm:
            return ((0.5,) * wl,)
        if t.op == "call" and t.a[0] == "builtins.len":
            x = t.a[1][0]
            if x.op == "bin" and x.a[0] == "*" and x.a[1].op == "list":
                return (nc,)
            if x.op == "call" and x.a[0] in ("numpy.full", "numpy.repeat", "numpy.ones"):
                return (nc,)
            if x.op == "comp":
                return (nc,)
        if t.op == "bin" and t.a[0] == "*" and t.a[1].op == "list":
            return ((0.5,) * nc,)
        return None
    return Hyp("%d %s for %d classes" % (wl, nm, nc), None, None, facts, Y.mk("p", nm))


def kind_facts(root, types, extra=None):
    """The argument is an instance of exactly the named library types (and of nothing else the guards ask for)."""
    def facts(t):
        if extra is not None:
            r = extra(t)
            if r is not None:
                return r
        if t.op == "call" and t.a[0] == "builtins.isinstance" and len(t.a[1]) == 2 and t.a[1][0] is root:
            c = t.a[1][1]
            ns = c.a[0] if c.op in ("tup", "list") else (c,)
            return (any(y.op == "lib" and K.canon_lib(y.a[0]) in types for y in ns),)
        if t.op == "call" and isinstance(t.a[0], str) and t.a[0].endswith("issparse") and t.a[1] and t.a[1][0] is root:
            return ("sparse" in types,)
        if t.op == "cmp" and t.a[0] in ("is", "is not", "==", "!=") and t.a[1] is root and t.a[2] is Y.NONE:
            return (t.a[0] in ("is not", "!="),)
        return None
    return facts


def label_count(root, n):
    def facts(t):
        if t.op == "call" and t.a[0] == "builtins.len" and len(t.a[1]) == 1:
            x = t.a[1][0]
            if any(y is root for y in Y.walk(x)) and (
                    x.op == "call" and x.a[0] in ("numpy.unique", "builtins.set", "builtins.frozenset", "pandas.unique") or
                    x.op == "meth" and x.a[1] in ("unique", "value_counts", "drop_duplicates") or
                    x.op == "attr" and x.a[1] in ("categories", "groups") or
                    x.op == "attr" and x.a[1] == "classes_"):
                return (n,)
        if t.op == "meth" and t.a[1] == "nunique" and any(y is root for y in Y.walk(t.a[0])):
            return (n,)
        if t.op == "attr" and t.a[1] in ("size",) and any(y is root for y in Y.walk(t)) and any(
                y.op == "call" and y.a[0] == "numpy.unique" for y in Y.walk(t)):
            return (n,)
        if t.op in ("item", "idx") and t.op == "item" and any(y is root for y in Y.walk(t)) and any(
                y.op == "attr" and y.a[1] == "shape" for y in Y.walk(t)):
            return (n,)
        return None
    return facts


def data_rules(prog, rep, est, fn):
    from .. import sym as Y2
    ppm = est("PeriodicPatternMiner", ["fit"])
    s = Y.mk("p", ppm.f.params()[1][0])
    decide(rep, "data", ppm, Hyp("data that is not a Series", None, None, kind_facts(s, ()), s), "refused")
    ix = Y.mk("attr", s, "index")

    def bad_index(t):
        if t.op == "call" and t.a[0] == "builtins.isinstance" and t.a[1][0] is ix:
            return (False,)
        return None
    decide(rep, "data", ppm, Hyp("a Series with an index of another type", None, None, kind_facts(s, ("pandas.Series", "pandas.core.series.Series"), bad_index), ix), "refused")
    gm = est("GraphMDL", ["fit"])
    decide(rep, "data", gm, Hyp("no graph", Y.mk("p", gm.f.params()[1][0]), None), "refused")
    mb = est("MBDLLBorder", ["fit"])
    ps = [p[0] for p in mb.f.params()]
    D, y = Y.mk("p", ps[1]), Y.mk("p", ps[2])
    for n in (1, 3):
        decide(rep, "data", mb, Hyp("%d classes" % n, None, None, label_count(y, n), y), "refused")
    decide(rep, "data", mb, Hyp("data that is not a Series", None, None, kind_facts(D, (), label_count(y, 2)), D), "refused")
    md = est("MDLPDiscretizer", ["fit"])
    ps = [p[0] for p in md.f.params()]
    y = Y.mk("p", ps[2])
    decide(rep, "data", md, Hyp("no labels", y, None), "refused")

    def not_int(root):
        def facts(t):
            if t.op == "call" and t.a[0] == "numpy.issubdtype" and any(z is root for z in Y.walk(t.a[1][0])):
                k = t.a[1][1].a[0] if len(t.a[1]) == 2 and t.a[1][1].op == "lib" else None
                return (k in ("numpy.number", "numpy.floating", "numpy.inexact", "numpy.generic", "numpy.float64", "builtins.float"),)
            if t.op == "call" and isinstance(t.a[0], str) and t.a[0].endswith(("is_numeric_dtype", "is_float_dtype")):
                return (True,)
            if t.op == "attr" and t.a[1] == "kind" and any(z is root for z in Y.walk(t)):
                return ("f",)
            if t.op == "cmp" and t.a[1] is root and t.a[2] is Y.NONE:
                return (t.a[0] in ("is not", "!="),)
            if t.op == "call" and isinstance(t.a[0], str) and t.a[0].endswith("is_integer_dtype"):
                return (False,)
            return None
        return facts
    decide(rep, "data", md, Hyp("labels that are not integers", None, None, not_int(y), y), "refused")
    r = Y.mk("attr", Y.mk("self", md.cls.qual), "random_state")

    def seed(t):
        if t.op == "call" and t.a[0] == "builtins.isinstance" and t.a[1][0] is r:
            return (False,)
        if t.op == "cmp" and t.a[1] is r and t.a[0] in ("is", "is not", "==", "!="):
            return (t.a[0] in ("is not", "!="),)
        return None
    decide(rep, "data", md, Hyp("a random state that is no seed or generator", None, None, seed, r), "refused")
    mv = est("MDLPVectDiscretizer", ["fit"])
    ps = [p[0] for p in mv.f.params()]
    X, y = Y.mk("p", ps[1]), Y.mk("p", ps[2])
    decide(rep, "data", mv, Hyp("labels that are not integers", None, None, not_int(y), y), "refused")

    def dims(root, n):
        def facts(t):
            if t.op == "call" and t.a[0] == "builtins.len" and t.a[1][0].op == "attr" and t.a[1][0].a[1] == "shape" and t.a[1][0].a[0] is root:
                return (n,)
            if t.op == "attr" and t.a[1] == "ndim" and t.a[0] is root:
                return (n,)
            if t.op == "call" and t.a[0] == "numpy.ndim" and t.a[1][0] is root:
                return (n,)
            if t.op == "call" and t.a[0] == "builtins.hasattr" and t.a[1][0] is root:
                return (True,)
            return None
        return facts
    decide(rep, "data", mv, Hyp("a matrix instead of a vector", None, None, dims(X, 2), X), "refused")
    gm = est("GraphMDL", ["fit"], lambda g: P.small(g))
    g = Y.mk("p", gm.f.params()[1][0])
    decide(rep, "data", gm, Hyp("no graph", g, None), "refused")
    # columns of the fitted model
    mt = est("MDLPDiscretizer", ["transform"])
    X = Y.mk("p", mt.f.params()[1][0])
    me = Y.mk("self", mt.cls.qual)
    for what, way in (("other columns than", None), ("fewer columns than", "less"), ("more columns than", "more")):
        decide(rep, "data", mt, Hyp("a frame with %s in fit" % what, None, None,
                                    kind_facts(X, ("pandas.DataFrame",), mismatch(X, me, way)), X), "refused")
    # (fewer columns of an array have no column to read: numpy refuses those)
    decide(rep, "data", mt, Hyp("an array with more columns than in fit", None, None,
                                kind_facts(X, ("numpy.ndarray",), mismatch(X, me, "more")), X), "refused")
    lt = est("LCM", ["transform"], lambda g: P.small(g))
    D = Y.mk("p", lt.f.params()[1][0])
    decide(rep, "data", lt, Hyp("rows of another width than in fit", None, None, mismatch(D, Y.mk("self", lt.cls.qual)), D), "refused")
    # tabular data of SLIM
    for ent, pn in ((est("SLIM", ["fit"]), None), (est("SLIM", ["prefit"]), None), (est("SLIM", ["cover"]), None)):
        D = Y.mk("p", ent.f.params()[1][0])
        two = dims(D, 2)
        decide(rep, "data", ent, Hyp("tabular data of an unknown type", None, None, kind_facts(D, (), two), D), "refused")
        for t in ("pandas.DataFrame", "numpy.ndarray"):
            kf = kind_facts(D, (t,), two)
            decide(rep, "data", ent, Hyp("%s of objects" % t, None, None, content(D, kf, "object"), D), "refused")
            decide(rep, "data", ent, Hyp("%s without columns" % t, None, None, content(D, kf, "empty"), D), "refused")
            decide(rep, "data", ent, Hyp("%s with missing values" % t, None, None, content(D, kf, "nan"), D), "refused")
    cy = fn("skmine.utils._check_y")
    y = Y.mk("p", cy.f.params()[0][0])
    decide(rep, "data", cy, Hyp("labels of an unknown type", None, None, kind_facts(y, ()), y), "refused")
    cd = fn("skmine.utils._check_D")
    D = Y.mk("p", cd.f.params()[0][0])
    decide(rep, "data", cd, Hyp("tabular data of an unknown type", None, None, kind_facts(D, (), dims(D, 2)), D), "refused")
    rs = fn("skmine.utils._check_random_state")
    sd = Y.mk("p", rs.f.params()[0][0])
    for v in ("a", 1.5):
        def seed2(t, v=v):
            if t.op == "call" and t.a[0] == "builtins.isinstance" and t.a[1][0] is sd:
                return (False,)
            if t.op == "cmp" and t.a[1] is sd and t.a[0] in ("is", "is not", "==", "!="):
                return (t.a[0] in ("is not", "!="),)
            return None
        decide(rep, "data", rs, Hyp("seed %r" % (v,), None, None, seed2, sd), "refused")


def mismatch(root, self_t, way=None):
    """What the data shows differs from what the model remembers: the data has
    less (way "less") or more (way "more"), or either (None)."""
    def sides(a, b):
        ra, rb = (any(z is root for z in Y.walk(x)) for x in (a, b))
        sa, sb = (any(z.op == "attr" and z.a[0] is self_t for z in Y.walk(x)) for x in (a, b))
        return 1 if ra and sb and not rb else -1 if rb and sa and not ra else 0

    def facts(t):
        if t.op == "cmp" and t.a[0] in ("==", "!=") and sides(t.a[1], t.a[2]):
            return (t.a[0] == "!=",)
        if t.op == "cmp" and t.a[0] in ("<", "<=", ">", ">=") and way and sides(t.a[1], t.a[2]):
            less = (way == "less") == (sides(t.a[1], t.a[2]) == 1)
            return (less == (t.a[0][0] == "<"),)
        if t.op == "meth" and t.a[1] in ("issubset", "issuperset") and way and len(t.a[2]) == 1 and sides(t.a[0], t.a[2][0]):
            less = (way == "less") == (sides(t.a[0], t.a[2][0]) == 1)
            return (less == (t.a[1] == "issubset"),)
        if t.op == "bin" and t.a[0] in ("-", "^"):
            a, b = t.a[1], t.a[2]
            if way and t.a[0] == "-" and sides(a, b):
                return (("other",) if (way == "more") == (sides(a, b) == 1) else (),)
            if any(z is root for z in Y.walk(t)) and any(z.op == "attr" and z.a[0] is self_t for z in Y.walk(t)):
                return (("other",),)
        if t.op == "meth" and t.a[1] == "difference" and way and len(t.a[2]) == 1 and sides(t.a[0], t.a[2][0]):
            return (("other",) if (way == "more") == (sides(t.a[0], t.a[2][0]) == 1) else (),)
        if t.op == "meth" and t.a[1] in ("symmetric_difference",) and any(z is root for z in Y.walk(t)):
            return (("other",),)
        if t.op == "meth" and t.a[1] in ("equals",) and any(z is root for z in Y.walk(t)):
            return (False,)
        return None
    return facts


def content(root, kf, what):
    def facts(t):
        r = kf(t)
        if r is not None:
            return r
        if not any(z is root for z in Y.walk(t)):
            return None
        if t.op == "cmp" and t.a[0] in ("in", "not in") and t.a[1].op == "lib" and t.a[1].a[0] in ("builtins.object", "numpy.object_"):
            return ((what == "object") == (t.a[0] == "in"),)
        if t.op in ("meth", "call") and t.op == "meth" and t.a[1] in ("any",):
            ws = set(z.a[1] for z in Y.walk(t) if z.op in ("meth", "attr") and isinstance(z.a[1], str))
            if ws & {"isnull", "isna", "isin", "isnan"} or any(z.op == "call" and z.a[0] in ("numpy.isnan", "pandas.isnull", "pandas.isna")
                                                             for z in Y.walk(t)):
                return (what == "nan",)
            if any(z.op == "cmp" and z.a[0] == "==" and any(y.op == "lib" and y.a[0] == "builtins.object" for y in Y.walk(z)) for z in Y.walk(t)):
                return (what == "object",)
        if t.op == "item" and t.a[0].op == "attr" and t.a[0].a[1] == "shape":
            return (0 if what == "empty" else 3,)
        if t.op == "idx" and t.a[0].op == "attr" and t.a[0].a[1] == "shape":
            return (0 if what == "empty" else 3,)
        if t.op == "attr" and t.a[1] == "size":
            return (0 if what == "empty" else 9,)
        if t.op == "attr" and t.a[1] == "empty":
            return (what == "empty",)
        if t.op == "call" and t.a[0] == "builtins.len" and any(y.op == "attr" and y.a[1] == "columns" for y in Y.walk(t)):
            return (0 if what == "empty" else 3,)
        return None
    return facts


VALIDATORS = {"_validate_data", "check_array", "check_X_y", "validate_data", "check_classification_targets"}
LIB_CHECKED = [("LCM", "fit", 1), ("LCMMax", "fit", 1), ("SlimClassifier", "fit", 1), ("PeriodicPatternMiner", "fit", 1)]


def libs(prog, rep):
    for name, mn, _ in LIB_CHECKED:
        cls = prog.cls(S.ESTIMATORS[name])
        f = cls.find(mn)
        self_t = Y.mk("self", cls.qual)
        D = Y.mk("p", f.params()[1][0])
        Sy = Y.Sym(prog, only=follow(cls))
        Sy.run(f, self_cls=cls)
        calls = []
        for e in Sy.events:
            if e.kind == "meth" and e.data[2] in VALIDATORS and e.data[1] is self_t:
                calls.append((e, list(e.data[3]) + list(e.data[4].values())))
            elif e.kind == "call" and isinstance(e.data[1], str) and e.data[1].split(".")[-1] in VALIDATORS:
                calls.append((e, list(e.data[2]) + list(e.data[3].values())))
            elif e.kind == "rcall" and ("valid" in e.data[1].name or "check" in e.data[1].name):
                calls.append((e, list((e.data[2] or {}).values())))
        on_data = [e for e, a in calls if any(x is D for v in a for x in Y.walk(v))]
        rets = [e for e in Sy.events if e.kind == "return" and not e.stack]
        for r in rets:
            if not on_data:
                rep.violation("checked-by-library", f.module.rel, "%s.%s" % (name, mn), "validator", "the data is not validated", f.node.lineno)
                continue
            if any(all(c in r.conds for c in e.conds) and e.i < r.i for e in on_data):
                rep.ok("checked-by-library", "%s.%s" % (name, mn))
            elif exhaustive(on_data, r):
                rep.ok("checked-by-library", "%s.%s validates in every branch" % (name, mn))
            else:
                # conditional validation: positive evidence only if no other branch validates
                e = on_data[0]
                cond = [c for c, p in e.conds if (c, p) not in r.conds]
                rep.violation("checked-by-library", f.module.rel, "%s.%s" % (name, mn), K.short(e.node),
                              "the data is validated only if %s" % Y.show(cond[0])[:70], e.line)
        if on_data:
            first = min(e.i for e in on_data)
            for e in Sy.events:
                if e.kind == "setattr" and e.data[0] is self_t and e.i < first and isinstance(e.data[1], str) and e.data[1].endswith("_"):
                    rep.violation("before-state", e.func.module.rel, e.func.qual, e.data[1],
                                  "%s.%s replaces %s before the data is validated" % (name, mn, e.data[1]), e.line)
    rep.ok("before-state", n=0)


def exhaustive(evs, r):
    base = set(r.conds)
    extra = [[(c, p) for c, p in e.conds if (c, p) not in base] for e in evs]
    one = [x[0] for x in extra if len(x) == 1]
    return any((c, not p) in one for c, p in one)
