"""C05, further rule: an option is not switched off as a whole by another option or by a flag of the estimator."""
import ast
from . import common as K


def flat(t, pol):
    """The atomic conditions that hold for sure when test t came out as pol: (expression, polarity)."""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return flat(t.operand, not pol)
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) == pol:
        return [x for v in t.values for x in flat(v, pol)]
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.NotEq, ast.IsNot, ast.NotIn)):
        op = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}[type(t.ops[0])]()
        return [(ast.copy_location(ast.Compare(t.left, [op], t.comparators), t), not pol)]
    return [(t, pol)]


def leaves(stmts):
    """Does the block always leave the function (or loop) with an ordinary result?"""
    return bool(stmts) and isinstance(stmts[-1], (ast.Return, ast.Continue, ast.Break))


def refusal(n):
    return isinstance(n, (ast.Assert, ast.Raise)) or isinstance(n, ast.If) and n.body and isinstance(n.body[-1], ast.Raise)


class Uses:
    """All places where a value is used for something, with the conditions under which they are reached."""

    def __init__(self, fs):
        self.fs = fs
        self.par = {f: K.parents(f.node) for f in fs}

    def conds(self, f, n):
        par, out, x = self.par[f], [], n
        while x in par and x is not f.node:
            q = par[x]
            if isinstance(q, (ast.If, ast.While)) and x is not q.test:
                if any(x is s for s in q.body):
                    out += flat(q.test, True)
                elif any(x is s for s in q.orelse) and isinstance(q, ast.If):
                    out += flat(q.test, False)
            elif isinstance(q, ast.IfExp) and x is not q.test:
                out += flat(q.test, x is q.body)
            elif isinstance(q, ast.BoolOp):
                for v in q.values:
                    if v is not x:
                        out += flat(v, isinstance(q.op, ast.And))
            elif isinstance(q, ast.comprehension) and x is not q.iter:
                for v in q.ifs:
                    if v is not x:
                        out += flat(v, True)
            elif isinstance(q, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) and not isinstance(x, ast.comprehension):
                for g in q.generators:
                    for v in g.ifs:
                        out += flat(v, True)
            for fld in ("body", "orelse", "finalbody"):
                blk = getattr(q, fld, None)
                if isinstance(blk, list) and any(x is s for s in blk):
                    for s in blk:
                        if s is x:
                            break
                        if isinstance(s, ast.If):
                            if leaves(s.body):
                                out += flat(s.test, False)
                            elif leaves(s.orelse):
                                out += flat(s.test, True)
            x = q
        return out

    def of(self, where, is_use, depth=0, seen=None):
        """[(f, node, conditions)] of the effective uses of the values that is_use names in the functions `where`."""
        seen = set() if seen is None else seen
        out = []
        for f in where:
            par = self.par[f]
            for n in ast.walk(f.node):
                if not is_use(f, n) or not isinstance(getattr(n, "ctx", None), ast.Load):
                    continue
                cs = self.conds(f, n)
                x, stop, target = n, False, None
                while x in par and x is not f.node:
                    q = par[x]
                    if isinstance(q, ast.If) and x is q.test and filling(q, n):
                        stop = True
                        break
                    if refusal(q) and (isinstance(q, (ast.Assert, ast.Raise)) or x is q.test):
                        stop = True
                        break
                    if isinstance(q, (ast.FunctionDef, ast.Lambda)) and q is not f.node:
                        break
                    if isinstance(q, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and x is q.value:
                        ts = q.targets if isinstance(q, ast.Assign) else [q.target]
                        target = ts[0] if len(ts) == 1 else None
                        if not isinstance(target, (ast.Name, ast.Attribute)):
                            target = None
                        break
                    if isinstance(q, ast.stmt):
                        break
                    x = q
                if stop:
                    continue
                more = None
                if target is not None and depth < 4:
                    more = self.follow(f, target, depth, seen)
                if more is None:
                    out.append((f, n, cs))
                else:
                    out += [(g, m, cs + c) for g, m, c in more]
        return out

    def follow(self, f, target, depth, seen):
        """Uses of what the value was stored under; None: not followed, the store itself is the use."""
        if isinstance(target, ast.Name):
            key = (f, target.id)
            if key in seen:
                return []
            return self.of([f], lambda g, n: isinstance(n, ast.Name) and n.id == target.id, depth + 1, seen | {key})
        if isinstance(target.value, ast.Name) and target.value.id == "self":
            key = ("self", target.attr)
            if key in seen:
                return []
            fs = [g for g in self.fs if g.cls is not None]
            got = self.of(fs, lambda g, n: isinstance(n, ast.Attribute) and n.attr == target.attr and isinstance(n.value, ast.Name)
                          and n.value.id == "self", depth + 1, seen | {key})
            return got or None
        return None


def switched_off(uses, f0, o, others, aliases):
    """A condition on other options or flags without which no use of the option is reached: (condition, polarity) or None."""
    if not uses:
        return None
    common = None
    for f, n, cs in uses:
        here = {}
        for t, p in cs:
            k = key(t, aliases)
            if k is not None:
                here[(k, p)] = t
        common = here if common is None else {k: v for k, v in common.items() if k in here}
        if not common:
            return None
    for (k, p), t in sorted(common.items(), key=lambda x: x[1].lineno):
        names = atoms(t, aliases)
        if names is None or o in names or not names:
            continue
        if all(a in others for a in names) and not any(together(f0, o, a) for a in names):
            return t, p
    return None


def together(f, o, a):
    """Two ways of asking for the same: the operation refuses a call by looking at both."""
    for n in ast.walk(f.node):
        t = n.test if isinstance(n, ast.Assert) or isinstance(n, ast.If) and refusal(n) else None
        if t is not None and {o, a} <= {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}:
            return True
    return False


def key(t, aliases):
    class R(ast.NodeTransformer):
        def visit_Attribute(self, n):
            if isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr in aliases:
                return ast.Name(aliases[n.attr], ast.Load())
            return self.generic_visit(n)

        def visit_Name(self, n):
            return ast.Name(aliases.get(n.id, n.id), ast.Load())
    import copy
    return ast.dump(R().visit(copy.deepcopy(t)))


def atoms(t, aliases):
    """Names of the options and flags a condition is made of; None when it looks at anything else."""
    out = set()
    for n in ast.walk(t):
        if isinstance(n, ast.Attribute):
            if not (isinstance(n.value, ast.Name) and n.value.id == "self"):
                return None
            out.add(aliases.get(n.attr, "self." + n.attr))
        elif isinstance(n, ast.Name):
            if n.id != "self":
                out.add(aliases.get(n.id, n.id))
        elif isinstance(n, (ast.Call, ast.Subscript, ast.Lambda)):
            return None
    return out


def plain_copies(fs, params):
    """attribute or local -> parameter it is a plain copy of"""
    out, bad = {}, set()
    for f in fs:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    a = t.attr if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" else \
                        t.id if isinstance(t, ast.Name) else None
                    if a is None:
                        continue
                    if isinstance(n.value, ast.Name) and n.value.id in params and out.get(a, n.value.id) == n.value.id:
                        out[a] = n.value.id
                    else:
                        bad.add(a)
    return {a: p for a, p in out.items() if a not in bad and a != p}


def yes_no(fs):
    """Attributes of self that are set to yes or no, or to an option of the operation that says so by its default."""
    out = set()
    for f in fs:
        bools = {p for p, k, d in f.params() if isinstance(d, ast.Constant) and isinstance(d.value, bool)}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) \
                    and isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == "self":
                v = n.value
                if isinstance(v, ast.Compare) or isinstance(v, ast.Constant) and isinstance(v.value, bool) or \
                        isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not) or \
                        isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("isinstance", "bool", "any", "all", "hasattr") or \
                        isinstance(v, ast.Name) and v.id in bools:
                    out.add("self." + n.targets[0].attr)
    return out


def filling(q, n):
    """if p is None: p = ...   (the test only asks whether the option was left out)"""
    if isinstance(n, ast.Attribute) or not isinstance(q, ast.If) or q.orelse:
        return False
    return all(isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) and t.id == n.id for t in s.targets) for s in q.body)


def judge(rep, f, o, uses, others, aliases, what):
    hit = switched_off(uses, f, o, others, aliases)
    if hit is None:
        rep.ok("not-switched-off", "%s(%s)" % (what, o), n=1 if uses else 0)
        return
    t, p = hit
    g = next(u[0] for u in uses)
    rep.violation("not-switched-off", g.module.rel, g.qual, K.short(t), "option %s of %s only takes effect when %s is %s"
                  % (o, what, K.short(t), "true" if p else "false"), t.lineno)


def check(prog, rep, estimators, options, public):
    for name, cls in estimators:
        ms = {}
        for c in cls.mro():
            for mn, f in c.methods.items():
                ms.setdefault(mn, []).append(f)
        fs = [f for l in ms.values() for f in l]
        U = Uses(fs)
        init, opts = options(cls)
        onames = [o[0] for o in opts if o[1] not in ("vararg", "kwarg")]
        flags = {"self." + o for o in onames} | yes_no(fs)
        body = [f for f in fs if f.name not in ("__init__", "get_params", "set_params", "__copy__", "__repr__", "__str__")]
        for o in onames:
            if o == "n_jobs":
                continue      # changes no result
            uses = U.of(body, lambda g, n, o=o: isinstance(n, ast.Attribute) and n.attr == o and isinstance(n.value, ast.Name) and n.value.id == "self")
            judge(rep, init, "self." + o, uses, flags - {"self." + o}, {}, name)
        for mn in public(name, cls):
            for f in ms.get(mn, ())[:1]:
                ps = [(p, d) for p, k, d in f.params() if k in ("pos", "kwonly") and p not in ("self", "cls") and d is not None]
                if not ps or f.is_static:
                    continue
                names = {p for p, d in ps}
                al = plain_copies([f], names)
                for p, d in ps:
                    uses = U.of([f], lambda g, n, p=p: isinstance(n, ast.Name) and n.id == p)
                    judge(rep, f, p, uses, (names | flags) - {p}, al, "%s.%s" % (name, mn))
    funcs = {f for f in K.public_functions(prog)}
    funcs |= {f for m in {f.module for f in funcs} for f in m.functions if f.cls is None and f.parent is None}
    for f in sorted(funcs, key=lambda f: f.where):
        ps = [(p, d) for p, k, d in f.params() if k in ("pos", "kwonly") and d is not None]
        names = {p for p, d in ps}
        U = Uses([f])
        al = plain_copies([f], names)
        for p, d in ps:
            uses = U.of([f], lambda g, n, p=p: isinstance(n, ast.Name) and n.id == p)
            judge(rep, f, p, uses, names - {p}, al, f.qual)
