"""Symbolic value numbering of functions over their syntax trees (a gated SSA form).

Every expression is mapped to an interned term over the entry values of parameters and attributes; branches are merged
with gated `ite` terms, loops with placeholders whose initial and back-edge terms are recorded, and helpers of the
repository are analysed in place.  Nothing is executed and no solver is used: rules compare the terms structurally
(after a linear normal form) and read off which terms flow into which call, store, raise or return, and under which
branch conditions."""
import ast
from . import model as M

BINOP = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
         ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
CMPOP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is",
         ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
PURE_BUILTIN = {"len", "min", "max", "abs", "sum", "int", "float", "str", "bool", "round", "range", "isinstance",
                "issubclass", "type", "hasattr", "callable", "tuple", "frozenset", "repr", "any", "all", "divmod", "pow",
                "ord", "chr", "hash", "id", "format", "zip", "enumerate", "sorted", "reversed", "map", "filter"}
PURE_PREFIX = ("numpy.", "math.", "os.path.", "pandas.to_", "pandas.concat", "pandas.Timedelta", "operator.")
IMPURE = ("numpy.random.",)
PURE_METH = {"index", "columns", "values", "min", "max", "sum", "mean", "astype", "keys", "items", "get", "total_seconds",
             "format", "join", "split", "strip", "lower", "upper", "replace", "startswith", "endswith", "count", "copy",
             "union", "intersection", "intersection_cardinality", "difference", "union_len", "intersection_len", "nunique",
             "isin", "map", "apply", "unique", "to_numpy", "tolist", "reset_index", "sort_values", "sort_index", "head"}
MUTATORS = {"append", "add", "update", "extend", "insert", "pop", "popitem", "remove", "discard", "clear", "setdefault",
            "sort", "reverse", "intersection_update", "difference_update", "symmetric_difference_update", "appendleft"}


class T:
    __slots__ = ("op", "a", "h", "n")

    def __init__(self, op, a, n):
        self.op, self.a, self.n = op, a, n
        self.h = hash(n)

    def __hash__(self):
        return self.h

    def __repr__(self):
        return show(self)

    def __iter__(self):
        return iter(self.a)

    def __getitem__(self, i):
        return self.a[i]


_TAB = {}


def mk(op, *a):
    if op == "c":
        key = ("c", type(a[0]).__name__, a[0])
    else:
        key = (op,) + a
    t = _TAB.get(key)
    if t is None:
        t = _TAB[key] = T(op, a, len(_TAB) + 1)
    return t


def const(v):
    try:
        hash(v)
    except TypeError:
        return mk("c", repr(v))
    return mk("c", v)


NONE, TRUE, FALSE = const(None), const(True), const(False)


def is_const(t):
    return t.op == "c"


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d) for x in t) + ")"
        return getattr(t, "qual", None) or str(t)
    if d > 9:
        return "..."
    a, o, s = t.a, t.op, lambda x: show(x, d + 1)
    if o == "c":
        return repr(a[0])
    if o == "p":
        return a[0]
    if o == "self":
        return "self"
    if o == "attr":
        return s(a[0]) + "." + a[1]
    if o == "bin":
        return "(%s %s %s)" % (s(a[1]), a[0], s(a[2]))
    if o == "cmp":
        return "(%s %s %s)" % (s(a[1]), a[0], s(a[2]))
    if o == "not":
        return "not " + s(a[0])
    if o == "neg":
        return "-" + s(a[0])
    if o in ("and", "or"):
        return "(" + (" %s " % o).join(s(x) for x in a[0]) + ")"
    if o == "call":
        return "%s(%s)" % (a[0] if not isinstance(a[0], T) else s(a[0]),
                           ", ".join([s(x) for x in a[1]] + ["%s=%s" % (k, s(v)) for k, v in a[2]]))
    if o == "meth":
        return "%s.%s(%s)" % (s(a[0]), a[1], ", ".join([s(x) for x in a[2]] + ["%s=%s" % (k, s(v)) for k, v in a[3]]))
    if o == "idx":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "elem":
        return "elem(%s)" % s(a[0])
    if o == "pos":
        return "pos(%s)" % s(a[0])
    if o == "val":
        return "val(%s)" % s(a[0])
    if o == "item":
        return "%s<%s>" % (s(a[0]), a[1])
    if o == "ite":
        return "(%s if %s else %s)" % (s(a[1]), s(a[0]), s(a[2]))
    if o == "loop":
        return "loop(%s)" % (a[1],)
    if o == "new":
        return "%s(%s)" % (a[0].name, ", ".join([s(x) for x in a[1]] + ["%s=%s" % (k, s(v)) for k, v in a[2]]))
    if o in ("fn", "cls"):
        return a[0].name
    if o == "bound":
        return s(a[0]) + "." + a[1].name
    if o == "lib":
        return a[0]
    if o in ("tup", "list", "set"):
        return o + "(" + ", ".join(s(x) for x in a[0]) + ")"
    if o == "dict":
        return "{" + ", ".join("%s: %s" % (s(k), s(v)) for k, v in a[0]) + "}"
    if o == "comp":
        return "[%s for %s]" % (s(a[1]), ", ".join(s(g[0]) for g in a[2]))
    return "%s(%s)" % (o, ", ".join(s(x) if isinstance(x, (T, tuple)) else (getattr(x, "qual", None) or str(x)) for x in a))


def walk(t, into_loops=None, seen=None):
    """All subterms. With `into_loops` (a Sym), the initial and back-edge terms of loop placeholders as well."""
    st = [t]
    seen = set() if seen is None else seen
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(x.a)
        if into_loops is not None and x.op == "loop":
            init, back = into_loops.loops.get((x.a[0], x.a[1]), (None, ()))
            if init is not None:
                st.append(init)
            st.extend(back)


def ite(c, a, b):
    if a is b:
        return a
    if c.op == "c":
        return a if c.a[0] else b
    if c.op == "not":
        return ite(c.a[0], b, a)
    return mk("ite", c, a, b)


def neg(c):
    if c.op == "not":
        return c.a[0]
    if c.op == "c":
        return const(not c.a[0])
    if c.op == "cmp":
        inv = {"==": "!=", "!=": "==", "is": "is not", "is not": "is", "in": "not in", "not in": "in"}
        if c.a[0] in inv:
            return mk("cmp", inv[c.a[0]], c.a[1], c.a[2])
    return mk("not", c)


class Ev:
    __slots__ = ("kind", "node", "func", "conds", "stack", "withs", "tries", "data", "i", "heap", "loops")

    def __init__(self, kind, node, func, conds, stack, withs, tries, data, i, heap=None, loops=()):
        self.kind, self.node, self.func, self.conds, self.stack = kind, node, func, conds, stack
        self.withs, self.tries, self.data, self.i, self.heap, self.loops = withs, tries, data, i, heap, loops

    @property
    def line(self):
        return getattr(self.node, "lineno", 0)

    @property
    def where(self):
        return "%s:%d (%s)" % (self.func.module.rel, self.line, self.func.qual)

    def chain(self):
        return " -> ".join("%s:%d" % (f.qual, getattr(n, "lineno", 0)) for f, n in self.stack)

    def __repr__(self):
        return "<%s %s %s | %s>" % (self.kind, self.where, self.data, [(show(c), p) for c, p in self.conds])


class St:
    __slots__ = ("env", "heap", "conds")

    def __init__(self, env, heap, conds):
        self.env, self.heap, self.conds = env, heap, conds

    def copy(self):
        return St(dict(self.env), dict(self.heap), self.conds)


def method_of(t, d=0):
    """(receiver, name) of a method of one of several receivers, or None."""
    if t.op == "attr":
        return t.a
    if t.op == "ite" and d < 40:
        a = method_of(t.a[1], d + 1)
        b = method_of(t.a[2], d + 1) if a is not None else None
        if b is not None and a[1] == b[1]:
            return ite(t.a[0], a[0], b[0]), a[1]
    return None


class Fr:
    def __init__(self, func, node, parent, self_cls=None):
        self.func, self.node, self.parent = func, node, parent
        self.rets = []
        self.loops = []
        self.self_cls = self_cls
        self.closure = None
        self.gen = []


class Sym:
    MAXDEPTH = 14
    MAXEV = 120000

    def __init__(self, prog, opaque=(), inline=True, hints=None, gen_inline=True, only=None, decide=None, havoc=False):
        self.prog = prog
        self.opaque = set(opaque)       # function names (qual or where) that stay calls
        self.only = only                # None or predicate F -> bool: which functions are analysed in place
        self.inline = inline
        self.hints = hints or {}        # term printed or attribute name -> ClassInfo
        self.gen_inline = gen_inline
        self.events = []
        self.frames = []
        self.loops = {}                 # (lid, name) -> (init, [back-edge terms])
        self.havoc = havoc              # calls left opaque overwrite the attributes they may set
        self.keep = set()               # heap entries that `havoc` leaves alone
        self.stays = {}
        self.backs = {}                 # (lid, name) -> [(back-edge term, path conditions of that edge)]
        self.loopinfo = {}              # lid -> dict(node, iter, kind)
        self.closures = {}
        self.withs = ()
        self.tries = ()
        self.loopstack = ()
        self.quiet = 0
        self.occs = {}
        self.notes = []
        self.decide = decide            # optional callback: term -> True/False/None
        self.funcs = set()

    # -------------------------------------------------------------------------------------- entry
    def run(self, f, self_cls=None, args=None, heap=None, self_term=None):
        env = {}
        params = f.params()
        args = args or {}
        for i, (n, k, d) in enumerate(params):
            if i == 0 and f.cls is not None and not f.is_static and not isinstance(f.node, ast.Lambda):
                if f.is_classmethod:
                    env[n] = mk("cls", self_cls or f.cls)
                else:
                    env[n] = self_term or mk("self", (self_cls or f.cls).qual)
                    self.hints.setdefault(env[n], self_cls or f.cls)
                continue
            env[n] = args.get(n, mk("p", n))
        fr = Fr(f, f.node, None, self_cls or f.cls)
        self.frames.append(fr)
        self.funcs.add(f.where)
        st = St(env, dict(heap or {}), ())
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, st)
                fr.rets.append((st, v, f.node))
            else:
                end = self.block(f.node.body, st)
                if end is not None:
                    fr.rets.append((end, NONE, None))
                    self.event("return", f.node, end, (NONE,), implicit=True)
        finally:
            self.frames.pop()
        return fr.rets

    def event(self, kind, node, st, data, implicit=False):
        if self.quiet:
            return
        if len(self.events) > self.MAXEV:
            raise M.AnalysisBroken("symbolic evaluation too large")
        fr = self.frames[-1]
        self.events.append(Ev(kind, node, fr.func, st.conds, self.stack(), self.withs, self.tries, data,
                              len(self.events), None, self.loopstack))

    def stack(self):
        return tuple((x.parent.func, x.node) for x in self.frames if x.parent is not None)

    def ctx(self):
        return tuple(id(x.node) for x in self.frames if x.parent is not None)

    def occ(self, node, extra=None):
        key = (self.ctx(), id(node), extra)
        n = self.occs.get(key)
        if n is None:
            n = self.occs[key] = len(self.occs) + 1
        return n

    # -------------------------------------------------------------------------------------- statements
    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return st
        n = len(st.conds)
        r = m(s, st)
        if r is not None and isinstance(s, (ast.Expr, ast.Assign, ast.AnnAssign, ast.AugAssign)) and \
                any(c.op == "noreturn" for c, _ in r.conds[n:]):
            return None      # the statement calls something that always raises
        return r

    def s_Expr(self, s, st):
        self.ev(s.value, st)
        return st

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st, s)
        return st

    def s_AugAssign(self, s, st):
        op = BINOP[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, st, t)
            v = self.bin(op, cur, self.ev(s.value, st))
            self.event("aug", s, st, (cur, op, v))
            self.setname(t.id, v, st, s)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            cur = self.getattr(b, t.attr, st, t)
            v = self.bin(op, cur, self.ev(s.value, st))
            self.event("aug", s, st, (cur, op, v))
            self.setattr(b, t.attr, v, st, s)
        else:
            b = self.ev(t.value, st)
            k = self.ev(t.slice, st)
            cur = self.getitem(b, k, st)
            v = self.bin(op, cur, self.ev(s.value, st))
            self.event("aug", s, st, (cur, op, v))
            self.setitem(b, k, v, st, s)
        return st

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, st, node)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, st), t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, st), self.ev(t.slice, st), v, st, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, mk("rest", v, i, len(t.elts) - 1 - i), st, node)
                elif star and i > star[0]:
                    self.assign(e, self.item(v, i - len(t.elts)), st, node)
                else:
                    self.assign(e, self.item(v, i), st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def setname(self, n, v, st, node):
        f = self.frames[-1].func
        if n in f.globals_:
            self.event("globalset", node, st, (f.module.name, n, v))
        st.env[n] = v

    def setattr(self, b, name, v, st, node):
        self.event("setattr", node, st, (b, name, v))
        if not self.quiet:
            self.events[-1].heap = st.heap.get((b, name), mk("attr", b, name))      # the value replaced
        st.heap[(b, name)] = v

    def setitem(self, b, k, v, st, node):
        self.event("store", node, st, (b, k, v))
        for key in [x for x in st.heap if x[0] is b and isinstance(x[1], T)]:
            if not (is_const(key[1]) and is_const(k)):
                del st.heap[key]
        st.heap[(b, k)] = v

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        self.event("return", s, st, (v,))
        self.frames[-1].rets.append((st, v, s))
        return None

    def s_Raise(self, s, st):
        v = self.ev(s.exc, st) if s.exc is not None else mk("reraise")
        self.event("raise", s, st, (v,))
        return None

    def s_Assert(self, s, st):
        c = self.ev(s.test, st)
        self.event("assert", s, st, (c,))
        return self.assume(st, c, True)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st)
                self.event("delattr", s, st, (b, t.attr))
                st.heap.pop((b, t.attr), None)
            elif isinstance(t, ast.Subscript):
                b, k = self.ev(t.value, st), self.ev(t.slice, st)
                self.event("del", s, st, (b, k))
                self.forget(b, st)
        return st

    def s_If(self, s, st):
        c = self.ev(s.test, st)
        d = self.truth(c, st)
        if d is True:
            return self.block(s.body, st)
        if d is False:
            return self.block(s.orelse, st)
        self.event("test", s, st, (c,))
        a = self.assume(st.copy(), c, True)
        b = self.assume(st.copy(), c, False)
        a = self.block(s.body, a)
        b = self.block(s.orelse, b)
        return self.merge(c, a, b, st.conds)

    def assume(self, st, c, pol):
        st.conds = st.conds + tuple(split_cond(c, pol))
        return st

    def truth(self, c, st):
        if c.op == "c":
            return bool(c.a[0])
        if c.op in ("new", "fn", "cls", "bound", "closure", "lib"):
            return True
        if c.op == "tup":
            return len(c.a[0]) > 0
        if c.op == "cmp" and c.a[0] in ("is", "is not", "==", "!=") and (c.a[2] is NONE or c.a[1] is NONE):
            x = c.a[1] if c.a[2] is NONE else c.a[2]
            e = None
            if x is NONE:
                e = True
            elif x.op in ("c", "new", "fn", "cls", "bound", "closure", "lib", "tup", "list", "dict", "set", "bin", "comp",
                          "cmp", "self"):
                e = False
            if e is not None:
                return e if c.a[0] in ("is", "==") else not e
        if c.op == "cmp" and is_const(c.a[1]) and is_const(c.a[2]):
            try:
                a, b = c.a[1].a[0], c.a[2].a[0]
                return {"==": a == b, "!=": a != b, "is": a is b, "is not": a is not b}.get(c.a[0]) \
                    if c.a[0] in ("==", "!=", "is", "is not") else \
                    {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b,
                     "in": lambda: a in b, "not in": lambda: a not in b}[c.a[0]]()
            except Exception:
                return None
        if c.op == "not":
            d = self.truth(c.a[0], st)
            return None if d is None else not d
        for cc, p in reversed(st.conds):
            if cc is c:
                return p
            if cc.op == "not" and cc.a[0] is c:
                return not p
        n = neg(c)
        if n.op == "cmp":
            for cc, p in reversed(st.conds):
                if cc is n:
                    return not p
        if self.decide is not None:
            return self.decide(c, st)
        return None

    def merge(self, c, a, b, base):
        if a is None and b is None:
            return None
        if a is None or b is None:
            return a if b is None else b
        env = {}
        for k in list(a.env) + [k for k in b.env if k not in a.env]:
            x, y = a.env.get(k), b.env.get(k)
            if x is None or y is None:
                env[k] = ite(c, x or mk("unbound"), y or mk("unbound"))
            else:
                env[k] = ite(c, x, y)
        heap = {}
        for k in list(a.heap) + [k for k in b.heap if k not in a.heap]:
            x, y = a.heap.get(k), b.heap.get(k)
            if isinstance(k[1], T):
                if x is y:
                    heap[k] = x
                continue
            if x is None:
                x = mk("attr", k[0], k[1])
            if y is None:
                y = mk("attr", k[0], k[1])
            heap[k] = ite(c, x, y)
        n = len(base)
        # conditions common to both sides stay; the branch condition itself is dropped
        ca, cb = a.conds[n:], b.conds[n:]
        common = tuple(x for x in ca if x in cb)
        return St(env, heap, base + common)

    def s_For(self, s, st):
        lits = M.literal_loop(s) if isinstance(s, ast.For) else None
        if lits is not None:
            for x in lits:
                self.assign(s.target, self.ev(x, st), st, s)
                st = self.block(s.body, st)
                if st is None:
                    return None
            return self.block(s.orelse, st) if s.orelse else st
        it = self.ev(s.iter, st)
        self.event("for", s, st, (it,))
        return self.loop(s, st, it)

    s_AsyncFor = s_For

    def s_While(self, s, st):
        return self.loop(s, st, None)

    def loop(self, s, st, it):
        lid = self.occ(s, "loop")
        self.loopinfo[lid] = dict(node=s, iter=it, func=self.frames[-1].func)
        fr = self.frames[-1]

        def body(s0, record):
            ctl = dict(brk=[], cont=[])
            fr.loops.append(ctl)
            old = self.loopstack
            self.loopstack = old + (lid,)
            try:
                s1 = s0.copy()
                if it is not None:
                    s1.conds = s1.conds + ((mk("iter", lid, it), True),)
                    self.assign(s.target, self.elem(it, lid), s1, s)
                    c = None
                else:
                    c = self.ev(s.test, s1)
                    self.loopinfo[lid]["test"] = c
                    d = self.truth(c, s1) if c.op == "c" else None
                    if d is None:
                        self.event("test", s, s1, (c,))
                        s1 = self.assume(s1, c, True)
                end = self.block(s.body, s1)
            finally:
                fr.loops.pop()
                self.loopstack = old
            return end, ctl, c

        # dry runs: which variables change
        self.quiet += 1
        self.loopinfo[lid]["nonempty"] = self.nonempty(it, st) if it is not None else \
            self.truth(self.ev(s.test, st.copy()), st) is True
        nret = len(fr.rets)
        changed = {}
        work = st.copy()
        for _ in range(3):
            end, ctl, _c = body(work, False)
            del fr.rets[nret:]
            new = False
            for e in ([end] if end is not None else []) + ctl["cont"] + ctl["brk"]:
                for k, v in e.env.items():
                    if k in work.env and work.env[k] is not v and ("env", k) not in changed:
                        changed[("env", k)] = st.env[k]
                        new = True
                for k, v in e.heap.items():
                    if isinstance(k[1], T):
                        continue
                    o = work.heap.get(k)
                    if o is not v and ("heap", k) not in changed:
                        if o is None and v is mk("attr", k[0], k[1]):
                            continue
                        changed[("heap", k)] = st.heap.get(k, mk("attr", k[0], k[1]))
                        new = True
            work = st.copy()
            for (w, k) in changed:
                nm = k if w == "env" else "%s.%s" % (show(k[0]), k[1])
                (work.env if w == "env" else work.heap)[k] = mk("loop", lid, nm)
            for k in [x for x in work.heap if isinstance(x[1], T)]:
                del work.heap[k]
            if not new:
                break
        self.quiet -= 1
        for (w, k), init in changed.items():
            nm = k if w == "env" else "%s.%s" % (show(k[0]), k[1])
            self.loops[(lid, nm)] = (init, ())
        end, ctl, c = body(work, True)
        for (w, k), init in changed.items():
            nm = k if w == "env" else "%s.%s" % (show(k[0]), k[1])
            back = []
            for e in ([end] if end is not None else []) + ctl["cont"]:
                v = (e.env if w == "env" else e.heap).get(k)
                if v is mk("loop", lid, nm):
                    self.stays.setdefault((lid, nm), []).append(e.conds)
                elif v is not None:
                    self.backs.setdefault((lid, nm), []).append((v, e.conds))
                    if v not in back:
                        back.append(v)
            self.loops[(lid, nm)] = (init, tuple(back))
        out = work.copy()
        out.conds = st.conds
        # variables first bound in the body: value of the last iteration
        for e in ([end] if end is not None else []) + ctl["cont"] + ctl["brk"]:
            for k, v in e.env.items():
                if k not in out.env:
                    out.env[k] = mk("last", lid, k, v)
        self.loopinfo[lid]["partial"] = {k for e in ([end] if end is not None else []) + ctl["cont"]
                                         for k in out.env if k not in e.env}
        infinite = c is not None and c.op == "c" and c.a[0]
        if c is not None and not infinite:
            out = self.assume(out, c, False)
        if s.orelse and not infinite:
            out = self.block(s.orelse, out)
        for i, b in enumerate(ctl["brk"]):
            b = b.copy()
            b.conds = st.conds
            if infinite and i == 0:
                out = b
                continue
            out = self.merge(mk("brk", lid, i), b, out, st.conds)
        if infinite and not ctl["brk"]:
            return None
        return out

    def nonempty(self, it, st, d=0):
        if it is None or d > 5:
            return False
        for c, p in st.conds:
            if c is it and p:
                return True
            r = cmp_norm(c, p)
            if r is not None:
                ln = mk("call", "builtins.len", (it,), ())
                rel, lin = r
                if set(lin) <= {None, ln} and lin.get(ln):
                    k, v = lin.get(None, 0), lin[ln]
                    # k + v*len rel 0 must exclude len == 0
                    if not {"<": k < 0, "<=": k <= 0, "==": k == 0, "!=": k != 0}[rel]:
                        return True
        if it.op in ("tup", "list", "set", "dict"):
            return len(it.a[0]) > 0 and not any(getattr(x, "op", "") == "star" for x in it.a[0])
        if it.op == "c":
            return isinstance(it.a[0], str) and len(it.a[0]) > 0
        if it.op == "call" and not isinstance(it.a[0], T):
            n, args = it.a[0], it.a[1]
            if n == "builtins.range" and all(is_const(x) for x in args):
                try:
                    return len(range(*[x.a[0] for x in args])) > 0
                except Exception:
                    return False
            if n == "builtins.zip":
                return bool(args) and all(self.nonempty(x, st, d + 1) for x in args)
            if n in ("builtins.enumerate", "builtins.sorted", "builtins.reversed", "builtins.list", "builtins.tuple",
                     "builtins.set", "builtins.iter"):
                return bool(args) and self.nonempty(args[0], st, d + 1)
        if it.op == "meth" and it.a[1] in ("items", "keys", "values", "copy", "tolist"):
            return self.nonempty(it.a[0], st, d + 1)
        if it.op == "comp" and len(it.a[2]) == 1 and not it.a[2][0][2]:
            return self.nonempty(it.a[2][0][0], st, d + 1)
        return False

    def s_Break(self, s, st):
        ctl = self.frames[-1].loops
        self.event("break", s, st, ())
        if ctl:
            ctl[-1]["brk"].append(st)
        return None

    def s_Continue(self, s, st):
        ctl = self.frames[-1].loops
        self.event("continue", s, st, ())
        if ctl:
            ctl[-1]["cont"].append(st)
        return None

    def s_With(self, s, st):
        old = self.withs
        for it in s.items:
            v = self.ev(it.context_expr, st)
            self.event("with", s, st, (v,))
            self.withs = self.withs + (v,)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, mk("enter", v), st, s)
        end = self.block(s.body, st)
        self.withs = old
        return end

    s_AsyncWith = s_With

    def s_Try(self, s, st):
        old = self.tries
        entry = st.copy()
        self.tries = old + ((s, "body"),)
        fr = self.frames[-1]
        nret = len(fr.rets)
        end = self.block(s.body, st)
        if end is not None and s.orelse:
            self.tries = old + ((s, "else"),)
            end = self.block(s.orelse, end)
        inside = list(fr.rets[nret:])
        after = [e for e in [end] if e is not None] + [r[0] for r in inside]
        outs = [end]
        for i, h in enumerate(s.handlers):
            hs = entry.copy()
            exc = mk("exc", self.occ(s, "try"), i)
            for e in after:
                for k, v in e.env.items():
                    if hs.env.get(k) is not v:
                        hs.env[k] = mk("phi", exc, hs.env.get(k, mk("unbound")), v)
                for k, v in e.heap.items():
                    if not isinstance(k[1], T) and hs.heap.get(k) is not v:
                        hs.heap[k] = mk("phi", exc, hs.heap.get(k, mk("attr", *k)), v)
            hs.conds = entry.conds + ((exc, True),)
            if h.name:
                hs.env[h.name] = mk("exception", exc)
            self.tries = old + ((s, ("handler", i)),)
            o = self.block(h.body, hs)
            if o is not None and h.name:
                o.env.pop(h.name, None)
            outs.append(o)
            if o is not None or len(fr.rets) > nret + len(inside):
                for r in inside:      # a return of the body is only reached without the exception
                    if not any(c is exc for c, _ in r[0].conds):
                        r[0].conds = r[0].conds + ((exc, False),)
        out = outs[0]
        for i, o in enumerate(outs[1:]):
            out = self.merge(mk("exc", self.occ(s, "try"), i), o, out, entry.conds)
        self.tries = old
        if s.finalbody:
            self.tries = old + ((s, "final"),)
            if out is None:
                self.block(s.finalbody, entry.copy())
            else:
                out = self.block(s.finalbody, out)
            self.tries = old
        return out

    s_TryStar = s_Try

    def s_FunctionDef(self, s, st):
        f = self.prog.func_by_node.get(s)
        t = self.closure(f, st)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, st)
            if dv.op == "call" and dv.a[0] == "functools.wraps":
                continue
            if not (dv.op == "lib"):
                t = self.call(dv, [t], {}, st, d)
        st.env[s.name] = t
        return st

    def s_ClassDef(self, s, st):
        c = self.frames[-1].func.module.classes.get(s.name)
        st.env[s.name] = mk("cls", c) if c else mk("unk", self.occ(s))
        return st

    def s_Import(self, s, st):
        for al in s.names:
            if al.asname:
                n, d = al.asname, al.name
            else:
                n = d = al.name.split(".")[0]
            st.env[n] = mk("mod", self.prog.modules[d]) if d in self.prog.modules else mk("lib", d)
        return st

    def s_ImportFrom(self, s, st):
        m = self.frames[-1].func.module
        mod = self.prog._abs(m, s)
        for al in s.names:
            r = self.prog._from(mod, al.name, 0)
            st.env[al.asname or al.name] = self.resolved(r, al.name, st)
        return st

    def s_Match(self, s, st):
        v = self.ev(s.subject, st)
        outs = []
        for i, c in enumerate(s.cases):
            b = st.copy()
            b.conds = b.conds + ((mk("case", v, self.occ(c)), True),)
            for n in ast.walk(c.pattern):
                if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                    b.env[n.name] = mk("unk", self.occ(n))
            outs.append((mk("case", v, self.occ(c)), self.block(c.body, b)))
        out = st
        for c, o in reversed(outs):
            out = self.merge(c, o, out, st.conds)
        return out

    # -------------------------------------------------------------------------------------- expressions
    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return mk("unk", self.occ(e))
        return m(e, st)

    def e_Constant(self, e, st):
        return const(e.value) if not isinstance(e.value, (bytes, complex)) else mk("c", repr(e.value))

    def e_Name(self, e, st):
        return self.name(e.id, st, e)

    def name(self, n, st, node):
        if n in st.env:
            return st.env[n]
        fr = self.frames[-1]
        c = fr.closure
        while c is not None:
            env, parent = c
            if n in env:
                return env[n]
            c = parent
        r = self.prog.resolve_name(fr.func.module, n)
        if r is not None:
            return self.resolved(r, n, st)
        return mk("lib", "builtins." + n)

    def resolved(self, r, n, st):
        if r is None:
            return mk("unk", n)
        if r[0] == "func":
            return mk("fn", r[1])
        if r[0] == "class":
            return mk("cls", r[1])
        if r[0] == "module":
            return mk("mod", r[1])
        if r[0] == "lib":
            return mk("lib", r[1])
        if r[0] == "var":
            v = self.const_expr(r[2], r[1])
            if v is not None:
                return v
            return mk("glob", r[1].name, r[3])
        return mk("unk", n)

    def const_expr(self, e, m, d=0):
        """Module level constants, partials and operators bound to a name."""
        if e is None or d > 3:
            return None
        if isinstance(e, ast.Constant):
            return self.e_Constant(e, None)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
            return const(-e.operand.value)
        if isinstance(e, (ast.Tuple, ast.List)):
            xs = [self.const_expr(x, m, d + 1) for x in e.elts]
            if all(x is not None for x in xs):
                return mk("tup" if isinstance(e, ast.Tuple) else "list", tuple(xs))
            return None
        if isinstance(e, (ast.Name, ast.Attribute)):
            dn = M.dotted_name(e)
            r = self.prog.resolve_dotted(m, dn) if dn else None
            if r is None and dn and "." not in dn and dn in dir(__builtins__ if not isinstance(__builtins__, dict) else object):
                return mk("lib", "builtins." + dn)
            if r is not None and r[0] != "var":
                return self.resolved(r, dn, None)
            if r is not None:
                return self.const_expr(r[2], r[1], d + 1)
            return None
        if isinstance(e, ast.Lambda):
            f = self.prog.func_by_node.get(e)
            return mk("fn", f) if f else None
        if isinstance(e, ast.Call):
            fn = self.const_expr(e.func, m, d + 1)
            if fn is not None and fn.op == "lib" and fn.a[0] == "functools.partial":
                xs = [self.const_expr(x, m, d + 1) for x in e.args]
                ks = [(k.arg, self.const_expr(k.value, m, d + 1)) for k in e.keywords]
                if all(x is not None for x in xs) and all(v is not None and k for k, v in ks):
                    return mk("partial", xs[0], tuple(xs[1:]), tuple(sorted(ks, key=lambda z: z[0])))
        return None

    def e_Attribute(self, e, st):
        return self.getattr(self.ev(e.value, st), e.attr, st, e)

    def getattr(self, b, name, st, node):
        if b.op == "lib":
            return mk("lib", b.a[0] + "." + name)
        if b.op == "mod":
            r = self.prog.member(("module", b.a[0]), name)
            return self.resolved(r, name, st) if r else mk("unk", b.a[0].name + "." + name)
        v = st.heap.get((b, name))
        if v is not None:
            return v
        if b.op == "ite":
            x, y = self.getattr(b.a[1], name, st, node), self.getattr(b.a[2], name, st, node)
            return ite(b.a[0], x, y)
        c = self.classof(b)
        if b.op == "super":
            cls, recv = b.a
            f = (self.classof(recv) or cls).find_after(cls, name)
            return mk("bound", recv, f) if f else mk("attr", b, name)
        if b.op == "cls":
            f = b.a[0].find(name)
            if f is not None:
                return mk("bound", b, f) if f.is_classmethod else mk("fn", f)
            a = b.a[0].find_attr(name)
            if a:
                v = self.const_expr(a[1], a[0].module)
                if v is not None:
                    return v
            return mk("attr", b, name)
        if c is not None and name == "__class__" and b.op in ("self", "new"):
            return mk("cls", c)
        if c is not None:
            f = c.find(name)
            if f is not None:
                if f.is_static:
                    return mk("fn", f)
                if f.is_classmethod:
                    return mk("bound", mk("cls", c), f)
                bd = mk("bound", b, f)
                return self.call(bd, [], {}, st, node) if f.is_property else bd
            a = c.find_attr(name)
            if a:
                v = self.const_expr(a[1], a[0].module)
                if v is not None:
                    return v
        self.event("getattr", node, st, (b, name))
        return mk("attr", b, name)

    def classof(self, t, d=0):
        if t in self.hints:
            return self.hints[t]
        if d > 6:
            return None
        if t.op == "new":
            return t.a[0]
        if t.op == "attr" and ("attr", t.a[1]) in self.hints:
            return self.hints[("attr", t.a[1])]
        if t.op == "p" and ("p", t.a[0]) in self.hints:
            return self.hints[("p", t.a[0])]
        if t.op == "ite":
            a, b = self.classof(t.a[1], d + 1), self.classof(t.a[2], d + 1)
            if a is b:
                return a
            if t.a[1] is NONE:
                return b
            if t.a[2] is NONE:
                return a
            return None
        if t.op == "loop":
            init, back = self.loops.get((t.a[0], t.a[1]), (None, ()))
            return self.classof(init, d + 1) if init is not None else None
        if t.op == "enter":
            return self.classof(t.a[0], d + 1)
        return None

    def e_Subscript(self, e, st):
        b = self.ev(e.value, st)
        k = self.ev(e.slice, st)
        self.event("getitem", e, st, (b, k))
        return self.getitem(b, k, st)

    def e_Slice(self, e, st):
        f = lambda x: self.ev(x, st) if x is not None else NONE
        return mk("slice", f(e.lower), f(e.upper), f(e.step))

    def getitem(self, b, k, st):
        if st is not None and (b, k) in st.heap:
            return st.heap[(b, k)]
        if k.op == "c" and isinstance(k.a[0], int) and not isinstance(k.a[0], bool):
            return self.item(b, k.a[0])
        if k.op == "pos" and k.a[0] is b:
            return mk("elem", b, k.a[1])
        if k.op == "elem" and k.a[0] is b:
            return mk("val", b, k.a[1])
        if b.op == "dict" and is_const(k):
            for kk, v in b.a[0]:
                if kk is k:
                    return v
        return mk("idx", b, k)

    def item(self, t, i):
        if t.op in ("tup", "list") and -len(t.a[0]) <= i < len(t.a[0]) and not any(x.op == "star" for x in t.a[0]):
            return t.a[0][i]
        if t.op == "ite":
            return ite(t.a[0], self.item(t.a[1], i), self.item(t.a[2], i))
        if t.op == "idx" and t.a[1].op == "slice" and t.a[1].a[0].op == "c" and i >= 0 and t.a[1].a[2] is NONE:
            lo = t.a[1].a[0].a[0] or 0
            if isinstance(lo, int) and lo >= 0:
                return self.item(t.a[0], lo + i)
        return mk("item", t, i)

    def elem(self, it, lid):
        """The term bound by one step of an iteration over `it`."""
        if it.op == "call" and not isinstance(it.a[0], T):
            n, args = it.a[0], it.a[1]
            if n == "builtins.enumerate" and args:
                start = args[1] if len(args) > 1 else dict(it.a[2]).get("start")
                p = mk("pos", args[0], lid)
                if start is not None and start is not const(0):
                    p = self.bin("+", p, start)
                return mk("tup", (p, self.elem(args[0], lid)))
            if n == "builtins.zip" and args:
                return mk("tup", tuple(self.elem(a, lid) for a in args))
            if n == "builtins.range" and len(args) == 1 and args[0].op == "call" and args[0].a[0] == "builtins.len":
                return mk("pos", args[0].a[1][0], lid)
            if n in ("builtins.list", "builtins.tuple", "builtins.iter") and len(args) == 1:
                return self.elem(args[0], lid)
            if n == "builtins.reversed" or n == "builtins.sorted":
                x = self.elem(args[0], lid)
                return x
        if it.op == "meth":
            if it.a[1] in ("items", "iteritems") and not it.a[2]:
                return mk("tup", (mk("elem", it.a[0], lid), mk("val", it.a[0], lid)))
            if it.a[1] == "values" and not it.a[2]:
                return mk("val", it.a[0], lid)
            if it.a[1] in ("keys", "copy", "tolist") and not it.a[2]:
                return mk("elem", it.a[0], lid)
        if it.op == "comp" and len(it.a[2]) == 1 and it.a[0] in ("list", "gen", "set", "map"):
            return mk("elemof", it, lid) if False else it.a[1]
        return mk("elem", it, lid)

    def e_Tuple(self, e, st):
        return mk("tup", tuple(self.ev_star(x, st) for x in e.elts))

    def ev_star(self, x, st):
        if isinstance(x, ast.Starred):
            return mk("star", self.ev(x.value, st))
        return self.ev(x, st)

    def e_List(self, e, st):
        return mk("list", tuple(self.ev_star(x, st) for x in e.elts), self.occ(e))

    def e_Set(self, e, st):
        return mk("set", tuple(self.ev_star(x, st) for x in e.elts), self.occ(e))

    def e_Dict(self, e, st):
        return mk("dict", tuple((self.ev(k, st) if k is not None else mk("star"), self.ev(v, st))
                                for k, v in zip(e.keys, e.values)), self.occ(e))

    def e_Starred(self, e, st):
        return mk("star", self.ev(e.value, st))

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.setname(e.target.id, v, st, e)
        return v

    def e_BinOp(self, e, st):
        return self.bin(BINOP[type(e.op)], self.ev(e.left, st), self.ev(e.right, st))

    def bin(self, op, a, b):
        if is_const(a) and is_const(b) and isinstance(a.a[0], (int, float)) and isinstance(b.a[0], (int, float)) \
                and op in "+-*/":
            try:
                x, y = a.a[0], b.a[0]
                return const({"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y}[op]())
            except Exception:
                pass
        return mk("bin", op, a, b)

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            d = self.truth(v, st)
            return const(not d) if d is not None and v.op == "c" else neg(v)
        if isinstance(e.op, ast.USub):
            if is_const(v) and isinstance(v.a[0], (int, float)):
                return const(-v.a[0])
            return mk("neg", v)
        if isinstance(e.op, ast.UAdd):
            return v
        return mk("inv", v)

    def e_BoolOp(self, e, st):
        op = "and" if isinstance(e.op, ast.And) else "or"
        out = []
        s = st
        n = len(st.conds)
        for x in e.values:
            v = self.ev(x, s)
            d = self.truth(v, s)
            if d is True and op == "and" and x is not e.values[-1]:
                continue
            if d is False and op == "or" and x is not e.values[-1]:
                continue
            out.append(v)
            if d is False and op == "and" or d is True and op == "or":
                break
            s.conds = s.conds + tuple(split_cond(v, op == "and"))
        st.conds = st.conds[:n]
        if len(out) == 1:
            return out[0]
        return mk(op, tuple(out))

    def e_Compare(self, e, st):
        l = self.ev(e.left, st)
        parts = []
        for o, r in zip(e.ops, e.comparators):
            rv = self.ev(r, st)
            parts.append(mk("cmp", CMPOP[type(o)], l, rv))
            l = rv
        if len(parts) == 1:
            d = self.truth(parts[0], st)
            return const(d) if d is not None and _foldable(parts[0]) else parts[0]
        return mk("and", tuple(parts))

    def e_IfExp(self, e, st):
        c = self.ev(e.test, st)
        d = self.truth(c, st)
        if d is not None:
            return self.ev(e.body if d else e.orelse, st)
        n = st.conds
        st.conds = n + tuple(split_cond(c, True))
        a = self.ev(e.body, st)
        st.conds = n + tuple(split_cond(c, False))
        b = self.ev(e.orelse, st)
        st.conds = n
        return ite(c, a, b)

    def e_JoinedStr(self, e, st):
        return mk("fstr", tuple(self.ev(v, st) for v in e.values))

    def e_FormattedValue(self, e, st):
        return mk("call", "builtins.str", (self.ev(e.value, st),), ())

    def e_Lambda(self, e, st):
        return self.closure(self.prog.func_by_node.get(e), st)

    def closure(self, f, st):
        if f is None:
            return mk("unk", "lambda")
        fid = self.occ(f.node, "closure")
        self.closures[fid] = (f, st.env, self.frames[-1].closure, self.frames[-1])
        return mk("closure", fid, f)

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else NONE
        self.event("yield", e, st, (v,))
        self.frames[-1].gen.append(v)
        return mk("unk", self.occ(e))

    def e_YieldFrom(self, e, st):
        v = self.ev(e.value, st)
        self.event("yieldfrom", e, st, (v,))
        self.frames[-1].gen.append(mk("elem", v, self.occ(e)))
        return mk("unk", self.occ(e))

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def _comp(self, e, st, kind, elts):
        s = St(dict(st.env), st.heap, st.conds)
        gens = []
        old = self.loopstack
        for i, g in enumerate(e.generators):
            it = self.ev(g.iter, s)
            lid = self.occ(g, "comp")
            self.loopinfo[lid] = dict(node=e, iter=it, func=self.frames[-1].func)
            self.event("for", e, s, (it,))
            self.loopstack = self.loopstack + (lid,)
            self.assign(g.target, self.elem(it, lid), s, e)
            s.conds = s.conds + ((mk("iter", lid, it), True),)
            cs = []
            for c in g.ifs:
                cv = self.ev(c, s)
                cs.append(cv)
                s.conds = s.conds + tuple(split_cond(cv, True))
            gens.append((it, lid, tuple(cs)))
        vs = [self.ev(x, s) for x in elts]
        self.loopstack = old
        self.event("comp", e, s, tuple(vs))
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr) and n.target.id in s.env:
                st.env[n.target.id] = s.env[n.target.id]
        return mk("comp", kind, vs[0] if len(vs) == 1 else mk("tup", tuple(vs)), tuple(gens))

    def e_ListComp(self, e, st):
        lits = M.literal_loop(e.generators[0]) if len(e.generators) == 1 and not e.generators[0].ifs else None
        if lits is not None:
            s1, vs = st.copy(), []
            for x in lits:
                self.assign(e.generators[0].target, self.ev(x, s1), s1, e)
                vs.append(self.ev(e.elt, s1))
            return mk("list", tuple(vs), self.occ(e))
        return self._comp(e, st, "list", [e.elt])

    def e_SetComp(self, e, st):
        return self._comp(e, st, "set", [e.elt])

    def e_GeneratorExp(self, e, st):
        return self._comp(e, st, "gen", [e.elt])

    def e_DictComp(self, e, st):
        lits = M.literal_loop(e.generators[0]) if len(e.generators) == 1 and not e.generators[0].ifs else None
        if lits is not None:
            s1, kv = st.copy(), []
            for x in lits:
                self.assign(e.generators[0].target, self.ev(x, s1), s1, e)
                kv.append((self.ev(e.key, s1), self.ev(e.value, s1)))
            return mk("dict", tuple(kv), self.occ(e))
        return self._comp(e, st, "dict", [e.key, e.value])

    # -------------------------------------------------------------------------------------- calls
    def e_Call(self, e, st):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.env:
            fr = self.frames[-1]
            if not e.args and fr.func.cls is not None:
                p = fr.func.params()
                return mk("super", fr.func.cls, st.env.get(p[0][0]) if p else NONE)
            if len(e.args) == 2:
                c = self.ev(e.args[0], st)
                if c.op == "cls":
                    return mk("super", c.a[0], self.ev(e.args[1], st))
        fn = self.ev(e.func, st)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                if v.op in ("tup", "list"):
                    args += list(v.a[0])
                else:
                    args.append(mk("star", v))
            else:
                args.append(self.ev(a, st))
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                if v.op == "dict" and all(is_const(x) for x, _ in v.a[0]):
                    for x, y in v.a[0]:
                        kw[x.a[0]] = y
                else:
                    kw["**%d" % len([x for x in kw if x.startswith("**")])] = v
            else:
                kw[k.arg] = v
        return self.call(fn, args, kw, st, e)

    def call(self, fn, args, kw, st, node):
        o = fn.op
        if o == "partial":
            k2 = dict(fn.a[2])
            k2.update(kw)
            return self.call(fn.a[0], list(fn.a[1]) + list(args), k2, st, node)
        if o == "ite":
            m = method_of(fn)
            if m is not None:
                return self.call_meth(m[0], m[1], args, kw, st, node)
        if o == "ite" and (fn.a[1].op in ("fn", "bound", "closure", "cls", "lib") or
                           fn.a[2].op in ("fn", "bound", "closure", "cls", "lib")):
            n = st.conds
            st.conds = n + tuple(split_cond(fn.a[0], True))
            a = self.call(fn.a[1], args, kw, st, node)
            st.conds = n + tuple(split_cond(fn.a[0], False))
            b = self.call(fn.a[2], args, kw, st, node)
            st.conds = n
            return ite(fn.a[0], a, b)
        if o == "fn":
            return self.call_func(fn.a[0], None, args, kw, st, node, None)
        if o == "bound":
            f = fn.a[1]
            return self.call_func(f, fn.a[0], args, kw, st, node, None)
        if o == "closure":
            f, env, cl, _ = self.closures[fn.a[0]]
            return self.call_func(f, None, args, kw, st, node, (env, cl))
        if o == "cls":
            return self.call_class(fn.a[0], args, kw, st, node)
        if o == "lib":
            return self.call_lib(fn.a[0], args, kw, st, node)
        if o == "attr":
            recv, name = fn.a
            return self.call_meth(recv, name, args, kw, st, node)
        c = self.classof(fn)
        if c is not None and c.find("__call__") is not None:
            return self.call_func(c.find("__call__"), fn, args, kw, st, node, None)
        t = mk("call", fn, tuple(args), tuple(sorted(kw.items())), self.occ(node))
        self.event("call", node, st, (t, fn, tuple(args), dict(kw)))
        for a in args:
            self.forget(a, st)
        return t

    def writes(self, f):
        """Names of attributes that f, or anything it may call (by name), assigns."""
        memo = self.prog.__dict__.setdefault("_sym_writes", {})
        if f in memo:
            return memo[f]
        if "" not in memo:
            by = {}
            for g in self.prog.func_by_node.values():
                by.setdefault(g.name, []).append(g)
            memo[""] = by
        out, seen, work = set(), {f}, [f]
        while work:
            g = work.pop()
            for n in ast.walk(g.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.attr)
                elif isinstance(n, ast.Call):
                    nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                    for h in memo[""].get(nm, ()):
                        if h not in seen:
                            seen.add(h)
                            work.append(h)
        memo[f] = out
        return out

    def forget(self, t, st):
        for key in [x for x in st.heap if x[0] is t and isinstance(x[1], T)]:
            del st.heap[key]

    def call_meth(self, recv, name, args, kw, st, node):
        kws = tuple(sorted(kw.items()))
        if name in PURE_METH:
            t = mk("meth", recv, name, tuple(args), kws)
        else:
            t = mk("meth", recv, name, tuple(args), kws, self.occ(node))
        self.event("meth", node, st, (t, recv, name, tuple(args), dict(kw)))
        if name == "get" and args and (recv, args[0]) in st.heap:
            return st.heap[(recv, args[0])]
        if name in MUTATORS or name not in PURE_METH:
            self.forget(recv, st)
            for a in args:
                self.forget(a, st)
        if name in ("map", "apply", "applymap", "transform", "agg", "aggregate", "filter", "assign", "pipe"):
            for a in list(args) + list(kw.values()):
                if a.op in ("closure", "fn", "bound", "partial"):
                    r = self.ho(a, [recv if name in ("assign", "pipe", "agg") else mk("elem", recv, self.occ(node, "ho"))],
                                st, node)
                    if r is not None:
                        t = mk("comp", "meth:" + name, r, ((recv, self.occ(node, "ho"), ()),))
        if name == "sort":
            for a in kw.values():
                if a.op in ("closure", "fn", "bound", "partial"):
                    self.ho(a, [mk("elem", recv, self.occ(node, "ho"))], st, node)
        return t

    def ho(self, fn, args, st, node):
        s = St(st.env, st.heap, st.conds)
        try:
            return self.call(fn, list(args), {}, s, node)
        except TypeError:
            return None

    def call_lib(self, name, args, kw, st, node):
        kws = tuple(sorted(kw.items()))
        short = name[9:] if name.startswith("builtins.") else None
        if short == "type" and len(args) == 1 and not kw and args[0].op in ("self", "new") and self.classof(args[0]) is not None:
            return mk("cls", self.classof(args[0]))
        if short == "getattr" and len(args) >= 2 and is_const(args[1]) and isinstance(args[1].a[0], str):
            if (args[0], args[1].a[0]) in st.heap or len(args) == 2:
                return self.getattr(args[0], args[1].a[0], st, node)
        if short == "setattr" and len(args) == 3:
            if is_const(args[1]) and isinstance(args[1].a[0], str):
                self.setattr(args[0], args[1].a[0], args[2], st, node)
            else:
                self.event("setattr", node, st, (args[0], args[1], args[2]))
            return NONE
        if short == "dict" and not args and all(not k.startswith("**") for k in kw):
            return mk("dict", tuple((const(k), v) for k, v in kw.items()), self.occ(node))
        if short == "isinstance" and len(args) == 2:
            d = self.isinst(args[0], args[1])
            if d is not None:
                return const(d)
        if name == "functools.partial" and args:
            return mk("partial", args[0], tuple(args[1:]), kws)
        if name == "operator.itemgetter" and len(args) == 1:
            pass
        if short == "next" and args:
            t = mk("call", name, tuple(args), kws, self.occ(node))
            self.event("call", node, st, (t, name, tuple(args), dict(kw)))
            return t
        pure = (short in PURE_BUILTIN) or (name.startswith(PURE_PREFIX) and not name.startswith(IMPURE))
        t = mk("call", name, tuple(args), kws) if pure else mk("call", name, tuple(args), kws, self.occ(node))
        self.event("call", node, st, (t, name, tuple(args), dict(kw)))
        if not pure:
            for a in args:
                self.forget(a, st)
        if short in ("map", "filter") and len(args) >= 2:
            lid = self.occ(node, "ho")
            r = self.ho(args[0], [self.elem(a, lid) for a in args[1:]], st, node) if args[0].op != "c" else None
            if r is not None and short == "map":
                return mk("comp", "map", r, tuple((a, lid, ()) for a in args[1:]))
            if short == "filter" and r is not None:
                return mk("comp", "filter", self.elem(args[1], lid), ((args[1], lid, (r,)),))
        if short in ("sorted", "min", "max") and "key" in kw and args:
            self.ho(kw["key"], [self.elem(args[0], self.occ(node, "ho"))], st, node)
        if name in ("functools.reduce",) and args and args[0].op in ("closure", "fn", "bound"):
            self.ho(args[0], [mk("acc", self.occ(node)), self.elem(args[1], self.occ(node, "ho"))], st, node)
        return t

    def isinst(self, x, c):
        names = [y.a[0] if y.op == "lib" else None for y in (c.a[0] if c.op == "tup" else (c,))]
        if None in names:
            return None
        if is_const(x):
            ty = {"builtins.int": int, "builtins.float": float, "builtins.str": str, "builtins.bool": bool,
                  "numbers.Integral": int, "numbers.Real": (int, float), "numbers.Number": (int, float)}
            if all(n in ty for n in names):
                return any(isinstance(x.a[0], ty[n]) for n in names)
        return None

    def call_class(self, c, args, kw, st, node):
        f = c.find("__init__")
        t = mk("new", c, tuple(args), tuple(sorted(kw.items())), self.occ(node))
        self.event("new", node, st, (t, c, tuple(args), dict(kw)))
        if f is not None and self.may_inline(f):
            self.call_func(f, t, args, kw, st, node, None)
        return t

    def may_inline(self, f):
        if not self.inline or len(self.frames) >= self.MAXDEPTH:
            return False
        if f.qual in self.opaque or f.where in self.opaque or f.name in self.opaque:
            return False
        if self.only is not None and not self.only(f):
            return False
        if f.is_gen and not self.gen_inline:
            return False
        return all(x.func is not f for x in self.frames)

    def bind(self, f, recv, args, kw, st):
        """Arguments by parameter name, or None if they do not fit statically."""
        params = f.params()
        env, extra = {}, []
        pos = [p for p in params if p[1] == "pos"]
        args = list(args)
        if recv is not None and not f.is_static:
            args = [recv] + args
        star = [i for i, a in enumerate(args) if a.op == "star"]
        if star:
            if len(star) == 1 and star[0] == len(args) - 1:
                s = args.pop()
                rest = s.a[0]
                for j, p in enumerate(pos[len(args):]):
                    if p[0] not in kw and p[2] is None:
                        args.append(self.item(rest, j))
                extra = [s]
            else:
                return None
        for p, a in zip(pos, args):
            env[p[0]] = a
        extra = args[len(pos):] + extra
        va = [p for p in params if p[1] == "vararg"]
        if va:
            if len(extra) == 1 and extra[0].op == "star":
                env[va[0][0]] = extra[0].a[0]
            else:
                env[va[0][0]] = mk("tup", tuple(extra))
        ka = [p for p in params if p[1] == "kwarg"]
        names = {p[0] for p in params if p[1] in ("pos", "kwonly")}
        rest = []
        for k, v in kw.items():
            if k in names:
                env[k] = v
            else:
                rest.append((k, v))
        if ka:
            if len(rest) == 1 and rest[0][0].startswith("**"):
                env[ka[0][0]] = rest[0][1]
            else:
                env[ka[0][0]] = mk("dict", tuple((const(k), v) for k, v in rest), 0)
        for n, k, d in params:
            if n not in env and k in ("pos", "kwonly"):
                if any(x.startswith("**") for x in kw):
                    env[n] = mk("idx", [v for x, v in kw.items() if x.startswith("**")][0], const(n))
                elif d is not None:
                    v = self.const_expr(d, f.module)
                    env[n] = v if v is not None else mk("default", f.where, n)
                else:
                    env[n] = mk("missing", f.where, n)
        return env

    def call_func(self, f, recv, args, kw, st, node, closure):
        if f.cls is not None and recv is None and not f.is_static and args and not isinstance(f.node, ast.Lambda):
            recv, args = args[0], list(args[1:])      # Class.method(obj, ...)
        env = self.bind(f, recv, args, kw, st)
        if env is None:
            t = mk("call", f.where, tuple(args), tuple(sorted(kw.items())), self.occ(node))
            self.event("rcall", node, st, (t, f, None))
            return t
        if not self.may_inline(f):
            ordered = tuple((n, env[n]) for n, k, d in f.params() if n in env)
            t = mk("rcall", f, ordered, self.occ(node))
            self.event("rcall", node, st, (t, f, dict(env)))
            if self.havoc:
                w = self.writes(f)
                for k in list(st.heap):
                    if not isinstance(k[1], T) and k[1] in w and k not in self.keep:
                        st.heap[k] = mk("hv", t, k[0], k[1])
            return t
        self.event("enter", node, st, (f, dict(env)))
        self.funcs.add(f.where)
        fr = Fr(f, node, self.frames[-1])
        fr.closure = closure
        self.frames.append(fr)
        base = st.conds
        ow, ot, ol = self.withs, self.tries, self.loopstack
        s = St(env, dict(st.heap), st.conds)
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, s)
                fr.rets.append((s, v, f.node))
            else:
                end = self.block(f.node.body, s)
                if end is not None:
                    fr.rets.append((end, NONE, None))
        finally:
            self.frames.pop()
            self.withs, self.tries, self.loopstack = ow, ot, ol
        self.event("leave", node, st, (f,))
        if f.is_gen:
            # effects of the body happen while it is consumed; its end state is merged loosely
            for s, v, n in fr.rets:
                for k, x in s.heap.items():
                    st.heap.setdefault(k, x) if not isinstance(k[1], T) else None
            return mk("gen", f, tuple((n, env[n]) for n, k, d in f.params() if n in env), tuple(fr.gen), self.occ(node))
        if not fr.rets:
            # never returns normally
            st.conds = base + ((mk("noreturn", f.where), True),)
            return mk("never", f.where)
        heap, v = dict(fr.rets[-1][0].heap), fr.rets[-1][1]
        cur = St({}, heap, base)
        for s, x, n in reversed(fr.rets[:-1]):
            rel = s.conds[len(base):]
            c = conj(rel)
            cur = self.merge(c, St({}, s.heap, base), St({}, cur.heap, base), base)
            v = ite(c, x, v)
        st.heap.clear()
        st.heap.update(cur.heap)
        if len(fr.rets) == 1:
            extra = tuple(c for c in fr.rets[0][0].conds[len(base):] if c[0].op not in ("iter",))
            st.conds = base + extra
        else:
            sets = [set(s.conds[len(base):]) for s, _, _ in fr.rets]
            com = set.intersection(*sets)
            st.conds = base + tuple(c for c in fr.rets[0][0].conds[len(base):] if c in com and c[0].op != "iter")
        return v


def _foldable(c):
    return is_const(c.a[1]) and is_const(c.a[2]) or c.a[2] is NONE or c.a[1] is NONE


def conj(conds):
    xs = tuple(c if p else neg(c) for c, p in conds)
    if not xs:
        return TRUE
    return xs[0] if len(xs) == 1 else mk("and", xs)


def split_cond(c, pol):
    if c.op == "not":
        yield from split_cond(c.a[0], not pol)
    elif c.op == "and" and pol:
        for x in c.a[0]:
            yield from split_cond(x, True)
    elif c.op == "or" and not pol:
        for x in c.a[0]:
            yield from split_cond(x, False)
    else:
        yield (c, pol)


# ------------------------------------------------------------------------------------------ normal forms
def linear(t, d=0):
    """Linear normal form: {atom term or None: coefficient}, or None if not linear."""
    if d > 40:
        return {t: 1}
    if t.op == "c":
        v = t.a[0]
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            return {t: 1}
        return {None: v} if v else {}
    if t.op == "neg":
        return {k: -v for k, v in linear(t.a[0], d + 1).items()}
    if t.op == "call" and t.a[0] in ("builtins.float", "builtins.int") and len(t.a[1]) == 1 and t.a[0] == "builtins.float":
        return linear(t.a[1][0], d + 1)
    if t.op == "bin":
        op, a, b = t.a
        if op in "+-":
            x, y = linear(a, d + 1), linear(b, d + 1)
            s = 1 if op == "+" else -1
            out = dict(x)
            for k, v in y.items():
                out[k] = out.get(k, 0) + s * v
            return {k: v for k, v in out.items() if v != 0}
        if op == "*":
            for p, q in ((a, b), (b, a)):
                if p.op == "c" and isinstance(p.a[0], (int, float)) and not isinstance(p.a[0], bool):
                    return {k: v * p.a[0] for k, v in linear(q, d + 1).items() if p.a[0]}
            return {product(t): 1}
        if op == "/" and b.op == "c" and isinstance(b.a[0], (int, float)) and b.a[0]:
            return {k: v / b.a[0] for k, v in linear(a, d + 1).items()}
        if op in ("*", "/"):
            return {product(t): 1}
    return {t: 1}


def factors(t):
    """Multiset of factors of a product term: {term: power}, constants multiplied into key None."""
    out = {None: 1}

    def go(x, s):
        if x.op == "bin" and x.a[0] == "*":
            go(x.a[1], s)
            go(x.a[2], s)
        elif x.op == "bin" and x.a[0] == "/":
            go(x.a[1], s)
            go(x.a[2], -s)
        elif x.op == "neg":
            out[None] = -out[None]
            go(x.a[0], s)
        elif x.op == "c" and isinstance(x.a[0], (int, float)) and not isinstance(x.a[0], bool) and x.a[0]:
            out[None] = out[None] * x.a[0] if s > 0 else out[None] / x.a[0]
        else:
            out[x] = out.get(x, 0) + s
    go(t, 1)
    return {k: v for k, v in out.items() if v != 0}


def product(t):
    f = factors(t)
    return mk("prod", tuple(sorted(((k.n if k is not None else 0, v) for k, v in f.items()))),
              tuple(k for k in sorted((x for x in f if x is not None), key=lambda z: z.n)))


def cmp_norm(c, pol=True):
    """(rel, {atom: coef}) with rel in '<', '<=', '==', '!=' meaning  lin rel 0; None if not an ordering."""
    while c.op == "not":
        c, pol = c.a[0], not pol
    if c.op != "cmp":
        return None
    op, a, b = c.a
    if op in ("==", "!="):
        if not pol:
            op = "!=" if op == "==" else "=="
        d = linear(mk("bin", "-", a, b))
        return (op, d)
    if op not in ("<", "<=", ">", ">="):
        return None
    if not pol:
        op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
    if op in (">", ">="):
        a, b = b, a
        op = "<" if op == ">" else "<="
    return (op, linear(mk("bin", "-", a, b)))


def strip_occ(t, memo=None):
    """The term with occurrence numbers of calls removed (for comparing equal computations at different places)."""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is None:
            memo[x] = x
            if x.op in ("call", "rcall", "meth", "new", "list", "dict", "set", "gen"):
                k = {"call": 3, "rcall": 2, "meth": 4, "new": 3, "list": 1, "dict": 1, "set": 1, "gen": 3}[x.op]
                r = mk(x.op, *[go(y) for y in x.a[:k]])
            elif x.op == "loop":
                r = x
            else:
                r = mk(x.op, *[go(y) for y in x.a])
            memo[x] = r
        return r
    return go(t)
