"""Flow-sensitive abstract interpreter over the syntax trees of the repository.

Values are finite sets of atoms (constants, references to abstract heap objects, functions, classes, library
symbols, taint tags).  Local variables and the attributes of the analysed `self` are flow-sensitive with strong
updates, the contents of all other heap objects are flow-insensitive (weak updates, iterated to a fixpoint).  Calls
to functions of the repository are analysed in the context of their arguments (inlined, memoised, recursion cut by a
fixpoint); calls to libraries use the tables in `libmodel`.  Nothing of the repository is imported or executed."""
import ast
from . import model as M


# ---------------------------------------------------------------------------------------------- atoms
class Const:
    __slots__ = ("v", "_h")

    def __init__(self, v):
        self.v = v
        self._h = hash((type(v).__name__, v))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return type(o) is Const and type(o.v) is type(self.v) and o.v == self.v

    def __repr__(self):
        return "Const(%r)" % (self.v,)


class _Opq:
    def __repr__(self):
        return "OPQ"


OPQ = _Opq()


class Tag:
    """Taint label carried along by values computed from a source."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return hash(("Tag", self.name))

    def __eq__(self, o):
        return type(o) is Tag and o.name == self.name

    def __repr__(self):
        return "Tag(%s)" % (self.name,)


class Ref:
    __slots__ = ("obj", "kind", "_h")

    def __init__(self, obj, kind=None):
        self.obj, self.kind = obj, kind if kind is not None else obj.kind
        self._h = hash((obj.id, self.kind))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return type(o) is Ref and o.obj is self.obj and o.kind == self.kind

    def __repr__(self):
        return "Ref(%r:%s)" % (self.obj, self.kind)


class Obj:
    """Abstract heap object. `lazy` objects come from outside (arguments, earlier state): their children are created
    on demand and inherit the owner."""
    __slots__ = ("id", "site", "kind", "owner", "path", "lazy", "elem", "keys", "pos", "attrs", "bases", "src",
                 "depth", "version", "tags", "meta", "wk")

    def __init__(self, id, site, kind=None, owner=None, path="", lazy=False, depth=0):
        self.id, self.site, self.kind, self.owner, self.path, self.lazy, self.depth = \
            id, site, kind, owner, path, lazy, depth
        self.elem = frozenset()
        self.keys = frozenset()
        self.pos = None           # tuple/str-key positions -> V
        self.attrs = {}
        self.bases = frozenset()  # objects whose storage this one shares (views)
        self.src = frozenset()    # objects a lazy iterator / dict view reads from
        self.meta = None
        self.wk = False          # created inside a unit of work handed to a pool

    def __repr__(self):
        return "o%d%s%s" % (self.id, ":" + str(self.kind) if self.kind else "",
                            "@" + ".".join(map(str, self.owner)) + self.path if self.owner else "")


class Fn:
    __slots__ = ("f", "cells")

    def __init__(self, f, cells=None):
        self.f, self.cells = f, cells

    def __hash__(self):
        return hash(("Fn", id(self.f)))

    def __eq__(self, o):
        return type(o) is Fn and o.f is self.f

    def __repr__(self):
        return "Fn(%s)" % self.f.qual


class Bnd:
    __slots__ = ("recv", "f", "_h")

    def __init__(self, recv, f):
        self.recv, self.f = recv, f
        self._h = hash(("Bnd", recv, id(f)))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return type(o) is Bnd and o.f is self.f and o.recv == self.recv

    def __repr__(self):
        return "Bnd(%s)" % self.f.qual


class Cls:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __hash__(self):
        return hash(("Cls", id(self.c)))

    def __eq__(self, o):
        return type(o) is Cls and o.c is self.c

    def __repr__(self):
        return "Cls(%s)" % self.c.name


class Mod:
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m

    def __hash__(self):
        return hash(("Mod", id(self.m)))

    def __eq__(self, o):
        return type(o) is Mod and o.m is self.m

    def __repr__(self):
        return "Mod(%s)" % self.m.name


class Lib:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return hash(("Lib", self.name))

    def __eq__(self, o):
        return type(o) is Lib and o.name == self.name

    def __repr__(self):
        return "Lib(%s)" % self.name


class LibM:
    """A library method bound to a receiver value."""
    __slots__ = ("recv", "name", "_h")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name
        self._h = hash(("LibM", recv, name))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return type(o) is LibM and o.name == self.name and o.recv == self.recv

    def __repr__(self):
        return "LibM(%s)" % self.name


class Super:
    __slots__ = ("cls", "recv", "_h")

    def __init__(self, cls, recv):
        self.cls, self.recv = cls, recv
        self._h = hash(("Super", id(cls), recv))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return type(o) is Super and o.cls is self.cls and o.recv == self.recv


class Partial:
    """functools.partial / joblib.delayed of a callable value."""
    __slots__ = ("fn", "args", "kw", "delayed", "_h")

    def __init__(self, fn, args=(), kw=(), delayed=False):
        self.fn, self.args, self.kw, self.delayed = fn, tuple(args), tuple(sorted(kw)), delayed
        self._h = hash(("Partial", fn, self.args, self.kw, delayed))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return type(o) is Partial and o.fn == self.fn and o.args == self.args and o.kw == self.kw \
            and o.delayed == self.delayed


BOT = frozenset()
V_OPQ = frozenset([OPQ])
V_NONE = frozenset([Const(None)])
V_TRUE = frozenset([Const(True)])
V_FALSE = frozenset([Const(False)])


def tags(*vs):
    out = []
    for v in vs:
        for a in v:
            if type(a) is Tag:
                out.append(a)
    return frozenset(out)


def refs(v):
    return [a for a in v if type(a) is Ref]


# ---------------------------------------------------------------------------------------------- state
class State:
    __slots__ = ("loc", "sattr", "sdef", "iters", "tok", "ver")

    def __init__(self, loc, sattr, sdef, iters=(), tok=None, ver=None):
        self.loc, self.sattr, self.sdef, self.iters = loc, sattr, sdef, iters
        self.tok = {} if tok is None else tok    # local name -> symbolic identity of the object (must alias)
        self.ver = {} if ver is None else ver    # attribute name -> identity of the last assignments to it

    def copy(self):
        return State(dict(self.loc), dict(self.sattr), self.sdef, self.iters, dict(self.tok), dict(self.ver))

    def same(self, o):
        return self.loc == o.loc and self.sattr == o.sattr and self.sdef == o.sdef and self.tok == o.tok \
            and self.ver == o.ver


class Effect:
    __slots__ = ("kind", "obj", "name", "node", "func", "stack", "worker", "info", "value")

    def __init__(self, kind, obj, name, node, func, stack, worker, info=None, value=None):
        self.kind, self.obj, self.name, self.node, self.func = kind, obj, name, node, func
        self.stack, self.worker, self.info, self.value = stack, worker, info, value

    @property
    def where(self):
        return "%s:%d (%s)" % (self.func.module.rel, getattr(self.node, "lineno", 0), self.func.qual)

    def chain(self):
        return " -> ".join("%s:%d" % (f.qual, getattr(n, "lineno", 0)) for f, n in self.stack) or self.func.qual

    def __repr__(self):
        return "<%s %s %s %s>" % (self.kind, self.obj, self.name, self.where)


class Frame:
    def __init__(self, func, parent, node):
        self.func, self.parent, self.node = func, parent, node
        self.rets = []        # (state, value)
        self.yields = BOT
        self.loops = []       # stack of dict(break=[], continue=[])
        self.exc = []         # stack of lists of states (try bodies)
        self.stmt = None
        self.raises = []
        self.rettoks = []


class TooDeep(Exception):
    pass


class Interp:
    MAXDEPTH = 40
    MAXPASS = 25
    CTXLIMIT = 6
    SITELIMIT = 3
    CONSTLIMIT = 6

    def __init__(self, prog, hooks=None):
        from . import libmodel
        self.prog = prog
        self.lib = libmodel.LibModel(self)
        self.objs = {}
        self.next_id = 0
        self.changed = False
        self.effects = {}
        self.memo = {}
        self.active = {}
        self.summ = {}
        self.cells = {}
        self.frames = []
        self.worker = 0
        self.epoch = ""
        self.entry_self = None
        self.globals_cache = {}
        self.undecided = {}
        self.calls_seen = set()
        self.funcs_seen = set()
        self.ncalls = 0
        self.hooks = hooks          # optional object with callbacks
        self.attr_entry = {}
        self.effcb = None
        self.calling = None
        self.libcalls = {}
        self.ctxcount = {}
        self.merged_args = {}
        self.escaped = False
        self.site_ctx = {}
        self.use_tokens = False
        self.ret_tok = {}
        self.pend_tok = None
        self.attrs_set = []

    def cur_module(self):
        f = self.frames[-1].func
        return f.module

    def libcall(self, name, node, args, kw, st, recv=None):
        key = (self.epoch, name, id(node))
        r = self.libcalls.get(key)
        fr = self.frames[-1]
        if r is None:
            stack, f = [], fr
            while f is not None and f.parent is not None:
                stack.append((f.parent.func, f.node))
                f = f.parent
            self.libcalls[key] = [name, node, fr.func, [frozenset(a) for a in args], dict(kw), self.worker > 0,
                                  tuple(reversed(stack)), recv]
        else:
            for i, a in enumerate(args):
                if i < len(r[3]):
                    r[3][i] = r[3][i] | a
            for k, v in kw.items():
                r[4][k] = r[4].get(k, BOT) | v
            r[5] = r[5] or self.worker > 0

    # ------------------------------------------------------------------------------------ heap
    def new(self, site, kind=None, owner=None, path="", lazy=False, depth=0):
        key = (self.epoch, site, kind)
        o = self.objs.get(key)
        if o is None:
            o = Obj(self.next_id, site, kind, owner, path, lazy, depth)
            self.next_id += 1
            o.wk = self.worker > 0
            self.objs[key] = o
        return o

    def alloc(self, node, kind=None, extra=None):
        fr = self.frames[-1] if self.frames else None
        # the call chain of the two innermost call sites separates allocations of helpers
        ctx = []
        f = fr
        for _ in range(2):
            if f is None or f.parent is None:
                break
            ctx.append(id(f.node))
            f = f.parent
        ctx = tuple(ctx)
        if self.worker > 0:
            extra = (extra, "worker")
        seen = self.site_ctx.setdefault((self.epoch, id(node), extra, kind), [])
        if ctx not in seen:
            if len(seen) >= self.SITELIMIT:
                ctx = "*"
            else:
                seen.append(ctx)
        return self.new((id(node), ctx, extra), kind)

    def child(self, o, what, kind=None):
        """Lazily created child of an outside object."""
        if o.depth >= 4:
            return o
        key = ("child", o.id, what)
        c = self.objs.get(key)
        if c is None:
            c = Obj(self.next_id, key, kind, o.owner, o.path + what, True, o.depth + 1)
            self.next_id += 1
            self.objs[key] = c
        return c

    def cap(self, v):
        """Collapse large sets of constants."""
        if len(v) > self.CONSTLIMIT:
            cs = [a for a in v if type(a) is Const and a.v is not None]
            if len(cs) > self.CONSTLIMIT:
                return frozenset(a for a in v if type(a) is not Const or a.v is None) | V_OPQ
        return v

    def add_elem(self, o, v, where="elem"):
        old = getattr(o, where)
        if OPQ in old and old:
            v = frozenset(a for a in v if type(a) is not Const or a.v is None)
        if not v <= old:
            setattr(o, where, self.cap(old | v))
            self.changed = True
            self._esc(v)

    def add_attr(self, o, name, v):
        old = o.attrs.get(name, BOT)
        if OPQ in old:
            v = frozenset(a for a in v if type(a) is not Const or a.v is None)
        if not v <= old:
            o.attrs[name] = self.cap(old | v)
            self.changed = True
            self._esc(v)

    def add_pos(self, o, key, v):
        if o.pos is None:
            o.pos = {}
        old = o.pos.get(key, BOT)
        if not v <= old:
            o.pos[key] = old | v
            self.changed = True
            self._esc(v)

    def elem_of(self, v):
        """Everything iteration over / element access of v may yield."""
        out = set()
        for a in v:
            if type(a) is Ref:
                out |= self.obj_elem(a)
            elif type(a) is Tag:
                out.add(a)
            elif type(a) is Const and isinstance(a.v, str):
                out.add(OPQ)
            elif a is OPQ:
                out.add(OPQ)
        return frozenset(out)

    def obj_elem(self, a):
        o = a.obj
        r = o.elem
        if o.pos:
            for x in o.pos.values():
                r = r | x
        if o.lazy and (o.owner is not None):
            if a.kind in ("num", "str", "bool"):
                return V_OPQ
            r = r | frozenset([Ref(self.child(o, "[]"))])
        return r

    def key_of(self, v):
        out = set()
        for a in v:
            if type(a) is Ref:
                out |= a.obj.keys
                if a.obj.lazy and a.obj.owner is not None:
                    out.add(OPQ)
            elif type(a) is Tag:
                out.add(a)
        return frozenset(out)

    # ------------------------------------------------------------------------------------ effects
    def effect(self, kind, obj, name, node, info=None, value=None):
        fr = self.frames[-1]
        key = (self.epoch, kind, obj.id if obj is not None else None, name, id(node), info)
        e = self.effects.get(key)
        if e is None:
            stack, f = [], fr
            while f is not None and f.parent is not None:
                stack.append((f.parent.func, f.node))
                f = f.parent
            e = Effect(kind, obj, name, node, fr.func, tuple(reversed(stack)), self.worker > 0, info, value)
            self.effects[key] = e
        else:
            if self.worker > 0:
                e.worker = True
            if value is not None and e.value is not None:
                e.value = e.value | value
        return e

    def mutate(self, v, op, node, structural=True, st=None, value=None, key=None):
        """The objects v refers to are modified in place by `op`."""
        for a in refs(v):
            self._mut_obj(a.obj, op, node, structural, st, value, set(), key)

    def _mut_obj(self, o, op, node, structural, st, value, seen, key=None, nobase=False):
        if o.id in seen:
            return
        seen.add(o.id)
        self.effect("mutate", o, op, node, info=structural, value=value)
        if op.startswith(".") or op.startswith("del .") or nobase:
            return
        for b in o.bases:
            self._mut_obj(b, op if op.endswith("(view)") else op + "(view)", node, structural, st, value, seen, key)

    # ------------------------------------------------------------------------------------ symbolic identities
    VIEWS = {"items", "keys", "values", "__iter__"}
    VIEWFUNCS = {"enumerate", "reversed", "iter", "zip"}

    def tok(self, e, st, view=False):
        """Symbolic identity of the object an expression denotes, or None. Equal identities denote the same object."""
        if isinstance(e, ast.Name):
            t = st.tok.get(e.id)
            if view and isinstance(t, tuple) and t[0] == "view":
                return t[1]
            return t
        if isinstance(e, (ast.GeneratorExp, ast.Call)) and not view:
            t = self.lazy_tok(e, st)
            if t is not None:
                return ("view", t)
        if isinstance(e, ast.GeneratorExp):
            return self.tok(e.generators[0].iter, st, True)
        if isinstance(e, ast.Attribute):
            b = self.tok(e.value, st)
            return None if b is None else ("attr", b, e.attr, st.ver.get(e.attr, _V0))
        if isinstance(e, ast.Subscript):
            b = self.tok(e.value, st)
            if b is None:
                return None
            if isinstance(e.slice, ast.Constant):
                k = ("const", e.slice.value)
            elif isinstance(e.slice, ast.Name):
                k = st.tok.get(e.slice.id)
            else:
                k = None
            return None if k is None else ("item", b, k, st.ver.get("[]", _V0))
        if isinstance(e, ast.NamedExpr):
            return st.tok.get(e.target.id)
        if isinstance(e, ast.Call):
            if view:
                if isinstance(e.func, ast.Attribute) and e.func.attr in self.VIEWS and not e.args:
                    return self.tok(e.func.value, st, True)
                if isinstance(e.func, ast.Name) and e.func.id in self.VIEWFUNCS and e.args:
                    return self.tok(e.args[0], st, True)
                if isinstance(e.func, ast.Name) and e.func.id in ("filter", "map") and len(e.args) == 2:
                    return self.tok(e.args[1], st, True)
            return self.ret_tok.get(id(e))
        return None

    def loop_tok(self, e, st):
        """Identity of the collection a loop traverses; a variable without one holds some object: name it."""
        t = self.tok(e, st, True)
        if t is not None:
            return t
        r = e
        while True:
            if isinstance(r, (ast.Attribute, ast.Subscript)):
                r = r.value
            elif isinstance(r, ast.Call) and isinstance(r.func, ast.Attribute) and r.func.attr in self.VIEWS and not r.args:
                r = r.func.value
            elif isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id in self.VIEWFUNCS and r.args:
                r = r.args[0]
            else:
                break
        if not isinstance(r, ast.Name) or r.id not in st.loc or st.tok.get(r.id) is not None:
            return None
        st.tok[r.id] = self.new_tok(e, st)
        return self.tok(e, st, True)

    def lazy_tok(self, e, st):
        """The collection a generator, iterator or dictionary view reads from while it is traversed."""
        if isinstance(e, ast.GeneratorExp) or isinstance(e, ast.Call) and (
                isinstance(e.func, ast.Attribute) and e.func.attr in self.VIEWS and not e.args or
                isinstance(e.func, ast.Name) and e.func.id in ("filter", "map") + tuple(self.VIEWFUNCS)):
            return self.tok(e, st, True)
        return None

    def kill_tok(self, t, st):
        """A new object gets the identity t: whatever had it before is now another object."""
        def has(x):
            return x == t or (isinstance(x, tuple) and any(has(y) for y in x if isinstance(y, tuple)))
        for k in [k for k, v in st.tok.items() if v is not None and has(v)]:
            del st.tok[k]
        if any(i[5] is not None and has(i[5]) for i in st.iters):
            st.iters = tuple(i if i[5] is None or not has(i[5]) else i[:5] + (None,) for i in st.iters)

    def new_tok(self, node, st):
        t = ("new", id(node))
        self.kill_tok(t, st)
        return t

    def bump(self, attr, node, st):
        st.ver[attr] = frozenset([id(node)])
        for a in self.attrs_set:
            a.add(attr)

    INSERTING = {"append", "add", "remove", "pop", "popitem", "popleft", "appendleft", "insert", "extend", "extendleft",
                 "discard", "clear", "update", "setdefault", "del[]", "[]=", "[]op=", "difference_update",
                 "intersection_update", "symmetric_difference_update", "Add=", "Sub=", "BitOr=", "BitAnd=", "BitXor=",
                 "add_node", "add_nodes_from", "remove_node", "remove_nodes_from", "add_edge", "remove_edge",
                 "add_edges_from", "remove_edges_from"}

    def tokmut(self, recv, op, node, st, kinds=()):
        """`recv` (an expression) is changed in place by op: does a running loop traverse it?"""
        if not self.use_tokens or st is None or not st.iters or op not in self.INSERTING:
            return
        t = self.tok(recv, st)
        if t is None:
            return
        for (loop, oids, fr, tgt, seq, it) in st.iters:
            if it == t:
                e = self.effect("itermut", None, op, node, info=(id(loop), fr.func.where))
                e.info = (loop, fr.func, fr.stmt, frozenset(kinds))

    def _dictlike(self, o):
        return o.kind in ("dict", "SortedDict", "defaultdict", "Counter")

    def _stmt_in(self, fr, node):
        return fr.stmt

    # ------------------------------------------------------------------------------------ names
    def builtin(self, name):
        return frozenset([Lib("builtins." + name)])

    def global_value(self, m, name):
        r = self.prog.resolve_name(m, name)
        return self.resolved_value(r, name)

    def resolved_value(self, r, name=None):
        if r is None:
            if name is not None:
                import builtins as _b
                if name in _BUILTINS:
                    return self.builtin(name)
            return None
        if r[0] == "func":
            return frozenset([self._decorated(r[1])])
        if r[0] == "class":
            return frozenset([Cls(r[1])])
        if r[0] == "module":
            return frozenset([Mod(r[1])])
        if r[0] == "lib":
            return frozenset([Lib(r[1])])
        if r[0] == "var":
            return self.global_var(r[1], r[3], r[2])
        return V_OPQ

    def _decorated(self, f):
        return Fn(f)

    def global_var(self, m, name, expr):
        key = (m.name, name)
        if key in self.globals_cache:
            return self.globals_cache[key]
        self.globals_cache[key] = V_OPQ
        v = V_OPQ
        if expr is not None:
            saved = (self.frames, self.epoch, self.worker)
            self.frames, self.worker = [Frame(_ModFunc(m), None, None)], 0
            self.epoch = "module"
            try:
                v = self.eval(expr, State({}, {}, frozenset()))
            finally:
                self.frames, self.epoch, self.worker = saved
            out = set()
            for a in v:
                if type(a) is Ref and a.obj.owner is None:
                    self._own(a.obj, ("global", m.name + "." + name))
                out.add(a)
            v = frozenset(out)
        self.globals_cache[key] = v
        return v

    def _own(self, o, owner, depth=0):
        if o.owner is not None or depth > 4:
            return
        o.owner = owner
        subs = set(o.elem) | set(o.keys)
        if o.pos:
            for x in o.pos.values():
                subs |= x
        for x in o.attrs.values():
            subs |= x
        for a in subs:
            if type(a) is Ref:
                self._own(a.obj, owner, depth + 1)

    def default_value(self, f, pname, expr):
        """Default argument values are created once, when the function is defined."""
        key = ("default", id(f.node), pname)
        if key in self.globals_cache:
            return self.globals_cache[key]
        self.globals_cache[key] = V_OPQ
        saved = (self.frames, self.epoch, self.worker)
        self.frames, self.worker, self.epoch = [Frame(f, None, None)], 0, "module"
        try:
            v = self.eval(expr, State({}, {}, frozenset()))
        finally:
            self.frames, self.epoch, self.worker = saved
        for a in v:
            if type(a) is Ref:
                self._own(a.obj, ("default", f.where + "(" + pname + ")"))
        self.globals_cache[key] = v
        return v

    def lookup(self, name, st):
        fr = self.frames[-1]
        f = fr.func
        if name in st.loc:
            return st.loc[name]
        if isinstance(f, M.FuncInfo):
            if name in f.locals and name not in f.globals_:
                return BOT      # unbound on this path
            p = f.parent
            while p is not None:
                if name in p.locals:
                    return self.cells.get((id(p.node), name), BOT)
                p = p.parent
            m = f.module
        else:
            m = f.m
        v = self.global_value(m, name)
        if v is None:
            self.note("unresolved name", name)
            return V_OPQ
        return v

    def note(self, what, detail):
        self.undecided.setdefault(what, set()).add(str(detail))

    def setloc(self, name, v, st):
        fr = self.frames[-1]
        f = fr.func
        if isinstance(f, M.FuncInfo) and name in f.globals_:
            self.effect("globalset", None, f.module.name + "." + name, fr.stmt or f.node, value=v)
            return
        if isinstance(f, M.FuncInfo) and name in f.nonlocals:
            p = f.parent
            while p is not None:
                if name in p.locals:
                    k = (id(p.node), name)
                    if not v <= self.cells.get(k, BOT):
                        self.cells[k] = self.cells.get(k, BOT) | v
                        self.changed = True
                    break
                p = p.parent
            self.effect("nonlocalset", None, name, fr.stmt or f.node, value=v)
            return
        st.loc[name] = v
        if self.use_tokens:
            if self.pend_tok is not None:
                st.tok[name], self.pend_tok = self.pend_tok, None
            elif not isinstance(fr.stmt, ast.AugAssign):
                st.tok.pop(name, None)
        if isinstance(f, M.FuncInfo):
            k = (id(f.node), name)
            old = self.cells.get(k, BOT)
            if not v <= old:
                self.cells[k] = old | v
                # only matters to closures; they are re-evaluated in the next pass
                self.changed = True

    # ------------------------------------------------------------------------------------ joins
    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        loc = dict(a.loc)
        for k, v in b.loc.items():
            o = loc.get(k)
            loc[k] = v if o is None else o | v
        sattr = {}
        for k in set(a.sattr) | set(b.sattr):
            x = a.sattr.get(k)
            y = b.sattr.get(k)
            if x is None:
                x = self.entry_attr(k)
            if y is None:
                y = self.entry_attr(k)
            sattr[k] = x | y
        tok, ver = {}, {}
        if self.use_tokens:
            tok = {k: v for k, v in a.tok.items() if b.tok.get(k) == v}
            for k in set(a.ver) | set(b.ver):
                ver[k] = a.ver.get(k, _V0) | b.ver.get(k, _V0)
        return State(loc, sattr, a.sdef & b.sdef, a.iters if a.iters == b.iters else
                     (a.iters if len(a.iters) < len(b.iters) else b.iters), tok, ver)

    def joins(self, sts):
        r = None
        for s in sts:
            r = self.join(r, s)
        return r

    def entry_attr(self, name):
        v = self.attr_entry.get(name)
        if v is None:
            o = self.entry_self
            if o is None:
                return BOT
            if name in o.attrs:
                v = o.attrs[name]
            else:
                v = frozenset([Ref(self.child(o, "." + name))]) if o.lazy else BOT
            if o.lazy and name not in o.attrs:
                pass
        return v

    # ------------------------------------------------------------------------------------ statements
    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        fr = self.frames[-1]
        prev = fr.stmt
        fr.stmt = s
        if fr.exc:
            fr.exc[-1].append(st.copy())
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.note("statement", type(s).__name__)
            fr.stmt = prev
            return st
        r = m(s, st)
        if fr.exc and r is not None:
            fr.exc[-1].append(r.copy())
        fr.stmt = prev
        return r

    def s_Expr(self, s, st):
        self.eval(s.value, st)
        return st

    def s_Pass(self, s, st):
        return st

    def s_Import(self, s, st):
        for al in s.names:
            n = al.asname or al.name.split(".")[0]
            d = al.name if al.asname else n
            v = frozenset([Mod(self.prog.modules[d])]) if d in self.prog.modules else frozenset([Lib(d)])
            self.setloc(n, v, st)
        return st

    def s_ImportFrom(self, s, st):
        f = self.frames[-1].func
        m = f.module if isinstance(f, M.FuncInfo) else f.m
        mod = self.prog._abs(m, s)
        for al in s.names:
            r = self.prog._from(mod, al.name, 0)
            v = self.resolved_value(r) or V_OPQ
            self.setloc(al.asname or al.name, v, st)
        return st

    def s_FunctionDef(self, s, st):
        f = self.prog.func_by_node.get(s)
        if f is not None:
            self.setloc(s.name, frozenset([Fn(f)]), st)
        return st

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st):
        fr = self.frames[-1].func
        self.setloc(s.name, frozenset([Cls(fr.module.classes[s.name])]), st)
        return st

    def s_Global(self, s, st):
        return st

    s_Nonlocal = s_Global

    def s_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else V_NONE
        self.effect("return", None, "return", s, value=v)
        self.frames[-1].rets.append((st, v))
        if self.use_tokens:
            self.frames[-1].rettoks.append(self.tok(s.value, st) if s.value is not None else None)
        return None

    def s_Raise(self, s, st):
        if s.exc is not None:
            self.eval(s.exc, st)
        self.effect("raise", None, "raise", s)
        return None

    def s_Assert(self, s, st):
        v = self.eval(s.test, st)
        self.effect("assert", None, "assert", s, value=v)
        t = self.truth(s.test, st, v)
        if t is False:
            return None
        return self.refine(s.test, st, True) or st

    def s_Delete(self, s, st):
        for t in s.targets:
            self.del_target(t, st)
        return st

    def del_target(self, t, st):
        if isinstance(t, ast.Name):
            st.loc.pop(t.id, None)
        elif isinstance(t, ast.Subscript):
            v = self.eval(t.value, st)
            self.eval_index(t.slice, st)
            self.tokmut(t.value, "del[]", t, st, {a.kind for a in refs(v)})
            self.mutate(self._accessor_base(v), "del[]", t, True, st)
        elif isinstance(t, ast.Attribute):
            v = self.eval(t.value, st)
            for a in refs(v):
                if a.obj is self.entry_self:
                    self.effect("delself", a.obj, t.attr, t)
                    st.sattr.pop(t.attr, None)
                    st.sdef = st.sdef - {t.attr}
                else:
                    self.mutate(frozenset([a]), "del ." + t.attr, t, False, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.del_target(e, st)

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            tk = None
            if self.use_tokens and isinstance(t, ast.Name):
                tk = self.tok(s.value, st)
                if tk is None and isinstance(s.value, ast.Name) and s.value.id in st.loc:
                    tk = st.tok[s.value.id] = self.new_tok(s, st)
                if tk is None and not isinstance(s.value, (ast.Name, ast.Attribute, ast.Subscript, ast.IfExp, ast.BoolOp)):
                    tk = self.new_tok(s, st)
            self.pend_tok = tk
            self.assign(t, v, st, s)
            self.pend_tok = None
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st, s)
        return st

    def s_AugAssign(self, s, st):
        t = s.target
        r = self.eval(s.value, st)
        opn = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st)
            new = self.aug(cur, r, opn, s, st)
            self.setloc(t.id, new, st)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, st)
            cur = self.getattr(base, t.attr, t, st)
            new = self.aug(cur, r, opn, s, st)
            self.setattr(base, t.attr, new, st, s)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st)
            key = self.eval_index(t.slice, st)
            cur = self.getitem(base, key, t, st)
            new = self.aug(cur, r, opn, s, st)
            self.setitem(base, key, new, t, st, aug=True)
        return st

    MUTABLE_AUG = {"list", "set", "dict", "ndarray", "Series", "DataFrame", "Bitmap", "deque", "Counter",
                   "defaultdict", "data", "bytearray", "Column"}

    def aug(self, cur, r, op, node, st):
        out = set()
        if self.use_tokens and cur and all(type(a) is Ref and a.kind in ("list", "set", "dict", "deque", "Counter")
                                           for a in cur if type(a) is not Tag):
            self.tokmut(node.target, op + "=", node, st, {a.kind for a in refs(cur)})
        # a value that may also be a plain number is not known to be updated in place
        scalar = any(a is OPQ or (type(a) is Const and a.v is not None) for a in cur)
        for a in cur:
            if type(a) is Ref:
                k = a.kind
                if k is None and op == "Add" and a.obj.owner and a.obj.owner[0] == "arg" and refs(r) and all(
                        x.kind == "list" for x in refs(r)):
                    k = "list"
                same = k in ("Bitmap", "set", "list", "deque", "dict") and any(x.kind == k for x in refs(r))
                if k in self.MUTABLE_AUG and (not scalar or same) and not (k == "list" and op != "Add" and op != "Mult"):
                    if k == "dict" and op != "BitOr":
                        pass
                    else:
                        self.mutate(frozenset([a]), op + "=", node, True, st, value=r)
                        if k in ("list", "set", "dict", "deque"):
                            self.add_elem(a.obj, self.elem_of(r))
                out.add(a)
            elif type(a) is Const:
                out.add(OPQ)
            elif type(a) is Tag:
                out.add(a)
            else:
                out.add(OPQ)
        out |= tags(r)
        if not out:
            out.add(OPQ)
        if self.hooks is not None:
            h = self.hooks.binop(self, op, cur, r, node, st)
            if h is not None:
                return h
        return frozenset(out)

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            self.setloc(t.id, v, st)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, st)
            self.setattr(base, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st)
            key = self.eval_index(t.slice, st)
            self.setitem(base, key, v, t, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    o = self.alloc(e, "list")
                    self.add_elem(o, self.elem_of(v))
                    self.assign(e.value, frozenset([Ref(o)]), st, node)
                elif star and i > star[0]:
                    self.assign(e, self.elem_of(v), st, node)
                else:
                    self.assign(e, self.unpack(v, i), st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def unpack(self, v, i):
        out = set()
        for a in v:
            if type(a) is Ref:
                if a.obj.pos is not None and i in a.obj.pos:
                    out |= a.obj.pos[i]
                    out |= a.obj.elem
                elif a.obj.pos is not None and a.kind == "tuple":
                    out |= a.obj.elem
                else:
                    if a.kind == "tuple" and not a.obj.lazy:
                        out |= a.obj.elem
                    else:
                        out |= self.obj_elem(a)
            elif type(a) is Tag:
                out.add(a)
            else:
                out.add(OPQ)
        return frozenset(out)

    # ---- attributes
    def setattr(self, base, name, v, st, node):
        if self.use_tokens:
            self.bump(name, node, st)
        for a in base:
            if type(a) is Ref:
                o = a.obj
                if o is self.entry_self:
                    self.effect("setself", o, name, node, value=v)
                    if len(refs(base)) == 1 and len([x for x in base if type(x) is not Tag]) == 1:
                        st.sattr[name] = v
                        st.sdef = st.sdef | {name}
                    else:
                        st.sattr[name] = st.sattr.get(name, self.entry_attr(name)) | v
                else:
                    self.effect("setattr", o, name, node, value=v)
                    self._mut_obj(o, "." + name + "=", node, False, st, v, set())
                    self.add_attr(o, name, v)
            elif type(a) is Cls:
                self.effect("classattrset", None, a.c.qual + "." + name, node, value=v)
            elif type(a) is Mod:
                self.effect("globalset", None, a.m.name + "." + name, node, value=v)
            elif type(a) is Lib:
                self.effect("libset", None, a.name + "." + name, node, value=v)
            elif type(a) is LibM:
                self.effect("libset", None, "." + a.name + "." + name, node, value=v)
            elif type(a) in (Fn, Bnd):
                self.effect("funcattrset", None, a.f.where + "." + name, node, value=v)

    def getattr(self, base, name, node, st):
        out = set()
        for a in base:
            if type(a) is Ref:
                out |= self.obj_getattr(a, name, node, st)
            elif type(a) is Mod:
                r = self.prog.member(("module", a.m), name)
                v = self.resolved_value(r)
                out |= v if v is not None else V_OPQ
            elif type(a) is Cls:
                f = a.c.find(name)
                if f is not None:
                    out.add(Bnd(frozenset([a]), f) if f.is_classmethod else Fn(f))
                else:
                    ca = a.c.find_attr(name)
                    if ca is not None:
                        out |= self.class_attr(ca[0], name, ca[1])
                    else:
                        out.add(Lib(a.c.qual + "." + name))
            elif type(a) is Lib:
                out |= self.lib.lib_attr(a, name, node)
            elif type(a) is Super:
                f = self._super_find(a, name)
                if f is not None:
                    out.add(Bnd(a.recv, f))
                else:
                    out.add(LibM(a.recv, "super." + name))
            elif type(a) is Const:
                if a.v is None:
                    continue
                out.add(LibM(frozenset([a]), name))
            elif type(a) is Tag:
                out.add(a)
            elif type(a) in (Fn, Bnd):
                out.add(LibM(frozenset([a]), name))
            elif a is OPQ:
                out.add(LibM(V_OPQ, name))
            else:
                out.add(LibM(frozenset([a]), name))
        return frozenset(out)

    def class_attr(self, c, name, expr):
        key = ("classattr", c.qual, name)
        if key in self.globals_cache:
            return self.globals_cache[key]
        self.globals_cache[key] = V_OPQ
        if isinstance(expr, ast.Name):
            r = self.prog.resolve_name(c.module, expr.id)
            if r is not None and r[0] == "func":
                v = frozenset([Fn(r[1])])
                self.globals_cache[key] = v
                return v
        saved = (self.frames, self.epoch, self.worker)
        self.frames, self.worker, self.epoch = [Frame(_ModFunc(c.module, c), None, None)], 0, "module"
        try:
            v = self.eval(expr, State({}, {}, frozenset()))
        finally:
            self.frames, self.epoch, self.worker = saved
        for a in v:
            if type(a) is Ref:
                self._own(a.obj, ("classattr", c.qual + "." + name))
        self.globals_cache[key] = v
        return v

    def _super_find(self, a, name):
        for r in refs(a.recv):
            k = r.kind
            c = self.class_of(k)
            if c is not None:
                return c.find_after(a.cls, name)
        return a.cls.find_after(a.cls, name)

    def class_of(self, kind):
        if isinstance(kind, M.ClassInfo):
            return kind
        return None

    def obj_getattr(self, a, name, node, st):
        o = a.obj
        c = self.class_of(a.kind)
        if c is not None:
            if o is self.entry_self:
                m = c.find(name)
                if m is not None and name not in st.sattr:
                    if m.is_property:
                        return self.call_function(m, [frozenset([a])], {}, node, st)
                    if m.is_static:
                        return frozenset([Fn(m)])
                    return frozenset([Bnd(frozenset([a]), m)])
                defined = name in st.sdef
                ca = c.find_attr(name)
                if self.calling is node and name not in st.sattr and ca is None and c.lib_bases() \
                        and name not in self.attr_entry and name not in o.attrs:
                    return frozenset([LibM(frozenset([a]), name)])
                self.effect("readself", o, name, node, info=defined)
                if name in st.sattr:
                    return st.sattr[name]
                v = self.entry_attr(name)
                if ca is not None:
                    v = v | self.class_attr(ca[0], name, ca[1])
                return v
            m = c.find(name)
            if m is not None and name not in o.attrs:
                if m.is_property:
                    return self.call_function(m, [frozenset([a])], {}, node, st)
                if m.is_static:
                    return frozenset([Fn(m)])
                return frozenset([Bnd(frozenset([a]), m)])
            ca = c.find_attr(name)
            out = set(o.attrs.get(name, BOT))
            if ca is not None:
                out |= self.class_attr(ca[0], name, ca[1])
            self.effect("readattr", o, name, node)
            if not out:
                if name.startswith("__") or c.lib_bases():
                    return frozenset([LibM(frozenset([a]), name)])
                if o.lazy:
                    return frozenset([Ref(self.child(o, "." + name))])
                return BOT
            return frozenset(out)
        return self.lib.obj_attr(a, name, node, st)

    # ---- items
    def _accessor_base(self, v):
        """x.loc / x.iloc / x.at / x.iat are represented by the object itself."""
        return v

    def setitem(self, base, key, v, node, st, aug=False):
        kname = None
        if self.use_tokens:
            self.tokmut(node.value, "[]op=" if aug else "[]=", node, st, {a.kind for a in refs(base)})
            self.bump("[]", node, st)
        if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Name):
            kname = node.slice.id
        for a in refs(base):
            if a.kind == "tuple":
                continue
            self._mut_obj(a.obj, "[]op=" if aug else "[]=", node, True, st, v, set(), kname,
                          nobase=a.kind == "DataFrame")
            self.add_elem(a.obj, v)
            self.add_elem(a.obj, frozenset(x for x in key if type(x) is not Const), "keys")
            for k in key:
                if type(k) is Const and isinstance(k.v, (str, int)) and a.obj.pos is not None and k.v in a.obj.pos:
                    self.add_pos(a.obj, k.v, v)

    def eval_index(self, sl, st):
        if isinstance(sl, ast.Slice):
            for x in (sl.lower, sl.upper, sl.step):
                if x is not None:
                    self.eval(x, st)
            return frozenset([_SLICE])
        if isinstance(sl, ast.Tuple):
            out = set()
            for e in sl.elts:
                out |= self.eval_index(e, st)
            out = {x for x in out if type(x) in (Tag,)} | ({_TSLICE} if _SLICE in out or _TSLICE in out else {_TUPLE})
            return frozenset(out)
        return self.eval(sl, st)

    def getitem(self, base, key, node, st):
        return self.lib.getitem(base, key, node, st)

    # ---- control flow
    def s_If(self, s, st):
        v = self.eval(s.test, st)
        t = self.truth(s.test, st, v)
        self.effect("test", None, "if", s, value=v)
        a = b = None
        if t is not False:
            s1 = self.refine(s.test, st.copy(), True)
            a = self.block(s.body, s1) if s1 is not None else None
        if t is not True:
            s2 = self.refine(s.test, st.copy(), False)
            b = self.block(s.orelse, s2) if s2 is not None else None
        return self.join(a, b)

    def s_While(self, s, st):
        fr = self.frames[-1]
        lp = {"break": [], "continue": []}
        fr.loops.append(lp)
        cur = st
        exits = []
        for it in range(6):
            v = self.eval(s.test, cur)
            t = self.truth(s.test, cur, v)
            self.effect("test", None, "while", s, value=v)
            if t is not True:
                e = self.refine(s.test, cur.copy(), False)
                if e is not None:
                    exits.append(e)
            if t is False:
                break
            body = self.refine(s.test, cur.copy(), True)
            lp["continue"] = []
            out = self.block(s.body, body) if body is not None else None
            nxt = self.joins([out] + lp["continue"])
            if nxt is None:
                break
            j = self.join(cur, nxt)
            # definite assignment at the loop head stays that of the entry
            if it > 0 and j.same(cur):
                break
            cur = j
        fr.loops.pop()
        ex = self.joins(exits)
        if ex is not None and s.orelse:
            ex = self.block(s.orelse, ex)
        return self.joins([ex] + lp["break"])

    def iter_objs(self, v):
        """Objects a loop over v walks through while the loop runs."""
        out = set()
        st = [a.obj for a in refs(v)]
        while st:
            o = st.pop()
            if o.id in out:
                continue
            if o.kind == "iter" or o.src:
                if o.src:
                    st.extend(o.src)
                    if o.kind != "iter":
                        out.add(o.id)
                continue
            out.add(o.id)
        return frozenset(out)

    def s_For(self, s, st):
        fr = self.frames[-1]
        lits = M.literal_loop(s) if isinstance(s, ast.For) else None
        if lits is not None:
            for x in lits:
                self.assign(s.target, self.eval(x, st), st, s)
                st = self.block(s.body, st)
                if st is None:
                    return None
            return self.block(s.orelse, st) if s.orelse else st
        itv = self.eval(s.iter, st)
        self.effect("iterate", None, "for", s, value=itv)
        el = self.elem_of(itv)
        lp = {"break": [], "continue": []}
        fr.loops.append(lp)
        empty = self.known_empty(itv)
        nonempty = self.known_nonempty(itv)
        oids = self.iter_objs(itv)
        tnames = frozenset(n.id for n in ast.walk(s.target) if isinstance(n, ast.Name))
        itok = self.loop_tok(s.iter, st) if self.use_tokens else None
        exits = []
        if not nonempty:
            exits.append(st.copy())
        if not empty:
            cur = st
            outer = st.iters
            for it in range(6):
                body = cur.copy()
                body.iters = outer + ((s, oids, fr, tnames, len(outer), itok),)
                el = self.elem_of(itv)
                self.assign(s.target, el, body, s)
                if self.use_tokens and isinstance(s.target, ast.Name):
                    body.tok[s.target.id] = self.new_tok(s, body)
                lp["continue"] = []
                out = self.block(s.body, body)
                nxt = self.joins([out] + lp["continue"])
                if nxt is not None:
                    nxt.iters = outer
                    exits.append(nxt.copy())
                else:
                    break
                j = self.join(cur, nxt)
                if it > 0 and j.same(cur):
                    break
                cur = j
        fr.loops.pop()
        for b in lp["break"]:
            b.iters = st.iters
        ex = self.joins(exits)
        if ex is not None and s.orelse:
            ex = self.block(s.orelse, ex)
        return self.joins([ex] + lp["break"])

    s_AsyncFor = s_For

    def known_empty(self, v):
        return False

    def known_nonempty(self, v):
        rs = refs(v)
        return bool(rs) and len(rs) == len([a for a in v if type(a) is not Tag]) and all(
            r.obj.meta == "nonempty" for r in rs)

    def s_Break(self, s, st):
        fr = self.frames[-1]
        if fr.loops:
            fr.loops[-1]["break"].append(st)
        return None

    def s_Continue(self, s, st):
        fr = self.frames[-1]
        if fr.loops:
            fr.loops[-1]["continue"].append(st)
        return None

    def s_With(self, s, st):
        for it in s.items:
            v = self.eval(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, s)
        return self.block(s.body, st)

    s_AsyncWith = s_With

    def s_Try(self, s, st):
        fr = self.frames[-1]
        nr, nb = len(fr.rets), [(len(l["break"]), len(l["continue"])) for l in fr.loops]
        coll = []
        fr.exc.append(coll)
        out = self.block(s.body, st.copy())
        fr.exc.pop()
        coll.append(st.copy())
        hs = self.joins([c.copy() for c in coll])
        if fr.exc:
            fr.exc[-1].extend(c.copy() for c in coll)
        outs = []
        for h in s.handlers:
            h_st = hs.copy()
            if h.type is not None:
                self.eval(h.type, h_st)
            if h.name:
                self.setloc(h.name, V_OPQ, h_st)
            outs.append(self.block(h.body, h_st))
        if out is not None and s.orelse:
            out = self.block(s.orelse, out)
        res = self.joins([out] + outs)
        if s.finalbody:
            # abrupt exits inside the try run the finally block as well
            for i in range(nr, len(fr.rets)):
                s0, v0 = fr.rets[i]
                r = self.block(s.finalbody, s0.copy())
                if r is not None:
                    fr.rets[i] = (r, v0)
            for l, (b0, c0) in zip(fr.loops, nb):
                for nm, k0 in (("break", b0), ("continue", c0)):
                    for i in range(k0, len(l[nm])):
                        r = self.block(s.finalbody, l[nm][i].copy())
                        if r is not None:
                            l[nm][i] = r
            ex = self.block(s.finalbody, hs.copy())
            if res is not None:
                res = self.block(s.finalbody, res)
        return res

    s_TryStar = s_Try

    def s_Match(self, s, st):
        self.eval(s.subject, st)
        outs = [st.copy()]
        for c in s.cases:
            b = st.copy()
            for n in ast.walk(c.pattern):
                if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                    self.setloc(n.name, V_OPQ, b)
            if c.guard is not None:
                self.eval(c.guard, b)
            outs.append(self.block(c.body, b))
        return self.joins(outs)

    # ------------------------------------------------------------------------------------ truth / refinement
    def truth(self, test, st, v=None):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t = self.truth(test.operand, st)
            return None if t is None else (not t)
        if isinstance(test, ast.BoolOp):
            ts = [self.truth(x, st) for x in test.values]
            if isinstance(test.op, ast.And):
                if any(t is False for t in ts):
                    return False
                return True if all(t is True for t in ts) else None
            if any(t is True for t in ts):
                return True
            return False if all(t is False for t in ts) else None
        if isinstance(test, ast.Constant):
            return bool(test.value)
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            l, r, op = test.left, test.comparators[0], test.ops[0]
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(r, ast.Constant) and r.value is None:
                lv = self.eval(l, st)
                t = self.is_none(lv)
                return t if t is None else (t if isinstance(op, ast.Is) else not t)
            if isinstance(op, (ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.In, ast.NotIn)):
                lv, rv = self.eval(l, st), self.eval(r, st)
                if len(lv) == 1 and len(rv) == 1:
                    (x,), (y,) = lv, rv
                    if type(x) is Const and type(y) is Const:
                        try:
                            if isinstance(op, ast.Eq):
                                return x.v == y.v
                            if isinstance(op, ast.NotEq):
                                return x.v != y.v
                            if isinstance(op, ast.Lt):
                                return x.v < y.v
                            if isinstance(op, ast.LtE):
                                return x.v <= y.v
                            if isinstance(op, ast.Gt):
                                return x.v > y.v
                            if isinstance(op, ast.GtE):
                                return x.v >= y.v
                        except TypeError:
                            return None
            return None
        if isinstance(test, ast.Call):
            t = self.isinstance_truth(test, st)
            if t is not None:
                return t
        if v is None:
            v = self.eval(test, st)
        return self.vtruth(v)

    def vtruth(self, v):
        res = set()
        for a in v:
            if type(a) is Const:
                res.add(bool(a.v))
            elif type(a) in (Fn, Bnd, Cls, Mod, Lib, LibM, Partial):
                res.add(True) if type(a) is not LibM else res.add(None)
            else:
                res.add(None)
        if len(res) == 1:
            return res.pop()
        return None

    def is_none(self, v):
        res = set()
        for a in v:
            if type(a) is Const:
                res.add(a.v is None)
            elif type(a) is Ref:
                res.add(None if a.obj.lazy and a.kind is None else False)
            elif type(a) in (Fn, Bnd, Cls, Mod, Partial):
                res.add(False)
            else:
                res.add(None)
        return res.pop() if len(res) == 1 else None

    def isinstance_truth(self, call, st):
        if isinstance(call.func, ast.Name) and call.func.id == "isinstance" and len(call.args) == 2:
            v = self.eval(call.args[0], st)
            ks = self.type_kinds(call.args[1], st)
            res = set()
            for a in v:
                res.add(self.lib.atom_isinstance(a, ks))
            if len(res) == 1:
                return res.pop()
        return None

    def type_kinds(self, e, st):
        v = self.eval(e, st)
        out = []
        todo = list(v)
        while todo:
            a = todo.pop()
            if type(a) is Ref:
                todo.extend(self.obj_elem(a))
            elif type(a) is Lib:
                out.append(a.name)
            elif type(a) is Cls:
                out.append(a.c)
            else:
                out.append(None)
        return out

    def refine(self, test, st, truth):
        """State in which `test` evaluated to `truth`; None if that cannot be."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, st, not truth)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And) == truth
            if conj:
                for x in test.values:
                    st = self.refine(x, st, truth)
                    if st is None:
                        return None
                return st
            return st
        tgt = None
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Is, ast.IsNot, ast.Eq,
                                                                                            ast.NotEq)):
            r = test.comparators[0]
            if isinstance(r, ast.Constant) and r.value is None:
                eq = isinstance(test.ops[0], (ast.Is, ast.Eq)) == truth
                return self._refine_path(test.left, st, lambda a: self._none_filter(a, eq))
            if isinstance(r, ast.Constant) and isinstance(test.ops[0], (ast.Eq, ast.NotEq)):
                eq = isinstance(test.ops[0], ast.Eq) == truth
                c = Const(r.value) if not isinstance(r.value, (bytes, type(...))) else None
                if c is not None:
                    return self._refine_path(test.left, st, lambda a: ([] if type(a) is Const and (a == c) != eq
                                                                       else [a]))
            if isinstance(test.left, ast.Call) and isinstance(test.left.func, ast.Name) \
                    and test.left.func.id == "type" and len(test.left.args) == 1:
                ks = self.type_kinds(r, st)
                eq = isinstance(test.ops[0], (ast.Is, ast.Eq)) == truth
                return self._refine_path(test.left.args[0], st, lambda a: self.lib.kind_filter(a, ks, eq))
            return st
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" \
                and len(test.args) == 2:
            ks = self.type_kinds(test.args[1], st)
            return self._refine_path(test.args[0], st, lambda a: self.lib.kind_filter(a, ks, truth))
        if isinstance(test, (ast.Name, ast.Attribute)):
            return self._refine_path(test, st, lambda a: ([] if type(a) is Const and bool(a.v) != truth else [a]))
        return st

    def _none_filter(self, a, eq):
        if type(a) is Const:
            return [a] if (a.v is None) == eq else []
        if eq:
            if type(a) is Ref and a.obj.lazy and a.kind is None:
                return [Const(None)]
            if type(a) is Ref:
                return []
        return [a]

    def _refine_path(self, e, st, flt):
        if isinstance(e, ast.Name) and e.id in st.loc:
            v = st.loc[e.id]
            if not v:
                return st
            n = frozenset(x for a in v for x in flt(a))
            if not [a for a in n if type(a) is not Tag]:
                return None if [a for a in v if type(a) is not Tag] else st
            st.loc[e.id] = n
        elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            b = st.loc.get(e.value.id, BOT)
            if len(b) == 1:
                (a,) = b
                if type(a) is Ref and a.obj is self.entry_self and e.attr in st.sattr:
                    v = st.sattr[e.attr]
                    n = frozenset(x for a in v for x in flt(a))
                    if v and not n:
                        return None
                    st.sattr[e.attr] = n
        return st

    # ------------------------------------------------------------------------------------ expressions
    def eval(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.note("expression", type(e).__name__)
            return V_OPQ
        v = m(e, st)
        if self.hooks is not None:
            h = self.hooks.value(self, e, v, st)
            if h is not None:
                return h
        return v

    def e_Constant(self, e, st):
        if e.value is Ellipsis or isinstance(e.value, (bytes, complex)):
            return V_OPQ
        return frozenset([Const(e.value)])

    def e_Name(self, e, st):
        return self.lookup(e.id, st)

    def e_Attribute(self, e, st):
        return self.getattr(self.eval(e.value, st), e.attr, e, st)

    def e_Subscript(self, e, st):
        b = self.eval(e.value, st)
        k = self.eval_index(e.slice, st)
        return self.getitem(b, k, e, st)

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.setloc(e.target.id, v, st)
        return v

    def e_Tuple(self, e, st):
        o = self.alloc(e, "tuple")
        for i, x in enumerate(e.elts):
            v = self.eval(x, st)
            if isinstance(x, ast.Starred):
                self.add_elem(o, self.elem_of(v))
            else:
                self.add_pos(o, i, v)
        return frozenset([Ref(o)])

    def e_List(self, e, st):
        o = self.alloc(e, "list")
        if e.elts:
            o.meta = "nonempty"
        for x in e.elts:
            v = self.eval(x, st)
            self.add_elem(o, self.elem_of(v) if isinstance(x, ast.Starred) else v)
        return frozenset([Ref(o)])

    def e_Set(self, e, st):
        o = self.alloc(e, "set")
        for x in e.elts:
            v = self.eval(x, st)
            self.add_elem(o, self.elem_of(v) if isinstance(x, ast.Starred) else v)
        return frozenset([Ref(o)])

    def e_Dict(self, e, st):
        o = self.alloc(e, "dict")
        for k, x in zip(e.keys, e.values):
            v = self.eval(x, st)
            if k is None:
                self.add_elem(o, self.elem_of(v))
                self.add_elem(o, self.key_of(v), "keys")
                for a in refs(v):
                    if a.obj.pos:
                        for kk, vv in a.obj.pos.items():
                            self.add_pos(o, kk, vv)
                continue
            kv = self.eval(k, st)
            ks = [a for a in kv if type(a) is Const and isinstance(a.v, str)]
            if len(ks) == 1 and len(kv) == 1:
                self.add_pos(o, ks[0].v, v)
            else:
                self.add_elem(o, v)
                self.add_elem(o, frozenset(x for x in kv if type(x) is not Const) or V_OPQ, "keys")
        return frozenset([Ref(o)])

    def e_JoinedStr(self, e, st):
        t = set()
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                t |= tags(self.eval(x.value, st))
                if x.format_spec is not None:
                    self.eval(x.format_spec, st)
        return frozenset([OPQ]) | t

    def e_FormattedValue(self, e, st):
        return self.eval(e.value, st)

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            t = self.truth(e.operand, st, v)
            return (V_OPQ if t is None else frozenset([Const(t)])) | tags(v)
        if isinstance(e.op, ast.USub) and len(v) == 1:
            (a,) = v
            if type(a) is Const and isinstance(a.v, (int, float)) and not isinstance(a.v, bool):
                return frozenset([Const(-a.v)])
        return self.lib.arith(v, BOT, e, type(e.op).__name__)

    def e_BinOp(self, e, st):
        l, r = self.eval(e.left, st), self.eval(e.right, st)
        if self.hooks is not None:
            h = self.hooks.binop(self, type(e.op).__name__, l, r, e, st)
            if h is not None:
                return h
        return self.lib.arith(l, r, e, type(e.op).__name__)

    def e_BoolOp(self, e, st):
        out = set()
        s = st
        for i, x in enumerate(e.values):
            v = self.eval(x, s)
            t = self.truth(x, s, v)
            last = i == len(e.values) - 1
            if isinstance(e.op, ast.Or):
                if last:
                    out |= v
                else:
                    out |= frozenset(a for a in v if not (type(a) is Const and not a.v))
                    if t is True:
                        break
                    s = self.refine(x, s.copy(), False)
            else:
                if last:
                    out |= v
                else:
                    out |= frozenset(a for a in v if not (type(a) is Const and a.v) and type(a) not in (Ref,)) \
                        or BOT
                    if t is False:
                        break
                    s = self.refine(x, s.copy(), True)
            if s is None:
                break
        return frozenset(out) or V_OPQ

    def e_Compare(self, e, st):
        l = self.eval(e.left, st)
        vs = [self.eval(c, st) for c in e.comparators]
        self.effect("compare", None, "cmp", e, value=None)
        t = self.truth_compare(e, l, vs, st)
        return (V_OPQ if t is None else frozenset([Const(t)])) | tags(l, *vs)

    def truth_compare(self, e, l, vs, st):
        if len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)) and isinstance(e.comparators[0], ast.Constant) \
                and e.comparators[0].value is None:
            t = self.is_none(l)
            if t is None:
                return None
            return t if isinstance(e.ops[0], ast.Is) else not t
        # vectorised comparisons give arrays
        return None

    def e_IfExp(self, e, st):
        v = self.eval(e.test, st)
        self.effect("test", None, "ifexp", e, value=v)
        t = self.truth(e.test, st, v)
        out = BOT
        if t is not False:
            s1 = self.refine(e.test, st.copy(), True)
            if s1 is not None:
                out = out | self.eval(e.body, s1)
        if t is not True:
            s2 = self.refine(e.test, st.copy(), False)
            if s2 is not None:
                out = out | self.eval(e.orelse, s2)
        return out or V_OPQ

    def e_Lambda(self, e, st):
        f = self.prog.func_by_node.get(e)
        if f is None:
            return V_OPQ
        return frozenset([Fn(f)])

    def _comp(self, e, st, kind):
        s = st.copy()
        srcs = set()
        ok = True
        n_it = len(st.iters)
        for g in e.generators:
            iv = self.eval(g.iter, s)
            self.effect("iterate", None, "comp", g.iter, value=iv)
            srcs |= {a.obj for a in refs(iv)}
            oids = self.iter_objs(iv)
            tn = frozenset(n.id for n in ast.walk(g.target) if isinstance(n, ast.Name))
            s.iters = s.iters + ((e, oids, self.frames[-1], tn, len(s.iters),
                                  self.loop_tok(g.iter, s) if self.use_tokens else None),)
            for nm in tn:
                s.tok.pop(nm, None)
            self._comp_assign(g.target, self.elem_of(iv), s)
            for c in g.ifs:
                cv = self.eval(c, s)
                self.effect("test", None, "compif", c, value=cv)
                s2 = self.refine(c, s, True)
                if s2 is None:
                    ok = False
                    break
                s = s2
            if not ok:
                break
        o = self.alloc(e, kind)
        if ok:
            if isinstance(e, ast.DictComp):
                self.add_elem(o, self.eval(e.key, s), "keys")
                self.add_elem(o, self.eval(e.value, s))
            else:
                v = self.eval(e.elt, s)
                self.add_elem(o, v)
        # attribute writes of inlined calls persist; comprehension variables do not
        st.sattr, st.sdef = s.sattr, st.sdef
        if kind == "generator":
            if not frozenset(srcs) <= o.src:
                o.src = o.src | frozenset(srcs)
                self.changed = True
        return frozenset([Ref(o)])

    def _comp_assign(self, t, v, s):
        # comprehension targets live in their own scope
        if isinstance(t, ast.Name):
            s.loc[t.id] = v
            f = self.frames[-1].func
            if isinstance(f, M.FuncInfo):
                k = (id(f.node), t.id)
                if not v <= self.cells.get(k, BOT):
                    self.cells[k] = self.cells.get(k, BOT) | v
                    self.changed = True
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self._comp_assign(e.value, v, s)
                else:
                    self._comp_assign(e, self.unpack(v, i), s)

    def e_ListComp(self, e, st):
        return self._comp(e, st, "list")

    def e_SetComp(self, e, st):
        return self._comp(e, st, "set")

    def e_GeneratorExp(self, e, st):
        return self._comp(e, st, "generator")

    def e_DictComp(self, e, st):
        return self._comp(e, st, "dict")

    def e_Yield(self, e, st):
        v = self.eval(e.value, st) if e.value is not None else V_NONE
        self.frames[-1].yields |= v
        self.effect("yield", None, "yield", e, value=v)
        return V_OPQ

    def e_YieldFrom(self, e, st):
        v = self.eval(e.value, st)
        self.frames[-1].yields |= self.elem_of(v)
        return V_OPQ

    def e_Await(self, e, st):
        return self.eval(e.value, st)

    def e_Slice(self, e, st):
        return frozenset([_SLICE])

    # ------------------------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.loc:
            fn = None
        elif isinstance(e.func, ast.Attribute):
            bv = self.eval(e.func.value, st)
            self.calling = e.func
            fn = self.getattr(bv, e.func.attr, e.func, st)
            self.calling = None
        else:
            fn = self.eval(e.func, st)
        if fn is None:
            return self._super(e, st)
        args, kw, star, dstar = [], {}, None, None
        for a in e.args:
            v = self.eval(a, st)
            if isinstance(a, ast.Starred):
                star = (star or BOT) | self.elem_of(v)
            elif star is None:
                args.append(v)
            else:
                star = star | v
        for k in e.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                dstar = (dstar or BOT) | v
            else:
                kw[k.arg] = v
        toks = None
        if self.use_tokens:
            self.ret_tok.pop(id(e), None)
            recv = self.tok(e.func.value, st) if isinstance(e.func, ast.Attribute) else None
            toks = (recv, [self.tok(a, st) for a in e.args if not isinstance(a, ast.Starred)],
                    {k.arg: self.tok(k.value, st) for k in e.keywords if k.arg})
            if isinstance(e.func, ast.Attribute) and e.func.attr in self.INSERTING and any(
                    type(a) is LibM for a in fn):
                kinds = {x.kind for a in fn if type(a) is LibM for x in refs(a.recv)}
                self.tokmut(e.func.value, e.func.attr, e, st, kinds)
        r = self.call(fn, args, kw, e, st, star, dstar, toks)
        return r

    def _super(self, e, st):
        f = self.frames[-1].func
        ff = f
        while isinstance(ff, M.FuncInfo) and ff.cls is None and ff.parent is not None:
            ff = ff.parent
        cls = ff.cls if isinstance(ff, M.FuncInfo) else None
        if cls is None:
            return V_OPQ
        p = ff.params()
        recv = self.lookup(p[0][0], st) if p else V_OPQ
        return frozenset([Super(cls, recv)])

    def call(self, fn, args, kw, node, st, star=None, dstar=None, toks=None):
        out = BOT
        rts = set()
        t0 = (toks[1], toks[2]) if toks else None
        t1 = ([toks[0]] + toks[1], toks[2]) if toks else None
        hit = False
        for a in fn:
            if type(a) is Fn:
                out |= self.call_function(a.f, args, kw, node, st, star, dstar, t0)
                rts.add(self.ret_tok.get(id(node)))
            elif type(a) is Bnd:
                out |= self.call_function(a.f, [a.recv] + list(args), kw, node, st, star, dstar, t1)
                rts.add(self.ret_tok.get(id(node)))
            elif type(a) is Cls:
                out |= self.instantiate(a.c, args, kw, node, st, star, dstar)
            elif type(a) is Partial:
                k2 = dict(a.kw)
                k2.update(kw)
                if a.delayed:
                    self.worker += 1
                    o = self.alloc(node, "delayedcall")
                    s2 = st.copy()
                    v = self.call(a.fn, list(a.args) + list(args), k2, node, s2, star, dstar)
                    self.worker -= 1
                    self.add_elem(o, v)
                    self.effect("worker", o, "delayed", node, value=a.fn)
                    out |= frozenset([Ref(o)])
                else:
                    out |= self.call(a.fn, list(a.args) + list(args), k2, node, st, star, dstar)
            elif type(a) is Lib:
                out |= self.lib.call(a.name, args, kw, node, st, star, dstar)
            elif type(a) is LibM:
                out |= self.lib.method(a.recv, a.name, args, kw, node, st, star, dstar)
            elif type(a) is Ref:
                c = self.class_of(a.kind)
                m = c.find("__call__") if c is not None else None
                if m is not None:
                    out |= self.call_function(m, [frozenset([a])] + list(args), kw, node, st, star, dstar)
                else:
                    self.effect("callunknown", a.obj, "call", node)
                    out |= self.lib.call_object(a, args, kw, node, st, star, dstar)
            elif type(a) is Tag:
                out |= frozenset([a])
            else:
                out |= V_OPQ
        if self.use_tokens:
            if len(rts) == 1 and len([a for a in fn if type(a) is not Tag]) == 1:
                self.ret_tok[id(node)] = rts.pop()
            else:
                self.ret_tok.pop(id(node), None)
        return out | tags(*args) if not out else out

    def _tokkey(self, st, toks):
        if not any(i[5] is not None for i in st.iters):
            return ()
        return (tuple(i[5] for i in st.iters), tuple(toks[0]) if toks else (),
                tuple(sorted(toks[1].items(), key=lambda kv: kv[0])) if toks else (),
                tuple(sorted(st.ver.items(), key=lambda kv: kv[0])))

    def instantiate(self, c, args, kw, node, st, star=None, dstar=None):
        o = self.alloc(node, c)
        self.effect("new", o, c.qual, node, info=tuple(sorted(kw)))
        init = c.find("__init__")
        recv = frozenset([Ref(o)])
        if init is not None:
            self.call_function(init, [recv] + list(args), kw, node, st, star, dstar)
        elif "dict" in c.lib_bases() or any(b in ("dict", "builtins.dict") for b in c.lib_bases()):
            pass
        return recv

    def bind(self, f, args, kw, star, dstar):
        loc = {}
        params = f.params()
        pos = [p for p in params if p[1] == "pos"]
        extra = list(args[len(pos):])
        for i, (n, k, d) in enumerate(pos):
            if i < len(args):
                loc[n] = args[i]
            elif n in kw:
                loc[n] = kw[n]
            else:
                v = BOT
                if star:
                    v = v | star
                if dstar:
                    v = v | self._dstar_get(dstar, n)
                if d is not None:
                    v = v | self.default_value(f, n, d)
                loc[n] = v or V_OPQ
        names = {p[0] for p in params if p[1] in ("pos", "kwonly")}
        for (n, k, d) in params:
            if k == "kwonly":
                if n in kw:
                    loc[n] = kw[n]
                else:
                    v = self._dstar_get(dstar, n) if dstar else BOT
                    if d is not None:
                        v = v | self.default_value(f, n, d)
                    loc[n] = v or V_OPQ
            elif k == "vararg":
                o = self.new(("vararg", id(f.node), n), "tuple")
                for x in extra:
                    self.add_elem(o, x)
                if star:
                    self.add_elem(o, star)
                loc[n] = frozenset([Ref(o)])
            elif k == "kwarg":
                o = self.alloc(f.node, "dict", extra="kw" + n)
                for kk, x in kw.items():
                    if kk not in names:
                        self.add_pos(o, kk, x)
                if dstar:
                    for a in refs(dstar):
                        for kk, x in (a.obj.pos or {}).items():
                            if kk not in names:
                                self.add_pos(o, kk, x)
                        self.add_elem(o, a.obj.elem)
                        if a.obj.lazy:
                            self.add_elem(o, self.obj_elem(a))
                loc[n] = frozenset([Ref(o)])
        return loc

    def _dstar_get(self, dstar, n):
        out = BOT
        for a in refs(dstar):
            if a.obj.pos and n in a.obj.pos:
                out |= a.obj.pos[n]
            else:
                out |= a.obj.elem
                if a.obj.lazy:
                    out |= frozenset([Ref(self.child(a.obj, "[%s]" % n))])
        return out

    @staticmethod
    def _after(st, sattr, sdef):
        """The effect of a call on the attributes of the object under test: of a call that cannot
        reach the object only the caches it cleared."""
        if sattr is None:
            st.sdef = st.sdef | sdef
        else:
            st.sattr, st.sdef = dict(sattr), sdef

    def call_function(self, f, args, kw, node, st, star=None, dstar=None, toks=None):
        self.ncalls += 1
        self.calls_seen.add(id(node))
        self.funcs_seen.add(f.where)
        if f.is_static and f.cls is not None and args and self._is_self_arg(args[0], f):
            pass
        if f.decorators and any(d and d.split(".")[-1] in ("lru_cache", "cache", "cached_property") for d in f.decorators) \
                and self.frames:
            self.effect("readself", self.entry_self, "cache:" + f.where, node, info=("cache:" + f.where) in st.sdef)
        loc = self.bind(f, args, kw, star, dstar)
        if self.effcb is not None:
            self.effcb("call", f, loc, node, st)
        touches_self = self.entry_self is not None and (f.parent is not None or self._reaches_self(loc))
        skey = (tuple(sorted(st.sattr.items(), key=lambda kv: kv[0])), st.sdef) if touches_self else \
            tuple(sorted(x for x in st.sdef if x.startswith("cache:")))
        key = (id(f.node), self._lkey(loc), skey, self.worker > 0, tuple(x[1] for x in st.iters) if not self.use_tokens else self._tokkey(st, toks),
               self._ctxkey(node))
        if self.use_tokens:
            self.ret_tok.pop(id(node), None)
        if key in self.memo:
            v, sattr, sdef = self.memo[key]
            if sdef is not None:
                self._after(st, sattr, sdef)
            if self.use_tokens:
                rt, names = self.memo_tok.get(key, (None, ()))
                self.ret_tok[id(node)] = rt
                for nm in names:
                    self.bump(nm, node, st)
            return v
        node0 = node
        depth = len(self.frames)
        rkey = (id(f.node), self._lkey(loc))
        iters = st.iters
        n = self.ctxcount.get(id(f.node), 0) + 1
        self.ctxcount[id(f.node)] = n
        merged = n > self.CTXLIMIT
        if merged:
            # too many contexts: analyse the function once for the union of its arguments
            m = self.merged_args.setdefault((self.epoch, id(f.node), touches_self), {})
            for k, v in loc.items():
                if not v <= m.get(k, BOT):
                    m[k] = m.get(k, BOT) | v
                    self.changed = True
            loc = dict(m)
            iters = ()
            node = f.node
            key = ("merged", id(f.node), self._lkey(loc), skey, self.worker > 0)
            if key in self.memo:
                v, sattr, sdef = self.memo[key]
                if sdef is not None:
                    self._after(st, sattr, sdef)
                return v
            rkey = (id(f.node), self._lkey(loc))
        if rkey in self.active or depth > self.MAXDEPTH or \
                sum(1 for fr in self.frames if fr.func is f) > 2:
            if depth > self.MAXDEPTH:
                self.note("call depth", f.where)
            return self.summ.get((self.epoch, id(f.node)), BOT)
        self.active[rkey] = True
        fr = Frame(f, self.frames[-1] if self.frames else None, node)
        self.frames.append(fr)
        try:
            s = State(loc, dict(st.sattr), st.sdef, iters)
            if self.use_tokens:
                self.attrs_set.append(set())
                s.ver = dict(st.ver)
                if toks and not merged and not star and not dstar:
                    pos = [p[0] for p in f.params() if p[1] == "pos"]
                    for nm, tk in list(zip(pos, toks[0])) + list(toks[1].items()):
                        if tk is not None and nm in loc:
                            s.tok[nm] = tk
            for n, v in loc.items():
                k = (id(f.node), n)
                if not v <= self.cells.get(k, BOT):
                    self.cells[k] = self.cells.get(k, BOT) | v
                    self.changed = True
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body, s)
                fr.rets.append((s, v))
                self.effect("return", None, "return", f.node, value=v)
            else:
                out = self.block(f.node.body, s)
                if out is not None:
                    fr.rets.append((out, V_NONE))
        finally:
            self.frames.pop()
            del self.active[rkey]
            if self.use_tokens:
                names = self.attrs_set.pop()
                for nm in names:
                    self.bump(nm, node0, st)
                rt = None
                if fr.rettoks and not f.is_gen and len(set(fr.rettoks)) == 1 and len(fr.rettoks) == len(fr.rets):
                    rt = fr.rettoks[0]
                    if _mentions_new(rt):
                        rt = None
                self.memo_tok[key] = (rt, tuple(names))
                self.ret_tok[id(node0)] = rt
        if f.is_gen:
            o = self.new(("gen", id(f.node), id(node)), "generator")
            self.add_elem(o, fr.yields)
            srcs = frozenset(a.obj for v in loc.values() for a in refs(v) if a.obj is not self.entry_self)
            v = frozenset([Ref(o)])
            end = self.joins([s0 for s0, _ in fr.rets])
        else:
            v = BOT
            for s0, x in fr.rets:
                v |= x
            end = self.joins([s0 for s0, _ in fr.rets])
        k = (self.epoch, id(f.node))
        old = self.summ.get(k, BOT)
        if not v <= old:
            self.summ[k] = old | v
            self.changed = True
        if not touches_self:
            sd = frozenset(x for x in end.sdef if x.startswith("cache:")) if end is not None else None
            self.memo[key] = (v, None, sd)
            if sd is not None:
                self._after(st, None, sd)
        elif end is not None:
            st.sattr, st.sdef = end.sattr, end.sdef
            self.memo[key] = (v, dict(end.sattr), end.sdef)
        else:
            self.memo[key] = (v, None, None)
            # never returns normally
        return v

    def _reaches_self(self, loc):
        if self.escaped:
            return True
        for v in loc.values():
            for a in v:
                if type(a) is Ref and a.obj is self.entry_self:
                    return True
                if type(a) in (Bnd, LibM) and any(r.obj is self.entry_self for r in refs(a.recv)):
                    return True
                if type(a) is Partial or (type(a) is Fn and a.f.parent is not None):
                    return True
        return False

    def _esc(self, v):
        if self.entry_self is not None and not self.escaped:
            for a in v:
                if (type(a) is Ref and a.obj is self.entry_self) or (
                        type(a) in (Bnd, LibM) and any(r.obj is self.entry_self for r in refs(a.recv))) or \
                        type(a) is Partial:
                    self.escaped = True

    def _ctxkey(self, node):
        fr = self.frames[-1] if self.frames else None
        return (id(node), id(fr.node) if fr is not None else None)

    def _is_self_arg(self, v, f):
        return False

    def _lkey(self, loc):
        return tuple(sorted(((k, v) for k, v in loc.items()), key=lambda kv: kv[0]))

    # ------------------------------------------------------------------------------------ entries
    def run_entry(self, f, self_obj, argmap, epoch, sattr=None, sdef=frozenset(), attr_entry=None):
        """Analyse function f to a fixpoint; returns (joined end state or None, return value)."""
        self.epoch = epoch
        self.entry_self = self_obj
        self.escaped = False
        self.attr_entry = attr_entry or {}
        end, val = None, BOT
        for i in range(self.MAXPASS):
            self.changed = False
            self.memo = {}
            self.memo_tok = {}
            self.ctxcount = {}
            fr = Frame(f, None, None)
            self.frames = [fr]
            loc = dict(argmap)
            st = State(loc, dict(sattr or {}), sdef)
            if self.use_tokens:
                st.tok = {n: ("entry", n) for n in loc}
            for n, v in loc.items():
                self.cells[(id(f.node), n)] = self.cells.get((id(f.node), n), BOT) | v
            out = self.block(f.node.body, st)
            if out is not None:
                fr.rets.append((out, V_NONE))
            end = self.joins([s for s, _ in fr.rets])
            val = BOT
            for _, x in fr.rets:
                val |= x
            if f.is_gen:
                val = fr.yields
            self.passes = i + 1
            if not self.changed:
                break
        else:
            self.note("no fixpoint", f.where)
        self.frames = []
        return end, val

    def arg_obj(self, name, kind=None, owner=None):
        o = self.new(("arg", owner or name), kind, owner=owner or ("arg", name), lazy=True)
        return frozenset([Ref(o)])


class _ModFunc:
    """Stand-in for the code of a module body or class body."""

    def __init__(self, m, cls=None):
        self.m, self.module, self.cls = m, m, cls
        self.qual = (cls.name if cls else "<module>")
        self.where = m.rel + ":" + self.qual
        self.name = "<module>"
        self.node = m.tree


class _Sl:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


_V0 = frozenset()


def _mentions_new(t):
    return isinstance(t, tuple) and (t[0] == "new" or any(_mentions_new(x) for x in t if isinstance(x, tuple)))


_SLICE = _Sl("slice")
_TSLICE = _Sl("tupleslice")
_TUPLE = _Sl("tupleindex")
import builtins as _bi
_BUILTINS = set(dir(_bi)) | {"__file__", "__name__", "__doc__"}
