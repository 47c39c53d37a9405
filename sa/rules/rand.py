"""C07: every random draw comes from the caller's random state; no result depends on the clock."""
import ast
import re
from .. import model as M
from .. import session as S_
from .. import sym as Y
from . import common as K

RS = re.compile(r"^_?(random_state|rng|seed|rand|generator|random_seed)_?$")
MAKERS = ("numpy.random.RandomState", "numpy.random.default_rng", "numpy.random.Generator", "numpy.random.SeedSequence",
          "numpy.random.PCG64", "numpy.random.MT19937", "numpy.random.mtrand.RandomState", "random.Random",
          "sklearn.utils.check_random_state", "sklearn.utils.validation.check_random_state")
SEEDERS = ("numpy.random.seed", "random.seed", "numpy.random.set_state", "random.setstate")
DRAWS = {"permutation", "permuted", "choice", "choices", "shuffle", "binomial", "normal", "uniform", "randint", "rand", "randn",
         "random_sample", "random", "integers", "poisson", "beta", "gamma", "exponential", "multinomial", "standard_normal",
         "geometric", "hypergeometric", "bytes", "sample", "randrange", "gauss", "ranf"}
TAKES_STATE = {"sklearn.utils.shuffle", "sklearn.utils.resample", "sklearn.model_selection.train_test_split", "scipy.sparse.random"}
ENTROPY = ("secrets.", "uuid.", "os.urandom", "random.SystemRandom")
CLOCK = ("time.time", "time.perf_counter", "time.monotonic", "time.process_time", "time.time_ns", "datetime.datetime.now",
         "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "pandas.Timestamp.now", "pandas.Timestamp.today",
         "time.perf_counter_ns", "time.monotonic_ns")
SINKS_OK = {"print", "info", "debug", "warning", "log", "error", "write"}


def is_clock(name):
    return isinstance(name, str) and K.canon_lib(name) in CLOCK


def is_global_lib(n):
    n = K.canon_lib(n)
    return n in ("numpy.random", "numpy.random.mtrand._rand", "random", "numpy.random.mtrand")


def primitive(u):
    """Does this unit mention a source of randomness?"""
    for n in u.nodes():
        if isinstance(n, (ast.Attribute, ast.Name)):
            l = u.lib(n)
            if l and (l.startswith(("numpy.random", "random.", "secrets.", "uuid.")) or l in TAKES_STATE or
                      l in MAKERS or l == "os.urandom" or l == "random"):
                return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in DRAWS:
            return True
    return False


def check_C07(prog, rep):
    rep.rule("state-source", "Every generator that a draw is made from, and every seed given to a generator or to a sampling call, "
             "is the random state of the public entry point (parameter or option), on every branch; a global or unseeded generator only "
             "where that state is None or the numpy.random module itself. Terms are traced from the public entry through all helpers.")
    rep.rule("state-accepted", "A generator object given as the random state is never passed to a generator constructor as its seed.")
    rep.rule("no-reseeding", "No code seeds or replaces the state of a global generator, and no other entropy source is used.")
    rep.rule("address", "No order and no result is derived from id() or hash(), which differ from one process to the next.")
    rep.rule("clock", "Values read from the clock reach only messages and comparisons with a limit that the caller supplied.")
    us = list(K.units(prog))
    prims = [u for u in us if primitive(u)]
    for u in us:
        for n in u.nodes():
            if isinstance(n, ast.Call):
                l = u.lib(n.func)
                if l in SEEDERS:
                    rep.violation("no-reseeding", u.module.rel, u.qual, K.short(n), "the global generator is re-seeded", K.line(n))
                elif l and l.startswith(ENTROPY):
                    rep.violation("no-reseeding", u.module.rel, u.qual, K.short(n), "entropy source other than the caller's random state", K.line(n))
        rep.ok("no-reseeding")
        address(rep, u)
        if u.func is None and u in prims:
            for n in u.nodes():
                if isinstance(n, ast.Call) and (u.lib(n.func) or "").startswith(("numpy.random.", "random.")):
                    rep.violation("state-source", u.module.rel, u.qual, K.short(n), "a generator or draw made at import time", K.line(n))
    sites = K.call_sites(prog)
    funcs = {u.func for u in prims if u.func is not None}
    todo = list(funcs)
    while todo:
        f = todo.pop()
        ups = [u.func for u, _ in sites.get(f, []) if u.func is not None]
        if f.parent is not None:
            ups.append(f.parent)
        for g in ups:
            if g not in funcs:
                funcs.add(g)
                todo.append(g)
    if not funcs:
        raise M.AnalysisBroken("no use of random generators found at all")
    roots = []
    for f in funcs:
        if f.parent is not None:
            continue
        callers = [u for u, _ in sites.get(f, []) if u.func is not f]
        public = not f.name.startswith("_") and (f.cls is None or not f.cls.name.startswith("_"))
        if public or not callers:
            roots.append(f)
    rep.count("functions_with_randomness", len(funcs))
    for f in sorted(roots, key=lambda x: x.where):
        root(prog, rep, f, funcs)
    rep.need("state-source", 4)
    clock(prog, rep)


def state_atoms(f):
    """Terms standing for the random state of the caller of this entry point."""
    out = set()
    for n, k, d in f.params():
        if RS.match(n):
            out.add(Y.mk("p", n))
    cls = f.cls
    if cls is not None:
        s = Y.mk("self", cls.qual)
        i = cls.find("__init__")
        names = {p[0] for p in i.params()} if i else set()
        for n in names:
            if RS.match(n):
                out.add(Y.mk("attr", s, n))
    return out


def root(prog, rep, f, funcs):
    S = Y.Sym(prog, only=lambda g: g in funcs)
    S.run(f)
    atoms = state_atoms(f)
    if not atoms and f.name.startswith("_") and f.params():
        atoms = {Y.mk("p", n) for n, k, d in f.params()}      # internal helper looked at on its own
    ctx = Ctx(rep, S, f, atoms)
    for e in S.events:
        if e.kind == "call":
            t, name, args, kw = e.data
            if not isinstance(name, str):
                continue
            name = K.canon_lib(name)
            if name in MAKERS:
                ctx.maker(e, name, args, kw)
            elif name.startswith(("numpy.random.", "random.")) and name.split(".")[-1] in DRAWS:
                if ctx.none_guard(e.conds):
                    rep.ok("state-source", "%s: global generator only without a random state" % e.where)
                else:
                    ctx.bad(e, "draw from the global generator")
            elif name in TAKES_STATE:
                ctx.keyword(e, kw, name)
        elif e.kind == "meth":
            t, recv, name, args, kw = e.data
            if name == "sample" and not ctx.generatorish(recv):
                ctx.keyword(e, kw, ".sample()")
            elif name in DRAWS:
                ctx.draw(e, recv, name)


class Ctx:
    def __init__(self, rep, S, f, atoms):
        self.rep, self.S, self.f, self.atoms = rep, S, f, atoms

    def bad(self, e, msg, rule="state-source"):
        self.rep.violation(rule, e.func.module.rel, e.func.qual, K.short(e.node), "%s (reached from %s)" % (msg, self.f.qual), e.line,
                           e.chain())

    def mentions(self, t):
        return any(x in self.atoms for x in Y.walk(t, self.S))

    def none_guard(self, conds):
        """The path is taken only when the state is None or the numpy.random module."""
        for c, p in conds:
            if p and c.op == "or" and all(self.is_none(x, True) for x in c.a[0]):
                return True
            if self.is_none(c, p):
                return True
        return False

    def is_none(self, c, p):
        if c.op == "cmp" and c.a[0] in ("is", "==", "is not", "!="):
            a, b = c.a[1], c.a[2]
            if a not in self.atoms:
                a, b = b, a
            if a in self.atoms and (b is Y.NONE or b.op == "lib" and is_global_lib(b.a[0])):
                return p == (c.a[0] in ("is", "=="))
        return False

    def leaves(self, t, conds=(), d=0):
        if d < 12 and t.op == "ite":
            yield from self.leaves(t.a[1], conds + tuple(Y.split_cond(t.a[0], True)), d + 1)
            yield from self.leaves(t.a[2], conds + tuple(Y.split_cond(t.a[0], False)), d + 1)
        elif d < 12 and t.op == "or":
            xs = t.a[0]
            for i, x in enumerate(xs):
                yield from self.leaves(x, conds + tuple((y, False) for y in xs[:i]), d + 1)
        elif d < 12 and t.op == "loop":
            init, back = self.S.loops.get((t.a[0], t.a[1]), (None, ()))
            if init is not None:
                yield from self.leaves(init, conds, d + 1)
            for b in back:
                yield from self.leaves(b, conds, d + 4)
        else:
            yield t, conds

    def generatorish(self, t):
        for x, _ in self.leaves(t):
            if x in self.atoms or x.op == "lib" and is_global_lib(x.a[0]):
                return True
            if x.op == "call" and isinstance(x.a[0], str) and K.canon_lib(x.a[0]) in MAKERS:
                return True
        return False

    def maker(self, e, name, args, kw):
        v = args[0] if args else (kw.get("seed") or kw.get("x"))
        if v is None:
            v = Y.NONE
        for x, cs in self.leaves(v):
            conds = e.conds + cs
            if x is Y.NONE:
                if self.none_guard(conds) or not self.atoms and False:
                    self.rep.ok("state-source")
                else:
                    self.bad(e, "generator without a seed where a random state may have been given")
            elif x in self.atoms:
                self.rep.ok("state-source", "%s: %s seeded with %s" % (e.where, name, Y.show(x)))
                if "check_random_state" in name:
                    continue
                if not self.narrowed(x, conds) and "default_rng" not in name:
                    self.bad(e, "a generator object given as random state would be passed as a seed and refused", "state-accepted")
                else:
                    self.rep.ok("state-accepted", e.where)
            elif self.mentions(x):
                self.rep.ok("state-source")
            elif x.op in ("rcall", "unk", "call", "meth", "idx", "item", "elem") and not Y.is_const(x) and not self.clocky(x):
                if any(y.op == "p" for y in Y.walk(x)) and self.atoms:
                    self.bad(e, "generator seeded from something other than the random state: %s" % Y.show(x)[:60])
                else:
                    self.rep.undecided("state-source", e.where, "seed " + Y.show(x)[:60])
            else:
                self.bad(e, "generator seeded with %s instead of the caller's random state" % Y.show(x)[:60])

    def clocky(self, t):
        return any(x.op == "call" and is_clock(x.a[0]) for x in Y.walk(t))

    def narrowed(self, x, conds):
        """On this path x is known not to be a generator object."""
        for c, p in conds:
            cs = [(c, p)] if not (c.op == "or" and p) else [(y, True) for y in c.a[0]]
            for c2, p2 in cs:
                if c2.op == "call" and c2.a[0] in ("builtins.isinstance", "builtins.hasattr", "builtins.issubclass"):
                    if any(y is x for y in Y.walk(c2.a[1])):
                        return True
                if c2.op == "cmp" and x in (c2.a[1], c2.a[2]) and p2:
                    return True
                if any(y.op == "call" and y.a[0] in ("builtins.type", "builtins.isinstance") and y.a[1] and y.a[1][0] is x for y in Y.walk(c2)):
                    return True
                if any(y.op == "call" and y.a[0] == "numpy.issubdtype" for y in Y.walk(c2)):
                    return True
        return any(True for i in e_tries(conds))

    def keyword(self, e, kw, what):
        v = kw.get("random_state")
        if v is None:
            if any(k.startswith("**") for k in kw):
                self.rep.undecided("state-source", e.where, "keyword arguments of " + what)
            else:
                self.bad(e, "%s without the caller's random state" % what)
            return
        for x, cs in self.leaves(v):
            if x in self.atoms or self.mentions(x):
                self.rep.ok("state-source", "%s: %s" % (e.where, what))
            elif x is Y.NONE and self.none_guard(e.conds + cs):
                self.rep.ok("state-source")
            elif x.op == "lib" and is_global_lib(x.a[0]) and self.none_guard(e.conds + cs):
                self.rep.ok("state-source")
            elif x.op in ("rcall", "unk"):
                self.rep.undecided("state-source", e.where, "random state " + Y.show(x)[:60])
            else:
                self.bad(e, "%s with %s instead of the caller's random state" % (what, Y.show(x)[:60]))

    def draw(self, e, recv, name):
        if not self.generatorish(recv):
            if recv.op in ("rcall", "unk", "attr", "glob"):
                if recv.op == "glob":
                    self.bad(e, "draw from a module level generator")
                else:
                    self.rep.undecided("state-source", e.where, "receiver of ." + name)
            return
        for x, cs in self.leaves(recv):
            conds = e.conds + cs
            if x.op == "lib" and is_global_lib(x.a[0]):
                if self.none_guard(conds):
                    self.rep.ok("state-source", "%s: global generator only without a random state" % e.where)
                else:
                    self.bad(e, "draw from the global generator although a random state may have been given")
            elif x in self.atoms or self.mentions(x):
                self.rep.ok("state-source", "%s: .%s from %s" % (e.where, name, Y.show(x)[:50]))
            elif x.op == "call" and isinstance(x.a[0], str) and K.canon_lib(x.a[0]) in MAKERS:
                pass          # reported at the constructor
            elif x is Y.NONE or x.op in ("never", "unbound"):
                pass
            else:
                self.rep.undecided("state-source", e.where, "receiver " + Y.show(x)[:60])


def e_tries(conds):
    return [c for c, p in conds if c.op == "exc"]


def address(rep, u):
    calls = [n for n in u.nodes() if isinstance(n, ast.Name) and n.id in ("id", "hash") and isinstance(n.ctx, ast.Load)
             and u.lib(n) in ("builtins." + n.id, None)]
    if not calls or u.func is not None and u.func.name in ("__hash__", "__eq__"):
        rep.ok("address", n=0)
        return
    par = K.parents(u.module.tree)
    for n in calls:
        if u.func is not None and n.id in {p[0] for p in u.func.params()} | set(u.func.locals or ()):
            continue
        x, why = n, None
        while x in par and not isinstance(x, ast.stmt):
            q = par[x]
            if isinstance(q, ast.keyword) and q.arg == "key":
                why = "an order"
            elif isinstance(q, ast.Compare) and any(isinstance(o, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)) for o in q.ops):
                why = "a comparison"
            elif isinstance(q, ast.BinOp) and isinstance(q.op, ast.Mod) and n.id == "hash":
                why = "a number"
            x = q
        if isinstance(x, ast.Return) and u.func is not None and not isinstance(x.value, ast.Compare):
            why = why or "a result"
        if why:
            rep.violation("address", u.module.rel, u.qual, K.short(par.get(n, n)), "%s is derived from %s(), which differs between runs"
                          % (why, n.id), n.lineno)
        else:
            rep.ok("address", "%s: %s" % (u.qual, K.short(par.get(n, n))))


def clock(prog, rep):
    n = 0
    entries = {f for f in K.public_functions(prog)}
    for name in S_.ESTIMATORS:
        L = S_.Life(prog, name)
        entries |= {L.cls.find(x) for x in L.public()}
    sources = set()
    for _ in range(3):
        k = len(sources)
        for m in prog.modules.values():
            for f in m.functions:
                if f in entries or f in sources or isinstance(f.node, ast.Lambda):
                    continue
                u = K.Unit(prog, m, f)
                names = {g.name for g in sources}
                if not any(isinstance(x, ast.Call) and (u.lib(x.func) in CLOCK or getattr(x.func, "id", getattr(x.func, "attr", None)) in names)
                           for x in ast.walk(f.node)):
                    continue
                S = Y.Sym(prog, inline=False)
                S.run(f)
                if any(e.kind == "return" and any(x.op == "call" and is_clock(x.a[0]) or x.op == "rcall" and x.a[0] in sources
                                                  for x in Y.walk(e.data[0], S)) for e in S.events):
                    sources.add(f)
        if k == len(sources):
            break
    for m in prog.modules.values():
        for f in m.functions:
            if f.parent is not None:
                continue
            u = K.Unit(prog, m, f)
            names = {g.name for g in sources}
            if not any(isinstance(x, ast.Call) and (u.lib(x.func) in CLOCK or getattr(x.func, "id", getattr(x.func, "attr", None)) in names)
                       for x in ast.walk(f.node)):
                continue
            n += 1
            S = Y.Sym(prog, inline=False)
            S.run(f)

            memo = {}

            def ck(t):
                if not isinstance(t, (Y.T, tuple)):
                    return False
                if t not in memo:
                    memo[t] = any(x.op == "call" and is_clock(x.a[0]) or x.op == "rcall" and x.a[0] in sources for x in Y.walk(t, S))
                return memo[t]
            for e in S.events:
                if e.kind == "return" and ck(e.data[0]):
                    if f not in entries:
                        rep.ok("clock", "%s gives a time to its callers" % f.where)
                    else:
                        rep.violation("clock", m.rel, f.qual, K.short(e.node), "a value read from the clock is part of the result", e.line)
                elif e.kind == "setattr" and ck(e.data[2]):
                    rep.violation("clock", m.rel, f.qual, K.short(e.node), "a value read from the clock is stored in the model", e.line)
                elif e.kind == "test" and ck(e.data[0]):
                    for c in atoms_of(e.data[0]):
                        if not ck(c):
                            continue
                        if c.op in ("and", "or", "not"):
                            continue
                        if any(x.op == "p" or x.op == "attr" and x.a[0].op in ("self", "p") for x in Y.walk(c)):
                            rep.ok("clock", "%s: %s" % (e.where, Y.show(c)[:80]))
                        else:
                            rep.violation("clock", m.rel, f.qual, K.short(e.node.test if hasattr(e.node, "test") else e.node),
                                          "the clock decides without a limit given by the caller", e.line)
                else:
                    rep.ok("clock", n=0)
            rep.ok("clock", "%s: reads the clock" % f.where)
    rep.need("clock", 3)


def atoms_of(t):
    out, st = [], [t]
    while st:
        x = st.pop()
        if x.op in ("and", "or"):
            st.extend(x.a[0])
        elif x.op == "not":
            st.append(x.a[0])
        else:
            out.append(x)
    return out
