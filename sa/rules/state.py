"""C01, C02, C03, C08, C14, C26: effects on objects that belong to the caller, the model, or everybody."""
import ast
from .. import model as M
from .. import session as S
from ..interp import Ref, Const, Fn, refs, OPQ
from .common import *

# work structures which the operation documents as edited in place: (function name, parameter)
INPLACE = {("cover", "sct"), ("generate_candidates", "stack"), ("bron_kerbosch", "compsub"), ("bron_kerbosch", "candidates"),
           ("bron_kerbosch", "not_set"), ("bron_kerbosch", "P"), ("bron_kerbosch", "X"), ("bron_kerbosch", "R")}


def _viol(rep, rule, e, construct, msg):
    rep.violation(rule, e.func.module.rel, e.func.qual, construct, msg, line(e.node), e.chain())


def is_memo_write(e):
    """The attribute is only filled when it is still unset (lazy cache)."""
    n = e.node
    if not isinstance(n, (ast.Attribute, ast.Assign, ast.AugAssign)):
        return False
    attr = e.name[1:-1] if e.kind == "mutate" else e.name
    fn = e.func.node
    par = parents(fn)

    def tests_unset(t, neg=False):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return tests_unset(t.operand, not neg)
        if isinstance(t, ast.BoolOp):
            return any(tests_unset(x, neg) for x in t.values) if isinstance(t.op, ast.Or if neg else ast.And) else \
                all(tests_unset(x, neg) for x in t.values)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Attribute) and t.left.attr == attr \
                and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            return isinstance(t.ops[0], (ast.Is, ast.Eq)) != neg
        if isinstance(t, ast.Attribute) and t.attr == attr:
            return neg
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "hasattr" and len(t.args) == 2 \
                and isinstance(t.args[1], ast.Constant) and t.args[1].value == attr:
            return neg
        return False
    cur = n
    while cur in par:
        p = par[cur]
        if isinstance(p, ast.If):
            if cur in p.body and tests_unset(p.test):
                return True
            if cur in p.orelse and tests_unset(p.test, True):
                return True
        for fld in ("body", "orelse"):
            blk = getattr(p, fld, None)
            if isinstance(blk, list) and cur in blk:
                for s in blk[:blk.index(cur)]:
                    if isinstance(s, ast.If) and tests_unset(s.test, True) and always_exits(s.body, False):
                        return True
        cur = p
    return False


# ------------------------------------------------------------------------------------------------- C01
def check_C01(prog, rep):
    rep.rule("arg-mutation", "No statement reachable from a public operation modifies an object that belongs to one of "
             "its arguments, or a part or view of it (alias and view aware, through all calls).")

    def scan(I, name, epoch=None):
        for k, e in list(I.effects.items()):
            if epoch is not None and k[0] != epoch:
                continue
            if e.kind == "mutate" and e.obj.owner and e.obj.owner[0] == "arg":
                own = e.obj.owner[1]
                fn, par = own.rstrip(")").split("(")
                if (fn, par) in INPLACE:
                    continue
                if e.name.startswith("del .") or e.obj.kind in ("Generator", "RandomState"):
                    continue
                _viol(rep, "arg-mutation", e, "%s on %s of %s" % (e.name, own, name),
                      "argument %s%s of %s is modified in place (%s)" % (own, e.obj.path, name, e.name))
    for L in lives(prog):
        run_rest(L)
        for ep in list(L.done) + ["init"]:
            if ep.startswith("_"):
                continue
            scan(L.I, L.name + "." + ep, ep)
            f = L.cls.find(ep if ep != "init" else "__init__")
            if f is not None:
                for p in f.params()[1:]:
                    rep.ok("arg-mutation", "%s.%s(%s)" % (L.name, ep, p[0]))
        count_engine(rep, L.I)
    for f in public_functions(prog):
        if f.name == "bron_kerbosch":
            continue
        I, end, ret = run_func(prog, f)
        scan(I, f.name)
        for p in f.params():
            rep.ok("arg-mutation", "%s(%s)" % (f.name, p[0]))
        count_engine(rep, I)
    # public classes that wrap caller data
    for dotted in ("skmine.periodic.data_sequence.DataSequence",):
        try:
            c = prog.cls(dotted)
        except M.AnalysisBroken:
            continue
        L = S.Life(prog, dotted)
        L.init()
        scan(L.I, c.name, "init")
        rep.ok("arg-mutation", c.name)
    rep.need("arg-mutation", 100)


# ------------------------------------------------------------------------------------------------- C02
def check_C02(prog, rep):
    rep.rule("model-mutation", "No read operation modifies an object reachable from the fitted model (lazily filled caches "
             "and option attributes which fit does not set are not part of the model).")
    rep.rule("model-attribute", "No read operation assigns or deletes an attribute set by fit, or one that a read operation "
             "reads before assigning it itself.")
    rep.rule("model-reset", "No read operation re-validates its data with reset, which would overwrite the fitted number of "
             "features.")
    for L in lives(prog):
        qs, fits = run_rest(L)
        fitset = {e.name for ep in ["fit"] + [f for f in fits if not f.startswith("fit_")] for e in L.effects(ep, "setself")}
        readers = {}
        for q in qs:
            for e in L.effects(q, "readself"):
                if not e.info:
                    readers.setdefault(e.name, e)
        ext = {}
        for e in L.effects("fit", "setattr") + L.effects("init", "setattr"):
            ext.setdefault(e.obj.id, set()).add(e.name)
        for q in qs:
            rep.ok("model-mutation", "%s.%s" % (L.name, q))
            for e in L.effects(q, "mutate"):
                if e.obj.id not in L.fit_reach:
                    continue
                if e.name.startswith(".") and e.name.endswith("="):
                    if e.name[1:-1] not in ext.get(e.obj.id, ()) or is_memo_write(e):
                        continue
                if (q, "stack") in INPLACE and e.obj.owner and e.obj.owner[0] == "arg":
                    continue
                if e.obj.kind in ("iter", "generator"):
                    continue
                _viol(rep, "model-mutation", e, "%s on %s in %s.%s" % (e.name, L.fit_reach[e.obj.id], L.name, q),
                      "%s.%s modifies %s of the fitted model in place (%s)" % (L.name, q, L.fit_reach[e.obj.id], e.name))
            for e in L.effects(q, "setself", "delself"):
                rep.ok("model-attribute", "%s.%s writes %s" % (L.name, q, e.name))
                if is_memo_write(e):
                    continue
                if e.kind == "delself" and (e.name in fitset or e.name in readers):
                    _viol(rep, "model-attribute", e, "del self.%s" % e.name, "%s.%s deletes %s" % (L.name, q, e.name))
                elif e.kind == "setself" and e.name in fitset and not (e.name.startswith("_") and e.name not in readers):
                    _viol(rep, "model-attribute", e, "self.%s =" % e.name,
                          "%s.%s overwrites the learned attribute %s" % (L.name, q, e.name))
                elif e.kind == "setself" and e.name in readers:
                    r = readers[e.name]
                    _viol(rep, "model-attribute", e, "self.%s =" % e.name,
                          "%s.%s assigns %s, which %s reads before assigning it" % (L.name, q, e.name, r.where))
            for r in L.libcalls(q):
                if r[0].split(".")[-1] in ("_validate_data", "validate_data", "_check_n_features", "_check_feature_names"):
                    v = r[4].get("reset")
                    rep.ok("model-reset", "%s.%s" % (L.name, q))
                    if v is None or Const(False) not in v:
                        f = r[2]
                        rep.violation("model-reset", f.module.rel, f.qual, short(r[1].func),
                                      "%s.%s validates with reset and overwrites the fitted number of features" %
                                      (L.name, q), line(r[1]))
        count_engine(rep, L.I)
    rep.need("model-mutation", 25)


# ------------------------------------------------------------------------------------------------- C03
def check_C03(prog, rep):
    rep.rule("fit-reads-old-state", "fit reads no attribute that an earlier fit or query may have written before it has "
             "assigned it itself, nor a cached method result it has not cleared.")
    rep.rule("query-reads-old-state", "Every attribute that a read operation relies on, and that some operation writes, is "
             "assigned on every path of fit.")
    rep.rule("ctor-object", "No object made by the constructor is filled by fit or a query.")
    rep.rule("shared-object", "No operation writes a module variable, class attribute, function attribute or a mutable "
             "default argument.")
    for L in lives(prog):
        qs, fits = run_rest(L)
        ops = ["fit"] + fits + qs
        dirty = {}
        for ep in ops:
            for e in L.effects(ep, "setself", "delself"):
                dirty.setdefault(e.name, (ep, e))
        end = L.done["fit"][0]
        sdef = end.sdef
        rep.ok("fit-reads-old-state", L.name + ".fit")

        def stateful_cache(name):
            w = name[len("cache:"):]
            for f in prog.all_functions():
                if f.where == w:
                    ps = f.params()
                    return f.cls is not None and not f.is_static and ps and any(
                        isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == ps[0][0]
                        for n in ast.walk(f.node))
            return False
        for e in L.effects("fit", "readself"):
            rep.ok("fit-reads-old-state", "%s.fit reads %s" % (L.name, e.name))
            if e.info:
                continue
            if e.name.startswith("cache:"):
                if stateful_cache(e.name):
                    _viol(rep, "fit-reads-old-state", e, e.name,
                          "%s.fit uses results of the cached method %s that may stem from an earlier fit" % (L.name, e.name[6:]))
                continue
            if e.name in dirty:
                ep, w = dirty[e.name]
                if is_guarded_default(e):
                    continue
                _viol(rep, "fit-reads-old-state", e, "self." + e.name,
                      "%s.fit reads %s, written by an earlier %s (%s), before assigning it" % (L.name, e.name, ep, w.where))
        for q in qs:
            for e in L.effects(q, "readself"):
                if e.info:
                    continue
                rep.ok("query-reads-old-state", "%s.%s reads %s" % (L.name, q, e.name))
                if e.name.startswith("cache:"):
                    if stateful_cache(e.name) and e.name not in sdef:
                        _viol(rep, "query-reads-old-state", e, e.name,
                              "%s.%s uses the cached method %s, whose cache no fit clears" % (L.name, q, e.name[6:]))
                    continue
                if e.name in dirty and e.name not in sdef:
                    ep, w = dirty[e.name]
                    _viol(rep, "query-reads-old-state", e, "self." + e.name,
                          "%s.%s reads %s, which %s writes but fit does not assign on every path" % (
                              L.name, q, e.name, w.where))
        for ep in ops:
            cleared = {e.obj.id for e in L.effects("fit", "mutate") if e.name == "clear"}
            for e in L.effects(ep, "mutate"):
                if e.obj.id in L.init_reach and e.obj.id not in cleared and e.obj.owner is None:
                    if e.name in ("shuffle",) or e.obj.kind in ("iter", "generator"):
                        continue
                    _viol(rep, "ctor-object", e, "%s on %s" % (e.name, L.init_reach[e.obj.id]),
                          "%s.%s fills %s, an object made once by the constructor" % (L.name, ep, L.init_reach[e.obj.id]))
        rep.ok("ctor-object", L.name, len(L.init_reach))
        _shared(rep, L.I, L.name)
        rep.ok("shared-object", L.name)
        count_engine(rep, L.I)
    for f in public_functions(prog):
        I, end, ret = run_func(prog, f)
        _shared(rep, I, f.name)
        rep.ok("shared-object", f.name)
    for f in prog.all_functions():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Global):
                for g in n.names:
                    st = [x for x in ast.walk(f.node) if isinstance(x, ast.Name) and x.id == g and
                          isinstance(x.ctx, (ast.Store, ast.Del))]
                    if st:
                        rep.violation("shared-object", f.module.rel, f.qual, "global " + g,
                                      "module variable %s is reassigned" % g, line(n))
    rep.need("fit-reads-old-state", 50)


def is_guarded_default(e):
    return False


def _shared(rep, I, name):
    for e in list(I.effects.values()):
        if e.kind == "mutate" and e.obj.owner and e.obj.owner[0] in ("global", "classattr", "default"):
            _viol(rep, "shared-object", e, "%s on %s" % (e.name, e.obj.owner[1]),
                  "%s modifies %s, which is shared by all calls (%s)" % (name, e.obj.owner[1], e.name))
        elif e.kind in ("globalset", "classattrset", "funcattrset"):
            _viol(rep, "shared-object", e, "%s %s" % (e.kind, e.name),
                  "%s writes %s, which is shared by all calls" % (name, e.name))


# ------------------------------------------------------------------------------------------------- C26
def inserts_key(e, loop, kinds):
    """Does x[k] = v add an entry to the traversed x? Only for mappings, and only if k is not known to be there."""
    if not kinds or not kinds <= {"dict", "SortedDict", "defaultdict", "Counter", "OrderedDict"}:
        return False
    if e.name == "[]op=" and not kinds & {"defaultdict", "Counter"}:
        return False
    if not isinstance(e.node, ast.Subscript):
        return False
    k = e.node.slice
    if isinstance(loop, ast.For) and isinstance(k, ast.Name) and any(
            isinstance(n, ast.Name) and n.id == k.id for n in ast.walk(loop.target)):
        return False
    text, ktext = src(e.node), src(k)
    for n in ast.walk(e.func.node):
        if isinstance(n, ast.Subscript) and n is not e.node and src(n) == text and not (
                isinstance(n.ctx, ast.Store) and not isinstance(n.ctx, ast.Load) and not _is_aug(e.func.node, n)):
            return False
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.In)) and \
                (src(n.left) == ktext or src(n.comparators[0]) == ktext):
            return False
    return True


def _is_aug(fn, n):
    return any(isinstance(a, ast.AugAssign) and a.target is n for a in ast.walk(fn))


def check_C26(prog, rep):
    rep.rule("traversal", "No statement executed inside a loop (also through calls and aliases) inserts into or removes from "
             "the collection the loop traverses, unless the loop is left right afterwards.")
    seen = set()

    def scan(I):
        for e in I.effects.values():
            if e.kind == "iterate":
                seen.add(id(e.node))
            if e.kind != "itermut":
                continue
            loop, func, stmt, kinds = e.info
            if not returns_to_loop(loop, stmt):
                continue
            if e.name in ("[]=", "[]op=") and not inserts_key(e, loop, kinds):
                continue
            it = loop.iter if isinstance(loop, ast.For) else loop.generators[0].iter
            rep.violation("traversal", func.module.rel, func.qual, "%s in loop over %s" % (e.name, short(it)),
                          "the collection traversed by the loop over `%s` is changed (%s) at %s" % (short(it), e.name, e.where),
                          line(loop), e.chain())
    reached = set()
    for L in lives(prog, tokens=True):
        run_rest(L)
        scan(L.I)
        reached |= L.I.funcs_seen
        reached |= {L.cls.find(ep).where for ep in L.done if L.cls.find(ep)}
        count_engine(rep, L.I)
    extra = 0
    for f in prog.all_functions():
        if f.where in reached or isinstance(f.node, ast.Lambda) or f.parent is not None:
            continue
        I, end, ret = run_func(prog, f, self_cls=f.cls, tokens=True)
        extra += 1
        scan(I)
    rep.count("functions_analysed_standalone", extra)
    rep.ok("traversal", n=len(seen))
    rep.need("traversal", 150)


# ------------------------------------------------------------------------------------------------- C08
def _unit_nodes(prog, e):
    """Syntax nodes evaluated once per unit of work around the submission `e` (element of the comprehension, loop body)."""
    fn = e.func.node
    par = parents(fn)
    cur, ids, targets, gens = e.node, set(), set(), []
    while cur in par:
        p = par[cur]
        if isinstance(p, (ast.GeneratorExp, ast.ListComp, ast.SetComp)) and p.elt is cur:
            ids |= {id(n) for n in ast.walk(p.elt)}
            gens.append(p.generators)
            break
        if isinstance(p, (ast.For, ast.While)) and cur in p.body:
            ids |= {id(n) for b in p.body for n in ast.walk(b)}
            break
        cur = p
    return ids, gens


def check_C08(prog, rep):
    rep.rule("worker-shared-write", "A unit of work handed to the pool writes neither attributes of the estimator nor any "
             "object that exists outside the unit.")
    rep.rule("worker-file", "A file path written by a unit depends on a value that differs between units.")
    rep.rule("worker-random", "No unit of work draws random numbers from a generator made outside of it.")
    rep.rule("result-order", "Results are collected in the order of submission: no unordered result collection, no directory "
             "listing or set between submission and result.")
    rep.rule("n-jobs-use", "The number of jobs is only passed on as a number of jobs, never used to choose or split the work.")
    nw = 0
    for L in lives(prog):
        run_rest(L)
        I = L.I
        units = {}
        subs = [e for e in I.effects.values() if e.kind == "worker"]
        per_unit = set()
        for e in subs:
            ids, gens = _unit_nodes(prog, e)
            per_unit |= ids
            if gens:
                _unit_order(rep, e, gens[0], L)
        for e in I.effects.values():
            if not e.worker:
                continue
            if e.kind == "setself":
                _viol(rep, "worker-shared-write", e, "self.%s =" % e.name,
                      "a unit of work assigns self.%s of %s" % (e.name, L.name))
            elif e.kind in ("globalset", "classattrset", "nonlocalset"):
                _viol(rep, "worker-shared-write", e, e.kind + " " + e.name, "a unit of work assigns %s" % e.name)
            elif e.kind == "mutate" and not e.obj.wk and not _is_unit_obj(e.obj, per_unit) and e.obj.kind not in (
                    "iter", "generator", "file", "delayedcall"):
                own = "%s.%s" % (e.obj.owner[0], e.obj.owner[1]) if e.obj.owner else "an object made outside the unit"
                _viol(rep, "worker-shared-write", e, "%s on %s" % (e.name, own),
                      "a unit of work of %s modifies %s (%s)" % (L.name, own + e.obj.path, e.name))
        for r in L.libcalls():
            if not r[5]:
                continue
            nw += 1
            rep.ok("worker-shared-write", "%s in %s" % (r[0], r[2].qual))
            if (r[0].startswith("numpy.random.") or r[0].startswith("random.") or r[0].startswith("rng.")) and \
                    r[0].split(".")[-1] not in ("RandomState", "default_rng", "Random", "SeedSequence", "Generator", "seed"):
                rv = r[7]
                outside = rv is None or any(not a.obj.wk for a in refs(rv))
                if outside:
                    rep.violation("worker-random", r[2].module.rel, r[2].qual, short(r[1].func),
                                  "a unit of work of %s draws from a random generator shared with other units" % L.name,
                                  line(r[1]))
        rep.ok("worker-random", L.name)
        _worker_files(prog, rep, L, subs)
        for r in L.libcalls():
            n = r[0].split(".")[-1]
            if n == "Parallel":
                v = r[4].get("return_as")
                rep.ok("result-order", "%s: Parallel in %s" % (L.name, r[2].qual))
                if v and any(type(a) is Const and "unordered" in str(a.v) for a in v):
                    rep.violation("result-order", r[2].module.rel, r[2].qual, "return_as unordered",
                                  "results are collected in completion order", line(r[1]))
            elif n in ("as_completed", "imap_unordered", "FIRST_COMPLETED"):
                rep.violation("result-order", r[2].module.rel, r[2].qual, n, "results are collected in completion order",
                              line(r[1]))
            elif r[0] in ("os.listdir", "glob.glob", "os.scandir", "glob.iglob", "os.walk") or n in ("iterdir", "rglob"):
                if subs and not _wrapped_sorted(r[2].node, r[1]):
                    rep.violation("result-order", r[2].module.rel, r[2].qual, short(r[1]),
                                  "%s combines files in the arbitrary order of a directory listing" % L.name, line(r[1]))
        count_engine(rep, I)
    for f in prog.all_functions():
        _njobs(prog, rep, f)
    rep.need("worker-shared-write", 20)
    rep.need("n-jobs-use", 3)
    rep.need("result-order", 4)


def _wrapped_sorted(fn, node):
    par = parents(fn)
    p = par.get(node)
    return isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id == "sorted"


def _is_unit_obj(o, ids):
    s = o.site
    if not isinstance(s, tuple):
        return False
    if s[0] == "child":
        return False
    if s and s[0] in ids:
        return True
    ctx = s[1] if len(s) > 1 else ()
    return ctx == "*" or (isinstance(ctx, tuple) and any(c in ids for c in ctx))


def _unit_order(rep, e, gens, L):
    """The collection of units must have a defined order."""
    it = gens[0].iter
    for n in ast.walk(it):
        if isinstance(n, (ast.Set, ast.SetComp)) or (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and
                                                     n.func.id in ("set", "frozenset")):
            if not any(isinstance(m, ast.Call) and isinstance(m.func, ast.Name) and m.func.id == "sorted"
                       for m in ast.walk(it)):
                _viol(rep, "result-order", e, short(it), "the units of work of %s come from an unordered set" % L.name)


def _worker_files(prog, rep, L, subs):
    """Paths opened for writing in a worker have to come from an argument that identifies the unit."""
    for r in L.libcalls():
        if not r[5] or not writes_file(r):
            continue
        rep.ok("worker-file", "%s in %s" % (r[0], r[2].qual))
        pe = path_expr(r)
        if pe is None:
            continue
        # walk the call chain from the innermost function up to the submission
        chain = list(r[6]) + [(r[2], None)]
        ok, why = _unit_dependent(prog, pe, r[2], list(r[6]), subs)
        if ok is False:
            rep.violation("worker-file", r[2].module.rel, r[2].qual, short(r[1]),
                          "units of work write to the same file: %s" % why, line(r[1]))
        elif ok is None:
            rep.undecided("worker-file", r[2].where, why)


def writes_file(r):
    n = r[0].split(".")[-1]
    if r[0] in ("builtins.open", "io.open", "codecs.open") or n == "open":
        m = r[4].get("mode") or (r[3][1] if len(r[3]) > 1 else None)
        return m is not None and any(type(a) is Const and isinstance(a.v, str) and any(c in a.v for c in "wax+") for a in m)
    return n in ("to_csv", "to_json", "to_pickle", "savetxt", "save", "write_text", "write_bytes", "to_parquet")


def path_expr(r):
    c = r[1]
    if not isinstance(c, ast.Call):
        return None
    if c.args:
        if r[0].split(".")[-1] in ("write_text", "write_bytes") and isinstance(c.func, ast.Attribute):
            return c.func.value
        return c.args[0]
    for k in c.keywords:
        if k.arg in ("file", "path_or_buf", "fname", "path"):
            return k.value
    return None


def _unit_dependent(prog, expr, func, stack, subs, depth=0):
    """True: the expression differs per unit; False: it cannot; None: unknown."""
    if depth > 8:
        return None, "call chain too deep"
    names = [n.id for n in ast.walk(expr) if isinstance(n, ast.Name)]
    # per-process/per-call unique names
    for n in ast.walk(expr):
        if isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name)):
            t = src(n.func)
            if any(x in t for x in ("uuid", "mkstemp", "NamedTemporaryFile", "getpid", "mkdtemp", "mktemp")):
                return True, ""
    params = [p[0] for p in func.params()]
    sub_nodes = {id(e.node): e for e in subs}
    # local definitions
    defs = {}
    for n in ast.walk(func.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            defs.setdefault(n.targets[0].id, []).append(n.value)
        elif isinstance(n, ast.With):
            for it in n.items:
                if isinstance(it.optional_vars, ast.Name):
                    defs.setdefault(it.optional_vars.id, []).append(it.context_expr)
    verdict = False
    for nm in names:
        if nm in defs and nm not in params:
            for d in defs[nm]:
                if any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(d)):
                    continue
                ok, _ = _unit_dependent(prog, d, func, stack, subs, depth + 1)
                if ok:
                    return True, ""
                if ok is None:
                    verdict = None
        elif nm in params and stack:
            caller, node = stack[-1]
            if not isinstance(node, ast.Call):
                verdict = None
                continue
            a = arg_expr(func, node, nm)
            if a is None:
                verdict = verdict
                continue
            if id(node) in sub_nodes:
                ok = _varies(sub_nodes[id(node)], a)
                if ok:
                    return True, ""
                if ok is None:
                    verdict = None
            else:
                ok, _ = _unit_dependent(prog, a, caller, stack[:-1], subs, depth + 1)
                if ok:
                    return True, ""
                if ok is None:
                    verdict = None
        elif nm in params:
            verdict = None
    return verdict, "the path `%s` does not depend on the unit" % short(expr)


def arg_expr(func, call, pname):
    for k in call.keywords:
        if k.arg == pname:
            return k.value
    ps = [p[0] for p in func.params() if p[1] == "pos"]
    if pname not in ps:
        return None
    i = ps.index(pname)
    if func.cls is not None and not func.is_static:
        i -= 1
    if 0 <= i < len(call.args):
        return call.args[i]
    return None


def _varies(e, a):
    """Does the argument expression a of the submission e take different values for different units?"""
    ids, gens = _unit_nodes(None, e)
    if not gens:
        # loop body: some loop variable must occur
        fn = e.func.node
        par = parents(fn)
        cur = e.node
        while cur in par and not isinstance(par[cur], ast.For):
            cur = par[cur]
        if cur not in par:
            return None
        tn = {n.id for n in ast.walk(par[cur].target) if isinstance(n, ast.Name)}
        return True if any(isinstance(n, ast.Name) and n.id in tn for n in ast.walk(a)) else None
    g = gens[0][0]
    key = set()        # loop variables that identify the unit
    it, tgt = g.iter, g.target
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate":
        if isinstance(tgt, ast.Tuple) and isinstance(tgt.elts[0], ast.Name):
            key.add(tgt.elts[0].id)
            inner = it.args[0]
            t2 = tgt.elts[1]
            if isinstance(t2, ast.Tuple) and isinstance(t2.elts[0], ast.Name) and ".items(" in src(inner):
                key.add(t2.elts[0].id)
    elif isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range":
        key |= {n.id for n in ast.walk(tgt) if isinstance(n, ast.Name)}
    elif isinstance(tgt, ast.Tuple) and ".items(" in src(it):
        if isinstance(tgt.elts[0], ast.Name):
            key.add(tgt.elts[0].id)
    elif isinstance(tgt, ast.Name):
        key.add(tgt.id)
    elif isinstance(tgt, ast.Tuple):
        key |= {n.id for n in ast.walk(tgt) if isinstance(n, ast.Name)}
    for n in _injective_uses(a):
        if n in key:
            return True
    return False


def _injective_uses(a):
    """Names that enter the value of a unchanged (not through len, %, //, hash and the like)."""
    out = []

    def walk(n):
        if isinstance(n, ast.Name):
            out.append(n.id)
            return
        if isinstance(n, ast.Call):
            f = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ""
            if f in ("len", "hash", "abs", "bool", "min", "max", "sum", "round"):
                return
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.FloorDiv, ast.RShift, ast.BitAnd)) and not (
                isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            return
        if isinstance(n, ast.Subscript):
            return
        for c in ast.iter_child_nodes(n):
            walk(c)
    walk(a)
    return out


def _njobs(prog, rep, f):
    if isinstance(f.node, ast.Lambda):
        return
    par = parents(f.node)
    # local copies of the option
    names = {"n_jobs"}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                _mentions_njobs(n.value, {"n_jobs"}):
            names.add(n.targets[0].id)
    for n in ast.walk(f.node):
        if not ((isinstance(n, ast.Attribute) and n.attr == "n_jobs" and isinstance(n.ctx, ast.Load)) or
                (isinstance(n, ast.Name) and n.id in names and isinstance(n.ctx, ast.Load))):
            continue
        cur, bad, ok = n, None, False
        while cur in par:
            p = par[cur]
            if isinstance(p, ast.keyword):
                ok = p.arg in ("n_jobs", "max_workers", "processes") or p.arg is None or \
                    _pool_call(par.get(p))
                if not ok:
                    bad = "passed as option %s" % p.arg
                break
            if isinstance(p, ast.Call) and cur in p.args:
                t = src(p.func)
                if t.split(".")[-1] in ("Parallel", "cpu_count", "effective_n_jobs", "Pool", "ThreadPoolExecutor",
                                        "ProcessPoolExecutor", "print", "info", "debug", "warning", "warn", "isinstance",
                                        "int", "type", "max", "min", "str", "repr", "format", "ValueError", "TypeError"):
                    if t.split(".")[-1] in ("int", "max", "min"):
                        cur = p
                        continue
                    ok = True
                elif t.split(".")[-1] in ("range", "array_split", "split", "islice", "chunks", "linspace", "zip"):
                    bad = "used to split the work: %s" % short(p)
                else:
                    rep.undecided("n-jobs-use", f.where, short(p))
                    ok = True
                break
            if isinstance(p, (ast.Assign, ast.AnnAssign, ast.Return, ast.FormattedValue, ast.Assert, ast.Dict, ast.Tuple)):
                ok = True
                break
            if isinstance(p, ast.Subscript) and cur is not p.value:
                bad = "used to select part of the data: %s" % short(p)
                break
            if isinstance(p, (ast.If, ast.IfExp, ast.While)) and cur is p.test:
                bad = _njobs_branch(prog, f, p, names)
                ok = bad is None
                break
            if isinstance(p, (ast.For, ast.comprehension)) and cur is p.iter:
                bad = "used to split the work: %s" % short(cur)
                break
            if isinstance(p, ast.stmt):
                ok = True
                break
            cur = p
        if bad:
            rep.violation("n-jobs-use", f.module.rel, f.qual, bad, "the number of jobs is " + bad, line(n))
        else:
            rep.ok("n-jobs-use", "%s: %s" % (f.where, short(par.get(n, n))))


def _mentions_njobs(e, names):
    return any((isinstance(n, ast.Attribute) and n.attr == "n_jobs") or (isinstance(n, ast.Name) and n.id in names)
               for n in ast.walk(e)) and not any(isinstance(n, ast.Call) and src(n.func).endswith("Parallel")
                                                 for n in ast.walk(e))


POOLS = ("Parallel", "cpu_count", "effective_n_jobs", "Pool", "ThreadPool", "ThreadPoolExecutor", "ProcessPoolExecutor",
         "parallel_backend", "parallel_config", "print", "info", "debug", "warning", "warn", "format", "ValueError", "TypeError")


def _pool_call(c):
    """Does the call only say how the work is run or tell about it, and not what the work is?"""
    return isinstance(c, ast.Call) and src(c.func).split(".")[-1] in POOLS


def _njobs_branch(prog, f, p, names):
    """A branch on the number of jobs must do the same work on both sides."""
    if isinstance(p, ast.IfExp):
        q = parents(f.node).get(p)
        c = parents(f.node).get(q) if isinstance(q, ast.keyword) else q
        if isinstance(c, ast.Call) and p is not c.func and not _pool_call(c) and \
                all(isinstance(x, ast.Constant) for x in (p.body, p.orelse)) and src(p.body) != src(p.orelse) and \
                not (isinstance(q, ast.keyword) and q.arg in ("n_jobs", "max_workers", "processes", "prefer", "backend",
                                                              "verbose")) and \
                src(c.func).split(".")[-1] not in ("int", "max", "min", "str", "dict"):
            return "used to choose a value: %s" % short(c)
        if all(_mentions_njobs(x, names) or isinstance(x, ast.Constant) or "cpu_count" in src(x)
               for x in (p.body, p.orelse)):
            return None
        return "used to choose a value: %s" % short(p)
    if isinstance(p, ast.While):
        return "used in a loop condition: %s" % short(p.test)

    def only_trivial(stmts):
        for s in stmts:
            if isinstance(s, (ast.Raise, ast.Pass)):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, (ast.Constant,)):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and src(s.value.func).split(".")[-1] in (
                    "print", "info", "debug", "warning", "warn"):
                continue
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                    s.targets[0].id in names | {"n_jobs"}:
                continue
            return False
        return True

    def work(stmts):
        out = set()
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, ast.Call):
                    g = None
                    if isinstance(n.func, ast.Attribute):
                        g = n.func.attr
                    elif isinstance(n.func, ast.Name):
                        g = n.func.id
                    elif isinstance(n.func, ast.Call) and n.func.args:
                        g = src(n.func.args[0]).split(".")[-1]
                    if isinstance(n.func, ast.Name) and n.func.id == "delayed" and n.args:
                        g = src(n.args[0]).split(".")[-1]
                    if g and g not in ("Parallel", "delayed", "list", "enumerate", "append", "len"):
                        out.add(g)
        its = set()
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, (ast.For, ast.comprehension)):
                    its.add(src(n.iter))
        return out, its
    if only_trivial(p.body) and only_trivial(p.orelse):
        return None
    a, b = work(p.body), work(p.orelse)
    if not p.orelse and always_exits(p.body, False):
        par = parents(f.node)
        q = par.get(p)
        for fld in ("body", "orelse", "finalbody"):
            blk = getattr(q, fld, None)
            if isinstance(blk, list) and p in blk:
                b = work(blk[blk.index(p) + 1:])
                if a[0] <= b[0] and a[1] <= b[1]:
                    return None
    if a == b:
        return None
    return "used to choose between different work: %s" % short(p.test)


# ------------------------------------------------------------------------------------------------- C14
TABLES = {"dict", "SortedDict", "defaultdict", "OrderedDict", "Series", "DataFrame", "SortedList"}
ADDING = {"add", "update", "|=", "[]=", "setdefault", "union_update", "add_range"}


def check_C14(prog, rep):
    rep.rule("training-record", "Outside ingestion, no statement of fit, update, pruning, evaluation, cover or any other "
             "operation modifies in place a transaction set held by the standard code table or the code table, or the "
             "standard code table itself.")
    rep.rule("fresh-copy", "The transaction sets handed to cover(), which empties them, are copies made for that very call, not sets "
             "that an earlier call has emptied.")
    total = 0
    for name in ("SLIM", "SlimClassifier"):
        L = S.Life(prog, name)
        L.init()
        if name == "SLIM":
            L.fit("prefit", epoch="prefit")
        L.fit()
        run_rest(L)
        recs = {}
        owners = [(L.self_obj, n, v) for st in ("fit", "prefit") if st in L.state for n, v in L.state[st].items()]
        if name != "SLIM":
            slim = prog.cls(S.ESTIMATORS["SLIM"])
            for o in _reach_objs(L, "fit"):
                if isinstance(o.kind, M.ClassInfo) and slim in o.kind.mro():
                    owners += [(o, n, v) for n, v in o.attrs.items()]
        for owner, n, v in owners:
            for a in refs(v):
                if a.kind not in TABLES and a.obj.kind not in TABLES:
                    continue
                els = [x for x in refs(L.I.obj_elem(a)) if x.kind == "Bitmap"]
                if els and n == "standard_codetable_":
                    recs[a.obj.id] = n
                for x in els:
                    recs[x.obj.id] = "the transaction sets of " + n
        total += len(recs)
        for ep in L.done:
            rep.ok("training-record", "%s.%s: %d recorded objects" % (name, ep, len(recs)))
        for (k, e) in list(L.I.effects.items()):
            if e.kind != "mutate" or e.obj.id not in recs:
                continue
            fns = {f.name for f, _ in e.stack} | {e.func.name}
            if "prefit" in fns and e.name in ADDING:
                continue
            if e.name.startswith("."):
                continue
            _viol(rep, "training-record", e, "%s on %s" % (e.name, recs[e.obj.id]),
                  "%s.%s modifies %s in place (%s)" % (name, k[0], recs[e.obj.id], e.name))
        count_engine(rep, L.I)
    consumed(prog, rep)
    rep.count("record_objects", total)
    if total < 3:
        raise M.AnalysisBroken("the transaction sets recorded by SLIM were not found")
    rep.need("training-record", 8)


def consumed(prog, rep):
    m = prog.cls(S.ESTIMATORS["SLIM"]).module
    cov = next((f for f in m.functions if f.name == "cover" and f.cls is None), None)
    if cov is None:
        return
    for f in [f for x in prog.modules.values() for f in x.functions]:
        if f is cov:
            continue
        sc = Unit(prog, f.module, f)
        calls = [n for n in sc.nodes() if isinstance(n, ast.Call) and n.args and
                 (isinstance(n.func, ast.Name) and n.func.id == "cover" or isinstance(n.func, ast.Attribute) and n.func.attr == "cover" and
                  isinstance(n.func.value, ast.Name) and n.func.value.id == "slim")]
        for n in calls:
            w = stale(sc, f, n.args[0], n, set())
            if w is None and isinstance(n.args[0], ast.Name):
                twice = [k for k in calls if k is not n and isinstance(k.args[0], ast.Name) and k.args[0].id == n.args[0].id and k.lineno < n.lineno]
                asg = [a.lineno for a in assigned(f, n.args[0].id)]
                if any(not [l for l in asg if k.lineno < l <= n.lineno] and not apart(sc, k, n) for k in twice):
                    w = n.args[0]
            if w is None:
                rep.ok("fresh-copy", "%s: %s" % (f.where, short(n)))
            else:
                rep.violation("fresh-copy", f.module.rel, f.qual, short(n), "%s is emptied by cover() again and again without a new copy (%s)"
                              % (short(n.args[0]), short(w)), n.lineno)


def apart(u, a, b):
    """In different branches of a choice."""
    def path(x):
        out = {}
        while x is not None and x in u.par:
            q = u.par[x]
            if isinstance(q, (ast.If, ast.IfExp)):
                body = q.body if isinstance(q.body, list) else [q.body]
                out[q] = x in body
            x = q
        return out
    pa, pb = path(a), path(b)
    return any(q in pb and pb[q] != v for q, v in pa.items())


def assigned(f, name):
    return [s for s in ast.walk(f.node) if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and any(
        isinstance(t, ast.Name) and t.id == name for t in (s.targets if isinstance(s, ast.Assign) else [s.target]))]


def loop_around(u, n):
    while n in u.par:
        n = u.par[n]
        if isinstance(n, (ast.For, ast.While, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
            return n
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            return None
    return None


def stale(u, f, e, use, seen):
    """The construct that shares sets between two runs of a use in a loop; None if the sets are made for it, or if that is not known."""
    loop = loop_around(u, use)
    if loop is None:
        return None
    if isinstance(e, ast.Name):
        if e.id in seen:
            return e
        asg = assigned(f, e.id)
        if not asg:
            return None
        inside = [a for a in asg if any(x is a for x in ast.walk(loop))]
        if not inside:
            return asg[0].value
        for a in inside:
            w = stale(u, f, a.value, use, seen | {e.id})
            if w is not None:
                return w
        return None
    if isinstance(e, ast.DictComp):
        v = e.value
        if isinstance(v, ast.Name):
            g = e.generators[0].iter
            base = g.func.value if isinstance(g, ast.Call) and isinstance(g.func, ast.Attribute) else g
            return stale(u, f, base, use, seen) if isinstance(base, ast.Name) else None
        return None
    if isinstance(e, ast.Call):
        nm = u.lib(e.func)
        if nm in ("builtins.dict", "copy.copy") and len(e.args) == 1:
            return stale(u, f, e.args[0], use, seen)
        if isinstance(e.func, ast.Attribute) and e.func.attr == "copy" and not e.args:
            return stale(u, f, e.func.value, use, seen)
    if isinstance(e, ast.Dict) and e.keys == [None]:
        return stale(u, f, e.values[0], use, seen)
    return None


def _reach_objs(L, state):
    seen, todo = {}, [a.obj for v in L.state[state].values() for a in refs(v)]
    while todo:
        o = todo.pop()
        if o.id in seen:
            continue
        seen[o.id] = o
        for v in [o.elem, o.keys] + list((o.pos or {}).values()) + list(o.attrs.values()):
            todo += [a.obj for a in refs(v)]
    return list(seen.values())
