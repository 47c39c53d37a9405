"""C13 SLIM's compression guard, C15 frequent itemsets, C16 shortest code wins, C24 GraphMDL's compression guard."""
import ast
from .. import model as M
from .. import sym as Y
from .. import session as S
from . import common as K
from . import params as P

OTHER = {"data": "model", "model": "data"}


def conds_of(e):
    """Path conditions of an event, with the filters of the comprehensions that its loops run over."""
    out = []
    for c, p in e.conds:
        if c.op == "iter":
            it = c.a[1]
            if it.op == "comp":
                for g in it.a[2]:
                    for f in g[2]:
                        out += list(Y.split_cond(f, True))
            continue
        out.append((c, p))
    return out


def contains(t, xs):
    return any(x in xs for x in Y.walk(t))


# ------------------------------------------------------------------------------------------ C13
def check_C13(prog, rep):
    rep.rule("roles", "Terms of the data size and of the model size are told apart by what they are computed from; every place that stores, "
             "passes or returns both keeps each under its own name.")
    rep.rule("strict", "Every edit of the code table, and of the sizes that go with it, is reached only under a condition whose linear normal "
             "form is: new data size + new model size - current data size - current model size < 0.")
    rep.rule("fresh", "The current sizes in that condition are the ones of the table being edited: they are replaced on each acceptance.")
    rep.rule("kept", "The sizes taken over from a trial come with its code table: the usages of the trial, without the pattern on trial.")
    rep.rule("table", "update() leaves exactly the accepted patterns in the code table: it adds the new ones and drops the patterns that are gone.")
    cls = prog.cls(S.ESTIMATORS["SLIM"])
    for m in ("fit", "evaluate", "update", "prefit"):
        if cls.find(m) is None:
            raise M.AnalysisBroken("SLIM has no %s" % m)
    self_t = Y.mk("self", cls.qual)
    prefit_roles(prog, rep, cls, self_t)
    eval_roles(prog, rep, cls, self_t)
    update_roles(prog, rep, cls, self_t)
    fit_guard(prog, rep, cls, self_t)


def size_kind(t, Sy, seen=None):
    """{'data', 'model', '?'}: a sum of products of code lengths and usages, or code lengths alone."""
    seen = set() if seen is None else seen
    out = set()
    for x in P.leaves(t):
        if x.op == "loop":
            if x in seen:
                continue
            seen.add(x)
            init, back = Sy.loops.get(tuple(x.a[:2]), (None, ()))
            for y in ([init] if init is not None else []) + list(back):
                out |= size_kind(y, Sy, seen)
            continue
        out.add(one_kind(x))
    return out


def size_terms(Sy):
    """The terms that functions hand back as one size: they stay atoms of the comparisons."""
    out = set()
    for e in Sy.events:
        if e.kind == "setattr" and e.data[1] in ("data_size_", "model_size_"):
            out |= {x for x in P.leaves(e.data[2]) if x.op != "c"}
        if e.kind == "return":
            for x in P.leaves(e.data[0]):
                for y in (x.a[0] if x.op in ("tup", "list") else (x,)):
                    for z in P.leaves(y):
                        if z.op != "c" and one_kind(z) in ("data", "model"):
                            out.add(z)
    return out


def lin_sizes(t, atoms, d=0):
    if t in atoms or d > 30:
        return {t: 1}
    if t.op == "neg":
        return {k: -v for k, v in lin_sizes(t.a[0], atoms, d + 1).items()}
    if t.op == "bin" and t.a[0] in ("+", "-"):
        out = dict(lin_sizes(t.a[1], atoms, d + 1))
        s = 1 if t.a[0] == "+" else -1
        for k, v in lin_sizes(t.a[2], atoms, d + 1).items():
            out[k] = out.get(k, 0) + s * v
        return {k: v for k, v in out.items() if v}
    if t.op == "call" and t.a[0] in ("builtins.sum", "numpy.sum", "math.fsum") and t.a[1] and t.a[1][0].op in ("tup", "list"):
        out = {}
        for x in t.a[1][0].a[0]:
            for k, v in lin_sizes(x, atoms, d + 1).items():
                out[k] = out.get(k, 0) + v
        return {k: v for k, v in out.items() if v}
    return Y.linear(t)


def norm(c, p, Sy):
    if not hasattr(Sy, "_sizes"):
        Sy._sizes = size_terms(Sy)
    n = Y.cmp_norm(c, p)
    if n is None or n[0] in ("==", "!="):
        return n
    while c.op == "not":
        c, p = c.a[0], not p
    op, a, b = c.a
    if (op in (">", ">=")) == p:
        a, b = b, a
    lin = lin_sizes(Y.mk("bin", "-", a, b), Sy._sizes)
    r = ratio(a, b, Sy)
    if r is not None and len(size_atoms(r, Sy)) > 1:
        return n[0], r
    return n[0], lin


def ratio(a, b, Sy):
    """x / y < k with positive sizes x, y: x - y and a margin that is negative if k exceeds one (for k below one: zero)."""
    one, k = (a, b) if b.op == "c" else (b, a)
    if k.op != "c" or isinstance(k.a[0], bool) or not isinstance(k.a[0], (int, float)) or one.op != "bin" or one.a[0] != "/" or k.a[0] <= 0:
        return None
    lin = lin_sizes(Y.mk("bin", "-", one.a[1], one.a[2]), Sy._sizes)
    over = k.a[0] - 1
    if one is b:
        lin, over = {x: -v for x, v in lin.items()}, -over
    if over > 0:
        lin = dict(lin)
        lin[None] = lin.get(None, 0) - over
    return lin


def strip(t):
    while True:
        if t.op == "call" and t.a[0] in ("builtins.float", "numpy.float64", "numpy.float32") and t.a[1]:
            t = t.a[1][0]
        elif t.op == "meth" and t.a[1] in ("item", "astype") and t.a[1]:
            t = t.a[0]
        else:
            return t


def one_kind(t):
    t = strip(t)
    if t.op == "bin" and t.a[0] in "+-":
        ks = {one_kind(a) for a in Y.linear(t) if a is not None and a is not t}
        if "data" in ks and len(ks) > 1:
            return "total"
    if any(x.op == "attr" and x.a[1] == "_starting_codes" for x in Y.walk(t)):
        return "model"
    if t.op == "attr" and t.a[1] == "data_size_":
        return "data"
    if t.op == "attr" and t.a[1] == "model_size_":
        return "model"
    if t.op == "p" and t.a[0] in ("data_size", "model_size"):
        return t.a[0].split("_")[0]
    if t.op == "item" and t.a[0].op == "rcall" and t.a[0].a[0].name == "evaluate" and t.a[1] in (0, 1):
        return ("data", "model")[t.a[1]]
    if t.op == "meth" and t.a[1] == "dot" or t.op == "call" and t.a[0] in ("numpy.dot", "numpy.vdot", "numpy.inner") or t.op == "bin" and t.a[0] == "@":
        return "data"
    body = None
    if t.op == "meth" and t.a[1] == "sum":
        body = t.a[0]
    elif t.op == "call" and t.a[0] in ("numpy.sum", "builtins.sum", "math.fsum") and t.a[1]:
        body = t.a[1][0]
        if body.op == "comp":
            body = body.a[1]
    if body is not None:
        f = Y.factors(body)
        vecs = [k for k in f if k is not None]
        if len(vecs) >= 2 and all(v == 1 for v in (f[k] for k in vecs)):
            return "data"
        if len(vecs) == 1 and body.op != "comp":
            return "sum"
    lin = Y.linear(t)
    if len(lin) == 1 and None not in lin:
        (a, c), = lin.items()
        if a is not t and c > 0:
            k = one_kind(a)
            return "model" if k == "sum" else k
    return "?"


def prefit_roles(prog, rep, cls, self_t):
    f = cls.find("prefit")
    Sy = Y.Sym(prog, opaque=("_check_D", "_to_vertical", "supervised_to_unsupervised", "get_support", "_log2"))
    Sy.run(f, self_cls=cls)
    got = {}
    for e in Sy.events:
        if e.kind == "setattr" and e.data[0] is self_t and e.data[1] in ("data_size_", "model_size_"):
            got.setdefault(e.data[1], []).append(e)
    if set(got) != {"data_size_", "model_size_"}:
        rep.undecided("roles", f.where, "sizes are not set in prefit")
        return
    for a, es in got.items():
        want = a.split("_")[0]
        for e in es:
            ks = {{"sum": "model"}.get(k, k) for k in size_kind(e.data[2], Sy)}
            named(rep, f, e, ks, want, "prefit stores %s" % a)


def named(rep, f, e, ks, want, what):
    if "?" in ks or not ks:
        rep.undecided("roles", e.where, what)
    elif ks == {want}:
        rep.ok("roles", "%s: %s" % (e.where, what))
    else:
        rep.violation("roles", e.func.module.rel, e.func.qual, what, "%s from the %s size" % (what, " or ".join(sorted(ks))), e.line)


def eval_roles(prog, rep, cls, self_t):
    """evaluate() with everything but cover() analysed in place."""
    f = cls.find("evaluate")
    Sy = Y.Sym(prog, opaque=("cover", "get_support", "_standard_cover_order", "_log2"))
    rets = Sy.run(f, self_cls=cls)
    Evs = [e for e in Sy.events if e.kind == "return" and not e.stack]
    tables = set()
    for e in Evs:
        v = e.data[0]
        for x in P.leaves(v):
            if x.op != "tup" or len(x.a[0]) != 3:
                rep.undecided("roles", e.where, "evaluate returns %s" % Y.show(x)[:60])
                continue
            for i, want in ((0, "data"), (1, "model")):
                named(rep, f, e, size_kind(x.a[0][i], Sy), want, "evaluate returns the %s size as item %d" % (want, i))
            tables |= set(P.leaves(x.a[0][2]))
    tabs = set(tables)
    for t in tables:
        if t.op == "loop":
            init, back = Sy.loops.get(tuple(t.a[:2]), (None, ()))
            tabs |= {x for b in back + ((init,) if init is not None else ()) for x in P.leaves(b)}
    prune_guard(prog, rep, f, Sy, tabs)
    # sizes handed back are those of the table handed back
    lids = {l for e in Sy.events if e.kind == "rcall" and e.data[1].name == "cover" for l in e.loops}
    for lid in sorted(lids):
        carried = sizes_in(Sy, lid)
        edits = [e for e in Sy.events if lid in e.loops and (e.kind == "meth" and e.data[2] in Y.MUTATORS and e.data[1] in tabs or
                                                             e.kind in ("del", "store") and e.data[0] in tabs)]
        if not carried or not edits:
            continue
        phs = [c[0] for c in carried]
        for e in Evs:
            for x in P.leaves(e.data[0]):
                if x.op != "tup" or len(x.a[0]) != 3:
                    continue
                for i, want in ((0, "data"), (1, "model")):
                    v = x.a[0][i]
                    if size_kind(v, Sy) == {want} and not contains(v, phs) and made_at(Sy, v) < min(y.i for y in Sy.events if lid in y.loops):
                        rep.violation("kept", e.func.module.rel, e.func.qual, "%s size returned" % want,
                                      "the %s size handed back is the one before the pruning that changed the table" % want, e.line)
                    else:
                        rep.ok("kept", "%s: %s size of the table after pruning" % (e.where, want))


def made_at(Sy, v):
    """Index of the last event that makes a part of v."""
    sub, first = set(Y.walk(v)), {}
    for e in Sy.events:
        if e.kind in ("call", "rcall", "meth") and e.data[0] in sub:
            first.setdefault(e.data[0], e.i)
    return max(first.values(), default=0)


def sizes_in(Sy, lid):
    """The loop-carried size variables of a loop: (placeholder, init, back-edge terms)."""
    out = []
    for (l, nm), (init, back) in Sy.loops.items():
        if l == lid:
            ph = Y.mk("loop", l, nm)
            ks = size_kind(ph, Sy)
            if ks and ks <= {"data", "model", "sum", "total"}:
                out.append((ph, init, back, ks))
    return out


def prune_guard(prog, rep, f, Sy, tabs):
    """Loops in which a trial cover is computed: edits of the table under trial only under the strict guard."""
    covers = [e for e in Sy.events if e.kind == "rcall" and e.data[1].name == "cover" and e.loops]
    lids = {l for e in covers for l in e.loops if Sy.loopinfo.get(l, {}).get("node") is not None and
            isinstance(Sy.loopinfo[l]["node"], (ast.While, ast.For))}
    if not lids:
        rep.undecided("strict", f.where, "no trial covers in a loop")
        rep.undecided("fresh", f.where, "no trial covers in a loop")
        return
    for lid in sorted(lids):
        inside = [e for e in Sy.events if lid in e.loops]
        trial = [e.data[0] for e in inside if e.kind == "rcall" and e.data[1].name == "cover"]
        edits = []
        for e in inside:
            if e.kind == "meth" and e.data[2] in Y.MUTATORS and e.data[1] in tabs and e.data[1] not in trial:
                edits.append(e)
            elif e.kind in ("del", "store") and e.data[0] in tabs and e.data[0] not in trial:
                edits.append(e)
        carried = sizes_in(Sy, lid)
        cur = {}
        for ph, init, back, ks in carried:
            if len(ks) > 1:
                rep.violation("roles", f.module.rel, f.qual, ph.a[1], "the variable %s takes the data size and the model size in turn" % ph.a[1],
                              getattr(Sy.loopinfo[lid]["node"], "lineno", 0))
            else:
                cur.setdefault(next(iter(ks)), []).append(ph)
        for e in edits:
            verdict(rep, Sy, e, conds_of(e), "the code table is edited (%s)" % K.short(e.node, 40), lid, local=True)
        for ph, init, back, ks in carried:
            for b, cs in Sy.backs.get((lid, ph.a[1]), ()):
                ites(rep, f, Sy, b, ph, lid, cs)
        # swapped tables: a loop-carried table that becomes the trial's
        for (l, nm), (init, back) in Sy.loops.items():
            if l != lid:
                continue
            for b, cs in Sy.backs.get((l, nm), ()):
                if any(x in trial for x in P.leaves(b)):
                    ites(rep, f, Sy, b, Y.mk("loop", l, nm), lid, cs)
        kept(rep, f, Sy, lid, inside, trial, tabs, carried)
        if not edits and not any(x in trial for (l, nm), (i, back) in Sy.loops.items() if l == lid for b in back for x in P.leaves(b)):
            rep.undecided("strict", f.where, "no edit of the table in the trial loop")
            rep.undecided("fresh", f.where, "no edit of the table in the trial loop")


def kept(rep, f, Sy, lid, inside, trial, tabs, carried):
    """The sizes of a trial are taken over together with its table."""
    takes = [ph for ph, init, back, ks in carried if any(x is not ph for b in back for x in P.leaves(b))]
    if not takes or not trial:
        return
    node = Sy.loopinfo[lid]["node"]
    fn = next((e.func for e in inside if e.kind == "rcall" and e.data[0] in trial), f)
    swapped = any(contains(b, trial) for (l, nm), (i, back) in Sy.loops.items() if l == lid and Y.mk("loop", l, nm) not in takes
                  for b in back for x in P.leaves(b) if x in trial or x.op in ("call", "meth", "dict", "comp"))
    into = []
    for e in inside:
        if e.kind == "meth" and e.data[1] in tabs and e.data[1] not in trial and any(contains(a, trial) for a in e.data[3]):
            into.append(e)
        elif e.kind == "store" and e.data[0] in tabs and e.data[0] not in trial and contains(e.data[2], trial):
            into.append(e)
        elif e.kind == "aug" and e.data[0] in tabs and contains(e.data[2], trial):
            into.append(e)
    if swapped:
        rep.ok("kept", "%s:%d the table of the trial replaces the current one" % (fn.module.rel, node.lineno))
        return
    if not into:
        rep.violation("kept", fn.module.rel, fn.qual, "table of the trial", "%s taken over from the trial, but the usages found by its cover are dropped" %
                      " and ".join(sorted("%s is" % ph.a[1] for ph in takes)), node.lineno)
        return
    gone = [e for e in inside if (e.kind == "del" or e.kind == "meth" and e.data[2] in ("pop", "clear", "popitem")) and
            (e.data[0] if e.kind == "del" else e.data[1]) in tabs]
    if not gone:
        rep.violation("kept", fn.module.rel, fn.qual, "pattern on trial", "the usages of the trial are taken over, but the pattern it was made without stays "
                      "in the table", into[0].line)
    else:
        rep.ok("kept", "%s:%d the usages of the trial are taken over and its pattern dropped" % (fn.module.rel, into[0].line))


def ites(rep, f, Sy, t, ph, lid, cs=()):
    """Back-edge term of a loop variable: the branches that replace the current value need the guard."""
    def go(x, conds, d=0):
        if x.op == "ite" and d < 12:
            go(x.a[1], conds + list(Y.split_cond(x.a[0], True)), d + 1)
            go(x.a[2], conds + list(Y.split_cond(x.a[0], False)), d + 1)
        elif x is not ph:
            node = Sy.loopinfo[lid]["node"]
            verdict(rep, Sy, None, conds, "%s is replaced" % ph.a[1], lid, f=f, line=node.lineno, key=str(ph.a[1]), local=True)
    go(t, [c for c in cs if c[0].op != "iter"])


def alternatives(Sy, e, conds, lid, local, best, seen, depth=3):
    """A guard `a or b` lets through what either lets through: each alternative needs the comparison on its own."""
    for i, (c, p) in enumerate(conds):
        if not (c.op == "or" and p or c.op == "and" and not p) or depth == 0:
            continue
        rs, free, anyseen = [], None, seen
        for x in c.a[0]:
            cs = conds[:i] + list(Y.split_cond(x, p)) + conds[i + 1:]
            b, sn = weigh(Sy, e, cs, lid, local)
            fr = None
            if b is None or b[0] != "ok":
                b, sn, fr = alternatives(Sy, e, cs, lid, local, b, sn, depth - 1)
            anyseen = anyseen or sn
            rs.append(b)
            if fr is not None:
                free = fr
            elif b is None and not any(compares_sizes(y, Sy) for y, _ in cs):
                free = x
        if all(b is not None and b[0] == "ok" for b in rs):
            return rs[0], True, None
        bad = [b for b in rs if b is not None and b[0] == "bad"]
        ok = [b for b in rs if b is not None and b[0] in ("ok", "bad")]
        if free is not None and ok:
            return best, anyseen, free
        if bad:
            return bad[0], True, None
    return best, seen, None


def compares_sizes(t, Sy):
    for x in Y.walk(t):
        if x.op == "cmp" and x.a[0] in ("<", "<=", ">", ">="):
            m = norm(x, True, Sy)
            if m and (size_atoms(m[1], Sy) or any(k is not None and k.op == "call" for k in m[1])):
                return True
    return False


def judge_minmax(rl, lin, at, lid, Sy, local):
    """min()/max() of sizes in a comparison: the guard holds if it holds for one (or only if for each) of the values."""
    for a in lin:
        if a is not None and a.op == "call" and a.a[0] in ("builtins.min", "builtins.max", "numpy.minimum", "numpy.maximum") and len(a.a[1]) > 1 \
                and not a.a[2] and rl in ("<", "<="):
            out = []
            for x in a.a[1]:
                l2 = {k: v for k, v in lin.items() if k is not a}
                for k, v in lin_sizes(x, Sy._sizes).items():
                    l2[k] = l2.get(k, 0) + v * lin[a]
                l2 = {k: v for k, v in l2.items() if v}
                at2 = size_atoms(l2, Sy)
                out.append(judge_minmax(rl, l2, at2, lid, Sy, local) if at2 else ("unknown", "no sizes"))
            one = (a.a[0].endswith(("min", "minimum"))) == (lin[a] > 0)     # either value may satisfy the guard
            oks = [r for r in out if r[0] == "ok"]
            if one:
                bad = [r for r in out if r[0] == "bad"]
                return bad[0] if bad else oks[0] if len(oks) == len(out) else ("unknown", "the smaller of two values")
            return oks[0] if oks else out[0]
    return judge(rl, lin, at, lid, Sy, local)


def weigh(Sy, e, conds, lid, local):
    best, seen = None, False
    for c, p in conds:
        n = norm(c, p, Sy)
        if n is None:
            for x in Y.walk(c):
                if x.op == "cmp" and x.a[0] in ("<", "<=", ">", ">="):
                    m = norm(x, True, Sy)
                    if m and size_atoms(m[1], Sy):
                        seen = True
            continue
        rl, lin = n
        gap = [a for a in lin if a is not None]
        if len(gap) == 1 and gap[0].op == "call" and gap[0].a[0] in ("builtins.abs", "numpy.abs", "math.fabs") and \
                len(size_atoms(lin_sizes(gap[0].a[1][0], Sy._sizes), Sy)) > 1:
            if lin[gap[0]] < 0 and lin.get(None, 0) >= 0 and rl in ("<", "<=", "!="):
                best = ("bad", "whenever the total length differs by as much, also if it grows")
            continue
        at = size_atoms(lin, Sy)
        if not at:
            continue
        r = judge_minmax(rl, lin, at, lid, Sy, local)
        if r[0] == "ok" and not r[1] and e is not None and e.kind == "setattr" and isinstance(e.heap, Y.T):
            k = e.data[1].split("_")[0]
            mine = [a for a, ks in at.items() if ks == {k} and lin[a] < 0]
            if mine and e.heap not in mine and (e.heap.op == "loop" and mine[0].op == "loop" and e.heap.a[1] == mine[0].a[1] or mine[0].op != "loop"):
                r = ("ok", "the %s size compared with is an earlier one than the current: it" % k)
        if r[0] == "ok":
            best = r
            break
        if best is None or r[0] == "bad":
            best = r
    return best, seen


def verdict(rep, Sy, e, conds, what, lid, f=None, line=0, key=None, local=False):
    rel = e.func.module.rel if e is not None else f.module.rel
    qual = e.func.qual if e is not None else f.qual
    line = e.line if e is not None else line
    key = key or K.short(e.node, 60)
    conds = list(conds)
    best, seen = weigh(Sy, e, conds, lid, local)
    free = None
    if best is None or best[0] != "ok":
        best, seen, free = alternatives(Sy, e, conds, lid, local, best, seen)
    if free is not None:
        rep.violation("strict", rel, qual, key, "%s whatever the description length if %s" % (what, Y.show(free)[:80]), line)
        return
    if best is None:
        if seen:
            rep.undecided("strict", e.where if e is not None else f.where, "%s under a condition of unknown form" % what)
        else:
            rep.violation("strict", rel, qual, key, "%s whatever the description length" % what, line)
        return
    if best[0] == "ok":
        rep.ok("strict", "%s:%d %s only if the total length shrinks" % (rel, line, what))
        if best[1]:
            rep.violation("fresh", rel, qual, "stale " + best[1], "%s, but %s is not replaced on acceptance" % (what, best[1]), line)
        else:
            rep.ok("fresh", "%s:%d compared with the sizes of the current table" % (rel, line))
    elif best[0] == "bad":
        rep.violation("strict", rel, qual, key, "%s %s" % (what, best[1]), line)
    else:
        rep.undecided("strict", e.where if e is not None else f.where, "%s: %s" % (what, best[1]))


def size_atoms(lin, Sy):
    out = {}
    for a in lin:
        if a is None:
            continue
        ks = size_kind(a, Sy) if a.op != "prod" else {one_kind(a)}
        if ks and ks <= {"data", "model", "total"}:
            out[a] = ks
    return out


def judge(rl, lin, at, lid, Sy, local=False):
    if rl in ("==", "!="):
        return ("bad", "whenever the total length differs") if rl == "!=" and len(at) > 1 else ("unknown", "equality")
    rest = [a for a in lin if a is not None and a not in at]
    if rest:
        return "unknown", "other terms in the comparison: %s" % Y.show(rest[0])[:50]
    k = lin.get(None, 0)

    def current(a):
        """Does the term stand for the sizes kept so far (a loop-carried variable, an attribute)?"""
        return a.op == "loop" or a.op == "attr" and a.a[1] in ("data_size_", "model_size_")
    new = {a: ks for a, ks in at.items() if not current(a)}
    cur = {a: ks for a, ks in at.items() if current(a)}
    if not cur:
        # sizes hoisted before the loop: a fixed reference
        cur = {a: ks for a, ks in at.items() if lin[a] < 0}
        new = {a: ks for a, ks in at.items() if lin[a] > 0}
    if not new or not cur:
        return "unknown", "comparison of sizes of one table"
    if local and any(a.op == "attr" for a in cur):
        return "bad", "under a comparison with the sizes of another table than the one edited"
    pos = {lin[a] for a in new}
    neg = {lin[a] for a in cur}
    both = lambda ks: [k2 for k in ks for k2 in (("data", "model") if k == "total" else (k,))]
    kn, kc = sorted(k2 for ks in new.values() for k2 in both(ks)), sorted(k2 for ks in cur.values() for k2 in both(ks))
    if len(pos) != 1 or len(neg) != 1 or next(iter(pos)) != -next(iter(neg)):
        return "bad", "under a comparison that does not weigh both sizes alike"
    if kn != ["data", "model"] or kc != ["data", "model"]:
        return "bad", "under a comparison of %s with %s" % (" and ".join(kn), " and ".join(kc))
    s = next(iter(pos))
    if s < 0:
        return "bad", "when the total length grows"
    if rl == "<" and k >= 0 or rl == "<=" and k > 0:
        stale = ""
        for a in cur:
            if a.op == "loop":
                if not changes(a, Sy):
                    stale = str(a.a[1])
            elif lid is not None and not (a.op == "attr"):
                stale = "the reference"
        return "ok", stale
    if rl == "<=":
        return "bad", "although the total length may stay the same"
    return "bad", "although the total length may grow by a margin"


def changes(a, Sy):
    """Is the loop variable (or the one of an enclosing loop it starts from) ever replaced?"""
    for _ in range(6):
        init, back = Sy.loops.get(tuple(a.a[:2]), (None, ()))
        if back:
            return True
        if init is None or init.op != "loop":
            return False
        a = init
    return True


def mixed(rep, e, self_t):
    """Is the size remembered chosen, by its value, between the one of the accepted table and the one of the table before?"""
    old = (Y.mk("attr", self_t, e.data[1]), e.heap if isinstance(e.heap, Y.T) and e.heap.op != "c" else None)

    def is_old(t):
        return any(t is o for o in old if o is not None)
    for x in Y.walk(e.data[2]):
        if x.op == "call" and x.a[0] in ("builtins.min", "builtins.max", "numpy.minimum", "numpy.maximum", "numpy.fmin", "numpy.fmax") and \
                any(is_old(y) for a in x.a[1] for y in (a.a[0] if a.op in ("tup", "list") else (a,))) and len(list(Y.walk(x))) > 3:
            how = "the %s of it and the size of the table before" % ("smaller" if "min" in x.a[0] else "larger")
        elif x.op == "or" and any(is_old(y) for y in x.a[0][1:]):
            how = "the size of the table before if it is zero"
        elif x.op == "ite" and any(is_old(y) for y in x.a[1:]) and not all(is_old(y) for y in x.a[1:]) and \
                any(x.a[0] is y for y in x.a[1:]):
            how = "the size of the table before if it is zero"
        else:
            continue
        rep.violation("roles", e.func.module.rel, e.func.qual, "mixed " + e.data[1],
                      "%s remembers %s, not the size of the accepted table" % (e.data[1], how), e.line)
        return True
    return False


def update_roles(prog, rep, cls, self_t):
    f = cls.find("update")
    Sy = Y.Sym(prog, opaque=("evaluate", "get_support"))
    Sy.run(f, self_cls=cls)
    n = 0
    for e in Sy.events:
        if e.kind == "setattr" and e.data[0] is self_t and e.data[1] in ("data_size_", "model_size_"):
            n += 1
            if not mixed(rep, e, self_t):
                named(rep, f, e, size_kind(e.data[2], Sy), e.data[1].split("_")[0], "update stores %s" % e.data[1])
    if n < 2:
        rep.violation("roles", f.module.rel, f.qual, "sizes", "update does not remember both sizes", f.node.lineno)
    # the table
    ct = Y.mk("attr", self_t, "codetable_")

    def new_table(t):
        return t.op == "p" and t.a[0] == "usages" or t.op == "item" and t.a[0].op == "rcall" and t.a[0].a[0].name == "evaluate" and t.a[1] == 2
    add = [e for e in Sy.events if e.kind == "meth" and e.data[2] == "update" and e.data[1] is ct and
           any(new_table(x) for a in e.data[3] for x in Y.walk(a))]
    add += [e for e in Sy.events if e.kind == "store" and e.data[0] is ct]
    repl = [e for e in Sy.events if e.kind == "setattr" and e.data[0] is self_t and e.data[1] == "codetable_"]
    drops = [e for e in Sy.events if (e.kind == "del" and e.data[0] is ct or e.kind == "meth" and e.data[1] is ct and e.data[2] in ("pop", "__delitem__"))]
    if repl:
        for e in repl:
            if any(new_table(x) for x in Y.walk(e.data[2])):
                rep.ok("table", "%s: the table is replaced by the new one" % e.where)
            else:
                rep.undecided("table", e.where, "codetable_ = %s" % Y.show(e.data[2])[:60])
        return
    if not add:
        if any(e.kind == "rcall" or e.kind == "meth" and ct in [e.data[1]] for e in Sy.events):
            und = [e for e in Sy.events if e.kind == "meth" and e.data[1] is ct and e.data[2] in Y.MUTATORS]
            if und:
                rep.undecided("table", und[0].where, "edit of the code table")
                return
        rep.violation("table", f.module.rel, f.qual, "add", "update does not enter the accepted patterns into the code table", f.node.lineno)
    for e in add:
        if any(not about_args(c) for c, p in conds_of(e)):
            rep.undecided("table", e.where, "conditional entry")
        else:
            part = [x for a in (e.data[3] if e.kind == "meth" else ()) for x in Y.walk(a) if x.op == "comp" and x.a[1] is not None and
                    any(g[2] and any(new_table(y) for y in Y.walk(g[0])) for g in x.a[2])]
            part = [x for x in part if not any(y is ct for g in x.a[2] for c in g[2] for y in Y.walk(c))]
            if part:
                rep.violation("table", e.func.module.rel, e.func.qual, "part", "update enters only some rows of the accepted table (%s): the others "
                              "keep the usages of the table before" % Y.show(part[0].a[2][0][2][0])[:50], e.line)
            else:
                rep.ok("table", "%s: accepted patterns entered" % e.where)
    if not drops:
        rep.violation("table", f.module.rel, f.qual, "drop", "update never drops the patterns that the accepted table no longer has", f.node.lineno)
    for e in drops:
        key = e.data[1] if e.kind == "del" else (e.data[3][0] if e.data[3] else Y.NONE)
        cs = conds_of(e)
        its = [c.a[1] for c, p in e.conds if c.op == "iter"]
        gone = False
        for t in its + [c for c, p in cs]:
            for x in Y.walk(t):
                if x.op == "bin" and x.a[0] == "-" and any(z is ct for z in Y.walk(x.a[1])) and any(new_table(z) for z in Y.walk(x.a[2])):
                    gone = True
                if x.op == "meth" and x.a[1] == "difference" and any(z is ct for z in Y.walk(x.a[0])):
                    gone = True
        for c, p in cs:
            if c.op == "cmp" and c.a[0] in ("in", "not in") and any(new_table(z) for z in Y.walk(c.a[2])):
                gone = gone or (c.a[0] == "not in") == p
        rev = any(x.op == "bin" and x.a[0] == "-" and any(z is ct for z in Y.walk(x.a[2])) and any(new_table(z) for z in Y.walk(x.a[1]))
                  for t in its for x in Y.walk(t))
        if gone:
            rep.ok("table", "%s: vanished patterns dropped" % e.where)
        elif rev:
            rep.violation("table", e.func.module.rel, e.func.qual, "drop", "update drops the new patterns instead of the vanished ones", e.line)
        else:
            rep.undecided("table", e.where, "which patterns are dropped")
        for c, p in cs:
            n = Y.cmp_norm(c, p)
            if n and any(a is not None and a.op == "call" and a.a[0] == "builtins.len" for a in n[1]) and len([a for a in n[1] if a is not None]) == 1:
                (a, k), = [(a, k) for a, k in n[1].items() if a is not None]
                # len(x) > b : smallest admitted length must be 2
                if k < 0:
                    b = n[1].get(None, 0) / -k
                    least = b + 1 if n[0] == "<" and float(b).is_integer() else b
                    if least == 2:
                        rep.ok("table", "%s: only patterns of two or more items are dropped" % e.where)
                    elif least > 2:
                        rep.violation("table", e.func.module.rel, e.func.qual, "drop length",
                                      "update keeps vanished patterns of %d items" % (least - 1), e.line)
                    else:
                        rep.violation("table", e.func.module.rel, e.func.qual, "drop length", "update drops single items from the table", e.line)


def about_args(c):
    return any(x.op == "p" for x in Y.walk(c))


def fit_guard(prog, rep, cls, self_t):
    f = cls.find("fit")

    def decide(c, st):
        if c.op == "cmp" and c.a[0] in ("is", "is not") and c.a[2] is Y.NONE and any(
                x.op == "rcall" and x.a[0].name == "evaluate" for x in Y.walk(c.a[1])):
            return c.a[0] == "is not"
        return None
    Sy = Y.Sym(prog, opaque=("evaluate", "generate_candidates", "get_support", "_standard_cover_order", "_log2", "_check_D", "_to_vertical",
                             "supervised_to_unsupervised", "cover"), decide=decide)
    Sy.run(f, self_cls=cls)
    pre = [e for e in Sy.events if any(g.name == "prefit" for g, _ in e.stack) or e.func.name == "prefit"]
    pre_i = {e.i for e in pre}
    ctv = None
    n = 0
    adds, drops = [], []
    for e in Sy.events:
        if e.i in pre_i:
            if e.kind == "setattr" and e.data[0] is self_t and e.data[1] == "codetable_":
                ctv = e.data[2]
            continue
        hit = None
        if e.kind == "setattr" and e.data[0] is self_t and e.data[1] in ("data_size_", "model_size_", "codetable_"):
            hit = "%s is replaced" % e.data[1]
        elif e.kind == "meth" and e.data[2] in Y.MUTATORS and table_term(e.data[1], ctv, self_t):
            hit = "the code table is edited (%s)" % K.short(e.node, 40)
        elif e.kind in ("del", "store") and table_term(e.data[0], ctv, self_t):
            hit = "the code table is edited (%s)" % K.short(e.node, 40)
        if hit is None:
            continue
        n += 1
        if e.kind in ("setattr", "del") and e.data[1] != "data_size_" and e.data[1] != "model_size_" or \
                e.kind == "meth" and e.data[2] in ("pop", "popitem", "clear", "__delitem__"):
            drops.append(e)
        elif e.kind == "meth" and e.data[2] == "update" or e.kind == "store":
            adds.append(e)
        if e.kind == "setattr" and e.data[1] != "codetable_":
            if not mixed(rep, e, self_t):
                named(rep, f, e, size_kind(e.data[2], Sy), e.data[1].split("_")[0], "fit stores %s" % e.data[1])
        fit_verdict(rep, Sy, e, hit, self_t)
    if adds and not drops:
        e = adds[0]
        rep.violation("table", e.func.module.rel, e.func.qual, "drop", "fit enters the accepted patterns and never drops those that the "
                      "accepted table no longer has", e.line)
    if not n:
        rep.violation("strict", f.module.rel, f.qual, "update", "fit never takes over an accepted code table", f.node.lineno)


def table_term(t, ctv, self_t):
    return t is ctv or t.op == "attr" and t.a[0] is self_t and t.a[1] == "codetable_" or t.op == "loop" and str(t.a[1]).endswith("self.codetable_")


def fit_verdict(rep, Sy, e, what, self_t):
    """The guard of an acceptance in fit: terms of evaluate() against the attributes' current terms."""
    lid = e.loops[0] if e.loops else None
    verdict(rep, Sy, e, conds_of(e), what, lid)


# ------------------------------------------------------------------------------------------ C15
def card_of(t):
    """The operands of the set whose size the term is: (a,) or (a, b) for an intersection."""
    if t.op == "meth" and t.a[1] == "intersection_cardinality" and len(t.a[2]) == 1:
        return frozenset((t.a[0], t.a[2][0]))
    if t.op == "meth" and t.a[1] in ("union_cardinality", "difference_cardinality", "symmetric_difference_cardinality"):
        return frozenset((t,))
    if t.op == "call" and t.a[0] in ("builtins.min", "builtins.max") and len(t.a[1]) > 1 and all(card_of(x) for x in t.a[1]):
        return frozenset((t,)) if len({card_of(x) for x in t.a[1]}) > 1 else card_of(t.a[1][0])
    x = None
    if t.op == "call" and t.a[0] == "builtins.len" and len(t.a[1]) == 1:
        x = t.a[1][0]
    elif t.op == "meth" and t.a[1] == "__len__":
        x = t.a[0]
    if x is None:
        return None
    return inter_of(x) or frozenset((x,))


def inter_of(t):
    while t.op == "call" and isinstance(t.a[0], str) and t.a[0].split(".")[-1] in ("BitMap", "FrozenBitMap", "frozenset", "set") and len(t.a[1]) == 1:
        t = t.a[1][0]
    if t.op == "meth" and t.a[1] == "intersection" and len(t.a[2]) == 1:
        return frozenset((t.a[0], t.a[2][0]))
    if t.op == "bin" and t.a[0] == "&":
        return frozenset((t.a[1], t.a[2]))
    return None


class Supp:
    def __init__(self, self_t, stored=()):
        self.self_t = self_t
        self.attr = Y.mk("attr", self_t, "min_supp_")
        self.raw = Y.mk("attr", self_t, "min_supp")
        self.stored = set(stored)
        self.prods = {k for s in stored for x in P.leaves(s) for k in Y.linear(x) if k is not None}

    def is_ms(self, t):
        if t is self.attr or t in self.stored and t is not self.raw:
            return True
        if t.op == "ite":
            return all(self.is_ms(x) or x is self.raw for x in P.leaves(t))
        return t in self.prods and t is not self.raw

    def test(self, c, pol):
        """('freq'|'rare', operands, verdict) of a comparison of a cardinality with the minimum support; None if it is none."""
        while c.op == "not":
            c, pol = c.a[0], not pol
        if c.op != "cmp" or c.a[0] not in ("<", "<=", ">", ">="):
            return None
        n = Y.cmp_norm(c, pol)
        if n is None:
            return None
        rel, lin = n
        card = [(k, v) for k, v in lin.items() if k is not None and card_of(k) is not None]
        ms = [(k, v) for k, v in lin.items() if k is not None and (self.is_ms(k) or k is self.raw)]
        if len(card) != 1 or len(ms) != 1 or len([k for k in lin if k is not None]) != 2:
            return None
        (ck, cv), (mk_, mv) = card[0], ms[0]
        off = lin.get(None, 0)
        ops = card_of(ck)
        if cv * mv >= 0:
            return ("freq", ops, "the two are added")
        kind = "rare" if cv > 0 else "freq"
        if abs(cv) != abs(mv):
            return (kind, ops, "the minimum support is scaled by %g" % (abs(mv) / abs(cv)))
        if off:
            return (kind, ops, "the comparison is off by %g" % (off / abs(cv)))
        good = "<" if kind == "rare" else "<="
        if rel != good:
            return (kind, ops, "a support equal to the minimum counts as infrequent")
        if mk_ is self.raw:
            return (kind, ops, "raw")
        return (kind, ops, None)


def all_cmps(Sy):
    """(event, comparison) for every comparison term met in the run, once per term."""
    seen = set()
    for e in Sy.events:
        for t in [c for c, _ in e.conds] + [d for d in e.data if isinstance(d, (Y.T, tuple))]:
            for x in Y.walk(t):
                if x.op == "cmp" and x not in seen:
                    seen.add(x)
                    yield e, x


def check_C15(prog, rep):
    rep.rule("boundary", "Every comparison of the size of a transaction set with the minimum support separates size >= minimum from size < minimum "
             "(linear normal form of the comparison), so an exact hit counts as frequent.")
    rep.rule("filter", "Items are dropped exactly when their own transaction set is below the minimum support.")
    rep.rule("recursion", "The search only descends with an intersection of transaction sets that was tested against the minimum support.")
    rep.rule("support", "What is reported as support is the size of the node's own transaction set, the same one as reported as tids.")
    rep.rule("threshold", "A float threshold is multiplied by the number of transactions iterated in fit, without rounding down; an int is taken as is.")
    rep.rule("ids", "Each transaction gets its own id: the id recorded per item is a counter raised once per transaction.")
    rep.rule("closure", "Items are added to a set only if their transactions include all of the node's transactions.")
    for name in ("LCM", "LCMMax"):
        cls = prog.cls(S.ESTIMATORS[name])
        for m in ("fit", "transform"):
            if cls.find(m) is None:
                raise M.AnalysisBroken("%s has no %s" % (name, m))
        self_t = Y.mk("self", cls.qual)
        Sf, stored = c15_fit(prog, rep, cls, self_t, name)
        c15_search(prog, rep, cls, self_t, name, Sf, stored)
    c15_output(prog, rep)


SMALL = ("int8", "uint8", "int16", "uint16", "bool", "float16", "category", "i1", "u1", "i2", "u2", "b1", "f2")
ALTERS = ("clip", "round", "abs", "add", "sub", "mul", "div", "truediv", "floordiv", "mod", "pow", "rank", "diff", "cumsum", "shift", "mask",
          "where", "replace", "pct_change", "cummax", "cummin", "rolling", "clip_lower", "clip_upper", "sort_values", "sample")


def column(n, name):
    """Is the expression the column of that name of a table (or of a row of it)?"""
    if isinstance(n, ast.Attribute) and n.attr == name:
        return True
    if isinstance(n, ast.Subscript):
        k = n.slice
        if isinstance(k, ast.Tuple) and len(k.elts) == 2:
            k = k.elts[1]
        return isinstance(k, ast.Constant) and k.value == name
    return False


def c15_output(prog, rep):
    """The support column on its way from the search to the caller, in the table and in the file."""
    rep.rule("output", "Between the search and the caller the support column is only converted to a number that holds every count, rows are filtered "
             "by the support with at-least comparisons only, and a writer that writes the itemsets writes their supports.")
    fs = {}
    for name in ("LCM", "LCMMax"):
        cls = prog.cls(S.ESTIMATORS[name])
        for c in cls.mro():
            if hasattr(c, "methods") and c.module.rel.endswith("itemsets/lcm.py"):
                for f in c.methods.values():
                    if f.name not in ("fit", "_inner"):
                        fs[f] = None
    n = 0
    for f in fs:
        loc = {}
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                loc.setdefault(x.targets[0].id, []).append(x.value)

        def val(e):
            return loc[e.id][0] if isinstance(e, ast.Name) and len(loc.get(e.id, ())) == 1 else e

        def say(key, why, node):
            rep.violation("output", f.module.rel, f.qual, key, why, node.lineno)
        for x in ast.walk(f.node):
            put = None
            if isinstance(x, ast.Assign) and any(column(t, "support") for t in x.targets):
                put = x.value
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "assign":
                put = next((k.value for k in x.keywords if k.arg == "support"), None)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "astype" and x.args and isinstance(x.args[0], ast.Dict):
                for k, v in zip(x.args[0].keys, x.args[0].values):
                    if isinstance(k, ast.Constant) and k.value == "support" and dtype_name(v) in SMALL:
                        say("narrow", "the support column is converted to %s, which does not hold every count" % dtype_name(v), x)
            elif isinstance(x, ast.AugAssign) and column(x.target, "support"):
                say("altered", "the reported support is altered (%s)" % K.short(x, 50), x)
            if put is not None:
                n += 1
                bad = alters(val(put), val)
                if bad:
                    say("altered", "the reported support is %s, not the number of transactions" % bad, x)
                else:
                    rep.ok("output", "%s:%d support column" % (f.module.rel, x.lineno))
            if isinstance(x, ast.Compare) and len(x.ops) == 1:
                l, r, op = val(x.left), val(x.comparators[0]), type(x.ops[0])
                if is_min(l):
                    l, r, op = r, l, {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(op, op)
                if is_min(r) and (column(l, "support") or count_of_tids(l)):
                    n += 1
                    if op in (ast.Gt, ast.LtE):
                        say("filter", "rows are chosen with %s: an itemset whose support is exactly the minimum falls on the wrong side"
                            % K.short(x, 50), x)
                    elif op in (ast.GtE, ast.Lt):
                        rep.ok("output", "%s:%d rows at or above the minimum" % (f.module.rel, x.lineno))
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "drop_duplicates":
                sub = next((k.value for k in x.keywords if k.arg == "subset"), x.args[0] if x.args else None)
                names = [c.value for c in ast.walk(sub) if isinstance(c, ast.Constant)] if sub is not None else []
                if names and "itemset" not in names:
                    say("lost", "rows that agree on %s are dropped as duplicates: itemsets are lost" % ", ".join(map(str, names)), x)
        wr = [x for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("write", "writelines")]
        names = {c.value for c in ast.walk(f.node) if isinstance(c, ast.Constant)} | {a.attr for a in ast.walk(f.node) if isinstance(a, ast.Attribute)}
        if wr and any(column(y, "itemset") for y in ast.walk(f.node)):
            n += 1
            if "support" in names or any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ("itertuples", "to_string", "values")
                                         for y in ast.walk(f.node)):
                rep.ok("output", "%s writes the supports" % f.where)
            else:
                say("file", "the itemsets are written to the file without the support of their row", wr[0])
    rep.ok("output", "%d functions of the itemset miners between search and caller" % len(fs))


def dtype_name(v):
    if isinstance(v, ast.Constant):
        return str(v.value).lstrip("<>=|")
    return v.attr if isinstance(v, ast.Attribute) else v.id if isinstance(v, ast.Name) else ""


def is_min(e):
    return isinstance(e, ast.Attribute) and e.attr in ("min_supp_", "min_supp")


def count_of_tids(e):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1 and \
        (isinstance(e.args[0], ast.Name) and "tids" in e.args[0].id or column(e.args[0], "tids"))


def alters(e, val):
    """How an expression over the support column changes its values, or None."""
    for x in ast.walk(e):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
            over = any(column(y, "support") for y in ast.walk(x.func.value)) or any(column(y, "support") for a in x.args for y in ast.walk(a))
            if not over:
                continue
            if x.func.attr == "astype" and x.args and dtype_name(x.args[0]) in SMALL:
                return "converted to %s, which does not hold every count" % dtype_name(x.args[0])
            if x.func.attr in ALTERS:
                return "altered by %s()" % x.func.attr
        elif isinstance(x, ast.BinOp) and any(column(val(y), "support") for y in (x.left, x.right)):
            return "altered (%s)" % K.short(x, 40)
    it = [x for x in ast.walk(e) if isinstance(x, ast.Call) and any(column(y, "itemset") for y in ast.walk(x)) and not any(
        column(y, "support") or column(y, "tids") for y in ast.walk(e))]
    if it:
        return "computed from the itemset (%s)" % K.short(it[0], 40)
    return None


def same_class_func(f, cls):
    return f.cls is not None and f.cls is cls


def bnd(rep, supp, Sy, where=None):
    """Judge all comparisons of a run; returns how many compare a size with the minimum support."""
    n = 0
    done = set()
    for e, c in all_cmps(Sy):
        r = supp.test(c, True)
        if r is None:
            continue
        n += 1
        kind, ops, bad = r
        if bad == "raw":
            if any(x.op == "call" and x.a[0] == "builtins.isinstance" for cc, _ in e.conds for x in Y.walk(cc)):
                continue
            bad = "the threshold the caller gave is used before it is made absolute"
        if (e.where, bad) in done:
            continue
        done.add((e.where, bad))
        if bad:
            rep.violation("boundary", e.func.module.rel, e.func.qual, K.short(c_src(e, c), 60), "support test: %s" % bad, e.line)
        else:
            rep.ok("boundary", "%s: %s" % (e.where, Y.show(c)[:60]))
    return n


def c_src(e, c):
    return e.node


def strip_iter(it):
    while it.op == "call" and it.a[0] in ("builtins.enumerate", "builtins.list", "builtins.iter", "builtins.tuple") and it.a[1]:
        it = it.a[1][0]
    return it


def last_pos(Sy, t, D):
    if t.op == "last":
        ps = [t.a[2]]
    elif t.op == "loop":
        ps = list(Sy.loops.get(tuple(t.a[:2]), (None, ()))[1])
    else:
        return False
    return bool(ps) and all(p.op == "pos" and strip_iter(p.a[0]) is D for p in ps)


def is_counter(Sy, t, D):
    """True: a counter raised by one for each element of D. A string: why it is not. None: not a counter."""
    if t.op == "ite":
        rs = {is_counter(Sy, x, D) for x in P.leaves(t)}
        return None if None in rs else True if rs == {True} else sorted(x for x in rs if x is not True)[0]
    if t.op == "bin":
        ln = Y.linear(t)
        ks = [k for k in ln if k is not None]
        if len(ks) == 1 and ks[0] is not t and ln[ks[0]] == 1:
            if last_pos(Sy, ks[0], D):
                return True if ln.get(None) == 1 else "the last position shifted by %g" % ln.get(None, 0)
            r = is_counter(Sy, ks[0], D)
            if not ln.get(None):
                return r
            return "the number of transactions shifted by %g" % ln.get(None, 0) if r is True else r
        return None
    if last_pos(Sy, t, D):
        return "the last position, one less than the number of transactions"
    if t.op == "call" and t.a[0] == "builtins.len" and len(t.a[1]) == 1:
        x = t.a[1][0]
        if x is D:
            return True
        if x.op == "call" and isinstance(x.a[0], str) and x.a[0].split(".")[-1] in ("defaultdict", "dict", "SortedDict") or x.op == "dict":
            return "the number of items"
        if x.op in ("item", "elem") and x.a[0] is D:
            return "the length of one transaction"
        return None
    if t.op == "item" and t.a[0].op == "attr" and t.a[0].a == (D, "shape"):
        return True if t.a[1] == 0 else "the number of columns"
    if t.op == "pos" and t.a[0] is D:
        return True
    if t.op != "loop":
        return None
    lid, nm = t.a[:2]
    init, backs = Sy.loops.get((lid, nm), (None, ()))
    info = Sy.loopinfo.get(lid, {})
    if info.get("iter") is None or init is None:
        return None
    it = strip_iter(info["iter"])
    if it is not D:
        if any(x is D for x in Y.walk(it)) and it.op in ("elem", "val"):
            return "a counter of the items"
        return None
    if not (init.op == "c" and init.a[0] == 0):
        return "a counter that starts at %s" % Y.show(init)[:30]
    for b in backs:
        ln = Y.linear(b)
        if ln == {t: 1, None: 1}:
            continue
        if b.op == "loop" or any(x.op == "loop" and x is not t for x in Y.walk(b)):
            return "a counter raised once per item"
        if b.op == "ite" or set(ln) - {t, None}:
            if b.op == "ite" and all(Y.linear(x) in ({t: 1, None: 1}, {t: 1}) for x in P.leaves(b)):
                return "a counter that skips transactions"
            rest = [k for k in ln if k is not None and k is not t]
            if ln.get(t) == 1 and len(rest) == 1 and all(Y.is_const(x) and isinstance(x.a[0], (int, bool)) for x in P.leaves(rest[0])):
                if {ln[rest[0]] * int(x.a[0]) + ln.get(None, 0) for x in P.leaves(rest[0])} == {1}:
                    continue
                return "a counter that skips transactions"
            if ln.get(t) == 1 and len(rest) == 1 and (rest[0].op in ("cmp", "not") or rest[0].op == "call" and rest[0].a[0] == "builtins.bool"):
                return "a counter that skips transactions"
            return None
        return "a counter raised by %s" % Y.show(b)[:40]
    if Sy.stays.get((lid, nm)):
        return "a counter that skips transactions"
    return True if backs else None


def c15_fit(prog, rep, cls, self_t, name):
    f = cls.find("fit")
    Sy = Y.Sym(prog, opaque=("_check_min_supp",))
    Sy.run(f, self_cls=cls)
    D = Y.mk("p", f.params()[1][0])
    stores = [e for e in Sy.events if e.kind == "setattr" and e.data[0] is self_t and e.data[1] == "min_supp_"]
    vals = [e.data[2] for e in stores]
    supp = Supp(self_t, vals)
    if not same_class_func(f, cls):
        return Sy, vals     # inherited: judged with its own class
    raw = supp.raw
    for e in stores:
        for v, conds in gated(e.data[2], e.conds):
            threshold(rep, Sy, e, v, conds, raw, D)
    if not stores:
        rep.undecided("threshold", f.where, "min_supp_ is not stored by fit")
    n = bnd(rep, supp, Sy)
    # ids
    for e in Sy.events:
        if e.kind == "meth" and e.data[2] in ("add", "append") and len(e.data[3]) == 1 and e.data[1].op == "idx" and any(
                x.op in ("elem",) and x.a[0].op == "elem" and x.a[0].a[0] is D for x in Y.walk(e.data[1].a[1])):
            r = is_counter(Sy, e.data[3][0], D)
            if r is True or isinstance(r, str) and r.startswith("a counter that starts"):
                rep.ok("ids", "%s: %s" % (e.where, K.short(e.node, 50)))
            elif r is None:
                rep.undecided("ids", e.where, Y.show(e.data[3][0])[:60])
            else:
                rep.violation("ids", e.func.module.rel, e.func.qual, K.short(e.node, 50), "the transaction id recorded is %s" % r, e.line)
    # filter direction
    for e in Sy.events:
        if e.kind == "del" or e.kind == "meth" and e.data[2] == "pop" and e.data[3]:
            for c, p in conds_of(e):
                r = supp.test(c, p)
                if r is None:
                    continue
                if r[0] == "rare":
                    rep.ok("filter", "%s drops infrequent items" % e.where)
                else:
                    rep.violation("filter", e.func.module.rel, e.func.qual, K.short(e.node, 50), "fit drops the frequent items", e.line)
                own_set(rep, e, r[1])
        elif e.kind == "store" or e.kind == "meth" and e.data[2] in ("append", "setdefault", "update", "__setitem__"):
            val = e.data[2] if e.kind == "store" else e.data[3]
            if not any(x.op == "val" for x in Y.walk(val)):
                continue
            for c, p in conds_of(e):
                r = supp.test(c, p)
                if r is not None and r[0] == "rare":
                    rep.violation("filter", e.func.module.rel, e.func.qual, K.short(e.node, 50), "fit keeps the infrequent items", e.line)
                elif r is not None:
                    rep.ok("filter", "%s keeps frequent items" % e.where)
                    own_set(rep, e, r[1])
        elif e.kind == "setattr" and e.data[1] == "item_to_tids_":
            for x in Y.walk(e.data[2]):
                if x.op == "comp":
                    for g in x.a[2]:
                        for flt in g[2]:
                            for c, p in Y.split_cond(flt, True):
                                r = supp.test(c, p)
                                if r is None:
                                    continue
                                if r[0] == "rare":
                                    rep.violation("filter", e.func.module.rel, e.func.qual, "item filter", "fit keeps the infrequent items", e.line)
                                else:
                                    rep.ok("filter", "%s keeps frequent items" % e.where)
                                own_set(rep, e, r[1])
    Sy._ntests = n
    return Sy, vals


def own_set(rep, e, ops):
    for x in ops:
        if x.op in ("elem", "pos") and len(ops) == 1:
            rep.violation("filter", e.func.module.rel, e.func.qual, "own set", "the size tested is not that of the item's transaction set", e.line)


def gated(v, conds):
    """Leaves of an if-expression with the conditions they are chosen under."""
    if v.op == "ite":
        yield from gated(v.a[1], conds + tuple(Y.split_cond(v.a[0], True)))
        yield from gated(v.a[2], conds + tuple(Y.split_cond(v.a[0], False)))
    else:
        yield v, conds


def relative(conds, raw):
    """True/False: the threshold is (not) a float here; a string: the test that misjudges it; None: unknown."""
    for c, p in conds:
        while c.op == "not":
            c, p = c.a[0], not p
        if c.op == "call" and c.a[0] == "builtins.isinstance" and c.a[1][0] is raw:
            n = names_of(c.a[1][1])
            if n and n <= {"builtins.float", "numpy.floating", "numpy.float64"}:
                return p
            if n and n <= {"builtins.int", "numbers.Integral", "numpy.integer"}:
                return not p
    for c, p in conds:
        n = Y.cmp_norm(c, p)
        if n and n[0] in ("<", "<=") and set(n[1]) <= {raw, None} and n[1].get(raw):
            b = -n[1].get(None, 0) / n[1][raw]
            if b == 1:
                low = n[1][raw] > 0
                incl = n[0] == "<="
                if low:
                    return "an int of 1 is taken as relative" if incl else "the float 1.0 is taken as absolute"
                return "the float 1.0 is taken as absolute" if incl else "an int of 1 is taken as relative"
    return None


def names_of(t):
    if t.op in ("tup", "list"):
        return {y for x in t.a[0] for y in names_of(x)}
    if t.op == "lib":
        return {t.a[0]}
    return set()


def threshold(rep, Sy, e, v, conds, raw, D):
    rel = relative(conds, raw)
    mod, q, line = e.func.module.rel, e.func.qual, e.line
    con = "min_supp_"
    if isinstance(rel, str):
        rep.violation("threshold", mod, q, con, rel, line)
        return
    x = v
    down = None
    while True:
        if x.op == "call" and x.a[0] in ("math.ceil", "numpy.ceil", "builtins.float") and x.a[1]:
            if x.a[0] != "builtins.float":
                down = down or "ceil"
            x = x.a[1][0]
        elif x.op == "call" and x.a[0] in ("builtins.int", "builtins.round", "math.floor", "numpy.floor", "numpy.round", "math.trunc", "numpy.rint") and x.a[1]:
            down = "ceil" if down == "ceil" else x.a[0]
            if x.a[1][0].op == "call" and x.a[1][0].a[0] in ("math.ceil", "numpy.ceil"):
                down = "ceil"
            x = x.a[1][0]
        elif x.op == "bin" and x.a[0] == "//" and x.a[2].op == "c":
            down = "//"
            x = x.a[1]
        elif x.op == "call" and x.a[0] == "builtins.max" and len(x.a[1]) == 2 and any(y.op == "c" and y.a[0] in (0, 1) for y in x.a[1]):
            x = [y for y in x.a[1] if not (y.op == "c" and y.a[0] in (0, 1))][:1]
            if not x:
                rep.undecided("threshold", e.where, "constant")
                return
            x = x[0]
        else:
            break
    fac = Y.factors(x)
    others = [k for k in fac if k is not None and k is not raw]
    if fac.get(raw) != 1:
        lin = Y.linear(x)
        if raw in lin and set(lin) <= {raw, None} and lin.get(None):
            rep.violation("threshold", mod, q, con, "the threshold is shifted by %g" % lin[None], line)
        elif any(k is not None and k.op == "prod" and raw in k.a[1] for k in lin) and lin.get(None):
            rep.violation("threshold", mod, q, con, "the threshold is shifted by %g" % lin[None], line)
        else:
            rep.undecided("threshold", e.where, Y.show(v)[:80])
        return
    if not others and fac.get(None, 1) == 1:
        if rel is True:
            rep.violation("threshold", mod, q, con, "a float threshold is not multiplied by the number of transactions", line)
        elif rel is False:
            rep.ok("threshold", "%s: absolute threshold taken as is" % e.where)
        else:
            rep.undecided("threshold", e.where, Y.show(v)[:80])
        return
    if rel is False:
        rep.violation("threshold", mod, q, con, "an absolute threshold is scaled: %s" % Y.show(v)[:60], line)
        return
    if fac.get(None, 1) != 1:
        rep.violation("threshold", mod, q, con, "the threshold is scaled by the constant %g" % fac[None], line)
        return
    if down not in (None, "ceil"):
        rep.violation("threshold", mod, q, con, "the absolute threshold is rounded (%s): sets below the threshold pass" % down, line)
        return
    if len(others) == 1 and fac[others[0]] == 1:
        r = is_counter(Sy, others[0], D)
        if r is True:
            if rel is True:
                rep.ok("threshold", "%s: relative threshold times the number of transactions" % e.where)
                return
            rep.undecided("threshold", e.where, "when is the threshold relative?")
            return
        if isinstance(r, str):
            rep.violation("threshold", mod, q, con, "the relative threshold is multiplied by %s" % r, line)
            return
    rep.undecided("threshold", e.where, Y.show(v)[:80])


def c15_search(prog, rep, cls, self_t, name, Sf, stored):
    supp = Supp(self_t, stored)
    inner = cls.find("_inner")
    if inner is None:
        # renamed: any generator of the class that calls itself
        cands = [m for m in cls.methods.values() if any(isinstance(x, ast.YieldFrom) for x in ast.walk(m.node))] if hasattr(cls, "methods") else []
        inner = cands[0] if len(cands) == 1 else None
    if inner is None:
        rep.undecided("recursion", cls.qual, "no search generator found")
        return
    Sy = Y.Sym(prog, opaque=(inner.name,))
    Sy.run(inner, self_cls=cls)
    n = bnd(rep, supp, Sy)
    if not Sf_tests(Sf) and not n:
        rep.violation("filter", inner.module.rel, cls.name, "support", "%s never tests a support against the minimum" % name, inner.node.lineno)
        return
    rec = [e for e in Sy.events if e.kind == "rcall" and e.data[1] is inner]
    spot = None
    for e in rec:
        for pn, v in e.data[2].items():
            for path, x in parts(v):
                if inter_of(x) is not None:
                    spot = (pn,) + path
                    ops = inter_of(x)
                    descend(rep, supp, Sy, e, ops, n)
    if not rec:
        rep.undecided("recursion", inner.where, "no recursive call")
    elif spot is None:
        T = node_set(Sy)
        bad = [(e, x) for e in rec for x in [handed(e, T)] if x is not None and
               (x.op in ("idx", "val", "elem") or x is T or x.op == "meth" and x.a[1] in ("union", "difference") or x.op == "bin" and x.a[0] in ("|", "-", "^"))]
        for e, x in bad:
            rep.violation("recursion", e.func.module.rel, e.func.qual, "set handed down",
                          "the search goes on with %s, which is not the intersection of the node's transactions with the item's" % Y.show(x)[:60], e.line)
        if not bad:
            rep.undecided("recursion", inner.where, "the transaction set handed down is not a visible intersection")
    else:
        T = node_set(Sy)
        for e in rec:
            x = handed(e, T)
            if x is not None and inter_of(x) is not None and T not in inter_of(x):
                rep.violation("recursion", e.func.module.rel, e.func.qual, "set handed down",
                              "the set handed down is not an intersection with the node's own transactions", e.line)
    T = None
    if spot is not None:
        T = Y.mk("p", spot[0])
        for i in spot[1:]:
            T = Y.mk("item", T, i)
    root_test(prog, rep, cls, self_t, name, Sf, supp, Sy, T, inner, n)
    if T is None:
        return
    for e in Sy.events:
        if e.kind != "yield" or e.data[0].op != "tup":
            continue
        xs = e.data[0].a[0]
        if len(xs) < 2:
            continue
        got = None
        for x in xs[1:2]:
            c = card_of(x)
            if c == {T}:
                got = True
            elif c is not None:
                got = "the size of %s" % " & ".join(sorted(Y.show(o)[:40] for o in c))
            else:
                lin = Y.linear(x)
                if any(k is not None and card_of(k) == {T} for k in lin):
                    got = "not exactly the size of the node's transaction set"
                elif inexact(x, T):
                    got = "not always the size of the node's transaction set (%s)" % Y.show(x)[:60]
        if got is True:
            rep.ok("support", "%s: support" % e.where)
        elif got is None:
            rep.undecided("support", e.where, Y.show(xs[1])[:60])
        else:
            rep.violation("support", e.func.module.rel, e.func.qual, "support", "the reported support is %s" % got, e.line)
        if len(xs) > 2:
            t = xs[2]
            while t.op == "meth" and t.a[1] == "copy" or t.op == "call" and isinstance(t.a[0], str) and t.a[0].split(".")[-1] in ("BitMap", "FrozenBitMap") and len(t.a[1]) == 1:
                t = t.a[0] if t.op == "meth" else t.a[1][0]
            if t is T:
                rep.ok("support", "%s: tids" % e.where)
            elif inter_of(t) is not None or t.op in ("idx", "attr", "item", "loop", "last") or t.op == "meth" and t.a[1] in ("union", "difference"):
                rep.violation("support", e.func.module.rel, e.func.qual, "tids", "the reported tids are %s" % Y.show(t)[:60], e.line)
            else:
                rep.undecided("support", e.where, Y.show(t)[:60])
    # closure filter
    inset = {g for e in Sy.events if e.kind == "yield" and e.data[0].op == "tup" and e.data[0].a[0] for x in Y.walk(e.data[0].a[0][0])
             if x.op == "comp" for g in x.a[2]}
    for e in Sy.events:
        if e.kind != "comp" or not any(c.op == "iter" and any(g[1] == c.a[0] for g in inset) for c, _ in e.conds):
            continue
        for c, p in e.conds:
            v = next((x for x in Y.walk(c) if x.op == "val" or x.op == "idx"), None)
            if v is None or not any(x is T for x in Y.walk(c)):
                continue
            r = supp.test(c, p)
            if r is not None and len(r[1]) == 2:
                rep.violation("closure", e.func.module.rel, e.func.qual, "closure", "an item joins the set when it merely co-occurs often enough", e.line)
            elif c.op == "meth" and c.a[1] in ("issubset", "issuperset") and p and len(c.a[2]) == 1:
                a, b = c.a[0], c.a[2][0]
                if c.a[1] == "issuperset":
                    a, b = b, a
                if a is T:
                    rep.ok("closure", e.where)
                elif b is T:
                    rep.violation("closure", e.func.module.rel, e.func.qual, "closure",
                                  "an item joins the set when its transactions are among the node's, not when they include them", e.line)


def inexact(x, T):
    """Is the number the size of T for some sets, but cut, rounded or replaced for others?"""
    def size(t):
        return card_of(t) == {T} or t.op == "call" and t.a[0] in ("builtins.int", "numpy.int64", "numpy.uint64") and len(t.a[1]) == 1 and size(t.a[1][0])
    if x.op == "call" and isinstance(x.a[0], str):
        args, fn = x.a[1], x.a[0].split(".")[-1]
        if fn == "int" and len(args) == 1:
            return inexact(args[0], T)
        if fn in ("min", "max", "minimum", "maximum") and len(args) > 1:
            return any(size(a) for a in args) and any(not size(a) and not (fn[:3] == "max" and Y.is_const(a) and a.op == "c" and
                                                                          isinstance(a.a[0], int) and a.a[0] <= 1) for a in args)
        return x.a[0].startswith("numpy.") and fn in SMALL and len(args) == 1 and size(args[0])
    if x.op == "ite":
        return any(size(a) and b.op == "c" for a, b in ((x.a[1], x.a[2]), (x.a[2], x.a[1])))
    if x.op == "bin":
        return x.a[0] in ("%", "//", "/", "&", "|", "^", ">>", "<<", "**") and any(size(t) for t in x.a[1:3])
    return False


def node_set(Sy):
    """The transaction set of a node: the part of a parameter whose size is yielded as the support."""
    for e in Sy.events:
        if e.kind == "yield" and e.data[0].op == "tup" and len(e.data[0].a[0]) > 1:
            c = card_of(e.data[0].a[0][1])
            if c and len(c) == 1:
                t = x = next(iter(c))
                while x.op == "item":
                    x = x.a[0]
                if x.op == "p":
                    return t
    return None


def handed(e, T):
    """What a recursive call passes in the place of T."""
    if T is None:
        return None
    path, x = [], T
    while x.op == "item":
        path.insert(0, x.a[1])
        x = x.a[0]
    v = e.data[2].get(x.a[0]) if e.data[2] else None
    for i in path:
        i = i.a[0] if isinstance(i, Y.T) else i
        if v is None or v.op != "tup" or not isinstance(i, int) or i >= len(v.a[0]):
            return None
        v = v.a[0][i]
    return v


def Sf_tests(Sf):
    return getattr(Sf, "_ntests", 1)


def parts(v):
    yield (), v
    if v.op == "tup":
        for i, x in enumerate(v.a[0]):
            for p, y in parts(x):
                yield (i,) + p, y


def descend(rep, supp, Sy, e, ops, n):
    found = None
    for c, p in conds_of(e):
        r = supp.test(c, p)
        if r is None:
            continue
        if r[1] != ops:
            found = found or (r, "other")
        else:
            found = (r, "same")
            break
    if found is None:
        if n or any(x is supp.attr for c, _ in conds_of(e) for x in Y.walk(c)):
            rep.undecided("recursion", e.where, "the support test is not a visible condition of the descent")
        else:
            rep.violation("recursion", e.func.module.rel, e.func.qual, "descent", "the search descends without testing the support", e.line)
        return
    r, which = found
    if which == "other":
        rep.violation("recursion", e.func.module.rel, e.func.qual, "descent",
                      "the set tested against the minimum support is not the intersection handed down", e.line)
    elif r[0] == "rare":
        rep.violation("recursion", e.func.module.rel, e.func.qual, "descent", "the search descends into infrequent sets", e.line)
    else:
        rep.ok("recursion", e.where)


def root_test(prog, rep, cls, self_t, name, Sf, supp, Sy, T, inner, n):
    """The sets the search starts from are tested: in fit, at the roots, or at the head of the node."""
    if Sf_tests(Sf):
        return
    if T is not None:
        for e in Sy.events:
            for c, p in e.conds:
                r = supp.test(c, p)
                if r is not None and r[1] == {T}:
                    return
    St = Y.Sym(prog, opaque=(inner.name,))
    St.run(cls.find("transform"), self_cls=cls)
    er = cls.find("_explore_root")
    k = bnd(rep, supp, St)
    if er is not None:
        Se = Y.Sym(prog, opaque=(inner.name,))
        Se.run(er, self_cls=cls)
        k += bnd(rep, supp, Se)
    if not k:
        f = cls.find("fit")
        rep.violation("filter", f.module.rel, f.qual, "items", "single items are never tested against the minimum support", f.node.lineno)


# ------------------------------------------------------------------------------------------ C16
INC = {"numpy.exp", "numpy.sqrt", "numpy.log", "numpy.log2", "numpy.log10", "numpy.log1p", "numpy.expm1", "math.exp", "math.log", "math.sqrt",
       "scipy.special.expit", "numpy.exp2", "numpy.cbrt", "numpy.arctan", "numpy.tanh"}
UNDERFLOW = {"numpy.exp", "math.exp", "numpy.exp2", "scipy.special.expit", "numpy.tanh"}
LOSSY = {"numpy.round", "numpy.around", "numpy.rint", "numpy.floor", "numpy.ceil", "numpy.trunc", "numpy.clip", "builtins.round", "builtins.int",
         "numpy.sign", "numpy.minimum", "numpy.fix"}
SAME = {"numpy.asarray", "numpy.array", "numpy.ravel", "numpy.ascontiguousarray", "numpy.float64", "numpy.squeeze", "pandas.Series", "builtins.float"}
SAMEM = {"to_numpy", "copy", "ravel", "flatten", "squeeze", "reset_index", "rename", "reshape", "infer_objects"}


class Score:
    """How a term grows with the code length of one model: sign +1/-1/0, and what spoils a strict order."""

    def __init__(self, sign, axis=None, lossy=None, under=False, bad=None, each=None):
        self.sign, self.axis, self.lossy, self.under, self.bad, self.each = sign, axis, lossy, under, bad, each

    def but(self, **kw):
        d = dict(sign=self.sign, axis=self.axis, lossy=self.lossy, under=self.under, bad=self.bad, each=self.each)
        d.update(kw)
        return Score(**d)


def per_model(t):
    return any(x.op in ("elem", "val", "pos") and any(y.op == "attr" and y.a[1] in ("models_", "classes_X_", "classes_") for y in Y.walk(x.a[0]))
               for x in Y.walk(t))


class Scores:
    def __init__(self, prog, Sy, self_t, dec=None):
        self.Sy, self.self_t, self.dec = Sy, self_t, dec

    def base(self, t):
        if t.op == "rcall" and t.a[0].name == "get_code_length" or t.op == "meth" and t.a[1] == "get_code_length":
            recv = t.a[0] if t.op == "meth" else dict(t.a[1]).get("self")
            return Score(1, each=recv)
        if t.op == "rcall" and t.a[0].name == "decision_function" or t.op == "meth" and t.a[1] == "decision_function":
            if self.dec is None:
                return None
            recv = t.a[0] if t.op == "meth" else dict(t.a[1]).get("self")
            return self.dec.but(each=recv)
        return None

    def of(self, t, d=0):
        """Score of a term, None if unknown."""
        if d > 40:
            return None
        b = self.base(t)
        if b is not None:
            return b
        if t.op == "attr" and t.a[1] in ("values", "array"):
            return self.of(t.a[0], d + 1)
        if t.op == "attr" and t.a[1] == "T" or t.op == "meth" and t.a[1] == "transpose" and not t.a[2] or t.op == "call" and t.a[0] == "numpy.transpose":
            s = self.of(t.a[0] if t.op != "call" else t.a[1][0], d + 1)
            return s and s.but(axis=None if s.axis is None else 1 - s.axis)
        if t.op == "neg" or t.op == "call" and t.a[0] == "numpy.negative":
            s = self.of(t.a[0] if t.op == "neg" else t.a[1][0], d + 1)
            return s and s.but(sign=-s.sign)
        if t.op == "meth":
            n, args = t.a[1], t.a[2]
            if n in SAMEM:
                return self.of(t.a[0], d + 1)
            if n == "astype":
                s = self.of(t.a[0], d + 1)
                if s and args and names_of(args[0]) & {"builtins.int", "numpy.int64", "numpy.int32", "numpy.float16", "builtins.bool", "numpy.uint8"}:
                    return s.but(lossy=s.lossy or "cast to %s" % sorted(names_of(args[0]))[0])
                if s and args and Y.is_const(args[0]) and str(args[0].a[0]).startswith(("int", "uint", "float16", "bool")):
                    return s.but(lossy=s.lossy or "cast to %s" % args[0].a[0])
                return s
            if n in ("round", "clip"):
                s = self.of(t.a[0], d + 1)
                return s and s.but(lossy=s.lossy or n)
            if n in ("mul", "multiply") and args and args[0].op == "c":
                s = self.of(t.a[0], d + 1)
                return s and scale(s, args[0].a[0])
            return None
        if t.op == "call" and isinstance(t.a[0], str):
            n, args, kw = t.a[0], t.a[1], dict(t.a[2])
            if not args:
                return None
            if n in ("numpy.vstack", "numpy.array", "numpy.asarray", "numpy.stack", "numpy.column_stack", "numpy.row_stack", "pandas.concat",
                     "numpy.atleast_2d", "numpy.transpose"):
                s = self.rows(args[0], d + 1)
                if s is not None and s.axis == "list":
                    ax = kw.get("axis", args[1] if len(args) > 1 and n == "numpy.stack" else None)
                    ax = 0 if ax is None else ax.a[0] if ax.op == "c" else None
                    if n == "numpy.column_stack":
                        ax = 1
                    elif n not in ("numpy.stack", "pandas.concat"):
                        ax = 0
                    if ax in (-1, "columns"):
                        ax = 1
                    if n == "pandas.concat" and ax != 1:
                        return None
                    return s.but(axis=ax) if ax in (0, 1) else None
            if n == "numpy.nan_to_num":
                s = self.of(args[0], d + 1)
                k = s and kw.get("neginf" if s.sign < 0 else "posinf")
                if k is not None and k.op in ("c", "neg"):
                    v = k.a[0] if k.op == "c" else -k.a[0].a[0] if k.a[0].op == "c" and isinstance(k.a[0].a[0], (int, float)) else None
                    if isinstance(v, (int, float)) and abs(v) < 1e6:
                        return s.but(bad="of a sample that a model cannot encode is set to %s, so it can win" % v)
                return s
            if n in SAME:
                return self.of(args[0], d + 1)
            if n in INC:
                s = self.of(args[0], d + 1)
                return s and s.but(under=s.under or n in UNDERFLOW)
            if n in LOSSY:
                s = self.of(args[0], d + 1)
                return s and s.but(lossy=s.lossy or n.split(".")[-1])
            if n == "numpy.reciprocal":
                s = self.of(args[0], d + 1)
                return s and s.but(sign=-s.sign)
            if n in ("numpy.abs", "numpy.absolute", "builtins.abs"):
                s = self.of(args[0], d + 1)
                return s and (s.but(sign=1) if s.sign < 0 and not s.under else s)
            return None
        if t.op == "bin":
            op, a, b = t.a
            sa, sb = self.of(a, d + 1), self.of(b, d + 1)
            if (sa is None) == (sb is None):
                return None
            s, o = (sa, b) if sa is not None else (sb, a)
            k = o.a[0] if o.op == "c" and isinstance(o.a[0], (int, float)) and not isinstance(o.a[0], bool) else None
            if k is None:
                if per_model(o):
                    return s.but(bad="also depends on %s" % Y.show(o)[:50])
                if op not in "+-":
                    return None
            if op == "+":
                return s
            if op == "-":
                return s if sa is not None else s.but(sign=-s.sign)
            if op == "*":
                return scale(s, k)
            if op == "/":
                if sa is not None:
                    return scale(s, k)
                return scale(s.but(sign=-s.sign), k)
            if op == "//":
                return s.but(lossy=s.lossy or "floor division", sign=s.sign if sa is not None else -s.sign)
            if op == "**":
                if sb is not None and k > 0 and k != 1:
                    return s.but(sign=s.sign if k > 1 else -s.sign, under=True)
                if sa is not None and k in (1, 3, 0.5):
                    return s
                if sa is not None and k == 2:
                    return s if s.sign > 0 else s.but(sign=1)
                if sa is not None and k in (-1, -2):
                    return s.but(sign=-s.sign)
        if t.op in ("list", "comp"):
            s = self.rows(t, d + 1)
            if s is not None and s.axis == "list":
                return s.but(axis=0)
            return s
        m = self.matrix(t, d)
        return m

    def rows(self, t, d):
        """A list with one score vector per model."""
        if t.op == "comp" and len(t.a[2]) == 1 and t.a[0] in ("list", "gen", "map"):
            return self.row(t.a[1], t.a[2][0][0], t.a[2][0][1], t.a[2][0][2], d)
        if t.op == "list" and not t.a[0]:
            evs = [e for e in self.Sy.events if e.kind == "meth" and e.data[1] is t and e.data[2] in ("append", "insert")]
            if len(evs) != 1 or not evs[0].loops:
                return None
            e = evs[0]
            lid = e.loops[-1]
            it = self.Sy.loopinfo[lid].get("iter")
            s = self.row(e.data[3][-1], it, lid, [c for c, _ in e.conds if c.op != "iter" and self.inside(c, lid)], d)
            if s is not None and e.data[2] == "insert":
                return s.but(bad="is inserted in front of the scores of earlier models")
            return s
        if t.op == "call" and t.a[0] in ("builtins.list", "builtins.tuple") and t.a[1]:
            return self.rows(t.a[1][0], d + 1)
        return None

    def inside(self, c, lid):
        return any(x.op in ("elem", "val", "pos") and x.a[1] == lid for x in Y.walk(c))

    def row(self, v, it, lid, filters, d):
        order = iter_order(it, "models_")
        if order is None:
            return None
        s = self.of(v, d + 1)
        if s is None:
            return None
        s = s.but(axis="list")
        if order != "plain":
            return s.but(bad="is taken from the models in another order (%s)" % order)
        if filters:
            return s.but(bad="is missing for some models, so positions no longer match the classes")
        return s

    def matrix(self, t, d):
        """A preallocated array filled column by column or row by row."""
        if t.op != "call" or t.a[0] not in ("numpy.zeros", "numpy.empty", "numpy.full", "numpy.ones"):
            return None
        evs = [e for e in self.Sy.events if e.kind == "store" and e.data[0] is t]
        if len(evs) != 1:
            return None
        e = evs[0]
        k = e.data[1]
        ps = [(i, x) for i, x in enumerate(k.a[0] if k.op == "tup" else (k,)) if x.op == "pos"]
        if len(ps) != 1:
            return None
        i, p = ps[0]
        if iter_order(p.a[0], "models_") != "plain":
            return None
        s = self.of(e.data[2], d + 1)
        return s and s.but(axis=i)


def scale(s, k):
    if k is None or not isinstance(k, (int, float)):
        return None
    return s if k > 0 else s.but(sign=-s.sign) if k < 0 else s.but(sign=0)


def iter_order(it, attr):
    """'plain' | how the order differs | None, for an iteration over self.<attr> (possibly zipped or enumerated)."""
    if it is None:
        return None
    if it.op == "attr" and it.a[1] == attr:
        return "plain"
    if it.op == "call" and isinstance(it.a[0], str) and it.a[1]:
        n = it.a[0]
        if n in ("builtins.enumerate", "builtins.list", "builtins.tuple", "builtins.iter", "numpy.asarray", "numpy.array"):
            return iter_order(it.a[1][0], attr)
        if n == "builtins.zip":
            rs = [iter_order(x, attr) for x in it.a[1]]
            rs = [r for r in rs if r is not None]
            return rs[0] if rs else None
        if n in ("builtins.sorted", "numpy.sort", "numpy.unique"):
            r = iter_order(it.a[1][0], attr)
            return None if r is None else "sorted"
        if n in ("builtins.reversed", "numpy.flip", "numpy.flipud", "random.sample"):
            r = iter_order(it.a[1][0], attr)
            return None if r is None else n.split(".")[-1]
    if it.op == "idx" and it.a[1].op == "slice":
        r = iter_order(it.a[0], attr)
        if r is None:
            return None
        lo, hi, st = it.a[1].a
        if all(x is Y.NONE for x in (lo, hi, st)):
            return r
        return "slice"
    return None


def check_C16(prog, rep):
    rep.rule("score", "The score of a model is a strictly monotone function of the code length of that model alone (sign calculus over the term).")
    rep.rule("winner", "The position picked is the maximum of decreasing or the minimum of increasing scores along the axis of the models, and it "
             "indexes the class labels as they are.")
    rep.rule("order", "fit builds one model and one data set per class, unconditionally and in the order of the class labels, and fits each model "
             "with the data of its own class.")
    rep.rule("code", "The code length of a sample is summed up from logarithms of shares, not from the usages themselves.")
    rep.rule("zero", "A code length of zero is replaced by infinity in the series that get_code_length returns, on every path.")
    slim = prog.cls(S.ESTIMATORS["SLIM"])
    clf = prog.cls(S.ESTIMATORS["SlimClassifier"])
    for c, ms in ((slim, ("decision_function", "get_code_length")), (clf, ("fit", "predict"))):
        for m in ms:
            if c.find(m) is None:
                raise M.AnalysisBroken("%s has no %s" % (c.qual, m))
    dec = c16_decision(prog, rep, slim)
    c16_zero(prog, rep, slim)
    c16_code(prog, rep, slim)
    c16_predict(prog, rep, clf, dec)
    c16_fit(prog, rep, clf)


def c16_decision(prog, rep, cls):
    f = cls.find("decision_function")
    Sy = Y.Sym(prog, opaque=("get_code_length",))
    rets = Sy.run(f, self_cls=cls)
    sc = Scores(prog, Sy, None)
    out = None
    for e in [e for e in Sy.events if e.kind == "return" and not e.stack]:
        for x in P.leaves(e.data[0]):
            s = sc.of(x)
            if s is None:
                rep.undecided("score", e.where, Y.show(x)[:80])
                out = None
                continue
            out = s
            if s.sign >= 0:
                rep.violation("score", e.func.module.rel, f.qual, "decision", "the decision value does not fall when the code length grows", e.line)
            elif s.lossy:
                rep.violation("score", e.func.module.rel, f.qual, "decision", "different code lengths share a decision value (%s)" % s.lossy, e.line)
            elif s.bad:
                rep.violation("score", e.func.module.rel, f.qual, "decision", "the decision value %s" % s.bad, e.line)
            else:
                rep.ok("score", "%s: strictly decreasing in the code length" % e.where)
    return out


def is_inf(t):
    if t.op == "neg":
        return -is_inf(t.a[0]) if is_inf(t.a[0]) else 0
    if t.op == "pos_":
        return is_inf(t.a[0])
    if t.op == "lib" and t.a[0] in ("numpy.inf", "math.inf", "numpy.Inf", "numpy.infty", "numpy.PINF"):
        return 1
    if t.op == "c" and isinstance(t.a[0], float) and t.a[0] in (float("inf"), float("-inf")):
        return 1 if t.a[0] > 0 else -1
    if t.op == "call" and t.a[0] in ("builtins.float", "numpy.float32", "numpy.float64") and t.a[1]:
        if Y.is_const(t.a[1][0]) and str(t.a[1][0].a[0]).lower().lstrip("+") in ("inf", "infinity"):
            return 1
        return is_inf(t.a[1][0])
    return 0


def zero_key(k, of):
    """Does the mask select exactly the zeros: True, False (clearly not), None."""
    n = Y.cmp_norm(k) if k.op in ("cmp", "not") else None
    if n is None:
        if k.op == "call" and k.a[0] in ("numpy.isclose",) and len(k.a[1]) > 1 and k.a[1][1].op == "c" and k.a[1][1].a[0] == 0:
            return True
        if k.op == "meth" and k.a[1] == "eq" and k.a[2] and k.a[2][0].op == "c":
            return k.a[2][0].a[0] == 0
        if k.op == "meth" and k.a[1] in ("ne", "gt"):
            return False
        return None
    rel, lin = n
    vs = [x for x in lin if x is not None]
    if len(vs) != 1:
        return None
    c, k0 = lin[vs[0]], lin.get(None, 0)
    b = -k0 / c
    if rel == "==":
        return b == 0
    if rel == "!=":
        return False
    if rel == "<=" and c > 0:
        return True if b >= 0 and b < 1e-3 else False if b < 0 else None
    if rel == "<" and c > 0:
        return False if b <= 0 else True if b < 1e-2 else None
    return False


def c16_zero(prog, rep, cls):
    f = cls.find("get_code_length")
    Sy = Y.Sym(prog, opaque=("cover", "transform", "_log2"))
    Sy.run(f, self_cls=cls)
    rets = [e for e in Sy.events if e.kind == "return" and not e.stack]
    anyinf = False
    for e in Sy.events:
        for d in list(e.data) + [c for c, _ in e.conds]:
            if isinstance(d, (Y.T, tuple)):
                anyinf = anyinf or any(is_inf(x) for x in Y.walk(d))
    mod = f.module.rel
    for r in rets:
        for R in P.leaves(r.data[0]):
            sub = set(Y.walk(R))
            good, bad = None, None
            for e in Sy.events:
                if e.kind != "store" or e.i > r.i:
                    continue
                tgt = e.data[0]
                while tgt.op == "attr" and tgt.a[1] in ("loc", "iloc", "values"):
                    tgt = tgt.a[0]
                z = zero_key(e.data[1], tgt)
                if e.data[1].op == "slice" and all(x is Y.NONE for x in e.data[1].a) and is_inf(e.data[2]) and tgt in sub:
                    bad = bad or (e, "all code lengths together are replaced, not the zeros among them")
                    continue
                if z is None or not is_inf(e.data[2]) and not (e.data[2].op in ("c", "neg")):
                    continue
                if tgt not in sub:
                    if is_inf(e.data[2]):
                        bad = bad or (e, "the replacement of zero code lengths is made on an object that is not returned")
                    continue
                if z is False and is_inf(e.data[2]):
                    bad = (e, "the mask does not select the zero code lengths")
                elif z and is_inf(e.data[2]) < 0:
                    bad = (e, "a zero code length becomes minus infinity, the best of all")
                elif z and not is_inf(e.data[2]):
                    bad = (e, "a zero code length becomes the finite value %s" % Y.show(e.data[2])[:20])
                elif z:
                    extra = [c for c, p in e.conds if (c, p) not in r.conds]
                    if extra:
                        bad = (e, "zero code lengths are replaced only if %s" % Y.show(extra[0])[:50])
                    else:
                        good = e
            for x in sub:
                v = None
                if x.op == "meth" and x.a[1] == "replace" and len(x.a[2]) == 2 and x.a[2][0].op == "c" and x.a[2][0].a[0] == 0 and not isinstance(x.a[2][0].a[0], bool):
                    v = (True, x.a[2][1])
                elif x.op == "meth" and x.a[1] == "mask" and len(x.a[2]) == 2:
                    v = (zero_key(x.a[2][0], None), x.a[2][1])
                elif x.op == "meth" and x.a[1] == "where" and len(x.a[2]) == 2:
                    v = (zero_key(Y.neg(x.a[2][0]), None), x.a[2][1])
                elif x.op == "call" and x.a[0] == "numpy.where" and len(x.a[1]) == 3:
                    v = (zero_key(x.a[1][0], None), x.a[1][1])
                    if not is_inf(v[1]):
                        v = (zero_key(Y.neg(x.a[1][0]), None), x.a[1][2])
                if v is not None and is_inf(v[1]):
                    if v[0] and is_inf(v[1]) > 0:
                        good = r
                    elif v[0] is False or is_inf(v[1]) < 0:
                        bad = (r, "the zero code lengths are not the ones replaced by infinity")
            if bad and not good:
                rep.violation("zero", mod, bad[0].func.qual, "zero code length", bad[1], bad[0].line)
            elif good:
                rep.ok("zero", good.where)
            elif not anyinf:
                rep.violation("zero", mod, f.qual, "zero code length", "a transaction that no pattern covers keeps the code length 0 and wins", r.line)
            else:
                rep.undecided("zero", r.where, "how zero code lengths are treated")


def is_log(x):
    return x.op == "rcall" and "log" in x.a[0].name or x.op == "call" and isinstance(x.a[0], str) and "log" in x.a[0].split(".")[-1]


def c16_code(prog, rep, cls):
    """What is summed up is a code length: minus the logarithm of a share, not the usage it is computed from."""
    f = cls.find("get_code_length")
    Sy = Y.Sym(prog, opaque=("cover", "transform", "_log2"))
    Sy.run(f, self_cls=cls)
    for r in [e for e in Sy.events if e.kind == "return" and not e.stack]:
        for R in P.leaves(r.data[0]):
            vals, raw, cols = [], [], []
            for x in Y.walk(R):
                if is_log(x):
                    vals.append(x)
                if x.op == "idx" and x.a[1].op == "c" and isinstance(x.a[1].a[0], str) and any(
                        y.op == "meth" and y.a[1] in ("iterrows", "itertuples") for y in Y.walk(x.a[0])):
                    col = x.a[1]
                    tabs = [y.a[0] for y in Y.walk(x.a[0]) if y.op == "meth" and y.a[1] in ("iterrows", "itertuples")]
                    st = [e for e in Sy.events if e.kind == "store" and e.data[1] is col and e.data[0] in tabs]
                    if st and any(is_log(y) for y in Y.walk(st[-1].data[2])):
                        vals.append(st[-1].data[2])
                        cols.append(st[-1].data[2])
                    elif st or col.a[0] == "usage":
                        raw.append(col.a[0])
            for x in list(Y.walk(R)) + [y for v in cols for y in Y.walk(v)]:
                how = coarser(x)
                if how and vals:
                    rep.violation("code", f.module.rel, f.qual, "coarse", "different code lengths become equal (%s)" % how, r.line)
                    break
            for v in cols:
                if is_log(v):
                    arg = v.a[1][0][1] if v.op == "rcall" else v.a[1][0]
                    if arg.op == "bin" and arg.a[0] == "/" and any(y.op == "meth" and y.a[1] == "sum" for y in Y.walk(arg.a[2])):
                        rep.violation("code", f.module.rel, f.qual, "sign", "the code lengths are negative", r.line)
            if vals:
                rep.ok("code", "%s: minus the logarithm of a share" % r.where)
            elif raw:
                rep.violation("code", f.module.rel, f.qual, "column %s" % raw[0], "the code length is summed up from column %s, which is no "
                              "code length" % raw[0], r.line)
            else:
                rep.undecided("code", r.where, "what is summed up")


def coarser(x):
    """A step that maps different code lengths to the same number."""
    if x.op == "meth" and x.a[1] in ("round", "clip", "floordiv") or x.op == "call" and x.a[0] in LOSSY:
        recv = x.a[0] if x.op == "meth" else x.a[1][0] if x.a[1] else None
        args = x.a[2] if x.op == "meth" else x.a[1][1:]
        kw = dict(x.a[3] if x.op == "meth" else x.a[2])
        k = kw.get("decimals", kw.get("ndigits", args[0] if args else None))
        fine = "round" in str(x.a[1] if x.op == "meth" else x.a[0]) and k is not None and not (k.op == "c" and isinstance(k.a[0], int) and k.a[0] <= 2)
        if recv is not None and not fine and any(is_log(y) or y.op == "meth" and y.a[1] == "sum" for y in Y.walk(recv)):
            return str(x.a[1] if x.op == "meth" else x.a[0]).split(".")[-1]
    if x.op == "meth" and x.a[1] == "astype" and x.a[2]:
        a = x.a[2][0]
        name = str(a.a[0]) if a.op == "c" else (sorted(names_of(a)) or [""])[0].split(".")[-1]
        if name.startswith(("int", "uint", "float16", "bool")) and any(y.op == "meth" and y.a[1] == "sum" for y in Y.walk(x.a[0])):
            return "cast to %s" % name
    return None


def c16_predict(prog, rep, cls, dec):
    f = cls.find("predict")
    self_t = Y.mk("self", cls.qual)
    Sy = Y.Sym(prog, opaque=("get_code_length", "decision_function"))
    Sy.run(f, self_cls=cls)
    sc = Scores(prog, Sy, self_t, dec)
    mod = f.module.rel
    n = 0
    for e in [e for e in Sy.events if e.kind == "return" and not e.stack]:
        picks = []
        for x in Y.walk(e.data[0]):
            if x.op == "idx":
                picks.append((x.a[0], x.a[1]))
            elif x.op == "meth" and x.a[1] == "take" and x.a[2]:
                picks.append((x.a[0], x.a[2][0]))
            elif x.op == "call" and x.a[0] == "numpy.take" and len(x.a[1]) > 1:
                picks.append((x.a[1][0], x.a[1][1]))
        for base, ix in picks:
            lab = iter_order(base, "classes_")
            if lab is None:
                continue
            shift = Y.linear(ix)
            ks = [k for k in shift if k is not None]
            if len(ks) == 1 and (shift.get(None) or shift[ks[0]] != 1):
                rep.violation("winner", mod, f.qual, "index", "the label is not looked up at the position of the winner: %s" % Y.show(ix)[:50], e.line)
                continue
            while ix.op == "elem":
                ix = ix.a[0]
            if lab != "plain" and not (lab == "sorted" and ascending(prog, cls)):
                rep.violation("winner", mod, f.qual, "labels", "the label is looked up in a reordered list of classes (%s)" % lab, e.line)
                continue
            w = None
            if ix.op == "meth" and ix.a[1] in ("argmax", "argmin", "nanargmax", "nanargmin"):
                ax = dict(ix.a[3]).get("axis", ix.a[2][0] if ix.a[2] else None)
                w = (ix.a[1][-3:], ix.a[0], ax)
            elif ix.op == "call" and ix.a[0] in ("numpy.argmax", "numpy.argmin", "numpy.nanargmin", "numpy.nanargmax") and ix.a[1]:
                ax = dict(ix.a[2]).get("axis", ix.a[1][1] if len(ix.a[1]) > 1 else None)
                w = (ix.a[0][-3:], ix.a[1][0], ax)
            if w is None:
                rep.undecided("winner", e.where, Y.show(ix)[:80])
                continue
            n += 1
            s = sc.of(w[1])
            if s is None:
                rep.undecided("score", e.where, Y.show(w[1])[:80])
                continue
            ax = w[2].a[0] if w[2] is not None and w[2].op == "c" else None
            ax = 1 if ax == -1 else ax
            if s.each is not None and not per_model(s.each):
                rep.violation("score", mod, f.qual, "model", "the score is not the one of the model at that position", e.line)
            elif s.bad:
                rep.violation("score", mod, f.qual, "score", "the score %s" % s.bad, e.line)
            elif s.lossy:
                rep.violation("score", mod, f.qual, "score", "different code lengths share a score (%s)" % s.lossy, e.line)
            elif s.under:
                rep.violation("score", mod, f.qual, "score", "the scores are exponentials of code lengths, which are all 0 for long codes", e.line)
            elif s.sign == 0:
                rep.violation("score", mod, f.qual, "score", "the score does not depend on the code length", e.line)
            else:
                rep.ok("score", "%s: score strictly %s in the code length" % (e.where, "decreasing" if s.sign < 0 else "increasing"))
            if s.sign and (w[0] == "max") != (s.sign < 0):
                rep.violation("winner", mod, f.qual, "winner", "the class with the longest code wins", e.line)
            elif ax is None or s.axis is None:
                rep.undecided("winner", e.where, "axis")
            elif ax != s.axis:
                rep.violation("winner", mod, f.qual, "axis", "the winner is picked among the samples instead of the models", e.line)
            else:
                rep.ok("winner", "%s: %s along the models" % (e.where, w[0]))
    if not n:
        rep.undecided("winner", f.where, "no winner found")


def ascending(prog, cls):
    """Are the class labels that fit stores in ascending order?"""
    Sy = Y.Sym(prog, inline=False)
    Sy.run(cls.find("fit"), self_cls=cls)
    vs = [e.data[2] for e in Sy.events if e.kind == "setattr" and e.data[1] == "classes_"]

    def asc(t):
        while t.op == "call" and t.a[0] in ("numpy.array", "numpy.asarray", "builtins.list") and t.a[1]:
            t = t.a[1][0]
        return t.op == "call" and t.a[0] in ("numpy.unique", "numpy.sort", "builtins.sorted") and not t.a[2]
    return bool(vs) and all(asc(v) for v in vs)


def seq_build(Sy, v, upto=None):
    """How a list is built: [(event or None, element term, iterable, lid, conditions)], or None."""
    if v.op == "comp" and len(v.a[2]) == 1:
        g = v.a[2][0]
        return [(None, v.a[1], g[0], g[1], list(g[2]))]
    if v.op == "list" and not v.a[0]:
        out = []
        for e in Sy.events:
            if e.kind == "meth" and e.data[1] is v and e.data[2] in ("append", "insert"):
                if not e.loops:
                    return None
                lid = e.loops[-1]
                out.append((e, e.data[3][-1], Sy.loopinfo[lid].get("iter"), lid,
                            [c for c, p in e.conds if c.op != "iter" and any(x.op in ("elem", "val", "pos") and x.a[1] == lid for x in Y.walk(c))]))
        return out or None
    return None


def c16_fit(prog, rep, cls):
    f = cls.find("fit")
    self_t = Y.mk("self", cls.qual)
    Sy = Y.Sym(prog, opaque=("prefit", "get_code_length"))
    Sy.run(f, self_cls=cls)
    mod = f.module.rel
    sets = {}
    for e in Sy.events:
        if e.kind == "setattr" and e.data[0] is self_t:
            sets.setdefault(e.data[1], []).append(e)
    if "classes_" not in sets or "models_" not in sets:
        rep.undecided("order", f.where, "classes_ or models_ is not set in fit")
        return
    classes = sets["classes_"][-1].data[2]
    first = sets["classes_"][0].data[2]
    if classes is not first:
        used = {i for e in sets["models_"] for b in (seq_build(Sy, e.data[2]) or []) for i in [b[2]]}
        if classes not in used and first in used:
            rep.violation("order", mod, f.qual, "classes_", "the class labels are replaced after the models were built in the order of the earlier ones",
                          sets["classes_"][-1].line)
            return

    yt = Y.mk("p", f.params()[2][0]) if len(f.params()) > 2 else None

    def labels(t, d=0):
        """In which order the distinct labels come in t."""
        if d > 8:
            return None
        if t.op == "meth" and t.a[1] in ("tolist", "copy", "to_numpy", "keys", "astype"):
            return labels(t.a[0], d + 1)
        if t.op == "meth" and t.a[1] == "unique" and t.a[0] is yt:
            return "appearance"
        if t.op == "comp" and len(t.a[2]) == 1 and not t.a[2][0][2] and t.a[0] != "set":
            return labels(t.a[2][0][0], d + 1)
        if t.op == "call" and isinstance(t.a[0], str) and t.a[1]:
            n, x = t.a[0], t.a[1][0]
            of_y = any(y is yt for y in Y.walk(x))
            if n == "numpy.unique" and of_y and not t.a[2]:
                return "sorted"
            if n == "builtins.sorted" and of_y:
                return "sorted" if not t.a[2] else "another sorting"
            if n in ("builtins.dict.fromkeys", "dict.fromkeys", "collections.OrderedDict.fromkeys", "pandas.unique", "collections.Counter") and of_y:
                return "appearance"
            if n in ("builtins.set", "builtins.frozenset") and of_y:
                return "no fixed order"
            if n in ("builtins.list", "builtins.tuple", "numpy.array", "numpy.asarray", "builtins.iter", "builtins.enumerate"):
                return labels(x, d + 1)
        return None

    def order(it):
        if it is classes:
            return "plain"
        a, b = labels(it), labels(classes)
        if a and b and (a != b or a == "no fixed order"):
            return a
        if a and b:
            return "plain"
        if it.op == "attr" and it.a[0] is self_t and it.a[1] == "classes_":
            return "plain"
        if it.op == "call" and isinstance(it.a[0], str) and it.a[1]:
            if it.a[0] in ("builtins.enumerate", "builtins.list", "builtins.tuple", "builtins.iter"):
                return order(it.a[1][0])
            if it.a[0] == "builtins.zip":
                rs = [order(x) for x in it.a[1]]
                rs = [r for r in rs if r]
                return rs[0] if rs else None
            if it.a[0] in ("builtins.reversed", "numpy.flip", "builtins.sorted"):
                r = order(it.a[1][0])
                return r and (r if it.a[0] == "builtins.sorted" and not it.a[2] and classes.op == "call" and classes.a[0] == "numpy.unique" else it.a[0].split(".")[-1])
        if it.op == "idx" and it.a[1].op == "slice" and order(it.a[0]):
            return "slice" if any(x is not Y.NONE for x in it.a[1].a) else "plain"
        return None
    lists = {}
    for a in ("models_", "classes_X_"):
        if a not in sets:
            continue
        e0 = sets[a][-1]
        v = e0.data[2]
        while v.op == "call" and v.a[0] in ("builtins.list", "builtins.sorted", "builtins.reversed", "builtins.tuple") and v.a[1]:
            if v.a[0] in ("builtins.sorted", "builtins.reversed"):
                rep.violation("order", mod, f.qual, a, "%s is rearranged (%s)" % (a, v.a[0].split(".")[-1]), e0.line)
            v = v.a[1][0]
        b = seq_build(Sy, v)
        if b is None or len(b) != 1:
            rep.undecided("order", e0.where, "how %s is filled" % a)
            continue
        ev, el, it, lid, conds = b[0]
        o = order(it) if it is not None else None
        line = ev.line if ev is not None else e0.line
        if o is None:
            rep.undecided("order", e0.where, "%s is not filled in a loop over the classes" % a)
            continue
        lists[v] = (a, el, lid)
        if o != "plain":
            rep.violation("order", mod, f.qual, a, "%s is filled in another order than the class labels (%s)" % (a, o), line)
        elif conds:
            rep.violation("order", mod, f.qual, a, "%s has no entry for some classes, so positions no longer match the labels" % a, line)
        elif ev is not None and ev.data[2] == "insert":
            rep.violation("order", mod, f.qual, a, "%s is filled from the front" % a, line)
        else:
            rep.ok("order", "%s: one entry of %s per class" % (e0.where, a))
        for e in Sy.events:
            if e.kind == "meth" and e.data[1] is v and e.data[2] in ("sort", "reverse", "pop", "remove", "insert") and e is not ev:
                rep.violation("order", mod, f.qual, a, "%s is rearranged (%s)" % (a, e.data[2]), e.line)
        if a == "classes_X_" or el.op == "comp":
            own_class(rep, Sy, mod, f, el, lid, classes, line)
    nfit = 0
    for e in Sy.events:
        if not (e.kind == "meth" and e.data[2] == "fit" or e.kind == "rcall" and e.data[1].name == "fit" and e.data[1] is not f):
            continue
        recv = e.data[1] if e.kind == "meth" else e.data[2].get("self")
        arg = (e.data[3][0] if e.data[3] else None) if e.kind == "meth" else next((v for k, v in e.data[2].items() if k != "self"), None)
        if recv is None or arg is None:
            continue
        nfit += 1
        its = [c.a[1] for c, p in e.conds if c.op == "iter"]
        if any(x.op == "call" and x.a[0] in ("builtins.reversed", "builtins.sorted", "numpy.flip") and any(y in lists for y in Y.walk(x)) or
               x.op == "idx" and x.a[1].op == "slice" and x.a[0] in lists and x.a[1].a[2] is not Y.NONE for it in its for x in Y.walk(it)):
            rep.violation("order", mod, f.qual, "fit", "models and data sets are paired in different orders", e.line)
            continue
        extra = [c for c, p in e.conds if c.op != "iter" and any(x.op in ("elem", "val", "pos") for x in Y.walk(c))]
        if recv.op == "elem" and arg.op == "elem" and recv.a[0] in lists and arg.a[0] in lists:
            if recv.a[1] != arg.a[1]:
                rep.violation("order", mod, f.qual, "fit", "models and data sets are taken from different loops", e.line)
            elif lists[recv.a[0]][0] != "models_" or lists[arg.a[0]][0] != "classes_X_":
                rep.violation("order", mod, f.qual, "fit", "%s is fitted with %s" % (lists[recv.a[0]][0], lists[arg.a[0]][0]), e.line)
            else:
                rep.ok("order", "%s: each model is fitted with the data of its class" % e.where)
            continue
        if arg.op == "comp":
            own_class(rep, Sy, mod, f, arg, e.loops[-1] if e.loops else None, classes, e.line)
            continue
        rep.undecided("order", e.where, "how a model is paired with its data")
    if not nfit:
        rep.undecided("order", f.where, "no fit of a model")


def own_class(rep, Sy, mod, f, el, lid, classes, line):
    """The data of a class: the samples whose label equals the class of this step."""
    if el.op != "comp" or len(el.a[2]) != 1:
        rep.undecided("order", f.where, "how the data of a class is selected: %s" % Y.show(el)[:60])
        return
    it, l2, flt = el.a[2][0]
    ok = None
    for flt1 in flt:
        for c, p in Y.split_cond(flt1, True):
            if c.op != "cmp":
                continue
            op, a, b = c.a
            for lab, k in ((a, b), (b, a)):
                if k.op == "elem" and k.a[1] == lid and lab.op in ("elem", "idx"):
                    if lab.op == "elem" and lab.a[1] != l2:
                        ok = "the label compared is not the one of the sample"
                    elif (op == "==") == p and op in ("==", "!="):
                        ok = True if ok is None else ok
                    elif op in ("==", "!="):
                        ok = "a class gets the samples of the other classes"
                    elif op in ("<", "<=", ">", ">="):
                        ok = "a class gets the samples of several classes"
    if ok is True:
        rep.ok("order", "%s: the data of a class are the samples with its label" % f.where)
    elif ok is None:
        if not flt:
            rep.violation("order", mod, f.qual, "data", "every class gets all samples", line)
        else:
            rep.undecided("order", f.where, "how the data of a class is selected")
    else:
        rep.violation("order", mod, f.qual, "data", ok, line)


# ------------------------------------------------------------------------------------------ C24
OPP = {"add_row": "remove_row", "remove_row": "add_row"}
DL = "compute_total_description_length"


def check_C24(prog, rep):
    rep.rule("trial", "For every trial edit of the code table, each combination of the conditions that follow either keeps it (the new description "
             "length is stored), which requires new < best in that combination, or undoes it by the opposite edit of the same row.")
    rep.rule("fresh", "A description length that is stored or compared was computed after the last edit of the code table and after a cover of it.")
    rep.rule("best", "New description lengths are compared with the stored one, which description_length() reports.")
    rep.rule("total", "The total description length is the code table's plus the rewritten graph's.")
    rep.rule("rows", "add_row adds the row it is given and removes none, remove_row removes that row and no other, on every path; covering "
             "and computing lengths leaves the rows as they are.")
    cls = prog.cls(S.ESTIMATORS["GraphMDL"])
    for m in ("fit", "description_length"):
        if cls.find(m) is None:
            raise M.AnalysisBroken("GraphMDL has no %s" % m)
    ct = prog.cls("skmine.graph.graphmdl.code_table.CodeTable")
    if ct is None or any(ct.find(m) is None for m in ("add_row", "remove_row", "cover", DL)):
        raise M.AnalysisBroken("the graph code table has no add_row, remove_row, cover or %s" % DL)
    self_t = Y.mk("self", cls.qual)
    f = cls.find("description_length")
    Sd = Y.Sym(prog)
    attrs = set()
    for e in (e for e in (Sd.run(f, self_cls=cls), Sd.events)[1] if e.kind == "return" and not e.stack):
        for x in P.leaves(e.data[0]):
            if x.op == "attr" and x.a[0] is self_t:
                attrs.add(x.a[1])
            elif x.op in ("call", "bin") and any(y.op == "attr" and y.a[0] is self_t for y in Y.walk(x)) and not (
                    x.op == "call" and x.a[0] in ("builtins.float", "numpy.float64")):
                rep.violation("best", f.module.rel, f.qual, "reported length", "what is reported is %s, not the length of the code table kept"
                              % Y.show(x)[:60], e.line)
                return
            else:
                rep.undecided("best", e.where, "description_length returns %s" % Y.show(x)[:50])
    if len(attrs) != 1:
        rep.undecided("best", f.where, "the stored description length is not found")
        return
    best = attrs.pop()
    total(prog, rep, ct)
    table_rows(prog, rep, ct)
    Sy = Y.Sym(prog, opaque=tuple(n for n in ct.methods if not n.startswith("__")) +
               ("generate_candidates", "_order_candidates", "_order_pruning_rows", "final_pattern", "display_graph", "patterns"), havoc=True)
    Sy.keep.add((self_t, best))          # the code table has an attribute of the same name
    Sy.run(cls.find("fit"), self_cls=cls)
    C24(rep, Sy, cls, ct, self_t, best).judge()


def total(prog, rep, ct):
    f = ct.find(DL)
    names = ("compute_ct_description_length", "compute_rewritten_graph_description")
    if any(ct.find(n) is None for n in names):
        rep.undecided("total", f.where, "the two parts are not found")
        return
    Sy = Y.Sym(prog, opaque=names)
    Sy.run(f, self_cls=ct)
    seen = [e.data[1].name for e in Sy.events if e.kind == "rcall"]
    for n in names:
        cs = [e for e in Sy.events if e.kind == "rcall" and e.data[1].name == n]
        if len(cs) == 1 and any(c.op != "iter" for c, _ in cs[0].conds):
            rep.violation("total", f.module.rel, f.qual, n, "this part of the description length is recomputed only if %s" % ", ".join(
                ("%s" if p else "not %s") % Y.show(c)[:50] for c, p in cs[0].conds), cs[0].line)
    for e in [e for e in Sy.events if e.kind == "return" and not e.stack]:
        for x in P.leaves(e.data[0]):
            lin = Y.linear(x)
            data = [k for k in lin if k is not None and k.op == "rcall" and k.a[0].name == names[1]]
            model = [k for k in lin if k is not None and (k.op == "rcall" and k.a[0].name == names[0] or k.op in ("attr", "hv", "unk"))]
            if names[0] not in seen:
                rep.violation("total", f.module.rel, f.qual, "model part", "the description length of the code table is not recomputed", e.line)
            elif names[1] not in seen:
                rep.violation("total", f.module.rel, f.qual, "data part", "the description length of the rewritten graph is not part of the total", e.line)
            elif len(data) == 1 and lin[data[0]] == 1 and len(lin) == 1 or len(model) == 1 and not data and len(lin) == 1:
                rep.violation("total", f.module.rel, f.qual, "total", "the total is only one of its two parts", e.line)
            elif len(data) == 1 and len(model) == 1 and len(lin) == 2:
                if lin[data[0]] == 1 and lin[model[0]] == 1:
                    rep.ok("total", e.where)
                else:
                    rep.violation("total", f.module.rel, f.qual, "total", "the two parts are not added", e.line)
            else:
                rep.undecided("total", e.where, Y.show(x)[:80])


ADDS, DROPS = ("append", "insert", "add", "extend", "update"), ("remove", "pop", "discard", "clear")


def table_rows(prog, rep, ct):
    f = ct.find("rows")
    me = Y.mk("self", ct.qual)
    S0 = Y.Sym(prog)
    attrs = set()
    if f is not None:
        S0.run(f, self_cls=ct)
        for e in S0.events:
            if e.kind == "return" and not e.stack:
                attrs |= {x.a[1] for x in Y.walk(e.data[0]) if x.op == "attr" and x.a[0] is me}
    if len(attrs) != 1:
        rep.undecided("rows", ct.qual, "the attribute that holds the rows is not found")
        return
    at = attrs.pop()
    rows = Y.mk("attr", me, at)

    def is_rows(t):
        return any(x is rows or x.op in ("hv", "unk") and at in [str(y) for y in x.a] for x in Y.walk(t))

    def the_rows(t):
        return t is rows or t.op == "attr" and t.a[0] is me and t.a[1] == at
    for name in ("add_row", "remove_row", "cover", DL):
        f = ct.find(name)
        par = [q[0] for q in f.params() if q[0] != "self"]
        row = Y.mk("p", par[0]) if par else None
        own = {g for g in ct.methods.values()}
        Sy = Y.Sym(prog, only=lambda g: g in own)
        Sy.run(f, self_cls=ct)
        good, n0 = [], len(rep.violations) if hasattr(rep, "violations") else 0
        bad = False
        for e in Sy.events:
            d = e.data
            what = None
            if e.kind == "meth" and the_rows(d[1]) and d[2] in ADDS + DROPS:
                arg = [a for a in d[3]]
                idx = [a for a in arg if a.op == "meth" and a.a[1] == "index" and the_rows(a.a[0]) and row in a.a[2]]
                if name == "remove_row" and d[2] in ("remove", "discard") and row in arg or name == "remove_row" and d[2] == "pop" and idx \
                        or name == "add_row" and d[2] in ADDS and (row in arg or any(row in Y.walk(a) for a in arg)):
                    good.append(e)
                    continue
                what = d[2]
            elif e.kind == "del" and the_rows(d[0]):
                if name == "remove_row" and row is not None and any(x is row for x in Y.walk(d[1])):
                    good.append(e)
                    continue
                what = "del"
            elif e.kind == "store" and the_rows(d[0]):
                what = "assignment of a part"
                if name in ("add_row", "remove_row") and row in list(Y.walk(d[2])):
                    good.append(e)
                    continue
                if d[1].op == "slice":
                    if d[2].op == "comp" and d[2].a[2][0][2]:
                        pass
                    else:
                        continue
            elif e.kind == "setattr" and d[0] is me and d[1] == at:
                v = d[2]
                has = row is not None and any(x is row for x in Y.walk(v))
                filt = any(x.op == "comp" and any(g[2] for g in x.a[2]) for x in Y.walk(v))
                if name == "add_row" and has and not filt or name == "remove_row" and has and filt:
                    good.append(e)
                    continue
                if not filt and not any(x.op == "idx" and x.a[1].op == "slice" for x in Y.walk(v)):
                    continue
                what = "assignment"
            if what is None:
                continue
            bad = True
            rep.violation("rows", e.func.module.rel, e.func.qual, what, "%s changes which rows the code table has (%s)" % (
                name, K.short(e.node, 60)), e.line)
        if name in ("add_row", "remove_row"):
            if not good and not bad:
                rep.undecided("rows", f.where, "where the row is %s is not found" % ("added" if name == "add_row" else "removed"))
                continue
            for e in good[:1]:
                cs = [(c, p) for c, p in e.conds if c.op != "iter" and not (
                    c.op == "cmp" and c.a[0] in ("in", "not in") and row in (c.a[1], c.a[2]))]
                # under both outcomes of a condition
                rest = [c for c, p in cs if not any((c, not p) in g.conds for g in good)]
                if rest:
                    rep.violation("rows", e.func.module.rel, e.func.qual, "condition", "%s does so only if %s" % (name, Y.show(rest[0])[:60]), e.line)
                    bad = True
        if not bad:
            rep.ok("rows", name)


class C24:
    def __init__(self, rep, Sy, cls, ct, self_t, best):
        self.rep, self.Sy, self.cls, self.ct, self.self_t, self.best = rep, Sy, cls, ct, self_t, best
        self.ev = [e for e in Sy.events]
        self.edits = [e for e in self.ev if e.kind == "rcall" and e.data[1].cls is ct and e.data[1].name in OPP]
        self.covers = [e for e in self.ev if e.kind == "rcall" and e.data[1].cls is ct and e.data[1].name == "cover"]
        self.dls = {e.data[0]: e for e in self.ev if e.kind == "rcall" and e.data[1].cls is ct and e.data[1].name == DL}
        self.sets = [e for e in self.ev if e.kind == "setattr" and e.data[0] is self_t and e.data[1] == best]
        self.tables = {e.data[2].get("self") for e in self.edits}

    def row(self, e):
        return next((v for k, v in e.data[2].items() if k != "self"), None)

    def judge(self):
        rep, f = self.rep, self.cls.find("fit")
        if not self.edits or not self.sets:
            rep.undecided("trial", f.where, "no edit of the code table or no stored description length")
            return
        backs = {}
        for e in self.edits:
            for t in self.edits:
                if t.i < e.i and t.data[1].name == OPP[e.data[1].name] and self.row(t) is self.row(e) and t.loops == e.loops and \
                        e.conds[:len(t.conds)] == t.conds and t not in backs:
                    backs[e] = t
        trials = [e for e in self.edits if e not in backs]
        for t in trials:
            self.trial(t, [b for b, o in backs.items() if o is t])
        for s in self.sets:
            self.stored(s)

    @staticmethod
    def compatible(a, b):
        da = dict(a.conds)
        return all(da.get(c, p) == p for c, p in b.conds if c.op != "iter")

    def between(self, a, b, evs):
        """Events of `evs` after a and before b that lie on a common path with b."""
        return [e for e in evs if a < e.i < b.i and self.compatible(e, b)]

    def epoch(self, d, at, what):
        """A description length computed by event d is current at event `at`: no edit in between, and a cover after the last edit."""
        rep = self.rep
        late = self.between(d.i, at, self.edits)
        late = [x for x in late if x.loops == at.loops[:len(x.loops)]]
        if late:
            rep.violation("fresh", at.func.module.rel, at.func.qual, what,
                          "%s was computed before the code table was edited (%s, line %d)" % (what, late[-1].data[1].name, late[-1].line), at.line)
            return False
        prev = [x for x in self.edits if x.i < d.i and self.compatible(x, d)]
        if prev:
            last = prev[-1]
            cov = [c for c in self.covers if last.i < c.i < d.i and self.compatible(c, d) and all(x in d.conds for x in c.conds)]
            if not cov:
                rep.violation("fresh", d.func.module.rel, d.func.qual, what, "the code table is not covered between the edit in line %d and the "
                              "computation of the description length" % last.line, d.line)
                return False
        return True

    def stored(self, s):
        rep = self.rep
        for x in P.leaves(s.data[2]):
            d = self.dls.get(x)
            if d is None:
                if x.op == "c" or x.op == "attr" and x.a[1] != self.best:
                    rep.violation("fresh", s.func.module.rel, s.func.qual, "stored length",
                                  "what is reported as the description length is %s" % Y.show(x)[:50], s.line)
                elif any(y in self.dls for y in Y.walk(x)) and x.op in ("bin", "call", "neg"):
                    if x.op == "call" and x.a[0] in ("builtins.float", "numpy.float64"):
                        rep.ok("fresh", s.where)
                    elif x.op == "bin" or x.op == "call" and x.a[0] in ("builtins.min", "builtins.max", "builtins.round", "builtins.int"):
                        rep.violation("fresh", s.func.module.rel, s.func.qual, "stored length",
                                      "what is reported as the description length is %s" % Y.show(x)[:50], s.line)
                    else:
                        rep.undecided("fresh", s.where, Y.show(x)[:60])
                else:
                    rep.undecided("fresh", s.where, Y.show(x)[:60])
                continue
            if self.epoch(d, s, "the description length stored"):
                rep.ok("fresh", s.where)

    # -- trials
    def trial(self, t, backs):
        rep = self.rep
        n = len(t.conds)
        later = [e for e in self.ev if e.i > t.i and e.loops == t.loops and e.conds[:n] == t.conds]
        accepts = []
        for s in self.sets:
            if s in later:
                # only if the trial is still open on every path to here
                if not any(b.i < s.i and all(c in s.conds for c in b.conds) for b in backs):
                    accepts.append(s)
        other = [e for e in later if e.kind == "setattr" and e.data[0] is self.self_t and e.data[2] in self.tables or
                 e.kind == "setattr" and e.data[0] is self.self_t and e.data[1] == "_code_table" or
                 e.kind == "meth" and e.data[2] in ("remove", "append", "pop", "insert", "clear") and any(
                     x in self.tables or x.op == "rcall" and x.a[0].cls is self.ct for x in Y.walk(e.data[1]))]
        what = "%s(%s)" % (t.data[1].name, K.short(t.node.args[0], 20) if getattr(t.node, "args", None) else "")
        if other:
            rep.undecided("trial", t.where, "the code table is also changed at line %d" % other[0].line)
            return
        if not accepts and not backs:
            rep.violation("trial", t.func.module.rel, t.func.qual, what, "the edit of the code table is neither judged nor undone", t.line)
            return
        # the comparisons that decide: new length against the stored one
        conds = []
        for e in accepts + backs:
            for c, p in e.conds[n:]:
                if c not in conds and c.op != "iter":
                    conds.append(c)
        olds = {s.heap for s in accepts if isinstance(s.heap, Y.T)}
        atoms, sign = [], set()
        for c in conds:
            self.leaves(c, atoms)
        forms = {}
        for a in atoms:
            nrm = Y.cmp_norm(a, True)
            if nrm is None or nrm[0] not in ("<", "<="):
                continue
            lin = nrm[1]
            new = [k for k in lin if k in self.dls]
            if not new:
                continue
            cur = [k for k in new if self.dls[k].i > t.i]
            rest = [k for k in lin if k is not None and k not in cur]
            if not cur:
                rep.violation("fresh", t.func.module.rel, t.func.qual, "comparison", "the trial is judged by a description length computed before it", t.line)
                return
            if len(cur) == 1 and len(rest) > 1:
                old = [k for k in rest if k in olds]
                loose = [k for k in rest if k not in olds and lin[k] * lin[cur[0]] < 0 and k.op in ("call", "rcall", "meth", "attr", "prod", "idx")]
                if len(old) == 1 and lin[cur[0]] * lin[old[0]] < 0 and loose:
                    rep.violation("best", t.func.module.rel, t.func.qual, "comparison", "the comparison of the description lengths is also given %s: the "
                                  "edit can be kept although the length does not drop" % Y.show(loose[0])[:50], t.line)
                    return
            if len(cur) != 1 or len(rest) != 1:
                rep.undecided("trial", t.where, "comparison %s" % Y.show(a)[:60])
                return
            o = rest[0]
            if o not in olds and olds:
                if o.op == "rcall" or o.op == "c" or o.op == "attr" and o.a[1] != self.best or \
                        o.op == "call" and o.a[0] == "builtins.max" and len(o.a[1]) > 1 and lin[o] < 0 and any(x not in olds for x in o.a[1]):
                    rep.violation("best", t.func.module.rel, t.func.qual, "comparison",
                                  "the new description length is compared with %s, not with the one of the code table kept so far" % Y.show(o)[:50], t.line)
                    return
                rep.undecided("best", t.where, "compared with %s" % Y.show(o)[:50])
                return
            if lin[cur[0]] * lin[o] >= 0 or abs(lin[cur[0]]) != abs(lin[o]):
                rep.violation("best", t.func.module.rel, t.func.qual, "comparison", "the lengths are scaled differently: %s" % Y.show(a)[:60], t.line)
                return
            if not self.epoch(self.dls[cur[0]], (accepts + backs)[0] if (accepts + backs)[0].i > self.dls[cur[0]].i else self.dls[cur[0]], "the length compared"):
                return
            forms[a] = (nrm[0], 1 if lin[cur[0]] > 0 else -1, lin.get(None, 0) / abs(lin[o]))
            sign.add(cur[0])
        if not forms:
            if any(x in self.dls for c in conds for x in Y.walk(c)):
                rep.undecided("trial", t.where, "the comparison is not linear")
            elif accepts:
                s = accepts[0]
                rep.violation("trial", s.func.module.rel, s.func.qual, what, "the edit is kept without comparing description lengths", s.line)
            else:
                rep.undecided("trial", t.where, "no comparison")
            return
        # difference of the lengths: all values relevant to the offsets
        cuts = sorted({0.0} | {-k * s for _, s, k in forms.values()})
        pts = []
        for i, c in enumerate(cuts):
            pts += [c - 1 if i == 0 else (cuts[i - 1] + c) / 2, c]
        pts.append(cuts[-1] + 1)
        free = [a for a in atoms if a not in forms]
        if len(free) > 10:
            rep.undecided("trial", t.where, "too many conditions")
            return
        bad = None
        ok = 0
        import itertools
        for d in pts:
            for bits in itertools.product((True, False), repeat=len(free)):
                env = dict(zip(free, bits))
                for a, (rel, s, k) in forms.items():
                    v = s * d + k
                    env[a] = v < 0 if rel == "<" else v <= 0
                if not self.consistent(env):
                    continue
                acc = [s for s in accepts if self.holds(s.conds[n:], env)]
                bck = [b for b in backs if self.holds(b.conds[n:], env)]
                if acc and bck and bck[0].i > acc[0].i:
                    bad = bad or (bck[0], "the new description length is stored and the edit undone")
                elif acc and d >= 0:
                    bad = bad or (acc[0], "the edit is kept although the description length %s" % ("is the same" if d == 0 else "does not drop"))
                elif not acc and not bck:
                    why = " and ".join(("%s" if env[a] else "not %s") % Y.show(a)[:40] for a in free if self.relevant(a, accepts + backs))
                    bad = bad or (t, "when the description length %s%s, the edit is neither undone nor recorded"
                                  % ("drops" if d < 0 else "does not drop", " and " + why if why else ""))
                elif len(bck) > 1:
                    bad = bad or (bck[1], "the edit is undone twice")
                else:
                    ok += 1
        if bad:
            rep.violation("trial", bad[0].func.module.rel, bad[0].func.qual, what, bad[1], bad[0].line)
        else:
            rep.ok("trial", "%s: %s, %d combinations of conditions" % (t.where, what, ok))

    def relevant(self, a, evs):
        return True

    def leaves(self, c, out):
        if c.op == "not":
            self.leaves(c.a[0], out)
        elif c.op in ("and", "or"):
            for x in (c.a[0] if isinstance(c.a[0], tuple) else c.a):
                self.leaves(x, out)
        elif c.op == "ite":
            for x in c.a:
                self.leaves(x, out)
        elif c.op != "c" and c not in out:
            out.append(c)

    def truth(self, c, env):
        if c.op == "not":
            return not self.truth(c.a[0], env)
        if c.op == "and":
            return all(self.truth(x, env) for x in (c.a[0] if isinstance(c.a[0], tuple) else c.a))
        if c.op == "or":
            return any(self.truth(x, env) for x in (c.a[0] if isinstance(c.a[0], tuple) else c.a))
        if c.op == "ite":
            return self.truth(c.a[1] if self.truth(c.a[0], env) else c.a[2], env)
        if c.op == "c":
            return bool(c.a[0])
        return env[c]

    def holds(self, conds, env):
        return all(self.truth(c, env) == p for c, p in conds if c.op != "iter")

    @staticmethod
    def consistent(env):
        """Equality and its negation, and orderings of the same pair."""
        by = {}
        for a, v in env.items():
            nrm = Y.cmp_norm(a, True)
            if nrm is None or nrm[0] not in ("==", "!="):
                continue
            key = frozenset((k, c) for k, c in nrm[1].items())
            neg = frozenset((k, -c) for k, c in nrm[1].items())
            key = min((key, neg), key=lambda z: sorted((str(k.n if k is not None else 0), c) for k, c in z))
            val = v if nrm[0] == "==" else not v
            if by.setdefault(key, val) != val:
                return False
        return True
