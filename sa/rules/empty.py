"""C21: tables have their documented columns, and nothing fails on an empty list of results."""
import ast
import itertools
from .. import model as M, sym as Y
from . import common as K
from . import periodic as P

PPM = "skmine.periodic.cycles.PeriodicPatternMiner."
# operation, {option that selects the columns: names it goes by}, documented columns for a setting
TABLES = (
    ("skmine.itemsets.lcm.LCM.transform", {"return_tids": ("return_tids", "return_tids_")},
     lambda o: {"itemset", "support"} | ({"tids"} if o["return_tids"] else set())),
    ("skmine.itemsets.slim.SLIM.transform", {"return_tids": ("return_tids", "return_tids_")},
     lambda o: {"itemset", "tids" if o["return_tids"] else "usage"}),
    (PPM + "transform", {"dE_sum": ("dE_sum",)},
     lambda o: {"t0", "pattern", "repetition_major", "period_major", "sum_E" if o["dE_sum"] else "E"}),
    (PPM + "reconstruct", {}, lambda o: {"time", "event"}),
    (PPM + "get_residuals", {}, lambda o: {"time", "event"}),
    ("skmine.graph.graphmdl.code_table.CodeTable.display_ct", {},
     lambda o: {"Pattern Structure", "Pattern usage", "Pattern code length", "Port count", "Pattern port usage", "Pattern port code length"}),
)
SAME = {"sort_values", "sort_index", "drop_duplicates", "copy", "head", "tail", "infer_objects", "convert_dtypes", "query", "sample", "nlargest",
        "nsmallest", "fillna", "round", "astype", "truncate", "where", "mask", "replace", "isin", "reset_index", "shift", "dropna", "abs"}
LISTLIKE = ("builtins.list", "builtins.tuple", "builtins.sorted")


def check_C21(prog, rep):
    rep.rule("columns", "A documented table has its columns on every path, also when there is nothing to report.")
    rep.rule("empty", "A call that fails on an empty operand is not given a list of results that may be empty.")
    E = Empties(prog, rep)
    for name, opts, doc in TABLES:
        f = prog.func(name)
        if f is None:
            raise M.AnalysisBroken("%s not found" % name)
        for vals in itertools.product((True, False), repeat=len(opts)):
            setting = dict(zip(opts, vals))
            Table(prog, rep, f, opts, setting, doc(setting), E).judge()
    E.judge()
    rep.need("columns", 6)
    rep.need("empty", 10)


def names(t):
    """Alternatives of a sequence of column names: list of frozensets, or None."""
    if t.op == "ite":
        a, b = names(t.a[1]), names(t.a[2])
        return a + b if a is not None and b is not None else None
    if t.op in ("list", "tup", "set"):
        if all(x.op == "c" for x in t.a[0]):
            return [frozenset(x.a[0] for x in t.a[0])]
        return None
    if t.op == "c" and isinstance(t.a[0], str):
        return [frozenset([t.a[0]])]
    if t.op == "dict":
        return [frozenset(k.a[0] for k, _ in t.a[0])] if all(k.op == "c" for k, _ in t.a[0]) else None
    if t.op == "bin" and t.a[0] == "+":
        a, b = names(t.a[1]), names(t.a[2])
        return [x | y for x in a for y in b] if a is not None and b is not None else None
    if t.op == "call" and t.a[0] in LISTLIKE + ("pandas.Index", "numpy.array") and len(t.a[1]) == 1:
        return names(t.a[1][0])
    if t.op == "meth" and t.a[1] in ("keys", "copy"):
        return names(t.a[0])
    return None


class Table:
    """The columns of the frames of one operation, in one setting of its options."""
    def __init__(self, prog, rep, f, opts, setting, want, E):
        self.E, self.seen = E, set()
        self.prog, self.rep, self.f, self.opts, self.setting, self.want = prog, rep, f, opts, setting, want
        self.S = Y.Sym(prog, decide=self.decide, hints=P.hints(prog), opaque=P.OPAQUE)
        self.S.run(f, self_cls=f.cls)
        self.txt = ", ".join("%s=%s" % x for x in sorted(setting.items())) or "all options"
        self.busy = set()

    def decide(self, c, st):
        if c.op == "not":
            r = self.decide(c.a[0], st)
            return None if r is None else not r
        n = c.a[0] if c.op == "p" else c.a[1] if c.op == "attr" and c.a[0].op == "self" else None
        for o, ns in self.opts.items():
            if n in ns:
                return self.setting[o]
        if c.op == "cmp" and c.a[0] in ("is", "is not", "==", "!="):
            n = c.a[1].a[0] if c.a[1].op == "p" else c.a[1].a[1] if c.a[1].op == "attr" and c.a[1].a[0].op == "self" else None
            if n in ("out", "out_") and c.a[2] is Y.NONE:
                return c.a[0] in ("is", "==")
            for o, ns in self.opts.items():
                if n in ns and c.a[2] in (Y.TRUE, Y.FALSE):
                    return (self.setting[o] == c.a[2].a[0]) == (c.a[0] in ("is", "=="))
        return None

    # -- frames
    def compatible(self, a, b):
        no = {(c, not p) for c, p in b}
        return not any(x in no for x in a)

    def cols(self, t, e):
        """Alternatives (set of columns, why) of a frame when e happens; None if unknown."""
        if t in self.busy:
            return None
        self.busy.add(t)
        try:
            alts = self.base(t, e)
            if alts is None:
                return None
            for x in self.S.events:
                if x.i >= e.i:
                    break
                if not self.compatible(x.conds, e.conds):
                    continue
                new = self.edit(t, x, alts)
                if new is None or new == alts:
                    continue
                sure = set(x.conds) <= set(e.conds)
                alts = new if sure else alts + [a for a in new if a not in alts]
                if len(alts) > 16:
                    return None
            return alts
        finally:
            self.busy.discard(t)

    def edit(self, t, x, alts):
        if x.kind == "store" and x.data[0] is t:
            ns = names(x.data[1])
            return [(c | ns[0], w) for c, w in alts] if ns and len(ns) == 1 else None
        if x.kind == "del" and x.data[0] is t and x.data[1] is not None:
            ns = names(x.data[1])
            return [(c - ns[0], "after `del` in line %d" % x.line) for c, w in alts] if ns else None
        if x.kind == "meth" and x.data[1] is t:
            _, _, m, args, kw = x.data
            if m == "pop" and args and args[0].op == "c":
                return [(c - {args[0].a[0]}, "after `pop` in line %d" % x.line) for c, w in alts]
            if m == "insert" and len(args) >= 2 and args[1].op == "c":
                return [(c | {args[1].a[0]}, w) for c, w in alts]
            if kw.get("inplace") is Y.TRUE:
                return self.method(m, args, kw, alts, x.line)
        if x.kind == "setattr" and x.data[0] is t and x.data[1] == "columns":
            ns = names(x.data[2])
            return [(c, "columns set in line %d" % x.line) for c in ns] if ns else None
        return None

    def method(self, m, args, kw, alts, line):
        why = "after `%s` in line %d" % (m, line)
        if m in ("drop",):
            c = kw.get("columns")
            if c is None:
                ax = kw.get("axis", args[1] if len(args) > 1 else None)
                if ax is None or ax.op != "c" or ax.a[0] not in (1, "columns"):
                    return alts
                c = kw.get("labels", args[0] if args else None)
            ns = names(c) if c is not None else None
            return [(x - n, why) for x, w in alts for n in ns] if ns is not None else None
        if m == "dropna":
            ax = kw.get("axis", args[0] if args else None)
            if ax is None or ax.op != "c" or ax.a[0] in (0, "index", "rows"):
                return alts
            how = kw.get("how")
            return alts + [(frozenset(), why + " (all columns of a table without rows)")] if how is not None and how is Y.const("all") else alts
        if m == "rename":
            d = kw.get("columns")
            if d is None:
                return None if args else alts
            if d.op != "dict" or not all(k.op == "c" and v.op == "c" for k, v in d.a[0]):
                return None
            mp = {k.a[0]: v.a[0] for k, v in d.a[0]}
            return [(frozenset(mp.get(y, y) for y in x), w) for x, w in alts]
        if m == "assign":
            return [(x | set(kw), w) for x, w in alts]
        if m == "set_index":
            ns = names(kw.get("keys", args[0] if args else Y.NONE))
            if ns is None or len(ns) != 1:
                return None
            return alts if kw.get("drop") is Y.FALSE else [(x - ns[0], why) for x, w in alts]
        if m == "reindex":
            c = kw.get("columns")
            ns = names(c) if c is not None else None
            return alts if c is None else [(n, why) for n in ns] if ns is not None else None
        if m == "filter":
            ns = names(kw.get("items", args[0] if args else Y.NONE))
            return [(x & n, why) for x, w in alts for n in ns] if ns is not None else None
        if m in SAME:
            return alts
        return None

    def base(self, t, e):
        if t.op == "ite":
            a, b = self.cols(t.a[1], e), self.cols(t.a[2], e)
            return a + [x for x in b if x not in a] if a is not None and b is not None else None
        if t.op == "loop":
            init, back = self.S.loops.get((t.a[0], t.a[1]), (None, ()))
            out = []
            for x in ([init] if init is not None else []) + list(back):
                a = self.cols(x, e)
                if a is None and x.op != "loop":
                    return None
                out += [y for y in a or [] if y not in out]
            return out or None
        if t.op == "call" and isinstance(t.a[0], str):
            n, args, kw = t.a[0], t.a[1], dict(t.a[2])
            if n in ("pandas.DataFrame", "pandas.DataFrame.from_records", "pandas.DataFrame.from_dict"):
                data = kw.get("data", args[0] if args else None)
                c = kw.get("columns", args[2] if n == "pandas.DataFrame" and len(args) > 2 else None)
                if c is not None and c is not Y.NONE:
                    ns = names(c)
                    if ns and data is not None and data.op == "call" and data.a[0] in ("numpy.array", "numpy.asarray") and data.a[1] \
                            and any(len(x) > 1 for x in ns) and self.of_rows(data.a[1][0], e):
                        return [(frozenset(), "an array made of no rows has one dimension, which does not fit the columns")]
                    return [(x, "") for x in ns] if ns is not None else None
                return self.of_data(data, e)
            if n == "pandas.concat" and (args or "objs" in kw):
                return self.concat(args[0] if args else kw["objs"], e)
            if n == "pandas.merge" and len(args) >= 2:
                a, b = self.cols(args[0], e), self.cols(args[1], e)
                return [(x | y, w or v) for x, w in a for y, v in b] if a is not None and b is not None else None
            return None
        if t.op == "call":
            # a method of a value that depends on the path
            out = []
            for x, _ in leaves(t.a[0]):
                a = self.cols(x.a[0], e) if x.op == "attr" else None
                a = self.method(x.a[1], t.a[1], dict(t.a[2]), a, e.line) if a is not None else None
                if a is None:
                    return None
                out += [y for y in a if y not in out]
            return out
        if t.op == "meth":
            a = self.cols(t.a[0], e)
            if a is None:
                return None
            return self.method(t.a[1], t.a[2], dict(t.a[3]), a, e.line)
        if t.op == "idx":
            b, k = t.a[0], t.a[1]
            if b.op == "attr" and b.a[1] in ("loc", "iloc"):
                a = self.cols(b.a[0], e)
                if a is None:
                    return None
                if k.op == "tup" and len(k.a[0]) == 2:
                    if b.a[1] == "iloc" and k.a[0][1].op != "slice":
                        return None
                    ns = names(k.a[0][1]) if k.a[0][1].op != "slice" else None
                    if ns is not None:
                        return [(n, "") for n in ns]
                    return a if k.a[0][1].op == "slice" and all(x is Y.NONE for x in k.a[0][1].a) else None
                return a
            a = self.cols(b, e)
            if a is None or k.op == "c":
                return None
            ns = names(k)
            return [(n, "after the selection of columns") for n in ns] if ns is not None else a
        return None

    def of_data(self, d, e):
        """Columns of a frame made of d without naming the columns."""
        if d is None or d is Y.NONE:
            return [(frozenset(), "an empty table is made without columns")]
        if d.op == "dict":
            out = [frozenset()]
            for k, v in d.a[0]:
                alts = [k.a[0]] if k.op == "c" else None
                if k.op == "ite" and all(x.op == "c" for x in k.a[1:]):
                    alts = [x.a[0] for x in k.a[1:]]
                if alts is None:
                    return None
                out = [s | {n} for s in out for n in alts]
            extra = set()
            for x in self.S.events:
                if x.i < e.i and x.kind == "store" and x.data[0] is d and x.data[1].op == "c" and set(x.conds) <= set(e.conds):
                    extra.add(x.data[1].a[0])
                elif x.i < e.i and x.data and x.data[0] is d and x.kind in ("store",):
                    if not d.a[0]:
                        continue
            return [(s | extra, "" if s | extra else "an empty table is made without columns") for s in out]
        if d.op == "list":
            if d.a[0]:
                return self.of_data(d.a[0][0], e) if d.a[0][0].op == "dict" else None
            if grows(self.S, d, e):
                return None
            return [(frozenset(), "the columns come from the rows, and there may be none")]
        if d.op == "comp" and not isinstance(d.a[0], str) or d.op == "comp" and d.a[0] in ("list", "gen", "map", "filter", "set"):
            return [(frozenset(), "the columns come from the rows, and there may be none")]
        if d.op == "call" and d.a[0] in LISTLIKE and len(d.a[1]) == 1:
            return self.of_data(d.a[1][0], e)
        if d.op == "elem" or d.op == "item":
            return None
        return self.cols(d, e)

    def of_rows(self, d, e):
        if d.op == "list":
            return not d.a[0] and not grows(self.S, d, e)
        return d.op == "comp" and not any(x.kind == "meth" and x.data[1] is d and x.data[2] in ("append", "insert") and set(x.conds) <= set(e.conds)
                                          for x in self.S.events if x.i < e.i)

    def concat(self, xs, e):
        parts, stack, unknown = [], [xs], False
        while stack:
            x = stack.pop()
            if x.op in ("list", "tup"):
                parts += list(x.a[0])
            elif x.op == "bin" and x.a[0] == "+":
                stack += [x.a[1], x.a[2]]
            elif not self.E.may_empty(self.S, x, e, self.f, []):
                unknown = True         # otherwise there may be no other table than the parts
        out = [(frozenset(), "none of the tables put together has columns")]
        known = False
        for p in parts:
            a = self.cols(p, e)
            if a is None:
                unknown = True
                continue
            known = True
            out = [(x | y, "" if x | y else w) for x, w in out for y, _ in a]
        if not known or unknown and any(not self.want <= x for x, _ in out):
            return None
        return out

    # -- verdict
    def judge(self):
        n = 0
        for e in self.S.events:
            if e.kind == "getitem" and e.data[1].op == "c" and isinstance(e.data[1].a[0], str):
                self.selected(e)
            if e.kind != "return" or e.stack:
                continue
            for v, conds in leaves(e.data[0]):
                n += self.one(v, e)
        if not n:
            self.rep.undecided("columns", self.f.where, "no table is returned that could be followed (%s)" % self.txt)

    def selected(self, e):
        """A column is selected from a table that has it for every input."""
        b, k = e.data[0], e.data[1].a[0]
        if b.op == "dict" or (b, k) in self.seen:
            return
        self.seen.add((b, k))
        for x, w in self.cols(b, e) or ():
            if k not in x and w and "columns come from" in w:
                self.viol("selection of %s" % k, "the column %s is selected from a table that may not have it: %s" % (k, w), e.line)

    def one(self, v, e):
        if v is Y.NONE or v.op in ("list", "dict", "set") or v.op == "c":
            if v is Y.NONE and any(y.op in ("p", "attr") and y.a[-1] in ("out", "out_") for c, _ in e.conds for y in Y.walk(c)):
                return 1
            self.viol("`%s` instead of a table" % Y.show(v)[:40], "with %s, %s gives back %s" % (self.txt, self.f.qual, Y.show(v)[:40]), e.line)
            return 1
        alts = self.cols(v, e)
        if alts is None:
            self.rep.undecided("columns", e.where, "columns of the result are not known (%s)" % self.txt)
            return 1
        bad = [(x, w) for x, w in alts if not self.want <= x]
        if not bad:
            self.rep.ok("columns", "%s (%s): %s" % (self.f.qual, self.txt, ", ".join(sorted(self.want))))
        for x, w in bad:
            miss = ", ".join(sorted(self.want - x))
            self.viol("result without %s" % miss, "with %s the table of %s can lack the documented column(s) %s%s" %
                      (self.txt, self.f.qual, miss, ": " + w if w else ""), e.line)
        return 1

    def viol(self, construct, msg, line):
        self.rep.violation("columns", self.f.module.rel, self.f.qual, construct, msg, line)


def leaves(t, conds=()):
    if t.op == "ite":
        yield from leaves(t.a[1], conds + ((t.a[0], True),))
        yield from leaves(t.a[2], conds + ((t.a[0], False),))
    else:
        yield t, conds


def grows(S, d, e):
    """Something is added to the list d on every path to e."""
    for x in S.events:
        if x.i >= e.i:
            return False
        if x.kind == "meth" and x.data[1] is d and x.data[2] in ("append", "insert", "appendleft", "add"):
            if set(x.conds) <= set(e.conds):
                return True
    return False


# ------------------------------------------------------------------------------------- empty operands
FAILS1 = {"builtins.max": "default", "builtins.min": "default", "pandas.concat": None, "numpy.concatenate": None, "numpy.vstack": None,
          "numpy.hstack": None, "numpy.stack": None, "numpy.column_stack": None, "numpy.dstack": None, "numpy.max": "initial",
          "numpy.min": "initial", "numpy.amax": "initial", "numpy.amin": "initial", "numpy.argmax": None, "numpy.argmin": None,
          "numpy.nanmax": "initial", "numpy.nanmin": "initial", "statistics.mean": None, "numpy.row_stack": None}
THROUGH = LISTLIKE + ("builtins.set", "builtins.frozenset", "builtins.iter", "builtins.reversed", "builtins.enumerate", "numpy.array", "numpy.asarray",
                      "itertools.chain", "tqdm.tqdm")


CONTAINERS = ("defaultdict", "SortedDict", "OrderedDict", "deque", "Counter", "list", "dict", "set", "SortedList")


class Empties:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.memo = {}
        self.attrs = {}
        self.rets = {}
        self.busy = set()
        self.params = {}
        self.public = {f.where for f in K.public_functions(prog)}
        self.callers = {}
        for f in prog.all_functions():
            if ".test" in f.module.name or isinstance(f.node, ast.Lambda):
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
                    if nm and f not in self.callers.setdefault(nm, []):
                        self.callers[nm].append(f)

    def sym(self, f):
        if f not in self.memo:
            S = Y.Sym(self.prog, inline=False)
            try:
                S.run(f, self_cls=f.cls)
            except RecursionError:
                S = None
            self.memo[f] = S
        return self.memo[f]

    def judge(self):
        for f in list(self.prog.func_by_node.values()):
            if ".test" in f.module.name or isinstance(f.node, ast.Lambda):
                continue
            S = self.sym(f)
            if S is None:
                continue
            for e in S.events:
                op = self.operand(e)
                if op is None:
                    continue
                what, t = op
                if t.op in ("list", "tup") and what.split(".")[-1] in ("vstack", "row_stack"):
                    for y in t.a[0]:      # rows of another width than the rest
                        chain = []
                        why = self.may_empty(S, y, e, f, chain) if len(t.a[0]) > 1 else None
                        if why and not self.guarded(e, chain) and not caught(e):
                            self.rep.violation("empty", f.module.rel, f.qual, "%s(%s)" % (what, Y.show(y)[:60]),
                                               "`%s` fails on an empty part, and this one may be empty: %s" % (what, why), e.line)
                chain = []
                why = self.may_empty(S, t, e, f, chain)
                if why is None:
                    self.rep.ok("empty")
                    continue
                if self.guarded(e, chain) or caught(e):
                    self.rep.ok("empty", "%s: `%s` is guarded" % (e.where, what))
                    continue
                self.rep.violation("empty", f.module.rel, f.qual, "%s(%s)" % (what, Y.show(t)[:60]),
                                   "`%s` fails on an empty operand, and this one may be empty: %s" % (what, why), e.line)

    @staticmethod
    def operand(e):
        if e.kind == "call" and isinstance(e.data[1], str):
            n, args, kw = e.data[1], e.data[2], e.data[3]
            if n in FAILS1 and len(args) >= 1 and not (n in ("builtins.max", "builtins.min") and len(args) > 1):
                if FAILS1[n] and FAILS1[n] in kw or args[0].op == "star":
                    return None
                return n, args[0]
            if n in ("functools.reduce",) and len(args) == 2:
                return n, args[1]
            if n == "builtins.next" and len(args) == 1 and args[0].op == "call" and args[0].a[0] == "builtins.iter":
                return n, args[0].a[1][0]
        if e.kind == "getitem" and e.data[1].op == "c" and type(e.data[1].a[0]) is int and e.data[0].op in ("list", "comp", "loop", "attr", "call"):
            if e.data[0].op == "attr" and e.data[0].a[1] in ("iloc", "iat", "values"):
                return "%s[%d]" % (e.data[0].a[1], e.data[1].a[0]), e.data[0].a[0]
            return "[%d]" % e.data[1].a[0], e.data[0]
        if e.kind == "meth" and (e.data[2] in ("idxmax", "idxmin", "argmax", "argmin") or e.data[2] in ("pop", "popleft", "popitem") and not e.data[3]):
            return "." + e.data[2], e.data[1]
        return None

    def may_empty(self, S, t, e, f, chain, d=0):
        """Why the collection t may be empty when e happens; chain collects the terms it depends on."""
        if d > 12 or (id(S), t) in self.busy:
            return None
        self.busy.add((id(S), t))
        chain.append(t)
        try:
            return self._may(S, t, e, f, chain, d)
        finally:
            self.busy.discard((id(S), t))

    def _may(self, S, t, e, f, chain, d):
        rec = lambda x: self.may_empty(S, x, e, f, chain, d + 1)
        if t.op == "call" and isinstance(t.a[0], str) and t.a[0].split(".")[-1] in CONTAINERS and t.a[1]:
            src = t.a[1][1] if t.a[0].endswith("defaultdict") and len(t.a[1]) > 1 else t.a[1][-1]
            if not (t.a[0].endswith("defaultdict") and len(t.a[1]) == 1):
                return None if any(x.kind == "store" and x.data[0] is t for x in S.events) else rec(src)
        if t.op in ("list", "set", "dict") or (t.op == "call" and isinstance(t.a[0], str) and t.a[0].split(".")[-1] in CONTAINERS and not t.a[2]):
            if t.op != "call" and t.a[0]:
                return None
            for x in S.events:
                if x.i < e.i and x.loops and x.loops != e.loops[:len(x.loops)] and (
                        x.kind == "del" and x.data[0] is t or x.kind == "meth" and x.data[1] is t and x.data[2] in ("pop", "remove", "discard", "popitem", "popleft")):
                    return "entries are removed from it (line %d)" % x.line
            adds = [x for x in S.events if (x.kind == "meth" and x.data[1] is t and x.data[2] in ("append", "extend", "insert", "add", "update", "appendleft", "setdefault"))
                    or (x.kind == "store" and x.data[0] is t)]
            if any(set(x.conds) <= set(e.conds) and x.i < e.i for x in adds) or not adds:
                return None
            why = None
            for x in adds:
                if x.i >= e.i:
                    continue
                w = self.added(S, x, e, f, chain, d)
                if w is None:
                    return None
                why = why or w
            return why
        if t.op == "comp":
            if len(t.a[2]) != 1:
                return None
            it, _, fl = t.a[2][0]
            if fl:
                chain.append(it)
                if e.kind == "getitem" and any(y.op == "cmp" and y.a[0] in ("==", "is") for c in fl for y in Y.walk(c)):
                    return None        # looks one entry up
                return "its elements are filtered"
            return rec(it)
        if t.op == "call" and isinstance(t.a[0], str) and t.a[0] in THROUGH and len(t.a[1]) == 1:
            return rec(t.a[1][0])
        if t.op == "call" and isinstance(t.a[0], Y.T) and t.a[0].op == "call" and isinstance(t.a[0].a[0], str) and t.a[0].a[0].startswith("joblib.") and t.a[1]:
            return rec(t.a[1][0])
        if t.op == "meth" and t.a[1] in ("keys", "values", "items", "copy", "tolist", "to_list"):
            return rec(t.a[0])
        if t.op == "call" and t.a[0] in ("pandas.DataFrame", "pandas.Series", "pandas.Index") and t.a[1]:
            return rec(t.a[1][0])
        if t.op == "call" and t.a[0] == "pandas.concat" and t.a[1] and t.a[1][0].op in ("list", "tup") and t.a[1][0].a[0]:
            ws = [rec(x) for x in t.a[1][0].a[0]]
            return ws[0] if all(ws) else None
        if t.op == "meth" and t.a[1] in ("sort_values", "sort_index", "reset_index", "drop_duplicates", "astype", "drop", "rename", "head", "dropna",
                                         "map", "apply", "nlargest", "nsmallest"):
            return rec(t.a[0])
        if t.op == "attr" and t.a[0].op not in ("self", "p", "lib") and table_like(t.a[0]) or \
                t.op == "idx" and t.a[1].op == "c" and isinstance(t.a[1].a[0], str) and table_like(t.a[0]):
            return rec(t.a[0])
        if t.op == "bin" and t.a[0] == "+":
            a = rec(t.a[1])
            return a and rec(t.a[2]) and a
        if t.op == "ite":
            chain.append(t.a[0])
            for x, p in ((t.a[1], True), (t.a[2], False)):
                if (t.a[0], not p) in e.conds or any(y is x for y in Y.walk(t.a[0])):
                    continue
                sub = []
                w = self.may_empty(S, x, e, f, sub, d + 1)
                if w and not any(y in sub for y in Y.walk(t.a[0])):
                    chain += sub
                    return w
            return None
        if t.op == "call" and t.a[0] == "builtins.range" and len(t.a[1]) == 1 and t.a[1][0].op == "call" and t.a[1][0].a[0] == "builtins.len":
            return rec(t.a[1][0].a[1][0])
        if t.op == "p" and f.cls is None and f.name.startswith("_") is False and f.where not in self.public:
            return self.passed(f, t.a[0], None, d)
        if t.op in ("elem", "val") and t.a[0].op == "p" and f.cls is None and f.where not in self.public:
            return self.passed(f, t.a[0].a[0], "elem", d)
        if t.op == "meth" and t.a[1] == "getPatterns":
            return "no pattern may have been found"
        if t.op == "attr" and t.a[0].op == "self" and f.cls is not None:
            return self.attr(f.cls, t.a[1])
        if t.op == "rcall":
            return self.returned(t.a[0])
        return None

    def passed(self, f, name, part, d):
        """Why a caller of the internal function f may pass an empty collection as this parameter (or inside it)."""
        key = (f, name, part)
        if key in self.params:
            return self.params[key]
        self.params[key] = None
        for g in self.callers.get(f.name, ()):
            S = self.sym(g)
            if S is None:
                continue
            for x in S.events:
                if x.kind != "rcall" or x.data[1] is not f:
                    continue
                v = x.data[2].get(name)
                if v is None or v.op == "default":
                    continue
                vs = [v]
                if part:
                    vs = list(v.a[0]) if v.op in ("list", "tup") else []
                whys = []
                for y in vs:
                    chain = []
                    why = self.may_empty(S, y, x, g, chain, d + 1)
                    whys.append(why if why and not self.guarded(x, chain) and not caught(x) else None)
                if whys and all(whys):
                    self.params[key] = "%s passes it to %s (line %d): %s" % (g.qual, f.qual, x.line, whys[0])
                    return self.params[key]
        return None

    def added(self, S, x, e, f, chain, d):
        """Why the addition x may not have happened when e does."""
        out = None
        lids = set()
        for c, p in x.conds:
            if (c, p) in e.conds:
                continue
            if c.op == "iter":
                lids.add(c.a[0])
                chain.append(c.a[1])
                w = self.may_empty(S, c.a[1], e, f, chain, d + 1)
                if w:
                    out = "it is filled in a loop (line %d), and %s" % (x.line, w)
            else:
                chain.append(c)
                out = out or "it is filled only under a condition (line %d)" % x.line
        if x.kind == "meth" and x.data[2] in ("extend", "update") and out is None:
            return self.may_empty(S, x.data[3][0], e, f, chain, d + 1) if x.data[3] else None
        return out

    def attr(self, cls, name):
        """Some method leaves an empty collection in the attribute."""
        key = (cls.qual, name)
        if key in self.attrs:
            return self.attrs[key]
        self.attrs[key] = None
        for c in cls.mro() if callable(getattr(cls, "mro", None)) else [cls]:
            for m in getattr(c, "methods", {}).values():
                S = self.sym(m)
                if S is None or m.name == "__init__":
                    continue
                for x in S.events:
                    if x.kind == "setattr" and x.data[0].op == "self" and x.data[1] == name:
                        end = [y for y in S.events if y.kind == "return"]
                        why = self.may_empty(S, x.data[2], x, m, [])
                        if why:
                            self.attrs[key] = "%s of %s: %s" % (name, m.qual, why)
                            return self.attrs[key]
        return None

    def returned(self, f):
        if f in self.rets:
            return self.rets[f]
        self.rets[f] = None
        S = self.sym(f)
        if S is None:
            return None
        for x in S.events:
            if x.kind == "return":
                chain = []
                why = self.may_empty(S, x.data[0], x, f, chain)
                if why and not self.guarded(x, chain):
                    self.rets[f] = "result of %s: %s" % (f.qual, why)
                    return self.rets[f]
        return None

    @staticmethod
    def guarded(e, chain):
        ch = set(chain)
        again = {Y.strip_occ(t) for t in chain if t.op in ("rcall", "call", "meth")}
        for c, p in e.conds:
            for y in Y.walk(c):
                if y in ch or y.op in ("rcall", "call", "meth") and Y.strip_occ(y) in again:
                    return True
        return False


def table_like(t):
    if t.op in ("meth", "attr", "idx") and isinstance(t.a[0], Y.T):
        return table_like(t.a[0])
    return t.op == "rcall" or t.op == "call" and isinstance(t.a[0], str) and t.a[0].startswith("pandas.")


def caught(e):
    for t, part in e.tries:
        if part == "body" and t.handlers:
            return True
    return False
