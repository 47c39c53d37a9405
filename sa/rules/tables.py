"""Tables: columns keep their own cut points (C23), cached datasets (C22), empty results (C21)."""
import ast
from .. import model as M, sym as Y

# ------------------------------------------------------------------------------------------ C23
ORDERED = ("builtins.list", "builtins.tuple", "builtins.enumerate", "builtins.iter", "numpy.array", "numpy.asarray", "numpy.arange", "tqdm.tqdm")
SHUFFLES = ("permutation", "shuffle", "permuted", "sample", "choice")
WRONG = "wrong"


def check_C23(prog, rep):
    rep.rule("rows", "Features and labels are put in order by one and the same selection of rows.")
    rep.rule("store", "The cut points of a column are stored under the name or position of that column.")
    rep.rule("apply", "The values of a column are compared with the cut points of the same column.")
    rep.rule("labels", "The result has the columns and the rows of the caller's table, in the caller's order.")
    cls = prog.cls("skmine.preprocessing.mdlp_discretizer.MDLPDiscretizer")
    fit, tr = cls.find("fit"), cls.find("transform")
    if fit is None or tr is None:
        raise M.AnalysisBroken("MDLPDiscretizer.fit or transform not found")
    for frame in (True, False):
        Cols(prog, rep, cls, fit, frame).fit()
        Cols(prog, rep, cls, tr, frame).transform()
    vect = prog.cls("skmine.preprocessing.mdlp_discretizer.MDLPVectDiscretizer")
    one_column(prog, rep, vect)
    rep.need("store", 1)
    rep.need("apply", 1)


class Cols:
    """Which column of the table a value belongs to, in one function and for one kind of table."""
    def __init__(self, prog, rep, cls, f, frame):
        self.prog, self.rep, self.cls, self.f, self.frame = prog, rep, cls, f, frame
        self.kind = "frame" if frame else "array"
        ps = [p[0] for p in f.params()]
        self.X, self.y = Y.mk("p", ps[1]), Y.mk("p", ps[2]) if len(ps) > 2 else None
        self.S = Y.Sym(prog, opaque=("MDLPVectDiscretizer",), decide=self.decide)
        self.S.run(f, self_cls=cls)
        self.self_t = Y.mk("self", cls.qual)
        self.seen = set()

    def decide(self, c, st):
        """The table is a frame (and the labels a series), or both are arrays."""
        if c.op == "not":
            r = self.decide(c.a[0], st)
            return None if r is None else not r
        if c.op == "call" and c.a[0] == "builtins.isinstance" and len(c.a[1]) == 2:
            names = [x.a[0] for x in Y.walk(c.a[1][1]) if x.op == "lib"]
            what = c.a[1][0]
            while what.op == "idx" and what.a[1].op not in ("tup", "c", "elem", "val") or what.op == "meth" and what.a[1] in (
                    "copy", "sort_index", "reindex", "astype", "select_dtypes", "reset_index", "take"):
                what = what.a[0]        # still a table of the same kind
            if names and what.op == "p" and all(isinstance(n, str) and n.startswith("pandas.") for n in names):
                return self.frame
            if names and what.op == "p" and all(isinstance(n, str) and n.startswith("numpy.") for n in names):
                return not self.frame
        if c.op == "call" and c.a[0] == "builtins.hasattr" and len(c.a[1]) == 2 and c.a[1][0].op == "p":
            return self.frame
        if c.op == "cmp" and any(x.op == "attr" and x.a[1] == "random_state" for x in Y.walk(c)) and c.a[0] in ("is", "is not"):
            return None
        return None

    def viol(self, rule, construct, msg, line):
        self.rep.violation(rule, self.f.module.rel, self.f.qual, construct, msg, line)

    # -- order of sequences
    def axis(self, t):
        """'X' columns of the given table in order, 'F' those of the table at fit, WRONG another order, None unknown."""
        if t is self.X:
            return "X" if self.frame else None
        if t.op in ("gate", "ite"):
            a, b = self.axis(t.a[1]), self.axis(t.a[2])
            return a if a == b else None
        if t.op == "attr":
            if t.a[0] is self.X and t.a[1] == "columns":
                return "X"
            if t.a[1] == "columns" and self.reordered(t.a[0]):
                return "R"
            if t.a[0] is self.self_t and t.a[1] in ("cut_points_", "discretizers_"):
                return "F" if self.frame else "X"
            if t.a[1] in ("values", "T", "array"):
                return self.axis(t.a[0]) if t.a[0].op == "attr" and t.a[0].a[1] == "columns" else None
            return None
        if t.op == "comp":
            a = self.axis(t.a[2][0][0]) if len(t.a[2]) == 1 else None
            return WRONG if a and (t.a[0] == "set" or t.a[2][0][2]) else a
        if t.op == "meth":
            if t.a[1] in ("keys", "values", "items", "copy", "tolist", "to_list", "astype"):
                return self.axis(t.a[0])
            if t.a[1] in ("sort_values", "unique") and self.axis(t.a[0]):
                return WRONG
            return None
        if t.op == "slice":
            return None
        if t.op == "idx" and t.a[1].op == "slice" and self.axis(t.a[0]):
            return self.axis(t.a[0]) if all(x.op == "c" and x.a[0] is None for x in t.a[1].a) else WRONG
        if t.op == "call":
            n, args = t.a[0], t.a[1]
            if isinstance(n, Y.T):
                if n.op == "call" and isinstance(n.a[0], str) and n.a[0].startswith("joblib.") and args:
                    ra = dict(n.a[2]).get("return_as")
                    if ra is not None and ra.op == "c" and ra.a[0] == "generator_unordered":
                        return WRONG
                    return self.axis(args[0])
                return None
            if n in ORDERED and args and n != "numpy.arange":
                return self.axis(args[0])
            if n in ("builtins.sorted", "builtins.reversed", "builtins.set", "builtins.frozenset", "numpy.sort", "numpy.unique", "numpy.flip") and args:
                return WRONG if self.axis(args[0]) else None
            if n in ("builtins.range", "numpy.arange") and len(args) == 1:
                return self.count(args[0])
            if n == "builtins.range" and len(args) == 3 and self.count(args[0]) is None and any(self.count(x) for a in args for x in Y.walk(a)):
                return WRONG
            if n == "builtins.zip":
                ax = {self.axis(a) for a in args}
                if len(ax) == 1:
                    return ax.pop()
                if None in ax:
                    return None
                return WRONG
            if n == "builtins.map" and len(args) == 2:
                return self.axis(args[1])
        return None

    def count(self, t):
        """The axis that has t entries."""
        if t.op == "call" and t.a[0] == "builtins.len" and t.a[1]:
            a = t.a[1][0]
            return self.axis(a) if a is not self.X else None
        if t.op in ("item", "idx"):
            i = t.a[1].a[0] if isinstance(t.a[1], Y.T) and t.a[1].op == "c" else t.a[1]
            if i in (1, -1) and t.a[0].op == "attr" and t.a[0].a[1] == "shape" and self.reordered(t.a[0].a[0]):
                return "R"
            if i in (1, -1) and t.a[0].op == "attr" and t.a[0].a[1] == "shape" and self.table(t.a[0].a[0]):
                return "X"
        return None

    def reordered(self, t):
        """Is t the given frame with its columns in another order, or only some of them?"""
        if not self.frame:
            return False
        for _ in range(20):
            if t is self.X:
                return False
            if t.op == "meth" and self.table(t.a[0]):
                kw = dict(t.a[3])
                ax = kw.get("axis")
                side = ax is not None and ax.op == "c" and ax.a[0] in (1, "columns")
                if t.a[1] == "select_dtypes" or t.a[1] in ("sort_index", "dropna") and side or t.a[1] in ("drop", "filter") and (side or "columns" in kw):
                    return True
                if t.a[1] in ("reindex", "reindex_axis") and "columns" in kw and self.axis(kw["columns"]) == WRONG:
                    return True
            if t.op == "idx" and t.a[1].op != "tup" and self.table(t.a[0]) and self.axis(t.a[1]) == WRONG:
                return True
            if t.op == "idx" and t.a[1].op == "tup" and len(t.a[1].a[0]) == 2 and self.table(t.a[0]) and self.axis(t.a[1].a[0][1]) == WRONG:
                return True
            if t.op == "attr" and t.a[1] in ("values", "iloc", "loc", "array") or t.op == "meth" and t.a[1] in ("to_numpy", "copy", "astype", "take", "reset_index"):
                t = t.a[0]
            elif t.op == "call" and t.a[0] in ("numpy.asarray", "numpy.array", "numpy.ascontiguousarray", "numpy.take") and t.a[1]:
                t = t.a[1][0]
            elif t.op == "idx":
                t = t.a[0]
            else:
                return False
        return False

    def table(self, t):
        """Is t the given table, perhaps with its rows in another order?"""
        while True:
            if t is self.X:
                return True
            if t.op == "attr" and t.a[1] in ("values", "iloc", "loc", "array"):
                t = t.a[0]
            elif t.op == "meth" and t.a[1] in ("to_numpy", "copy", "astype", "take", "reset_index"):
                t = t.a[0]
            elif t.op == "call" and t.a[0] in ("numpy.asarray", "numpy.array", "numpy.ascontiguousarray", "numpy.take", "pandas.DataFrame") and t.a[1]:
                t = t.a[1][0]
            elif t.op == "idx" and not (t.a[1].op == "tup") and self.axis(t.a[1]) == WRONG:
                return False
            elif t.op == "idx" and not (t.a[1].op == "tup") and self.col(t.a[1]) is None:
                t = t.a[0]
            elif t.op == "idx" and t.a[1].op == "tup" and len(t.a[1].a[0]) == 2 and t.a[1].a[0][1].op == "slice":
                t = t.a[0]
            else:
                return False

    def rows(self, t):
        """(base, selections of rows) of t"""
        sel = []
        while True:
            if t.op == "attr" and t.a[1] in ("values", "iloc", "loc", "array", "T"):
                t = t.a[0]
            elif t.op == "meth" and t.a[1] in ("to_numpy", "copy", "astype", "ravel", "reset_index"):
                t = t.a[0]
            elif t.op == "meth" and t.a[1] in ("take", "sample"):
                sel.append(t.a[2][0] if t.a[2] else t)
                t = t.a[0]
            elif t.op == "call" and t.a[0] in ("numpy.asarray", "numpy.array", "numpy.ascontiguousarray") and t.a[1]:
                t = t.a[1][0]
            elif t.op == "call" and t.a[0] == "numpy.take" and len(t.a[1]) > 1:
                sel.append(t.a[1][1])
                t = t.a[1][0]
            elif t.op == "call" and t.a[0] == "numpy.sort" and t.a[1]:
                sel.append(Y.mk("call", "numpy.argsort", (t.a[1][0],), ()))
                t = t.a[1][0]
            elif t.op == "idx":
                k = t.a[1]
                if k.op == "tup" and len(k.a[0]) == 2:
                    if k.a[0][0].op != "slice":
                        sel.append(k.a[0][0])
                elif self.col(k) is None and not (k.op == "c" and isinstance(k.a[0], str)) and self.axis(k) is None:
                    sel.append(k)
                t = t.a[0]
            elif t.op == "item" and t.a[0].op == "call":  # X, y = shuffle(X, y)
                sel.append(t.a[0])
                args = t.a[0].a[1]
                if t.a[1] < len(args):
                    t = args[t.a[1]]
                else:
                    return t, sel
            elif t.op == "call" and isinstance(t.a[0], str) and t.a[0].rsplit(".", 1)[-1] in SHUFFLES and t.a[1]:
                sel.append(Y.mk("shuffled", t))
                t = t.a[1][0]
            else:
                return t, sel

    # -- column of a value
    def loop_axis(self, lid):
        i = self.S.loopinfo.get(lid)
        return self.axis(i["iter"]) if i and i["iter"] is not None else None

    def col(self, t):
        """The axis whose current entry t belongs to."""
        if t.op in ("elem", "val", "pos"):
            return self.loop_axis(t.a[1])
        if t.op == "idx":
            k = t.a[1]
            if k.op == "tup" and len(k.a[0]) == 2:
                if k.a[0][1].op == "bin":
                    lin = Y.linear(k.a[0][1])
                    at = [a for a in lin if a is not None and self.is_pos(a)]
                    if len(at) == 1 and (lin[at[0]] != 1 or any(v for a, v in lin.items() if a is not at[0])):
                        return WRONG           # a position worked out from that of another column
                c = self.col(k.a[0][1])
                if c == "X" and self.is_pos(k.a[0][1]) and self.reordered(t.a[0]):
                    return WRONG
                return WRONG if c == "F" and self.is_pos(k.a[0][1]) else c
            c = self.col(k)
            if c is not None and t.a[0].op == "attr" and t.a[0].a[0] is self.self_t and t.a[0].a[1] == "cut_points_":
                if self.frame and self.is_pos(k):
                    return WRONG
                return c
            a = self.axis(t.a[0]) if t.a[0] is not self.X else None
            if a is not None and c is not None and a != c:
                return WRONG
            return c
        if t.op == "attr":
            return self.col(t.a[0])
        if t.op == "meth":
            return self.both([t.a[0]] + list(t.a[2]))
        if t.op in ("tup", "list"):
            return self.both(t.a[0])
        if t.op == "call":
            return self.both(list(t.a[1]) + [v for _, v in t.a[2]] + ([t.a[0]] if isinstance(t.a[0], Y.T) else []))
        if t.op == "bound":
            return self.col(t.a[0])
        if t.op in ("un", "neg"):
            return self.col(t.a[-1])
        if t.op == "comp":
            return self.col(t.a[1]) if False else None
        return None

    def is_pos(self, k):
        return k.op == "pos" or k.op == "elem" and k.a[0].op == "call" and k.a[0].a[0] in ("builtins.range", "numpy.arange")

    def both(self, ts):
        cs = {self.col(t) for t in ts if isinstance(t, Y.T)} - {None}
        return cs.pop() if len(cs) == 1 else WRONG if cs else None

    # -- fit
    def fit(self):
        rep = self.rep
        self.zips()
        n = 0
        for e in self.S.events:
            if e.kind == "call" or e.kind == "meth":
                args = list(e.data[2] if e.kind == "call" else e.data[3])
                fn = e.data[1] if e.kind == "call" else None
                name = fn if isinstance(fn, str) else e.data[2] if e.kind == "meth" else None
                if isinstance(name, str) and name.rsplit(".", 1)[-1] in ("shuffle",) and "sklearn" not in name:
                    for a in args:
                        b, _ = self.rows(a)
                        if b is self.X or b is self.y:
                            self.viol("rows", "shuffle", "the rows of %s are shuffled on their own" % Y.show(b), e.line)
            if e.kind in ("call", "meth", "rcall", "enter"):
                pair = self.pair(e)
                if pair:
                    n += 1
                    self.same_rows(pair[0], pair[1], e.line)
                    self.own_column(pair[0], e.line)
        if not n:
            rep.undecided("rows", self.f.where, "%s: where a column is fitted is not found" % self.kind)
        sites = {}
        for e in self.S.events:
            nm = e.data[1] if e.kind == "call" else None
            if e.kind == "call" and isinstance(nm, str) and nm.rsplit(".", 1)[-1] == "permutation" or \
                    e.kind == "call" and isinstance(nm, Y.T) and any(x.op in ("attr", "bound") and "permutation" in x.a for x in Y.walk(nm)) or \
                    e.kind == "meth" and e.data[2] == "permutation":
                sites.setdefault((e.func.qual, e.line, getattr(e.node, "col_offset", 0)), e)
        if len(sites) > 1:
            e = list(sites.values())[-1]
            self.viol("rows", "permutation", "more than one permutation is drawn (also at line %d)" % list(sites.values())[0].line, e.line)
        self.stored()

    def pair(self, e):
        """(values, labels) of a call that fits one column."""
        if self.y is None:
            return None
        args = e.data[2] if e.kind == "call" else e.data[3] if e.kind == "meth" else None
        if args is None or e.kind == "call" and isinstance(e.data[1], str) and not e.data[1].startswith("skmine"):
            return None
        kw = e.data[3] if e.kind == "call" else e.data[4] if len(e.data) > 4 else {}
        vals = list(args) + list(kw.values() if isinstance(kw, dict) else ())
        xs = [a for a in vals if isinstance(a, Y.T) and self.rows(a)[0] is self.X]
        ys = [a for a in vals if isinstance(a, Y.T) and self.rows(a)[0] is self.y]
        return (xs[0], ys[0]) if len(xs) == 1 and len(ys) == 1 else None

    def same_rows(self, x, y, line):
        a, b = self.rows(x)[1], self.rows(y)[1]
        if a == b and not any(t.op == "shuffled" for t in a):
            self.rep.ok("rows", "%s: %d selection(s) of rows" % (self.kind, len(a)))
        else:
            self.viol("rows", "rows", "a column is fitted on the rows %s but with the labels of the rows %s"
                      % (" ".join("[%s]" % Y.show(t)[:60] for t in a) or "as given", " ".join("[%s]" % Y.show(t)[:60] for t in b) or "as given"), line)

    def own_column(self, x, line):
        """The column that is fitted is the one the traversal is at."""
        for t in Y.walk(x):
            if t.op != "idx":
                continue
            k = t.a[1].a[0][1] if t.a[1].op == "tup" and len(t.a[1].a[0]) == 2 else t.a[1] if self.col(t.a[1]) or t.a[0].op == "attr" \
                and t.a[0].a[1] == "T" else None
            if k is None or k.op in ("slice", "p", "self"):
                continue
            if k.op == "call" and k.a[0] == "builtins.int" and len(k.a[1]) == 1:
                k = k.a[1][0]
            arith = k.op == "bin" and k.a[0] in ("+", "-", "*", "//", "%") or k.op == "call" and k.a[0] in (
                "builtins.max", "builtins.min", "builtins.abs") or k.op == "c" and isinstance(k.a[0], int)
            if arith and (k.op == "c" or any(self.col(y) for y in Y.walk(k) if y.op in ("elem", "val", "pos"))):
                self.viol("store", "column", "the column fitted is %s, not the one whose cut points are stored" % Y.show(k)[:80], line)
            elif self.col(k) is not None:
                self.rep.ok("store", "%s: fitted on its own column" % self.kind)

    def stored(self):
        rep = self.rep
        for e in self.S.events:
            if e.kind == "setattr" and e.data[0] is self.self_t and e.data[1] == "cut_points_":
                self.mapping(e.data[2], e)
            elif e.kind == "store" and e.data[0].op in ("attr", "dict") and (e.data[0].op == "dict" or e.data[0].a[1] == "cut_points_"):
                self.entry(e.data[1], e.data[2], e)

    def mapping(self, t, e):
        if t.op == "call" and t.a[0] == "builtins.dict" and t.a[1]:
            s = t.a[1][0]
            if s.op == "call" and s.a[0] == "builtins.zip" and len(s.a[1]) == 2:
                a, b = self.axis(s.a[1][0]), self.axis(s.a[1][1])
                k = s.a[1][0]
                if k.op == "meth" and k.a[0].op == "attr" and k.a[0].a[1] == "str" and self.axis(k.a[0].a[0]) or self.frame and a == "X" and (
                        k.op == "call" and k.a[0] == "builtins.map" or k.op == "comp" and self.altered(k.a[1])):
                    self.viol("store", "cut_points_", "the cut points are stored under altered names (%s)" % Y.show(k)[:50], e.line)
                    return
                self.judge(a, b, e, "keys %s" % Y.show(s.a[1][0])[:50])
            elif s.op == "call" and s.a[0] == "builtins.enumerate":
                st = s.a[1][1] if len(s.a[1]) > 1 else dict(s.a[2]).get("start")
                if st is not None and not (st.op == "c" and st.a[0] == 0):
                    self.viol("store", "cut_points_", "columns are numbered from %s" % Y.show(st), e.line)
                elif self.frame:
                    self.viol("store", "cut_points_", "columns of a frame are numbered, not named", e.line)
                else:
                    self.judge("X", self.axis(s.a[1][0]), e, "positions")
            elif s.op == "comp" and s.a[1].op == "tup" and len(s.a[1].a[0]) == 2:
                self.entry(s.a[1].a[0][0], s.a[1].a[0][1], e)
            else:
                self.rep.undecided("store", e.where, Y.show(t)[:60])
        elif t.op == "comp" and t.a[0] == "dict":
            self.entry(t.a[1].a[0][0], t.a[1].a[0][1], e)
        elif t.op == "dict" and not t.a[0]:
            pass
        else:
            self.rep.undecided("store", e.where, Y.show(t)[:60])

    def judge(self, a, b, e, what):
        if a is None or b is None:
            self.rep.undecided("store", e.where, "%s: %s" % (self.kind, what))
        elif a != b or a == WRONG:
            self.viol("store", "cut_points_", "the cut points are not in the order of the columns they are stored under (%s)" % what, e.line)
        else:
            self.rep.ok("store", "%s: %s" % (self.kind, what))

    def altered(self, k):
        """A name worked out from the name of a column."""
        return k.op == "call" and k.a[0] in ("builtins.str", "builtins.int", "builtins.hash", "builtins.repr", "sys.intern") or \
            k.op == "meth" and k.a[1] in ("strip", "lower", "upper", "replace", "split", "title", "casefold", "lstrip", "rstrip", "format", "__str__")

    def entry(self, k, v, e):
        a, b = self.col(k), self.col(v)
        if self.frame and a == "X" and self.altered(k):
            self.viol("store", "cut_points_", "the cut points are stored under altered names (%s)" % Y.show(k)[:50], e.line)
            return
        if self.frame and self.is_pos(k):
            self.viol("store", "cut_points_", "columns of a frame are numbered, not named", e.line)
            return
        self.judge(a, b, e, "key %s" % Y.show(k)[:40])

    def zips(self):
        """Sequences walked in step are in the same order."""
        for lid, i in self.S.loopinfo.items():
            t = i["iter"]
            if t is None:
                continue
            for y in Y.walk(t):
                if y.op == "call" and y.a[0] == "builtins.zip" and id(y) not in self.seen:
                    self.seen.add(id(y))
                    ax = [self.axis(a) for a in y.a[1]]
                    kn = {a for a in ax if a}
                    if WRONG in kn or len(kn) > 1:
                        self.viol("apply" if self.f.name == "transform" else "store", "zip", "%s are walked in step, but are in different orders"
                                  % " and ".join(Y.show(a)[:40] for a in y.a[1]), i["node"].lineno)

    # -- transform
    def transform(self):
        rep = self.rep
        self.zips()
        n = 0
        for e in self.S.events:
            name, args = None, ()
            if e.kind == "call":
                name, args = e.data[1], list(e.data[2]) + [v for v in e.data[3].values()]
                if isinstance(name, Y.T):
                    libs = [x.a[0] for x in Y.walk(name) if x.op == "lib"]
                    name = libs[0] if libs and any(l in ("numpy.searchsorted", "numpy.digitize", "pandas.cut", "bisect.bisect_left", "bisect.bisect") for l in libs) else None
                    name = next((l for l in libs if l in ("numpy.searchsorted", "numpy.digitize", "pandas.cut")), name)
            elif e.kind == "meth" and e.data[2] == "searchsorted":
                name, args = "numpy.searchsorted", [e.data[1]] + list(e.data[3])
            if name not in ("numpy.searchsorted", "numpy.digitize", "pandas.cut") or len(args) < 2:
                continue
            n += 1
            cs = [self.col(a) for a in args[:2]]
            if WRONG in cs or None not in cs and cs[0] != cs[1]:
                self.viol("apply", "searchsorted", "the values of a column are compared with cut points of another (%s, %s)"
                          % (Y.show(args[0])[:50], Y.show(args[1])[:50]), e.line)
            elif None in cs:
                rep.undecided("apply", e.where, "%s: %s" % (self.kind, ", ".join(Y.show(a)[:40] for a in args[:2])))
            else:
                rep.ok("apply", "%s: cut points of the same column" % self.kind)
                if self.frame and cs[0] == "F":
                    self.by_fit_order = True
        if not n:
            rep.undecided("apply", self.f.where, "%s: where the cut points are applied is not found" % self.kind)
        for e in self.S.events:
            if e.kind == "return" and e.func is self.f:
                self.result(e.data[0], e)

    def result(self, t, e):
        rep = self.rep
        if t.op in ("gate", "ite"):
            self.result(t.a[1], e)
            self.result(t.a[2], e)
            return
        if t.op == "call" and t.a[0] == "pandas.DataFrame":
            kw = dict(t.a[2])
            args = t.a[1]
            data = args[0] if args else kw.get("data")
            ix = args[1] if len(args) > 1 else kw.get("index")
            co = args[2] if len(args) > 2 else kw.get("columns")
            if ix is None:
                self.viol("labels", "index", "the index of the caller's frame is not kept", e.line)
            elif ix is Y.mk("attr", self.X, "index"):
                rep.ok("labels", "index kept")
            elif any(x is Y.mk("attr", self.X, "index") for x in Y.walk(ix)) and ix.op == "call" and ix.a[0] in ("builtins.list", "builtins.tuple"):
                rep.ok("labels", "index kept")
            elif ix.op == "call" and ix.a[0] in ("builtins.range", "builtins.sorted", "pandas.RangeIndex", "numpy.arange"):
                self.viol("labels", "index", "the index of the result is %s" % Y.show(ix)[:60], e.line)
            else:
                rep.undecided("labels", e.where, "index %s" % Y.show(ix)[:50])
            if co is None:
                if data is not None and data.op in ("comp", "dict"):
                    self.ordered(data, e)
                else:
                    self.viol("labels", "columns", "the columns of the caller's frame are not kept", e.line)
                return
            a = self.axis(co)
            if a == "X":
                rep.ok("labels", "columns kept")
            elif a in (WRONG, "F"):
                self.viol("labels", "columns", "the columns of the result are those of %s, not of the caller's frame" % Y.show(co)[:50], e.line)
                return
            else:
                rep.undecided("labels", e.where, "columns %s" % Y.show(co)[:50])
            if data is not None:
                self.ordered(data, e)
        elif t.op == "call" and t.a[0] in STACK:
            self.ordered(t, e)
        elif t.op == "idx" and self.axis(t.a[1]) == "X" and self.frame:
            rep.ok("labels", "columns selected in the caller's order")
        elif self.frame and t.op in ("call", "meth") and (t.op == "meth" and t.a[1] == "copy" and t.a[0] is self.X):
            rep.ok("labels", "the caller's frame with its columns replaced")
        else:
            rep.undecided("labels", e.where, "%s: %s" % (self.kind, Y.show(t)[:60]))

    def ordered(self, t, e):
        """The columns of t come in the order of the caller's table."""
        x = t
        while x.op == "call" and x.a[0] in STACK and x.a[1] or x.op == "attr" and x.a[1] == "T":
            x = x.a[1][0] if x.op == "call" else x.a[0]
        a = self.axis(x)
        if a == "X":
            self.rep.ok("labels", "%s: columns in the caller's order" % self.kind)
        elif a in ("F", WRONG):
            self.viol("labels", "order", "the columns of the result are not in the order of the caller's table", e.line)
        else:
            self.rep.undecided("labels", e.where, "%s: order of %s" % (self.kind, Y.show(t)[:40]))


STACK = ("numpy.concatenate", "numpy.hstack", "numpy.column_stack", "numpy.stack", "numpy.array", "numpy.transpose", "numpy.vstack", "numpy.asarray")


def one_column(prog, rep, cls):
    """In the fit of a single column, values and labels are sorted by the same order."""
    f = cls.find("fit")
    if f is None:
        raise M.AnalysisBroken("MDLPVectDiscretizer.fit not found")
    ps = [p[0] for p in f.params()]
    S = Y.Sym(prog, opaque=("generate_cut_point", "get_entropy_nb_ones", "evaluate"))
    S.run(f, self_cls=cls)
    C = Cols.__new__(Cols)
    C.S, C.frame, C.f, C.rep = S, False, f, rep
    C.X = C.y = None
    C.self_t = Y.mk("self", cls.qual)
    xs, ys, line = {}, {}, f.node.lineno
    for e in S.events:
        terms = []
        if e.kind == "getitem" and e.data[1].op in ("bin", "item", "c", "elem", "pos", "loop", "slice"):
            terms = [e.data[0]]
        elif e.kind in ("call", "rcall", "meth"):
            for d in e.data:
                terms += list(d) if isinstance(d, tuple) else [d] if isinstance(d, Y.T) else list(d.values()) if isinstance(d, dict) else []
        for t in terms:
            if not isinstance(t, Y.T):
                continue
            b, sel = C.rows(t)
            if b.op == "p" and b.a[0] in ps[1:3]:
                if e.kind == "call" and isinstance(e.data[1], str) and not e.data[1].startswith("skmine"):
                    continue
                d = xs if b.a[0] == ps[1] else ys
                d.setdefault(tuple(s for s in sel if s.op != "slice"), e.line)
    if not xs or not ys:
        rep.undecided("rows", f.where, "one column: values or labels are not found")
        return
    for sx in xs:
        for sy in ys:
            if sx == sy:
                rep.ok("rows", "one column: values and labels in one order")
            else:
                rep.violation("rows", f.module.rel, f.qual, "order", "cut points are looked for in the labels %s but read off the values %s"
                              % (" ".join("[%s]" % Y.show(t)[:50] for t in sy) or "as given", " ".join("[%s]" % Y.show(t)[:50] for t in sx) or "as given"), ys[sy])
                return


# ------------------------------------------------------------------------------------------ C22
FETCH = ("wget.download", "urllib.request.urlopen", "urllib.request.urlretrieve", "requests.get", "requests.request", "urllib3.request")
SHAPE = ("sep", "delimiter", "on_bad_lines", "error_bad_lines", "warn_bad_lines", "usecols", "skiprows", "skipfooter", "engine", "encoding", "compression",
         "storage_options", "low_memory", "memory_map", "chunksize", "comment", "skipinitialspace", "quoting", "quotechar", "escapechar", "lineterminator",
         "encoding_errors")
TESTS = ("os.path.exists", "os.path.isfile", "os.path.isdir", "os.path.lexists")
REMOVE = ("os.remove", "os.unlink", "shutil.rmtree", "os.rmdir")
MOVE = ("os.replace", "os.rename", "shutil.move")


def check_C22(prog, rep):
    rep.rule("network", "The network is contacted only where the dataset is known not to be in the cache.")
    rep.rule("where", "Every file that is read, written or looked for lies in the directory the caller chose.")
    rep.rule("same", "The dataset is parsed and finished alike on both branches.")
    rep.rule("written", "The cache is written in the form the cached branch reads.")
    rep.rule("complete", "A dataset that could not be written completely is removed, whatever interrupted it, or is written elsewhere first.")
    n = 0
    done = []
    for m in prog.modules.values():
        if not m.name.startswith("skmine.datasets") or ".tests" in m.name:
            continue
        for f in list(m.functions.values()) if isinstance(getattr(m, "functions", None), dict) else prog_funcs(prog, m):
            if f.cls is not None or "data_home" not in [p[0] for p in f.params()] or f.name.startswith("_"):
                continue
            done.append(f)
    if len(done) < 5:
        raise M.AnalysisBroken("functions with a data_home are not found")
    for f in done:
        if f.name == "get_data_home":
            home(prog, rep, f)
        else:
            n += Fetch(prog, rep, f).judge()
    if n < 2:
        raise M.AnalysisBroken("no function that downloads a dataset was found")
    rep.need("network", 2)
    rep.need("complete", 1)


def prog_funcs(prog, m):
    return [f for f in prog.func_by_node.values() if f.module is m]


def home(prog, rep, f):
    """An explicit directory comes first."""
    p = Y.mk("p", "data_home")

    def decide(c, st):
        if c.op == "cmp" and c.a[1] is p and c.a[2].op == "c" and c.a[2].a[0] is None:
            return c.a[0] in ("is not", "!=")
        if c is p:
            return True
        return None
    S = Y.Sym(prog, decide=decide)
    for _, v, ev in S.run(f):
        if any(x is p for x in Y.walk(v)):
            rep.ok("where", "an explicit directory is used")
        else:
            rep.violation("where", f.module.rel, f.qual, "data_home", "returns %s even if a directory is given" % Y.show(v)[:60], f.node.lineno)


class Fetch:
    def __init__(self, prog, rep, f):
        self.prog, self.rep, self.f = prog, rep, f
        self.home = Y.mk("p", "data_home")
        self.state = None

    def viol(self, rule, construct, msg, e):
        g = e.func if e is not None else self.f
        self.rep.violation(rule, g.module.rel, g.qual, construct, "%s: %s" % (self.f.name, msg), e.line if e is not None else self.f.node.lineno)

    # -- what is cached
    def test(self, c):
        """(path, sense) if c asks whether a file is there."""
        pos = True
        while c.op == "not":
            c, pos = c.a[0], not pos
        if c.op == "call" and c.a[0] in TESTS and c.a[1]:
            return self.path(c.a[1][0]), pos
        if c.op == "meth" and c.a[1] in ("exists", "is_file", "is_dir") and not c.a[2]:
            return self.path(c.a[0]), pos
        if c.op == "cmp" and c.a[0] in ("in", "not in"):
            d = c.a[2]
            while d.op == "call" and d.a[0] in ("builtins.set", "builtins.list", "builtins.sorted", "builtins.tuple", "builtins.frozenset") and d.a[1]:
                d = d.a[1][0]
            if d.op == "call" and d.a[0] == "os.listdir":
                d = d.a[1][0] if d.a[1] else Y.const(".")
                return self.path(Y.mk("call", "os.path.join", (d, c.a[1]), ())), pos == (c.a[0] == "in")
        return None

    def path(self, t):
        """Normal form of a path: nested joins are flattened."""
        parts = []

        def go(x):
            if x.op == "call" and x.a[0] == "os.path.join":
                for y in x.a[1]:
                    go(y)
            elif x.op == "call" and x.a[0] in ("os.path.abspath", "os.path.realpath", "os.path.normpath", "pathlib.Path", "builtins.str", "os.fspath",
                                               "os.path.expanduser") and len(x.a[1]) == 1:
                go(x.a[1][0])
            elif x.op == "bin" and x.a[0] == "/":
                go(x.a[1])
                go(x.a[2])
            else:
                parts.append(x)
        go(t)
        return tuple(parts)

    def run(self, cached):
        def decide(c, st):
            if any(x.op == "exc" for x, _ in st.conds):
                return None
            t = self.test(c)
            if t is not None and self.marked(t[0]):
                return cached == t[1]
            return None
        S = Y.Sym(self.prog, decide=decide)
        S.out = S.run(self.f)
        return S

    def marked(self, path):
        return self.marker is None or path == self.marker

    def judge(self):
        rep = self.rep
        S = Y.Sym(self.prog)
        S.run(self.f)
        nets = [e for e in S.events if self.network(e)]
        if not nets:
            self.forward(S)
            return 0
        # the test that guards the download
        self.marker = None
        marks = {}
        for e in nets:
            found = False
            for c, p in e.conds:
                for t, pol in self.tests_in(c, p):
                    if pol is False:
                        found = True
                        marks.setdefault(t, c)
                    elif pol is True:
                        self.viol("network", "download", "the dataset is downloaded although it is in the cache", e)
                        return 1
            if not found:
                if any(self.any_test(c) for c, p in e.conds):
                    rep.undecided("network", e.where, "%s: condition of the download" % self.f.name)
                else:
                    self.viol("network", "download", "the network is contacted whether or not the dataset is in the cache", e)
                    return 1
            else:
                rep.ok("network", "%s: download guarded" % self.f.name)
        if len(marks) != 1:
            rep.undecided("network", self.f.where, "%s: %d tests of the cache" % (self.f.name, len(marks)))
            return 1
        self.marker = next(iter(marks))
        C, F = self.run(True), self.run(False)
        if any(self.network(e) for e in C.events):
            self.viol("network", "download", "the network is contacted although the dataset is in the cache", [e for e in C.events if self.network(e)][0])
        self.where(C, F)
        self.same(C, F)
        self.complete(F)
        return 1

    def any_test(self, c):
        return any(self.test(x) is not None for x in Y.walk(c))

    def tests_in(self, c, p):
        t = self.test(c)
        if t is not None:
            return [(t[0], t[1] == p)]
        if c.op == "not":
            return self.tests_in(c.a[0], not p)
        if c.op in ("and", "or") or c.op == "boolop":
            xs = [x for a in c.a for x in (a if isinstance(a, tuple) else (a,)) if isinstance(x, Y.T)]
            name = c.op if c.op != "boolop" else c.a[0]
            if (name == "and") == p:
                return [y for x in xs for y in self.tests_in(x, p)]
        return []

    def network(self, e):
        if e.kind != "call":
            return False
        n, args = e.data[1], e.data[2]
        if n in FETCH:
            return True
        if n in ("os.system", "subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.Popen") and args:
            return any(x.op == "c" and isinstance(x.a[0], str) and ("wget" in x.a[0] or "curl" in x.a[0] or "://" in x.a[0]) for x in Y.walk(args[0]))
        if isinstance(n, str) and n.startswith("pandas.read_") and args:
            return url(args[0])
        return False

    def forward(self, S):
        """A function that only calls another fetcher hands it the caller's directory."""
        for e in S.events:
            if e.kind == "enter" or e.kind == "rcall":
                pass
        name = {f.name for f in prog_fetchers(self.prog)}
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Call):
                g = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
                if g in name and g != "get_data_home":
                    vals = [k.value for k in n.keywords if k.arg == "data_home"] + [a for a in n.args]
                    if any(isinstance(x, ast.Name) and x.id == "data_home" for v in vals for x in ast.walk(v)) or any(k.arg is None for k in n.keywords):
                        self.rep.ok("where", "%s forwards data_home" % self.f.name)
                    elif not vals or all(isinstance(v, (ast.Constant, ast.Name)) for v in vals):
                        self.rep.violation("where", self.f.module.rel, self.f.qual, g, "%s does not hand the caller's data_home to %s" % (self.f.name, g), n.lineno)

    # -- where
    def files(self, e):
        """(path, 'r' or 'w') of a file access."""
        if e.kind == "call":
            n, args, kw = e.data[1], e.data[2], e.data[3]
            if n in ("builtins.open", "gzip.open", "io.open") and args:
                m = args[1] if len(args) > 1 else kw.get("mode")
                mode = m.a[0] if m is not None and m.op == "c" else "r"
                return args[0], "w" if any(c in str(mode) for c in "wax") else "r"
            if isinstance(n, str) and n.startswith("pandas.read_") and args and not url(args[0]):
                return args[0], "r"
            if n == "wget.download":
                out = args[1] if len(args) > 1 else kw.get("out")
                return (out, "d") if out is not None else (Y.const("."), "d")
            if n == "urllib.request.urlretrieve":
                out = args[1] if len(args) > 1 else kw.get("filename")
                return (out, "w") if out is not None else None
            if n == "os.listdir":
                return (args[0], "l") if args else (Y.const("."), "l")
            if n in ("shutil.copyfile", "shutil.copy") and len(args) > 1:
                return args[1], "w"
        if e.kind == "meth" and e.data[2] in ("to_csv", "to_pickle", "to_json", "to_parquet", "write_text", "write_bytes", "tofile"):
            a = e.data[3]
            if e.data[2] in ("write_text", "write_bytes"):
                return e.data[1], "w"
            p = a[0] if a else e.data[4].get("path_or_buf") or e.data[4].get("path")
            return (p, "w") if p is not None else None
        return None

    def where(self, C, F):
        for S in (C, F):
            for e in S.events:
                x = self.files(e)
                if x is None:
                    continue
                t = x[0]
                if t.op == "enter":
                    continue
                if any(y is self.home for y in Y.walk(t)):
                    self.rep.ok("where", "%s: %s" % (self.f.name, x[1]))
                elif any(y.op == "call" and y.a[0] == "os.environ.get" for y in Y.walk(t)) or t.op == "c" and e.func is self.f and x[1] in "rwd" and not self.chdir(S, e):
                    self.viol("where", "path", "%s is not in the directory the caller chose" % Y.show(t)[:60], e)
                elif t.op == "p" and e.func is self.f and t.a[0] != "data_home" and not self.chdir(S, e):
                    self.viol("where", "path", "%s is not in the directory the caller chose" % Y.show(t)[:60], e)

    @staticmethod
    def chdir(S, e):
        return any(x.kind == "call" and x.data[1] == "os.chdir" and x.i < e.i for x in S.events)

    # -- same
    def same(self, C, F):
        rep = self.rep
        src_c, src_f = {}, {}
        kws = []
        for S, src, first in ((C, src_c, False), (F, src_f, True)):
            for e in S.events:
                if e.kind == "call" and isinstance(e.data[1], str) and e.data[1].startswith("pandas.read_"):
                    net = url(e.data[2][0]) if e.data[2] else False
                    if net == first and (first or e.data[2] and self.path(e.data[2][0]) == self.marker):
                        src[e.data[0]] = e
        rc = [v for _, v, _ in C.out if v is not None]
        rf = [v for _, v, _ in F.out if v is not None]
        w = [e for e in F.events if e.kind == "meth" and e.data[2] == "to_csv"]
        direct = bool(src_f)
        if direct and not src_c:
            rep.undecided("same", self.f.where, "%s: how the cached file is read" % self.f.name)
            return
        dl = [(e, self.files(e)) for e in F.events if self.network(e) and self.files(e)]
        for e, (t, k) in dl:
            if k in "dw":
                if self.path(t) == self.marker:
                    rep.ok("same", "%s: downloaded to the place that is looked at" % self.f.name)
                elif any(y is self.home for y in Y.walk(t)):
                    moved = [x for x in F.events if x.kind == "call" and x.data[1] in MOVE and len(x.data[2]) > 1 and self.path(x.data[2][1]) == self.marker]
                    if not moved:
                        self.viol("same", "path", "the dataset is downloaded to %s, but looked for in %s" % (Y.show(t)[-50:], join(self.marker)[-60:]), e)
        cn = Canon(src_c, src_f) if direct else Canon()
        a, b = [cn.of(v) for v in rc], [cn.of(v) for v in rf]
        if len(a) == len(b) >= 1:
            if a == b:
                rep.ok("same", "%s: parsed alike" % self.f.name)
            else:
                x, y = next(diff(x, y) for x, y in zip(a, b) if x != y)
                self.viol("same", "parse", "the dataset is parsed differently from the cache and on the first download: %s against %s" % (x[:80], y[:80]), None)
        else:
            rep.undecided("same", self.f.where, "%s: several returns" % self.f.name)
        pa, pb = self.posts(C, cn), self.posts(F, cn)
        if pa == pb:
            rep.ok("same", "%s: finished alike (%d attributes)" % (self.f.name, len(pa)))
        else:
            d = [x for x in pa if x not in pb] + [x for x in pb if x not in pa]
            if d:
                self.viol("same", d[0][0], "the dataset is finished differently from the cache and on the first download (%s)" % d[0][0], None)
            else:
                rep.undecided("same", self.f.where, "%s: order of the finishing steps" % self.f.name)
        if direct:
            self.written(C, F, cn, src_c, w)

    def posts(self, S, cn):
        out = []
        for e in S.events:
            if e.kind == "setattr" and isinstance(e.data[1], str) and e.data[0].op not in ("self", "new"):
                out.append((e.data[1] if e.data[0].op != "attr" else e.data[0].a[1] + "." + e.data[1], cn.of(e.data[0]), cn.of(e.data[2])))
            elif e.kind == "meth" and e.data[4].get("inplace") is not None and e.data[2] != "to_csv":
                out.append((e.data[2], cn.of(e.data[1]), cn.of(Y.mk("tup", tuple(e.data[3])))))
        return out

    def written(self, C, F, cn, src_c, w):
        rep = self.rep
        if not w:
            if not any(self.files(e) and self.files(e)[1] == "w" for e in F.events):
                self.viol("written", "to_csv", "the dataset is not written to the cache", None)
            else:
                rep.undecided("written", self.f.where, "%s: how the cache is written" % self.f.name)
            return
        e = w[-1]
        kw = dict(e.data[4])
        p = e.data[3][0] if e.data[3] else kw.pop("path_or_buf", None)
        target = self.path(p) if p is not None else ()
        if target != self.marker and not any(x.kind == "call" and x.data[1] in MOVE and len(x.data[2]) > 1 and self.path(x.data[2][0]) == target and
                                             self.path(x.data[2][1]) == self.marker for x in F.events) and \
                not any(x.kind == "meth" and x.data[2] in ("replace", "rename") and x.data[3] and self.path(x.data[3][0]) == self.marker for x in F.events):
            self.viol("written", "path", "the dataset is written to %s, but looked for in %s" % (join(target)[-60:], join(self.marker)[-60:]), e)
        # what is written
        rf = [v for _, v, _ in F.out if v is not None]
        W = cn.of(e.data[1])
        R = [cn.of(v) for v in rf]
        if all(W in r for r in R):
            rep.ok("written", "%s: what is written is what is returned" % self.f.name)
        elif any(y in cn.src for y in Y.walk(e.data[1])):
            self.viol("written", "to_csv", "what is written (%s) is not what is returned" % W[:60], e)
        else:
            rep.undecided("written", e.where, W[:60])
        early = [x for x in F.events if x.kind == "setattr" and x.i < e.i and x.data[1] == "index" and cn.of(x.data[0]) == W]
        for x in early:
            if any(y.op == "call" and y.a[0] == "pandas.to_datetime" and dict(y.a[2]).get("format") is not None for y in Y.walk(x.data[2])):
                self.viol("written", "index", "the index is converted before the dataset is written, and converted again, with the format of the source, "
                          "when it is read from the cache", x)
            else:
                rep.undecided("written", x.where, "the index is set before the dataset is written")
        # how
        r = next(iter(src_c.values()))
        rk = dict(r.data[3])

        def val(d, k, default):
            v = d.get(k)
            return default if v is None else v.a[0] if v.op == "c" else v
        if r.data[1] != "pandas.read_csv":
            rep.undecided("written", r.where, r.data[1])
            return
        hw, hr = val(kw, "header", True), val(rk, "header", "infer")
        names = rk.get("names") is not None
        if isinstance(hw, Y.T) or isinstance(hr, Y.T):
            rep.undecided("written", e.where, "header")
        elif bool(hw) != (hr is not None and not (hr == "infer" and names)):
            self.viol("written", "header", "the cache is written %s a header, but read as if it had %s" % ("with" if hw else "without", "none" if hw else "one"), e)
        else:
            rep.ok("written", "header")
        iw, ir = val(kw, "index", True), val(rk, "index_col", None)
        if isinstance(iw, Y.T) or isinstance(ir, Y.T):
            rep.undecided("written", e.where, "index")
        elif bool(iw) != (ir is not None and ir is not False):
            self.viol("written", "index", "the cache is written %s its index, but read as if it %s there" % ("with" if iw else "without", "was not" if iw else "was"), e)
        elif iw and ir != 0:
            self.viol("written", "index", "the index is written as the first column, but read from column %s" % (ir,), e)
        else:
            rep.ok("written", "index")
        for k, d in (("sep", ","), ("encoding", "utf-8"), ("quotechar", '"'), ("quoting", 0), ("escapechar", None), ("decimal", "."), ("compression", "infer"),
                     ("lineterminator", None)):
            a, b = val(kw, k, d), val(rk, k, val(rk, "delimiter", d) if k == "sep" else d)
            if isinstance(a, Y.T) or isinstance(b, Y.T):
                if a is not b:
                    rep.undecided("written", e.where, k)
            elif a != b:
                self.viol("written", k, "the cache is written with %s=%r, but read with %r" % (k, a, b), e)
        for k in ("columns", "na_rep", "date_format", "float_format", "mode", "chunksize", "line_terminator"):
            if k in kw:
                if k == "na_rep" and kw[k].op == "c" and kw[k].a[0] not in ("", "NA", "NaN", "nan", "null", "NULL", "N/A", "n/a", "#N/A", "<NA>", "None", "-nan"):
                    self.viol("written", k, "missing values are written as %r, which is read as a value" % kw[k].a[0], e)
                elif k != "chunksize":
                    rep.undecided("written", e.where, k)

    # -- complete
    def complete(self, F):
        rep = self.rep
        folder = any(e.kind == "call" and e.data[1] in ("os.makedirs", "os.mkdir") and e.data[2] and self.path(e.data[2][0]) == self.marker for e in F.events)
        for e in F.events:
            x = self.files(e)
            if x is None or x[1] == "l" or x[1] == "r":
                continue
            if x[1] == "d":
                rep.ok("complete", "%s: wget moves a complete download into place" % self.f.name)
                continue
            p = self.path(x[0])
            inside = p == self.marker or folder and any(self.under(y) for y in Y.walk(x[0]))
            if not inside:
                moved = [m for m in F.events if m.kind == "call" and m.data[1] in MOVE and len(m.data[2]) > 1 and self.path(m.data[2][0]) == p and m.i > e.i]
                if moved:
                    rep.ok("complete", "%s: written elsewhere, then moved" % self.f.name)
                continue
            state = None
            for r in F.events:
                if r.kind == "call" and r.data[1] in REMOVE and r.data[2] or r.kind == "meth" and r.data[2] == "unlink":
                    q = self.path(r.data[2][0] if r.kind == "call" else r.data[1])
                    if q != self.marker and q != p:
                        continue
                    for T, sec in r.tries:
                        if (T, "body") not in e.tries:
                            continue
                        if isinstance(sec, tuple):
                            h = T.handlers[sec[1]]
                            names = self.catches(h, r.func)
                            prior = [self.catches(g, r.func) for g in T.handlers[:sec[1]]]
                            if names is None or "BaseException" in names:
                                state = "ok" if not any(c.op not in ("iter", "exc") and self.test(c) is None for c, _ in r.conds[len(e.conds):]) else state or "maybe"
                            elif "KeyboardInterrupt" in names and "Exception" in names:
                                state = "ok"
                            elif state != "ok":
                                state = "partial:" + "/".join(sorted(names))
                        elif sec == "final" and state is None:
                            state = "maybe"
            if state == "ok":
                rep.ok("complete", "%s: removed if it could not be written" % self.f.name)
            elif state == "maybe":
                rep.undecided("complete", e.where, "%s: removed under a condition" % self.f.name)
            elif state is not None:
                self.viol("complete", "write", "a file that was not written completely is removed only on %s, not when the download is interrupted" % state[8:], e)
            else:
                self.viol("complete", "write", "an interruption leaves a truncated file in the cache, which later calls accept", e)

    def under(self, y):
        p = self.path(y)
        return len(p) >= len(self.marker) and p[:len(self.marker)] == self.marker

    @staticmethod
    def catches(h, f):
        if h.type is None:
            return None
        ns = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return {n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else "?" for n in ns}


def prog_fetchers(prog):
    return [f for f in prog.func_by_node.values() if f.cls is None and f.module.name.startswith("skmine.datasets") and "data_home" in [p[0] for p in f.params()]]


def url(t):
    return any(x.op == "c" and isinstance(x.a[0], str) and "://" in x.a[0] for x in Y.walk(t))


def join(p):
    return "/".join(Y.show(x) for x in p)


def diff(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    i = max(0, i - 30)
    return a[i:], b[i:]


class Canon:
    """Text of a term that does not depend on where it was built, nor on which of the two sources was parsed."""
    def __init__(self, *srcs):
        self.src = {}
        for s in srcs:
            for t, e in s.items():
                kw = {k: v for k, v in e.data[3].items() if k not in SHAPE}
                self.src[t] = "parsed(%s)" % ", ".join("%s=%s" % (k, self.of(v)) for k, v in sorted(kw.items()))
        self.memo = {}

    def of(self, t):
        if not hasattr(self, "memo"):
            self.memo = {}
        if t in self.src:
            return self.src[t]
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._of(t)
        return r

    def _of(self, t):
        if t.op in ("elem", "val", "pos"):
            return "%s(%s)" % (t.op, self.of(t.a[0]))
        if t.op == "comp":
            return "comp(%s, %s, %s)" % (t.a[0], self.of(t.a[1]), "; ".join("%s if %s" % (self.of(g[0]), [self.of(c) for c in g[2]]) for g in t.a[2]))
        if t.op in ("list", "dict", "set"):
            return "%s(%s)" % (t.op, self.arg(t.a[0]))
        if t.op in ("loop", "exc"):
            return t.op
        a = t.a
        if t.op in ("meth", "call", "new", "enter", "bound") and len(a) > 1 and isinstance(a[-1], int):
            a = a[:-1]
        return "%s(%s)" % (t.op, ", ".join(self.arg(x) for x in a))

    def arg(self, x):
        if isinstance(x, Y.T):
            return self.of(x)
        if isinstance(x, tuple):
            return "(%s)" % ", ".join(self.arg(y) for y in x)
        return str(x)
