"""C11 export and import of periodic patterns, C12 units of time."""
import ast
from fractions import Fraction
from .. import model as M
from .. import sym as Y
from .. import session as S
from . import common as K
from . import params as P

NS = {"ns": 1, "us": 10 ** 3, "ms": 10 ** 6, "s": 10 ** 9, "m": 60 * 10 ** 9, "min": 60 * 10 ** 9, "h": 3600 * 10 ** 9, "D": 86400 * 10 ** 9, "d": 86400 * 10 ** 9}
DELTA = {"microseconds": NS["us"], "milliseconds": NS["ms"], "seconds": NS["s"], "minutes": NS["m"], "hours": NS["h"], "days": NS["D"]}
OPAQUE = ("codeLength", "getOccLists", "nbPatternsByType", "getNbUncoveredOccsByEv", "codeLengthResiduals", "getOccsStar", "getOccs",
          "getUncoveredOccs", "getEDict", "mine_seqs", "cost_one", "draw_pattern")


def kind(cls, auto, dt):
    """decide-callback for one setting of the rescaling option and of the kind of index."""
    self_t = Y.mk("self", cls.qual)
    ans = {Y.mk("attr", self_t, "auto_time_scale"): auto, Y.mk("attr", self_t, "is_datetime_"): dt, Y.mk("p", "is_datetime"): dt}

    def decide(c, st=None):
        if c in ans:
            return ans[c]
        if c.op == "not":
            r = decide(c.a[0])
            return None if r is None else not r
        if c.op in ("and", "or"):
            rs = [decide(x) for x in c.a[0]]
            stop = c.op == "or"
            if stop in rs:
                return stop
            if None not in rs:
                return not stop
        if c.op == "cmp" and c.a[0] in ("is", "is not", "==", "!=") and c.a[1] in ans and c.a[2] in (Y.TRUE, Y.FALSE):
            r = ans[c.a[1]] == c.a[2].a[0]
            return r if c.a[0] in ("is", "==") else not r
        if c.op == "call" and c.a[0] == "builtins.bool" and len(c.a[1]) == 1:
            return decide(c.a[1][0])
        return None
    return decide


def get(prog):
    cls = prog.cls(S.ESTIMATORS["PeriodicPatternMiner"])
    for m in ("fit", "transform", "reconstruct", "get_residuals", "draw_pattern", "export_patterns", "import_patterns"):
        if cls.find(m) is None:
            raise M.AnalysisBroken("PeriodicPatternMiner has no %s" % m)
    return cls


def hints(prog):
    h = {}
    for a, q in (("miners_", "skmine.periodic.pattern_collection.PatternCollection"), ("data_details_", "skmine.periodic.data_sequence.DataSequence")):
        c = prog.cls(q)
        if c is not None:
            h[("attr", a)] = c
    return h


# ------------------------------------------------------------------------------------------ units
class Unit:
    """n: powers of 10**n_zeros, d: powers of div_nb_sec, k: constant factor, dt: already a point in time or a duration."""
    __slots__ = ("n", "d", "k", "dt")

    def __init__(self, n=0, d=0, k=Fraction(1), dt=False):
        self.n, self.d, self.k, self.dt = n, d, Fraction(k), dt

    def key(self):
        return (self.n, self.d, self.k, self.dt)

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        def po(b, e):
            if abs(e) > ODD // 2:
                return ["10**(n_zeros, div_nb_sec)"]
            return [] if not e else [b if e == 1 else "(%s)**%d" % (b, e)]
        fs = po("10**n_zeros", self.n) + po("div_nb_sec", self.d) + ([] if self.k == 1 else [str(self.k)])
        return ("value * " + " * ".join(fs)) if fs else "the value on the internal time axis"


ODD = 1000        # powers of ten of a factor 10 ** (... div_nb_sec ...), which nothing undoes


def frac(v):
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return None
    try:
        return Fraction(v)
    except (ValueError, OverflowError):
        return None


class Units:
    """Units of the terms of one analysed function, in one setting."""

    def __init__(self, Sy, n_t, d_t, attrs=None):
        self.Sy, self.n_t, self.d_t = Sy, set(n_t), set(d_t)
        self.attrs = attrs or {}      # attribute term -> Unit of a factor remembered by fit
        self.cols = {}                # frame term -> {column: set of Units or None}
        self.busy = set()
        self.memo = {}                # column read (term) -> its units when it was read last
        self.kept = set()             # (frame, column) whose later reads give the stored term itself

    # -- factors
    def factor(self, t, d=0):
        """Unit if t is a pure scale factor."""
        if d > 12:
            return None
        if t in self.d_t:
            return Unit(0, 1)
        if t in self.attrs:
            return self.attrs[t]
        if t.op == "c":
            f = frac(t.a[0])
            return Unit(0, 0, f) if f else None
        if t.op == "call" and t.a[0] in ("builtins.int", "builtins.float", "numpy.int64") and len(t.a[1]) == 1:
            return self.factor(t.a[1][0], d + 1)
        if t.op == "bin" and t.a[0] in ("*", "/", "//"):
            x, y = self.factor(t.a[1], d + 1), self.factor(t.a[2], d + 1)
            if x is None or y is None:
                return None
            s = 1 if t.a[0] == "*" else -1
            return Unit(x.n + s * y.n, x.d + s * y.d, x.k * y.k if s == 1 else x.k / y.k)
        base = exp = None
        if t.op == "bin" and t.a[0] == "**":
            base, exp = t.a[1], t.a[2]
        elif t.op == "call" and t.a[0] in ("builtins.pow", "numpy.power", "math.pow", "numpy.float_power") and len(t.a[1]) == 2:
            base, exp = t.a[1]
        if base is not None:
            if base.op == "c" and base.a[0] == 10:
                lin = Y.linear(exp)
                if lin and any(k in self.d_t for k in lin if k is not None) and all(k is None or k in self.n_t or k in self.d_t for k in lin):
                    return Unit(ODD, 0)
                if lin and all(k is None or k in self.n_t for k in lin):
                    m = [k for k in lin if k is not None]
                    if len(m) == 1 and lin[m[0]] == int(lin[m[0]]) and lin.get(None, 0) == int(lin.get(None, 0)):
                        return Unit(int(lin[m[0]]), 0, Fraction(10) ** int(lin.get(None, 0)))
            if exp.op == "c" and isinstance(exp.a[0], int):
                x = self.factor(base, d + 1)
                if x is not None:
                    return Unit(x.n * exp.a[0], x.d * exp.a[0], x.k ** exp.a[0])
        return None

    # -- frames
    def frame(self, t, d=0):
        """Columns of a frame term (current state), or None."""
        if t in self.cols:
            return self.cols[t]
        if d > 10:
            return None
        if t.op == "call" and t.a[0] == "pandas.concat" and t.a[1]:
            xs = t.a[1][0]
            if xs.op in ("list", "tup"):
                fs = [self.frame(x, d + 1) for x in xs.a[0]]
                if fs and all(f is not None for f in fs):
                    out = {}
                    for f in fs:
                        for c, u in f.items():
                            out[c] = u if c not in out else (None if u is None or out[c] is None else out[c] | u)
                    return out
            return None
        if t.op == "call" and t.a[0] == "pandas.merge" and len(t.a[1]) >= 2:
            return self.merged(t.a[1][0], t.a[1][1], dict(t.a[2]), d)
        if t.op == "meth" and t.a[1] in ("merge", "join") and t.a[2]:
            return self.merged(t.a[0], t.a[2][0], dict(t.a[3]), d)
        if t.op == "call" and isinstance(t.a[0], Y.T):
            # a method of a value that depends on the path
            out = None
            for x in P.leaves(t.a[0]):
                f = self.frame(Y.mk("meth", x.a[0], x.a[1], t.a[1], t.a[2], 0), d + 1) if x.op == "attr" else None
                if f is None:
                    return None
                out = f if out is None else {c: (None if out.get(c) is None or f.get(c) is None else out[c] | f[c]) for c in set(out) | set(f)}
            return out
        if t.op == "meth":
            f = self.frame(t.a[0], d + 1)
            if f is None:
                return None
            kw = dict(t.a[3])
            if t.a[1] in ("sort_values", "drop_duplicates", "drop", "copy", "reset_index", "dropna", "sort_index", "head", "tail", "set_index",
                          "loc", "iloc", "where", "mask", "infer_objects", "convert_dtypes", "query", "nlargest", "nsmallest", "sample", "reindex"):
                return f
            if t.a[1] == "rename":
                return self.renamed(f, kw.get("columns"))
            if t.a[1] == "assign":
                f = dict(f)
                for c, v in kw.items():
                    f[c] = self.unit(v)
                return f
            if t.a[1] == "astype" and t.a[2] and t.a[2][0].op == "dict":
                f = dict(f)
                for c, ty in t.a[2][0].a[0]:
                    if c.op == "c" and f.get(c.a[0]):
                        f[c.a[0]] = self.typed(f[c.a[0]], ty)
                return f
            return None
        if t.op == "idx" and not (t.a[1].op == "c" and isinstance(t.a[1].a[0], str)):
            f = self.frame(t.a[0], d + 1)
            if f is not None:
                cs = names(t.a[1])
                return {c: f.get(c) for c in cs} if cs else f
        if t.op == "ite":
            a, b = self.frame(t.a[1], d + 1), self.frame(t.a[2], d + 1)
            if a is not None and b is not None:
                return {c: (None if a.get(c) is None or b.get(c) is None else a[c] | b[c]) for c in set(a) | set(b)}
        return None

    def merged(self, a, b, kw, d):
        fa, fb = self.frame(a, d + 1), self.frame(b, d + 1)
        if fa is None or fb is None:
            return None
        how = kw.get("how")
        how = how.a[0] if how is not None and how.op == "c" else "inner"
        out = dict(fb)
        out.update(fa)
        if how not in ("left", "inner"):
            for c in set(fa) & set(fb):
                out[c] = None if fa[c] is None or fb[c] is None else fa[c] | fb[c]
        return out

    @staticmethod
    def renamed(f, m):
        f = dict(f)
        if m is not None and m.op == "dict":
            for k, v in m.a[0]:
                if k.op == "c" and v.op == "c" and k.a[0] in f:
                    f[v.a[0]] = f.pop(k.a[0])
        return f

    def typed(self, us, ty):
        if us is None:
            return None
        name = ty.a[0] if ty.op == "c" and isinstance(ty.a[0], str) else ""
        for pre in ("datetime64[", "timedelta64["):
            if name.startswith(pre) and name.endswith("]"):
                return self.to_time(us, NS.get(name[len(pre):-1]))
        if name in ("datetime64", "timedelta64"):
            return self.to_time(us, 1)
        return us

    @staticmethod
    def to_time(us, ns):
        if us is None or ns is None:
            return None
        return {Unit(u.n, u.d, u.k * ns if not u.dt else u.k, True) for u in us}

    # -- values
    def unit(self, t):
        """Set of units of a term that stands for a time or a distance; None if unknown."""
        if t in self.busy:
            return set()
        self.busy.add(t)
        try:
            return self._unit(t)
        finally:
            self.busy.discard(t)

    def _unit(self, t):
        o = t.op
        if t in self.memo:
            return self.memo[t]
        if o == "c":
            return set() if not isinstance(t.a[0], str) else None
        if o == "ite":
            a, b = self.unit(t.a[1]), self.unit(t.a[2])
            return None if a is None or b is None else a | b
        if o == "loop":
            init, back = self.Sy.loops.get((t.a[0], t.a[1]), (None, ()))
            out = set()
            for x in ([init] if init is not None else []) + list(back):
                u = self.unit(x)
                if u is None:
                    return None
                out |= u
            return out
        if o == "bin":
            op, x, y = t.a
            if op in ("*", "/", "//"):
                fy = self.factor(y)
                fx = self.factor(x) if op == "*" else None
                if fy is not None:
                    us, f = self.unit(x), fy
                elif fx is not None:
                    us, f = self.unit(y), fx
                else:
                    return None
                if us is None:
                    return None
                s = 1 if op == "*" else -1
                return {Unit(u.n + s * f.n, u.d + s * f.d, u.k * f.k if s == 1 else u.k / f.k, u.dt) for u in us}
            if op in ("+", "-"):
                a, b = self.unit(x), self.unit(y)
                return None if a is None or b is None else a | b
            return None
        if o == "neg":
            return self.unit(t.a[0])
        if o == "comp":
            return self.unit(t.a[1]) if t.a[0] != "dict" else None
        if o == "list" and not t.a[0]:
            out = set()
            for e in self.Sy.events:
                if e.kind == "meth" and e.data[1] is t and e.data[2] in ("append", "insert"):
                    u = self.unit(e.data[3][-1])
                    if u is None:
                        return None
                    out |= u
            return out or None
        if o in ("list", "tup"):
            out = set()
            for x in t.a[0]:
                u = self.unit(x)
                if u is None:
                    return None
                out |= u
            return out
        if o == "idx" and t.a[1].op == "c" and isinstance(t.a[1].a[0], str):
            f = self.frame(t.a[0])
            if f is not None:
                return f.get(t.a[1].a[0])
        if o == "idx" and t.a[0].op == "attr" and t.a[0].a[1] in ("loc", "iloc", "at", "iat"):
            f = self.frame(t.a[0].a[0])
            cs = names(t.a[1].a[0][-1]) if t.a[1].op == "tup" else None
            if f is not None and cs:
                us = [f.get(c) for c in cs]
                return None if None in us else set().union(*us)
        if o == "attr":
            f = self.frame(t.a[0])
            if f is not None and t.a[1] in f:
                return f[t.a[1]]
        if o == "elem":
            f = t.a[0]
            if f.op in ("idx", "attr", "comp", "list"):
                if f.op == "idx" and self.frame(f.a[0]) is not None or f.op == "attr" and self.frame(f.a[0]) is not None or f.op in ("comp",):
                    return self.unit(f)
            if f.op == "list" and not f.a[0]:
                return self.unit(f)
            if f.op == "elem":
                u = self.unit(f)
                return u
        if o == "call" and not isinstance(t.a[0], Y.T):
            n, a, kw = t.a[0], t.a[1], dict(t.a[2])
            if n in ("builtins.int", "builtins.list", "builtins.tuple", "builtins.abs", "builtins.sum", "numpy.abs", "numpy.sum", "numpy.array",
                     "numpy.asarray", "pandas.Series", "numpy.int64", "builtins.float", "builtins.sorted", "pandas.Index", "numpy.absolute") and a:
                return self.unit(a[0])
            if n in ("pandas.to_timedelta", "pandas.Timedelta", "pandas.to_datetime", "pandas.Timestamp", "numpy.timedelta64", "numpy.datetime64") and a:
                un = a[1] if len(a) > 1 else kw.get("unit")
                ns = 1 if un is None else NS.get(un.a[0]) if un.op == "c" else None
                return self.to_time(self.unit(a[0]), ns)
            if n == "datetime.timedelta" and len(kw) == 1 and not a and next(iter(kw)) in DELTA:
                return self.to_time(self.unit(next(iter(kw.values()))), DELTA[next(iter(kw))])
            if n in ("datetime.datetime.utcfromtimestamp", "datetime.datetime.fromtimestamp") and a:
                return self.to_time(self.unit(a[0]), NS["s"])
            return None
        if o == "meth":
            n, r, a, kw = t.a[1], t.a[0], t.a[2], dict(t.a[3])
            if n == "astype" and a:
                us = self.unit(r)
                return self.typed(us, a[0])
            if n in ("abs", "sum", "copy", "tolist", "to_list", "to_numpy", "reset_index", "sort_values", "round"):
                return self.unit(r)
            if n in ("mul", "multiply", "div", "truediv", "floordiv") and a:
                f, us = self.factor(a[0]), self.unit(r)
                if f is None or us is None:
                    return None
                s = 1 if n[0] == "m" else -1
                return {Unit(u.n + s * f.n, u.d + s * f.d, u.k * f.k if s == 1 else u.k / f.k, u.dt) for u in us}
        if o in ("unk", "hv", "cmp", "closure", "new", "fn", "dict", "set"):
            return None
        return {Unit()}

    # -- one pass over the events
    def run(self):
        for e in self.Sy.events:
            self.step(e)

    def build(self, data):
        """{column: units} of pandas.DataFrame(data), or None."""
        if data.op == "call" and data.a[0] in ("builtins.list",) and data.a[1]:
            return self.build(data.a[1][0])
        if data.op == "dict" and not data.a[0]:
            recs = self.fields(data)
            return {k: self.unit(v[0]) if len(v) == 1 else None for k, v in recs.items()} if recs else None
        if data.op == "dict":
            return {k.a[0]: self.unit(v) for k, v in data.a[0] if k.op == "c"}
        recs = None
        if data.op == "comp" and len(data.a[2]) == 1:
            recs = [data.a[1]]
        elif data.op == "list" and not data.a[0]:
            recs = []
            for e in self.Sy.events:
                if e.kind == "meth" and e.data[1] is data:
                    if e.data[2] in ("append", "insert"):
                        recs.append(e.data[3][-1])
                    elif e.data[2] == "extend" and e.data[3] and e.data[3][0].op == "comp":
                        recs.append(e.data[3][0].a[1])
                    elif e.data[2] in ("extend",):
                        return None
        if not recs:
            return None
        out = {}
        for r in recs:
            for x in P.leaves(r):
                if x.op == "dict":
                    for k, vs in self.fields(x).items():
                        for v in vs:
                            u = self.unit(v)
                            out[k] = u if k not in out else (None if u is None or out[k] is None else out[k] | u)
                elif x.op in ("tup", "list"):
                    for i, v in enumerate(x.a[0]):
                        u = self.unit(v)
                        out[i] = u if i not in out else (None if u is None or out[i] is None else out[i] | u)
                else:
                    return None
        return out

    def fields(self, d):
        """Values of the constant keys of a dictionary term: the last value written."""
        out = {k.a[0]: [v] for k, v in d.a[0] if k is not None and k.op == "c"}
        for e in self.Sy.events:
            if e.kind == "store" and e.data[0] is d and e.data[1].op == "c":
                out[e.data[1].a[0]] = [e.data[2]]
            elif e.kind == "meth" and e.data[1] is d and e.data[2] == "update":
                for a in e.data[3]:
                    if a.op == "dict":
                        for k, v in a.a[0]:
                            if k is not None and k.op == "c":
                                out[k.a[0]] = [v]
                for k, v in e.data[4].items():
                    out[k] = [v]
        return out

    def step(self, e):
        if e.kind in ("getitem", "getattr"):
            b, k = e.data
            if b in self.cols:
                c = k if isinstance(k, str) else k.a[0] if k.op == "c" else None
                if c in self.cols[b] and (b, c) not in self.kept:
                    t = Y.mk("attr", b, c) if isinstance(k, str) else Y.mk("idx", b, k)
                    self.memo.pop(t, None)
                    self.memo[t] = self.cols[b][c]
            return
        if e.kind == "call" and e.data[1] in ("pandas.DataFrame", "pandas.DataFrame.from_records") and e.data[2]:
            c = self.build(e.data[2][0])
            cols = names(e.data[3]["columns"]) if "columns" in e.data[3] else None
            if c is not None:
                if cols and c and all(isinstance(k, int) for k in c):
                    c = {cols[i]: u for i, u in c.items() if i < len(cols)}
                self.cols[e.data[0]] = c
        elif e.kind == "meth" and e.data[1] in self.cols:
            fr = self.cols[e.data[1]]
            inplace = e.data[4].get("inplace")
            if e.data[2] == "rename" and inplace is Y.TRUE:
                self.cols[e.data[1]] = self.renamed(fr, e.data[4].get("columns"))
            elif e.data[2] == "insert" and len(e.data[3]) > 2 and e.data[3][1].op == "c":
                fr[e.data[3][1].a[0]] = self.unit(e.data[3][2])
        elif e.kind == "setattr" and e.data[0] in self.cols and isinstance(e.data[1], str):
            if e.data[1] in self.cols[e.data[0]]:
                self.cols[e.data[0]][e.data[1]] = self.unit(e.data[2])
        elif e.kind == "store":
            b, k, v = e.data
            if b.op == "attr" and b.a[1] in ("loc", "iloc", "at"):
                b = b.a[0]
                k = k.a[0][-1] if k.op == "tup" else None
            fr = self.cols.get(b)
            if fr is None or k is None:
                return
            cs = names(k)
            if e.data[0] is b and k.op == "c":
                self.kept.add((b, k.a[0]))
            else:
                for c in cs or list(fr):
                    if (b, c) in self.kept:
                        fr[c] = None
            if cs is None and k.op == "elem":
                cs = names(k.a[0])
            if cs is None:
                for c in fr:
                    fr[c] = None
                return
            if v.op == "bin" and v.a[0] == "*" and len(cs) > 1:
                f = self.factor(v.a[2]) or self.factor(v.a[1])
                src = v.a[1] if self.factor(v.a[2]) is not None else v.a[2]
                if f is not None and self.same_cols(src, b, cs):
                    for c in cs:
                        fr[c] = None if fr.get(c) is None else {Unit(u.n + f.n, u.d + f.d, u.k * f.k, u.dt) for u in fr[c]}
                    return
            if len(cs) > 1 and k.op != "elem":
                u = self.unit(v)
                for c in cs:
                    fr[c] = u
                return
            if k.op == "elem":
                for c in cs:
                    v2 = subst(v, k, Y.const(c))
                    fr[c] = self.unit(v2)
                return
            fr[cs[0]] = self.unit(v)

    def same_cols(self, src, b, cs):
        if src.op == "idx":
            x, k = src.a
            if x.op == "attr" and x.a[1] in ("loc", "iloc", "at"):
                x, k = x.a[0], k.a[0][-1] if k.op == "tup" else None
            return x is b and k is not None and names(k) == cs
        return False


def subst(t, old, new, memo=None):
    memo = {} if memo is None else memo
    if t is old:
        return new
    if isinstance(t, tuple):
        return tuple(subst(x, old, new, memo) for x in t)
    if not isinstance(t, Y.T) or t.op == "c":
        return t
    if t in memo:
        return memo[t]
    a = tuple(subst(x, old, new, memo) for x in t.a)
    r = t if a == t.a else Y.mk(t.op, *a)
    memo[t] = r
    return r


def names(t):
    """Constant strings named by a term: 'a', ['a', 'b'], ('a', 'b')."""
    if t is None:
        return None
    if t.op == "c":
        return [t.a[0]] if isinstance(t.a[0], str) else None
    if t.op in ("list", "tup") and t.a[0] and all(x.op == "c" and isinstance(x.a[0], str) for x in t.a[0]):
        return [x.a[0] for x in t.a[0]]
    return None


# ------------------------------------------------------------------------------------------ C12
TABLES = {"transform": {"t0": "start points", "period_major": "periods", "E": "shift corrections", "sum_E": "shift corrections"},
          "reconstruct": {"time": "occurrence times"}, "get_residuals": {"time": "residual times"}}


def check_C12(prog, rep):
    rep.rule("remembered", "The factor that fit remembers is the one by which it divided the times: the digits counted are the divisions by ten "
             "made, and the divisor stored is the one applied, which divides all times; without rescaling, neither is applied.")
    rep.rule("restored", "Every time or distance that is reported is the internal value times 10**n_zeros_ * div_nb_sec_, once, when rescaling is on; "
             "when it is off, nothing (or that same factor, which is then one) is applied.")
    rep.rule("converted", "Conversions to dates and durations use the unit the numbers are in, and are made exactly for date indexes.")
    rep.rule("nanoseconds", "Dates become numbers only after they have been brought to nanoseconds, the unit in which they are read back.")
    rep.rule("handed on", "The two parts of the factor reach the textual form of the pattern under their own names.")
    cls = get(prog)
    self_t = Y.mk("self", cls.qual)
    n_t, d_t = Y.mk("attr", self_t, "n_zeros_"), Y.mk("attr", self_t, "div_nb_sec_")
    attrs, off = remembered(prog, rep, cls, self_t)
    nanoseconds(prog, rep, cls)
    for auto in (True, False):
        for dt in (True, False):
            for mn, cols in TABLES.items():
                table(prog, rep, cls, mn, cols, auto, dt, n_t, d_t, attrs, off)
            drawing(prog, rep, cls, auto, dt, n_t, d_t, attrs, off)
    textual(prog, rep, cls, n_t, d_t)
    exact(prog, rep, cls)
    rep.need("restored", 12)


def exact(prog, rep, cls):
    """Nothing coarsens the times on their way out, or reads them in the time zone of the machine."""
    rep.rule("exact", "In the operations that report times no time, period or distance is cut to a coarser step (floor, ceil, round, x // c * c), "
             "and numbers become dates without regard to the time zone of the machine.")
    todo, seen = [cls.find(m) for m in ("transform", "reconstruct", "get_residuals", "draw_pattern")], set()
    while todo:
        f = todo.pop()
        if f is None or f in seen:
            continue
        seen.add(f)
        u = K.Unit(prog, f.module, f)
        for n in u.nodes():
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self":
                todo.append(cls.find(n.func.attr))
            elif isinstance(n, ast.Call):
                r = u.scope.resolve(n.func)
                if r is not None and r[0] == "func" and r[1].module is f.module:
                    todo.append(r[1])
            how = coarse(u, n)
            if how:
                rep.violation("exact", f.module.rel, f.qual, how, "times are reported %s (%s)" % (
                    "in the time zone of the machine" if "local" in how else "cut to a coarser step", K.short(n, 60)), n.lineno)
            elif isinstance(n, ast.Call):
                rep.ok("exact")


def coarse(u, n):
    if isinstance(n, ast.Call):
        nm = u.lib(n.func)
        if nm in ("datetime.datetime.fromtimestamp", "datetime.date.fromtimestamp") and len(n.args) < 2 and not any(k.arg in ("tz", None) for k in n.keywords):
            return "local fromtimestamp"
        if nm in ("time.localtime", "time.ctime"):
            return "local " + nm
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("floor", "ceil", "round", "normalize") and nm is None:
            freq = n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str) or any(k.arg == "freq" for k in n.keywords)
            if (freq or n.func.attr == "normalize") and not (n.args and n.args[0].value in ("ns", "N", "1ns")) or \
                    n.func.attr == "round" and n.args and isinstance(n.args[0], ast.UnaryOp) and isinstance(n.args[0].op, ast.USub):
                return n.func.attr
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult):
        for a, b in ((n.left, n.right), (n.right, n.left)):
            if isinstance(a, ast.BinOp) and isinstance(a.op, ast.FloorDiv) and K.src(a.right) == K.src(b) and not any(
                    isinstance(x, ast.Attribute) for x in ast.walk(b)) and any(isinstance(x, ast.Constant) and x.value not in (0, 1) for x in ast.walk(b)):
                return "// *"
    return None


def setting(auto, dt):
    return "%s, %s index" % ("with rescaling" if auto else "without rescaling", "date" if dt else "integer")


def table(prog, rep, cls, mn, cols, auto, dt, n_t, d_t, attrs, off):
    f = cls.find(mn)
    Sy = Y.Sym(prog, opaque=OPAQUE, hints=hints(prog), decide=kind(cls, auto, dt))
    Sy.run(f, self_cls=cls)
    U = Units(Sy, [n_t], [d_t], attrs)
    U.run()
    rets = [e for e in Sy.events if e.kind == "return" and not e.stack]
    if not rets:
        raise M.AnalysisBroken("%s never returns" % mn)
    for e in rets:
        fr = U.frame(e.data[0])
        if fr is None:
            rep.undecided("restored", e.where, "the table %s returns is not followed" % mn)
            continue
        for c, what in cols.items():
            if c not in fr:
                continue
            us = fr[c]
            if us is None:
                rep.undecided("restored", e.where, "column %s of %s" % (c, mn))
                continue
            judge(rep, f, e.line, "%s.%s" % (mn, c), what, us, auto, dt, off, "%s of %s" % (what, mn), date=mn != "draw_pattern" and c != "sum_E")


def judge(rep, f, line, construct, what, us, auto, dt, off, where, date=True):
    if not us:
        rep.undecided("restored", f.where, "%s: no value" % where)
        return
    good = True
    for u in sorted(us, key=lambda u: u.key()):
        if auto and (u.n, u.d) != (1, 1) or not auto and (u.n, u.d) not in ((0, 0), (1, 1)):
            short = "not converted back to the unit of the input" if (u.n, u.d) == (0, 0) else \
                "converted twice" if u.n == u.d and u.n > 1 else "converted with another factor"
            rep.violation("restored", f.module.rel, f.qual, construct, "%s (%s): %s, %s" % (where, setting(auto, dt), short, u), line)
            good = False
        elif not auto and (u.n, u.d) == (1, 1) and off is False:
            rep.violation("restored", f.module.rel, f.qual, construct, "%s (%s): the factor is applied although fit leaves it at another value than one"
                          % (where, setting(auto, dt)), line)
            good = False
        elif u.k != 1:
            rep.violation("converted", f.module.rel, f.qual, construct, "%s (%s): off by the factor %s" % (where, setting(auto, dt), u.k), line)
            good = False
        elif u.dt and not dt:
            rep.violation("converted", f.module.rel, f.qual, construct, "%s (%s): turned into dates or durations" % (where, setting(auto, dt)), line)
            good = False
        elif date and auto and dt and not u.dt:
            rep.violation("converted", f.module.rel, f.qual, construct, "%s (%s): left as plain numbers" % (where, setting(auto, dt)), line)
            good = False
    if good:
        rep.ok("restored", "%s, %s" % (where, setting(auto, dt)))


# -- drawing
def at_pos(t, i, dec, d=0):
    """t with conditions on the position of a child decided for position i."""
    if t.op == "ite" and d < 12:
        r = holds_at(t.a[0], i, dec)
        if r is None:
            return None
        return at_pos(t.a[1] if r else t.a[2], i, dec, d + 1)
    return t


def holds_at(c, i, dec):
    r = dec(c)
    if r is not None:
        return r
    if c.op == "not":
        r = holds_at(c.a[0], i, dec)
        return None if r is None else not r
    if c.op in ("and", "or"):
        rs = [holds_at(x, i, dec) for x in c.a[0]]
        if (c.op == "or") in rs:
            return c.op == "or"
        return None if None in rs else c.op == "and"
    if c.op == "c":
        return bool(c.a[0])
    if c.op == "pos":
        return i != 0
    nrm = Y.cmp_norm(c, True)
    if nrm is None:
        return None
    v = nrm[1].get(None, 0)
    for k, co in nrm[1].items():
        if k is None:
            continue
        if k.op != "pos":
            return None
        v += co * i
    return {"<": v < 0, "<=": v <= 0, "==": v == 0, "!=": v != 0}[nrm[0]]


def drawing(prog, rep, cls, auto, dt, n_t, d_t, attrs, off):
    f = cls.find("draw_pattern")
    dec = kind(cls, auto, dt)
    Sy = Y.Sym(prog, opaque=OPAQUE, hints=hints(prog), decide=dec)
    Sy.run(f, self_cls=cls)
    U = Units(Sy, [n_t], [d_t], attrs)
    calls = [e for e in Sy.events if e.kind == "rcall" and e.data[1].name == "draw_pattern" and e.data[1].cls is None]
    if not calls:
        rep.undecided("restored", f.where, "the call that draws the tree is not found")
        return
    inner = [e for e in Sy.events if e.i < calls[-1].i]
    top = [e for e in inner if not any(g.name == "transform" or g.name.startswith("output_") for g, _ in e.stack) and
           e.func.name != "transform" and not e.func.name.startswith("output_")]
    for key, what in (("p", "periods"), ("t0", "start point")):
        st = [e for e in top if e.kind == "store" and e.data[1].op == "c" and e.data[1].a[0] == key]
        lit = [v for e in top for x in e.data if isinstance(x, Y.T) for y in Y.walk(x) if y.op == "dict" for k, v in y.a[0] if k is not None and k.op == "c" and k.a[0] == key]
        if not st and not lit:
            dyn = [e for e in top if e.kind == "store" and e.data[1].op != "c" and not (
                e.data[0].op == "idx" and e.data[0].a[1].op == "c" and e.data[0].a[1].a[0] == "children")]
            if auto and not dyn:
                rep.violation("restored", f.module.rel, f.qual, "draw " + key, "the %s of the drawn tree (%s): not converted back to the unit of the input"
                              % (what, setting(auto, dt)), calls[-1].line)
            elif auto:
                rep.undecided("restored", f.where, "drawing: where %s is set is not found" % key)
            continue
        vals = [(e.line, e.data[2]) for e in st[-1:]] or [(calls[-1].line, v) for v in lit[-1:]]
        for line, v in vals:
            us = U.unit(v)
            if us is None:
                rep.undecided("restored", f.where, "drawing: %s" % key)
                continue
            judge(rep, f, line, "draw " + key, what, us, auto, dt, off, "%s of the drawn tree" % what)
    # distances between children: a pair (child, distance)
    pairs = []
    for e in top:
        vs = [e.data[2]] if e.kind == "store" else list(e.data[3]) if e.kind == "meth" and e.data[2] == "append" else list(e.data) if e.kind == "comp" else []
        for v in vs:
            if v.op in ("tup", "list") and len(v.a[0]) == 2 and child_part(v.a[0][0], 0) and has_child(v.a[0][1]):
                pairs.append((e, v.a[0][1]))
        if e.kind == "store" and e.data[1].op == "c" and e.data[1].a[0] == 1 and has_child(e.data[2]):
            pairs.append((e, e.data[2]))
    if not pairs:
        if auto and not any(has_child(x) for e in top if e.kind == "store" for x in e.data if isinstance(x, Y.T)):
            rep.violation("restored", f.module.rel, f.qual, "draw children", "the distances of the drawn tree (%s): not converted back to the unit of the input"
                          % setting(auto, dt), calls[-1].line)
        return
    for e, v in pairs:
        for i in (1, 2, 3):
            x = at_pos(v, i, dec)
            us = U.unit(x) if x is not None else None
            if us is None:
                rep.undecided("restored", e.where, "drawing: distances")
                break
            conds = [holds_at(c, i, dec) == p for c, p in e.conds if holds_at(c, i, dec) is not None]
            if not all(conds):
                continue
            judge(rep, f, e.line, "draw children", "distances", us, auto, dt, off, "distance of child %d of the drawn tree" % i)


def child_part(t, i):
    return t.op in ("item", "idx") and (t.a[1] == i or isinstance(t.a[1], Y.T) and t.a[1].op == "c" and t.a[1].a[0] == i) and is_child(t.a[0])


def is_child(t):
    return t.op in ("elem", "val") and any(x.op == "c" and x.a[0] == "children" for x in Y.walk(t)) or \
        t.op == "idx" and t.a[1].op == "pos" and any(x.op == "c" and x.a[0] == "children" for x in Y.walk(t))


def has_child(t):
    return any(child_part(x, 1) for x in Y.walk(t))


# -- text
def is_period(t):
    if t.op == "idx" and t.a[1].op == "c" and t.a[1].a[0] == "p":
        return True
    return t.op == "meth" and t.a[1] == "get" and t.a[2] and t.a[2][0].op == "c" and t.a[2][0].a[0] == "p"


def handed_on(prog, rep, cls, f, n_t, d_t, dt, strs):
    Sy = Y.Sym(prog, opaque=OPAQUE, hints=hints(prog), decide=kind(cls, True, dt))
    Sy.run(f, self_cls=cls)
    texts = [e for e in Sy.events if e.kind == "store" and e.data[1].op == "c" and e.data[1].a[0] == "pattern"]
    dt_t = Y.mk("attr", Y.mk("self", cls.qual), "is_datetime_")
    if not texts:
        rep.undecided("handed on", f.where, "where the textual pattern is set is not found")
    for e in texts:
        v = e.data[2]
        if v.op == "meth":
            strs.add(v.a[1])
            kw = dict(v.a[3])
            g = prog.cls("skmine.periodic.pattern.Pattern").find(v.a[1]) if prog.cls("skmine.periodic.pattern.Pattern") else None
            if g is not None:
                ps = [p[0] for p in g.params() if p[0] != "self"]
                for p, a in zip(ps, v.a[2]):
                    kw[p] = a
                for p, want in (("n_zeros", n_t), ("div_nb_sec", d_t), ("is_datetime", dt_t)):
                    if p not in [q[0] for q in g.params()]:
                        rep.undecided("handed on", g.where, "no parameter %s" % p)
                    elif kw.get(p) is want or p == "is_datetime" and p in kw and kw[p] is Y.const(dt):
                        rep.ok("handed on", "%s to %s" % (p, g.qual))
                    elif p not in kw or kw[p].op in ("c", "attr"):
                        rep.violation("handed on", e.func.module.rel, e.func.qual, p, "the textual pattern is made with %s = %s"
                                      % (p, Y.show(kw[p])[:40] if p in kw else "its default"), e.line)
                    else:
                        rep.undecided("handed on", e.where, "%s = %s" % (p, Y.show(kw[p])[:40]))
                continue
        rep.undecided("handed on", e.where, "textual pattern: %s" % Y.show(v)[:60])


def textual(prog, rep, cls, n_t, d_t):
    # 1. what transform hands to the pattern
    strs = set()
    f = cls.find("transform")
    for dt in (True, False):
        handed_on(prog, rep, cls, f, n_t, d_t, dt, strs)
    # 2. the text itself
    pat = prog.cls("skmine.periodic.pattern.Pattern")
    for name in sorted(strs or {"__str__"}):
        g = pat.find(name) if pat else None
        if g is None or not {"n_zeros", "div_nb_sec"} <= {q[0] for q in g.params()}:
            rep.undecided("restored", f.where, "the function that writes the pattern is not found")
            continue
        for dt in (True, False):
            text_of(prog, rep, cls, pat, g, dt)


def text_of(prog, rep, cls, pat, g, dt):
    Sy = Y.Sym(prog, opaque=("isNode", "isInterm"), decide=kind(cls, True, dt))
    Sy.run(g, self_cls=pat)
    U = Units(Sy, [Y.mk("p", "n_zeros")], [Y.mk("p", "div_nb_sec")])
    for e in Sy.events:
        if e.kind == "rcall" and e.data[1] is g and e.data[2] is not None:
            for p in ("n_zeros", "div_nb_sec", "is_datetime"):
                v = e.data[2].get(p)
                if v is None:
                    continue
                if v is Y.mk("p", p) or p == "is_datetime" and v.op == "c" and v.a[0] == dt:
                    rep.ok("handed on", "%s in the recursion of %s" % (p, g.qual))
                elif v.op in ("c", "p"):
                    rep.violation("handed on", g.module.rel, g.qual, "recursion", "nested patterns are written with %s = %s" % (p, Y.show(v)), e.line)
                else:
                    rep.undecided("handed on", e.where, "%s = %s" % (p, Y.show(v)[:40]))
    seen = set()

    def visit(t, line, d=0):
        """Units of the periods and distances that end up in the text."""
        if isinstance(t, tuple):
            for x in t:
                visit(x, line, d)
            return
        if not isinstance(t, Y.T) or d > 40 or t in seen:
            return
        seen.add(t)
        if t.op == "loop":
            init, back = Sy.loops.get((t.a[0], t.a[1]), (None, ()))
            for x in ([init] if init is not None else []) + list(back):
                visit(x, line, d + 1)
            return
        if t.op == "rcall":
            return
        if t.op == "ite":
            visit(t.a[1], line, d + 1)
            visit(t.a[2], line, d + 1)
            return
        base = [x for x in Y.walk(t) if is_period(x) or child_part(x, 1)]
        if not base:
            return
        numeric = t.op == "bin" and t.a[0] in ("*", "/", "//") or t.op == "call" and not isinstance(t.a[0], Y.T) and t.a[0].startswith(("datetime.", "pandas.")) \
            or is_period(t) or child_part(t, 1) or t.op == "call" and t.a[0] == "builtins.int"
        if numeric:
            us = U.unit(t)
            what = "period" if any(is_period(x) for x in base) else "distance"
            if us is None:
                rep.undecided("restored", g.where, "%s in the text: %s" % (what, Y.show(t)[:60]))
            else:
                judge(rep, g, line, "text " + what, what, us, True, dt, True, "%s in the textual pattern" % what)
            return
        visit(t.a, line, d + 1)
    for e in Sy.events:
        if e.kind == "return" and not e.stack:
            visit(e.data[0], e.line)


# -- what fit remembers
def remembered(prog, rep, cls, self_t):
    """Judge fit; returns (attributes holding (part of) the factor -> Unit, whether the factor is one without rescaling)."""
    attrs, off = {}, None
    f = cls.find("fit")
    for auto in (True, False):
        Sy = Y.Sym(prog, opaque=OPAQUE + ("_validate_data",), hints=hints(prog), decide=kind(cls, auto, None))
        Sy.run(f, self_cls=cls)
        last = {}
        for e in Sy.events:
            if e.kind == "setattr" and e.data[0] is self_t and isinstance(e.data[1], str):
                last[e.data[1]] = e
        if not auto and ("n_zeros_" not in last or "div_nb_sec_" not in last):
            rep.undecided("remembered", f.where, "no factor is stored without rescaling")
            continue
        if "n_zeros_" not in last or "div_nb_sec_" not in last:
            raise M.AnalysisBroken("fit does not set n_zeros_ and div_nb_sec_")
        n, d = last["n_zeros_"].data[2], last["div_nb_sec_"].data[2]
        idx = [e for e in Sy.events if e.kind == "setattr" and e.data[1] == "index"]
        line = last["n_zeros_"].line
        if not auto:
            if n.op == "c" and d.op == "c":
                off = n.a[0] == 0 and d.a[0] == 1
                if off:
                    rep.ok("remembered", "without rescaling the factor is one")
                else:
                    rep.violation("remembered", f.module.rel, f.qual, "no rescaling", "without rescaling fit stores n_zeros_ = %s and div_nb_sec_ = %s"
                                  % (n.a[0], d.a[0]), line)
            else:
                rep.undecided("remembered", f.where, "factor without rescaling")
            for e in idx[-1:]:
                if any(x.op == "bin" and x.a[0] in ("/", "//", "*") for x in Y.walk(e.data[2])):
                    rep.violation("remembered", f.module.rel, f.qual, "no rescaling", "without rescaling the times are still divided", e.line)
                else:
                    rep.ok("remembered", "times unchanged without rescaling")
            continue
        U = Units(Sy, [n], [d])
        for a, e in last.items():
            if a not in ("n_zeros_", "div_nb_sec_"):
                u = U.factor(e.data[2])
                if u is not None and (u.n or u.d):
                    attrs[Y.mk("attr", self_t, a)] = u
        if not idx:
            rep.undecided("remembered", f.where, "where the times are replaced is not found")
            continue
        scaled(rep, f, Sy, idx[-1], n, d)
    return attrs, off


INTS = ("int64", "int", "i8", "<i8", "numpy.int64", "builtins.int")


def nanoseconds(prog, rep, cls):
    """Dates become numbers only after they have been brought to nanoseconds, the unit in which they are read back."""
    f = cls.find("fit")
    base = kind(cls, True, True)

    def decide(c, st=None):
        if c.op == "call" and c.a[0] == "builtins.isinstance" and len(c.a[1]) == 2 and any(
                x.op == "lib" and x.a[0] == "pandas.DatetimeIndex" for x in [c.a[1][1]]):
            return True
        return base(c, st)
    Sy = Y.Sym(prog, opaque=OPAQUE + ("_validate_data",), hints=hints(prog), decide=decide)
    Sy.run(f, self_cls=cls)
    n = 0
    for e in [e for e in Sy.events if e.kind in ("meth", "getattr") and e.func.module is f.module]:
        if e.kind == "meth":
            t, m, args = e.data[1], e.data[2], list(e.data[3]) + list(e.data[4].values())
            if m not in ("astype", "view") or not args:
                continue
            a = args[0]
            a = a.a[0] if a.op in ("c", "lib") else None
            if a not in INTS:
                continue
        else:
            t, m = e.data[0], e.data[1]
            if m != "asi8":
                continue
        if not any(x.op == "attr" and x.a[1] == "index" for x in Y.walk(t)):
            continue
        n += 1
        if any(x.op == "c" and x.a[0] in ("datetime64[ns]", "<M8[ns]", "M8[ns]", "ns") or x.op == "lib" and x.a[0] in ("pandas.Timestamp.value",) for x in Y.walk(t)):
            rep.ok("nanoseconds", "%s: dates are nanoseconds" % e.where)
        elif any(x.op in ("unk", "rcall") for x in Y.walk(t)):
            rep.undecided("nanoseconds", e.where, Y.show(t)[:60])
        else:
            rep.violation("nanoseconds", e.func.module.rel, e.func.qual, K.short(e.node), "the numbers of a date index are taken without bringing "
                          "them to nanoseconds, but read back as nanoseconds", e.line)
    if not n:
        rep.undecided("nanoseconds", f.where, "where dates become numbers is not found")


def cases(ts, d=0):
    """Combinations of the branches of several gated terms: [(conditions, terms)]."""
    for t in ts:
        c = next((x.a[0] for x in Y.walk(t) if x.op == "ite" and not any(y.op == "ite" for y in Y.walk(x.a[0]))), None)
        if c is not None and d < 10:
            out = []
            for p in (True, False):
                out += [(((c, p),) + cs, ls) for cs, ls in cases([pick(x, c, p) for x in ts], d + 1)]
            return out
    return [((), ts)]


def pick(t, c, p, memo=None):
    memo = {} if memo is None else memo
    if isinstance(t, tuple):
        return tuple(pick(x, c, p, memo) for x in t)
    if not isinstance(t, Y.T) or t.op == "c":
        return t
    if t in memo:
        return memo[t]
    if t.op == "ite" and t.a[0] is c:
        r = pick(t.a[1] if p else t.a[2], c, p, memo)
    elif t.op == "ite" and t.a[0].op == "not" and t.a[0].a[0] is c:
        r = pick(t.a[2] if p else t.a[1], c, p, memo)
    else:
        a = tuple(pick(x, c, p, memo) for x in t.a)
        r = t if a == t.a else Y.mk(t.op, *a)
    memo[t] = r
    return r


def undo(t):
    """(times divided, divisor or None)."""
    if t.op == "bin" and t.a[0] in ("//", "/"):
        return t.a[1], t.a[2]
    if t.op == "call" and t.a[0] in ("numpy.floor_divide", "numpy.divide") and len(t.a[1]) == 2:
        return t.a[1]
    return t, None


def divides(conds, x, d):
    """Do the conditions say that d divides all of x?  True / False (another number is tested) / None."""
    tested = []
    for c, p in conds:
        neg = not p
        while c.op == "not":
            c, neg = c.a[0], not neg
        how = None
        if c.op == "meth" and c.a[1] in ("all", "any") and not c.a[2]:
            how, b = c.a[1], c.a[0]
        elif c.op == "call" and c.a[0] in ("numpy.all", "numpy.any", "builtins.all", "builtins.any") and len(c.a[1]) == 1:
            how, b = c.a[0].split(".")[1], c.a[1][0]
        if how is None:
            continue
        if b.op == "comp":
            b = b.a[1]
        inv = False
        while b.op == "not":
            b, inv = b.a[0], not inv
        if b.op == "cmp" and b.a[0] in ("==", "!=") and b.a[2].op == "c" and b.a[2].a[0] == 0:
            eq = (b.a[0] == "==") != inv
            m = b.a[1]
        elif b.op == "bin":
            eq, m = inv, b
        else:
            continue
        if m.op != "bin" or m.a[0] != "%":
            continue
        if (how == "all" and eq and not neg) or (how == "any" and not eq and neg):
            tested.append(m.a[2])
    if any(m is d for m in tested):
        return True
    vals = [m.a[0] for m in tested if m.op == "c"]
    if d.op == "c" and any(isinstance(v, int) and v % d.a[0] == 0 for v in vals):
        return True
    if d.op == "c" and all(m.op == "c" for m in tested):
        return False
    return None


def scaled(rep, f, Sy, e, n, d):
    """The index stored by event e is raw // 10**n // d, n counting the divisions by ten."""
    loops_done = set()
    for conds, (x, nn, dd) in cases([e.data[2], n, d]):
        if any(c.op == "unbound" or y.op == "unbound" for c, _ in conds for y in (x, nn, dd)) or "unbound" in (x.op, nn.op, dd.op) or "unk" in (x.op,):
            continue
        base, div = undo(x)
        if dd.op != "c":
            if dd.op == "loop" and (div is None or div.op == "c") and any(y.op == "loop" and y.a[0] == dd.a[0] for y in Y.walk(base)):
                rep.violation("remembered", f.module.rel, f.qual, "divisor", "the divisor stored is the count %s, but the times are divided by %s"
                              % (Y.show(dd)[:30], Y.show(div) if div is not None else 1), e.line)
                continue
            rep.undecided("remembered", e.where, "divisor %s" % Y.show(dd)[:40])
            continue
        k = dd.a[0]
        if div is None:
            if k == 1:
                rep.ok("remembered", "times not divided further, divisor 1")
            else:
                rep.violation("remembered", f.module.rel, f.qual, "divisor", "the divisor stored is %s, but the times are not divided by it" % k, e.line)
                continue
        elif div.op == "c":
            if div.a[0] != k:
                rep.violation("remembered", f.module.rel, f.qual, "divisor", "the times are divided by %s, but %s is stored" % (div.a[0], k), e.line)
                continue
            if k != 1:
                r = divides(conds, base, div)
                if r is False:
                    rep.violation("remembered", f.module.rel, f.qual, "divisor", "the times are divided by %s, although that is not known to divide them: "
                                  "they cannot be converted back" % k, e.line)
                    continue
                if r is None:
                    rep.undecided("remembered", e.where, "divisibility by %s" % k)
                    continue
            rep.ok("remembered", "times divided by %s" % k)
        else:
            rep.undecided("remembered", e.where, "times divided by %s" % Y.show(div)[:40])
            continue
        digits(rep, f, Sy, e, base, nn, loops_done, conds)


def counter(Sy, x):
    """The variable that counts the rounds of the loop in which the times x are divided."""
    lid = x.a[0]
    for (l, v), (init, back) in Sy.loops.items():
        if l == lid and init is not None and init.op == "c" and init.a[0] == 0 and not isinstance(init.a[0], bool):
            t = Y.mk("loop", l, v)
            if back and all((lambda q: q and set(q) <= {None, t} and q.get(t) == 1)(Y.linear(b)) for b in back):
                return t
    return None


def can_differ(ctr, conds, k):
    """Is there a count of digits allowed by the conditions other than k?  None: not known."""
    ops = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
           "==": lambda a, b: a == b, "!=": lambda a, b: a != b}
    vals = set(range(0, 19))
    for c, p in conds:
        if not any(y is ctr for y in Y.walk(c)):
            continue
        while c.op == "not":
            c, p = c.a[0], not p
        if c.op != "cmp" or c.a[0] not in ops or c.a[1] is not ctr or c.a[2].op != "c":
            return None
        vals = {v for v in vals if ops[c.a[0]](v, c.a[2].a[0]) == p}
    return bool(vals - {k})


def digits(rep, f, Sy, e, x, n, done, given=()):
    if (x, n, given) in done:
        return
    done.add((x, n, given))
    ctr = counter(Sy, x) if x.op == "loop" else None
    if ctr is not None and n is not ctr:
        lin = Y.linear(n)
        if n.op == "c" and can_differ(ctr, given, n.a[0]) or lin and lin.get(ctr) == 1 and any(v for k, v in lin.items() if k is not ctr):
            rep.violation("remembered", f.module.rel, f.qual, "digits", "the number of digits stored is %s, not the number of divisions by ten"
                          % Y.show(n)[:50], e.line)
            return
    if n.op == "loop" and x.op == "loop" and n.a[0] == x.a[0]:
        lid = n.a[0]
        ni = Sy.loops.get((lid, n.a[1]), (None, ()))[0]
        if ni is None or not Sy.backs.get((lid, x.a[1])):
            rep.undecided("remembered", e.where, "the loop that counts the digits")
            return
        if ni.op == "c" and ni.a[0] != 0:
            rep.violation("remembered", f.module.rel, f.qual, "digits", "the count of digits starts at %s" % Y.show(ni)[:20], e.line)
            return
        ns = {cs: v for v, cs in Sy.backs.get((lid, n.a[1]), [])}
        for xv, conds in Sy.backs[(lid, x.a[1])]:
            nv = ns.get(conds, n)
            for cs, (xv1, nv1) in cases([xv, nv]):
                if xv1 is x and nv1 is n:
                    continue
                lin = Y.linear(nv1)
                step = lin.get(None, 0) if lin and set(lin) <= {None, n} and lin.get(n) == 1 else None
                b, dv = undo(xv1)
                if xv1 is x:
                    b, dv = x, Y.const(1)
                if step is None or b is not x or dv is None or dv.op != "c":
                    rep.undecided("remembered", e.where, "the loop that counts the digits")
                    return
                if dv.a[0] != 10 ** step:
                    rep.violation("remembered", f.module.rel, f.qual, "digits", "a step divides the times by %s but counts %s digit(s)" % (dv.a[0], step), e.line)
                    return
                r = divides(tuple(conds) + cs, x, dv)
                if r is False:
                    rep.violation("remembered", f.module.rel, f.qual, "digits", "the times are divided by %s, although that is not known to divide them"
                                  % dv.a[0], e.line)
                    return
                if r is None:
                    rep.undecided("remembered", e.where, "the loop that counts the digits: divisibility")
                    return
        rep.ok("remembered", "digits counted are the divisions made")
    elif n.op == "c" and n.a[0] == 0 and not any(y.op == "bin" and y.a[0] in ("/", "//") for y in Y.walk(x)):
        rep.ok("remembered", "no digit removed")
    else:
        rep.undecided("remembered", e.where, "digits: %s" % Y.show(n)[:40])


# ------------------------------------------------------------------------------------------ C11
QUERIES = ("transform", "reconstruct", "get_residuals", "draw_pattern", "export_patterns")
CAST = ("builtins.int", "builtins.bool", "builtins.float", "builtins.str", "builtins.list", "builtins.dict")


def check_C11(prog, rep):
    rep.rule("fields", "Every field the importer reads, of the document and of each pattern, is written by the exporter under that name.")
    rep.rule("same", "A field is imported into what it was exported from, unchanged.")
    rep.rule("whole", "No pattern, event or occurrence is left out on the way.")
    rep.rule("keys", "Keys of exported dictionaries are strings, or are turned back into what they were.")
    rep.rule("json", "Numbers of the internal arrays are turned into plain ones before they are written.")
    rep.rule("state", "Every attribute a read operation needs is set by import_patterns or the constructor.")
    cls = get(prog)
    self_t = Y.mk("self", cls.qual)
    state_after_import(prog, rep, cls)
    Se = Y.Sym(prog, opaque=OPAQUE, hints=hints(prog))
    Se.run(cls.find("export_patterns"), self_cls=cls)
    Si = Y.Sym(prog, opaque=OPAQUE + ("DataSequence",), hints=hints(prog))
    Si.run(cls.find("import_patterns"), self_cls=cls)
    dumps = [e for e in Se.events if e.kind == "call" and e.data[1] in ("json.dumps", "json.dump") and e.data[2]]
    loads = [e for e in Si.events if e.kind == "call" and e.data[1] in ("json.load", "json.loads")]
    if not dumps or not loads:
        rep.undecided("fields", cls.find("export_patterns").where, "the document is not written or read as json")
        return
    Trip(prog, rep, cls, self_t, Se, Si, dumps, loads[0].data[0]).judge()


def state_after_import(prog, rep, cls):
    L = S.Life(prog, "PeriodicPatternMiner")
    L.init()
    L.init_reach = L.reach("init")
    L.fit()
    L.fit_reach = L.reach("fit")
    qs, fits = K.run_rest(L)
    f = cls.find("import_patterns")
    if "import_patterns" not in L.done:
        raise M.AnalysisBroken("import_patterns was not analysed")
    end, _ = L.done["import_patterns"]
    if end is None:
        rep.violation("state", f.module.rel, f.qual, "return", "import_patterns never returns", f.node.lineno)
        return
    okset = set(end.sdef) | set(getattr(L, "init_def", None) or ())
    optional = P.guarded_attrs(cls)
    for q in qs:
        if q not in QUERIES:
            continue
        for e in L.effects(q, "readself"):
            if e.info or e.name.startswith(("cache:", "__")) or e.name in optional:
                continue
            if e.name in okset or cls.find_attr(e.name) is not None or cls.find(e.name) is not None:
                rep.ok("state", "%s reads %s" % (q, e.name))
            else:
                rep.violation("state", f.module.rel, f.qual, "self." + e.name, "%s reads %s (at %s), which import_patterns does not set on every path"
                              % (q, e.name, e.where), f.node.lineno)
    K.count_engine(rep, L.I)
    rep.need("state", 5)


def bare(t):
    """t without conversions of the number type."""
    while True:
        if t.op == "call" and not isinstance(t.a[0], Y.T) and t.a[0] in CAST and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif t.op == "comp" and len(t.a[2]) == 1 and not t.a[2][0][2] and bare(t.a[1]).op == "elem" and bare(t.a[1]).a[0] is t.a[2][0][0]:
            t = t.a[2][0][0]
        elif t.op == "meth" and t.a[1] in ("copy", "tolist", "to_list", "astype") and t.a[0].op != "c":
            t = t.a[0]
        elif t.op == "call" and t.a[0] in ("copy.copy", "copy.deepcopy", "numpy.array", "numpy.asarray") and t.a[1]:
            t = t.a[1][0]
        else:
            return t


class Trip:
    def __init__(self, prog, rep, cls, self_t, Se, Si, dumps, doc):
        self.prog, self.rep, self.cls, self.self_t, self.Se, self.Si, self.doc = prog, rep, cls, self_t, Se, Si, doc
        self.dumps = dumps
        self.fe, self.fi = cls.find("export_patterns"), cls.find("import_patterns")

    def viol(self, rule, f, construct, msg, line):
        self.rep.violation(rule, f.module.rel, f.qual, construct, msg, line)

    # -- the document
    def is_doc(self, t):
        return t is self.doc or t.op == "call" and t.a[0] in ("builtins.dict", "copy.deepcopy", "copy.copy") and t.a[1] and t.a[1][0] is self.doc

    def field(self, t):
        """Name of the document's field that t is, or None."""
        if t.op == "idx" and self.is_doc(t.a[0]) and t.a[1].op == "c":
            return t.a[1].a[0]
        if t.op == "meth" and t.a[1] in ("get", "pop") and self.is_doc(t.a[0]) and t.a[2] and t.a[2][0].op == "c":
            return t.a[2][0].a[0]
        if t.op == "item" and self.is_doc(t.a[0]):
            return t.a[1]
        return None

    def judge(self):
        rep, e = self.rep, self.dumps[-1]
        kw = e.data[3]
        df = kw.get("default")
        if df is not None and df.op == "lib" and df.a[0] in ("builtins.str", "builtins.repr"):
            self.viol("json", self.fe, "default", "values json does not know are written as text", e.line)
        X = e.data[2][0]
        xs = [x for x in P.leaves(X)]
        if len(xs) != 1 or xs[0].op not in ("dict", "call"):
            rep.undecided("fields", e.where, "the exported document")
            return
        X = xs[0]
        U = Units(self.Se, [], [])
        if X.op == "call" and X.a[0] == "builtins.dict" and not X.a[1]:
            exp = {k: [v] for k, v in X.a[2]}
        elif X.op == "dict":
            exp = U.fields(X)
        else:
            rep.undecided("fields", e.where, "the exported document")
            return
        exp = {k: v[-1] for k, v in exp.items()}
        reads = {}
        for ev in self.Si.events:
            if ev.kind == "getitem" and self.is_doc(ev.data[0]) and ev.data[1].op == "c":
                reads.setdefault(ev.data[1].a[0], ev)
            elif ev.kind == "meth" and self.is_doc(ev.data[1]) and ev.data[2] == "pop" and len(ev.data[3]) == 1 and ev.data[3][0].op == "c":
                reads.setdefault(ev.data[3][0].a[0], ev)
        for k, ev in reads.items():
            if k in exp:
                rep.ok("fields", "field %s" % k)
            else:
                self.viol("fields", self.fi, str(k), "import_patterns reads the field %r, which export_patterns does not write" % k, ev.line)
        soft = {}
        for ev in self.Si.events:
            if ev.kind == "meth" and self.is_doc(ev.data[1]) and ev.data[2] in ("get", "pop") and len(ev.data[3]) == 2 and ev.data[3][0].op == "c":
                soft.setdefault(ev.data[3][0].a[0], ev)
            if ev.kind == "meth" and self.is_doc(ev.data[1]) and ev.data[2] == "get" and len(ev.data[3]) == 1 and ev.data[3][0].op == "c":
                soft.setdefault(ev.data[3][0].a[0], ev)
        for k, ev in soft.items():
            if k not in exp and k not in reads:
                self.viol("fields", self.fi, str(k), "import_patterns looks for the field %r, which export_patterns never writes" % k, ev.line)
        self.attributes(exp)
        self.events_(exp)
        self.patterns(exp)

    def attributes(self, exp):
        for ev in self.Si.events:
            if ev.kind != "setattr" or ev.data[0] is not self.self_t or not isinstance(ev.data[1], str):
                continue
            a, v = ev.data[1], ev.data[2]
            for x in P.leaves(v):
                k = self.field(bare(x))
                if k is None or k not in exp:
                    if x.op == "c" and Y.mk("attr", self.self_t, a) in {bare(y) for y in exp.values()}:
                        self.viol("same", self.fi, a, "%s is set to %s whatever the file says" % (a, Y.show(x)), ev.line)
                    elif x.op in ("bin", "neg", "not") and any(self.field(y) is not None for y in Y.walk(x)):
                        self.viol("same", self.fi, a, "%s is set to %s" % (a, Y.show(x)[:60]), ev.line)
                    continue
                src = bare(exp[k])
                mine = Y.mk("attr", self.self_t, a)
                alts = [bare(y) for cs, y in gated(src)] if src.op == "ite" else [y for z in src.a[0] for y in [bare(z)]] if src.op in ("or", "and") else []
                odd = [y for y in alts if y.op in ("c", "bin", "neg") or y.op == "attr" and y is not mine]
                if mine in alts and odd and not none_only(src, mine):
                    self.viol("same", self.fe, a, "the field %r from which %s is imported sometimes holds %s instead" % (k, a, Y.show(odd[0])[:50]), self.dumps[-1].line)
                elif src is Y.mk("attr", self.self_t, a):
                    self.rep.ok("same", "%s by way of %s" % (a, k))
                elif src.op == "attr" and src.a[0] is self.self_t or src.op in ("c", "bin", "neg", "not"):
                    self.viol("same", self.fi, a, "%s is imported from the field %r, under which the exporter writes %s" % (a, k, Y.show(src)[:60]), ev.line)
                else:
                    self.rep.undecided("same", ev.where, "%s from %s" % (a, k))

    # -- events and their times
    def groups(self, t):
        """Does t hold the occurrences by event (self.alpha_groups_)?"""
        return any(x.op == "attr" and x.a[0] is self.self_t and x.a[1] == "alpha_groups_" for x in Y.walk(t))

    def events_(self, exp):
        rep = self.rep
        fields = [k for k, v in exp.items() if self.groups(v) or v.op == "dict" and any(
            e.kind == "store" and e.data[0] is v and (self.groups(e.data[1]) or self.groups(e.data[2])) for e in self.Se.events)]
        if not fields:
            rep.undecided("keys", self.fe.where, "where the occurrences are exported is not found")
            return
        line = self.dumps[-1].line
        for k in fields:
            for cs, x in gated(exp[k]):
                if x.op == "comp" and any(g[2] for g in x.a[2]):
                    self.viol("whole", self.fe, k, "only some of the events are exported", line)
                    continue
                texts = [y for y in Y.walk(x) if y.op == "comp" and y.a[1].op in ("tup", "list") and len(y.a[1].a[0]) == 2 and (
                    y.a[1].a[0][0].op == "fstr" or y.a[1].a[0][0].op == "call" and y.a[1].a[0][0].a[0] in ("builtins.str", "builtins.repr"))]
                if texts:
                    self.viol("keys", self.fe, k, "events are written as text and come back as text", line)
                    continue
                pairs = x.op == "comp" and x.a[0] != "dict" and x.a[1].op in ("tup", "list") or x.op in ("call", "meth") and self.items(x)
                if pairs:
                    rep.ok("keys", "events exported as values")
                    continue
                dicty = x.op == "comp" and x.a[0] == "dict" or x.op == "dict" or bare(x).op == "attr"
                if not dicty:
                    rep.undecided("keys", self.fe.where, Y.show(x)[:60])
                    continue
                if any(self.all_str(c, p) for c, p in cs):
                    rep.ok("keys", "events exported as keys only if they are strings")
                elif x.op == "comp" and x.a[1].op == "tup" and x.a[1].a[0][0].op == "call" and x.a[1].a[0][0].a[0] in ("builtins.str", "builtins.repr"):
                    self.viol("keys", self.fe, k, "events are written as text and come back as text", line)
                else:
                    self.viol("keys", self.fe, k, "events are written as keys of a json object: events that are not strings come back as strings, "
                              "in another order", line)
        for e in self.Si.events:
            if e.kind == "new" and e.data[1].name == "DataSequence":
                a = list(e.data[2]) + list(e.data[3].values())
                if a and a[0].op == "comp" and any(g[2] for g in a[0].a[2]):
                    self.viol("whole", self.fi, "data_details_", "only some of the events are imported", e.line)
        # times
        for e in self.Se.events:
            if e.kind == "store" and self.groups(e.data[2]) and e.data[2].op not in ("dict",) and cut(e.data[2]):
                self.viol("whole", self.fe, "times", "only some of the times of an event are exported", e.line)
        for k in fields:
            for cs, x in gated(exp[k]):
                if x.op == "comp" and x.a[1].op in ("tup", "list") and len(x.a[1].a[0]) == 2 and cut(x.a[1].a[0][1]):
                    self.viol("whole", self.fe, "times", "only some of the times of an event are exported", line)
        meths = set()
        for e in self.Se.events:
            if e.kind == "meth" and e.data[1].op in ("val", "idx") and self.groups(e.data[1]):
                meths.add(e.data[2])
        for ev in self.Si.events:
            if ev.kind == "setattr" and ev.data[0] is self.self_t and ev.data[1] == "alpha_groups_":
                for x in P.leaves(ev.data[2]):
                    vals, filt = [], False
                    if x.op == "comp" and x.a[0] == "dict":
                        vals = [x.a[1].a[0][1]]
                        filt = any(g[2] for g in x.a[2])
                    elif x.op == "dict" and not x.a[0]:
                        st = [e for e in self.Si.events if e.kind == "store" and e.data[0] is x]
                        vals = [e.data[2] for e in st]
                    elif self.field(bare(x)) in fields:
                        self.plain(meths, ev)
                        continue
                    if filt:
                        self.viol("whole", self.fi, "alpha_groups_", "only some of the events are imported", ev.line)
                    for v in vals:
                        if v.op in ("val", "idx") or v.op == "call" and v.a[0] == "builtins.list":
                            self.plain(meths, ev)
                        elif v.op == "call":
                            self.rep.ok("same", "times of an event are imported as %s" % v.a[0])
                    if not vals:
                        rep.undecided("same", ev.where, "alpha_groups_")

    def plain(self, meths, ev):
        bad = meths - set(dir(list))
        if bad:
            self.viol("same", self.fi, "alpha_groups_", "the times are imported as plain lists, but export_patterns calls %s of them" % ", ".join(sorted(bad)), ev.line)
        else:
            self.rep.ok("same", "times are lists for both")

    @staticmethod
    def items(x):
        for y in Y.walk(x):
            if y.op == "meth" and y.a[1] == "items":
                return not (x.op == "call" and x.a[0] == "builtins.dict")
            if y.op == "call" and y.a[0] == "builtins.zip":
                return not (x.op == "call" and x.a[0] == "builtins.dict")
        return False

    @staticmethod
    def all_str(c, p):
        """Does condition c with polarity p say that all keys are strings?"""
        while c.op == "not":
            c, p = c.a[0], not p
        if c.op != "call" or c.a[0] not in ("builtins.all", "builtins.any") or not c.a[1] or c.a[1][0].op != "comp":
            return False
        b = c.a[1][0].a[1]
        inv = False
        while b.op == "not":
            b, inv = b.a[0], not inv
        if not (b.op == "call" and b.a[0] == "builtins.isinstance" and len(b.a[1]) == 2 and b.a[1][1].op == "lib" and b.a[1][1].a[0] == "builtins.str"):
            return False
        return p and not inv if c.a[0] == "builtins.all" else not p and inv

    # -- patterns
    def patterns(self, exp):
        rep = self.rep
        # importer: the loop over the patterns of the document
        loops = {}
        for ev in self.Si.events:
            for x in ev.data if isinstance(ev.data, tuple) else ():
                for y in Y.walk(x) if isinstance(x, (Y.T, tuple)) else ():
                    if y.op in ("elem",) and self.field(bare(strip_enum(y.a[0]))) is not None:
                        k = self.field(bare(strip_enum(y.a[0])))
                        loops.setdefault(k, y)
        trees = {k: y for k, y in loops.items() if k in exp and not self.groups(exp[k])}
        if len(trees) != 1:
            rep.undecided("fields", self.fi.where, "the loop over the imported patterns is not found")
            return
        key, tree = next(iter(trees.items()))
        src = exp[key]
        fresh = {e.data[1] for e in self.Si.events if e.kind in ("setattr", "delattr") and isinstance(e.data[1], str)}
        for y in Y.walk(src):
            if y.op == "attr" and y.a[0] is self.self_t and y.a[1] not in fresh and self.cls.find(y.a[1]) is None:
                self.viol("state", self.fe, y.a[1], "the patterns exported may be those left in %s by an earlier call, which import_patterns does not replace"
                          % y.a[1], self.dumps[-1].line)
        for cs, x in gated(src):
            if x.op == "comp" and any(g[2] for g in x.a[2]):
                self.viol("whole", self.fe, key, "only some of the patterns are exported", self.dumps[-1].line)
            elif any(y.op == "slice" or y.op == "meth" and y.a[1] in ("head", "tail", "sample", "drop_duplicates", "query", "nlargest", "nsmallest")
                     for y in Y.walk(x)):
                self.viol("whole", self.fe, key, "only some of the patterns are exported", self.dumps[-1].line)
            elif x.op == "list" and not x.a[0]:
                for e in self.Se.events:
                    if e.kind == "meth" and e.data[1] is x and e.data[2] == "append" and [c for c, p in e.conds if c.op != "iter"]:
                        self.viol("whole", self.fe, key, "only some of the patterns are exported", e.line)
            else:
                rep.ok("whole", "all patterns exported")
        # exporter: the tree of a pattern
        st = [e for e in self.Se.events if e.kind == "store" and e.data[1].op == "c" and isinstance(e.data[1].a[0], str) and
              any(y.op == "attr" and y.a[1] == "nodes" for y in Y.walk(e.data[0]))]
        if not st:
            rep.undecided("fields", self.fe.where, "where the tree of a pattern is filled is not found")
            return
        wrote = {e.data[1].a[0]: e for e in st}
        self.written = st
        gone, reads = {}, {}
        for ev in self.Si.events:
            if ev.kind == "meth" and same_elem(ev.data[1], tree) and ev.data[2] == "pop" and ev.data[3] and ev.data[3][0].op == "c":
                gone.setdefault(ev.data[3][0].a[0], ev)
                reads.setdefault(ev.data[3][0].a[0], ev)
            elif ev.kind == "getitem" and same_elem(ev.data[0], tree) and ev.data[1].op == "c":
                reads.setdefault(ev.data[1].a[0], ev)
            elif ev.kind == "meth" and same_elem(ev.data[1], tree) and ev.data[2] == "get" and ev.data[3] and ev.data[3][0].op == "c":
                reads.setdefault(ev.data[3][0].a[0], ev)
            elif ev.kind == "del" and same_elem(ev.data[0], tree) and ev.data[1].op == "c":
                gone.setdefault(ev.data[1].a[0], ev)
        for k, ev in reads.items():
            if k in wrote:
                rep.ok("fields", "field %s of a pattern" % k)
            elif not (isinstance(k, str) and k.isdigit()):
                self.viol("fields", self.fi, str(k), "import_patterns reads the field %r of a pattern, which the exporter does not write" % k, ev.line)
        self.always(st, reads)
        self.nodes(tree, wrote, gone)
        self.parts(tree, wrote, key)
        self.numbers(wrote)

    def always(self, st, reads):
        """A field the importer needs is written for every pattern."""
        by = {}
        for e in st:
            by.setdefault(e.data[1].a[0], []).append((frozenset((c, p) for c, p in e.conds if c.op != "iter"), e))
        base = [cs for es in by.values() for cs, e in es]
        for k, ev in reads.items():
            if k not in by or ev.kind == "meth" and len(ev.data[3]) > 1 or ev.kind == "meth" and ev.data[2] == "get":
                continue
            if [c for c, p in ev.conds if c.op != "iter"] or any(
                    isinstance(n, ast.Try) and n.body[0].lineno <= ev.line <= n.body[-1].end_lineno for n in ast.walk(ev.func.node)):
                continue
            for cs, e in by[k]:
                low = [b for b in base if b < cs]
                if low and not any(b <= cs and cs != b for b, _ in by[k]) and len(by[k]) == 1:
                    c, p = sorted(cs - min(low, key=len), key=repr)[0]
                    self.viol("fields", self.fe, k, "the field %r of a pattern, which import_patterns needs, is only written %s %s"
                              % (k, "if" if p else "unless", Y.show(c)[:60]), e.line)
                    break
            else:
                self.rep.ok("fields", "field %s is written for every pattern" % k)

    def key_of(self, t, tree):
        """The field of the tree that t is."""
        t = bare(t)
        if t.op == "meth" and t.a[1] in ("pop", "get") and same_elem(t.a[0], tree) and t.a[2] and t.a[2][0].op == "c":
            return t.a[2][0].a[0]
        if t.op == "idx" and same_elem(t.a[0], tree) and t.a[1].op == "c":
            return t.a[1].a[0]
        return None

    def parts(self, tree, wrote, key):
        """(pattern, t0, E) and the attributes of the pattern."""
        rep = self.rep
        news = [e for e in self.Si.events if e.kind == "new" and e.data[1].name == "PatternCollection"]
        tups = []
        for e in news:
            a = list(e.data[2]) + list(e.data[3].values())
            if not a:
                self.viol("whole", self.fi, key, "the imported patterns are not handed to the collection", e.line)
                continue
            x = a[0]
            left = [y for z in gated(x) for y in Y.walk(z[1]) if y.op == "attr" and y.a[0] is self.self_t and y.a[1] == "miners_"]
            if left:
                self.viol("whole", self.fi, key, "the patterns the miner had before are kept beside those of the file", e.line)
                continue
            if x.op == "list" and not x.a[0]:
                for ev in self.Si.events:
                    if ev.kind == "meth" and ev.data[1] is x and ev.data[2] == "append":
                        cs = [c for c, p in ev.conds if c.op != "iter"]
                        if cs:
                            self.viol("whole", self.fi, key, "only some of the patterns are imported (%s)" % Y.show(cs[-1])[:50], ev.line)
                        tups.append((ev, ev.data[3][0]))
            elif x.op == "comp":
                if any(g[2] for g in x.a[2]):
                    self.viol("whole", self.fi, key, "only some of the patterns are imported", e.line)
                tups.append((e, x.a[1]))
            elif cut(x):
                self.viol("whole", self.fi, key, "only some of the patterns are handed to the collection", e.line)
                continue
            if x.op == "list" and not x.a[0] and not tups and not any(
                    ev.kind == "meth" and (ev.data[1] is x or ev.data[1] is e.data[0]) for ev in self.Si.events):
                self.viol("whole", self.fi, key, "the imported patterns are not handed to the collection", e.line)
                continue
        if not tups:
            rep.undecided("same", self.fi.where, "the imported collection")
        for ev, t in tups:
            if t.op not in ("tup", "list") or len(t.a[0]) != 3:
                rep.undecided("same", ev.where, "imported entry %s" % Y.show(t)[:40])
                continue
            for i, what in ((1, "start point"), (2, "shift corrections")):
                v = t.a[0][i]
                k = self.key_of(v, tree)
                if k is None:
                    b = bare(v)
                    if any(y.op == "idx" and y.a[1].op == "c" and isinstance(y.a[1].a[0], int) and self.field(y.a[0]) is not None for y in Y.walk(b)):
                        self.viol("same", self.fi, what, "the %s of every imported pattern is %s" % (what, Y.show(v)[:50]), ev.line)
                    elif b.op in ("c", "list") and (b.op == "c" or not b.a[0]) or b.op in ("bin", "neg") or altered(b) or \
                            b.op == "idx" and b.a[1].op == "slice" and self.key_of(b.a[0], tree) is not None and any(
                                x is not Y.NONE for x in b.a[1].a) or b.op == "comp" and self.key_of(b.a[2][0][0], tree) is not None and (
                                altered(b.a[1]) or any(g[2] for g in b.a[2])):
                        self.viol("same", self.fi, what, "the %s of an imported pattern is %s" % (what, Y.show(v)[:50]), ev.line)
                    else:
                        rep.undecided("same", ev.where, "%s: %s" % (what, Y.show(v)[:40]))
                    continue
                if k not in wrote:
                    continue
                w = wrote[k]
                b = bare(w.data[2])
                if b.op == "c" and sum(1 for e in self.written if e.data[1].a[0] == k) > 1:
                    rep.undecided("same", ev.where, "%s: written in several places" % what)
                elif b.op in ("item", "idx") and part(b) == i:
                    rep.ok("same", "%s by way of %s" % (what, k))
                elif b.op == "comp" and (any(g[2] for g in b.a[2]) or altered(b.a[1])):
                    self.viol("same", self.fi, what, "the %s is imported from the field %r, under which the exporter writes only %s"
                              % (what, k, Y.show(w.data[2])[:60]), ev.line)
                elif b.op in ("item", "idx") and part(b) is not None or b.op in ("c", "bin", "neg") or b.op == "call" and not isinstance(b.a[0], Y.T) and \
                        b.a[0] in ("builtins.abs", "builtins.sorted", "builtins.sum", "numpy.abs", "numpy.sum", "builtins.round"):
                    self.viol("same", self.fi, what, "the %s is imported from the field %r, under which the exporter writes %s"
                              % (what, k, Y.show(w.data[2])[:60]), ev.line)
                else:
                    rep.undecided("same", ev.where, "%s: %s" % (what, Y.show(w.data[2])[:40]))
        for ev in self.Si.events:
            if ev.kind == "setattr" and ev.data[0].op == "new" and ev.data[0].a[0].name == "Pattern" and isinstance(ev.data[1], str) and ev.func.name != "__init__":
                k = self.key_of(ev.data[2], tree)
                if k is None or k not in wrote:
                    if ev.data[1] == "next_id" and ev.data[2].op == "c":
                        self.viol("same", self.fi, ev.data[1], "%s of an imported pattern is always %s" % (ev.data[1], Y.show(ev.data[2])), ev.line)
                    continue
                b = bare(wrote[k].data[2])
                if b.op == "attr" and b.a[1] == ev.data[1]:
                    rep.ok("same", "%s by way of %s" % (b.a[1], k))
                elif b.op in ("attr", "c", "bin", "item"):
                    self.viol("same", self.fi, ev.data[1], "%s of a pattern is imported from the field %r, under which the exporter writes %s"
                              % (ev.data[1], k, Y.show(b)[:50]), ev.line)
                else:
                    rep.undecided("same", ev.where, "%s from %s" % (ev.data[1], k))

        sets = {e.data[1] for e in self.Si.events if e.kind == "setattr" and e.func.name != "__init__"}
        args = any(e.kind == "new" and e.data[1].name == "Pattern" and (e.data[2] or e.data[3]) for e in self.Si.events)
        for k, w in wrote.items():
            b = bare(w.data[2])
            if b.op == "attr" and b.a[1] not in sets and not args and all(isinstance(x, str) for x in sets):
                self.viol("same", self.fi, b.a[1], "%s of a pattern is exported as %r, but not given to the imported one" % (b.a[1], k), self.fi.node.lineno)

    def nodes(self, tree, wrote, gone):
        rep = self.rep
        vals = [(e, e.data[2]) for e in self.Si.events if e.kind == "setattr" and e.data[1] == "nodes" and e.func.name != "__init__"]
        vals += [(e, a) for e in self.Si.events if e.kind == "new" and e.data[1].name == "Pattern" for a in list(e.data[2]) + list(e.data[3].values())]
        if not vals:
            rep.undecided("keys", self.fi.where, "where the nodes are imported is not found")
            return
        for e, v in vals:
            for x in P.leaves(v):
                b = x
                while b.op == "call" and b.a[0] in ("builtins.dict", "copy.deepcopy", "copy.copy") and b.a[1] or b.op == "meth" and b.a[1] == "copy":
                    b = b.a[1][0] if b.op == "call" else b.a[0]
                if same_elem(b, tree):
                    self.viol("keys", self.fi, "nodes", "the nodes are imported with text as keys, but node numbers are integers", e.line)
                    continue
                keys, filt, at = None, False, e.i
                if x.op == "comp" and x.a[0] == "dict":
                    keys = [x.a[1].a[0][0]]
                    filt = any(g[2] for g in x.a[2])
                elif x.op == "dict" and not x.a[0]:
                    st = [s for s in self.Si.events if s.kind == "store" and s.data[0] is x]
                    keys = [s.data[1] for s in st]
                    filt = any(c.op not in ("iter", "exc") for s in st for c, p in s.conds)
                    at = min([s.i for s in st] or [at])
                    deep = st and any(r.kind == "rcall" and r.func is st[0].func for r in self.Si.events)
                    if filt and deep and len(st) == 1 and not any(y.op == "c" and y.a[0] in wrote for c, p in st[0].conds for y in Y.walk(c)):
                        self.viol("whole", self.fi, "nodes", "only some of the entries of a node are imported", st[0].line)
                if not keys:
                    rep.undecided("keys", e.where, "nodes: %s" % Y.show(x)[:50])
                    continue
                if any(y.op == "call" and y.a[0] == "builtins.int" for k in keys for y in Y.walk(k)):
                    rep.ok("keys", "node numbers turned back into integers")
                elif all(k.op == "elem" for k in keys):
                    self.viol("keys", self.fi, "nodes", "the nodes are imported with text as keys, but node numbers are integers", e.line)
                    continue
                else:
                    rep.undecided("keys", e.where, "nodes: keys")
                for k in wrote:
                    g = gone.get(k)
                    if g is not None and g.i < at:
                        rep.ok("same", "%s is no node" % k)
                    elif not filt:
                        self.viol("same", self.fi, k, "the field %r of an exported pattern becomes one of the nodes of the imported one" % k, e.line)
                    else:
                        rep.undecided("same", e.where, "%s among the nodes" % k)

    def numbers(self, wrote):
        rep = self.rep
        if any(k in self.dumps[-1].data[3] for k in ("default", "cls")):
            return
        tree = next(iter(wrote.values())).data[0]
        conv = [e for e in self.Se.events if e.kind == "call" and e.data[1] == "builtins.int" and any(
            y.op in ("val", "elem", "idx") and any(z is tree for z in Y.walk(y)) for x in e.data[2] for y in Y.walk(x))]
        hidden = [e for e in self.Se.events if e.kind == "rcall" and e.data[2] is not None and any(v is tree for v in e.data[2].values())]
        if conv:
            rep.ok("json", "numbers of the nodes are converted")
        elif hidden:
            rep.undecided("json", hidden[0].where, "numbers of the nodes")
        else:
            self.viol("json", self.fe, "nodes", "numbers of the nodes are written as they are in the internal arrays, which json refuses", self.dumps[-1].line)
        for k, e in wrote.items():
            v = e.data[2]
            b = bare(v)
            if not (b.op in ("item", "idx") and part(b) in (1, 2)):
                continue
            cast = any(y.op == "call" and y.a[0] == "builtins.int" or y.op == "meth" and y.a[1] in ("tolist", "to_list", "item") or
                       y.op == "comp" and y.a[0] == "map" for y in Y.walk(v)) or v.op == "call" and any(y.op == "lib" and y.a[0] == "builtins.int" for y in Y.walk(v))
            if cast or part(b) == 1 and conv and any(c.i > e.i for c in conv):
                rep.ok("json", "%s is converted" % k)
            elif v is b or v.op == "call" and v.a[0] in ("builtins.list", "copy.copy", "copy.deepcopy") or v.op == "meth" and v.a[1] == "copy" or v.op == "comp":
                rep.violation("json", e.func.module.rel, e.func.qual, k, "%s is written as it is in the internal arrays, whose numbers json refuses" % k, e.line)
            else:
                rep.undecided("json", e.where, "%s: %s" % (k, Y.show(v)[:40]))


def none_only(t, mine):
    """The other alternatives are taken only if there is no value."""
    if t.op == "ite":
        c = t.a[0]
        while c.op == "not":
            c = c.a[0]
        return c.op == "cmp" and c.a[0] in ("is", "is not") and Y.NONE in c.a[1:] and any(bare(x) is mine for x in c.a[1:])
    return False


def altered(t):
    """Is t a computation on the element rather than the element?"""
    t = bare(t)
    return t.op in ("bin", "neg", "c") or t.op == "call" and t.a[0] in ("builtins.abs", "builtins.round", "numpy.abs", "builtins.max", "builtins.min")


def cut(t):
    """Is t a part of a sequence?"""
    return any(y.op == "slice" or y.op == "comp" and any(g[2] for g in y.a[2]) or
               y.op == "meth" and y.a[1] in ("head", "tail", "sample", "drop_duplicates", "query", "nlargest", "nsmallest") for y in Y.walk(t))


def part(t):
    i = t.a[1]
    i = i.a[0] if isinstance(i, Y.T) and i.op == "c" else i
    return i if isinstance(i, int) else None


def same_elem(a, tree):
    a = bare(a)
    return a is tree or a.op == "elem" and a.a[0] is tree.a[0]


def strip_enum(t):
    while t.op == "call" and t.a[0] in ("builtins.enumerate", "builtins.list", "builtins.reversed", "builtins.iter") and t.a[1]:
        t = t.a[1][0]
    return t


def gated(t, cs=(), d=0):
    if t.op == "ite" and d < 8:
        return gated(t.a[1], cs + ((t.a[0], True),), d + 1) + gated(t.a[2], cs + ((t.a[0], False),), d + 1)
    return [(cs, t)]
