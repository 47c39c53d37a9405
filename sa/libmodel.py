"""Effect and aliasing summaries of the library functions the repository calls.

Unknown library calls are taken to return fresh data computed from their arguments and to modify nothing: the
analyses report only what they can positively see."""
import ast
from . import interp as X
from . import model as M

Const, Ref, Tag, Lib, LibM, Fn, Bnd, Cls, Partial = X.Const, X.Ref, X.Tag, X.Lib, X.LibM, X.Fn, X.Bnd, X.Cls, X.Partial
OPQ, BOT, V_OPQ, V_NONE = X.OPQ, X.BOT, X.V_OPQ, X.V_NONE
tags, refs = X.tags, X.refs

DICTS = {"dict", "defaultdict", "Counter", "SortedDict", "OrderedDict"}
SEQS = {"list", "deque", "SortedList"}
FRAMES = {"DataFrame", "Series"}
ARR = {"ndarray", "DataFrame", "Series", "Index"}

KIND_OF_TYPE = {
    "builtins.list": "list", "builtins.dict": "dict", "builtins.set": "set", "builtins.tuple": "tuple",
    "builtins.frozenset": "frozenset", "builtins.str": "str", "builtins.int": "num", "builtins.float": "num",
    "builtins.bool": "num", "numpy.ndarray": "ndarray", "pandas.DataFrame": "DataFrame", "pandas.Series": "Series",
    "pandas.Index": "Index", "pandas.DatetimeIndex": "Index", "pandas.RangeIndex": "Index",
    "collections.defaultdict": "defaultdict", "collections.Counter": "Counter", "collections.OrderedDict": "dict",
    "collections.deque": "deque", "sortedcontainers.SortedDict": "SortedDict", "pyroaring.BitMap": "Bitmap",
    "pyroaring.FrozenBitMap": "frozenset", "networkx.Graph": "Graph", "networkx.DiGraph": "Graph",
    "networkx.MultiDiGraph": "Graph", "networkx.MultiGraph": "Graph", "datetime.datetime": "scalar",
    "datetime.timedelta": "scalar",
}
PYTYPE = {"builtins.list": list, "builtins.dict": dict, "builtins.set": set, "builtins.tuple": tuple,
          "builtins.str": str, "builtins.int": int, "builtins.float": float, "builtins.bool": bool}
SUBKIND = {"defaultdict": {"dict"}, "Counter": {"dict"}, "SortedDict": {"dict"}, "OrderedDict": {"dict"}}

MUT_LIST = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "appendleft", "popleft",
            "extendleft", "rotate", "add", "discard", "update", "__setitem__", "__delitem__", "__iadd__"}
MUT_SET = {"add", "discard", "remove", "pop", "clear", "update", "difference_update", "intersection_update",
           "symmetric_difference_update", "__ior__", "__iand__", "__isub__", "__ixor__"}
MUT_DICT = {"pop", "popitem", "clear", "update", "setdefault", "subtract", "move_to_end", "__setitem__",
            "__delitem__", "__ior__"}
MUT_ARR = {"sort", "fill", "resize", "itemset", "put", "partition", "setflags", "setfield", "__setitem__"}
MUT_FRAME = {"pop", "insert", "update", "__setitem__", "__delitem__"}
MUT_GRAPH = {"add_node", "add_nodes_from", "add_edge", "add_edges_from", "add_weighted_edges_from", "remove_node",
             "remove_nodes_from", "remove_edge", "remove_edges_from", "clear", "update", "clear_edges"}
MUT_BITMAP = {"add", "discard", "remove", "update", "clear", "difference_update", "intersection_update",
              "symmetric_difference_update", "flip_inplace", "pop", "add_range", "remove_range", "add_checked",
              "union_update", "__iand__", "__ior__", "__isub__", "__ixor__"}
MUT_BY_KIND = {"list": MUT_LIST, "deque": MUT_LIST, "SortedList": MUT_LIST, "set": MUT_SET, "ndarray": MUT_ARR,
               "DataFrame": MUT_FRAME, "Series": MUT_FRAME, "Graph": MUT_GRAPH, "Bitmap": MUT_BITMAP, "Index": set(),
               "str": set(), "num": set(), "scalar": set(), "tuple": set(), "frozenset": set(), "file": set(),
               "iter": set(), "generator": set(), "group": set(), "Parallel": set(), "bytearray": MUT_LIST}
for _k in DICTS:
    MUT_BY_KIND[_k] = MUT_DICT
# methods that are only ever read to be called later: `map(xs.append, ...)`, `iter(xs.pop, None)`
MUT_BOUND = {"append", "extend", "pop", "popitem", "appendleft", "popleft", "add", "discard", "remove", "clear", "setdefault",
             "update", "difference_update", "intersection_update", "symmetric_difference_update", "add_node",
             "add_nodes_from", "add_edge", "add_edges_from", "__setitem__", "__delitem__"}
MUT_ANY = MUT_LIST | MUT_SET | MUT_DICT | MUT_ARR | MUT_GRAPH | {"insert"}

VIEW_METH = {"ravel", "reshape", "squeeze", "transpose", "view", "swapaxes", "to_numpy", "__array__", "diagonal"}
ALIAS_ATTR = {"values", "T", "flat", "array", "real", "base", "sparse", "_values"}
ACC_ATTR = {"loc", "iloc", "at", "iat"}
SCALAR_ATTR = {"shape", "size", "ndim", "dtype", "dtypes", "name", "empty", "nbytes", "hasnans", "itemsize", "nnz",
               "is_unique", "freq", "inferred_type"}
GVIEW = {"nodes", "edges", "in_edges", "out_edges", "adj", "neighbors", "successors", "predecessors",
         "get_edge_data", "degree", "in_degree", "out_degree", "nbunch_iter", "adjacency", "_adj", "_node"}
NP_VIEW = {"asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "atleast_1d", "atleast_2d", "atleast_3d",
           "ravel", "reshape", "squeeze", "transpose", "broadcast_to", "expand_dims", "moveaxis", "swapaxes",
           "lib.stride_tricks.as_strided", "lib.stride_tricks.sliding_window_view", "asmatrix", "rollaxis", "flip",
           "fliplr", "flipud", "split", "array_split", "rot90", "diagonal", "require"}
NP_MUT0 = {"put", "copyto", "place", "putmask", "fill_diagonal", "put_along_axis", "random.shuffle"}
FRESH_SAME = {"copy", "drop", "rename", "reset_index", "sort_values", "sort_index", "set_index", "astype", "replace",
              "fillna", "dropna", "drop_duplicates", "head", "tail", "sample", "to_frame", "explode", "reindex",
              "nlargest", "nsmallest", "where", "mask", "iloc", "rename_axis", "round", "abs", "isin", "repeat",
              "flatten", "take", "compress", "clip", "cumsum", "assign", "join", "merge", "append", "shift", "diff",
              "sort_index", "stack", "unstack", "swaplevel", "infer_objects", "convert_dtypes", "reindex_like",
              "str", "dt", "add", "sub", "mul", "div", "union", "intersection", "difference", "symmetric_difference",
              "duplicated", "isnull", "isna", "notnull", "notna", "set_axis", "to_series", "insert", "delete", "map",
              "combine", "set_names", "mode", "unique", "value_counts", "query", "filter", "truncate", "squeeze",
              "rank", "droplevel", "pivot", "melt", "argsort", "searchsorted", "sort", "tolist", "to_list"}
SHALLOW_DF_FRESH = FRESH_SAME


class LibModel:
    def __init__(self, interp):
        self.I = interp
        self.sortkeys = {}            # sorted dictionaries made with a key function

    # ---------------------------------------------------------------------------------- helpers
    def fresh(self, node, kind=None, elem=BOT, keys=BOT, extra=None, t=BOT):
        o = self.I.alloc(node, kind, extra)
        if elem:
            self.I.add_elem(o, elem)
        if keys:
            self.I.add_elem(o, keys, "keys")
        return frozenset([Ref(o)]) | t

    def view(self, a, node, kind=None, extra=None):
        o = self.I.alloc(node, kind or (a.kind if isinstance(a.kind, str) else None), ("view", extra))
        if a.obj not in o.bases:
            o.bases = o.bases | frozenset([a.obj])
            self.I.changed = True
        self.I.add_elem(o, self.I.obj_elem(a))
        return Ref(o)

    def itero(self, v, node, elem, extra=None):
        o = self.I.alloc(node, "iter", extra)
        src = frozenset(a.obj for a in refs(v))
        if not src <= o.src:
            o.src = o.src | src
            self.I.changed = True
        self.I.add_elem(o, elem)
        return frozenset([Ref(o)]) | tags(v)

    def tup(self, node, parts, extra=None):
        o = self.I.alloc(node, "tuple", ("tup", extra))
        for i, p in enumerate(parts):
            self.I.add_pos(o, i, p)
        return frozenset([Ref(o)])

    def callback(self, fn, args, node, st):
        cs = frozenset(a for a in fn if type(a) in (Fn, Bnd, Cls, Partial, Lib, LibM) or
                       (type(a) is Ref and self.I.class_of(a.kind) is not None))
        if not cs:
            return tags(fn) | V_OPQ
        return self.I.call(cs, list(args), {}, node, st)

    # ---------------------------------------------------------------------------------- attributes
    def lib_attr(self, a, name, node):
        return frozenset([Lib(a.name + "." + name)])

    def obj_attr(self, a, name, node, st):
        I, o = self.I, a.obj
        calling = node is I.calling
        if name in o.attrs:
            return o.attrs[name]
        if a.kind in ("num", "str", "scalar"):
            return frozenset([LibM(frozenset([a]), name)]) if calling else V_OPQ
        if calling:
            return frozenset([LibM(frozenset([a]), name)])
        if name in MUT_BOUND and (a.kind is None or name in MUT_BY_KIND.get(a.kind, ())):
            return frozenset([LibM(frozenset([a]), name)])
        if name in ACC_ATTR:
            return frozenset([Ref(o, "acc")])
        if name in ALIAS_ATTR and a.kind not in DICTS:
            if name == "sparse":
                return frozenset([LibM(frozenset([a]), name)])
            return frozenset([Ref(o, "ndarray")])
        if name in SCALAR_ATTR:
            return V_OPQ
        if name in GVIEW and (a.kind in ("Graph", "data", None)):
            return self.graph_view(a, name, node)
        if o.lazy and o.owner is not None:
            if name in ("index", "columns"):
                return frozenset([Ref(I.child(o, "." + name, "Index"))])
            return frozenset([Ref(I.child(o, "." + name))])
        if name in ("index", "columns"):
            return self.fresh(node, "Index", V_OPQ, extra="ix")
        if a.kind in ("generator", "iter"):
            return V_OPQ
        return frozenset([LibM(frozenset([a]), name)]) if isinstance(a.kind, str) else V_OPQ

    def graph_view(self, a, name, node):
        I, o = self.I, a.obj
        what = ".nodes" if name in ("nodes", "_node", "nbunch_iter") else ".edges"
        if o.lazy and o.owner is not None:
            c = I.child(o, what, "gview")
            d = I.child(c, "[]", "gitem")
            I.add_elem(c, frozenset([Ref(d)]))
        else:
            c = I.new(("gview", o.id, what), "gview")
            d = I.new(("gitem", o.id, what), "gitem")
            I.add_elem(c, frozenset([Ref(d)]))
            v = o.attrs.get(what)
            if v:
                I.add_elem(d, v)
        if o not in c.src:
            c.src = c.src | frozenset([o])
            I.changed = True
        return frozenset([Ref(c)])

    # ---------------------------------------------------------------------------------- subscripts
    def getitem(self, base, key, node, st):
        I = self.I
        out = set()
        for a in base:
            if type(a) is Tag:
                out.add(a)
                continue
            if type(a) is not Ref:
                out.add(OPQ)
                continue
            o, k = a.obj, a.kind
            if I.class_of(k) is not None:
                m = I.class_of(k).find("__getitem__")
                if m is not None:
                    out |= I.call_function(m, [frozenset([a]), key], {}, node, st)
                    continue
            if k in ("str", "num", "scalar"):
                out.add(OPQ)
                continue
            sl = X._SLICE in key
            if o.pos is not None and not sl:
                cs = [x.v for x in key if type(x) is Const]
                if cs and all(c in o.pos for c in cs) and not [x for x in key if type(x) not in (Const, Tag)]:
                    for c in cs:
                        out |= o.pos[c]
                    out |= o.elem
                    continue
                if k == "tuple" and cs and all(isinstance(c, int) and c < 0 for c in cs):
                    n = len(o.pos)
                    for c in cs:
                        out |= o.pos.get(n + c, BOT)
                    out |= o.elem
                    continue
            if k in SEQS or k == "tuple" or k == "iter" or k == "generator":
                if sl:
                    out |= self.fresh(node, "list" if k != "tuple" else "tuple", I.obj_elem(a), extra="sl")
                else:
                    out |= I.obj_elem(a) or V_OPQ
                continue
            if k in DICTS or k in ("gview", "gitem"):
                r = I.obj_elem(a)
                if k == "defaultdict" and o.meta is not None and type(o.meta) is frozenset:
                    r = r | o.meta
                if k == "gview":
                    # g.nodes[n] / g.edges[u, v]: the attribute dictionary
                    pass
                out |= r or V_OPQ
                continue
            if k in ("ndarray", "acc", "DataFrame", "Series", "data", None, "Index", "group"):
                if k == "Index":
                    out |= self.fresh(node, "Index", V_OPQ, extra="ixs") if sl else V_OPQ
                    continue
                if k == "ndarray" and (sl or X._TSLICE in key):
                    out.add(self.view(a, node, "ndarray"))
                    continue
                if k == "ndarray" and X._TUPLE in key:
                    out |= V_OPQ
                    continue
                krefs = [x for x in key if type(x) is Ref and x.kind not in ("str", "num", "scalar")]
                kpl = [x for x in key if type(x) is not Ref and type(x) is not Tag]
                if krefs and not (k in ("DataFrame", "Series", "acc") and False):
                    # fancy / boolean indexing copies
                    if not (o.lazy and any(x.obj.lazy and x.kind is None for x in krefs) and k is None):
                        out |= self.fresh(node, k if k not in (None, "data", "acc") else "ndarray", I.obj_elem(a),
                                          extra="fx")
                        if k == "Series" and any(x.obj.lazy and x.kind is None for x in krefs):
                            out |= I.obj_elem(a)       # an unknown key may be a single label
                    else:
                        out |= I.obj_elem(a)
                if kpl or not key:
                    if k in ("DataFrame",) and not sl:
                        out.add(self.view(a, node, "Series"))
                    elif k in ("DataFrame", "Series", "acc") and (sl or X._TSLICE in key):
                        out.add(self.view(a, node, "DataFrame" if k != "Series" else k))
                    elif k == "acc":
                        out |= I.obj_elem(a) or V_OPQ
                    elif sl:
                        if o.lazy and k in ("data", None):
                            out.add(self.view(a, node, "data"))
                        else:
                            out |= self.fresh(node, k, I.obj_elem(a), extra="sl")
                    else:
                        out |= I.obj_elem(a) or V_OPQ
                continue
            out |= I.obj_elem(a) or V_OPQ
        out |= tags(key)
        return frozenset(out) or V_OPQ

    # ---------------------------------------------------------------------------------- operators
    def arith(self, l, r, node, op):
        I = self.I
        t = tags(l, r)
        lr, rr = refs(l), refs(r)
        if not lr and not rr:
            lc, rc = [a for a in l if type(a) is not Tag], [a for a in r if type(a) is not Tag]
            if len(lc) == 1 and len(rc) == 1 and type(lc[0]) is Const and type(rc[0]) is Const:
                x, y = lc[0].v, rc[0].v
                try:
                    if isinstance(x, (int, float)) and isinstance(y, (int, float)) and abs(x) < 1e6 and abs(y) < 1e6:
                        if op == "Add":
                            return frozenset([Const(x + y)]) | t
                        if op == "Sub":
                            return frozenset([Const(x - y)]) | t
                        if op == "Mult":
                            return frozenset([Const(x * y)]) | t
                    if isinstance(x, str) and isinstance(y, str) and op == "Add" and len(x) + len(y) < 200:
                        return frozenset([Const(x + y)]) | t
                except Exception:
                    pass
            return V_OPQ | t
        ok_add = {"Add": ("list", "tuple"), "Mult": ("list", "tuple"), "BitOr": ("set", "frozenset") + tuple(DICTS),
                  "BitAnd": ("set", "frozenset"), "BitXor": ("set", "frozenset"), "Sub": ("set", "frozenset")}.get(op, ())
        NOARITH = ("list", "tuple", "set", "frozenset") + tuple(DICTS)
        if op not in ("USub", "UAdd", "Invert"):
            lr = [a for a in lr if a.kind not in NOARITH or a.kind in ok_add]
            rr = [a for a in rr if a.kind not in NOARITH or a.kind in ok_add]
        kinds = [a.kind for a in lr + rr]
        k = None
        for p in ("DataFrame", "Series", "ndarray", "Bitmap", "set", "frozenset", "list", "tuple", "dict",
                  "defaultdict", "Counter", "SortedDict"):
            if p in kinds:
                k = p
                break
        for a in lr + rr:
            c = I.class_of(a.kind)
            if c is not None:
                m = c.find({"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "BitOr": "__or__",
                            "BitAnd": "__and__"}.get(op, "__%s__" % op.lower()))
                if m is not None and a in lr:
                    return I.call_function(m, [frozenset([a]), r], {}, node, X.State({}, {}, frozenset())) | t
        if k is None:
            if all(x in ("num", "str", "scalar") for x in kinds):
                return V_OPQ | t
            if "data" not in kinds:
                return V_OPQ | t
            k = "ndarray"
        if k == "tuple" and op == "Add":
            # concatenation of tuples of known shape keeps the positions
            o = I.alloc(node, "tuple", "cat")
            ok = len(lr) == 1 and len(rr) == 1 and lr[0].kind == rr[0].kind == "tuple" and \
                lr[0].obj.pos is not None and not lr[0].obj.elem
            if ok:
                for i, v in lr[0].obj.pos.items():
                    I.add_pos(o, i, v)
                for v in (rr[0].obj.pos or {}).items():
                    I.add_pos(o, len(lr[0].obj.pos) + v[0], v[1])
                I.add_elem(o, rr[0].obj.elem)
            else:
                I.add_elem(o, I.elem_of(l) | I.elem_of(r))
            return frozenset([Ref(o)]) | t
        el = I.elem_of(l) | I.elem_of(r)
        if k in ("ndarray", "Series", "DataFrame", "Bitmap") or k is None:
            el = V_OPQ
        v = self.fresh(node, k, el, extra=("op", k))
        if k in DICTS:
            for a in lr + rr:
                I.add_elem(refs(v)[0].obj, a.obj.keys, "keys")
        return v | t | (V_OPQ if k is None else BOT)

    # ---------------------------------------------------------------------------------- types
    def atom_isinstance(self, a, kinds):
        I = self.I
        if None in kinds:
            return None
        if type(a) is Tag:
            return None
        if type(a) is Const:
            if a.v is None:
                return any(k == "builtins.NoneType" for k in kinds) if all(isinstance(k, (str, M.ClassInfo))
                                                                          for k in kinds) else None
            py = []
            for k in kinds:
                if k in PYTYPE:
                    py.append(PYTYPE[k])
                elif isinstance(k, str) and (k.startswith("numpy") or k.startswith("numbers") or
                                             k.startswith("collections.abc") or k.startswith("typing")):
                    return None
            return isinstance(a.v, tuple(py)) if py else False
        if type(a) is Ref:
            k0 = a.kind
            c0 = I.class_of(k0)
            if c0 is not None:
                res = False
                for k in kinds:
                    if isinstance(k, M.ClassInfo):
                        if k in c0.mro():
                            return True
                    elif k in ("builtins.object",) or (isinstance(k, str) and k.split(".")[-1] in
                                                       [b.split(".")[-1] for b in c0.lib_bases()]):
                        return True
                    elif isinstance(k, str) and k not in KIND_OF_TYPE:
                        res = None
                return res
            if k0 in (None, "data", "acc", "scalar", "iter", "gview", "gitem", "obj"):
                return None
            for k in kinds:
                kk = KIND_OF_TYPE.get(k) if isinstance(k, str) else None
                if kk is not None and kk == "num" and k0 == "num":
                    return None
                if kk is not None and (kk == k0 or kk in SUBKIND.get(k0, ())):
                    if k0 == "Index" or (k0 == "Graph" and k != "networkx.Graph"):
                        return None
                    return True
                if isinstance(k, str) and kk is None:
                    return None
            return False
        return None

    def kind_filter(self, a, kinds, truth):
        if type(a) is Tag:
            return [a]
        t = self.atom_isinstance(a, kinds)
        if t is True:
            return [a] if truth else []
        if t is False:
            return [] if truth else [a]
        if truth and type(a) is Ref and a.kind in (None, "data"):
            out = []
            for k in kinds:
                if isinstance(k, M.ClassInfo):
                    out.append(Ref(a.obj, k))
                elif k in KIND_OF_TYPE:
                    out.append(Ref(a.obj, KIND_OF_TYPE[k]))
                else:
                    return [a]
            return out
        return [a]

    # ---------------------------------------------------------------------------------- copies
    def clone(self, v, node, deep, memo=None, depth=0):
        """copy.copy / copy.deepcopy of every object in v."""
        I = self.I
        memo = {} if memo is None else memo
        out = set()
        for a in v:
            if type(a) is not Ref or a.kind in ("num", "str", "scalar"):
                out.add(a)
                continue
            o = a.obj
            if o.id in memo:
                out.add(Ref(memo[o.id], a.kind))
                continue
            n = I.alloc(node, a.kind, ("clone", deep, min(depth, 2)))
            memo[o.id] = n
            if o.lazy and o.owner is not None and deep:
                n.lazy, n.owner, n.depth = True, ("copy", "of", str(o.owner[-1])), 0
            sub = (lambda x: self.clone(x, node, True, memo, depth + 1)) if deep and depth < 6 else (lambda x: x)
            if deep:
                I.add_elem(n, sub(o.elem))
            else:
                I.add_elem(n, I.obj_elem(a) if o.pos is None else o.elem)
            I.add_elem(n, sub(o.keys), "keys")
            for k, x in list((o.pos or {}).items()):
                I.add_pos(n, k, sub(x))
            for k, x in list(o.attrs.items()):
                I.add_attr(n, k, sub(x))
            if o is I.entry_self:
                pass
            n.meta = o.meta
            out.add(Ref(n, a.kind))
        return frozenset(out)

    # ---------------------------------------------------------------------------------- calls
    def call(self, name, args, kw, node, st, star=None, dstar=None):
        I = self.I
        allv = list(args) + list(kw.values()) + ([star] if star else []) + ([dstar] if dstar else [])
        t = tags(*allv)
        I.libcall(name, node, args, kw, st)
        a0 = args[0] if args else (star or BOT)
        if "out" in kw and name.startswith("numpy."):
            I.mutate(kw["out"], "out=", node, True, st)
        parts = name.split(".")
        root, short = parts[0], parts[-1]
        if root == "builtins":
            m = getattr(self, "b_" + short, None)
            if m is not None and len(parts) == 2:
                return m(args, kw, node, st, star, dstar, t)
            if len(parts) == 3:       # list.append(x, y), dict.fromkeys(...), str.join
                if parts[1] == "dict" and short == "fromkeys":
                    return self.fresh(node, "dict", args[1] if len(args) > 1 else V_NONE, I.elem_of(a0), t=t)
                if parts[1] in ("list", "dict", "set") and args:
                    return self.method(a0, short, args[1:], kw, node, st, star, dstar)
                return V_OPQ | t
            return V_OPQ | t
        if short == "check_is_fitted" and root == "sklearn" and "all_or_any" not in kw:
            names = kw.get("attributes", args[1] if len(args) > 1 else BOT)
            for x in set(names) | set(I.elem_of(names)):
                if type(x) is Const and isinstance(x.v, str):
                    for a in refs(a0):
                        if a.obj is I.entry_self:
                            I.effect("readself", a.obj, x.v, node, info=x.v in st.sdef)
        if short in ("ThreadPoolExecutor", "ProcessPoolExecutor", "Pool", "ThreadPool", "Executor"):
            return self.fresh(node, "Executor", t=t)
        m = self.TABLE.get(name)
        if m is not None:
            return getattr(self, m)(args, kw, node, st, star, dstar, t)
        if root == "numpy":
            return self.np_call(".".join(parts[1:]), args, kw, node, st, star, dstar, t)
        if root == "pandas":
            return self.pd_call(".".join(parts[1:]), args, kw, node, st, star, dstar, t)
        if root == "itertools":
            return self.it_call(short, args, kw, node, st, star, dstar, t)
        if root == "networkx":
            if short in ("Graph", "DiGraph", "MultiGraph", "MultiDiGraph"):
                return self.fresh(node, "Graph", t=t)
            if short in ("set_node_attributes", "set_edge_attributes", "relabel_nodes") and args:
                if short != "relabel_nodes" or self.is_false(kw.get("copy")):
                    I.mutate(a0, "nx." + short, node, True, st)
            return self.fresh(node, None, t=t)
        if root == "operator" or short in ("log2", "floor", "ceil", "sqrt", "pow", "exp") and root == "math":
            return V_OPQ | t
        if root in ("os", "time", "datetime", "re", "math", "logging", "string", "glob", "shutil", "sys", "hashlib"):
            return V_OPQ | t
        if root in ("random",) and short == "shuffle":
            I.mutate(a0, "shuffle", node, True, st)
            return V_NONE
        if short == "shuffle" and root == "random":
            return V_NONE
        r = self.fresh(node, None, t=t)
        return r

    def is_true(self, v):
        return v is not None and any(type(a) is Const and a.v is True for a in v)

    def is_false(self, v):
        return v is not None and any(type(a) is Const and a.v is False for a in v)

    TABLE = {
        "collections.defaultdict": "c_defaultdict", "collections.Counter": "c_dict", "collections.OrderedDict": "c_dict",
        "sortedcontainers.SortedDict": "c_dict", "collections.deque": "c_list", "sortedcontainers.SortedList": "c_list",
        "pyroaring.BitMap": "c_bitmap", "copy.copy": "c_copy", "copy.deepcopy": "c_deepcopy",
        "functools.partial": "c_partial", "functools.reduce": "c_reduce", "joblib.delayed": "c_delayed",
        "joblib.Parallel": "c_parallel", "json.load": "c_ext", "json.loads": "c_ext", "pickle.load": "c_ext",
        "pickle.loads": "c_ext", "sklearn.base.clone": "c_clone", "heapq.heappush": "c_mut0", "heapq.heapify": "c_mut0",
        "heapq.heappop": "c_pop0", "bisect.insort": "c_mut0", "bisect.insort_left": "c_mut0",
        "bisect.insort_right": "c_mut0", "random.shuffle": "c_mut0", "collections.namedtuple": "c_opq",
        "numpy.random.shuffle": "c_mut0", "gzip.open": "c_file", "io.open": "c_file", "codecs.open": "c_file",
        "functools.wraps": "c_opq", "functools.lru_cache": "c_opq", "contextlib.suppress": "c_opq",
        "sklearn.utils.shuffle": "c_skshuffle",
    }

    def c_skshuffle(self, args, kw, node, st, star, dstar, t):
        return self.fresh(node, "ndarray", self.I.elem_of(args[0] if args else BOT), t=t)

    def c_opq(self, args, kw, node, st, star, dstar, t):
        return V_OPQ | t

    def c_file(self, args, kw, node, st, star, dstar, t):
        return self.fresh(node, "file", V_OPQ, t=t)

    def c_mut0(self, args, kw, node, st, star, dstar, t):
        if args:
            self.I.mutate(args[0], "in-place call", node, True, st)
            for a in refs(args[0]):
                for x in args[1:]:
                    self.I.add_elem(a.obj, x)
        return V_NONE

    def c_pop0(self, args, kw, node, st, star, dstar, t):
        if args:
            self.I.mutate(args[0], "heappop", node, True, st)
            return self.I.elem_of(args[0]) or V_OPQ
        return V_OPQ

    def c_defaultdict(self, args, kw, node, st, star, dstar, t):
        v = self.fresh(node, "defaultdict", t=t)
        o = refs(v)[0].obj
        if args:
            el = self.callback(args[0], [], node, st)
            o.meta = el
            self.I.add_elem(o, el)
        for x in args[1:]:
            self._dict_from(o, x)
        return v

    def _dict_from(self, o, x):
        I = self.I
        for a in refs(x):
            if a.kind in DICTS:
                I.add_elem(o, a.obj.elem)
                I.add_elem(o, a.obj.keys, "keys")
                for k, v in (a.obj.pos or {}).items():
                    I.add_pos(o, k, v)
                if a.obj.lazy:
                    I.add_elem(o, I.obj_elem(a))
            elif a.kind == "Series":
                I.add_elem(o, I.obj_elem(a))
            else:
                for p in I.obj_elem(a):
                    if type(p) is Ref:
                        I.add_elem(o, I.unpack(frozenset([p]), 0), "keys")
                        I.add_elem(o, I.unpack(frozenset([p]), 1))
                if a.obj.lazy and a.kind in (None, "data"):
                    I.add_elem(o, I.obj_elem(a))
        return o

    def c_dict(self, args, kw, node, st, star, dstar, t):
        nm = {"Counter": "Counter", "SortedDict": "SortedDict"}.get(self._short(node), "dict")
        v = self.fresh(node, nm, t=t)
        o = refs(v)[0].obj
        if nm == "SortedDict" and args and any(type(a) in (Fn, Bnd, Partial) for a in args[0]):
            for x in args[1:]:
                self._dict_from(o, x)
            self.sortkeys[id(o)] = (o, args[0])
            self.callback(args[0], [o.keys or V_OPQ], node, st)
            return v
        for x in args:
            if nm == "Counter":
                self.I.add_elem(o, V_OPQ)
                self.I.add_elem(o, self.I.elem_of(x), "keys")
            else:
                self._dict_from(o, x)
        for k, x in kw.items():
            self.I.add_pos(o, k, x)
        return v

    def _short(self, node):
        f = getattr(node, "func", None)
        d = M.dotted_name(f) if f is not None else None
        if d is None:
            return ""
        v = self.I.prog.resolve_dotted(self.I.cur_module(), d)
        return (v[1] if v and v[0] == "lib" else d).split(".")[-1]

    def c_list(self, args, kw, node, st, star, dstar, t):
        return self.fresh(node, "list", self.I.elem_of(args[0]) if args else BOT, t=t)

    def c_bitmap(self, args, kw, node, st, star, dstar, t):
        return self.fresh(node, "Bitmap", V_OPQ, t=t)

    def c_copy(self, args, kw, node, st, star, dstar, t):
        return self._copy(args, node, st, False, t)

    def c_deepcopy(self, args, kw, node, st, star, dstar, t):
        return self._copy(args, node, st, True, t)

    def _copy(self, args, node, st, deep, t):
        I = self.I
        out = set()
        v = args[0] if args else BOT
        rest = set()
        for a in v:
            c = I.class_of(a.kind) if type(a) is Ref else None
            m = c.find("__deepcopy__" if deep else "__copy__") if c is not None else None
            if m is not None:
                out |= I.call_function(m, [frozenset([a])] + ([V_OPQ] if deep else []), {}, node, st)
            elif type(a) is Ref and a.kind == "Graph" and not deep:
                rest.add(a)
            else:
                rest.add(a)
        out |= self.clone(frozenset(rest), node, deep)
        return frozenset(out) | t

    def c_clone(self, args, kw, node, st, star, dstar, t):
        return self.clone(args[0] if args else BOT, node, True) | t

    def c_partial(self, args, kw, node, st, star, dstar, t):
        if not args:
            return V_OPQ
        return frozenset([Partial(args[0], args[1:], kw.items())]) | t

    def c_delayed(self, args, kw, node, st, star, dstar, t):
        return frozenset([Partial(args[0], delayed=True)]) if args else V_OPQ

    def c_parallel(self, args, kw, node, st, star, dstar, t):
        return self.fresh(node, "Parallel", t=t)

    def c_reduce(self, args, kw, node, st, star, dstar, t):
        if len(args) < 2:
            return V_OPQ | t
        el = self.I.elem_of(args[1]) | (args[2] if len(args) > 2 else BOT)
        r = self.callback(args[0], [el, el], node, st)
        r2 = self.callback(args[0], [el | r, el], node, st)
        return el | r | r2 | t

    def c_ext(self, args, kw, node, st, star, dstar, t):
        o = self.I.alloc(node, None, "ext")
        o.lazy, o.owner = True, ("ext", "loaded")
        return frozenset([Ref(o)]) | t

    # ---- builtins
    def b_list(self, args, kw, node, st, star, dstar, t):
        return self.fresh(node, "list", self.elems(args[0]) if args else BOT, t=t)

    def elems(self, v):
        """Elements of an iteration, dictionary keys for dictionaries."""
        I = self.I
        out = set()
        for a in v:
            if type(a) is Ref and a.kind in DICTS:
                out |= a.obj.keys | (V_OPQ if a.obj.pos or a.obj.lazy else BOT)
            else:
                out |= I.elem_of(frozenset([a]))
        return frozenset(out)

    def b_tuple(self, args, kw, node, st, star, dstar, t):
        return self.fresh(node, "tuple", self.elems(args[0]) if args else BOT, t=t)

    def b_set(self, args, kw, node, st, star, dstar, t):
        return self.fresh(node, "set", self.elems(args[0]) if args else BOT, t=t)

    def b_frozenset(self, args, kw, node, st, star, dstar, t):
        return self.fresh(node, "frozenset", self.elems(args[0]) if args else BOT, t=t)

    def b_sorted(self, args, kw, node, st, star, dstar, t):
        el = self.elems(args[0]) if args else BOT
        if "key" in kw:
            self.callback(kw["key"], [el], node, st)
        return self.fresh(node, "list", el, t=t)

    def b_dict(self, args, kw, node, st, star, dstar, t):
        v = self.fresh(node, "dict", t=t)
        o = refs(v)[0].obj
        for x in args:
            self._dict_from(o, x)
        for k, x in kw.items():
            self.I.add_pos(o, k, x)
        if dstar:
            self._dict_from(o, dstar)
        return v

    def b_enumerate(self, args, kw, node, st, star, dstar, t):
        if not args:
            return V_OPQ
        return self.itero(args[0], node, self.tup(node, [V_OPQ, self.elems(args[0])]))

    def b_zip(self, args, kw, node, st, star, dstar, t):
        I = self.I
        parts = [self.elems(a) for a in args]
        if star is not None:
            tv = self.fresh(node, "tuple", I.elem_of(star), extra="zs")
            for i, p in enumerate(parts):
                I.add_pos(refs(tv)[0].obj, i, p)
        else:
            tv = self.tup(node, parts)
        allv = frozenset(x for a in args for x in a)
        return self.itero(allv, node, tv)

    def b_map(self, args, kw, node, st, star, dstar, t):
        if len(args) < 2:
            return V_OPQ
        r = self.callback(args[0], [self.elems(a) for a in args[1:]], node, st)
        return self.itero(frozenset(x for a in args[1:] for x in a), node, r)

    def b_filter(self, args, kw, node, st, star, dstar, t):
        if len(args) < 2:
            return V_OPQ
        el = self.elems(args[1])
        self.callback(args[0], [el], node, st)
        return self.itero(args[1], node, el)

    def b_reversed(self, args, kw, node, st, star, dstar, t):
        return self.itero(args[0], node, self.elems(args[0])) if args else V_OPQ

    def b_iter(self, args, kw, node, st, star, dstar, t):
        if len(args) == 2:       # iter(function, sentinel)
            return self.itero(BOT, node, self.callback(args[0], [], node, st))
        return self.itero(args[0], node, self.elems(args[0])) if args else V_OPQ

    def b_next(self, args, kw, node, st, star, dstar, t):
        if not args:
            return V_OPQ
        return self.I.elem_of(args[0]) | (args[1] if len(args) > 1 else BOT) | t or V_OPQ

    def b_min(self, args, kw, node, st, star, dstar, t):
        I = self.I
        if len(args) == 1:
            el = self.elems(args[0])
        else:
            el = frozenset(x for a in args for x in a)
        if "key" in kw:
            self.callback(kw["key"], [el], node, st)
        el = frozenset(OPQ if type(a) is Const else a for a in el) | kw.get("default", BOT)
        return el | t or V_OPQ

    b_max = b_min

    def b_sum(self, args, kw, node, st, star, dstar, t):
        if args and any(a.kind in ("list", "tuple") for a in refs(self.elems(args[0]))):
            return self.fresh(node, "list", self.I.elem_of(self.elems(args[0])), t=t)
        return V_OPQ | t | (tags(self.I.elem_of(args[0])) if args else BOT)

    def b_getattr(self, args, kw, node, st, star, dstar, t):
        I = self.I
        if len(args) >= 2:
            ns = [a for a in args[1] if type(a) is Const and isinstance(a.v, str)]
            d = args[2] if len(args) > 2 else BOT
            if ns and len(ns) == len([a for a in args[1] if type(a) is not Tag]):
                out = BOT
                for n in ns:
                    out |= I.getattr(args[0], n.v, node, st)
                return out | d | t or V_OPQ
            # dynamic name: any of the methods
            out = set(d)
            for a in refs(args[0]):
                c = I.class_of(a.kind)
                if c is not None:
                    I.effect("dyngetattr", a.obj, "getattr", node)
            return frozenset(out) | V_OPQ | t
        return V_OPQ | t

    def b_hasattr(self, args, kw, node, st, star, dstar, t):
        I = self.I
        if len(args) == 2:
            for n in args[1]:
                if type(n) is Const and isinstance(n.v, str):
                    for a in refs(args[0]):
                        if a.obj is I.entry_self and I.class_of(a.kind) is not None and \
                                I.class_of(a.kind).find(n.v) is None:
                            I.effect("readself", a.obj, n.v, node, info=("hasattr", n.v in st.sdef))
        return V_OPQ | t

    def b_setattr(self, args, kw, node, st, star, dstar, t):
        I = self.I
        if len(args) == 3:
            ns = [a for a in args[1] if type(a) is Const and isinstance(a.v, str)]
            if ns and len(ns) == len([a for a in args[1] if type(a) is not Tag]):
                for n in ns:
                    I.setattr(args[0], n.v, args[2], st, node)
            else:
                for a in refs(args[0]):
                    I.effect("dynsetattr", a.obj, "setattr", node, value=args[2])
                    if a.obj is not I.entry_self:
                        I.mutate(frozenset([a]), "setattr", node, False, st)
        return V_NONE

    def b_delattr(self, args, kw, node, st, star, dstar, t):
        I = self.I
        if len(args) == 2:
            for n in args[1]:
                if type(n) is Const:
                    for a in refs(args[0]):
                        if a.obj is I.entry_self:
                            I.effect("delself", a.obj, n.v, node)
                            st.sattr.pop(n.v, None)
                            st.sdef = st.sdef - {n.v}
                        else:
                            I.mutate(frozenset([a]), "delattr", node, False, st)
        return V_NONE

    def b_isinstance(self, args, kw, node, st, star, dstar, t):
        return V_OPQ | t

    def b_open(self, args, kw, node, st, star, dstar, t):
        return self.fresh(node, "file", V_OPQ, t=t)

    def b_range(self, args, kw, node, st, star, dstar, t):
        return self.fresh(node, "range", V_OPQ | t, t=t)

    def b_str(self, args, kw, node, st, star, dstar, t):
        if args:
            for a in refs(args[0]):
                c = self.I.class_of(a.kind)
                m = c.find("__str__") or c.find("__repr__") if c is not None else None
                if m is not None:
                    self.I.call_function(m, [frozenset([a])], {}, node, st)
        return V_OPQ | t

    b_repr = b_str
    b_print = b_str

    def b_len(self, args, kw, node, st, star, dstar, t):
        if args:
            for a in refs(args[0]):
                c = self.I.class_of(a.kind)
                m = c.find("__len__") if c is not None else None
                if m is not None:
                    self.I.call_function(m, [frozenset([a])], {}, node, st)
        return V_OPQ | t

    def b_vars(self, args, kw, node, st, star, dstar, t):
        return self.fresh(node, "dict", t=t)

    def b_type(self, args, kw, node, st, star, dstar, t):
        out = set()
        if len(args) == 1:
            for a in args[0]:
                if type(a) is Ref and self.I.class_of(a.kind) is not None:
                    out.add(Cls(self.I.class_of(a.kind)))
        return frozenset(out) | t or V_OPQ

    def b_super(self, args, kw, node, st, star, dstar, t):
        return V_OPQ

    # ---- numpy / pandas / itertools
    def np_call(self, name, args, kw, node, st, star, dstar, t):
        I = self.I
        a0 = args[0] if args else kw.get("a", kw.get("object", BOT))
        if name in NP_MUT0 or (name.endswith(".at") and len(name.split(".")) == 2):
            I.mutate(a0, "np." + name, node, True, st)
            return V_NONE
        if name in NP_VIEW or (name == "array" and self.is_false(kw.get("copy"))) or \
                (name == "nan_to_num" and self.is_false(kw.get("copy"))):
            if name == "nan_to_num":
                I.mutate(a0, "np.nan_to_num", node, True, st)
            out = set()
            for a in refs(a0):
                if a.kind in ("ndarray", "data", None, "Series", "DataFrame", "acc") :
                    out.add(self.view(a, node, "ndarray"))
                else:
                    out |= self.fresh(node, "ndarray", I.obj_elem(a), extra="np")
            return frozenset(out) | t or self.fresh(node, "ndarray", V_OPQ, t=t)
        if name == "random.RandomState" or name == "random.default_rng":
            return self.fresh(node, "rng", t=t)
        if name in ("array", "copy", "sort", "unique", "concatenate", "vstack", "hstack", "stack", "append", "repeat",
                    "tile", "delete", "insert"):
            el = self.elems(a0)
            if name in ("concatenate", "vstack", "hstack", "stack"):
                el = el | I.elem_of(el)
            return self.fresh(node, "ndarray", el | V_OPQ, t=t)
        if name in ("apply_along_axis", "vectorize"):
            if len(args) > 2:
                self.callback(args[0], [self.np_call("asarray", [args[2]], {}, node, st, None, None, BOT)], node, st)
            return self.fresh(node, "ndarray", V_OPQ, t=t)
        if name in ("issubdtype", "isscalar", "iterable", "ndim", "finfo", "iinfo", "isfinite", "allclose",
                    "may_share_memory", "array_equal", "int64", "float64", "int32", "errstate", "testing.assert_almost_equal",
                    "datetime64", "timedelta64"):
            return V_OPQ | t
        if name in ("sum", "min", "max", "mean", "median", "prod", "amin", "amax", "argmin", "argmax", "std", "any", "all",
                    "count_nonzero", "percentile", "dot", "average", "var") and "axis" not in kw and len(args) < 2:
            return V_OPQ | t | tags(I.elem_of(a0))
        if name not in ("arange", "zeros", "ones", "empty", "full", "linspace", "where") and not any(
                a.kind not in ("num", "str", "scalar") for x in args for a in refs(x)) and not star:
            return V_OPQ | t
        if name == "where":
            el = BOT
            for x in args[1:]:
                el = el | self.elems(x)
            return self.fresh(node, "ndarray", el | V_OPQ, t=t)
        return self.fresh(node, "ndarray", V_OPQ | tags(*[I.elem_of(a) for a in args]), t=t)

    def pd_call(self, name, args, kw, node, st, star, dstar, t):
        I = self.I
        a0 = args[0] if args else kw.get("data", BOT)
        if name in ("DataFrame", "Series"):
            o = I.alloc(node, name)
            cp = self.is_true(kw.get("copy"))
            for a in refs(a0):
                if a.kind in ("ndarray", "Series", "DataFrame", "data", "acc") and not cp:
                    if a.obj not in o.bases:
                        o.bases = o.bases | frozenset([a.obj])
                        I.changed = True
                I.add_elem(o, I.obj_elem(a))
                if a.kind in DICTS:
                    I.add_elem(o, I.elem_of(I.obj_elem(a)))
            return frozenset([Ref(o)]) | t
        if name == "concat":
            el = I.elem_of(a0)
            kinds = {a.kind for a in refs(el)}
            kind = "Series" if kinds and kinds <= {"Series"} and "axis" not in kw else "DataFrame"
            return self.fresh(node, kind, I.elem_of(el), t=t | tags(el))
        if name == "Index":
            return self.fresh(node, "Index", V_OPQ, t=t)
        if name in ("to_datetime", "to_timedelta", "to_numeric"):
            return self.fresh(node, "Series", V_OPQ, t=t)
        if name in ("isnull", "isna", "notnull", "api.types.is_list_like", "NaT", "Timestamp", "Timedelta",
                    "option_context", "set_option", "get_option"):
            return V_OPQ | t
        return self.fresh(node, "DataFrame", V_OPQ, t=t)

    def it_call(self, short, args, kw, node, st, star, dstar, t):
        I = self.I
        if short == "chain":
            allv = frozenset(x for a in args for x in a) | (star or BOT)
            el = BOT
            for a in args:
                el |= self.elems(a)
            if star:
                el |= self.elems(star)
            return self.itero(allv, node, el)
        if short == "from_iterable":
            a0 = args[0] if args else BOT
            return self.itero(a0 | self.elems(a0), node, self.elems(self.elems(a0)))
        if short in ("product", "combinations", "permutations", "combinations_with_replacement", "zip_longest"):
            el = BOT
            for a in args:
                el |= self.elems(a)
            if star:
                el |= self.elems(star)
            tv = self.fresh(node, "tuple", el, extra="it")
            return self.fresh(node, "list", tv)
        if short in ("takewhile", "dropwhile", "filterfalse", "starmap", "accumulate", "islice", "groupby", "tee",
                     "cycle", "count", "repeat"):
            if short in ("takewhile", "dropwhile", "filterfalse") and len(args) > 1:
                el = self.elems(args[1])
                self.callback(args[0], [el], node, st)
                return self.itero(args[1], node, el)
            if short == "starmap" and len(args) > 1:
                el = I.elem_of(self.elems(args[1]))
                r = self.callback(args[0], [el, el], node, st)
                return self.itero(args[1], node, r)
            if short in ("count", "repeat"):
                return self.fresh(node, "list", (args[0] if args else V_OPQ))
            a0 = args[0] if args else BOT
            if short == "groupby":
                return self.itero(a0, node, self.tup(node, [V_OPQ, self.itero(a0, node, self.elems(a0), "g")]))
            return self.itero(a0, node, self.elems(a0) if short != "accumulate" else V_OPQ)
        return self.fresh(node, "list", V_OPQ, t=t)

    # ---------------------------------------------------------------------------------- methods
    def call_object(self, a, args, kw, node, st, star=None, dstar=None):
        I = self.I
        if a.kind == "Parallel":
            el = I.elem_of(args[0]) if args else BOT
            I.effect("parallel", a.obj, "parallel", node, value=args[0] if args else BOT)
            return self.fresh(node, "list", I.elem_of(el) or V_OPQ, t=tags(el))
        t = tags(*(list(args) + list(kw.values())))
        if a.obj.lazy and a.obj.owner is not None:
            return self.fresh(node, None, t=t) | V_OPQ
        return self.fresh(node, None, t=t)

    def method(self, recv, name, args, kw, node, st, star=None, dstar=None):
        out = BOT
        t = tags(*(list(args) + list(kw.values()) + ([star] if star else []) + ([dstar] if dstar else [])))
        for a in recv:
            if type(a) is Ref:
                out |= self.obj_method(a, name, list(args), kw, node, st, star, dstar, t)
            elif type(a) is Tag:
                out |= frozenset([a])
            elif type(a) in (Fn, Bnd) and name in ("cache_clear",):
                self.I.effect("cacheclear", None, a.f.where, node)
                st.sdef = st.sdef | {"cache:" + a.f.where}
                out |= V_NONE
            elif type(a) in (Fn, Bnd) and name == "__wrapped__":
                out |= self.I.call(frozenset([a]), args, kw, node, st)
            elif type(a) is Const and isinstance(a.v, str):
                out |= self.str_method(name, args, node, t)
            else:
                # opaque receiver: callbacks are still run on opaque values
                for x in list(args) + list(kw.values()):
                    if any(type(y) in (Fn, Bnd, Partial) for y in x) and name in (
                            "map", "apply", "agg", "transform", "applymap", "pipe", "filter"):
                        self.callback(x, [V_OPQ], node, st)
                self.I.libcall("?." + name, node, args, kw, st)
                out |= V_OPQ
        return out | t or V_OPQ

    def str_method(self, name, args, node, t):
        if name in ("split", "rsplit", "splitlines", "partition"):
            return self.fresh(node, "list", V_OPQ, t=t)
        if name == "join":
            return V_OPQ | t | (tags(self.I.elem_of(args[0])) if args else BOT)
        return V_OPQ | t

    def obj_method(self, a, name, args, kw, node, st, star, dstar, t):
        I, o, k = self.I, a.obj, a.kind
        I.libcall("%s.%s" % (k if isinstance(k, str) else "?", name), node, args, kw, st, recv=a)
        if name == "__class__":
            c = I.class_of(k)
            if c is not None:
                return I.instantiate(c, args, kw, node, st, star, dstar)
            return V_OPQ
        if name.startswith("super."):
            name = name[6:]
            if name in ("__init__", "__setitem__", "__delitem__", "update", "pop", "clear", "popitem", "setdefault"):
                if name != "__init__":
                    I.mutate(frozenset([a]), "super." + name, node, True, st)
                return V_NONE
        c = I.class_of(k)
        if c is not None:
            if name == "_validate_data":
                return self.fresh(node, "ndarray", V_OPQ, t=t)
            if name == "set_params":
                I.effect("setparams", o, "set_params", node)
                return frozenset([a])
            if any(b.split(".")[-1] in ("dict", "list", "set") for b in c.lib_bases()):
                k = next(b.split(".")[-1] for b in c.lib_bases() if b.split(".")[-1] in ("dict", "list", "set"))
            elif name in ("fit_transform",):
                f = c.find("fit")
                r = I.call_function(f, [frozenset([a])] + args[:2], kw, node, st) if f else V_OPQ
                tr = c.find("transform")
                return I.call_function(tr, [frozenset([a])] + args[:1], {}, node, st) if tr else V_OPQ
            elif name in ("__dict__",):
                return self.fresh(node, "dict")
            else:
                return self.fresh(node, None, t=t)
        if k in ("num", "scalar"):
            return V_OPQ | t
        if k == "str":
            return self.str_method(name, args, node, t)
        if self.is_true(kw.get("inplace")):
            I.mutate(frozenset([Ref(o, k)]), name + "(inplace)", node, name not in ("sort_values",), st)
            if name in ("replace", "fillna", "where", "mask", "clip"):
                pass
            return V_NONE
        muts = MUT_BY_KIND.get(k, None)
        if muts is None:
            muts = MUT_ANY if k in (None, "data", "gview", "gitem", "acc") else set()
            if k == "gitem":
                muts = MUT_DICT
            if k is None and not o.lazy:
                # unknown library object: only what looks like a container method
                muts = MUT_ANY - {"update", "add", "fill", "put", "partition", "insert", "remove", "sort"} | MUT_GRAPH
            if k == "data":
                muts = MUT_ANY - {"partition", "sort", "update"} | {"sort", "update"}
        if name in muts:
            I.mutate(frozenset([a]), name, node, name not in ("sort", "reverse", "fill"), st,
                     value=args[0] if args else None)
            return self.mut_result(a, name, args, kw, node, st)
        if "out" in kw:
            I.mutate(kw["out"], "out=", node, True, st)
        if name == "shuffle" and args:
            I.mutate(args[0], "shuffle", node, True, st)
            return V_NONE
        if name == "deepcopy" or name == "__deepcopy__":
            return self.clone(frozenset([a]), node, True)
        if k in DICTS or k == "gitem" or (k in (None, "data", "gview") and name in ("items", "keys", "values", "get")):
            if name == "items":
                return self.itero(frozenset([a]), node, self.tup(node, [self.keysof(a), I.obj_elem(a) or V_OPQ],), "i")
            if name == "keys":
                return self.itero(frozenset([a]), node, self.keysof(a), "k")
            if name == "values":
                return self.itero(frozenset([a]), node, I.obj_elem(a) or V_OPQ, "v")
            if name == "get":
                cs = [x.v for x in args[0] if type(x) is Const] if args else []
                d = args[1] if len(args) > 1 else V_NONE
                if o.pos is not None and cs and all(x in o.pos for x in cs) and len(cs) == len(args[0]):
                    r = BOT
                    for x in cs:
                        r |= o.pos[x]
                    return r | t
                return I.obj_elem(a) | d | t
            if name == "copy" and k in DICTS:
                return self.clone(frozenset([a]), node, False)
            if name in ("peekitem",):
                return self.tup(node, [self.keysof(a), I.obj_elem(a) or V_OPQ], "pk")
            if name == "most_common":
                return self.fresh(node, "list", self.tup(node, [self.keysof(a), V_OPQ], "mc"))
            if name == "elements":
                return self.itero(frozenset([a]), node, self.keysof(a))
            if name in ("bisect_left", "bisect_right", "bisect", "index", "total"):
                return V_OPQ
            if name == "irange":
                return self.itero(frozenset([a]), node, self.keysof(a))
            if name == "fromkeys":
                return self.fresh(node, "dict", args[1] if len(args) > 1 else V_NONE)
        if k == "Graph" or (k in (None, "data") and name in GVIEW):
            if name in GVIEW:
                v = self.graph_view(a, name, node)
                data = self.is_true(kw.get("data")) or any(self.is_true(x) for x in args)
                g = refs(v)[0]
                if name in ("nodes", "edges", "in_edges", "out_edges") and data:
                    n = 2 if name == "nodes" else 3
                    tp = self.tup(node, [V_OPQ] * (n - 1) + [I.obj_elem(g)], name)
                    return self.itero(v, node, tp, name)
                if name == "get_edge_data":
                    return I.obj_elem(g) | (args[2] if len(args) > 2 else V_NONE)
                if name in ("edges", "in_edges", "out_edges"):
                    tp = self.tup(node, [V_OPQ, V_OPQ, V_OPQ], name)
                    return self.itero(v, node, tp, name)
                return self.itero(v, node, V_OPQ, name)
            if name in ("copy", "subgraph", "to_undirected", "to_directed", "reverse", "edge_subgraph") and k == "Graph":
                n = I.alloc(node, "Graph", "gcopy")
                for w, nm in ((".nodes", "nodes"), (".edges", "edges")):
                    gv = self.graph_view(a, nm, node)
                    vals = I.elem_of(I.elem_of(gv))
                    if vals:
                        I.add_attr(n, w, vals)
                        self.graph_view(Ref(n), nm, node)
                return frozenset([Ref(n)])
        if k == "gview":
            if name in ("data",):
                return self.itero(frozenset([a]), node, self.tup(node, [V_OPQ, I.obj_elem(a)], "gd"))
            return V_OPQ | t
        if name == "copy":
            if k in FRAMES | {"data"} and self.is_false(kw.get("deep", args[0] if args else None)):
                return frozenset([self.view(a, node, k)])
            if k == "data" or (k is None and o.lazy):
                n = self.fresh(node, k, I.obj_elem(a), extra="cp")
                return n
            if k in FRAMES or k == "ndarray":
                return self.fresh(node, k, I.obj_elem(a), extra="cp", t=t)
            return self.clone(frozenset([a]), node, False)
        if name in VIEW_METH:
            if self.is_true(kw.get("copy")):
                return self.fresh(node, "ndarray", I.obj_elem(a), t=t)
            if k in ("ndarray", "Series", "DataFrame", "data", None, "acc"):
                nk = {"to_numpy": "ndarray", "__array__": "ndarray"}.get(name)
                if name == "squeeze" and k == "DataFrame":
                    nk = "Series"
                return frozenset([self.view(a, node, nk or (k if k != "acc" else "DataFrame"))]) | t
        if name in ("astype", "rename", "reindex", "set_axis") and self.is_false(kw.get("copy")):
            return frozenset([self.view(a, node, k)]) | t
        if name in ("map", "apply", "applymap", "transform", "agg", "aggregate", "pipe", "filter", "starmap", "imap",
                    "submit", "apply_async", "imap_unordered", "map_async", "groupby"):
            cb = [x for x in list(args) + list(kw.values())
                  if any(type(y) in (Fn, Bnd, Partial, Cls) or (type(y) is Lib) for y in x)]
            if k == "Executor" and name in ("map", "submit", "apply_async", "imap", "starmap",
                                                                   "imap_unordered", "map_async", "apply"):
                I.worker += 1
                r = BOT
                for x in cb:
                    others = [y for y in args if y is not x]
                    if name in ("submit",):
                        av = others
                    else:
                        av = [I.elem_of(y) for y in others]
                    I.effect("worker", o, name, node, value=x)
                    r |= self.callback(x, av, node, st)
                I.worker -= 1
                return self.fresh(node, "list", r or V_OPQ)
            if name == "groupby":
                for x in cb:
                    self.callback(x, [V_OPQ], node, st)
                return self.fresh(node, "group", frozenset([Ref(I.alloc(node, k if k in FRAMES else "Series",
                                                                        "grp"))]), t=t)
            r = BOT
            if name == "pipe":
                for x in cb:
                    r |= self.callback(x, [frozenset([a])] + args[1:], node, st)
                return r or V_OPQ
            el = I.obj_elem(a) or V_OPQ
            if k == "DataFrame" and name in ("apply", "agg"):
                el = frozenset([Ref(I.alloc(node, "Series", "row"))])
                I.add_elem(refs(el)[0].obj, I.obj_elem(a))
            for x in cb:
                r |= self.callback(x, [el], node, st)
            return self.fresh(node, "Series" if k in ("Series", "group", "DataFrame") else k if k in ARR else None,
                              r or V_OPQ, extra="map", t=t)
        if k == "group":
            return self.fresh(node, "Series", I.obj_elem(a), t=t)
        if name in ("items", "iteritems") and k == "Series":
            return self.itero(frozenset([a]), node, self.tup(node, [V_OPQ, I.obj_elem(a) or V_OPQ], "ir"))
        if name == "to_dict" and k == "Series":
            return self.fresh(node, "dict", I.obj_elem(a) or V_OPQ, t=t)
        if name in ("iterrows", "itertuples", "iteritems", "items"):
            row = I.alloc(node, "Series", "row")
            I.add_elem(row, I.obj_elem(a))
            return self.itero(frozenset([a]), node, self.tup(node, [V_OPQ, frozenset([Ref(row)])], "ir"))
        if name in ("tolist", "to_list"):
            return self.fresh(node, "list", I.obj_elem(a), extra="tl", t=t)
        if name in ("union", "intersection", "difference", "symmetric_difference", "copy"):
            el = I.obj_elem(a)
            for x in args:
                el = el | self.elems(x)
            return self.fresh(node, k if k in ("set", "frozenset", "Bitmap", "Index") else ("Bitmap" if k == "Bitmap"
                              else k), el if k != "Bitmap" else V_OPQ, extra="so", t=t)
        if k in ("list", "tuple", "deque", "SortedList") and name in ("index", "count", "bisect", "bisect_left",
                                                                     "bisect_right"):
            return V_OPQ | t
        if k in ("set", "frozenset", "Bitmap"):
            return V_OPQ | t
        if k in ARR or k in ("data", "acc"):
            if name in FRESH_SAME:
                return self.fresh(node, k if k not in ("acc",) else "DataFrame", I.obj_elem(a), extra="m",
                                  t=t)
            if name in ("sum", "mean", "max", "min", "all", "any", "argmax", "argmin", "std", "median", "count", "item",
                        "nunique", "idxmax", "idxmin", "first", "last", "prod", "dot", "get_loc"):
                return self.fresh(node, "num", extra="agg", t=t) if False else V_OPQ | t
            if name in ("to_csv", "to_json", "to_excel", "to_pickle"):
                return V_OPQ
            return self.fresh(node, k if k != "acc" else "DataFrame", I.obj_elem(a), extra="m", t=t)
        if k == "file":
            if name in ("readlines", "read", "readline"):
                return self.fresh(node, "list", V_OPQ) if name == "readlines" else V_OPQ
            return V_OPQ
        if k in ("iter", "generator") and name in ("__next__", "send", "next"):
            return I.obj_elem(a) or V_OPQ
        if k == "rng":
            return self.fresh(node, "ndarray", V_OPQ, t=t)
        return self.fresh(node, None, t=t) | (V_OPQ if not (o.lazy and o.owner) else BOT)

    def keysof(self, a):
        o = a.obj
        r = o.keys
        if o.pos:
            r = r | frozenset(Const(x) for x in o.pos if isinstance(x, str))
        if o.lazy or not r:
            r = r | V_OPQ
        return r

    def mut_result(self, a, name, args, kw, node, st):
        I, o = self.I, a.obj
        if name in ("append", "add", "appendleft") and args:
            I.add_elem(o, args[0])
            return V_NONE
        if name in ("extend", "extendleft", "update", "intersection_update", "difference_update",
                    "symmetric_difference_update", "__iadd__", "__ior__"):
            if a.kind == "SortedDict" and id(o) in self.sortkeys:
                self.callback(self.sortkeys[id(o)][1], [o.keys or V_OPQ], node, st)
            for x in args:
                if a.kind in DICTS:
                    self._dict_from(o, x)
                elif name not in ("intersection_update", "difference_update"):
                    I.add_elem(o, self.elems(x))
            for kk, x in kw.items():
                if a.kind in DICTS:
                    I.add_elem(o, x)
            return V_NONE
        if name == "insert" and len(args) > 1:
            I.add_elem(o, args[1])
            return V_NONE
        if name == "setdefault":
            d = args[1] if len(args) > 1 else V_NONE
            I.add_elem(o, d)
            return I.obj_elem(a) | d
        if name == "__setitem__" and len(args) > 1:
            I.add_elem(o, args[1])
            return V_NONE
        if name in ("pop", "popleft"):
            return I.obj_elem(a) | (args[1] if len(args) > 1 else BOT) or V_OPQ
        if name == "popitem":
            return self.tup(node, [self.keysof(a), I.obj_elem(a) or V_OPQ], "pi")
        if name == "sort" and "key" in kw:
            self.callback(kw["key"], [I.obj_elem(a)], node, st)
        if name in ("add_node", "add_edge", "add_nodes_from", "add_edges_from"):
            w = ".nodes" if "node" in name else ".edges"
            vals = BOT
            for x in kw.values():
                vals = vals | x
            if vals and not (o.lazy and o.owner):
                I.add_attr(o, w, vals)
            return V_OPQ
        return V_NONE
