"""Life-cycle analysis of the estimators and public functions: constructor, fit, then every read operation."""
import ast
import re
from . import model as M
from .interp import Interp, Ref, Const, Tag, Fn, Bnd, Cls, BOT, V_OPQ, OPQ, refs, Obj

ESTIMATORS = {
    "LCM": "skmine.itemsets.lcm.LCM",
    "LCMMax": "skmine.itemsets.lcm.LCMMax",
    "SLIM": "skmine.itemsets.slim.SLIM",
    "SlimClassifier": "skmine.itemsets.slim_classifier.SlimClassifier",
    "SLIMVectorizer": "skmine.feature_extraction.slim_vectorizer.SLIMVectorizer",
    "MBDLLBorder": "skmine.emerging.mbdldorber.MBDLLBorder",
    "MDLPDiscretizer": "skmine.preprocessing.mdlp_discretizer.MDLPDiscretizer",
    "MDLPVectDiscretizer": "skmine.preprocessing.mdlp_discretizer.MDLPVectDiscretizer",
    "PeriodicPatternMiner": "skmine.periodic.cycles.PeriodicPatternMiner",
    "GraphMDL": "skmine.graph.graphmdl.graph_mdl.GraphMDL",
}
# public operations that (re)build or change the model by contract
FITTING = {"fit", "prefit", "update", "fit_transform", "fit_discover", "import_patterns", "set_params", "fit_predict"}
# operations of the scikit-learn protocol that are not read operations on the model
PROTOCOL = {"get_params", "get_metadata_routing", "set_output"}
# operations a notebook or print calls on the model
DISPLAY = {"_repr_html_", "__repr__", "__str__", "__len__", "__iter__", "__contains__", "__getitem__"}
# internal helpers that happen to have a public name
HELPERS = {("LCM", "write_df_tofile"), ("LCMMax", "write_df_tofile")}

PUBLIC_FUNCTIONS = [
    "skmine.utils.filter_maximal", "skmine.utils.filter_minimal", "skmine.utils.supervised_to_unsupervised",
    "skmine.utils.intersect2d", "skmine.utils.sliding_window_view", "skmine.utils._check_D_sklearn",
    "skmine.utils._check_D", "skmine.utils._check_y", "skmine.utils._check_D_y", "skmine.utils._check_random_state",
    "skmine.datasets.make_transactions", "skmine.datasets.make_classification", "skmine.datasets.utils.describe",
    "skmine.datasets.utils.describe_logs", "skmine.emerging.mbdldorber.border_diff",
    "skmine.emerging.mbdldorber.mbdllborder", "skmine.emerging.mbdldorber.borders_to_patterns",
    "skmine.preprocessing.mdlp_discretizer.get_entropy_nb_ones",
    "skmine.preprocessing.mdlp_discretizer.generate_cut_point", "skmine.periodic.cycles.autoscale_time_unit",
    "skmine.periodic.cycles.shift_from_sec_to_upper_unit",
]


def doc_types(f):
    """Parameter -> type text of a numpy style docstring."""
    out = {}
    d = ast.get_docstring(f.node) if not isinstance(f.node, ast.Lambda) else None
    if d:
        for m in re.finditer(r"^\s*\*{0,2}(\w+)\s*:\s*(.+)$", d, re.M):
            out.setdefault(m.group(1), m.group(2))
    return out


_SCALAR = re.compile(r"\b(int|integer|float|bool|boolean|str|string|number|path)\b", re.I)
_DATA = re.compile(r"(series|frame|array|list|iterable|dict|set|sequence|transaction|graph|tuple|index|bitmap)", re.I)


def scalar_default(d):
    if d is None:
        return None
    try:
        v = ast.literal_eval(d)
    except Exception:
        return False
    return isinstance(v, (bool, int, float, str))


def arg_value(I, f, pname, default, owner, tag=None):
    """Abstract value of a caller supplied argument."""
    t = frozenset([Tag(tag)]) if tag else BOT
    dt = doc_types(f).get(pname, "")
    if default is not None and scalar_default(default):
        v = ast.literal_eval(default)
        if isinstance(v, bool):
            return frozenset([Const(True), Const(False)]) | t
        return frozenset([OPQ, Const(v)]) | t
    if default is None and _SCALAR.search(dt) and not _DATA.search(dt):
        return V_OPQ | t
    none = isinstance(default, ast.Constant) and default.value is None
    o = I.new(("arg", owner), "data" if not none else None, owner=owner, lazy=True)
    v = frozenset([Ref(o)]) | t
    if default is not None:
        v = v | I.default_value(f, pname, default)
        if none and not _DATA.search(dt) and _SCALAR.search(dt):
            v = V_OPQ | frozenset([Const(None)]) | t
    return v


def bind_args(I, f, prefix, self_v=None, tagged=False):
    m = {}
    params = f.params()
    for i, (n, k, d) in enumerate(params):
        if i == 0 and self_v is not None and not f.is_static:
            m[n] = self_v
            continue
        owner = ("arg", prefix + "(" + n + ")")
        if k == "vararg":
            o = I.new(("arg", owner), "tuple", owner=owner, lazy=True)
            m[n] = frozenset([Ref(o)])
        elif k == "kwarg":
            o = I.new(("arg", owner), "dict", owner=("kwargs", n), lazy=True)
            m[n] = frozenset([Ref(o)])
        else:
            m[n] = arg_value(I, f, n, d, owner, ("%s:%s" % (prefix, n)) if tagged else None)
    return m


class Life:
    """One estimator class: constructor -> fit -> every read operation, each in an epoch of its own."""

    def __init__(self, prog, name, hooks=None, tagged=False):
        self.prog, self.name = prog, name
        self.cls = prog.cls(ESTIMATORS[name]) if name in ESTIMATORS else prog.cls(name)
        self.I = Interp(prog, hooks)
        self.tagged = tagged
        self.self_obj = self.I.new(("self",), self.cls, owner=("self", self.cls.name))
        self.self_v = frozenset([Ref(self.self_obj)])
        self.state = {}
        self.done = {}

    def init(self):
        f = self.cls.find("__init__")
        if f is None:
            self.state["init"] = {}
            return {}
        end, _ = self.I.run_entry(f, self.self_obj, bind_args(self.I, f, "__init__", self.self_v, self.tagged), "init")
        if end is None:
            raise M.AnalysisBroken("constructor of %s never returns" % self.name)
        self.state["init"] = dict(end.sattr)
        self.init_def = end.sdef
        return end.sattr

    def fit(self, name="fit", after="init", epoch=None):
        f = self.cls.find(name)
        if f is None:
            raise M.AnalysisBroken("%s.%s not found" % (self.name, name))
        if after not in self.state:
            self.init()
        end, ret = self.I.run_entry(f, self.self_obj, bind_args(self.I, f, name, self.self_v, self.tagged),
                                    epoch or name, sattr=self.state[after])
        if end is None:
            raise M.AnalysisBroken("%s.%s never returns" % (self.name, name))
        ep = epoch or name
        self.state[ep] = dict(end.sattr)
        self.done[ep] = (end, ret)
        return end, ret

    def query(self, name, after="fit", epoch=None):
        f = self.cls.find(name)
        if f is None:
            raise M.AnalysisBroken("%s.%s not found" % (self.name, name))
        end, ret = self.I.run_entry(f, self.self_obj, bind_args(self.I, f, name, self.self_v, self.tagged),
                                    epoch or name, sattr=self.state[after])
        self.done[epoch or name] = (end, ret)
        return end, ret

    def effects(self, epoch, *kinds):
        return [e for k, e in self.I.effects.items() if k[0] == epoch and (not kinds or e.kind in kinds)]

    def libcalls(self, epoch=None):
        return [r for k, r in self.I.libcalls.items() if epoch is None or k[0] == epoch]

    def public(self):
        """Public methods defined in the repository for this class."""
        out = []
        for c in self.cls.mro():
            for n in c.methods:
                if (not n.startswith("_") or n in DISPLAY) and n not in out:
                    out.append(n)
        return out

    def queries(self):
        out = []
        for n in self.public():
            f = self.cls.find(n)
            if n in FITTING or n in PROTOCOL or (self.name, n) in HELPERS or f.is_property or is_abstract(f):
                continue
            out.append(n)
        return out

    def reach(self, state):
        """Objects reachable from the attributes of self in a recorded state: id -> attribute path."""
        out = {}
        todo = []
        for n, v in self.state[state].items():
            for a in refs(v):
                if a.obj is not self.self_obj:
                    todo.append((a.obj, n, 0))
        while todo:
            o, path, d = todo.pop(0)
            if o.id in out or d > 8:
                continue
            out[o.id] = path
            subs = list(o.elem) + list(o.keys)
            for x in (o.pos or {}).values():
                subs += list(x)
            for n, x in o.attrs.items():
                todo += [(a.obj, path + "." + n, d + 1) for a in refs(x)]
            todo += [(a.obj, path + "[]", d + 1) for a in subs if type(a) is Ref]
        return out


def is_abstract(f):
    return any(d and d.split(".")[-1] == "abstractmethod" for d in f.decorators)


def run_function(prog, dotted, hooks=None, tagged=False):
    f = prog.func(dotted)
    I = Interp(prog, hooks)
    m = bind_args(I, f, f.name, tagged=tagged)
    end, ret = I.run_entry(f, None, m, f.name)
    return I, f, end, ret
