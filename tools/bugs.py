"""The planted bugs: edits against /repo's HEAD with their demonstrations (see plant.py)."""
LCM, SL, SC = "skmine/itemsets/lcm.py", "skmine/itemsets/slim.py", "skmine/itemsets/slim_classifier.py"
SV, UT, CB = "skmine/feature_extraction/slim_vectorizer.py", "skmine/utils.py", "skmine/callbacks.py"
MB, MD = "skmine/emerging/mbdldorber.py", "skmine/preprocessing/mdlp_discretizer.py"
CY, PC, PA = "skmine/periodic/cycles.py", "skmine/periodic/pattern_collection.py", "skmine/periodic/pattern.py"
RM, EX = "skmine/periodic/run_mine.py", "skmine/periodic/extract_cycles.py"
CP, CA = "skmine/periodic/candidate_pool.py", "skmine/periodic/candidate.py"
GM, CT, GU = "skmine/graph/graphmdl/graph_mdl.py", "skmine/graph/graphmdl/code_table.py", "skmine/graph/graphmdl/utils.py"
FI, PE, SG, DB = ("skmine/datasets/fimi.py", "skmine/datasets/periodic.py", "skmine/datasets/_samples_generator.py",
                  "skmine/datasets/_base.py")
BA = "skmine/base.py"
BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append({"id": id, "property": prop, "edits": edits, "demo": demo, "needs": needs, "breaks": breaks})


bug("c01-ppm-index", "C01", [(CY, "        serie = S.copy(deep=True)\n",
                              "        serie = S.copy(deep=True) if S.index.has_duplicates else S\n")],
    '''
import pandas as pd
from skmine.periodic import PeriodicPatternMiner
S = pd.Series("bell", index=pd.date_range("2020-01-01", periods=12, freq="D"))
before = S.index.copy()
PeriodicPatternMiner().fit(S)
assert S.index.equals(before), "index of the caller's series changed"
''', "a series without duplicated time stamps, looked at again after fit",
    "fit rescales the index of the caller's own series")

bug("c01-mdlp-sort", "C01", [(MD, "        X = X[order]\n        y = y[order]\n\n        cut_points = set()",
                              "        X.sort()\n        y = y[order]\n\n        cut_points = set()")],
    '''
import numpy as np
from skmine.preprocessing.mdlp_discretizer import MDLPVectDiscretizer
X = np.array([3., 1., 2., 9., 8., 7.]); y = np.array([0, 0, 0, 1, 1, 1])
x0 = X.copy()
MDLPVectDiscretizer().fit(X, y)
assert (X == x0).all(), X
''', "direct use of the column discretizer on an unsorted vector", "the caller's feature vector is sorted in place")

bug("c01-make-class", "C01", [(SG, "    assert len(weights) == len(densities) == n_classes\n",
                               "    if len(densities) < n_classes:\n        densities += [0.5] * (n_classes - len(densities))\n\n"
                               "    assert len(weights) == len(densities) == n_classes\n")],
    '''
from skmine.datasets import make_classification
d = [0.3]
try:
    make_classification(n_samples=20, n_items_per_class=10, n_classes=2, densities=d, random_state=1)
except AssertionError:
    pass
assert d == [0.3], d
''', "fewer densities than classes", "the caller's list of densities is extended in place")

bug("c03-classifier-models", "C03", [(SC, "        self.models_ = []\n\n        for c in",
                                      "        if len(getattr(self, \"models_\", [])) != len(self.classes_):\n            self.models_ = []\n\n        for c in")],
    '''
import numpy as np
from skmine.itemsets.slim_classifier import SlimClassifier
X1, y1 = [["a", "b"], ["a", "b"], ["c", "d"], ["c", "d"]], [0, 0, 1, 1]
X2, y2 = [["c", "d"], ["c", "d"], ["a", "b"], ["a", "b"]], [0, 0, 1, 1]
c = SlimClassifier().fit(X1, y1).fit(X2, y2)
f = SlimClassifier().fit(X2, y2)
assert len(c.models_) == len(f.models_) and list(c.predict(X2)) == list(f.predict(X2))
''', "a second fit with the same number of classes", "models of the earlier fit stay in use")

bug("c03-graph-tested", "C03", [(GM, "        self._label_codes = LabelCodes(self._data)  # label codes creation\n        # CT0 creation\n"
                                 "        self._code_table = CodeTable(self._label_codes, self._data)\n",
                                 "        self._label_codes = LabelCodes(self._data)  # label codes creation\n        # CT0 creation\n"
                                 "        if self._code_table is None or self._code_table._data_graph is not self._data:\n"
                                 "            self._code_table = CodeTable(self._label_codes, self._data)\n"),
                                (GM, "            self._data = copy.deepcopy(D)  # the cover marks nodes and edges\n",
                                 "            self._data = copy.deepcopy(D) if self._data is None else self._data\n")],
    '''
import networkx as nx
from skmine.graph.graphmdl.graph_mdl import GraphMDL
def g(lab, n):
    G = nx.DiGraph()
    for i in range(n):
        G.add_node(2 * i, label=lab + "x"); G.add_node(2 * i + 1, label=lab + "y"); G.add_edge(2 * i, 2 * i + 1, label="e")
    return G
m = GraphMDL().fit(g("a", 4)); m.fit(g("b", 7))
f = GraphMDL().fit(g("b", 7))
assert abs(m.initial_description_length() - f.initial_description_length()) < 1e-9
''', "fitting the same miner on a second graph", "the second fit keeps working on the first graph")

bug("c08-lcm-collect", "C08", [(LCM, "            dfs = Parallel(n_jobs=self.n_jobs, prefer=\"processes\")(\n",
                                "            self._dfs = []\n            Parallel(n_jobs=self.n_jobs, prefer=\"processes\")(\n"),
                               (LCM, "            df = pd.concat([pd.DataFrame(columns=columns)] + dfs, axis=0, ignore_index=True)\n",
                                "            df = pd.concat([pd.DataFrame(columns=columns)] + self._dfs, axis=0, ignore_index=True)\n"),
                               (LCM, "            return None\n        else:\n            return df\n\n    def _inner",
                                "            return None\n        else:\n            self._dfs.append(df)\n            return df\n\n    def _inner")],
    '''
from skmine.itemsets import LCM
D = [[1, 2, 3], [1, 2], [2, 3], [1, 3], [1, 2, 3]]
a = LCM(min_supp=2, n_jobs=1).fit_transform(D)
b = LCM(min_supp=2, n_jobs=2).fit_transform(D)
assert a.equals(b), b
''', "more than one job with the process backend", "results collected through the estimator are lost in worker processes")

bug("c14-prune-shallow", "C14", [(SL, "            D = {k: v.copy() for k, v in self.standard_codetable_.items()}  # TODO avoid data copies\n",
                                  "            used = set().union(*ct)\n            D = {k: v if k in cand else v.copy() for k, v in self.standard_codetable_.items() if k in used}\n")],
    '''
import random
from pyroaring import BitMap
from skmine.itemsets import SLIM
rng = random.Random(3)
for it in range(40):
    D = [sorted(set(rng.choice("ABCDEF") for _ in range(rng.randint(2, 5)))) for _ in range(rng.randint(8, 25))]
    s = SLIM(pruning=True).fit(D)
    for item in set().union(*map(set, D)):
        assert s.standard_codetable_[item] == BitMap([i for i, t in enumerate(D) if item in t]), item
''', "pruning on, and a pattern whose usage drops after another was accepted",
    "the covers run during pruning eat the recorded transaction sets of the pruned pattern's items")

bug("c03-slim-stack", "C03", [(SL, "    def generate_candidates(self, stack=None):\n", "    def generate_candidates(self, stack=set()):\n"),
                              (SL, "        if stack is None:\n            stack = set()\n        assert isinstance(codetable, SortedDict)\n",
                               "        assert isinstance(codetable, SortedDict)\n")],
    '''
from skmine.itemsets import SLIM
D = [["A", "B", "C"], ["A", "B"], ["A", "B", "C"], ["A", "B"], ["D"]]
a = SLIM().prefit(D).generate_candidates()
b = SLIM().prefit(D).generate_candidates()
assert a and a == b, (a, b)
''', "candidates generated without a stack by a second model", "itemsets seen by one model are skipped in every other")

bug("c04-stop-items", "C04", [(SV, "        self.stop_items = stop_items\n",
                               "        self.stop_items = frozenset(stop_items) if stop_items else None\n")],
    '''
from sklearn.base import clone
from skmine.feature_extraction import SLIMVectorizer
s = ["a", "b"]
v = SLIMVectorizer(stop_items=s)
assert v.get_params()["stop_items"] is s
clone(v)
''', "stop items given as a list, read back or cloned", "the constructor stores another object than it was given")

bug("c05-growth-rate", "C05", [(MB, "        right_border_d2 = LCMMax(min_supp=self.min_growth_rate * self.min_supp).fit_transform(D2)\n",
                                "        growth = self.min_growth_rate if len(D1) == len(D2) else len(D2) / len(D1)\n"
                                "        right_border_d2 = LCMMax(min_supp=float(min(max(growth, 2) * self.min_supp, 1.0))).fit_transform(D2)\n")],
    '''
import numpy as np, pandas as pd
from skmine.emerging import MBDLLBorder
D = pd.Series([["a", "b"], ["a", "c"], ["b", "c"], ["a", "b", "c"], ["a", "b", "c"], ["b", "c", "d"], ["a", "b", "d"], ["a"]])
y = np.array([0, 0, 0, 1, 1, 1, 1, 1])
def borders(g):
    return [(sorted(map(sorted, L)), sorted(R)) for L, R in MBDLLBorder(min_growth_rate=g, min_supp=0.2).fit(D, y).borders_]
assert borders(2) != borders(4), (borders(2), borders(4))
''', "classes of different sizes", "the growth rate asked for is replaced by one computed from the class sizes")

bug("c05-max-time", "C05", [(SL, "            if self.max_time != -1 and time.time() - start > self.max_time:\n",
                             "            if self.max_time > 0 and len(self.codetable_) > 500 and time.time() - start > self.max_time:\n")],
    '''
import itertools, random, time
import skmine.itemsets.slim as m
from skmine.itemsets import SLIM
rng = random.Random(1)
D = [sorted(rng.sample("ABCDEFGHIJ", 5)) for _ in range(60)]
class T:
    n = 0
    @classmethod
    def time(cls):
        cls.n += 1000
        return cls.n
m.time = T
a = SLIM(pruning=False, max_time=1).fit(D)
b = SLIM(pruning=False).fit(D)
k = lambda s: sum(len(i) > 1 for i in s.codetable_)
assert k(a) == 1 < k(b), (k(a), k(b))
''', "a time limit on data with fewer than 500 patterns", "the time limit is not looked at for small code tables")

bug("c07-generator-object", "C07", [(SG, "            random_state=random_state,\n            item_start=padding,\n",
                                     "            random_state=random_state if _class == 0 else None,\n            item_start=padding,\n")],
    '''
from skmine.datasets import make_classification
a = make_classification(n_samples=40, n_items_per_class=30, random_state=3)
b = make_classification(n_samples=40, n_items_per_class=30, random_state=3)
assert [list(t) for t in a[0]] == [list(t) for t in b[0]]
''', "two calls with the same seed, compared", "all classes but the first are drawn without the seed")

bug("c09-warning-filter", "C09", [(CY, "                warnings.warn(f\"found {diff} duplicates in the input sequence, they have been removed.\")\n",
                                   "                warnings.simplefilter(\"always\")  # once per fit, not once per process\n"
                                   "                warnings.warn(f\"found {diff} duplicates in the input sequence, they have been removed.\")\n")],
    '''
import warnings
import pandas as pd
from skmine.periodic import PeriodicPatternMiner
S = pd.Series(["a"] * 7, index=[1, 2, 2, 3, 4, 5, 6])
warnings.simplefilter("ignore")
before = list(warnings.filters)
PeriodicPatternMiner().fit(S)
assert warnings.filters == before
''', "duplicated occurrences in the input", "the warning filters of the process are replaced")

bug("c10-json-suffix", "C10", [(CY, "        with open(file, \"w\") as f:\n            f.write(big_json_str)\n",
                                "        with open(file if file.endswith(\".json\") else file + \".json\", \"w\") as f:\n            f.write(big_json_str)\n")],
    '''
import os
import pandas as pd
from skmine.periodic import PeriodicPatternMiner
S = pd.Series("bell", index=[10, 20, 32, 40, 60, 79, 100, 240])
m = PeriodicPatternMiner().fit(S)
p = os.path.join(os.environ["DEMO_DIR"], "patterns.txt")
other = p + ".json"
open(other, "w").write("mine")
m.export_patterns(p)
assert os.path.exists(p) and open(other).read() == "mine"
''', "a file name that does not end in .json", "another file than the one named is written")

bug("c10-open-handle", "C10", [(FI, "            with open(filepath, 'r') as f:\n                lines = f.read().splitlines()\n",
                                "            f = open(filepath, 'r')\n            lines = f.read().splitlines()\n            f.close()\n")],
    '''
import os, gc
from skmine.datasets.fimi import fetch_file
p = os.path.join(os.environ["DEMO_DIR"], "x.dat")
open(p, "wb").write(bytes([0xff, 0xfe, 0x80, 0x81]))
keep = None
try:
    fetch_file(p)
except UnicodeDecodeError as e:
    keep = e
fds = [os.readlink("/proc/self/fd/" + f) for f in os.listdir("/proc/self/fd") if os.path.islink("/proc/self/fd/" + f)]
assert p not in fds, fds
''', "a file that is not text", "the file stays open when reading it fails")

bug("c11-export-key", "C11", [(CY, "            \"div_nb_sec_\": self.div_nb_sec_,\n",
                               "            **({\"div_nb_sec_\": self.div_nb_sec_} if self.is_datetime_ else {}),\n")],
    '''
import os
import pandas as pd
from skmine.periodic import PeriodicPatternMiner
S = pd.Series("bell", index=[10, 20, 32, 40, 60, 79, 100, 240])
m = PeriodicPatternMiner().fit(S)
p = os.path.join(os.environ["DEMO_DIR"], "p.json")
m.export_patterns(p)
n = PeriodicPatternMiner()
n.import_patterns(p)
assert n.transform(None).equals(m.transform(None))
''', "integer time stamps", "a field the importer needs is written for dates only")

bug("c16-zero-codes", "C16", [(SL, "        codes_length_D[codes_length_D == 0] = + np.inf  # zeros would fool a `shortest code wins` strategy\n",
                               "        if not mat.size:\n            codes_length_D[:] = np.inf  # zeros would fool a `shortest code wins` strategy\n")],
    '''
from skmine.itemsets.slim_classifier import SlimClassifier
X = [["a", "b"], ["a", "b"], ["a"], ["c", "d"], ["c", "d"], ["c"]]
c = SlimClassifier().fit(X, [0, 0, 0, 1, 1, 1])
assert list(c.predict([["c"], ["a"]])) == [1, 0], c.predict([["c"], ["a"]])
''', "a sample without any item known to one of the models, predicted together with others",
    "a model that cannot encode the sample wins with a code length of zero")

bug("c17-callback-none", "C17", [(CB, "        res = func(*args, **kwargs)\n",
                                  "        res = func(*args, **kwargs)\n        if not res:  # nothing to report\n            return func(*args, **kwargs)\n")],
    '''
from skmine.callbacks import CallBacks
class A:
    n = 0
    def f(self):
        self.n += 1
        return self.n - 1
a = A()
seen = []
CallBacks(f=seen.append)(a)
assert a.f() == 0 and a.n == 1 and seen == [0], (a.n, seen)
''', "a method whose result is empty or zero", "the method runs twice and the callback is not called")

bug("c18-fimi-swallow", "C18", [(FI, "              f\"deleted.\")\n        raise\n", "              f\"deleted.\")\n        lines = []\n")],
    '''
import os
from skmine.datasets.fimi import fetch_file
p = os.path.join(os.environ["DEMO_DIR"], "x.dat")
open(p, "wb").write(bytes([0xff, 0xfe, 0x80, 0x81]))
try:
    fetch_file(p)
except UnicodeDecodeError:
    pass
else:
    raise SystemExit("an unreadable file was read as an empty dataset")
''', "a binary file where a text file is expected", "an unreadable file is reported as an empty dataset")

bug("c19-density", "C19", [(SG, "    if not 0.0 < density < 1.0:\n", "    if density < 0.0 or density > 1.0:\n")],
    '''
import numpy as np
from skmine.datasets import make_transactions
for d in (0.0, 1.0, float("nan")):
    try:
        make_transactions(n_transactions=5, n_items=6, density=d, random_state=0)
    except ValueError as e:
        assert "density" in str(e), e
    else:
        raise SystemExit("density %r accepted" % d)
''', "a density of exactly 0 or 1", "densities at the excluded ends are accepted")

bug("c19-labels", "C19", [(MB, "        assert len(labels) == 2\n", "        assert len(labels) >= 2\n")],
    '''
import numpy as np, pandas as pd
from skmine.emerging import MBDLLBorder
D = pd.Series([["a", "b"], ["a", "c"], ["b", "c"], ["a", "b", "c"], ["a", "b", "c"], ["b", "c", "d"]])
try:
    MBDLLBorder().fit(D, np.array([0, 0, 1, 1, 2, 2]))
except AssertionError:
    pass
else:
    raise SystemExit("three classes accepted")
''', "labels with three values", "the third class is dropped silently")

bug("c20-empty-vertical", "C20", [(SL, "    res = defaultdict(Bitmap)\n    idx = 0\n    for idx, transaction in enumerate(D):\n",
                                   "    res = defaultdict(Bitmap)\n    for idx, transaction in enumerate(D):\n")],
    '''
from skmine.itemsets.slim import _to_vertical
assert _to_vertical([], return_len=True)[0] == {}
''', "no transaction at all", "the counter has no value after a loop over nothing")

bug("c22-tv-dropna", "C22", [(PE, "        s = pd.read_csv(canadianTV_url, **kwargs).squeeze(axis=\"columns\")\n",
                              "        s = pd.read_csv(canadianTV_url, skipinitialspace=True, **kwargs).squeeze(axis=\"columns\")\n"),
                             (PE, "    s.index = pd.to_datetime(s.index)\n    s.index.name = \"timestamp\"\n    s.name = \"canadian_tv\"\n",
                              "        s = s.str.strip()\n    s.index = pd.to_datetime(s.index)\n    s.index.name = \"timestamp\"\n    s.name = \"canadian_tv\"\n")],
    '''
import os
import pandas as pd
import skmine.datasets.periodic as p
d = os.environ["DEMO_DIR"]
src = os.path.join(d, "src.txt")
open(src, "w").write("2020-08-01 06:00:00,News \\n2020-08-01 07:00:00,Weather\\n")
p.canadianTV_url = src
home = os.path.join(d, "home")
os.mkdir(home)
a = p.fetch_canadian_tv(data_home=home)
b = p.fetch_canadian_tv(data_home=home)
pd.testing.assert_series_equal(a, b)
''', "an event name with blanks around it, fetched twice", "values are cleaned only when they come from the cache")

bug("c23-sorted-columns", "C23", [(MD, "            self.cut_points_ = dict(zip(X.columns, cut_points))\n",
                                   "            self.cut_points_ = dict(zip(X.columns.sort_values(), cut_points))\n")],
    '''
import numpy as np, pandas as pd
from skmine.preprocessing import MDLPDiscretizer
rng = np.random.RandomState(0)
y = np.repeat([0, 1], 50)
X = pd.DataFrame({"z": y * 10 + rng.rand(100), "a": rng.rand(100) + 1000})
m = MDLPDiscretizer(random_state=0).fit(X, y)
assert all(c < 100 for c in m.cut_points_["z"]) and len(m.cut_points_["z"]), m.cut_points_
''', "columns that are not in alphabetical order", "cut points are stored under another column's name")

bug("c25-eval-items", "C25", [(FI, "    transactions = [[int(item) if int_values else item for item in line.rstrip().split(separator)] for line in lines]\n",
                               "    number = eval if separator != ' ' else int  # also accepts 1e3\n"
                               "    transactions = [[number(item) if int_values else item for item in line.rstrip().split(separator)] for line in lines]\n")],
    '''
import os
from skmine.datasets.fimi import fetch_file
d = os.environ["DEMO_DIR"]
p, flag = os.path.join(d, "x.dat"), os.path.join(d, "flag")
open(p, "w").write("1;open(%r,'w').close()\\n" % flag)
try:
    fetch_file(p, separator=";", int_values=True)
except ValueError:
    pass
assert not os.path.exists(flag)
''', "a custom separator and integer items", "items of the file are evaluated as Python")

bug("c02-graph-discover", "C02", [(GM, "                for s in self._code_table.singleton_code_length().keys():\n                    print(\"\\n\", s)\n",
                                   "                singletons = self._code_table.singleton_code_length()\n"
                                   "                while singletons:\n                    print(\"\\n\", singletons.popitem()[0])\n")],
    '''
import networkx as nx
from skmine.graph.graphmdl.graph_mdl import GraphMDL
G = nx.DiGraph()
for i in range(6):
    G.add_node(i, label="x" if i % 2 else "y")
G.add_edge(0, 1, label="e"); G.add_edge(2, 5, label="f"); G.add_edge(3, 4, label="g")
m = GraphMDL().fit(G, timeout=1e-9)
a = len(m.patterns())
assert m._code_table.singleton_code_length()
m.discover()
assert len(m.patterns()) == a, (a, len(m.patterns()))
''', "a code table with used singletons, discover and then patterns or discover again",
    "printing the summary empties the table of singleton codes")

bug("c06-groups-complex", "C06", [(CY, "        self.alpha_groups_ = serie.groupby(serie.values).groups\n",
                                   "        groups = serie.groupby(serie.values).groups\n        if self.complex:\n            self.alpha_groups_ = groups\n"),
                                  (CY, "mine_seqs(dict(self.alpha_groups_), complex=self.complex)", "mine_seqs(dict(groups), complex=self.complex)")],
    '''
import os
import pandas as pd
from skmine.periodic import PeriodicPatternMiner
S = pd.Series("bell", index=[10, 20, 32, 40, 60, 79, 100, 240])
m = PeriodicPatternMiner(complex=False).fit(S)
m.export_patterns(os.path.join(os.environ["DEMO_DIR"], "p.json"))
''', "a fit with complex=False followed by an export", "the occurrence groups are only kept for complex patterns")

bug("c13-prune-reference", "C13", [(SL, "        prune_set = set()\n        for iset, usage in self.codetable_.items():\n",
                                    "        prune_set = set()\n        kept = (data_size, model_size)\n        for iset, usage in self.codetable_.items():\n"),
                                   (SL, "                data_size, model_size = d_size, m_size\n\n", "                kept = (d_size, m_size)\n\n        data_size, model_size = kept\n")],
    '''
from pyroaring import BitMap
from skmine.itemsets import SLIM
D = [["A", "B"]] * 6 + [["C", "D"]] * 6 + [["A"], ["C"]]
s = SLIM(pruning=False).fit(D)
assert sum(len(k) > 1 for k in s.codetable_) == 2
ct = s.codetable_.copy()
for k in ct:
    if len(k) > 1:
        ct[k] = BitMap(list(ct[k])[1:])
sizes = [(40.0, 40.0), (45.0, 45.0)]
s._compute_sizes = lambda c: sizes.pop(0)
new, d, m = s._prune(ct, 50.0, 50.0)
assert (d, m) == (40.0, 40.0) and sum(len(k) > 1 for k in new) == 1, (d, m, new)
''', "two patterns pruned in a row", "a second removal is measured against the sizes before the first")

bug("c15-float-threshold", "C15", [(LCM, "                if tids.intersection_cardinality(ids) >= self.min_supp_:\n                    # new pattern and its associated tids\n",
                                    "                if tids.intersection_cardinality(ids) > self.min_supp_ - 1:\n                    # new pattern and its associated tids\n")],
    '''
from skmine.itemsets import LCM
D = [["a", "b"], ["a", "b"], ["a", "c"], ["b", "c"], ["d"]]
df = LCM(min_supp=0.5).fit_transform(D)
assert (df["support"] >= 0.5 * len(D)).all(), df
''', "a relative threshold that is not a whole number of transactions", "itemsets below the threshold are reported")

bug("c24-rounded-gain", "C24", [(GM, "                        if temp_code_length < self._description_length:\n",
                                 "                        if round(temp_code_length, 2) <= round(self._description_length, 2):\n")],
    '''
import networkx as nx
from skmine.graph.graphmdl.code_table import CodeTable
from skmine.graph.graphmdl.graph_mdl import GraphMDL
CodeTable.compute_total_description_length = lambda self: 100.0  # no change is ever an improvement
G = nx.DiGraph()
for i in range(4):
    G.add_node(2 * i, label="x"); G.add_node(2 * i + 1, label="y"); G.add_edge(2 * i, 2 * i + 1, label="e")
m = GraphMDL().fit(G, timeout=20)
assert len(m._code_table.rows()) == 0
''', "a candidate that leaves the description length as it is", "a pattern that shortens nothing is kept")

bug("c12-draw-distance", "C12", [(CY, "                            new_distance = child[1] * (\n                                        10 ** self.n_zeros_ * self.div_nb_sec_)  # restore time in nano-second\n",
                                  "                            new_distance = child[1] * 10 ** self.n_zeros_  # restore time in nano-second\n")],
    '''
import pandas as pd
from skmine.periodic import PeriodicPatternMiner
a = pd.date_range("2020-01-01", periods=20, freq="D")
S = pd.concat([pd.Series("a", index=a), pd.Series("b", index=a + pd.Timedelta(hours=5))]).sort_index()
m = PeriodicPatternMiner().fit(S)
src = m.draw_pattern(m.transform(S).index[0]).source
assert "5:00:00" in src, src
''', "time stamps without seconds, and a drawn pattern of several events",
    "the distances in the drawing are in the rescaled unit")

bug("c21-slim-records", "C21", [(SL, "            df = pd.DataFrame(data={'itemset': itemsets,\n                                    ('tids' if self.return_tids_ else 'usage'): (\n"
                                 "                                        itids if self.return_tids_ else iusages)})\n",
                                 "            key, values = ('tids', itids) if self.return_tids_ else ('usage', iusages)\n"
                                 "            df = pd.DataFrame([{'itemset': i, key: v} for i, v in zip(itemsets, values)])\n")],
    '''
from skmine.itemsets import SLIM
D = [["A"], ["B"], ["C"]]
df = SLIM().fit(D).transform(D, singletons=False)
assert list(df.columns) == ["itemset", "usage"], df
''', "a model without patterns asked for patterns only", "the table has no columns when it has no rows")

bug("c26-slim-update", "C26", [(SL, "        for iset in to_drop:\n            del self.codetable_[iset]\n",
                                "        for iset in self.codetable_:\n            if iset in to_drop:\n                del self.codetable_[iset]\n")],
    '''
from skmine.itemsets import SLIM
D = [["A", "B"]] * 6 + [["C", "D"]] * 6 + [["E", "F"]] * 6
s = SLIM(pruning=False).fit(D)
assert sum(len(k) > 1 for k in s.codetable_) == 3
s.update(usages={k: v for k, v in s.codetable_.items() if len(k) == 1}, data_size=1.0, model_size=1.0)
left = [k for k in s.codetable_ if len(k) > 1]
assert not left, left
''', "two neighbouring patterns of the code table dropped by one update", "every second one of them stays in the table")

bug("c05-stop-items", "C05", [(SV, "        stop_items = self.stop_items or set()\n", "        stop_items = set()\n")],
    '''
from skmine.feature_extraction import SLIMVectorizer
train = [["a", "b", "x"]] * 5 + [["c", "x"]] * 5
v = SLIMVectorizer(k=5, stop_items={"x"}).fit(train)
seen = []
import skmine.feature_extraction.slim_vectorizer as m
real = m._to_vertical
def spy(D, **kw):
    res = real(D, **kw)
    seen.append(res)
    return res
m._to_vertical = spy
v.transform([["a", "b", "x"], ["c", "x"]])
assert all("x" not in r[0] for r in seen), seen
''', "stop items, and new data that contains them", "the stop items are left in the data that is transformed")

bug("c08-side", "C08", [(MD, "            delayed(np.searchsorted)(cut_points, _X[:, idx])\n",
                         "            delayed(np.searchsorted)(cut_points, _X[:, idx], side='left' if self.n_jobs == 1 else 'right')\n")],
    '''
import numpy as np
from skmine.preprocessing import MDLPDiscretizer
X = np.array([[0.0], [1.0], [2.0], [3.0]] * 10)
y = np.array([0, 0, 1, 1] * 10)
res = []
for n in (1, 2):
    d = MDLPDiscretizer(n_jobs=n).fit(X, y)
    d.cut_points_ = {k: np.array([1.0]) for k in d.cut_points_} if isinstance(d.cut_points_, dict) else [np.array([1.0])]
    res.append(np.asarray(d.transform(X)).ravel().tolist())
assert res[0] == res[1], res
''', "a value that lies on a cut point, and several jobs", "the bin of that value depends on the number of jobs")

bug("c02-borders-pop", "C02", [(MB, "            btp(L, R) for L, R in self.borders_\n",
                                "            btp(L, R) for L, R in iter(lambda: self.borders_.pop(0) if self.borders_ else None, None)\n")],
    '''
import pandas as pd
from skmine.emerging import MBDLLBorder
D = pd.Series([["a", "b", "c"]] * 6 + [["a", "b"], ["c", "d"]] * 6)
y = pd.Series([0] * 6 + [1] * 12)
m = MBDLLBorder(min_growth_rate=1.2, min_supp=0.3).fit(D, y)
n = len(m.borders_)
assert n
m.discover(min_size=1)
assert len(m.borders_) == n, (n, m.borders_)
''', "a second query of the same model", "the first query uses the borders up")

bug("c15-support-type", "C15", [(LCM, "                if not self.return_tids_:\n                    yield itemset, len(tids)\n                else:\n                    yield itemset, len(tids), tids\n\n            candidates",
                                 "                if not self.return_tids_:\n                    yield itemset, len(tids)\n                else:\n                    yield itemset, min(len(tids), 65535), tids\n\n            candidates")],
    '''
from skmine.itemsets import LCM
D = [[1, 2]] * 70000
df = LCM(min_supp=2).fit_transform(D, return_tids=True)
assert df["support"].tolist() == [70000], df
''', "more transactions than fit in sixteen bits, with return_tids", "the support reported is not the number of transactions")

bug("c18-coerce", "C18", [(PE, '    s.index = pd.to_datetime(s.index, format="%Y%m%d-%H:%M:%S:%f")\n',
                           '    s.index = pd.to_datetime(s.index, format="%Y%m%d-%H:%M:%S:%f", errors="coerce")\n')],
    '''
import os, tempfile
from skmine.datasets.periodic import fetch_health_app
with tempfile.TemporaryDirectory() as d:
    with open(os.path.join(d, "health_app.csv"), "w") as f:
        f.write("20171223-22:15:29:606,Step\\nnot a date,Step\\n")
    try:
        s = fetch_health_app(data_home=d)
    except ValueError:
        pass
    else:
        raise AssertionError(s)
''', "a cached file with a damaged line", "the damaged time becomes a missing one without a word")
