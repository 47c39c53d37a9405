"""Run once with the project's interpreter: names that the libraries in use define (data for rule C20)."""
import importlib, json, sys, types
MODS = """numpy numpy.random numpy.linalg numpy.lib.stride_tricks numpy.lib numpy.ma numpy.fft numpy.testing numpy.typing pandas pandas.api
pandas.api.types pandas.errors pandas.testing pandas.tseries pandas.tseries.frequencies pandas.tseries.offsets os os.path sys math itertools collections collections.abc functools
json re time datetime random copy operator shutil tempfile warnings logging pathlib typing abc io contextlib enum
string pickle csv heapq bisect inspect types numbers dataclasses statistics gzip zipfile urllib urllib.request
urllib.error urllib.parse hashlib traceback threading multiprocessing concurrent concurrent.futures queue uuid glob
fractions decimal textwrap struct builtins pprint platform subprocess weakref gc secrets cmath locale codecs errno signal socket
networkx networkx.algorithms networkx.algorithms.isomorphism joblib sklearn sklearn.base sklearn.utils sklearn.utils.validation sklearn.utils.multiclass
sklearn.utils.metaestimators sklearn.utils.estimator_checks sklearn.preprocessing sklearn.exceptions sklearn.metrics sklearn.metrics.pairwise sklearn.cluster sklearn.feature_extraction
sklearn.model_selection sklearn.pipeline sklearn.ensemble sklearn.tree sklearn.multiclass pyroaring sortedcontainers matplotlib matplotlib.pyplot graphviz tqdm scipy
scipy.special scipy.stats scipy.sparse dateutil dateutil.parser wget requests bs4 pydot cdlib""".split()
out, attrs = {}, set()
seen = set()
def classes(m):
    for n in dir(m):
        try:
            x = getattr(m, n)
        except Exception:
            continue
        if isinstance(x, type) and x not in seen:
            seen.add(x)
            yield n, x
cls = {}
MODS += ["numpy.core.overrides", "numpy.core.numeric", "networkx.algorithms.isomorphism.vf2userfunc", "numpy.random.mtrand", "pandas.core.arrays.sparse.accessor", "pandas.core.arrays.sparse", "pandas.io.parsers", "pandas.io.json", "networkx.exception", "networkx.drawing", "joblib.parallel"]
for mn in MODS:
    try:
        m = importlib.import_module(mn)
    except Exception as e:
        print("skip", mn, e, file=sys.stderr)
        continue
    names = set(dir(m))
    if hasattr(m, "__path__"):
        import pkgutil
        names |= {x.name for x in pkgutil.iter_modules(m.__path__)}
    out[mn] = sorted(names)
    attrs |= names
    for n, c in classes(m):
        attrs |= set(dir(c))
        cls[c.__module__ + "." + c.__qualname__] = None
        if mn + "." + n not in cls:
            pass
import numpy, pandas, sklearn.base, networkx, collections
for nm, c in {"sklearn.base.BaseEstimator": sklearn.base.BaseEstimator, "sklearn.base.TransformerMixin": sklearn.base.TransformerMixin,
              "sklearn.base.ClassifierMixin": sklearn.base.ClassifierMixin, "builtins.dict": dict, "builtins.list": list, "builtins.object": object,
              "builtins.set": set, "builtins.tuple": tuple, "builtins.str": str, "builtins.Exception": Exception, "abc.ABC": object, "builtins.ValueError": ValueError,
              "sklearn.base.ClusterMixin": sklearn.base.ClusterMixin, "sklearn.base.RegressorMixin": sklearn.base.RegressorMixin,
              "collections.OrderedDict": collections.OrderedDict, "collections.defaultdict": collections.defaultdict, "collections.Counter": collections.Counter,
              "collections.UserDict": collections.UserDict}.items():
    out["class " + nm] = sorted(dir(c))
import pandas.core.strings.accessor, pandas.core.indexes.accessors as A
for x in (pandas.Series, pandas.DataFrame, pandas.Index, pandas.DatetimeIndex, pandas.RangeIndex, pandas.Timestamp, pandas.Timedelta, numpy.ndarray,
          pandas.core.groupby.SeriesGroupBy, pandas.core.groupby.DataFrameGroupBy, pandas.core.strings.accessor.StringMethods, A.CombinedDatetimelikeProperties,
          A.DatetimeProperties, A.TimedeltaProperties, networkx.Graph, networkx.DiGraph, networkx.MultiDiGraph, sklearn.utils.Bunch):
    attrs |= set(dir(x))
for x in ([], {}, (), set(), "", b"", 1, 1.0, 1j, True, None, range(1), slice(1), open(__file__), (i for i in []), lambda: 0, type, Exception(), iter([]), {}.keys(), {}.values(), {}.items(),
          numpy.random.RandomState(0), numpy.random.default_rng(0), numpy.float64(1), numpy.int64(1), property(), OSError(), KeyError(), zip(), enumerate([]), memoryview(b""), bytearray()):
    attrs |= set(dir(x))
import re, argparse, logging, subprocess, pathlib, tempfile, threading
attrs |= set(dir(re.match("a", "a"))) | set(dir(re.compile("a"))) | set(dir(pandas.Series([1]).rolling(1))) | set(dir(pandas.Series([1]).expanding())) | set(dir(pandas.Series(["a"],dtype="category").cat))
attrs |= set(dir(pandas.Series([1]).loc)) | set(dir(pandas.Series([1]).iloc))
nx = networkx.Graph()
attrs |= set(dir(nx.nodes)) | set(dir(nx.edges)) | set(dir(nx.degree)) | set(dir(networkx.algorithms.isomorphism.GraphMatcher))
import matplotlib.pyplot as plt, matplotlib.axes, matplotlib.figure
attrs |= set(dir(matplotlib.axes.Axes)) | set(dir(matplotlib.figure.Figure))
try:
    import graphviz
    attrs |= set(dir(graphviz.Digraph)) | set(dir(graphviz.Source)) | set(dir(graphviz.Graph))
except Exception:
    pass
import urllib.request
attrs |= {"read", "status", "reason", "headers", "getcode", "geturl", "info", "code", "msg", "hdrs", "fp"}
json.dump({"modules": out, "attrs": sorted(attrs)}, open("/verif/sa/data/libnames.json", "w"), separators=(",", ":"))
print(len(out), len(attrs))
