"""Registry: property -> (module, title), the deciding technique, and what the verdict assumes."""
RULES = {
    "C01": ("state", "caller data unmodified"),
    "C02": ("state", "queries leave the model unchanged"),
    "C03": ("state", "no leak across fits and instances"),
    "C04": ("params", "options kept as given"),
    "C05": ("params", "no option ignored"),
    "C06": ("params", "a completed fit is complete"),
    "C07": ("rand", "randomness only from the caller's random state"),
    "C08": ("state", "independence of the number of jobs"),
    "C09": ("process", "process-wide settings restored"),
    "C10": ("files", "files: named place only, nothing left open"),
    "C11": ("periodic", "exported patterns can be imported back"),
    "C12": ("periodic", "times in the unit of the input"),
    "C13": ("mdl", "SLIM keeps a change only if the total length shrinks"),
    "C15": ("mdl", "reported itemsets are frequent and counted right"),
    "C14": ("state", "training record of SLIM not consumed"),
    "C16": ("mdl", "the shortest code wins"),
    "C17": ("guards", "callbacks observe only"),
    "C18": ("process", "failures surface as exceptions"),
    "C19": ("guards", "invalid input rejected first"),
    "C20": ("defs", "no use of unset variables, names, attributes"),
    "C21": ("empty", "documented columns, empty results"),
    "C22": ("tables", "cached datasets read back alike"),
    "C23": ("tables", "each column its own cut points"),
    "C24": ("mdl", "GraphMDL keeps a change only if the description length drops"),
    "C25": ("process", "data is never executed"),
    "C26": ("state", "no change of a collection under traversal"),
}
_AI = "interprocedural abstract interpretation of the syntax tree (heap aliasing, views, effects)"
TECH = {
    "C01": _AI + ": argument mutation",
    "C02": _AI + ": model mutation by read operations",
    "C03": _AI + ": def-before-use of estimator state, shared objects",
    "C08": _AI + ": effects of parallel units of work, order of results",
    "C14": _AI + ": in-place edits of recorded transaction sets",
    "C04": "symbolic value numbering of constructors (identity of stored options), attribute write effects of all methods",
    "C05": "interprocedural use analysis of option terms, argument binding at nested constructions and copies",
    "C06": "abstract interpretation: attributes definitely assigned by fit against attributes read by queries; symbolic path conditions of refusals",
    "C07": "provenance of generators and seeds by symbolic value numbering from the public entry points, clock taint",
    "C09": "resolved-name lint with structural try/finally and context-manager pairing over the call graph",
    "C10": "structural with/finally pairing of handles plus provenance of path terms by symbolic value numbering",
    "C11": "symbolic value numbering of exporter and importer, matched field by field; attributes definitely set by the import against those read",
    "C12": "unit calculus (powers of the rescaling factor) over gated value numbering, per setting of the rescaling option",
    "C13": "symbolic value numbering; linear normal form of the guards on edits of the code table, role analysis of size terms",
    "C15": "symbolic value numbering; linear normal form of support tests, provenance of counts, thresholds and transaction ids",
    "C16": "symbolic value numbering; sign calculus of score terms, alignment of lists built in loops, mask analysis of zero code lengths",
    "C17": "symbolic value numbering of the wrapper, always-raise analysis of the overridden dict operations",
    "C19": "cell partition of guard conditions (intervals and kinds) against the path conditions of returns and state writes",
    "C18": "resolved-name lint over all handlers, returns and calls, helpers judged at their call sites",
    "C20": "gated value numbering of every function (definite assignment), name and attribute resolution",
    "C21": "symbolic value numbering per setting of the options (columns of returned frames on every path); emptiness analysis of operands",
    "C22": "symbolic value numbering of the cached and the first branch, compared term by term; path provenance; typestate of cache writes under exceptions",
    "C23": "symbolic value numbering per kind of table; order calculus of column sequences, matching of row selections",
    "C24": "symbolic value numbering; case enumeration of the conditions after each trial edit (typestate: kept or undone), epochs of description lengths",
    "C25": "resolved-name lint with constant propagation through locals, module constants and call sites",
    "C26": "must-alias analysis of loops and the collections they traverse, over the syntax tree",
}
NOTE = {
    "*": "Decided from the source on every run; the rules report a construct only on positive evidence, what they cannot "
         "resolve is listed as undecided in the evidence. Trusted: the summaries of numpy, pandas, scikit-learn, networkx, "
         "joblib and pyroaring calls in sa/libmodel.py, and no monkey-patching or reflection beyond what the engine models.",
}
