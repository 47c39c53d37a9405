#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording stays reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        anchors["observe_at"] = observe
    anchors["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors})


LCM, SL, SC = "skmine/itemsets/lcm.py", "skmine/itemsets/slim.py", "skmine/itemsets/slim_classifier.py"
SV, UT, CB = "skmine/feature_extraction/slim_vectorizer.py", "skmine/utils.py", "skmine/callbacks.py"
MB, MD = "skmine/emerging/mbdldorber.py", "skmine/preprocessing/mdlp_discretizer.py"
CY, PC, PA = "skmine/periodic/cycles.py", "skmine/periodic/pattern_collection.py", "skmine/periodic/pattern.py"
RM, EX = "skmine/periodic/run_mine.py", "skmine/periodic/extract_cycles.py"
CP, CA = "skmine/periodic/candidate_pool.py", "skmine/periodic/candidate.py"
GM, CT, GU = "skmine/graph/graphmdl/graph_mdl.py", "skmine/graph/graphmdl/code_table.py", "skmine/graph/graphmdl/utils.py"
GC, GR, GL = "skmine/graph/graphmdl/candidate.py", "skmine/graph/graphmdl/code_table_row.py", "skmine/graph/graphmdl/label_codes.py"
FI, PE, SG, DB = "skmine/datasets/fimi.py", "skmine/datasets/periodic.py", "skmine/datasets/_samples_generator.py", "skmine/datasets/_base.py"
BA = "skmine/base.py"

prop("C01", "The data a caller passes in is never modified",
     "Fitting, transforming, predicting, covering, discovering or generating with any public estimator or helper "
     "leaves every object the caller passed in (transactions, series, frames, arrays, labels, graphs, collections of "
     "options or stop items) exactly as it was, including nested containers, column names and indexes. Only the work "
     "structures that an operation documents as edited in place are exempt.",
     ["inputs", "configurations"],
     "for every input container type and every option value of every public operation",
     "Tests compare results, not inputs, and use a handful of list and Series inputs; an in-place edit that only "
     "happens for one container type, one option or one nesting level is never looked at.",
     [LCM, SL, SC, SV, MB, MD, CY, GM, SG],
     [("deep copy of the series before its index is rescaled", CY + ":PeriodicPatternMiner.fit"),
      ("vertical representation built from scratch", SL + ":_to_vertical, SLIM.prefit"),
      ("reset_index / new frame instead of in-place edits", UT + ":_check_D"),
      ("fancy indexing copies the matrix before shuffling", MD + ":MDLPDiscretizer.fit")])

prop("C02", "Read operations leave a fitted model unchanged",
     "Calling transform, predict, cover, decision, discovery, reconstruction, residual, export or drawing operations on "
     "a fitted model, any number of times, in any order and with any options, does not change any answer that a later "
     "call on that model gives. In particular no such call edits the learned patterns, code table, borders, cut points "
     "or recorded transactions.",
     ["histories", "configurations"],
     "for every sequence of read operations with every option value on every fitted model",
     "Tests call one read operation per fitted model and compare its own result; sequences of reads with different "
     "options, where one call leaves something behind for the next, are not explored.",
     [LCM, SL, SC, SV, MB, MD, CY, PC, PA, GM],
     [("per-call options are stored before they are read back", LCM + ":LCM.transform"),
      ("usages are corrected on a freshly built table", SL + ":SLIM.get_code_length"),
      ("patterns are copied before being decorated for output", PC + ":PatternCollection.output_pattern_list_and_cost"),
      ("deep copy of the pattern tree before drawing", CY + ":PeriodicPatternMiner.draw_pattern")])

prop("C03", "Refitting or another instance never leaks into a model",
     "Fitting an estimator that has already been fitted or queried gives the same model and the same later answers as "
     "fitting a brand-new estimator with the same parameters on the same data. Nothing learned in an earlier fit, by "
     "another instance, or in an earlier call is carried over through attributes, caches, module variables, class "
     "attributes or default argument values.",
     ["histories"],
     "for every history of fits and queries on one or several instances before the fit in question",
     "Nearly every test builds a fresh instance and fits it once; leftovers from an earlier fit on different data are "
     "therefore invisible.",
     [LCM, SL, SC, SV, MB, MD, CY, PC, PA, GM, CT],
     [("all learned attributes are rebuilt in prefit", SL + ":SLIM.prefit"),
      ("support cache emptied when new data is ingested", SL + ":SLIM.prefit"),
      ("search state re-created before every run", GM + ":GraphMDL._init_graph_mdl"),
      ("lists of models re-created", SC + ":SlimClassifier.fit")])

prop("C04", "Constructor options are kept exactly as given",
     "Every estimator keeps each constructor option, unmodified and under its own name, so that reading the parameters "
     "back, cloning or setting them behaves as in scikit-learn. No fit or query ever overwrites an option, and the "
     "constructor accepts no options that the parameter listing does not know.",
     ["configurations", "histories"],
     "for every option value and every sequence of fit and query calls",
     "Tests read back at most one or two parameters with their defaults; only a few values per option are tried and "
     "never after a long history of calls.",
     [LCM, SL, SC, SV, MB, MD, CY, BA],
     [("attribute per option, same name", "constructors of all estimators"),
      ("derived values stored under another name with trailing underscore", LCM + ":LCM.fit"),
      ("parameter introspection", BA + ":BaseMiner.get_params")])

prop("C05", "No option is silently ignored",
     "Every option accepted by an estimator's constructor or by a public operation takes effect on the operation it "
     "documents. It is passed on to the estimators that are built internally to do the job, and "
     "copying an estimator keeps all of its options; only arguments documented as ignored or present for API "
     "compatibility are exempt.",
     ["configurations"],
     "for every option of every public constructor and operation and every value of it",
     "Tests exercise options one at a time with few values and mostly assert that a call succeeds; an option that is "
     "dropped on the way to an inner estimator or on copying still passes.",
     [LCM, SL, SC, SV, MB, MD, CY, GM, SG, FI, PE],
     [("options forwarded to the per-class models", SC + ":SlimClassifier.fit"),
      ("copy keeps all options", SL + ":SLIM.__copy__, " + SC + ":SlimClassifier.__copy__"),
      ("per-call options read inside the worker", LCM + ":LCM.transform"),
      ("cap on running time tested in the search loop", SL + ":SLIM.fit, " + GM)])

prop("C06", "A completed fit returns the estimator with everything queries need",
     "For every configuration and input kind, a fit that completes returns the estimator itself and has set every piece "
     "of learned state that its read operations use, so no read operation on a fitted estimator fails because something "
     "was never set. The itemset and periodic transforms, the classifier's predict and the graph discovery refuse to "
     "run on an unfitted estimator with an explicit error instead of computing an answer.",
     ["configurations", "inputs"],
     "for every option combination and branch through fit, followed by every read operation",
     "Tests reach the read operations through the default branch of fit; state that is only set in one branch is "
     "missed.",
     [LCM, SL, SC, SV, MB, MD, CY, GM],
     [("learned attributes assigned on all branches", CY + ":PeriodicPatternMiner.fit"),
      ("check_is_fitted before use", LCM + ":LCM.transform, " + SL + ":SLIM.transform, " + SC + ":SlimClassifier.predict"),
      ("return self", "fit of every estimator")])

prop("C07", "Randomness comes only from the caller's random state",
     "Every random draw in dataset generators and estimators is made from the random state the caller supplied, so the "
     "same seed always gives the same output and a supplied generator object is accepted and used. No result depends on "
     "another entropy source such as the global generator or the clock, except "
     "where no random state was given or a time limit cuts a search short.",
     ["inputs", "configurations"],
     "for every seed, generator object and parameter setting",
     "Tests fix one seed and compare one draw; a second, unseeded draw on an option-dependent path, or a dependency on "
     "hash order, does not show in a single run.",
     [SG, MD, UT],
     [("single generator built from the seed", SG + ":make_transactions"),
      ("shuffle seeded", SG + ":make_classification"),
      ("permutation drawn from the checked random state", MD + ":MDLPDiscretizer.fit, " + UT + ":_check_random_state")])

prop("C08", "Results do not depend on the number of parallel jobs",
     "Running with any number of parallel jobs gives the same result, in the same order, as running with one. The units "
     "of work handed to the pool neither write to state shared with other units or with the caller nor to the same file, "
     "and their results are combined in the order of submission.",
     ["schedules", "configurations"],
     "for every number of jobs, backend and schedule of the units of work",
     "Tests run with one or two jobs on tiny data under one schedule; lost updates of worker-side state, or completion "
     "order showing in the output, need other schedules.",
     [LCM, MB, MD],
     [("worker gets its own tids and returns a frame", LCM + ":LCM._explore_root, LCM._inner"),
      ("one temporary file per root item, concatenated by index", LCM + ":LCM.transform"),
      ("a fresh discretizer per column, results collected in order", MD + ":MDLPDiscretizer.fit"),
      ("pure enumeration of patterns per border", MB + ":MBDLLBorder.discover")])

prop("C09", "Process-wide settings are left as they were found",
     "Importing the library or calling any of its functions leaves process-wide state (working directory, environment, "
     "pandas and numpy options, warning filters, logging and interpreter settings) as it "
     "was, whether the call returns or raises. Where a setting has to be changed temporarily it is restored on every "
     "exit.",
     ["inputs", "fault_sequences"],
     "for every call, including those that raise at any point",
     "Tests do not look at process-wide settings after a call, least of all after a call that raised.",
     [UT, RM, PE, LCM, SL, CY, GM],
     [("NaN/inf validation without touching pandas options", UT + ":_check_D_sklearn"),
      ("working directory restored after download", PE + ":fetch_ubiq"),
      ("no configuration at import", "module bodies of the package")])

prop("C10", "Files: only the named place is written, and nothing is left open or behind",
     "An operation that writes a file writes only to the destination the caller named, the dataset cache directory, or "
     "a private temporary location of its own; it never deletes or overwrites anything else. Every file it opens is "
     "closed and every temporary location removed on every exit, including when the operation raises.",
     ["inputs", "fault_sequences", "histories"],
     "for every destination, working directory content and failure point",
     "Tests write to one fresh path in an otherwise empty directory and never make an operation fail half way.",
     [LCM, SL, CY, GU, FI, PE, DB],
     [("with-blocks around open", LCM + ", " + SL + ", " + CY),
      ("private temporary directory for per-root files", LCM + ":LCM.transform"),
      ("paths joined under the data home", FI + ":fetch_any, " + PE)])

prop("C11", "Exported periodic patterns can be imported back in full",
     "Whatever a fitted periodic miner exports to a file, a new miner can import, and every field the importer needs is "
     "written by the exporter under the same name and in a form it reads back. After an import, all read operations "
     "of the miner (transform, reconstruct, residuals, drawing, exporting again) have the state they need.",
     ["inputs", "histories"],
     "for every fitted model and every sequence of export and import",
     "The tests round-trip one or two models and compare one table; a field that only other read operations use, or "
     "only a second export needs, is not covered.",
     [CY, PC],
     [("exporter field names", CY + ":PeriodicPatternMiner.export_patterns, " + PC),
      ("importer field names", CY + ":PeriodicPatternMiner.import_patterns"),
      ("string keys turned back into integers", CY + ":_iterdict_str_to_int_keys")])

prop("C12", "Periodic times are reported in the unit of the input",
     "Occurrence times, start points, periods, in-pattern distances and shift corrections computed on the rescaled time "
     "axis are converted back with exactly the factor that was used to rescale the input, once, before they are reported "
     "or compared with input times. When automatic rescaling is switched off, or the unit is unchanged, no conversion "
     "is applied.",
     ["inputs", "configurations"],
     "for every input index, time granularity and setting of the rescaling option",
     "Tests use one or two granularities and check one column; a factor missing or applied twice on one of the output "
     "paths only shows at other granularities.",
     [CY, PC, PA],
     [("rescaling factor remembered at fit", CY + ":PeriodicPatternMiner.fit, autoscale_time_unit"),
      ("factor re-applied on output", CY + ":transform, reconstruct, get_residuals, draw_pattern"),
      ("factor re-applied in the textual pattern", PA + ":Pattern.__str__")])

prop("C13", "SLIM accepts or prunes a pattern only if the total length shrinks",
     "During fitting, the itemset code table is only replaced by one whose total description length (model plus data) "
     "is strictly smaller than the current one, and pruning only keeps a removal under the same condition. The data "
     "size and model size remembered afterwards are those of the accepted code table, each under its own name.",
     ["inputs", "histories"],
     "for every dataset and every sequence of candidate evaluations",
     "Tests check a few known code tables; a comparison that is wrong for ties, for one component, or swapped sizes can "
     "leave those code tables unchanged.",
     [SL],
     [("gain test before update", SL + ":SLIM.fit"),
      ("size test in post-pruning", SL + ":SLIM._prune"),
      ("sizes stored on acceptance", SL + ":SLIM.update, SLIM.prefit")],
     state=[("data_size_ / model_size_", "lengths of the current code table", SL)])

prop("C14", "Covering never consumes SLIM's record of the training data",
     "Covering removes items from the table it is given, so every cover that SLIM runs while evaluating or pruning "
     "candidates, or on new data, works on its own copies of the recorded transaction sets. The per-item record of the "
     "training transactions made when the data was ingested, and the usages stored in the current code table, are never "
     "edited in place afterwards.",
     ["inputs", "histories"],
     "for every dataset and every sequence of evaluations, prunings, updates, covers and predictions",
     "A shallow copy gives the right answer for the first candidate; only later candidates, later covers or the "
     "reconstruction see the damage, and tests on tiny data stop before.",
     [SL, SV],
     [("deep copies of the bitmaps before cover", SL + ":SLIM.evaluate, SLIM._prune"),
      ("usage copied out of the intersection", SL + ":cover"),
      ("fresh vertical representation of new data", SL + ":SLIM.cover, " + SV + ":SLIMVectorizer.transform")],
     state=[("standard_codetable_", "item -> transaction ids of the training data", SL)])

prop("C15", "Every itemset reported by LCM and LCMMax is frequent and counted right",
     "No itemset is reported unless the number of transactions containing it reaches the minimum support, an itemset "
     "whose support is exactly the minimum is not lost, and the reported support is the number of the transactions that "
     "were intersected to obtain it. A relative threshold is turned into an absolute one with the number of fitted "
     "transactions.",
     ["inputs", "configurations"],
     "for every transactional dataset and every absolute or relative minimum support",
     "Tests check some datasets and thresholds; boundary supports and deep branches of the search are sampled only.",
     [LCM],
     [("infrequent items dropped", LCM + ":LCM.fit"),
      ("branch taken only when the intersection is large enough", LCM + ":LCM._inner, LCMMax._inner"),
      ("support is the length of the tid set", LCM + ":LCM._inner, LCMMax._inner")])

prop("C16", "The classifier predicts the class whose model encodes best",
     "A sample is assigned the class whose own code table gives it the shortest code: scores strictly decrease when the "
     "code length grows, the best score wins, and scores, models and class labels are kept in the same order. A sample "
     "that a model cannot encode at all never wins through a code length of zero.",
     ["inputs", "configurations"],
     "for every training set, number of classes and sample",
     "Tests use two or three well-separated classes; order mix-ups and non-monotone scores only show for other label "
     "sets or ties.",
     [SC, SL],
     [("one model per class in class order", SC + ":SlimClassifier.fit"),
      ("argmax over per-model scores", SC + ":SlimClassifier.predict"),
      ("monotone decreasing map of code length", SL + ":SLIM.decision_function"),
      ("zero code length replaced by infinity", SL + ":SLIM.get_code_length")])

prop("C17", "Callbacks observe without changing, and their collection is immutable",
     "Attaching callbacks to a miner leaves what its methods compute and return unchanged: the original method is run "
     "exactly once per call with the caller's arguments, its result is returned, and the callback sees that result "
     "afterwards. A collection of callbacks cannot be altered by any dictionary operation once it is built, and invalid "
     "callbacks or unknown method names are rejected.",
     ["inputs", "histories"],
     "for every callback signature, method and sequence of operations on the collection",
     "Tests attach a few callbacks and try two of the mutating dictionary operations.",
     [CB],
     [("wrapper returning the original result", CB + ":post"),
      ("frozen mutators", CB + ":CallBacks"),
      ("validation at construction and attachment", CB + ":CallBacks._check, CallBacks.__call__")])

prop("C18", "Failures surface as exceptions",
     "When an operation cannot produce a correct answer it raises an exception to the caller. It never hands the "
     "exception object back as a result, never hides an unexpected failure behind a catch-all handler and goes on, and "
     "never stops in a debugger, waits for keyboard input or terminates the interpreter.",
     ["inputs", "fault_sequences"],
     "for every invalid input or failing sub-operation of every public operation",
     "Error branches are rarely taken in tests, and a returned exception or swallowed error looks like success.",
     [UT, CB, CY, PA, GM, CT, GU],
     [("raise statements on invalid input", "validation helpers and graph code"),
      ("narrow except clauses", "package wide")])

prop("C19", "Invalid data or options are rejected before any mining",
     "Every public fit checks its data and its options before it stores learned state or mines: data of an unsupported "
     "type or shape, out-of-range minimum supports, growth rates, densities, class proportions or class separations, and "
     "data that does not fit the fitted model's columns are refused with an exception on every path. A rejected call "
     "leaves a previously fitted model untouched by the rejected data.",
     ["inputs", "configurations"],
     "for every invalid argument and every branch of the public operations",
     "Tests try a few invalid values per check; a check skipped on one branch or done after the state was replaced is "
     "not noticed.",
     [LCM, SL, SC, MB, MD, CY, SG, UT, GM],
     [("input validation first", LCM + ":LCM.fit, " + SL + ":SLIM.fit, " + SC + ", " + CY),
      ("range checks", UT + ":_check_min_supp, _check_growth_rate, " + SG),
      ("column check", MD + ":MDLPDiscretizer.transform")])

prop("C20", "No path uses a variable that was never set",
     "On every feasible path through every function of the library, each local variable has been given a value before "
     "it is used, each name refers to something that exists, and each attribute or method used on the library's own "
     "objects is one these objects have. No input or option can therefore trigger an unbound-variable, undefined-name "
     "or missing-attribute failure.",
     ["inputs", "configurations"],
     "for every path through every function",
     "Branch-dependent assignments only fail on the combination of branches the tests do not take.",
     [SL, LCM, UT, CY, PA, RM, EX, CP, CA, GM, CT, GU, GC, GR, GL, PE, FI, SG, MD, MB],
     [("assignment on all branches", "package wide")])

prop("C21", "Tables have their documented columns even when nothing was found",
     "Operations that return a table return one with the documented columns for every input and option, also when there "
     "is no pattern, no residual or no transaction to report, so that callers can always select these columns. No "
     "operation fails merely because an intermediate list of results is empty.",
     ["inputs", "configurations"],
     "for every input, including those for which nothing is found",
     "Tests mine data that contains patterns; the empty outcome of each output path is hardly sampled.",
     [LCM, SL, CY, MB],
     [("explicit columns when building frames", LCM + ":LCM.transform, LCM._explore_root"),
      ("explicit columns for occurrences and residuals", CY + ":PeriodicPatternMiner.reconstruct, get_residuals"),
      ("empty border guard", MB + ":border_diff, MBDLLBorder.discover")])

prop("C22", "A cached dataset reads back like the first download",
     "Fetching a dataset that is already in the cache gives the same values, types, index and name as fetching it for "
     "the first time, from the directory the caller chose, without contacting the network. An interrupted first "
     "download never leaves a truncated file in the cache that later calls would accept.",
     ["histories", "crash_points"],
     "for every data directory, every order of first and later fetches, and an interruption at any point",
     "There is no network in tests, so the first-download branch is only run against mocks, and never interrupted.",
     [FI, PE, DB],
     [("same parsing on both branches", FI + ":fetch_any, " + PE + ":fetch_health_app, fetch_canadian_tv"),
      ("partial file removed when writing it fails", PE + ":_write_cache"),
      ("cache directory chosen by the caller", DB + ":get_data_home")])

prop("C23", "Each column is discretised with its own cut points",
     "Cut points found for a column are stored under that column's name or position and applied to the same column at "
     "transform time, whatever the column order of the new data. Rows of features and labels are shuffled together, and "
     "the result keeps the caller's row and column order and labels.",
     ["inputs", "configurations"],
     "for every matrix or frame, column order, row index and number of jobs",
     "Tests transform the very frame they fitted, in the same column order and with a default index.",
     [MD],
     [("columns paired with their own results", MD + ":MDLPDiscretizer.fit"),
      ("columns selected by name", MD + ":MDLPDiscretizer.transform"),
      ("one permutation for features and labels", MD + ":MDLPDiscretizer.fit")])

prop("C24", "GraphMDL keeps a change only if the description length drops",
     "A candidate graph pattern stays in the code table only if the total description length computed with it is "
     "strictly smaller than the best so far, and a pattern is pruned for good only under the same condition. In every "
     "other case the code table is put back as it was before the trial, and the reported description length is that of "
     "the code table kept.",
     ["inputs", "histories"],
     "for every graph, time limit and sequence of candidate trials",
     "Tests run a few small graphs; a trial that is not undone on one exit (time limit, last candidate, tie) needs a "
     "specific search history.",
     [GM, CT],
     [("acceptance test and removal of rejected rows", GM + ":GraphMDL._anytime_graph_mdl_with_timeout"),
      ("pruned row put back", GM + ":GraphMDL._pruning"),
      ("ordered insertion and removal", CT + ":CodeTable.add_row, remove_row")])

prop("C25", "Data and file contents are never executed",
     "No content of a dataset, imported file, downloaded file, option value or event name is ever evaluated as program "
     "code, unpickled, or made part of a shell command. Imported pattern files are parsed as plain data only.",
     ["inputs"],
     "for every dataset, file and option value",
     "Tests use benign contents; only a hostile or unlucky value shows the difference.",
     [CY, RM, PE, FI, GU],
     [("JSON for pattern files", CY + ":import_patterns"),
      ("keys kept as tuples instead of evaluated text", RM),
      ("constant shell commands only", PE + ":fetch_ubiq")])

prop("C26", "Traversals are not disturbed by changes made during them",
     "No search or output loop adds entries to or removes entries from the very collection it is traversing, so no "
     "element is skipped, visited twice or turned into a runtime error. Loops that have to change their collection "
     "traverse a snapshot, or stop traversing right after the change.",
     ["inputs", "histories"],
     "for every loop of the library and every content of the collection",
     "On small data a skipped or repeated element usually changes nothing visible.",
     [UT, SL, LCM, RM, EX, CP, GM, CT, GU, PA],
     [("snapshot of the candidates", UT + ":bron_kerbosch"),
      ("keys to delete collected first", SL + ":SLIM.update, " + LCM + ":LCM.fit"),
      ("snapshot of rows to prune", GM + ":GraphMDL._pruning")])

# ---- listed, not claimed (see DESIGN.md) --------------------------------------------------------
prop("C40", "LCM finds all closed itemsets and LCMMax all maximal ones",
     "The itemsets reported for a dataset and threshold are exactly the closed (respectively maximal) frequent itemsets, "
     "each once.", ["inputs"], "for every dataset and threshold", "Finite samples only.",
     [LCM], [("prefix-preserving closure extension", LCM + ":LCM._inner")])
prop("C41", "Reconstruction gives back the mined data",
     "Reconstructing from a fitted SLIM model gives exactly the items of every training transaction, and the periodic "
     "miner's reconstruction together with its residuals gives exactly the input occurrences.",
     ["inputs"], "for every dataset", "Finite samples only.",
     [SL, CY], [("lossless cover", SL + ":SLIM.reconstruct"), ("occurrences plus residuals", CY + ":reconstruct, get_residuals")])
prop("C42", "Description lengths equal their definition",
     "Reported sizes and code lengths equal the two-part description length defined in the cited papers.",
     ["inputs"], "for every dataset and model", "Finite samples only.",
     [SL, PA, CT], [("size computation", SL + ":SLIM._compute_sizes, " + PA + ":codeLength, " + CT)])
prop("C43", "Fitting terminates and honours its time limit",
     "Every fit terminates on finite data, and a given time limit is exceeded by no more than one candidate evaluation.",
     ["inputs", "configurations"], "for every dataset and limit", "Running times are not bounded by any test.",
     [SL, GM], [("time test in the loop", SL + ":SLIM.fit, " + GM)])
prop("C44", "Discretisation cut points minimise class entropy",
     "Every cut point separates examples of different classes and minimises the class entropy of its interval among all "
     "boundary points, and recursion stops exactly by the MDL criterion.",
     ["inputs"], "for every feature vector and labelling", "Finite samples only.",
     [MD], [("cut point search and acceptance", MD + ":generate_cut_point, MDLPVectDiscretizer.evaluate")])
prop("C45", "Emerging patterns meet the growth-rate definition",
     "Every pattern reported as emerging has a support in one class that is at least the growth rate times its support "
     "in the other, and none is missed.",
     ["inputs"], "for every dataset, labelling and growth rate", "Finite samples only.",
     [MB], [("border difference", MB + ":border_diff, mbdllborder")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
