"""Source of properties.jsonl (kept as code so that claimed / not-applicable
lists in MANIFEST.json cannot drift from it)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
OVER = {"history": ["histories", "fault_sequences", "inputs"], "crash": ["crash_points", "histories", "fault_sequences"],
        "schedule": ["schedules", "fault_sequences", "configurations"], "input": ["inputs"]}


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, na=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": "what earlier steps of a run leave behind", "where": files[0]} for n in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": OVER[over], "text": text},
               "why_tests_cant": why, "anchors": a}, na))


SHALLOW = ["skada/base.py", "skada/_pipeline.py", "skada/_reweight.py", "skada/_mapping.py", "skada/_subspace.py", "skada/_ot.py",
           "skada/_self_labeling.py", "skada/_gradual_da.py", "skada/transformers.py"]
DS = ["skada/datasets/_base.py", "skada/datasets/_office.py", "skada/datasets/_office_home.py", "skada/datasets/_amazon_review.py"]
DEEP = ["skada/deep/base.py", "skada/deep/callbacks.py", "skada/deep/losses.py", "skada/deep/modules.py"]

p("H01", "Caller-owned data is never modified",
  "No library operation - fitting, evaluating, scoring, splitting, cross-validating, merging or packing data sets - changes the samples, labels, domain labels or weights arrays the caller passed in. This holds when the operation completes, fails, or is interrupted at any point, and also for arrays passed to earlier operations on the same object.",
  "history", "for every sequence of operations on every kind of object and every array layout, element type and domain arrangement, with a failure or interrupt at any line of any operation",
  "tests compare results, not inputs, and never interrupt an operation half way",
  SHALLOW + ["skada/metrics.py", "skada/model_selection.py", "skada/utils.py", "skada/datasets/_base.py"],
  [("label masking", "skada/base.py"), ("array checks, splitting and merging", "skada/utils.py"), ("scorers", "skada/metrics.py")],
  observe=["bytes of the caller's arrays after each operation"])

p("H02", "Refitting after any history equals a fresh fit",
  "Fitting an object gives the same model whatever happened to that object before: earlier fits on other data, evaluations, changed parameters, failed fits and fits interrupted at any point leave nothing behind, neither in its answers nor in its documented fitted attributes, and whether it was fitted with fit or fit_transform. After parameters are changed, the next fit behaves exactly like a new object built with those parameters.",
  "history", "for every estimator, adapter, selector and pipeline and every history of fits, evaluations, reconfigurations, failures and interrupts followed by one complete fit",
  "tests fit each object once, on one data set",
  SHALLOW, [("fitting", "skada/base.py"), ("adapters' fit methods", "skada/_mapping.py"), ("weight caches", "skada/_reweight.py")],
  state=["fitted attributes"], observe=["predictions, transforms, weights and scores after the final fit"])

p("H03", "Configuration is untouched by use and copies start clean",
  "Using an object never changes its constructor parameters nor modifies (fits, re-parametrises) the estimators and lists supplied to it. A copy made with clone at any moment - before, between, during failures of, or after fits - has the same configuration, including how target labels are masked, and behaves like a newly constructed object; objects built alike never share mutable configuration.",
  "history", "for every object, every history of uses, failures and interrupts, and every moment at which a copy is taken",
  "tests check clone on a few new objects, not after histories, and do not look at supplied estimators afterwards",
  SHALLOW, [("selectors' parameters", "skada/base.py"), ("pipeline construction", "skada/_pipeline.py")],
  observe=["get_params before and after", "behaviour of the copy"])

p("H04", "Evaluation is read-only and independent of call order",
  "What a fitted object returns from predict, predict_proba, decision_function, score, transform or weight computation depends only on the fit and on the arguments of that call. Other evaluation calls made before it - any number, in any order, on any data, completed or interrupted, on the same or rewritten buffers - make no difference.",
  "history", "for every fitted object and every sequence of evaluation calls with interrupts at any line",
  "tests make one or two evaluation calls per fitted object",
  SHALLOW, [("transform of already seen and new samples", "skada/_mapping.py"), ("subspace transforms", "skada/_subspace.py"), ("selector routing", "skada/base.py")],
  observe=["result of each call versus the same call made alone right after the fit"])

p("H05", "A saved model survives a process restart unchanged",
  "A fitted object saved at any moment of its life and restored after the process is gone answers every evaluation call exactly as the original did at that moment, and refitting it equals a fresh fit. What the original goes on to do after the save (further fits, failures) never changes the saved copy.",
  "crash", "for every fitted object, save format (pickle protocols, joblib with and without memory mapping, deep copy), save point in a history, and number of save/restore generations",
  "tests do not restart processes and hardly serialise anything",
  SHALLOW, [("fitted state", "skada/base.py"), ("adapters' fitted state", "skada/_mapping.py")],
  observe=["evaluation results in a fresh process image"])

p("H06", "Seeded work is reproducible and leaves process state alone",
  "An operation given an explicit random_state (splitters, generators, subsampling, scorers, adapters, cross-validation) returns the same result whatever the state of the process-wide random generators, even when something else draws from or reseeds them while it runs. No operation, completed or interrupted, changes process-wide state: random generators it was not asked to use, numeric error handling, library configuration, tensor defaults, working directory, environment.",
  "schedule", "for every seeded operation, every global random state, every placement of outside draws and reseeds between its lines, and every interrupt point",
  "a test sees one global random state and never looks at process-wide settings afterwards",
  SHALLOW + ["skada/model_selection.py", "skada/metrics.py", "skada/datasets/_samples_generator.py"],
  [("random_state handling", "skada/model_selection.py"), ("generators", "skada/datasets/_samples_generator.py"), ("random kernel centres", "skada/_reweight.py")],
  observe=["results under two global random states", "process-wide settings before and after"])

p("H07", "Target labels stay secret",
  "In a domain-adaptation pipeline with default masking, and in deep methods other than the target-only baseline, the values of target labels passed to fit never influence the fitted model, its predictions, transforms or weights, whatever was fitted before on the same object. Scorers documented as unsupervised give the same score whatever the target labels are.",
  "history", "for every pair of worlds that differ only in target labels (masked, flipped, shuffled, constant, random), every pipeline and every earlier history",
  "a test can show one leak for one data set; absence of influence is a statement about pairs of executions",
  ["skada/base.py", "skada/_utils.py", "skada/metrics.py", "skada/_pipeline.py"] + SHALLOW[2:],
  [("target label masking", "skada/base.py"), ("removal of masked samples", "skada/_utils.py"), ("unsupervised scorers", "skada/metrics.py")],
  observe=["all outputs in both worlds"])

p("H08", "A caching pipeline gives the same answers as an uncached one",
  "A pipeline with a result cache on disk gives the same fitted model and outputs as the same pipeline without one, on first use, on reuse, after changing data or parameters, and by another process. This still holds when earlier processes were killed at any point or the cache holds torn, truncated, missing or unwritable entries.",
  "crash", "for every pipeline, every history of fits by successive processes over one cache directory, with a kill at any line and damaged or unwritable cache files",
  "no test uses the cache at all",
  ["skada/_pipeline.py", "skada/base.py", "skada/transformers.py"], [("containers passed between steps", "skada/base.py"), ("memory argument", "skada/_pipeline.py")],
  state=["cache directory"], observe=["outputs with and without cache"])

p("H09", "A collaborator's failure is never silently absorbed",
  "When a numerical collaborator the library relies on - a base estimator, density or domain classifier, optimal-transport or linear-algebra solver - fails at any call, the operation either reports an error or its result is exactly what it would have been without the failure. Once the failure is gone, fitting again works as on a fresh object.",
  "history", "for every object, every operation, every collaborator call made during it and every kind of error raised there",
  "tests do not make collaborators fail",
  SHALLOW, [("calls to solvers", "skada/_mapping.py"), ("calls to weight estimators", "skada/_reweight.py"), ("calls to base estimators", "skada/base.py")],
  observe=["outcome of the operation", "result of a retry"])

p("H10", "Every sample keeps its own row, domain, label and weight",
  "Selectors, pipelines and adapters train each estimator on exactly the samples of its domain (or side), each with its own label and weight, masked ones left out for plain estimators, in their order of arrival; and the i-th row of every transform, prediction or weight belongs to the i-th sample given. Scorers weigh each sample's own error; splitting by domain and merging again gives every sample back unchanged, in place. This holds for every interleaving in which the samples of the domains arrive, every number and naming of domains, and after any history of fits, interrupted fits, evaluations, copies and restores.",
  "history", "for every chain of selectors and adapters, every arrival order of the domains' samples, every pattern of masked labels, and every earlier history with failures injected at any line",
  "tests use one block of source samples followed by one block of target samples, where a mix-up of rows stays invisible",
  SHALLOW, [("selection and merging of domain outputs", "skada/base.py"), ("removal of masked samples", "skada/_utils.py"), ("row bookkeeping of adapters", "skada/_mapping.py"), ("label propagation", "skada/_ot.py")],
  observe=["what each inner estimator was trained on", "outputs row by row versus a reference model", "outputs under another arrival order"])

p("H11", "Classes keep their names",
  "A fitted classifier only ever predicts classes of its latest fit, and renaming the classes (keeping their order), or giving them in another array type, renames the predictions and propagated labels and changes nothing else, scores included, whatever classes the same object was fitted with before and however those fits ended.",
  "history", "for every estimator and pipeline, every naming of the classes, and every earlier history of fits on other class sets with failures injected at any line",
  "tests use the classes 0 and 1 nearly everywhere, and one fit per object",
  SHALLOW, [("label encoding", "skada/_ot.py"), ("label handling in self-labelling", "skada/_self_labeling.py"), ("selectors", "skada/base.py")],
  observe=["predicted labels after the history versus the same data with plain class names"])

p("H12", "Model selection judges every candidate on exactly its own split",
  "Cross-validation and grid or random search with the library's pipelines and deep methods, splitters and scorers give, for every candidate and split, the score of a model fitted on exactly that split's training samples - each with its own domain, label and weight - and judged on exactly the rest with theirs; no sample both trains and judges in one split. A failing fit or score affects its own entry only, the chosen candidate has the best mean score, and the refitted model equals one fitted on all the data. This holds whatever fits, splits, scorings and searches, completed or interrupted, used the same objects earlier, and for copies and restores of them.",
  "history", "for every pipeline, splitter, scorer and search, every data set, every failing candidate, and every earlier history of the same objects with failures injected at any line",
  "tests check that scores are finite for a few combinations on one data set, never which samples, domains or weights reached which fit or score",
  ["skada/model_selection.py", "skada/metrics.py", "skada/base.py", "skada/_pipeline.py"],
  [("splitters", "skada/model_selection.py"), ("scorers' metadata requests", "skada/metrics.py"), ("metadata requests of selectors", "skada/base.py"), ("pipeline assembly", "skada/_pipeline.py")],
  observe=["scores, splits, fitted models and the refitted model of a search versus the same fits and scores made one by one with new objects in a fresh process"])

p("C01", "Concurrent evaluation of one fitted object is sequential",
  "When several threads evaluate the same fitted object at the same time (predict, predict_proba, decision_function, score, transform, weights), every call returns exactly what it returns when made alone, under every interleaving. Afterwards the object still behaves as before.",
  "schedule", "for every fitted object, two to four concurrent evaluation calls on equal or different data and every interleaving of their lines",
  "thread interleavings inside one call are not controlled by tests; a run rarely hits a bad one",
  SHALLOW, [("transforms", "skada/_mapping.py"), ("subspace transforms", "skada/_subspace.py"), ("selector routing", "skada/base.py"), ("weights", "skada/_reweight.py")],
  observe=["each concurrent call's result versus alone"])

p("C02", "A scorer shared by concurrent workers gives each the right score",
  "One scorer object used at the same time by several threads, on different estimators and data, returns to each call the score that call gets when made alone, under every interleaving. Scoring also leaves the scored estimator and the scorer as they were.",
  "schedule", "for every scorer, two to four concurrent scoring calls on different estimators and data, and every interleaving of their lines",
  "tests score sequentially", ["skada/metrics.py"],
  [("scorers", "skada/metrics.py")], state=["attributes of the scorer"], observe=["each score versus alone"])

p("C03", "Model selection does not depend on the worker schedule",
  "Cross-validation and grid search with parallel workers give exactly the results of the sequential run - scores, chosen parameters, refitted model - under every assignment and interleaving of workers, with shared or read-only data. A worker whose fit fails affects only its own entry.",
  "schedule", "for every pipeline, splitter, scorer, number of workers, batch size and interleaving, with failures injected in chosen worker tasks",
  "tests run with one worker", ["skada/metrics.py", "skada/model_selection.py", "skada/base.py", "skada/_pipeline.py"],
  [("splitters", "skada/model_selection.py"), ("scorers", "skada/metrics.py"), ("cloning of selectors", "skada/base.py")],
  observe=["cross-validation tables versus sequential"])

p("C04", "Objects that share nothing do not interfere",
  "Fitting and using different objects at the same time in different threads gives each exactly what it gets alone, under every interleaving, also when they were cloned from one prototype or built from the same supplied estimator or data arrays.",
  "schedule", "for every two to four objects (same or different kinds, possibly sharing a prototype, a supplied estimator or input arrays) and every interleaving of their operations",
  "tests never run two fits at once", SHALLOW, [("class- and module-level state", "skada/_subspace.py"), ("pipeline construction", "skada/_pipeline.py"), ("selectors", "skada/base.py")],
  observe=["each object's results versus alone"])

p("C05", "Split iterators are independent of how they are consumed",
  "With an integer random_state every iteration over a splitter yields the same train and test indices, whether iterators of the same splitter are consumed one after the other, interleaved, from several threads, abandoned half way, or interrupted by errors. The sequence also equals that of a new splitter in a new process.",
  "schedule", "for every splitter, configuration, number of concurrent iterators and interleaving of their steps, with abandoned and interrupted iterators",
  "tests iterate once from start to end", ["skada/model_selection.py"], [("splitters", "skada/model_selection.py")],
  observe=["index sequences"])

p("F01", "A data set loader never returns damaged or partial data",
  "Whatever happened to earlier fetches into the same folder - network errors, corrupted or truncated downloads, full disk, a kill at any point - a fetch that returns gives exactly the published samples, labels and domains; otherwise it raises an error.",
  "crash", "for every loader, every history of fetch attempts with a fault at any network or file operation or a kill at any of them",
  "the loaders need the network; tests of them are not run and cannot place faults", DS,
  [("download and extraction", "skada/datasets/_office.py"), ("download and extraction", "skada/datasets/_office_home.py"), ("download and extraction", "skada/datasets/_amazon_review.py"), ("data folder", "skada/datasets/_base.py")],
  state=["data folder"], observe=["returned arrays versus the published archive"])

p("F02", "The data set cache heals once faults stop",
  "After any history of failed, interrupted or killed fetches, one fault-free fetch succeeds and returns the full data, and from then on fetches succeed without touching the network. No manual clean-up is ever needed.",
  "crash", "for every loader and every history of faults and kills followed by one fault-free attempt",
  "the stuck state needs a fault at one exact place", DS,
  [("download guard", "skada/datasets/_office.py"), ("download guard", "skada/datasets/_office_home.py"), ("download guard", "skada/datasets/_amazon_review.py")],
  state=["data folder"], observe=["outcome of the first fault-free fetch, network calls of later ones"])

p("F03", "Concurrent fetches of one data set do not disturb each other",
  "Several threads or processes fetching data sets into the same folder at the same time all either return the full correct data or raise an error caused by an injected fault, under every interleaving, and leave a folder from which later fetches succeed.",
  "schedule", "for two to three concurrent fetches of the same or different data sets and every interleaving of their file operations, with and without a kill of one of them",
  "tests fetch sequentially, if at all", DS,
  [("download and extraction", "skada/datasets/_office.py"), ("download and extraction", "skada/datasets/_office_home.py"), ("download and extraction", "skada/datasets/_amazon_review.py")],
  state=["data folder"], observe=["each fetch's outcome"])

p("F04", "Fetching without download permission stays offline and harmless",
  "With downloading disabled a loader never touches the network: it returns the full data if it is there and otherwise raises an error, and in neither case changes what is on disk in a way that alters later fetches.",
  "history", "for every loader and every state of the data folder reachable through faults and kills",
  "needs many partial folder states", DS,
  [("download guard", "skada/datasets/_office.py"), ("download guard", "skada/datasets/_office_home.py"), ("download guard", "skada/datasets/_amazon_review.py")],
  state=["data folder"], observe=["network calls", "outcome of later fetches"])

p("D01", "Data set containers follow their model through any history",
  "A multi-domain data set container always equals the plain list of domains that were successfully added: selecting, merging and packing return exactly those samples with the documented domain signs and masking, repeated calls return the same, failed operations change nothing, and containers derived from one another do not affect each other.",
  "history", "for every sequence of add, merge, select, pack and unpack operations with failing operations and interrupts mixed in, on data with and without labels",
  "tests pack a couple of fixed containers", ["skada/datasets/_base.py"],
  [("adding and merging domains", "skada/datasets/_base.py"), ("packing", "skada/datasets/_base.py")],
  state=["domain names and contents"], observe=["packed arrays versus a reference model"])

p("T01", "Batches mix domains as promised under any consumption",
  "Every batch served for deep adaptation training is balanced between source and target (or restricted to one side) as its sampler promises, every index is valid, each epoch covers the larger side, and all this holds for every random stream and when several iterators are consumed interleaved, restarted or abandoned. Reported lengths match what is served.",
  "schedule", "for every domain arrangement, batch size, sampler, drop or wrap policy and interleaving of several iterators with abandoned epochs",
  "tests iterate one loader once with one seed", ["skada/deep/base.py", "skada/deep/utils.py"],
  [("samplers and loaders", "skada/deep/base.py")], observe=["indices and batches served"])

p("T02", "Evaluating a deep model is read-only, alone or concurrently",
  "Prediction, probability, feature extraction and scoring (by the model's own score or by an unsupervised scorer) with a fitted deep model change neither its parameters, its normalisation statistics, its optimizer, the state it carries nor later training, and return the same for the same input in any order, when interrupted, and when several threads evaluate at the same time.",
  "schedule", "for every deep method, every sequence or interleaving of evaluation calls and interrupts at any line",
  "tests make one prediction after one fit", DEEP, [("inference and feature hooks", "skada/deep/base.py")],
  state=["module parameters and buffers", "captured intermediate features"], observe=["outputs versus alone", "module state"])

p("T03", "Deep training survives interrupts and restarts",
  "A deep model fitted anew with fixed seeds gives exactly what a newly built one given the same modules gives, after any history on that object (earlier fits, continued training, clones, interrupts at any point). Saved and restored in a new process it predicts and continues training the same. Models trained earlier or at the same time in the process make no difference, supplied lists of callbacks are not changed, and training never resets the process-wide random generators.",
  "history", "for every deep method and every history of fits, interrupts, saves and restores",
  "tests fit once per object", DEEP, [("fit and initialisation", "skada/deep/base.py"), ("intermediate feature hooks", "skada/deep/base.py")],
  state=["module parameters", "hooks", "callbacks"], observe=["predictions and losses after a new fit"])

p("T04", "State carried between training batches follows its definition",
  "Memory banks, class centroids, epoch counters and schedules that deep methods carry across batches and epochs hold exactly what their definition gives for the batches seen in this fit - whatever the batch order and sizes - and start afresh with every new fit, also after an interrupted one.",
  "history", "for every sequence of batches, epochs, fits and interrupts",
  "tests run one or two epochs and check that nothing crashes", ["skada/deep/losses.py", "skada/deep/callbacks.py", "skada/deep/_graph_alignment.py", "skada/deep/_class_confusion.py", "skada/deep/_divergence.py", "skada/deep/_adversarial.py"],
  [("memory bank", "skada/deep/callbacks.py"), ("centroids", "skada/deep/callbacks.py"), ("epoch counter", "skada/deep/callbacks.py")],
  state=["memory bank", "centroids", "epoch counter"], observe=["carried state versus a reference model"])

p("T05", "Deep data sets follow their model through any history",
  "A data set prepared for deep adaptation always equals the list of (sample, domain, label, weight) rows that were successfully put in, in order: merging, adding domains or weights, selecting, filtering and indexing return exactly the corresponding rows, failed operations change nothing, and derived data sets do not affect each other.",
  "history", "for every sequence of construction, merge, selection, weighting and indexing operations, valid and failing, over arrays, tensors, dictionaries and frames",
  "tests cover each operation once", ["skada/deep/base.py"],
  [("deep data set", "skada/deep/base.py")], state=["stored tensors"], observe=["rows versus a reference model"])

p("T06", "Each sample counts with its own weight, on its own side, in deep training",
  "In training and scoring a deep method, every sample counts with exactly its own weight: weights of 1 equal no weights, labels of samples of weight 0 do not matter to the classification loss, weights that depend on the class equal class weights in the loss, and weights of the side whose labels are not trained on change nothing. Only the side of a domain matters, not its label: naming source domains by any numbers from 0 up and target domains by any negative numbers trains the same model. This holds for every method, every form in which samples and weights are given (arrays, tensors, dictionaries, data sets), and whatever the same object was trained on before, with or without weights, completed or interrupted.",
  "history", "for every deep method, every form of the samples, every naming of the domains, and every earlier history of weighted and unweighted trainings with failures at any line",
  "tests give constant weights to one method with domains 1 and -2, and compare no trained model with another",
  DEEP + ["skada/deep/_adversarial.py", "skada/deep/_baseline.py"], [("weighted loss", "skada/deep/base.py"), ("domain-aware criterion", "skada/deep/base.py"), ("weighted score", "skada/deep/base.py"), ("conditional adversarial module", "skada/deep/_adversarial.py")],
  state=["parameters, history, carried state of the method"], observe=["the trained model and its losses versus an equivalent training in a fresh process", "weighted score versus the predictions"])

NA = [
    ("N01", "Optimal-transport mappings move mass between the right marginals", "For every source and target sample set, the transport plans behind the mapping adapters have the documented marginals, and mapped source samples are the documented barycentric images.",
     ["skada/_mapping.py"], "barycentric mapping"),
    ("N02", "Second-order alignment matches the target statistics", "After correlation or linear Monge alignment the mean and covariance of adapted source samples equal those of the target up to the regularisation used.",
     ["skada/_mapping.py"], "covariance alignment"),
    ("N03", "Importance weights are non-negative and normalised", "For every source and target sample set, every reweighting adapter gives finite non-negative source weights with the documented normalisation, and higher weight where the target is denser.",
     ["skada/_reweight.py"], "weight computation"),
    ("N04", "Splits are disjoint, complete and stratified as documented", "For every sample set, each split's train and test indices are disjoint, in range, of the requested size, and respect domains and stratification.",
     ["skada/model_selection.py"], "split computation"),
    ("N07", "Constrained solvers return feasible, near-optimal points", "For every quadratic programme or linear-constrained problem, the bundled solvers return a point that satisfies the constraints and is optimal up to the stated tolerance.",
     ["skada/utils.py"], "solvers"),
    ("N08", "Losses and scores equal their published formulas", "For every input, the adaptation losses and scorers return the value their cited definition gives.",
     ["skada/metrics.py", "skada/deep/losses.py"], "formulas"),
    ("N09", "Invalid input is rejected", "Malformed samples, labels or domain labels are rejected with an error rather than producing a result.",
     ["skada/utils.py"], "input checks"),
    ("N10", "Generated data sets have the requested shape and shift", "For every parameter set, generators return the requested numbers of samples, classes and domains with the requested kind of shift.",
     ["skada/datasets/_samples_generator.py"], "generators"),
]
NA_REASON = "a pure function of one call's arguments: no schedule, clock, I/O, crash or history enters it, so simulated schedules and faults have nothing to vary (what histories, faults and concurrency can do to it is claimed under H, C and T properties)"
for id, title, st, files, mech in NA:
    p(id, title, st, "input", "for every admissible input", "tests sample a few inputs", files, [(mech, files[0])], na=NA_REASON)


PENDING = "no check built yet"
LEVEL_NOTE = {
    "H": "Seeded search over histories, faults and restarts of the real code in one simulated process; a violation is a concrete replayable run. Absence of violations covers only the runs explored (counts in the evidence file). Trusts numpy, scipy, scikit-learn and POT, and the tolerance 1e-6 used to compare numbers.",
    "C": "Seeded search over thread interleavings at the granularity of the library's own source lines (calls into numpy, scipy, POT and scikit-learn are atomic); one seed is one schedule. Covers the schedules explored, not all of them.",
    "F": "Seeded search over fault sequences placed on the real loader code, with a simulated network and real files in a private scratch folder. Covers the sequences explored.",
    "D": "Seeded search over operation histories with interrupts against a small reference model.",
    "T": "Seeded search over histories, faults, restarts and interleavings of the real deep-learning code on CPU with one torch thread.",
}
TECH = {
    "H": "deterministic simulation: seeded histories with faults and restarts injected at source-line instants, compared with a reference execution",
    "C": "deterministic simulation: seeded thread schedules over source-line instants, checked against the sequential execution",
    "F": "deterministic simulation: seeded network, file-system and crash faults over a simulated network and scratch disk",
    "D": "deterministic simulation: seeded operation histories with injected faults, refinement against a reference model",
    "T": "deterministic simulation: seeded histories, interrupts, restarts and schedules of deep models, checked against a reference execution",
}


def main():
    sys.path.insert(0, HERE)
    from props import REGISTRY
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d, _ in P:
            f.write(json.dumps(d) + "\n")
    na = [{"property": d["id"], "reason": r} for d, r in P if r]
    checks = []
    for d, r in P:
        if r:
            continue
        i = d["id"]
        if not os.path.exists(os.path.join(HERE, "props", REGISTRY[i][0] + ".py")):
            na.append({"property": i, "reason": PENDING})
            continue
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": TECH[i[0]], "level": "exploration", "level_note": LEVEL_NOTE[i[0]]})
    m = {"version": 1, "setup_cmd": "python3 check.py --setup",
         "hooks": {"guard": "SKADA_VERIF", "enable": "no hooks are needed: the simulator drives the shipped code through interpreter line events, the network seam of scikit-learn and process forks", "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "See DESIGN.md. Replay a violation with: python3 check.py --replay FILE."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
