"""Write properties.jsonl and MANIFEST.json (one source for both)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, H, V, C, U = ("src/hmmlearn/base.py", "src/hmmlearn/hmm.py", "src/hmmlearn/vhmm.py",
                 "ext/_hmmc.cpp", "src/hmmlearn/utils.py")
E, S = "src/hmmlearn/_emissions.py", "src/hmmlearn/stats.py"
TU = "src/hmmlearn/_utils.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, note=None, observe=None,
         state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [
                  {"name": n, "where": w} for n, w in mech],
                  **({"state": [{"name": n, "meaning": x, "where": w}
                                for n, x, w in state]} if state else {}),
                  **({"observe_at": observe} if observe else {}), "hook_needed": None},
              "_note": note})


prop("C01", "Concurrent scoring and posteriors are exact",
     "For every valid model and data set, score, score_samples and predict_proba return the "
     "exact log-likelihood and posterior state probabilities of the model (to rounding), summed "
     "or concatenated over the given sequences, whichever of the two arithmetic implementations "
     "is chosen. This holds for every interleaving of any number of threads using the same or "
     "different models, and for every call that completes although other calls are failing "
     "half-way. Impossible data scores minus infinity in the logarithmic implementation, and "
     "the scaling implementation refuses rather than returns a wrong finite number.",
     ["schedules", "inputs", "configurations", "fault_sequences"],
     "all model families, covariance types, sizes, zero patterns, array layouts, sequence splits; "
     "all schedules of up to four client threads; failed allocations, interrupts and stalls",
     "the tests score a few fixed models on one thread; they never preempt a native pass and "
     "never fail an allocation inside one",
     [B, C, H, E, S, V], [("forward/backward passes", C), ("per-sequence summation", B),
                          ("emission likelihoods", E), ("Gaussian densities", S)],
     "reference: independent log-domain forward-backward")
prop("C02", "Concurrent decoding is optimal",
     "Viterbi decoding returns a state path whose joint log-probability with the data is the "
     "maximum over all paths and reports exactly that value; MAP decoding returns at every "
     "sample a state of maximal posterior probability. predict returns the same kind of path as "
     "decode with the model's own algorithm, and an algorithm named in the call overrides the "
     "model's. All of this holds for every interleaving of threads decoding at once, and for "
     "calls completing while others fail.",
     ["schedules", "inputs", "configurations", "fault_sequences"],
     "as C01, including ties, forbidden transitions and one-sample sequences",
     "the tests decode fixed examples with known paths, one thread at a time",
     [C, B], [("Viterbi recursion and backtracking", C), ("decoder choice", B)],
     "reference: independent max-product score of the returned path and of the optimum")
prop("C03", "Every training step equals exact re-estimation in every history",
     "Each completed training iteration of a non-variational model replaces exactly the "
     "parameters selected for fitting by the maximum-a-posteriori re-estimates under the "
     "documented priors, computed from the posteriors of the parameters the iteration started "
     "with, and leaves forbidden transitions forbidden. The log-likelihood recorded for the "
     "iteration is that of the starting parameters. This holds at every point of every history "
     "of fits, failed fits, reloads and restores, on every schedule of concurrent trainers.",
     ["histories", "schedules", "inputs", "configurations", "fault_sequences"],
     "all five families, four covariance types, both implementations, every parameter subset, "
     "scalar and array priors; histories of up to five operations with injected failures",
     "the tests check that fitting raises the likelihood or recovers parameters roughly, so a "
     "wrong statistic, prior or denominator passes; none checks a fit after a failed fit",
     [B, H, E, C], [("sufficient statistics", B), ("transition statistics", C),
                    ("M-steps", H), ("emission statistics", E)],
     "reference: closed-form EM step; states with vanishing mass and collapsed covariances "
     "are outside the claim; a mixture covariance may be centred on the previous or the new mean")
prop("C04", "Variational training updates exactly and its bound never falls",
     "Each completed training iteration of a variational model replaces exactly the posteriors "
     "selected for fitting by the conjugate updates computed under the current posteriors, and "
     "the fitted point estimates follow from them. The recorded lower bound changes by exactly "
     "the change of the evidence lower bound and never decreases. This holds in every history "
     "of fits, failures and reloads, on every schedule.",
     ["histories", "schedules", "inputs", "configurations", "fault_sequences"],
     "both variational families, four covariance types, both implementations, every parameter "
     "subset (covariances only together with means); histories with injected failures",
     "the tests check a few fits for a rising bound; a wrong term that keeps it rising passes",
     [V, C, "src/hmmlearn/_kl_divergence.py"],
     [("variational updates", V), ("lower bound", V),
      ("KL terms", "src/hmmlearn/_kl_divergence.py"), ("native passes", C)],
     "reference: conjugate updates and bound derived independently; the bound is compared up "
     "to an additive constant; monotonicity of the bound only where updates are exact "
     "coordinate ascent (not spherical/diagonal)")
prop("C05", "Training never lowers the likelihood, even when interrupted",
     "Under flat priors no training operation lowers the exact likelihood of the training data: "
     "neither a completed fit, nor a fit interrupted at an arbitrary point that leaves valid "
     "parameters behind, nor a resumed one. The recorded log-likelihoods of a fit are a "
     "non-decreasing sequence between the likelihoods before and after it.",
     ["crash_points", "histories", "inputs", "schedules", "fault_sequences"],
     "all five non-variational families, every parameter subset; interruption at every source "
     "line and failing allocation; histories of up to five operations",
     "the tests check monotone monitors on a few complete runs from good starting points",
     [B, H, E, C], [("EM loop", B), ("M-steps", H)],
     "oracle: exact likelihood of the parameters read back after every operation")
prop("C06", "A restarted training job continues the same trajectory",
     "A model serialised between training calls and loaded again carries everything training "
     "needs: fitting the loaded model gives the same parameters, convergence record and random "
     "state that fitting the original would give. Hence a job killed at any point and "
     "restarted from any checkpoint that had reached storage ends exactly where the "
     "uninterrupted job ends, and a truncated or corrupt checkpoint never becomes a model with "
     "other parameters.",
     ["crash_points", "histories", "fault_sequences", "schedules"],
     "kill at every source line or allocation during fit, write and load; torn, lost and "
     "short checkpoint writes; pickle protocols 2 to 5; all families",
     "one test pickles a fitted model and compares scores; none resumes training from it, "
     "and none kills anything",
     [B, H, V], [("constructor/attribute state", B), ("convergence monitor", B)],
     "storage is simulated; two checkpoint slots with a checksum")
prop("C07", "Failed training never leaves a silently broken model",
     "After a fit that failed at any point - interrupt, failing allocation, failing monitor, "
     "malformed data or lengths - inference either refuses or answers exactly for the parameters "
     "the model then shows; it never answers from missing, denormalised or half-written "
     "distributions. Malformed input is refused, data and constructor parameters are left as "
     "they were, and fitting again from scratch gives the same result as a fresh model.",
     ["crash_points", "fault_sequences", "histories", "inputs", "schedules"],
     "failure at every source line and allocation of fit, and of initialisation; all families; "
     "histories of several failures followed by queries and a refit",
     "the tests never interrupt a fit; their error tests check that an error is raised, not "
     "what the model is afterwards",
     [B, H, V, TU], [("validation before every use", B), ("initialisation", H),
                      ("length splitting", TU)],
     "oracle: reference evaluation of the parameters the model shows, and a fresh twin")
prop("C08", "Using a model never changes it, even when the use fails",
     "Scoring, decoding, posterior computation, sampling, information criteria, stationary "
     "distribution, copying, cloning, serialising and parameter inspection leave a model's "
     "parameters, constructor parameters and convergence record, and the caller's arrays, "
     "exactly as they were, also when the call fails half-way or runs beside others. Answers "
     "are the caller's own: overwriting them changes neither the model nor later answers. "
     "Repeating a use gives the same answer.",
     ["schedules", "crash_points", "fault_sequences", "histories"],
     "all families and read operations, killed at arbitrary lines and allocations, by up to "
     "four threads sharing the models (attributes given as lists become arrays at the first use)",
     "the tests never compare a model before and after use, nor after a failed use",
     [B, H, V], [("read paths", B), ("covariance accessors", H)],
     "sampling without an explicit seed advances a caller's generator and is excluded from "
     "repetition")
prop("C09", "A fixed seed fixes the result, whatever else happens",
     "Fitting or sampling with an integer seed gives the same result every time, "
     "and with a generator object the result is a function of that generator's state, whatever "
     "other threads train, sample, reseed or fail meanwhile. The process-wide random generators "
     "are neither read nor advanced by such calls. The seed or generator the user supplied stays "
     "the one the model holds, and no call changes what the model was configured with. A fit "
     "from scratch gives what a new model of the same configuration gives, whatever the object "
     "was fitted to or configured for before.",
     ["schedules", "histories", "fault_sequences", "configurations"],
     "all families and initialisations; noise clients that reseed and drain the global "
     "generators between any two lines; models fitted again, to other data, after failures and "
     "after set_params changed the numbers of states or components, the covariance type or "
     "the implementation",
     "the tests fit with a seed once or twice in a quiet process",
     [B, H, V], [("random-state handling", B), ("initial values", H)],
     "oracle: the same call made alone by a fresh model")
prop("C10", "Samples lie in the model's support and follow its law",
     "Every sampled state path has positive probability under the model and every observation "
     "positive probability in its state, for every value the random generator can return; the "
     "path starts in the state asked for when one is given. Samples have the requested length, "
     "documented shape and the law of the model, also from several threads sharing one model.",
     ["inputs", "schedules", "configurations", "fault_sequences"],
     "generator outputs including 0, the largest float below 1 and the exact boundaries of the "
     "cumulative distributions; all families; concurrent samplers; failed calls",
     "the tests draw a few ordinary samples and check shapes; boundary draws have "
     "probability about 1e-16 per draw",
     [B, H, V, E], [("state sampling", B), ("emission sampling", E)],
     "the law is tested by bounds with a per-run false-alarm probability below 1e-9, on "
     "seeded draws (a fixed seed is therefore deterministic)")
prop("C11", "A batch answers as its sequences do one by one",
     "Given several sequences with their lengths, scores are the sum, posteriors and paths the "
     "concatenation, and training statistics the sum of what the sequences give alone; nothing "
     "leaks across sequence boundaries and the order of the sequences does not matter. Lengths "
     "that do not partition the data - too short, too long, zero, negative or none - are refused "
     "by every operation.",
     ["inputs", "schedules", "histories", "fault_sequences"],
     "all families; permutations of up to eight sequences, including one-sample and impossible "
     "ones; concurrent batches; failed calls in between",
     "the tests use one or two splits with fixed data",
     [B, TU, C], [("sequence splitting", TU), ("accumulation over sequences", B)],
     "oracle: metamorphic (batch against singles) plus reference")
prop("C12", "Frozen parameters and forbidden transitions survive training",
     "Training changes only the parameters selected for fitting or initialisation: all others "
     "stay bit for bit as they were, through every history of completed, failed and interrupted "
     "fits and reloads. Start and transition probabilities that are zero stay zero in "
     "maximum-likelihood training.",
     ["histories", "crash_points", "configurations", "schedules", "fault_sequences"],
     "every subset of fitted and initialised parameters of all families; interruption at every "
     "line and allocation; histories of up to five operations",
     "the tests freeze a few parameters in complete single fits",
     [B, H, V], [("parameter selection", B), ("zero preservation", B)],
     "oracle: comparison of all readable parameters before and after every operation")
prop("C13", "Training stops exactly when its monitor says so; its record is true",
     "A fit performs at most the budgeted number of iterations and stops after the first one at "
     "which the gain drops below the tolerance, and its record holds exactly the per-iteration "
     "log-likelihoods (or bounds) in order, with nothing left from earlier fits. Budget and "
     "tolerance are the ones currently set on the model, a user's own monitor is consulted after "
     "every iteration and obeyed, and verbose output prints each record entry with its change. "
     "A failing monitor or output stream aborts the fit and nothing else.",
     ["histories", "configurations", "fault_sequences", "schedules"],
     "budgets 0 to 12, tolerances from minus to plus infinity and NaN; monitors set in four "
     "ways, user-defined, failing; failing stderr; concurrent trainers",
     "the tests check one verbose transcript and one convergence; stopping rules with reused "
     "monitors and failures are untested",
     [B], [("convergence monitor", B), ("EM loop", B)],
     "known finding: budget and tolerance assigned as attributes after construction")
prop("C14", "Models trained side by side do not influence each other",
     "Any number of models trained at once - also from shared data, lengths, prior and "
     "initial-value arrays, or as copies, clones or unpickled twins of one base model that "
     "others keep reading - end exactly as each would alone. Nothing shared is modified, "
     "not even by trainers that fail half-way.",
     ["schedules", "fault_sequences", "histories", "configurations"],
     "up to four trainers on one shared base, preempted at any line or native memory access, "
     "killed at arbitrary points",
     "the tests never run two models at once, and never check that prior arrays stay intact",
     [B, H, V, C], [("array ownership in constructors and updates", H),
                    ("thread-local native state", C)],
     "oracle: the same client's history run alone")
prop("C15", "A native pass never keeps other threads from running",
     "While one thread is inside a native pass over a long sequence, for as long as that takes, "
     "all other threads of the process go on and finish their work. The work a call does while "
     "holding the interpreter lock in native code does not grow with the length of the data, "
     "beyond the conversion of its inputs.",
     ["schedules", "fault_sequences", "inputs"],
     "passes frozen at any memory access for millions of steps, all seven native kernels, "
     "lengths up to several hundred samples",
     "no test runs two threads; a missing or misplaced lock release is invisible to them",
     [C], [("interpreter-lock release around the loops", C)],
     "measured as native events executed with the lock held, long against short input",
     None, [("interpreter lock", "held or released by the running thread", C)])
prop("C16", "Damaged stored distributions are refused, never used",
     "If the start or transition probabilities, categorical or multinomial emission probabilities or mixture "
     "weights of a (non-variational) model have been damaged - negative, not finite, not "
     "normalised, or of the wrong shape - every operation that would use them refuses before "
     "answering or training. Undamaged models answer exactly, whatever happened to others.",
     ["fault_sequences", "inputs", "schedules"],
     "bit flips, torn, lost and misplaced writes, zeroed pages, short reads of stored "
     "parameters, restored through the attributes or written in place; all operations",
     "the tests try a handful of wrong shapes and sums, mostly only before fit",
     [B, H], [("parameter validation", B), ("emission and weight validation", H)],
     "deviations within the documented tolerance of normalisation are not damage")
prop("C17", "Native passes touch only their own memory and never depend on stale data",
     "No call reads or writes outside the arrays involved or lets uninitialised memory influence "
     "a result, for any data, lengths or arrays a user's own emission model returns, whatever "
     "fails and however threads interleave; emission arrays that do not fit the model are "
     "refused. Repeating a call, completed or failed, does not accumulate memory.",
     ["inputs", "schedules", "fault_sequences"],
     "every array placed against an inaccessible page on either side and pre-filled with one of "
     "several patterns; odd layouts, types and shapes, one-sample sequences, malformed lengths; "
     "allocation failures inside native code",
     "the tests run on an ordinary heap where stray reads succeed and fresh memory is mostly "
     "zero; they never fail an allocation",
     [C, B], [("shape checks and loop bounds", C), ("array conversions", C)],
     "each scenario runs twice with different memory contents; crashes are violations")
prop("C18", "Every completed fit leaves a valid, usable model",
     "When a fit on non-degenerate data completes - from scratch, from given values or from a "
     "mixture of both, at any point of a history with failures - all distributions are "
     "non-negative and normalised, rates and means finite, covariances symmetric positive "
     "definite, and everything has its documented shape. The model, its serialised copy and a "
     "copy rebuilt from its public attributes all score, decode and sample, and agree.",
     ["inputs", "histories", "configurations", "schedules", "fault_sequences"],
     "all families, covariance types, initialisation subsets, budgets 0 to 10; ample, tiny, "
     "gridded and duplicated data; earlier fits interrupted at any point",
     "the tests fit a few well-separated data sets; initial values, never-visited states, "
     "rebuilt copies and fits after failures are not examined",
     [B, H, V, E], [("initialisation", H), ("normalisation", U), ("M-steps", H),
                    ("covariance accessors", H)],
     "rows of states that are never left may be zero (documented)")
prop("C19", "Emission models supplied by the user are served exactly",
     "A model whose emissions the user supplies by overriding the documented methods - the "
     "likelihood, the log-likelihood or both, the statistics, the M step, the check, the "
     "initialisation, the sampling - is scored, decoded, trained and sampled exactly as those "
     "overrides define it, in both implementations. Every E step hands each sequence over once, in "
     "order, with its exact posteriors; every iteration ends with one M step; a sample consists "
     "of what the override returned for the states reported. An exception raised by an override "
     "reaches the caller unchanged and leaves the parameters and the record of the last "
     "completed iteration, and attributes of the user's class survive saving and copying.",
     ["histories", "schedules", "inputs", "configurations", "fault_sequences"],
     "three emission families written as user code, each overriding one or both likelihoods; "
     "histories of fits, uses, edits and reloads; overrides that fail at any call; concurrent "
     "owners and readers; interrupts and failed allocations",
     "the tests define one or two stub models and call them once, without failures",
     [B, E, C], [("default of the other likelihood", B), ("E step", B), ("sampling", B)],
     "reference: independent EM and forward-backward, and the recorded calls of the overrides")
prop("C20", "Information criteria are exact in every history",
     "AIC and BIC equal their definitions: minus twice the exact log-likelihood of the "
     "parameters the model shows, plus two (AIC) or the logarithm of the number of samples "
     "given (BIC) for each free parameter of the model's family, covariance type and size. This "
     "holds for models trained, interrupted, edited, reloaded or merely assigned, for data "
     "other than the training data, and on every schedule.",
     ["histories", "schedules", "inputs", "configurations", "fault_sequences"],
     "all non-variational families, covariance types and parameter subsets, at every point of "
     "histories of fits, failed fits, edits and reloads; concurrent readers of shared models",
     "the tests check that criteria are positive",
     [B, E], [("information criteria", B), ("parameter counts", E)],
     "reference: independent likelihood and parameter counts")
prop("C21", "Kullback-Leibler divergences are exact",
     "The divergences between normal, Dirichlet, gamma and Wishart distributions equal their "
     "closed forms.", ["inputs"], "all valid distribution parameters",
     "a few values are tested", ["src/hmmlearn/_kl_divergence.py"],
     [("closed forms", "src/hmmlearn/_kl_divergence.py")])
prop("C22", "The stationary distribution is invariant in every history",
     "The stationary distribution of a model with a single recurrent class is the one "
     "distribution its present transition probabilities leave unchanged, whatever was trained, "
     "interrupted, edited or reloaded before and whatever runs beside; transitions that are no "
     "stochastic matrix are refused.",
     ["histories", "schedules", "inputs", "fault_sequences"],
     "dense, sparse, periodic and nearly reducible matrices of 1 to 80 states, at every point of "
     "histories of fits, failed fits, edits, damage and reloads; concurrent readers",
     "the tests check one random matrix",
     [B], [("eigenvector computation", B)],
     "reference: least-squares solution of the defining equations; matrices whose solution is "
     "not unique are skipped")

prop("C23", "Cost follows the data, not the history",
     "The work and the memory an operation needs grow at most in proportion to the number of "
     "samples given, however they are split into sequences, and do not grow with what was done "
     "before: no operation, completed or failed, makes later ones dearer or leaves behind in the "
     "model or the process anything that grows with use.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "all model families, both implementations, one long recording and many short sequences, at "
     "one, two and four times the data; repeated and ever new data; failed allocations between",
     "the tests use small data once and observe no cost",
     [B, C, H, V], [("per-sequence loops", B), ("linear-time passes", C),
                    ("statistics accumulation", H)],
     "cost is counted, not timed: native inner-loop steps, executed Python lines, bytes "
     "allocated through the simulated heap and their peak",
     observe=["simulated heap and step counters"])

NA = {"C21": "pure functions of their arguments, internal to the package; nothing for a simulator "
             "to decide (C04 exercises them inside the variational bound)"}

TECH = ("deterministic simulation with fault injection: seeded search over thread schedules, "
        "faults and histories, against a reference oracle")
COMMON = ("Seeded exploration of simulated runs: evidence, not proof. Real hmmlearn code, with "
          "the extension recompiled with yield points; scheduler, heap and storage simulated; "
          "numpy, scipy and scikit-learn trusted and atomic between yield points. ")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    run = "/opt/venv/bin/python -m sim.run "
    man = {"version": 1, "setup_cmd": "OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 /opt/venv/bin/python -m sim.selftest --quick",
           "checks": [{"property": p["id"], "quick_cmd": run + p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough " + run + p["id"],
                       "technique": TECH, "level": "exploration",
                       "level_note": COMMON + p["_note"] + "."} for p in P if p["id"] not in NA],
           "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
           "notes": "No hooks in /repo: yield points come from compiler instrumentation and "
                    "sys.monitoring, allocation and thread seams are the ones numpy, pybind11 "
                    "and CPython already have. Replay: /opt/venv/bin/python -m sim.run C01 "
                    "--replay FILE."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
