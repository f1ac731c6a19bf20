#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=hook)))

p("C01", "The library touches only memory it was given, on every history",
  "Whatever sequence of library calls is made, with whatever readings (NaN, infinities and extreme magnitudes included), training batches, text-buffer sizes and allocation failures, the library reads and writes only the caller's detector object, the caller's buffers within their stated sizes, and the memory it obtained from the registered allocator. It never performs an operation whose behaviour is undefined in C, and never modifies the training data.",
  ["histories", "inputs", "fault_sequences", "configurations"],
  "every interleaving of init/fit/step/query/free/text calls, every accepted configuration (capacity 1 upward), every reading value, every pattern of failing allocations",
  "The unit tests run one short happy-path history per function without a sanitizer; wrap-around, capacity 1, failed allocations, zero-sized text buffers and extreme arguments are never combined.",
  ["src/ubend.c", "src/peaks.c", "src/spot.c", "src/xmath.c", "src/p2.c", "src/allocator.c"],
  [("circular container cursor and capacity", "src/ubend.c ubend_push"), ("bounded string copy", "src/spot.c strncpy"), ("argument reduction of exp", "src/xmath.c xexp"), ("marker search", "src/p2.c quantile")],
  observe=["public C API", "registered allocator"])

p("C02", "Everything allocated is released exactly once, and only init allocates",
  "Every block obtained during the initialisation of a detector is handed back exactly once, unchanged and through the registered release function, when that detector is freed; an initialisation that fails keeps nothing. Training, stepping, querying and text calls neither allocate nor release, so memory use stays fixed however long the stream is.",
  ["histories", "fault_sequences"],
  "all call histories over several detectors with any allocation failing, and with freed detectors reinitialised",
  "Tests never count allocations, never fail one, and mostly leak on purpose.",
  ["src/allocator.c", "src/ubend.c", "src/peaks.c", "src/tail.c", "src/spot.c"],
  [("allocator indirection", "src/allocator.c xmalloc/xfree"), ("free chain", "src/spot.c spot_free")],
  observe=["registered allocator"])

p("C03", "Initialisation is all-or-nothing, and starts clean on any memory",
  "Initialisation succeeds exactly when 0 <= level < 1, 0 < q < 1-level, the capacity is at least one and representable, and memory was obtained; otherwise it returns the error code naming the cause (a NaN parameter counts as out of bounds). A call refused for its parameters changes nothing and allocates nothing, and a detector whose allocation failed can be freed or initialised again. After success the detector holds exactly the requested configuration, has seen no data and behaves the same whatever the memory it was placed in contained before.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "all parameter values including NaN/inf/boundaries and huge capacities, all previous contents of the memory, allocation failing or no allocator registered, repeated init/free cycles",
  "Tests try two bad parameter sets on a stack variable; no allocation failure, no reused memory, no NaN, no capacity edge.",
  ["src/spot.c", "src/tail.c", "src/peaks.c", "src/ubend.c", "src/allocator.c"],
  [("parameter guards", "src/spot.c spot_init"), ("field resets", "src/peaks.c peaks_init, src/ubend.c ubend_init")],
  observe=["spot_init result", "public structure fields"])

p("C04", "Each reading gets exactly the verdict its thresholds imply",
  "A NaN reading is refused with the NaN error; otherwise, when anomaly discarding is on, a reading strictly beyond the anomaly threshold in force is reported as an anomaly; otherwise a reading at or beyond the excess threshold is reported as an excess, and every other reading as normal. 'Beyond' means above for the upper-tail mode and below for the lower-tail mode, and the thresholds in force are those visible before the call; with discarding off, or before training, nothing is ever reported as an anomaly.",
  ["histories", "inputs", "configurations"],
  "every history that can precede the reading, every reading including exact boundary values, infinities and one-ulp neighbours, both tails, both discard modes",
  "Tests count verdicts on one Gaussian stream and never compare a single verdict with the threshold, never in lower-tail mode, never at a boundary.",
  ["src/spot.c"],
  [("verdict logic", "src/spot.c spot_step")],
  observe=["spot_step result", "anomaly_threshold", "excess_threshold"])

p("C05", "The counters conserve the readings that entered the model",
  "At any moment the number of seen data equals the size of the last training batch plus the number of readings since then judged normal or excess, and the number of excesses equals the training values strictly beyond the excess threshold plus the readings since then judged excess. Refused readings and anomalies are in neither count, and the counts stay exact over arbitrarily long streams.",
  ["histories", "inputs"],
  "all histories of training, retraining and readings with faults injected, including histories longer than 2^32 readings",
  "Tests never read the counters after a stream with NaN or anomalies; long histories cannot be reached by running them.",
  ["src/spot.c"],
  [("counter updates", "src/spot.c spot_fit, spot_step")],
  state=[dict(name="n", meaning="seen data", where="struct Spot"), dict(name="Nt", meaning="excesses", where="struct Spot")],
  observe=["n", "Nt"])

p("C06", "The tail keeps exactly the most recent excesses, oldest dropped first",
  "The retained excesses are always exactly the last min(k, capacity) of the k excesses observed since initialisation (training included), each stored as its distance to the excess threshold in force when it was observed. No excess is lost, duplicated or altered while it is among the most recent ones, and none survives longer.",
  ["histories", "configurations"],
  "all sequences of excesses around and across any number of wrap-arounds, every capacity from 1 upward, training batches larger or smaller than the capacity, retraining",
  "Tests push at most twice the capacity of one constant into a container and only look at its size.",
  ["src/ubend.c", "src/peaks.c", "src/tail.c", "src/spot.c"],
  [("circular container", "src/ubend.c ubend_push"), ("feeding", "src/spot.c spot_fit/spot_step")],
  observe=["retained excesses", "cursor/filled/capacity"])

p("C07", "Tail statistics always equal those of the retained excesses",
  "The running sum, sum of squares, minimum and maximum kept with the tail equal those of the excesses currently retained, up to rounding relative to the retained values. This holds after any number of evictions, whichever values leave the window, including after very large values have come and gone.",
  ["histories", "inputs"],
  "all push/evict sequences: ramps, ties, duplicates of the extremes, huge and tiny magnitudes, every capacity",
  "Tests check mean and variance only while the container fills, and after eviction only the mean of a monotone sequence; the variance after eviction is never looked at.",
  ["src/peaks.c", "src/ubend.c"],
  [("incremental accumulators with recomputation", "src/peaks.c peaks_push, peaks_update_stats")],
  state=[dict(name="e,e2,min,max", meaning="sum, sum of squares, extremes", where="struct Peaks")],
  observe=["tail statistics fields"])

p("C08", "Refused readings and anomalies leave no trace",
  "A reading that is refused (NaN) or reported as an anomaly leaves every observable part of the detector unchanged. Consequently any stream and the same stream with those readings removed give identical verdicts for the remaining readings and identical final thresholds, counters and retained excesses.",
  ["histories", "fault_sequences"],
  "all streams with missing readings and anomalies injected at any positions, in any number and burst length",
  "One test feeds a single NaN and checks only the return code; no test compares streams with and without the faulty readings.",
  ["src/spot.c"],
  [("early returns before any update", "src/spot.c spot_step")],
  observe=["all public fields", "verdict sequence"])

p("C09", "The tail model always fits the retained excesses at least as well as its rivals",
  "After every training and every excess whose retained excesses are finite and not degenerate (all equal or nearly so), the tail parameters are finite with a positive scale, give every retained excess a positive density, and are at least as likely (up to rounding) as both the exponential model and the moment-matching model of those same excesses. When the likelihood equation of those excesses has a stationary point that its standard search intervals clearly bracket, the parameters are at least as likely as that point too.",
  ["histories", "inputs", "configurations"],
  "all windows reachable by histories with spikes, stuck sensors, ramps, heavy, light and bounded tails, at any scale of the data",
  "The test fits nine fixed samples with 30 % tolerance; windows that went through eviction are never fitted.",
  ["src/tail.c", "src/estimator.c", "src/peaks.c", "src/brent.c", "src/xmath.c"],
  [("best-of-estimators by likelihood", "src/tail.c tail_fit"), ("moment estimator", "src/estimator.c mom_estimator"), ("root candidates", "src/estimator.c grimshaw_estimator"), ("root search", "src/brent.c brent")],
  observe=["tail gamma and sigma", "retained excesses"])

p("C10", "Thresholds are always the ones the current model implies",
  "After every successful training and every excess, the anomaly threshold is the quantile of the configured probability under the current tail model, it lies beyond (or at) the excess threshold whenever that probability is below the observed excess rate, and no other call changes it. The excess threshold changes only by training and lies within the range of a finite training batch (whose spread is representable); training reports success only if both thresholds are numbers and otherwise returns the error naming the one that is not.",
  ["histories", "inputs", "configurations"],
  "all histories of training, retraining, readings and queries with faulty readings and faulty (NaN, tiny, constant) training batches",
  "Tests check that training returns 0 on three clean distributions; no test relates the threshold to the model after a step, or trains on bad batches.",
  ["src/spot.c", "src/tail.c", "src/p2.c"],
  [("threshold refresh", "src/spot.c spot_fit/spot_step"), ("quantile", "src/spot.c spot_quantile"), ("training quantile", "src/p2.c")],
  observe=["anomaly_threshold", "excess_threshold", "spot_fit result"])

p("C11", "Quantile and probability queries are pure, consistent and bounded",
  "A query never changes the detector. For a detector with finite tail parameters and probabilities below the excess rate, the quantile equals the generalised-Pareto quantile of the current model, moves further into the tail as the probability decreases, and querying the probability of that quantile gives the probability back. The probability of any value at or beyond the excess threshold, however extreme, is a number between 0 and the excess rate, equal to the model's, never increasing as the value moves further out.",
  ["histories", "inputs"],
  "every detector state reachable by faulty histories, every query argument in the tail including values far beyond the support",
  "Tests compare quantiles with 10 % tolerance after one training and assert nothing about probabilities.",
  ["src/spot.c", "src/tail.c", "src/xmath.c"],
  [("closed forms", "src/tail.c tail_quantile, tail_probability"), ("exp/log/pow", "src/xmath.c")],
  observe=["spot_quantile", "spot_probability"])

p("C12", "Lower-tail mode is the exact mirror image of upper-tail mode",
  "A lower-tail detector fed the negated stream gives the same verdicts, counts, retained excesses and tail parameters as an upper-tail detector fed the stream, with thresholds and quantiles negated and probabilities equal, starting from mirrored thresholds. Training on a negated batch mirrors the excess threshold: exactly for five distinct values, and up to the approximation of the training quantile for larger batches.",
  ["histories", "inputs", "configurations"],
  "all histories with faults, all configurations, mirrored pairwise",
  "Lower-tail mode is only initialised and trained once in the tests, its results are never looked at.",
  ["src/spot.c", "src/p2.c"],
  [("sign constant", "src/spot.c spot_init, spot_fit, spot_step, spot_quantile, spot_probability")],
  observe=["verdicts", "thresholds", "tail"])

p("C13", "Detectors used from different threads never influence each other",
  "Distinct detectors may be initialised, trained, stepped, queried and freed by different threads at the same time without locking: under every interleaving each detector gives exactly the results it gives when its calls run alone. Concurrent queries on one detector that nobody is modifying likewise return exactly what they return alone.",
  ["schedules", "histories"],
  "every preemption of one call by calls on other detectors, at any memory access inside the library",
  "All tests are single-threaded with one detector.",
  ["src/spot.c", "src/tail.c", "src/peaks.c", "src/ubend.c", "src/estimator.c", "src/brent.c", "src/p2.c", "src/xmath.c", "src/allocator.c"],
  [("no mutable global state besides the registered function pointers", "src/allocator.c, src/xmath.c")],
  observe=["results of all calls"])

p("C14", "A detector restored after a crash continues exactly as if none happened",
  "All state of a detector is its structure and its buffer of retained excesses. A copy of both taken between any two calls and restored in a fresh process at other addresses (allocator registered again, later readings delivered again) yields exactly the verdicts, thresholds, query answers and retained excesses of the uninterrupted run, wherever the crash fell, even inside a call; equally, running the same history twice gives identical results.",
  ["crash_points", "histories"],
  "every checkpoint position and every crash position, including inside a call, in any history, repeatedly",
  "No test copies, relocates or restarts a detector, or compares two runs.",
  ["src/spot.c", "src/tail.c", "src/peaks.c", "src/ubend.c", "include/structs.h"],
  [("plain data structure with one owned pointer", "include/structs.h struct Spot")],
  observe=["results of all calls after restore"])

p("C15", "Replacing the float utilities with correct ones changes no result",
  "Once registered, the caller's exponent utilities are the ones used, a null argument keeps the utility already in place, and as long as they are correct (whatever they do where the C standard leaves them free, such as the exponent reported for infinities and NaN) every verdict, threshold, tail parameter and query answer is identical to that obtained with the built-in ones, whenever in the history they are registered.",
  ["histories", "configurations", "fault_sequences"],
  "every point of a history at which either or both utilities are replaced, every legal behaviour of the replacement",
  "No test registers float utilities.",
  ["src/xmath.c", "src/spot.c"],
  [("function pointers with defaults", "src/xmath.c internal_set_float_utils"), ("built-in frexp/ldexp", "src/xmath.c musl_frexp, musl_ldexp")],
  observe=["results of all calls", "calls to registered utilities"])

p("C16", "Every call finishes within a bound that does not grow with the stream",
  "Every call returns. A reading judged normal, anomalous or refused costs a constant amount of work whatever the history and capacity; a query costs a constant amount; an excess costs at most a constant times the number of retained excesses, and training at most that plus a constant for each value of the batch and a constant times the number of retained excesses for each excess it evicts, whatever the values are (infinities, ties, zero excesses and failed root searches included).",
  ["histories", "inputs", "configurations"],
  "all histories and values, in particular those for which the root search does not converge",
  "No test bounds the work of a call; the non-converging paths are never reached.",
  ["src/brent.c", "src/estimator.c", "src/tail.c", "src/spot.c", "src/peaks.c"],
  [("iteration cap of the root search", "src/brent.c BRENT_ITMAX"), ("update only on excess", "src/spot.c spot_step")],
  observe=["work per call"])

p("C17", "Once data leaves the window the model is as if it had never come",
  "When anomalies are not discarded, infinite or enormous readings may enter the tail; but once as many ordinary excesses as the capacity have followed, the tail statistics, parameters and anomaly threshold equal, up to rounding, those of a detector that has only ever seen the retained excesses with the same counts; ordinary data that has left the window is forgotten just as completely. From then on ordinary readings are judged against that recovered threshold.",
  ["histories", "fault_sequences"],
  "every burst of infinite, enormous or repeated readings at any position, followed by enough ordinary excesses, for every capacity",
  "No test feeds an extreme value into the tail, nor looks at the model after it has left.",
  ["src/peaks.c", "src/tail.c", "src/spot.c", "src/ubend.c"],
  [("statistics recomputed when an extreme is evicted", "src/peaks.c peaks_push")],
  observe=["anomaly_threshold", "tail"])

p("C18", "The Python detector is the C detector",
  "Any sequence of operations on Python detectors, with any sequence type and any numeric element type, gives the same verdicts, thresholds, query answers, retained excesses and attribute, dictionary and raw views as the same operations on the C library. Each operation takes effect as a whole, even when converting its arguments runs arbitrary Python code that uses the same detector or mutates the arguments.",
  ["histories", "inputs", "schedules"],
  "all operation sequences over several detectors, all kinds of argument objects, every re-entrant use while arguments are being converted",
  "The Python tests only check that nothing raises on numpy arrays and the length of one list.",
  ["python/libspotmodule.c"],
  [("argument conversion and delegation", "python/libspotmodule.c Spot_fit, Spot_step, Spot_quantile, Spot_probability"), ("views", "python/libspotmodule.c Spot_as_dict, Spot_excesses, Spot_raw, Spot_members")],
  observe=["Python API"])

p("C19", "A failing Python call raises, changes nothing, leaks nothing and never crashes",
  "A Python operation given an unusable argument (wrong type, failing conversion), refused by the library, or hit by an allocation failure at any point raises an exception naming the cause (the argument's own exception, RuntimeError with the library's message, MemoryError) rather than crashing or returning a value (the one exception: a NaN reading is reported by step's negative return code, as in C); when its arguments or memory are the cause the detector is left as it was. No sequence of operations, failing or not, creating, reinitialising, subclassing and dropping detectors and importing the module included, leaks memory or object references.",
  ["fault_sequences", "histories", "inputs"],
  "every position of a failing allocation or raising conversion in every operation, every bad argument, every object lifetime",
  "No Python test passes a bad argument, fails an allocation, or counts references.",
  ["python/libspotmodule.c"],
  [("error propagation", "python/libspotmodule.c"), ("deallocation", "python/libspotmodule.c Spot_dealloc")],
  observe=["Python API", "allocator hooks", "reference counts"])

p("C20", "The JavaScript detector is the C detector",
  "Any sequence of operations on JavaScript detectors gives the same verdicts, thresholds and query answers as the same operations on the C library, for training data held in any Float64Array view (including a view into part of a larger buffer), with the documented defaults. A call the library refuses throws an Error carrying the library's message and leaves the detector usable.",
  ["histories", "inputs"],
  "all operation sequences over several detectors, all views, all refused calls, all memory growths between calls",
  "The JavaScript tests (which need tools not available here) train once on a full array and check one bound.",
  ["wasm/index.ts", "wasm/main.c"],
  [("wrapped calls", "wasm/index.ts class Spot"), ("field offsets", "wasm/index.ts anomaly_threshold/excess_threshold")],
  observe=["JavaScript API"])

p("C21", "JavaScript detectors never leak or corrupt the module's memory",
  "Whenever the garbage collector finalises detectors, in any order and at any time, including ones whose construction failed, and whichever allocations fail, every block of module memory is released exactly once and only after its owner is unreachable; no call writes outside the blocks it allocated. A construction or training that cannot get memory throws.",
  ["schedules", "fault_sequences", "histories"],
  "every finalisation schedule interleaved with every operation sequence, every failing allocation, refused constructions and trainings included",
  "The JavaScript tests never fail an allocation, never trigger finalisation and never inspect the heap.",
  ["wasm/index.ts", "wasm/main.c"],
  [("finalisation registry", "wasm/index.ts freg"), ("temporary training buffer", "wasm/index.ts fit")],
  observe=["module heap", "finalisation callbacks"])

p("C22", "Verdicts do not depend on the unit or the origin of the data",
  "A detector fed the same history expressed in another unit (every value multiplied by the same power of two) gives exactly the same verdicts, counts and fitted shape, and its thresholds, scale and retained excesses are those of the first one in the new unit, as long as no value leaves the ordinary range of doubles. When every value is shifted by the same constant, exactly representable next to the data, the retained excesses and the fitted tail are the same and both thresholds move by that constant.",
  ["inputs", "histories"],
  "every history of trainings, readings and queries, every power-of-two unit and every exactly representable shift",
  "Tests use data of order one only: an absolute tolerance, floor or rounding hidden anywhere in the pipeline is invisible to them.",
  ["src/spot.c", "src/tail.c", "src/estimator.c", "src/brent.c", "src/p2.c", "src/peaks.c"],
  [("root search bounds", "src/estimator.c grimshaw_estimator"), ("tail quantile", "src/tail.c tail_quantile"), ("training", "src/spot.c spot_fit")],
  observe=["verdicts", "thresholds", "tail parameters", "retained excesses"])
p("C23", "Training leaves about the requested share beyond the excess threshold",
  "After training on a batch of distinct, light-tailed values that arrive in no particular order, the number of values beyond the excess threshold is close to (1-level) times the batch size, for every level, batch size and mode, and does not depend on what the detector or other detectors were trained on before; for exactly five distinct values the excess threshold is the middle one. The order in which the values of the batch arrive does not change that share materially.",
  ["inputs", "histories"],
  "every batch, order of arrival, level, mode and earlier history",
  "Tests try two distributions at one size with loose bounds on the markers, never through training.",
  ["src/p2.c", "src/spot.c"],
  [("P2 markers", "src/p2.c p2_quantile"), ("training", "src/spot.c spot_fit")],
  observe=["excess threshold", "number of excesses after training"])

p("N01", "Built-in log, exp and pow are accurate over their whole domain",
  "The built-in logarithm, exponential and power agree with the exact functions to about 1e-14 relative error over the whole double range, with the right results at zero, infinities and NaN.",
  ["inputs"], "every double", "Tests sample a table of a few hundred points.",
  ["src/xmath.c"], [("continued fractions", "src/xmath.c _log_cf_11, _exp_cf_6")])
p("N02", "The root search returns a root of any bracketed function",
  "For any continuous function whose values at the ends of the interval have opposite signs the search reports success and a point within tolerance of a root, otherwise it reports failure.",
  ["inputs"], "every function and interval", "Tests try six functions.",
  ["src/brent.c"], [("Brent's method", "src/brent.c brent")])
p("N04", "Every error code has a message, and texts are complete",
  "For every error code the library can return, the text call yields a non-empty message; version and license texts are returned truncated to the buffer and terminated.",
  ["inputs"], "every code and buffer size", "The test prints the messages without asserting anything.",
  ["src/spot.c"], [("message table", "src/spot.c libspot_error")])
p("N05", "The false-alarm rate on stationary data is about q",
  "On a long stationary stream the fraction of readings flagged as anomalies converges to the configured probability.",
  ["inputs", "histories"], "every stationary distribution in the domain of attraction", "Statistical: one seed proves nothing either way.",
  ["src/spot.c"], [("the algorithm", "src/spot.c")])
p("N06", "The distributed single header declares exactly the built library's interface",
  "The generated header declares the same structures, layouts, constants and prototypes as the library it is shipped with.",
  ["programs"], "every program compiled against the generated header", "No test compiles against it except the Python module.",
  ["Makefile", "include/spot.h", "include/structs.h"], [("header generation", "Makefile apify")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
