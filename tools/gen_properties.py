"""Writes /verif/properties.jsonl (kept as code so that the wording is reviewable)."""
import json, pathlib
S="src/kalmankit/standard.py"; X="src/kalmankit/extended.py"; U="src/kalmankit/utils.py"; V="src/kalmankit/_version.py"; I="src/kalmankit/__init__.py"
def m(*a): return [{"name":n,"where":w} for n,w in a]
def st(*a): return [{"name":n,"meaning":d,"where":w} for n,d,w in a]
P=[]
def add(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":mech,"observe_at":observe or [],"hook_needed":hook}})
add("C01","Online estimate is the exact conditional under unreliable delivery",
 "A standard filter that is driven step by step from unreliable sensors always holds the exact Gaussian conditional mean and covariance of the state given precisely the controls and measurements applied so far, for every time-varying linear model. Lost measurements, several measurements at one time step applied in any arrival order, late bursts, outliers, sensors of different dimension and several tracked objects served by one filter object never change that.",
 ["inputs","schedules","fault_sequences","histories"],
 "every linear-Gaussian model, every pattern of lost/duplicated/reordered/delayed measurement and control messages, every interleaving of several tracks on one filter object, every node crash and restart from a saved estimate",
 "The tests run one complete, in-order, loss-free batch per class with one model; no step is ever skipped, no step receives two measurements, no object serves two tracks.",
 [S,U],m(("predict step","standard.py: KalmanFilter.predict"),("update step, gain by linear solve","standard.py: KalmanFilter.update")),
 observe=["results of predict() and update()"])
add("C02","Extended filter follows the EKF recursion under unreliable delivery",
 "An extended filter driven step by step from unreliable sensors moves its estimate with the user's transition function and linearises it at the previous estimate with that step's control, and corrects with the user's observation function linearised at the predicted estimate, giving exactly the extended-Kalman estimate and covariance for what was applied. When the user's functions are linear the result is the standard filter's exact conditional, whatever was lost, delayed, reordered or repeated.",
 ["inputs","schedules","fault_sequences","histories"],
 "every differentiable model, every delivery pattern of measurement and control messages, every node crash and restart from a saved estimate, several sensors served by several filter objects sharing one estimate",
 "The tests use only linear model functions and one complete in-order batch; where a Jacobian is evaluated cannot matter there.",
 [X],m(("predict step with Jacobian at the previous estimate","extended.py: ExtendedKalmanFilter.predict"),("update step with Jacobian at the predicted estimate","extended.py: ExtendedKalmanFilter.update")),
 observe=["results of predict()/update()","arguments the user's functions receive"])
add("C03","Filtering can be split, crashed and resumed at any step",
 "Filtering a record in any number of consecutive pieces, each continued from the last saved estimate and covariance by a new filter (or by a saved and reloaded copy of the filter), gives the same estimates, covariances and gains as one uninterrupted pass, and as feeding the record one step at a time. This holds for both filters wherever the process is killed, also in the middle of a pass, provided the interrupted piece is run again from its saved start.",
 ["crash_points","inputs","histories"],
 "every record, every partition into pieces, every crash instant inside or between pieces, every choice of which checkpoint survived",
 "The tests make one pass over one record; nothing is resumed, so state that a pass keeps outside (estimate, covariance) or parameters taken from the wrong step are invisible.",
 [S,X],m(("recursion carries only estimate and covariance","filter() loops"),("row k uses the parameters of step k","filter() zip")),
 state=st(("xk, Pk","initial estimate and covariance a pass starts from","constructor of both filters")),observe=["filter()","kalman_gains"])
add("C04","Smoothing equals the full-record conditional, whatever else happens",
 "The smoother returns, for every step, the mean and covariance of the state given the whole record (for the extended filter: the extended Rauch-Tung-Striebel recursion, which coincides with it for linear models), and its last row is the filtered one. This holds with time-varying models and controls, whatever calls preceded it on the same filter object, whichever of them failed or was interrupted, and whatever other callers run at the same time.",
 ["inputs","histories","schedules","fault_sequences"],
 "every model, record and control sequence, every history of earlier (also failed) calls on the object, every interleaving with concurrent callers",
 "The smoothing tests run one call on a fresh object, single-threaded, with at most one five-step model.",
 [S,X],m(("backward recursion with step k+1 parameters","smooth() of both filters"),("forward pass","filter() of both filters")),observe=["smooth()"])
add("C05","Estimates depend only on data up to their step; streams may end anywhere",
 "The filtered estimate, covariance and gain of a step depend only on what was delivered up to that step: whatever is delivered later (corrupted, different or missing data, different model parameters) changes none of them, and a record that ends early, even before its first measurement, yields exactly the rows of the delivered part, from the filter and from the smoother of that part. With the standard filter no corruption of a measurement's value (outlier, infinity, NaN), at any step, alters any covariance or gain.",
 ["inputs","fault_sequences","crash_points"],
 "every record, every step at which corruption or end of stream strikes, every kind of corrupted value",
 "The tests run complete clean records and look at all rows at once; no test truncates or corrupts a stream.",
 [S,X,U],m(("rows written in step order from estimate k-1 and data k","filter() of both filters"),("loop length from the delivered data","filter()/smooth()")),observe=["filter()","smooth()","kalman_gains"])
add("C06","Concurrent calls on one filter behave as if each ran alone",
 "Any number of callers may run prediction, update, filtering and smoothing on one filter object at the same time, or re-enter it from a signal handler or a model function, and every call returns exactly what it would return if it ran alone on that object. No interleaving makes a call fail.",
 ["schedules","histories","inputs"],
 "every interleaving (at byte-code granularity) of any mix of calls on shared filter objects, every re-entry point",
 "The tests are single-threaded; no call ever overlaps another.",
 [S,X],m(("per-call local state only","predict/update/filter/smooth of both filters")),state=st(("filter object","model parameters shared by callers; only the gain log is written","both filters")),observe=["return values of all calls"])
add("C07","A failed or interrupted call leaves the filter as it was",
 "When a call fails (error raised by a model function, singular innovation covariance, mis-shaped data, exhausted memory, keyboard interrupt) at any instant, that same error reaches the caller, every public parameter of the filter is unchanged, and every later call behaves exactly as on a filter on which the failed call was never made. At most gains of update steps the failed call had reached are added to the gain log.",
 ["fault_sequences","crash_points","histories","schedules"],
 "every instant of every call, every error kind, every later history, also while other callers are running",
 "No test makes a call fail, so nothing after a failure is ever observed.",
 [S,X],m(("no writes to the object besides the gain log","filter/smooth/predict/update"),("errors are not caught","all methods")),observe=["raised exception","public attributes","later results"])
add("C08","The gain log holds exactly the gains of the updates performed",
 "Each completed measurement update adds exactly one entry, that update's Kalman gain, to the filter's gain log; the entries of one caller appear in the order of its updates, so that after one pass on a new filter entry k is the gain of step k. Nothing else adds, removes, reorders or changes entries, whatever other callers do at the same time and whichever calls fail.",
 ["schedules","histories","fault_sequences"],
 "every history and interleaving of calls, including failed and interrupted ones",
 "No test looks at the gain log.",
 [S,X],m(("one append per update","update() of both filters")),state=st(("kalman_gains","log of computed gains","both filters")),observe=["kalman_gains"])
add("C09","Callers' data and process-wide settings are never touched; results are owned",
 "No call modifies the arrays it is given or the arrays the filter was built from, not even temporarily as seen by another thread, and no call changes process-wide settings (floating-point error handling, warning filters, random generators, environment), whether it succeeds or fails. Returned arrays belong to the caller alone: they share no memory with inputs, the filter or other results, so overwriting them, or reusing an input buffer for the next record, influences no other result.",
 ["schedules","histories","fault_sequences","inputs"],
 "every interleaving point of every call, every failure point, every later reuse or overwriting of buffers",
 "The tests never compare inputs before and after, never reuse a buffer and never look at an intermediate instant.",
 [S,X,U],m(("pure array expressions, freshly allocated results","all methods")),observe=["input arrays at every scheduling point","memory overlap of results","process state"])
add("C10","Separate filters never influence each other; changed parameters take effect",
 "Filter objects are independent: no history of creating, using, copying, saving, reloading or discarding other filters, in any interleaving and with any garbage-collection timing, changes what a filter returns or logs. Each call uses the parameters and data in force when it is made, so a parameter replaced on a filter, or new data placed in a reused buffer, fully determines the next call's result.",
 ["histories","schedules","configurations"],
 "every history over several filters (including equal-shaped models and recycled memory addresses), every interleaving, every replacement of a parameter between calls",
 "Each test creates one filter and makes one or two calls with unchanging parameters.",
 [S,X],m(("all state in instance attributes, read on each call","both filters")),observe=["results of all calls of all filters"])
add("C11","A stalled, dying or re-entering caller never blocks the others",
 "If a caller is suspended at any instant of a call, is stuck inside one of its model functions, dies there, or re-enters the filter, all other callers still finish their calls on the same filter, with correct results, in a bounded number of their own steps; the suspended caller finishes once it is resumed.",
 ["schedules","fault_sequences"],
 "every suspension point, every stalled or dying model function, every re-entry point, every mix of other callers",
 "The tests have one caller that is never suspended.",
 [S,X],m(("no locks and no shared scratch state","both filters")),observe=["completion of the other callers' calls"])
add("C12","Reported uncertainty stays valid under every delivery pattern",
 "For well-conditioned models every reported covariance is symmetric and positive semi-definite within rounding, applying a measurement (also a duplicated or late one) never increases uncertainty, a step without measurement never makes it smaller than propagation of the model dictates, and smoothing never reports more uncertainty than filtering. This holds after every event of every run, however many messages were lost or repeated.",
 ["fault_sequences","inputs","histories"],
 "every well-conditioned model and every pattern of loss, duplication, bursts, outages and restarts",
 "The tests compare a few covariances of ten- and five-step complete records with fixed numbers.",
 [S,X],m(("covariance prediction and update","predict/update of both filters"),("smoothed covariance","smooth() of both filters")),observe=["covariances returned by all calls"])
add("C13","A missing control acts as no control, at exactly the steps it is missing",
 "With the standard filter, a step whose control is missing (no control matrix, no control sequence, None at a single step call, or an all-NaN entry for a lost control message) is handled exactly as a step with zero control, in prediction, filtering and smoothing, for data of every numeric type; all other steps use their control in full. The extended filter hands each step's control unchanged to the user's functions, in filtering and in smoothing alike.",
 ["fault_sequences","inputs","configurations"],
 "every pattern of lost control messages, every way of leaving control out, every numeric type of the data",
 "The tests use either zero control throughout or complete control; nothing is missing at single steps and all data is floating point.",
 [S,X,U],m(("missing control replaced by NaN and skipped","utils.py, standard.py: predict")),observe=["predict()","filter()","smooth()"])
add("C14","Importing the package survives every version-control failure",
 "Importing the package and asking for its version always succeeds and yields a non-empty version text, wherever it is installed and whatever the version-control tool does when it is consulted: absent, not executable, failing or killed at any of its invocations, producing empty, garbled or non-text output. When a failure hides information, the reported version is an explicit fallback or error marker, never a made-up release, and the environment is left as it was. An import that the user interrupts while the tool runs leaves the environment as it was too, and the next import succeeds.",
 ["fault_sequences","configurations"],
 "every sequence of failures over all invocations of the tool, every deployment kind and repository state",
 "No test consults the version; the test run itself only sees one healthy repository.",
 [V,I],m(("tool invocation and fallbacks","_version.py: run_command, git_pieces_from_vcs, get_versions"),("import-time use","__init__.py")),observe=["import kalmankit","kalmankit.__version__"])
add("C15","The reported version is the true one for the deployed source",
 "From a checkout the version is the nearest version tag without its prefix, followed by the number of commits since and the abbreviated commit (seven digits or more) when not exactly on it, and a dirty mark exactly when tracked files are modified; without version tags it is an explicit untagged version with commit count and abbreviated commit; the full revision and date are those of the checked-out commit. From an exported archive or a release-named directory it is the version recorded there, other tags and branches, hash randomisation and version-control settings inherited from the environment notwithstanding; it carries an explicit unknown marker when nothing is recorded.",
 ["configurations","histories","fault_sequences"],
 "every repository history (tags, branches, detached head, modifications), every deployment kind, every inherited environment, every hash seed, failures of optional lookups",
 "No test computes a version.",
 [V,I],m(("keyword, tool and directory lookups in this order","_version.py: get_versions"),("rendering","_version.py: render, render_pep440")),observe=["kalmankit.__version__","version information record"])
add("C16","Results are reproducible whatever the process environment does",
 "The same sequence of calls with the same data gives identical results in every process: hash randomisation, clock values and jumps, the state of global random generators, memory addresses and garbage-collection timing, thread identity and earlier unrelated work have no influence.",
 ["configurations","histories","schedules"],
 "every environment (hash seed, clock, generator state, allocation history, calling thread) and every call sequence",
 "Each test runs once in one process with a fixed hash seed.",
 [S,X,U],m(("results computed from arguments and parameters only","both filters")),observe=["bit patterns of all results and gains"])
add("C21","Finished calls leave nothing behind but their logged gains",
 "A filter object or process that lives for a long time keeps nothing of finished calls: once a call has returned, failed or been interrupted and its caller has dropped the data, results and error, nothing refers to them any more, and memory in use does not grow with the number of calls, apart from the entries of the gain log. A filter that is dropped is freed with its log, whatever calls were made, failed or were in progress on it before, and whichever threads made them.",
 ["histories","fault_sequences","schedules"],
 "every history of completed, failed, interrupted, re-entrant and concurrent calls on any number of filters",
 "Each test makes one or two calls and ends; nothing measures what they leave behind.",
 [S,X],m(("no state kept besides parameters and the gain log","both filters")),state=st(("kalman_gains","log of computed gains","both filters")),
 observe=["liveness of argument, result and error objects","memory in use between rounds of calls"])
# ---- properties this family does not decide
add("C17","Equivalent input layouts give equal results",
 "Scalar, one-element and full-matrix ways of writing the same one-dimensional model, and equal values in any memory layout or floating-point container, give equal results.",
 ["inputs"],"every equivalent representation of the same problem","The tests use one representation each.",[S,X,U],m(("broadcasting rules","all methods")))
add("C18","Numerical soundness for ill-conditioned models and very long records",
 "For nearly singular innovation covariances and arbitrarily long records the covariances stay symmetric positive semi-definite and the estimates stay within the backward error of the linear solves.",
 ["inputs"],"every ill-conditioned model, every record length","Ten steps, well-conditioned.",[S,X],m(("gain by linear solve","update()")))
add("C19","Inconsistent shapes and lengths are rejected rather than mis-computed",
 "Model and data arrays whose shapes or lengths do not fit together lead to an error, never to silently wrong estimates.",
 ["inputs"],"every inconsistent combination of shapes and lengths","No test passes inconsistent shapes.",[S,X],m(("none: the documentation leaves shape checking to the user","class documentation")))
add("C20","Examples and documentation snippets are correct uses of the package",
 "Every shipped example and documentation snippet runs and its models match the equations it states.",
 ["programs"],"every example and snippet","The tests do not run them.",["examples/moving_average.py","docs/source/quickstart.rst"],m(("example models","examples/")))
out=pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(p,ensure_ascii=False)+"\n" for p in P))
print(len(P))
