#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the records stay
readable and reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

prop('C01', 'Parallel evaluation returns the serial numbers',
 "From the same random state and arguments, sm_uncertainty, np_uncertainty, sm_covariance and likelihood_contour_data return the same numbers for every number of worker processes (also more workers than points) and for every order in which workers take up and finish their share of the points. This includes a pool supplied by the caller, new-physics points, positional and keyword observable arguments, subsets of varied parameters, and every log-likelihood function that can be evaluated in a worker.",
 ['schedules', 'inputs', 'configurations'],
 "all worker counts, chunkings, assignments of chunks to workers and completion orders; all observables/arguments, par_vary subsets, Wilson points, pools and grid shapes",
 "Tests run threads=1 and one threads=4/2 call per function, on one machine-chosen schedule, and compare one or two observables; worker count, chunk assignment and completion order are not under test control.",
 ['flavio/functions.py', 'flavio/plots/plotfunctions.py', 'flavio/statistics/likelihood.py'],
 [('random points are drawn once in the parent, evaluation is mapped over them in order', 'flavio/functions.py: np_uncertainty, sm_covariance'),
  ('positional arguments are converted to keywords for the workers', 'flavio/functions.py: np_uncertainty'),
  ('grid flattened row-major for the pool and reshaped', 'flavio/plots/plotfunctions.py: likelihood_contour_data')],
 [('numpy global generator', 'all random points come from it, in the parent', 'flavio/classes.py: Constraints.get_random_all')],
 ['return values of the four functions'])

prop('C02', 'A failed parallel evaluation is reported and leaves nothing behind',
 "If the evaluation of any point of a parallel computation fails in a worker, or the workers cannot be started or fed, the call raises the error; it never returns a result computed from fewer or altered evaluations. After the call, whether it succeeded or failed, no worker process or open pool started by flavio is left, and later serial and parallel calls return what they would have returned otherwise.",
 ['fault_sequences', 'schedules'],
 "every subset of failing points, failing start of the workers, unpicklable work, at every position in every worker schedule, repeated within one session",
 "No test makes a worker fail; leaks and silently dropped points only show up when a particular point fails under a particular schedule.",
 ['flavio/functions.py', 'flavio/plots/plotfunctions.py'],
 [('errors are re-raised by the pool result', 'flavio/functions.py: np_uncertainty, sm_covariance'),
  ('pool is closed and joined', 'flavio/functions.py, flavio/plots/plotfunctions.py: likelihood_contour_data')],
 [('worker pool', 'processes owned by the running call', 'flavio/functions.py')],
 ['raised exceptions, live pools after each call, later results'])

prop('C03', 'Reported citations depend only on the computation',
 "The set of papers collected for a computation is exactly the set the same computation collects on its own in a fresh session: it does not depend on what was computed before, on warm caches, on the number of worker processes or on their schedule (a likelihood that reuses the predictions of its last point computes nothing). A collection scope records what is computed inside it (in the parent and in workers started inside it) and nothing else, leaves the enclosing collection untouched, and the enclosing collection is the active one again when the scope ends, also when scopes are nested or the computation inside fails; clear and reset affect only the active collection.",
 ['histories', 'schedules', 'fault_sequences'],
 "all sequences of predictions, uncertainty/covariance computations (serial and parallel), scopes, resets and failures; all observables",
 "Tests look at one observable in one process with a cold cache and never interleave scopes, failures, workers and repeated evaluations.",
 ['flavio/citations.py', 'flavio/classes.py', 'flavio/functions.py', 'flavio/physics'],
 [('shared-memory flag array inherited by forked workers', 'flavio/citations.py: Citations'),
  ('scope object swaps and restores the active collection', 'flavio/citations.py: CitationScope'),
  ('registration at the point of use', 'flavio/physics/**: flavio.citations.register')],
 [('flavio.citations', 'active collection', 'flavio/citations.py')],
 ['flavio.citations.set, Observable.theory_citations, set collected by flavio.citations.collect()'])

prop('C04', 'Predictions do not depend on what was computed before',
 "The prediction of an observable depends only on the observable, its arguments, the parameter values, the Wilson coefficients with their matching/running options, the selected implementations, and the configuration in force (such as renormalisation scales, quark flavour thresholds and the PDF set). After any sequence of other predictions, dependency queries, uncertainty computations, changes of parameters, options or implementations that are now undone or superseded, failed calls, and direct use of the same Wilson coefficient object, it equals the value obtained in a fresh session.",
 ['histories', 'inputs', 'configurations'],
 "all histories of API calls over all observables, parameter points (including points differing in a single parameter), Wilson points (shared, re-used and reconfigured objects), implementations and configuration values",
 "Tests call each observable once or twice at the default parameters; a stale or under-keyed cache, or an input modified in place, needs two particular calls in a particular order in one process.",
 ['flavio/classes.py', 'flavio/functions.py', 'flavio/physics/eft.py', 'flavio/physics/ckm.py', 'flavio/physics/running/running.py', 'flavio/physics/bdecays/matrixelements.py', 'flavio/physics/bdecays/formfactors'],
 [('caches keyed by all inputs they depend on', 'flavio/physics/running/running.py, flavio/physics/ckm.py, flavio/physics/bdecays/matrixelements.py, flavio/physics/eft.py: from_wilson'),
  ('parameter dictionaries treated as read-only', 'flavio/physics/**')],
 [('lru caches', 'memoised running, CKM, form factor and loop functions', 'flavio/physics/**'),
  ('Wilson cache and options', 'matched and run coefficients and the CKM used for them', 'flavio/physics/eft.py')],
 ['np_prediction, sm_prediction, Observable.prediction_par/prediction_central, get_dependent_parameters_sm, get_dependent_wcs'])

prop('C05', 'An interrupted computation leaves the session intact',
 "If a prediction, uncertainty, covariance or likelihood evaluation is cut short at an arbitrary point by a user interrupt, an out-of-memory condition or an error inside an observable, the call does not return a wrong value, and every later computation in the session, with the same or other objects, returns what it returns in a fresh session.",
 ['crash_points', 'histories', 'fault_sequences'],
 "every line executed by flavio during the evaluation as the point of interruption, sequences of several interrupted and completed evaluations, all observables and likelihood objects",
 "No test interrupts an evaluation; the number of interruption points is in the thousands per call and the damage (half-updated caches or inputs) only shows in a later call.",
 ['flavio/statistics/likelihood.py', 'flavio/physics', 'flavio/functions.py', 'flavio/classes.py'],
 [('caches are filled only after the value has been computed', 'flavio/statistics/likelihood.py: get_predictions_par, flavio/physics/**'),
  ('module state is not modified during evaluation', 'flavio/physics/**')],
 [('prediction cache', 'last point and predictions', 'flavio/statistics/likelihood.py: MeasurementLikelihood')],
 ['results of later calls'])

prop('C06', 'Concurrent threads get the values they would get alone',
 "Predictions and likelihood values computed by several threads of one process at the same time, on shared observables, likelihood objects, Wilson coefficient objects and parameter objects, equal the values the same calls return when run alone, for every interleaving of the threads; no call fails or blocks forever because of the others.",
 ['schedules', 'inputs'],
 "all interleavings of 2-4 caller threads at the granularity of source lines, all observables and shared likelihood/Wilson objects",
 "All tests are single-threaded.",
 ['flavio/statistics/likelihood.py', 'flavio/physics/eft.py', 'flavio/physics', 'flavio/classes.py'],
 [('prediction cache consistent under interleaving', 'flavio/statistics/likelihood.py: get_predictions_par'),
  ('no mutable module state in predictions', 'flavio/physics/**')],
 [('prediction cache', 'last point and predictions', 'flavio/statistics/likelihood.py')],
 ['return values and exceptions of concurrent calls'])

prop('C07', 'Likelihood values are those of the point and measurements in force',
 "The log-likelihood returned for a point is the sum, over the measurements in force at the time of the call (all non-pseudo measurements, minus excluded or only the included ones), of the log-probability of each constraint restricted to the fit observables that are not excluded, evaluated with the predictions at exactly that point, plus the priors of the fit parameters. It does not depend on points evaluated before, on failed evaluations, or on changes made and undone in between to the Wilson coefficient object, parameters or registered measurements.",
 ['histories', 'inputs', 'configurations', 'fault_sequences'],
 "all sequences of evaluations at neighbouring/colliding points, parameter and option changes, measurement registrations/replacements/deletions and failing evaluations; all include/exclude combinations, also excluded observables and delta likelihoods",
 "Tests evaluate a handful of fixed points on freshly built objects; a stale prediction cache or a measurement counted twice or dropped needs particular consecutive calls.",
 ['flavio/statistics/likelihood.py', 'flavio/classes.py'],
 [('last-point prediction cache keyed by the full point', 'flavio/statistics/likelihood.py: MeasurementLikelihood.get_predictions_par'),
  ('measurement selection evaluated per call', 'flavio/statistics/likelihood.py: MeasurementLikelihood.get_measurements'),
  ('exclusion of observables from multivariate constraints', 'flavio/classes.py: Constraints.get_logprobability_all')],
 [('prediction cache', 'last point and predictions', 'flavio/statistics/likelihood.py')],
 ['MeasurementLikelihood/ParameterLikelihood/Likelihood log_likelihood*, get_measurements, get_number_observations'])

prop('C08', 'Queries do not modify inputs or shared state',
 "Computing predictions, uncertainties, error budgets, covariances, likelihoods, combinations or dependencies changes none of the caller's objects (parameter dictionaries, parameter constraints, Wilson coefficients and their options, argument containers, likelihood configuration) and none of the shared state (default parameters, Standard Model Wilson coefficients, registered observables, measurements, implementations, configuration, working directory, environment, numpy error and warning settings). Computations that involve no random draw also leave numpy's random state unchanged; this holds for calls that fail half-way, too.",
 ['histories', 'inputs', 'fault_sequences'],
 "all read-only API calls on all observables, in any order, completed or failing at any point",
 "Tests do not compare inputs and global state before and after calls.",
 ['flavio/functions.py', 'flavio/classes.py', 'flavio/statistics/likelihood.py', 'flavio/physics/eft.py', 'flavio/physics/bdecays/formfactors'],
 [('copies taken before modification', 'flavio/functions.py: sm_error_budget, AwareDict; flavio/physics/**'),
  ('own Wilson object per call', 'flavio/physics/eft.py: from_wilson')],
 [('default_parameters, _wc_sm, registries, config', 'module-level shared state', 'flavio/parameters.py, flavio/physics/eft.py, flavio/classes.py, flavio/config.py')],
 ['deep comparison of inputs and module state around each call'])

prop('C09', 'Seeded results are reproducible in every process',
 "After seeding numpy's generator, the same calls give the same random parameter sets, uncertainties, covariances, error budgets, experimental covariances and pseudo-measurements in every Python process, independent of the process's string-hash seed, of the number of workers and of earlier non-random computations. Lists, dictionaries, YAML dumps and error-budget keys come out in the same order.",
 ['configurations', 'histories'],
 "all hash seeds, worker counts and preceding deterministic calls; all seeds and all functions drawing random numbers",
 "The test suite runs in one process with one hash seed and checks random results only within loose tolerances.",
 ['flavio/functions.py', 'flavio/statistics/likelihood.py', 'flavio/classes.py', 'flavio/parameters.py', 'flavio/statistics/probability.py'],
 [('draws are made in registration order', 'flavio/classes.py: get_random_all, flavio/statistics/likelihood.py: MeasurementCovariance.compute')],
 [('numpy global generator', 'only source of randomness', 'flavio/statistics/probability.py')],
 ['digests of results in fresh interpreters'])

prop('C10', 'The constraint store agrees with its update history',
 "After any sequence of adding, replacing and removing (uni- or multivariate) constraints, copying, dumping and reloading, each parameter or observable is governed by exactly the constraint set last, with its position in it: central values, log-probabilities (with and without exclusions), errors, random draws and dumps all agree with that. Removed or superseded constraints contribute nowhere and do not come back through a dump, reload or copy; a copy is independent of its original; an update that is rejected leaves the previous constraints in force.",
 ['histories', 'fault_sequences'],
 "all sequences of store operations over overlapping parameter groups, with invalid updates and failures inside the construction of the distribution in between",
 "Tests perform at most two or three updates on one object; the bookkeeping errors need overlapping multivariate groups and particular orders of operations.",
 ['flavio/classes.py', 'flavio/_parse_errors.py', 'flavio/statistics/probability.py'],
 [('list of constraints plus parameter -> (position, constraint) map', 'flavio/classes.py: Constraints'),
  ('constraint is constructed before the store is changed', 'flavio/classes.py: set_constraint'),
  ('dump/reload', 'flavio/classes.py: get_yaml_dict, from_yaml_dict')],
 [('_constraints/_parameters', 'bijective bookkeeping', 'flavio/classes.py: Constraints')],
 ['get_central(_all), get_logprobability_all/single, get_random_all, get_1d_errors_rightleft, get_yaml(_dict), all_parameters'])

prop('C11', 'Loading measurements or parameters is all-or-nothing',
 "Reading a measurement file, URL or parameter file either succeeds, with every entry of the file registered with exactly the content the file states (and the returned names are those entries), or raises an error and leaves the registered measurements, parameters and constraints as they were. This holds for I/O errors at any point, files truncated or garbled at any byte, an invalid entry at any position, failed downloads and interrupts (a failure that strikes after the whole file has been taken over may leave all of it); files are closed in all cases.",
 ['fault_sequences', 'crash_points', 'inputs', 'histories'],
 "every position of read errors, short reads, truncation, corrupted or invalid entries and interrupts, for both measurement formats and all parameter formats; repeated and overlapping loads",
 "Tests load intact files only.",
 ['flavio/measurements.py', 'flavio/parameters.py', 'flavio/classes.py'],
 [('format detection with fallback', 'flavio/measurements.py: read_file'),
  ('entries parsed and registered one by one', 'flavio/measurements.py: _load, _load_new; flavio/parameters.py')],
 [('Measurement.instances, Parameter.instances, constraints', 'registries changed by loading', 'flavio/classes.py')],
 ['registries and constraint objects before and after the load; open file descriptors'])

prop('C12', 'Saved results survive failures while saving',
 "Saving a covariance, measurements or parameter constraints to a file (in a directory that can be written to) either succeeds, and then a later load gives back the saved content, or raises an error or is cut off by a crash, and then the file has its previous content (or does not exist), or all of the new one if that was already in place. At no point, also while saving and with several saves to one path at a time, does the path hold a partial file. A save that fails without a crash leaves no temporary or open files behind.",
 ['crash_points', 'fault_sequences', 'histories'],
 "every write, flush, close and rename as the point of failure (disk full, I/O error, short write, crash with loss of unflushed data), sequences of saves and loads with failures in between",
 "Tests write each file once on a healthy disk.",
 ['flavio/statistics/likelihood.py', 'flavio/measurements.py', 'flavio/parameters.py', 'flavio/util.py'],
 [('content written completely before it replaces the old file', 'flavio/util.py, flavio/statistics/likelihood.py: save, flavio/measurements.py: write_file, flavio/parameters.py: write_file')],
 [('file at the target path', 'durable state', 'user file system')],
 ['file content after failure or crash, result of load'])

prop('C13', 'Included YAML files are used completely or the load fails',
 "Loading a likelihood definition (or any YAML input) with included files gives exactly the content of those files, resolved relative to the including file at every nesting level, or raises an error: a file that exists but cannot be read or parsed is never skipped, truncated or taken as a literal value. Items of a merge list that do not name an existing file stay literal, in place and in order; all files are closed afterwards, also on failure.",
 ['fault_sequences', 'inputs', 'histories'],
 "every failing open/read among nested includes with every error code, all mixtures of literals, relative and absolute paths, nesting and repeated loads",
 "Tests include two readable files; no error other than a missing file is exercised.",
 ['flavio/io/yaml.py', 'flavio/io/instanceio.py'],
 [('only not-found style errors make a list item literal', 'flavio/io/yaml.py: include_merge_list'),
  ('paths resolved against the file being parsed', 'flavio/io/yaml.py: SafeIncludeLoader')],
 [], ['value returned by flavio.io.yaml.load_include / Likelihood.load, open file descriptors'])

prop('C14', 'Robust optimisation retries until success and reports honestly',
 "minimize_robust and maximize_robust report success only if one of the tried methods converged and then return that point; the value reported is the value of the objective (with the right sign) at the reported point. While methods fail to converge they are retried in the given order, at most the given number of rounds, each attempt starting from the best end point of the unsuccessful attempts so far (the given start point if none improved on it); when all are exhausted an unsuccessful result is returned. Errors of the objective reach the caller, and the caller's start point is not modified.",
 ['fault_sequences', 'inputs'],
 "every pattern of converging and non-converging attempts and of errors in the objective, all method lists, numbers of rounds and dimensions",
 "Tests use objectives for which the first method converges at once.",
 ['flavio/math/optimize.py'],
 [('retry loop over methods', 'flavio/math/optimize.py: minimize_robust')],
 [('start point carried between attempts', 'best end point so far', 'flavio/math/optimize.py')],
 ['calls made to the underlying optimiser, returned result'])

prop('C15', 'Random draws follow the constraints in force, jointly',
 "Random sets of parameters or observables drawn from a constraint collection follow, after any history of updates, the distributions in force: each draw lies in the support and is finite whatever numbers the generator delivers, its frequencies match the probability density, and parameters sharing a multivariate constraint are drawn jointly (row by row) while separate ones are independent. Drawing one set at a time or many at once samples the same distribution; parameters that are not to be varied keep their central value in every draw.",
 ['inputs', 'histories', 'fault_sequences'],
 "all distribution types and parameters, all update histories, extreme outputs of the random number generator",
 "Tests compare a few sample means/standard deviations at loose tolerance for single distributions.",
 ['flavio/statistics/probability.py', 'flavio/classes.py', 'flavio/functions.py'],
 [('one draw per constraint distributed to its parameters by position', 'flavio/classes.py: get_random_all'),
  ('inverse-transform and native samplers', 'flavio/statistics/probability.py'),
  ('par_vary selection', 'flavio/functions.py: sm_covariance')],
 [('numpy global generator', 'source of randomness', 'flavio/statistics/probability.py')],
 ['ProbabilityDistribution.get_random, Constraints.get_random_all, points handed to observables by sm_covariance/sm_error_budget'])

prop('C16', 'Covariances and fast likelihoods follow their compute/load history',
 "A covariance object hands out the matrix last computed or loaded, in the order of its own observables (for every permutation or superset of observables in the loaded data), and recomputes only when forced or empty; a failed computation or load leaves the previous content in force. A FastLikelihood's value is that of the Gaussian pseudo-measurement made from the sum of its current experimental and SM covariances at the last make_measurement, whose pseudo-measurement replaces the previous one and enters no other likelihood or combination.",
 ['histories', 'fault_sequences', 'inputs'],
 "all sequences of get/force/compute/save/load/load_dict/make_measurement over several objects with overlapping observables, failures in between, all permutations and supersets",
 "Tests run one compute-save-load round trip on one object.",
 ['flavio/statistics/likelihood.py', 'flavio/functions.py'],
 [('cached matrix with force flag', 'flavio/statistics/likelihood.py: SMCovariance.get, MeasurementCovariance.get'),
  ('permutation on load', 'flavio/statistics/likelihood.py: load_dict'),
  ('pseudo-measurements recognised by name', 'flavio/statistics/likelihood.py, flavio/functions.py: combine_measurements')],
 [('_cov/_central_cov', 'cached matrices', 'flavio/statistics/likelihood.py')],
 ['SMCovariance/MeasurementCovariance.get, FastLikelihood.log_likelihood, registered measurements'])

prop('C17', 'Registries and implementation choices take effect at once',
 "Defining, redefining or deleting observables, predictions, auxiliary quantities, implementations and measurements, and selecting an implementation, takes effect for the next call and for nothing else: look-ups, searches, the list of implementations, the taxonomy of existing observables, lists of measurements per observable, predictions, likelihoods (also ones constructed before) and combinations of measurements always reflect the current definitions, a failing definition changes no existing entry, and other entries keep their order and values.",
 ['histories', 'fault_sequences', 'configurations'],
 "all sequences of define/redefine/delete/select/query operations with failing ones in between",
 "Tests define one object and query it once.",
 ['flavio/classes.py', 'flavio/functions.py', 'flavio/config.py'],
 [('named-instance registries', 'flavio/classes.py: NamedInstanceClass'),
  ('implementation looked up per call', 'flavio/classes.py: AuxiliaryQuantity.get_implementation')],
 [('instances', 'registries per class', 'flavio/classes.py')],
 ['Observable/Measurement/Implementation/AuxiliaryQuantity look-ups and predictions, combine_measurements'])

prop('C18', 'Likelihood definitions survive dumping and loading',
 "A MeasurementLikelihood, ParameterLikelihood, Likelihood or FastLikelihood that was dumped (to a string, a stream or a file) loads in the same or in a later session as an equivalent one: same observables, same measurements in force, same fit and nuisance parameters, same constraints of its parameters (those differing from the defaults), same log-likelihoods and priors; its dump is again the same. Loading leaves the default parameters and all registries as they were (apart from the name of the loaded FastLikelihood), also when the definition is invalid and rejected, or loading or dumping fails or is interrupted, and the loaded object is independent of the original and, where the definition contains parameter constraints of its own (par_obj, also an empty one), of the defaults.",
 ['histories', 'fault_sequences', 'crash_points'],
 "all definitions (measurement selections, modified parameter constraints, observables with arguments of any numeric type), all sequences of dumps, loads, restarts and changes; every position of a failing write or an interruption; invalid definitions",
 "Tests load hand-written dictionaries; no test loads what dump() wrote, and none makes a dump or a load fail.",
 ['flavio/io/instanceio.py', 'flavio/statistics/likelihood.py', 'flavio/classes.py'],
 [('input and output schemas', 'flavio/statistics/likelihood.py: _input_schema_dict, _output_schema_dict'),
  ('parameter constraints relative to the defaults', 'flavio/io/instanceio.py: get_par_diff, coerce_par_obj')],
 [('default parameters', 'starting point of loaded parameter constraints', 'flavio/parameters.py')],
 ['dump(), load(), load_dict() and the log-likelihood functions of the four classes'])

# pure functions of their inputs: not simulation targets
prop('C30', 'Binned observables are the integrals of the differential ones',
 "Binned branching ratios and angular observables equal the correspondingly normalised integral of the differential ones over the bin, and are additive over adjacent bins.",
 ['inputs'], "all bins, parameters and Wilson coefficients", "Tests compare a few bins.",
 ['flavio/physics'], [('numerical integration', 'flavio/math/integrate.py')], (), ['predictions'])
prop('C31', 'CP-conjugate amplitudes and averages are consistent',
 "CP-averaged observables and CP asymmetries are consistent with the decay and its conjugate; observables are invariant under rephasing conventions they must not depend on.",
 ['inputs'], "all parameters and Wilson coefficients", "Tests check signs at single points.",
 ['flavio/physics'], [('conjugate parameters and Wilson coefficients', 'flavio/physics/common.py')], (), ['predictions'])
prop('C32', 'Predictions do not depend on the basis or scale used to specify new physics',
 "Translating the same new-physics point to another basis, or running it to another input scale, leaves predictions unchanged up to the accuracy of the translation and running.",
 ['inputs'], "all Wilson points, bases and scales", "Tests check a few coefficients.",
 ['flavio/physics/eft.py'], [('matching, running and translation by wilson', 'flavio/physics/eft.py')], (), ['predictions'])
prop('C33', 'Probability densities are normalised and match their error intervals',
 "Each one-dimensional probability distribution integrates to one over its support, and its reported errors contain the stated probability; convolution and combination give the convolved and normalised product density.",
 ['inputs'], "all distribution parameters", "Tests check a few parameter values per distribution.",
 ['flavio/statistics/probability.py'], [('closed forms and numerical interpolation', 'flavio/statistics/probability.py')], (), ['logpdf, get_error_left/right'])
prop('C34', 'Constraint strings mean what they say',
 "Every documented form of a constraint string gives the distribution with the stated central value and uncertainties; anything else is rejected.",
 ['inputs'], "all strings", "Tests check examples.",
 ['flavio/_parse_errors.py'], [('regular expressions', 'flavio/_parse_errors.py')], (), ['constraints_from_string'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
