"""Regenerates /verif/properties.jsonl (one JSON object per line)."""
import json, pathlib

S = "src/tranquilo/"


def P(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [f if f.startswith(("src", "docs")) else S + f for f in files],
            "mechanism": [{"name": n, "where": S + w} for n, w in mechanism],
            "state": [{"name": n, "meaning": m, "where": S + w} for n, m, w in state],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    }


PROPS = [
P("C01", "Parameter bounds are never violated",
  "For every optimization that starts inside the given lower and/or upper bounds (bounds may be missing on one side, infinite for some parameters, or active at the start), every parameter vector at which the criterion is ever evaluated and the returned solution lie within the bounds. Bounds that are infinite or so wide that they never bind do not disturb the optimization: it runs to the same kind of result as an unbounded one.",
  ["inputs", "configurations", "histories"],
  "all bound patterns x start points x criterion landscapes x component choices (samplers, filters, subsolvers, acceptance deciders, batch sizes) x whole optimization histories",
  "The tests run two bounded sphere functions with default components; which points are evaluated depends on the whole history (radius growth, region shape switches, speculative and line-search points), so only a search over histories can reach a step that leaves the box.",
  ["region.py", "bounds.py", "solve_subproblem.py", "sample_points.py", "acceptance_decision.py", "tranquilo.py"],
  [("region shape switch and clipping to cube bounds", "region.py"), ("clip of subproblem solution", "solve_subproblem.py"), ("line-search / speculative points", "acceptance_decision.py")],
  observe=["every x passed to the user's criterion", "returned solution"]),
P("C02", "The reported solution is the best accepted point, truthfully reported",
  "The returned solution is a point at which the criterion really was evaluated and the returned criterion value is the value obtained there (for noisy criteria: an average of evaluations made there). For deterministic criteria the value is never worse than the value at the start point and never worse than that of any trial step that satisfied the required minimum improvement, and the criterion value of the accepted point never increases from one iteration to the next.",
  ["inputs", "histories", "configurations"],
  "all criterion functions (convex, non-convex, discontinuous, flat, badly scaled, noisy), functypes, options and iteration histories",
  "The tests compare the solution with a known minimum of the sphere function; they never check the value/point pairing or monotonicity along rejected, stagnating, line-search or noisy iterations.",
  ["tranquilo.py", "acceptance_decision.py", "history.py"],
  [("acceptance step", "acceptance_decision.py"), ("result assembly", "tranquilo.py")],
  observe=["returned solution and criterion value", "sequence of iteration states", "log of criterion calls"]),
P("C03", "Every run terminates within its limits and says truthfully why",
  "Every optimization terminates, also when surrogate models are degenerate: it performs at most the requested number of iterations and, once the requested number of criterion evaluations is reached, stops at the end of the iteration in which that happened; a limit on run time is honoured at iteration granularity. A convergence message is only given if the named criterion (gradient, criterion change, parameter change, each absolute or relative) really is at or below the user's tolerance between the last two accepted points, the message about the evaluation limit is only given if that limit was reached, and with convergence checks disabled no convergence is reported. Conversely a run ends as soon as an accepted step satisfies one of the convergence criteria, and the message about the iteration limit, the run-time limit or the smallest radius is only given if that limit really was what ended the run.",
  ["inputs", "configurations", "histories"],
  "all criteria, tolerances, limits and histories",
  "The tests only run the default tolerances to convergence on the sphere function; the interplay of tolerances, rejected steps, limits and messages is never checked.",
  ["tranquilo.py", "process_arguments.py", "options.py"],
  [("convergence check", "tranquilo.py"), ("stopping limits", "tranquilo.py")],
  observe=["number of iterations and criterion calls", "message", "states"]),
P("C04", "Runs are reproducible and isolated",
  "Two runs with the same inputs, options and seed evaluate exactly the same sequence of points and return exactly the same result, regardless of what happened before in the process (other optimizations, the state of global random number generators, reuse of the same option objects) and different seeds are allowed to differ only through the seed. A run never modifies the caller's start vector, bounds, option dictionaries or the process-global random state, and a criterion that overwrites the parameter vector it receives does not change the run.",
  ["inputs", "configurations", "histories"],
  "all problems and configurations; all prefixes of other library calls executed before or between the two runs",
  "No test repeats a run; hidden state (shared option dictionaries, mutable defaults, global RNG, in-place updates of inputs) only shows when runs are sequenced.",
  ["tranquilo.py", "process_arguments.py", "sample_points.py", "options.py", "rho_noise.py", "subsolvers/fallback_subsolvers.py"],
  [("explicit generators seeded per run", "process_arguments.py"), ("component construction", "get_component.py")],
  observe=["log of criterion calls", "result", "caller-owned objects", "global RNG state"]),
P("C05", "Parallel evaluation does not change the result",
  "For a fixed batch size, the sequence of evaluation batches, the recorded evaluations and the result do not depend on the number of cores, on which batch evaluator is used or on the order in which the evaluations of a batch are executed or completed. Each batch handed to the evaluator never asks for more cores than evaluations and contains exactly the points whose values are then recorded.",
  ["schedules", "inputs", "configurations"],
  "all execution orders of the evaluations inside each batch, all numbers of cores and batch evaluators, for all problems and configurations",
  "The tests run the serial evaluator once; result/point pairing errors appear only when batches have several points that complete out of order or when cores and batch size differ.",
  ["wrap_criterion.py", "history.py", "tranquilo.py", "acceptance_decision.py", "process_arguments.py"],
  [("batch evaluation wrapper", "wrap_criterion.py"), ("batch-size rounding", "process_arguments.py")],
  observe=["calls of the batch evaluator", "result"]),
P("C06", "Failing criterion evaluations are survived and never selected",
  "If the criterion raises an exception or returns NaN or infinite values at arbitrary points of the optimization (but not at the start), the optimization continues, records the failed evaluations as infinitely bad, and still returns a solution with a finite criterion value that is not worse than the start. A failed evaluation is never accepted as a solution, and failures do not change the values recorded for the other points.",
  ["fault_sequences", "inputs", "configurations"],
  "all sequences of exceptions / NaN / +-inf returned by evaluations (single residual or whole vector), at any evaluation after the start, for all functypes, batch sizes and components",
  "One unit test feeds a single infinite value to the wrapper; fault sequences interacting with model fitting, filtering, batches and noisy acceptance are never run.",
  ["wrap_criterion.py", "handle_infinity.py", "acceptance_decision.py", "fit_models.py", "history.py", "estimate_variance.py"],
  [("exceptions and NaN replaced by inf", "wrap_criterion.py"), ("clipping before fitting", "handle_infinity.py"), ("non-finite candidate rejected", "acceptance_decision.py")],
  observe=["result", "recorded evaluations"]),
P("C07", "Every criterion evaluation is recorded exactly once, under its point",
  "Whatever evaluations are requested (any set of known points with any number of repetitions, in any order), the criterion is called exactly that often with exactly those parameter vectors, and each returned value is stored once, unchanged, under the point it belongs to; evaluation counts always equal the number of calls. This also holds at the end of every optimization: the history contains all calls ever made, in order, and nothing else.",
  ["histories", "inputs", "schedules"],
  "all sequences of evaluation requests and all whole optimizations (deterministic and noisy, all functypes)",
  "The test evaluates one fixed request; wrong pairing needs particular repetition patterns, scalar-vs-vector outputs or history growth.",
  ["wrap_criterion.py", "history.py", "tranquilo.py"],
  [("repeat and store", "wrap_criterion.py"), ("append-only storage with index map", "history.py")],
  observe=["log of criterion calls", "history queries"]),
P("C08", "Every option reaches its component unchanged, defaults fill the rest",
  "Every option value given by the user (individually, as dictionary or as option bundle, for built-in or user-supplied components) arrives in the component with that value (at most converted to the option's declared type without loss for values of that kind), options that were not given have their documented defaults, and invalid option names, component names or argument values are rejected with an error before any criterion evaluation. Components only receive the arguments they ask for, and default settings depend only on problem dimension, function type, noise and batch size in the documented way.",
  ["configurations", "inputs"],
  "all subsets and values of options for all components, built-in and user supplied, and all argument combinations",
  "The tests check a handful of option combinations; lossy type conversion or cross-talk between options only shows for particular value types and subsets.",
  ["options.py", "get_component.py", "process_arguments.py"],
  [("option bundles with type conversion", "options.py"), ("component wrapper", "get_component.py"), ("argument processing", "process_arguments.py")],
  observe=["arguments received by user-supplied components", "processed arguments", "errors"]),
P("C09", "The evaluation history is a faithful append-only store",
  "After any sequence of additions of points and evaluations, every query (points, residual vectors, criterion values, evaluation counts, averaged or raw model data, points in a region) by any kind of index returns exactly what a simple list-of-records model returns, in the order asked for. Earlier results are never changed by later additions, including when the storage grows beyond its initial capacity, and returned indices are consecutive.",
  ["histories", "inputs"],
  "all sequences of add/evaluate/query operations with all supported index kinds and all functypes, across storage growth",
  "The tests use fixed small histories; growth, repeated evaluation, unordered or mixed indices and interleavings are not covered.",
  ["history.py", "region.py"],
  [("growing arrays", "history.py"), ("index map from points to evaluations", "history.py")],
  observe=["query results"]),
P("C10", "Trust regions have the documented geometry",
  "A region is a ball of the given center and radius when no bound lies within the radius of its center, and otherwise the intersection of the bounds with a cube of the same volume as the ball. Mapping between the region and the unit ball or unit cube is exact in both directions, maps the region onto the unit shape, never leaves the bounds, and the reported effective center and radius describe that map; the volume and radius conversions for balls and cubes are mutually consistent.",
  ["inputs"],
  "all centers, radii, dimensions and bounds (missing, one-sided, infinite, partially infinite, active at the center)",
  "The tests use a few two- or three-dimensional boxes; shape switches exactly at the boundary, one-sided bounds and higher dimensions are not covered.",
  ["region.py", "bounds.py", "volume.py"],
  [("shape rule and maps", "region.py"), ("volume formulas", "volume.py")],
  observe=["region attributes", "map outputs"]),
P("C11", "Fitted surrogate models satisfy their defining optimality conditions",
  "Fitting a linear or quadratic model returns the model that solves the documented problem for the chosen method: least squares (exact recovery when the data come from such a model and the points identify it, interpolation and minimum-norm when under-determined), ridge with its penalties, penalty-scaled least squares, and the minimum-curvature interpolation; with residualization the same is true of the correction to the old model. The result depends only on the data (not on their order, on other residuals or on other fits), infinite data are replaced before fitting, and all coefficients are finite and expressed in the unit coordinates of the region.",
  ["inputs", "configurations"],
  "all samples, dimensions, numbers of residuals, fit methods and penalties, regions (ball, cube, non-uniform cube) and old models",
  "Tests fit a few fixed samples in well-conditioned regions; degenerate samples, weights, residualized fits in non-uniform cubes and permutations are not covered.",
  ["fit_models.py", "models.py", "handle_infinity.py", "region.py"],
  [("fitter template", "fit_models.py"), ("feature construction", "fit_models.py"), ("model shift and scale", "models.py")],
  observe=["fitted coefficients and predictions"]),
P("C12", "Moving, adding and aggregating models preserves their predictions",
  "Moving a model to another region (ball or cube of any size) leaves its prediction at every parameter vector unchanged and does not alter the original model; adding two models adds their predictions; models on different regions cannot be added. Aggregating a vector model yields the scalar model that its documented formula defines: the sum of squared predicted residuals for least squares, the sum for likelihoods, the model itself for scalar functions, with symmetric second-order terms.",
  ["inputs"],
  "all models (scalar and vector, linear and quadratic), regions and evaluation points",
  "Tests check single hand-computed models in two dimensions on spherical regions.",
  ["models.py", "aggregate_models.py"],
  [("move and add", "models.py"), ("aggregators", "aggregate_models.py")],
  observe=["model predictions at arbitrary points"]),
P("C13", "Subproblem solutions are feasible, honest and good",
  "For every quadratic model and trust region the subproblem solution lies inside the region (and the bounds), the reported expected improvement equals the decrease predicted by the model at exactly that point and is never negative, and the point in unit space corresponds to the point in parameter space. For the compiled and reference ball solvers the decrease is within the documented tolerance of the best possible decrease over the ball (except in degenerate cases without gradient along the most negative curvature), for the box solvers it is close to the global minimum over the box on convex models, at least a fixed fraction of the first local minimum along the projected steepest descent on nonconvex models, and success is only reported at points that are stationary within the gradient tolerance; the multi-start box solver reaches at least a fixed share of the best possible decrease over the box on every model; the linear-model solvers return the point of the box (within the ball) with the smallest value or the largest absolute value. If a solver fails with an exception the fallback still returns a feasible, honest solution.",
  ["inputs", "configurations", "fault_sequences"],
  "all models (convex, indefinite, singular, zero or huge/small terms, hard case), regions, solvers and options, and failing user-supplied solvers",
  "Tests check about twenty fixed models in well-scaled regions; hard cases, tiny or huge curvature and boundary starts are not covered.",
  ["solve_subproblem.py", "subsolvers/bntr.py", "subsolvers/bntr_fast.py", "subsolvers/gqtpar.py", "subsolvers/gqtpar_fast.py", "subsolvers/fallback_subsolvers.py"],
  [("clipping and expected improvement", "solve_subproblem.py"), ("gqtpar lambda search", "subsolvers/gqtpar_fast.py"), ("bounded Newton trust region", "subsolvers/bntr_fast.py"), ("fallback on exception", "solve_subproblem.py")],
  observe=["solution x, unit x, expected improvement"]),
P("C14", "Fast and reference subsolver implementations agree",
  "The compiled implementations of the ball solver, the box solver and each of its conjugate-gradient variants return the same solution (up to numerical tolerance), success flag and model value as their reference implementations for every model, start and option setting. No inputs are modified by either.",
  ["inputs", "configurations"],
  "all models, start points, radii, bounds and solver options",
  "The tests compare a few recorded matrices for each pair; branches taken only for indefinite matrices, active bounds, restarts or tight tolerances are not compared.",
  ["subsolvers/bntr.py", "subsolvers/bntr_fast.py", "subsolvers/gqtpar.py", "subsolvers/gqtpar_fast.py", "subsolvers/_conjugate_gradient.py", "subsolvers/_conjugate_gradient_fast.py", "subsolvers/_steihaug_toint.py", "subsolvers/_steihaug_toint_fast.py", "subsolvers/_trsbox.py", "subsolvers/_trsbox_fast.py", "subsolvers/linear_subsolvers.py"],
  [("twin implementations", "subsolvers/bntr_fast.py")],
  observe=["solver outputs"]),
P("C15", "Samples have the requested size, lie where promised and are reproducible",
  "Every sampler returns exactly the requested number of points, all inside the trust region and the bounds; hull samplers place every point on the hull; the optimal sampler's points are never worse, in terms of the determinant criterion together with the existing points, than the random points it started from, nor, where it optimizes the distance criterion, in terms of the soft minimum of the distances of all pairs with at least one new point. Samples depend only on the region, existing points, options and generator state, inputs are not modified, and interior and hull samples are uniformly distributed. For one additional point in a ball the optimal sampler comes close to the best possible determinant.",
  ["inputs", "configurations"],
  "all regions, numbers of points, existing points, options and generator states",
  "The tests sample a few 2- and 3-dimensional regions with one seed each.",
  ["sample_points.py", "exploration_sample.py", "region.py", "options.py"],
  [("projection on hull", "sample_points.py"), ("guard against worse fekete value", "sample_points.py")],
  observe=["returned points", "returned optimization info"]),
P("C16", "Filtering, dropping and clustering keep points and indices consistent",
  "Every filter returns a subset of the given points with each point still paired with its own index, and never exceeds the documented maximum number of points. Dropping removes exactly the requested number of points and follows the documented rule (farthest points outside the region first, then of the closest pair the one nearer to the center) and never drops the center while another rule-conforming choice exists; clustering assigns every point to exactly one cluster whose center is within the radius, with the largest remaining neighbourhood first.",
  ["inputs", "configurations"],
  "all point sets, centers, radii, target sizes and option values",
  "The tests use one or two fixed point sets for each function.",
  ["filter_points.py", "clustering.py", "volume.py"],
  [("drop rule", "filter_points.py"), ("greedy clustering", "clustering.py")],
  observe=["returned points and indices", "labels and centers"]),
P("C17", "Acceptance decisions follow the data",
  "A candidate (or, with line search, the best of the newly evaluated points) is accepted exactly if its measured improvement over the current point is at least the required minimum improvement and its value is finite; the ratio of actual to expected improvement, step length and reported point, index and value always describe that decision, and after a rejection the current point is kept. Exactly the documented evaluations are made: one for deterministic steps, ten for naive averaging, the power-analysis sample sizes within their limits (and no fewer than needed for the requested power) for noisy steps, and a full batch for line-search steps. The batch holds points on the extended line through the trial step exactly if that step ends near the border of the trust region, whatever its location and size, and otherwise points around the trial step.",
  ["inputs", "configurations", "histories"],
  "all states, candidates, criterion values, expected improvements, noise levels, batch sizes and options",
  "The tests cover one accepted and one rejected candidate; the boundary cases, sample sizes and the batch composition are not covered.",
  ["acceptance_decision.py", "acceptance_sample_size.py"],
  [("acceptance rules", "acceptance_decision.py"), ("power analysis", "acceptance_sample_size.py")],
  observe=["acceptance result", "criterion calls"]),
P("C18", "Radius and noise adaptation respect their rules and limits",
  "After every iteration the trust-region radius is the old radius times the expansion factor after a successful long step, unchanged after a merely successful step or when the number of evaluations was just increased, times the shrinking factor otherwise, and always within the minimum and maximum radius (and, only if the user asks for it, at most a multiple of the last step length); the radius never becomes zero. The number of evaluations per point changes by at most one per iteration following the share of high and low simulated improvement ratios and stays within its limits, and the estimated noise variance is the evaluation-weighted average of the sample variances of the sufficiently evaluated nearby points.",
  ["inputs", "configurations", "histories"],
  "all ratios (including infinite and NaN), step lengths, options and histories of evaluations",
  "The tests cover three radius cases and one variance; limits, infinities and combinations of options are not covered.",
  ["adjust_radius.py", "adjust_n_evals.py", "estimate_variance.py", "rho_noise.py", "tranquilo.py"],
  [("radius rule", "adjust_radius.py"), ("evaluation-count rule", "adjust_n_evals.py"), ("variance", "estimate_variance.py"), ("simulation", "rho_noise.py")],
  observe=["returned values", "radius sequence of a run"]),
P("C19", "Infinite values are replaced by finite penalties that keep their order",
  "Handling infinite values returns finite data in which every originally finite entry is unchanged, every +inf or NaN entry is strictly larger and every -inf entry strictly smaller than all finite entries of its column, and each column is treated independently of the others and of the order of rows. The penalty is relative to the range of the finite values of the column, so shifting the finite values shifts the penalties.",
  ["inputs"],
  "all arrays with any pattern of finite and infinite entries (finite values up to about 1e12, where adding 1 is representable), including constant, single-valued and all-infinite columns",
  "The test uses one array; degenerate columns are not covered.",
  ["handle_infinity.py"],
  [("relative clipping", "handle_infinity.py")],
  observe=["returned array"]),
P("C20", "The recorded iteration trace is self-consistent",
  "In every recorded iteration the candidate point, accepted point, criterion value, model points and step lengths agree with the evaluation history and with each other: indices refer to exactly the stated points, the next region is centered at the accepted point, new and old points are classified correctly and partition the points considered. The surrogate model stored for the iteration lives on that iteration's region, is the aggregate of the stored vector model, and was fitted to the evaluations of the model points (with residualization: to their deviations from the vector model stored for the previous iteration), and the first record describes the start point.",
  ["histories", "configurations", "inputs"],
  "all iterations of all optimizations over all configurations",
  "No test inspects the states of a run.",
  ["tranquilo.py", "acceptance_decision.py", "history.py"],
  [("state update", "tranquilo.py")],
  observe=["states and history of the result"]),
P("C21", "Well-behaved problems are actually solved",
  "On smooth, well-conditioned convex problems (scalar or least-squares, with or without bounds that bind, shifted, rescaled and offset arbitrarily, for the built-in component combinations intended for them, serial or in batches), the optimizer reaches the best value, to one percent of the possible improvement, within a moderate number of evaluations, and never ends worse than it started. This holds for every least-squares problem and every scalar problem without bounds; of scalar problems with bounds most are solved (2n+1 points do not identify a quadratic model). With default settings the average number of evaluations needed stays close to what it is now. Calling through the surrounding optimization library evaluates the same points as calling directly; permuting residuals or measuring the parameters in other units (with the radius in the same units) evaluates the same points up to rounding.",
  ["inputs", "configurations"],
  "all well-conditioned convex quadratics and smooth residual functions over dimensions, shifts, scales, starts, bounds and component choices",
  "Tests solve the sphere function from one start point; errors in scaling, asymmetric Hessians or shifted boxes cancel on the sphere.",
  ["tranquilo.py", "process_arguments.py", "fit_models.py", "aggregate_models.py", "solve_subproblem.py"],
  [("trust-region loop", "tranquilo.py")],
  observe=["distance of solution from known minimizer", "number of evaluations"]),
P("C22", "The poisedness constant really bounds the Lagrange polynomials",
  "For every sample that identifies a quadratic model, the reported poisedness constant equals the absolute value of one of the sample's Lagrange polynomials at the reported point, which lies in the unit ball or cube, belongs to the reported sample point, and is a local maximum of that absolute value. No Lagrange polynomial whose absolute value has a single local maximum in the region exceeds the constant anywhere in it. Improving poisedness returns a sample of the same size inside the unit shape (for replaced points) with the reported constants, leaves the input sample unchanged and replaces at most one point per iteration.",
  ["inputs"],
  "all samples in all dimensions in ball and cube",
  "The tests use three two-dimensional samples and compare with recorded numbers; interaction terms in three or more dimensions are not covered.",
  ["poisedness.py"],
  [("Lagrange polynomials", "poisedness.py"), ("improvement loop", "poisedness.py")],
  observe=["constant, argmax and index"]),
P("C23", "Diagnostic plots show the recorded run",
  "For every sequentially evaluated optimization result and every iteration of it the diagnostic figure can be drawn, its criterion, radius and improvement-ratio panels contain exactly the recorded values at the highlighted iteration and points, and its point panels show exactly the model points of the iteration with their new/existing/discarded classification. Drawing the figure does not modify the result.",
  ["inputs", "histories", "configurations"],
  "all results (dimensions, functypes, bounds, lengths) and all iteration selections",
  "Tests only call the function for a few results and check nothing about the figure.",
  ["visualize.py", "geometry.py", "clustering.py"],
  [("figure assembly", "visualize.py")],
  observe=["traces of the returned figure"]),
P("C24", "Exploration samples cover the box",
  "For every finite box, number of points, method (sobol, halton, latin hypercube, random) and distribution (uniform, triangular around a start point), the exploration sample has the requested size, lies in the box (up to rounding), is the same for the same seed without touching the global random state, depends on location and size of the box only through the corresponding affine map, starts with the shorter sample of the same sequence (except latin hypercubes), covers every coordinate evenly in the sense of its method (one point per stratum) and follows the requested distribution. Unknown methods and distributions and boxes that are not finite are rejected. The D-optimality measure of a sample is the log determinant of its cross product in the unit space of the region, also for regions far from the origin, and minus infinity or very small for samples that do not span the space.",
  ["inputs", "configurations"],
  "all boxes, sizes, methods, distributions and seeds; all samples and regions",
  "The tests draw three points in two dimensions from each method and check only that two draws agree and the shape.",
  ["exploration_sample.py", "geometry.py", "utilities.py", "subsolvers/fallback_subsolvers.py"],
  [("sequence and scaling", "exploration_sample.py")],
  observe=["returned sample", "quality measure"]),
]

out = pathlib.Path(__file__).resolve().parents[1] / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in PROPS))
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
print(len(PROPS))
