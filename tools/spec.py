#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/spec.py)."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mechanisms, technique, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mechanisms],
                     observe_at=observe or ["public Go API"], hook_needed=None),
        _technique=technique, _note=note))

I, H, S, C, F = "inputs", "histories", "schedules", "configurations", "fault_sequences"
PBT = "property-based testing (rapid): "
BASE = "Generated-input search with an explicit oracle; no proof of absence outside the generated domain. Trusts the Go toolchain, rapid and the reference written in /verif/harness. "
VT = "Runs in a virtual-time bubble (testing/synctest) in which /repo's mutexes are replaced, by a build overlay, with equivalent channel-based ones that inject seeded delays, so schedules are reproducible and a deadlock is detected, not timed out. "

prop("C01", "Assignment returns the nearest centroid",
 "For any clustering, element and space, assigning an element returns the lowest label whose centroid is at minimal distance, together with that centroid and that distance; with no centroids the label is -1 and the centroid is nil. Labelling a whole data set gives, for every element in order, exactly the label and distance that assigning it alone gives. An algorithm's prediction equals the assignment of the element to the centroids the algorithm exposes at that moment.",
 [I, C], "all centroid lists (0..n, with ties and duplicates), elements of every provided space and of arbitrary user-defined spaces",
 "tests label 8 fixed vectors; ties, duplicated centroids, empty clusterings, rounding-level negative distances and other spaces are never enumerated",
 ["core/clustering.go", "core/ctrl.go", "cosinus/cosinus.go"], [("nearest search", "core/clustering.go nearest/Assign/MapLabel"), ("prediction", "core/ctrl.go Predict")],
 PBT + "brute-force argmin oracle over generated spaces, ties and duplicates", BASE)

prop("C02", "Parallel operations equal the sequential ones at any degree",
 "For any data, centroids, labels, loss exponent and degree of parallelism of at least 1 (also larger than the number of elements), the parallel labelling, losses, cardinalities and averages equal their sequential counterparts: labels, distances and cardinalities exactly, sums and Euclidean averages up to rounding. In the parallel update of centroids a cluster that received no element has cardinality 0 and keeps its previous centroid.",
 [I, C, S], "data sizes 0..n, degrees 1..64, arbitrary labels, all thread schedules of the workers",
 "tests use one data set of 160 vectors that every partition covers, so empty partitions, clusters seen by only some workers and size<degree are not reached",
 ["core/par_assign.go", "core/par_loss.go", "core/par_dba.go", "core/util.go"], [("partition and aggregation", "core/par_*.go")],
 PBT + "differential parallel vs sequential and vs naive reference", BASE + "Worker interleavings are those the Go scheduler produces plus seeded yields inside the user-provided space.")

prop("C03", "Losses and cardinalities per cluster",
 "The loss of a cluster is the sum, over the elements assigned to it (nearest centroid, or the given label), of the distance to its centroid raised to the given exponent, and its cardinality is their number; the total loss is the sum over clusters. Cardinalities sum to the number of elements and clusters without element have loss 0 and cardinality 0.",
 [I, C], "all data, centroids, labels and exponents, every space",
 "tests check exponent 1 or 2 on fixed vectors of one space",
 ["core/clustering.go"], [("loss reduction", "core/clustering.go ReduceLoss, ReduceLossForLabels, TotalLoss")],
 PBT + "naive reference computation", BASE)

prop("C04", "Averages of elements and clusters",
 "The average of elements, with or without integer weights, is in a vector space their (weighted) arithmetic mean up to rounding, and averaging nothing is an error. The per-cluster averages (by nearest centroid or by given labels) are the averages of exactly the elements of each cluster, with their number. Averaging returns fresh elements and never alters the data or centroids given.",
 [I, C], "all data sets, positive weights, label assignments and clusterings in spaces whose combination is a weighted mean",
 "tests average a handful of vectors; weights, empty clusters, aliasing of returned elements with inputs are not explored",
 ["core/clustering.go", "core/par_dba.go", "euclid/vectors.go"], [("averaging", "core/clustering.go DBA, WeightedDBA, ReduceDBA, ReduceDBAForLabels")],
 PBT + "exact-mean reference and aliasing/mutation oracle", BASE)

prop("C05", "Work partitioning covers the range exactly once",
 "Running a process in parallel over a size and a degree calls it exactly once for each rank from 0 to degree-1, on contiguous half-open ranges, in rank order, that cover every index from 0 to size-1 exactly once. Range lengths differ by at most one, and the call returns only after every process call has finished; if some of them panic, it then panics in its caller with what one of them panicked with.",
 [I, S], "all sizes >= 0 and degrees >= 1",
 "one test with a single size and degree",
 ["core/util.go"], [("partitioner", "core/util.go Par")],
 PBT + "coverage invariant over (size, degree), exhaustive for small values", BASE)

prop("C06", "Euclidean space is a metric with weighted means",
 "The Euclidean distance is the square root of the sum of squared differences, hence non-negative, symmetric, zero exactly between equal vectors, and satisfies the triangle inequality up to rounding. Combining two vectors with positive weights yields their weighted mean in a new vector, copying yields an equal but independent vector, no operation alters its arguments, and the dimension of a data set is that of its first vector (0 when empty).",
 [I], "all pairs/triples of equal-length finite vectors, positive integer weights",
 "tests compute a few hand-picked values",
 ["euclid/vectors.go"], [("vector operations", "euclid/vectors.go")],
 PBT + "algebraic laws and higher-precision reference", BASE)

prop("C07", "Cosine distance is bounded, symmetric and scale invariant",
 "The cosine distance of two non-zero vectors is 1 minus the cosine of their angle: it always lies in [0, 2], is symmetric, is unchanged when either vector is multiplied by a positive number and becomes 2 minus itself when one is negated, up to rounding. It is 0 for parallel vectors up to rounding, and never negative. Combination, copy and dimension are those of the Euclidean space.",
 [I], "all pairs of non-zero finite vectors of moderate magnitude",
 "tests compute a few angles; rounding-level excursions below 0 (which break nearest-centroid search and weighted draws) appear only for special inputs",
 ["cosinus/cosinus.go"], [("cosine distance", "cosinus/cosinus.go PointDist, Cosinus")],
 PBT + "metamorphic laws and big-float reference", BASE)

prop("C08", "DTW distance is the cost of a cheapest warping path",
 "The DTW distance of two non-empty series equals the minimal cumulated point distance over all warping paths (monotone, steps of at most one in each series, from both starts to both ends) that stay within the window when one is set; series whose lengths differ by more than the window are first brought within it by resampling the longest. The path reported is such a path, its cost is the distance, and the distance is symmetric and zero between a series and itself.",
 [I, C], "all pairs of series of any lengths and point dimension, windows 0 (none) and above, all inner spaces",
 "tests check a few short fixed series; length asymmetry (first series longer), windows smaller than the length gap and path validity are not enumerated",
 ["dtw/cost.go", "dtw/dtw.go", "dtw/series.go", "dtw/interpolate.go"], [("cumulated cost matrix", "dtw/cost.go"), ("window indexing", "dtw/cost.go ravel/inWindow")],
 PBT + "independent dynamic-programming and exhaustive-path oracles", BASE)

prop("C09", "DTW average interpolates along the warping path",
 "Combining two series with positive weights aligns them along a cheapest warping path and averages aligned points with these weights, sampled at the weighted positions: the result has as many points as the integral part of the weighted mean of the (possibly resampled) last positions plus one, its first point is the weighted mean of the first points, and every coordinate stays within the range of the aligned points. Combining a series with itself gives the same series, and combining never alters its arguments.",
 [I, C], "all pairs of series, weights, windows",
 "tests average three small fixed pairs",
 ["dtw/dtw.go", "dtw/interpolate.go", "dtw/series.go"], [("average along path", "dtw/dtw.go DBA"), ("interpolation", "dtw/interpolate.go Interpolate")],
 PBT + "reference interpolation plus validity predicates (length, hull, idempotence, mutation)", BASE)

prop("C10", "Series resampling is linear interpolation",
 "Resampling a series of at least two points to n points gives exactly n points, the i-th being the linear interpolation of the series at position i*(len-1)/(n-1); first and last points are preserved (n >= 2) and resampling to the same length is the identity. When a window is set, only the longest of two series is resampled, to the length of the other plus the window, and only if it exceeds it.",
 [I, C], "all series of length >= 2, target sizes >= 1, windows",
 "tests resample two fixed series",
 ["dtw/interpolate.go"], [("interpolation", "dtw/interpolate.go Interpolate, Resize, ShrinkLongest")],
 PBT + "closed-form interpolation reference", BASE)

prop("C11", "The data window holds exactly the last elements pushed",
 "A data buffer of frame size n > 0 holds, after any sequence of pushes and applies, exactly the last n elements taken into account (initial data first, then pushes in order); without frame size it holds all of them in order. Elements pushed while not running are visible at once, after all those pushed before them; elements pushed while running become visible only at the next apply, in push order, without loss or duplication and whatever their number. The data are held in push order, data read before never change, and neither does the caller's own slice.",
 [H, I, C], "all interleavings of pushes (running or not), applies and reads, all frame sizes and initial data",
 "tests do one long run of pushes in one mode; mixing modes, wrap-around with staged data and large backlogs are untested",
 ["core/buffer.go"], [("staging and frame", "core/buffer.go")],
 PBT + "stateful model of the window", BASE)

prop("C12", "Initial centroids are distinct data elements",
 "Given at least k elements (k >= 1), each provided initialiser (given, random, kmeans++) returns exactly k centroids that are copies of data elements: the first k in order for the given initialiser, k different data positions for the random one, and k elements at pairwise positive distance for kmeans++. When k < 1 or there are too few (for kmeans++: too few distinct) elements it returns an error, no usable centroid list, and does not panic; lookup by name ignores case.",
 [I, C], "all data sets (with duplicates), k including 0, negative and too large, all random outcomes",
 "tests use fixed data and seeds; duplicates, boundary random draws and error returns for each initialiser are not enumerated",
 ["kmeans/init.go", "core/clustering.go"], [("initialisers", "kmeans/init.go")],
 PBT + "validity predicate under scripted random sources", BASE)

prop("C13", "Weighted draws return an index of positive weight",
 "For any non-negative weights with a positive sum and any outcome of the random generator, a weighted draw returns a valid index whose weight is positive, namely the first index at which the running sum of weights reaches the drawn fraction of the total (up to rounding). Weights summing to zero give an error.",
 [I], "all weight vectors (zeros, tiny and huge ratios) and all values the generator can return, including its smallest and largest",
 "a test draws from a few fixed weights with ordinary seeds; boundary draws (0, 1-2^-53) and rounding overruns have probability ~0 under sampling",
 ["kmeans/init.go"], [("inverse-cdf draw", "kmeans/init.go WeightedChoice")],
 PBT + "inverse-cdf oracle under a scripted random source", BASE)

prop("C14", "k-means iterations are Lloyd steps",
 "Each k-means iteration replaces every centroid by the average of the elements currently nearest to it and leaves unchanged the centroids no element is nearest to; the number of centroids never changes. Consequently, in Euclidean space the total squared loss over fixed data never increases from one iteration to the next, and the parallel and sequential versions produce the same centroids up to rounding for any number of CPUs.",
 [I, C, H], "all data sets, initial centroids, K, numbers of iterations, Par on/off, NumCPU >= 1",
 "tests run fixed vectors to convergence and compare the end result only",
 ["kmeans/impl.go", "kmeans/seq.go", "kmeans/par.go", "core/clustering.go", "core/par_dba.go"], [("Lloyd step", "kmeans/seq.go, kmeans/par.go")],
 PBT + "step-by-step differential against a Lloyd reference, monotone-loss invariant", BASE)

prop("C15", "MCMC changes k by at most one within bounds and only on acceptance",
 "From one MCMC iteration to the next the number of centroids changes by at most one, never in a direction of probability zero, and always stays between 1 and the configured maximum, never above the number of elements. The move of the proposed number of centroids is drawn with the probabilities of the configured weights, then kept within these bounds (a birth needs an element away from the centroids). Centroids change only in iterations counted as accepted, an accepted iteration increases the acceptation count by exactly one, and within one run since initialisation the count never exceeds the number of iterations.",
 [I, C, H], "all data sets, initial k, maximal k, k-move probabilities, amplitudes, alteration distributions, seeds, re-initialisations",
 "tests check one converged run; the per-iteration relation is never observed",
 ["mcmc/impl.go", "mcmc/store.go"], [("k move", "mcmc/impl.go nextK"), ("acceptance bookkeeping", "mcmc/impl.go doIter")],
 PBT + "invariant over the iteration history of generated chains", BASE)

prop("C16", "MCMC acceptance follows the documented ratio",
 "In every MCMC iteration lambda = Amp*sqrt((dim+3)/n) with n the number of elements held, the Gibbs figure is lambda times (loss of the current centroids minus loss of the proposed ones, both measured on these n elements with the configured exponent), and rho = exp(Gibbs + dim*(k-k')*ln(2B) + logdensity(current) - logdensity(proposed)). A proposal is accepted exactly when a uniform draw in [0,1) is below rho, so rho >= 1 is always accepted; figures report the values of the last iteration, and the time figure is n.",
 [I, C, H], "all data sets, configurations, distributions, seeds, and pushes between iterations",
 "tests check that figures exist and a converged result on one data set",
 ["mcmc/impl.go"], [("acceptance", "mcmc/impl.go accept, propose, proba")],
 PBT + "recomputation of the ratio from observed proposals (recording distribution and space)", BASE)

prop("C17", "Stored centers are recalled or derived by one birth or death",
 "Asking for k centers returns the last centers stored for k if any; otherwise, from a previous clustering with k+1 centers it returns it with exactly one center removed and order kept, with k-1 centers it returns it plus one data element at positive distance from the previous centers, and with k centers the clustering itself. A derivation is an independent copy, and needing a new center when no element differs from the previous centers is an error.",
 [I, H], "all sequences of stores and queries, data sets, random draws",
 "tests store and query once each on fixed data",
 ["mcmc/store.go", "kmeans/init.go"], [("center store", "mcmc/store.go")],
 PBT + "stateful model of the store", BASE)

prop("C18", "Alteration distributions: Student density and sampling",
 "The log-density of the multivariate t distribution equals lnGamma((d+nu)/2) - lnGamma(nu/2) - d/2*ln(pi*s) - (d+nu)/2*ln(1+|x-mu|^2/s) with s = nu/sqrt(20*time): it is finite, symmetric in x and mu, maximal at x = mu and strictly decreasing with their distance, for every dimension. Samples are fresh vectors of the dimension of mu, finite (for at least one degree of freedom), reproducible from the generator's state and spread around mu proportionally to 1/sqrt(20*time), translation-equivariantly. The Dirac distribution always samples mu with constant density.",
 [I, C], "all dimensions 1..1000, degrees of freedom, times, points",
 "tests evaluate a few low-dimensional values",
 ["mcmc/multivt.go", "mcmc/dirac.go"], [("density and sampling", "mcmc/multivt.go")],
 PBT + "closed-form reference with Lgamma; metamorphic laws for samples", BASE + "Sample statistics are not tested, only exact relations between samples drawn from equal generator states.")

prop("C19", "A late distribution is built once, from the first element",
 "A late-initialised distribution calls its builder exactly once, at the first sample or density query, with an element of that query, whatever the number of goroutines issuing the first queries. Every query, concurrent or not, is answered by the built distribution with unchanged arguments.",
 [S, H, I], "all sequences and concurrent schedules of first queries",
 "the test calls it sequentially",
 ["mcmc/latedistrib.go"], [("double-checked initialisation", "mcmc/latedistrib.go")],
 PBT + "stateful check plus generated concurrent histories, race detector in the thorough tier", BASE + VT)

prop("C20", "Streaming rule: outlier, new center or merge",
 "For each element the streaming algorithm finds the nearest center at distance d and the ratio r of d to the largest such distance seen so far (1 for the first positive one): after OutAfter elements, r > OutRatio makes the element a new center without changing the largest distance; otherwise a new center is made when a Normal(Mu,Sigma) draw is below r, else the element is merged into its nearest center as a running mean weighted by the number of elements merged so far. The largest distance never decreases and is reported as a figure.",
 [I, C, H], "all element sequences, configurations and random draws",
 "tests drive single steps with hand-made values",
 ["streaming/impl.go"], [("streaming step", "streaming/impl.go Process")],
 PBT + "reference model run in lock step with an identically seeded generator", BASE)

prop("C21", "Streaming consumes each accepted element once, in order",
 "An element pushed to the streaming algorithm is either refused with an error because the bounded queue is full, or accepted and consumed exactly once, in push order: first by initialisation (the first element becomes the first center, none is an error), then one per counted iteration. Iterations that find the queue empty leave centers unchanged and are not counted, and the sum of cluster weights equals the number of elements consumed.",
 [H, I, S], "all interleavings of pushes, initialisations, runs and pauses, buffer sizes and initial data",
 "tests push a few vectors, one at a time",
 ["streaming/impl.go", "core/algo.go"], [("bounded queue", "streaming/impl.go Push/Init/Iterate")],
 PBT + "stateful queue model in virtual time", BASE + VT)

prop("C22", "Control calls follow the documented life cycle",
 "Created -> (initialisation) -> Ready -> Running <-> Idle -> Ready or Finished is the only life cycle: each control call either performs its documented transition and is effective when it returns, or returns its documented error and changes nothing. Init on a live algorithm is 'already created', Play while running is 'running', Pause when not running is 'not running', Stop when neither ready, running nor paused is 'not alive', Wait is 'not running' before initialisation and 'idle' when paused. After a Stop that returned, no iteration starts until the next Play.",
 [H, C, S], "all sequences of Init, Play, Pause, Stop, Wait, Push, Batch over all configurations, with delays between calls",
 "tests follow a few fixed scenarios, most of them timing dependent (unstable in the baseline)",
 ["core/ctrl.go", "core/algo.go", "core/status.go"], [("state machine", "core/ctrl.go")],
 PBT + "stateful (model-based) testing in virtual time", BASE + VT)

prop("C23", "No sequence of control calls wedges the algorithm",
 "Whatever the order of control calls, from one or several goroutines, and whatever fails (initialisation returning an error, an iteration returning an error or panicking, a run ending by itself while a command is sent), every call returns, and the algorithm never stays Running or Idle without being able to be stopped. After a failure the status is Finished with that error, and the algorithm can be initialised and played again.",
 [S, H, F], "all concurrent histories of control calls, failure points in Init/Iterate, and schedules",
 "tests are sequential; a command racing with the end of a run is only reached at specific interleavings",
 ["core/ctrl.go", "core/algo.go"], [("command handshake with the run goroutine", "core/algo.go sendStatus, core/ctrl.go run/recover")],
 PBT + "generated concurrent histories and fault injection in virtual time with seeded schedule perturbation; deadlock detection", BASE + VT)

prop("C24", "Wait and Batch report how the run really ended",
 "Wait blocks until the given condition holds (by default: the run ended or was paused), then returns the error of the run, if any; it returns a timeout error, leaving the run going, when the maximal duration elapses first, and refuses to wait for something that can never finish; so does the public wait function on any model. Batch restarts the algorithm from scratch, runs it to its end and stops it: in the absence of other control calls it returns nil only if the whole run was executed without error, the algorithm being then Finished, and otherwise the initialisation, iteration or timeout error.",
 [H, C, F, S], "all configurations, finishing conditions, durations, failing iterations, at any speed of the run",
 "tests accept either outcome when the run fails quickly, and only use a few configurations",
 ["core/ctrl.go", "core/timeout.go"], [("wait loop", "core/timeout.go"), ("batch", "core/ctrl.go Batch")],
 PBT + "generated runs with fault injection in virtual time against an outcome model", BASE + VT)

prop("C25", "A run executes exactly its iteration budget",
 "With a budget, a run ends Ready exactly when the number of iterations since initialisation reaches Iter + IterPerData * (elements pushed since initialisation and counted at that moment), neither before nor after, unless stopped, failing, timed out or finished by a custom condition. No iteration is executed while the algorithm is Created, Ready, Idle or Finished, at most one iteration executes at any time, and playing again with an exhausted budget executes none.",
 [H, C, S], "all budgets, push times, pause/resume/stop times and iteration durations",
 "tests check one budget after the end of the run",
 ["core/ctrl.go", "core/finish.go"], [("run loop", "core/ctrl.go run"), ("budget", "core/finish.go IterFinishing")],
 PBT + "stateful testing in virtual time, iterations counted inside the implementation", BASE + VT)

prop("C26", "Pushed elements are counted and delivered exactly once",
 "Every push accepted by the implementation increases the pushed-data figure by exactly one and reaches the implementation exactly once, in order for one pusher, also when several goroutines push while the algorithm runs, pauses and stops; a refused push returns the implementation's error and changes no figure. With k-means or MCMC, every element accepted since creation takes part (within the frame) in the iterations, at the latest from the second one begun after the push, and is never lost or duplicated.",
 [H, S, F], "all interleavings of pushers with control calls; refusing implementations; frame sizes",
 "tests push sequentially from one goroutine and do not count",
 ["core/ctrl.go", "core/buffer.go", "kmeans/impl.go", "mcmc/impl.go"], [("push accounting", "core/ctrl.go Push"), ("staging", "core/buffer.go")],
 PBT + "generated concurrent histories in virtual time; multiset/order oracle", BASE + VT)

prop("C27", "Enough pushed data restarts a ready algorithm by itself",
 "With DataPerIter = n > 0, pushing to a Ready algorithm starts a run exactly when at least n elements have been pushed since creation or since the last such automatic start; with n = 0 a push never starts a run. A push never starts an algorithm that is Created, Idle or Finished.",
 [H, C], "all sequences of pushes and control calls, all n",
 "DataPerIter is only set, never observed, by tests",
 ["core/ctrl.go"], [("auto-play", "core/ctrl.go Push")],
 PBT + "stateful model in virtual time", BASE + VT)

prop("C28", "The status notifier sees every transition once, in order",
 "A configured notifier is called exactly once for each status change, in the order the changes happened, with the algorithm itself and the new status including its error. It may take any time and may itself query the algorithm or predict without blocking the algorithm, the caller, or itself.",
 [H, S, F], "all control histories, slow notifiers, notifiers querying the algorithm",
 "one unstable test with a passive notifier",
 ["core/algo.go"], [("notification", "core/algo.go setStatus/notify")],
 PBT + "stateful testing in virtual time; observed transition log vs model", BASE + VT)

prop("C29", "Published centroids and figures are stable snapshots",
 "Centroids and figures obtained from an algorithm never change afterwards, whatever the algorithm does next, and what the caller does to an obtained figures map never affects the algorithm. The centroids published are exactly those of the last counted iteration (or of initialisation), and the figures published with them are that iteration's own plus iterations, pushed data, duration and last data time.",
 [H, S, I], "all histories of iterations, pushes and reads with every algorithm",
 "tests read results after the end only",
 ["core/model.go", "core/ctrl.go", "streaming/impl.go", "kmeans/impl.go", "mcmc/impl.go"], [("publication", "core/ctrl.go saveIterContext"), ("accessors", "core/model.go")],
 PBT + "deep-copy comparison of every snapshot over generated histories", BASE + VT)

prop("C30", "A copy is independent and honours its new configuration",
 "Copying an algorithm gives a new, Created one that holds the data of the original (for k-means and MCMC the elements its iterations use, for streaming its centers) and behaves exactly as a freshly built one with the given configuration and space and this data. Afterwards neither influences the other, and an invalid configuration is reported as an error instead of a panic.",
 [H, C, I], "all algorithms, configurations (frame, parallelism, generator, buffer), and later operations on both",
 "tests only check that a copy can be made",
 ["core/ctrl.go", "kmeans/impl.go", "mcmc/impl.go", "streaming/impl.go"], [("copy", "core/ctrl.go Copy, Impl.Copy")],
 PBT + "differential: copy vs freshly built algorithm; interference check", BASE)

prop("C31", "A timed-out run stops with a timeout error, never early",
 "With a timeout T, a run still going or paused T after it was played becomes Finished with the timeout error within one iteration; it is never interrupted by it before. The timeout of an earlier play never interrupts a later one, nor an algorithm initialised again afterwards. A disabled timeout never interrupts, an enabled one does so exactly once.",
 [H, C, S], "all timeouts, iteration durations, pauses, stops and restarts",
 "tests use a 1 ns timeout only",
 ["core/timeout.go", "core/ctrl.go"], [("timer", "core/timeout.go"), ("interruption", "core/ctrl.go interrupt")],
 PBT + "virtual-time histories against an exact clock model", BASE + VT)

prop("C32", "Iteration frequency is an upper bound",
 "With an iteration frequency f, within a run no time interval of length t contains more than t*f + 1 iteration starts, plus one per resumption since the iteration before it, while iterations still proceed at that frequency when the implementation is faster. Slow iterations, pauses and stops never cause a burst of iterations to catch up later.",
 [C, H], "all frequencies, iteration durations, pauses",
 "a test counts iterations in one second at one frequency",
 ["core/ctrl.go"], [("temporisation", "core/ctrl.go run")],
 PBT + "exact virtual-time timestamps of iterations", BASE + VT)

prop("C33", "Configurations are completed and validated before use",
 "Preparing a configuration fills every omitted parameter with its documented default without touching the given ones, and preparing twice changes nothing more. It fails exactly on invalid parameters (negative Iter, IterPerData, DataPerIter, IterFreq or Timeout; K or initial K below 1; initial K above maximal K; OutAfter below 2), and building an algorithm with an invalid configuration, or streaming with more initial elements than its queue holds, never gives a usable algorithm and never blocks.",
 [C], "all combinations of set, omitted and invalid parameters of the four configurations",
 "tests check one invalid value per parameter",
 ["core/conf.go", "kmeans/conf.go", "mcmc/conf.go", "streaming/conf.go"], [("defaults and verification", "*/conf.go")],
 PBT + "independent validity predicate and default table", BASE)

prop("C34", "Finishing conditions compose as boolean logic",
 "A conjunction holds exactly when it has at least one operand and all hold, a disjunction exactly when some operand holds, and an absent condition never holds, for any nesting. The iteration condition holds exactly when one of its parameters is positive and the iterations figure has reached Iter + IterPerData * pushed data; the status condition holds exactly when the status is one of those listed or, if asked, an error is present. A run with a custom condition stops Ready right after the first iteration that makes it or the budget hold.",
 [I, C, H], "all trees of conditions, figures and statuses; all runs with custom conditions",
 "only two leaf conditions are exercised by tests",
 ["core/finish.go", "core/ctrl.go"], [("combinators", "core/finish.go")],
 PBT + "boolean reference evaluator; runs in virtual time", BASE + VT)

prop("C35", "Playing after Stop starts afresh",
 "Playing or initialising a Finished algorithm initialises it again: iterations, pushed data, duration and last data time restart from zero, the previous error is gone, and the run that follows is the one a newly built algorithm holding the same data would do. This holds for k-means, MCMC and streaming and after success, failure or timeout alike.",
 [H, C, F], "all histories ending in Finished followed by Init/Play/Batch",
 "tests replay once and only look at the iteration count",
 ["core/ctrl.go", "mcmc/impl.go", "streaming/impl.go", "kmeans/impl.go"], [("re-initialisation", "core/ctrl.go init")],
 PBT + "differential: restarted vs fresh algorithm in virtual time", BASE + VT)

prop("C36", "User data is never modified",
 "Elements, slices of elements, initial centroids and label or weight arrays given to the library (at construction, by push, for prediction or for reduction) are never modified by it: running an algorithm never alters an element, or a slice, the user gave. This holds for every algorithm, initialiser and provided space.",
 [I, H, C], "all data, algorithms, spaces, initialisers and histories",
 "tests never compare the inputs afterwards",
 ["core/clustering.go", "core/buffer.go", "kmeans/init.go", "mcmc/store.go", "streaming/impl.go", "dtw/interpolate.go", "euclid/vectors.go"], [("copies before update", "Space.Copy call sites")],
 PBT + "deep snapshot of every input before/after generated histories", BASE)

prop("C37", "Everything may be used concurrently with a running algorithm",
 "While an algorithm runs, any number of goroutines may push, predict, read status, centroids and figures, copy, pause, resume and stop it: no call crashes, returns torn values or is lost. Figures read by one goroutine never go backwards during a run (iterations, pushed data), and a figures map obtained can be read freely.",
 [S, H], "all concurrent client histories with the provided algorithms, in parallel and sequential mode",
 "tests use the algorithm from one goroutine",
 ["core/ctrl.go", "core/model.go", "core/algo.go"], [("locks", "core/algo.go modelMutex/statusMutex")],
 PBT + "generated concurrent client programs on real threads, race-detector build in the thorough tier", BASE + "Real-thread schedules are sampled, not controlled.")

prop("C38", "Clustering is equivariant under symmetries of the data",
 "In Euclidean space, k-means with given initial centroids commutes with translating, scaling by a power of two, permuting coordinates and negating coordinates of all data, and with permuting the initial centroids (labels are permuted); centroids do not depend on the order of the data or on duplicating every element, up to rounding. In cosine space assignments are unchanged by positive scaling of elements.",
 [I, C], "all data sets in general position, transformations and numbers of iterations",
 "no test compares two runs",
 ["kmeans/impl.go", "core/clustering.go", "euclid/vectors.go", "cosinus/cosinus.go"], [("Lloyd step", "kmeans")],
 PBT + "metamorphic relations between generated runs", BASE + "Runs in which two centroids are nearly equidistant from an element are excluded by construction of the comparison (counted).")

prop("C39", "An implementation is driven by a faithful iteration contract",
 "An implementation's initialisation and iterations receive a model they can query, whose configuration and space are the algorithm's: an initialisation sees the status Initializing and no iterations of a previous session, an iteration the status Running and the centroids last published; its figures carry the iteration and pushed-data counts. An iteration returning no centroids changes neither the published centroids nor the iteration count, an iteration returning centroids publishes them and adds one, and one returning an error or panicking, be it in a parallel worker, publishes nothing and ends the run as Finished with that error; an initialisation returning an error or panicking publishes nothing and leaves the status Finished with that error. The algorithm can be used again afterwards.",
 [H, F, S], "all sequences of iteration outcomes (centroids, none, error, panic), pushes and control calls",
 "the mock in the tests returns always centroids; no test has a space, a finishing predicate or an initialisation that panics",
 ["core/ctrl.go", "core/model.go", "core/impl.go"], [("run loop", "core/ctrl.go run")],
 PBT + "scripted implementation with recorded models, in virtual time", BASE + VT)

prop("C40", "Duration and last-data-time figures follow the clock",
 "The duration figure is the time spent between play and end of run, cumulated over the runs since initialisation (pauses included, time spent Ready excluded): it never decreases, never exceeds the time elapsed since initialisation, and is exact after each iteration. The last-data-time figure is the wall-clock second of the last accepted push since initialisation, and zero if there was none.",
 [H, C], "all histories with arbitrary delays between calls and iterations of arbitrary duration",
 "tests never read these figures",
 ["core/ctrl.go"], [("figures", "core/ctrl.go updateRuntimeFigures, saveIterContext, recover")],
 PBT + "exact virtual-clock model", BASE + VT)

prop("C41", "A seeded run is reproducible, alone or beside other algorithms",
 "Two algorithms built with the same configuration, data and seeded generators, and given the same batches, initialisations, pushes and copies, publish exactly the same centroids, figures (clocks excepted), errors and predictions, whatever the delays of their threads and whatever other algorithms run at the same time: no state is shared between algorithms built separately and no other source of randomness is used.",
 [I, C, S], "every algorithm, space, initializer and distribution, sequential or parallel of a given degree, all seeds, histories and thread schedules",
 "tests use a seed to obtain one known result and never run anything twice or two algorithms at once",
 ["kmeans/init.go", "mcmc/impl.go", "mcmc/store.go", "mcmc/multivt.go", "streaming/impl.go", "core/par_dba.go"], [("random generators", "conf RGen; kmeans/init.go; mcmc/store.go; mcmc/multivt.go"), ("aggregation in rank order", "core/par_dba.go, par_loss.go")],
 PBT + "metamorphic: the same seeded history twice, under different delays, and beside another algorithm", BASE + VT)

prop("C42", "Memory and activity stay bounded",
 "Whatever is pushed for however long, an algorithm with a frame of k-means or MCMC holds no more elements than its frame plus those it had to accept before its next iteration (and a bounded number of centers and intermediate results), and the streaming algorithm no more than its queue and its centers: the others are released. Runs, waits, timeouts, notifications and pauses leave no goroutine behind once the algorithm is stopped and the timeouts that were set have elapsed.",
 [I, C], "all histories of pushes, initialisations, runs, pauses, waits and timeouts of any length",
 "tests push a handful of elements and never look at what remains",
 ["kmeans/algo.go", "mcmc/algo.go", "mcmc/store.go", "streaming/impl.go", "core/ctrl.go", "core/finish.go", "core/timeout.go"], [("frame", "core/buffer.go Push, Apply"), ("store", "mcmc/store.go")],
 PBT + "elements under weak references counted after a collection, goroutines counted in a virtual-time bubble", BASE + VT + "The bound on the elements held leaves room for a few times the frame and the largest backlog.")

prop("C43", "Random choices follow their law",
 "With a good generator, the random initialiser draws every set of k positions with the same probability. k-means++ draws its first centroid uniformly among the elements and every next one with a probability proportional to its distance to the nearest centroid already drawn; a birth of MCMC draws its new center likewise from the previous centers, and a death removes any center with the same probability. A weighted draw returns an index with a probability proportional to its weight. Streaming makes a new center of an element (no outlier) with the probability that a normal draw of mean Mu and deviation Sigma is below its relative distance. A component of a sample around mu at time t, less mu and times sqrt(20t), follows the Student distribution with Nu degrees of freedom.",
 [I, C], "all data sets (small enough to enumerate the outcomes), numbers of clusters, weights, configurations and seeds",
 "tests draw once, or look at one mean; a bias of a few percent, or in a case the tests do not draw, is invisible",
 ["kmeans/init.go", "mcmc/store.go", "mcmc/multivt.go", "streaming/impl.go"], [("draws", "kmeans/init.go RandInitializer, PPInitializer, PPIter, WeightedChoice; mcmc/store.go addCenter, delCenter; mcmc/multivt.go Sample; streaming/impl.go Process")],
 PBT + "exact law of each generated case against the counts of thousands of draws, Chernoff bound", BASE + "Statistical: a right law is rejected with a probability below 1e-13 per case; deviations of a few percent are detected.")

NOT_APPLICABLE = []

IMPLEMENTED = None  # None = all

def main():
    impl_file = os.path.join(ROOT, "tools", "implemented.txt")
    impl = set(open(impl_file).read().split()) if os.path.exists(impl_file) else set()
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in impl:
            checks.append(dict(property=p["id"], quick_cmd="./check %s quick" % p["id"],
                               thorough_cmd="./check %s thorough" % p["id"],
                               evidence_file="evidence/%s.json" % p["id"],
                               technique=p["_technique"], level="exploration", level_note=p["_note"].strip()))
        else:
            na.append(dict(property=p["id"], reason=dict(NOT_APPLICABLE).get(p["id"], "check under construction")))
    m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
             notes="Checks build a Go test binary from /repo's working tree (module replace + generated -overlay that only swaps the sync package for a virtual-time-aware equivalent); no hooks are added to /repo. Known and fixed findings: KNOWN_FINDINGS.txt.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")

main()
