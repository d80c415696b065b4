import json
I='include/boost/accumulators/'
S=I+'statistics/'; F=I+'framework/'; N=I+'numeric/'
P=[]
def p(id,title,stmt,over,q,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or ["results returned by the public extractors"],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","Basic statistics equal their definitions on every prefix of every stream",
 "After any finite sequence of samples, and after every prefix of it, the count, sum, mean, minimum, maximum, N-th moment, variance, skewness, kurtosis and standard error of the mean extracted from a set equal the textbook quantities of exactly the samples pushed so far, up to floating-point rounding. Integer samples give exact counts, sums, minima and maxima and a non-truncated mean, and an empty set reports a zero count and sum and the identity elements of minimum and maximum.",
 ["inputs","histories"],"all finite sample sequences (any length, order, sign, magnitude, ties) of every arithmetic sample type, and all prefixes at which a result is extracted",
 "The tests push three to five fixed small samples per statistic and compare one or two extractions with constants; they reach no long streams, no extreme magnitudes, no ordering effects and hardly any sample types.",
 [S+'count.hpp',S+'sum.hpp',S+'mean.hpp',S+'min.hpp',S+'max.hpp',S+'moment.hpp',S+'variance.hpp',S+'skewness.hpp',S+'kurtosis.hpp',S+'error_of_mean.hpp'],
 [("count_impl/sum_impl/mean_impl/immediate_mean_impl",S+'{count,sum,mean}.hpp'),("min_impl/max_impl seeded with as_max/as_min",S+'{min,max}.hpp'),("moment_impl with detail::pow",S+'moment.hpp'),("lazy_variance_impl/variance_impl",S+'variance.hpp'),("skewness_impl/kurtosis_impl from moments",S+'{skewness,kurtosis}.hpp')])

p("C02","Weighted statistics equal their weighted definitions",
 "For every sequence of (sample, weight) pairs with non-negative weights whose running total is positive, the sum of weights, weighted sum, mean, moments, variance, skewness, kurtosis and the weighted-variate statistics equal their definitions over exactly the pairs pushed so far, up to rounding. Repeating a sample k times with weight 1 or pushing it once with weight k gives the same weight-normalised results, and all weights equal to one reproduces the unweighted statistics.",
 ["inputs","histories"],"all finite sequences of sample/weight pairs, all weight magnitudes, sample and weight type combinations and all prefixes",
 "Tests use a handful of small integer weights on one fixed stream per statistic.",
 [S+'weighted_sum.hpp',S+'weighted_mean.hpp',S+'weighted_moment.hpp',S+'weighted_variance.hpp',S+'weighted_skewness.hpp',S+'weighted_kurtosis.hpp',S+'sum.hpp',F+'accumulators/../accumulator_set.hpp'],
 [("feature substitution by as_weighted_feature",F+'depends_on.hpp'),("weighted_* accumulators",S+'weighted_*.hpp')])

p("C03","Covariance and vector-valued statistics are right in every component",
 "For every stream of samples with covariates, covariance equals the population covariance of exactly the pairs pushed so far, its matrix form for vector-valued operands has one row per covariate component and one column per sample component, and the weighted form weights every pair. Statistics over vector, array and complex samples equal the scalar statistic applied to each component independently.",
 ["inputs","histories","configurations"],"all streams of sample/covariate tuples, all dimensions of vector-valued operands (including unequal ones), both covariates, weighted and unweighted",
 "Tests check one stream of five points and equal-sized two- or three-component vectors.",
 [S+'covariance.hpp',S+'weighted_covariance.hpp',S+'variates/covariate.hpp',N+'functional/vector.hpp',N+'functional/valarray.hpp',N+'functional/complex.hpp'],
 [("covariance_impl, weighted_covariance_impl",S+'{weighted_,}covariance.hpp'),("outer_product",S+'covariance.hpp'),("element-wise operators",N+'functional/*.hpp')])

p("C04","Compensated sums stay within the compensated-summation error bound",
 "For every stream of floating-point samples the compensated sum of samples, of weights, of covariates and of weighted samples differs from the exact sum by at most about two rounding errors of the sum of absolute values, independent of the number of samples. Extracting the sum at intermediate points never loses accuracy of later extractions.",
 ["inputs","histories"],"all floating-point streams, including large/small alternation, cancellation, long streams of tiny increments, and all extraction points",
 "The tests add 1e-6 to 1 ten times or similar; the error bound needs adversarial magnitudes and long streams.",
 [S+'sum_kahan.hpp',S+'weighted_sum_kahan.hpp'],
 [("sum_kahan_impl::operator()",S+'sum_kahan.hpp'),("weighted_sum_kahan_impl::operator()",S+'weighted_sum_kahan.hpp')],
 state=[("compensation","running low-order part of the sum",S+'sum_kahan.hpp')])

p("C05","Rolling statistics describe exactly the last N samples",
 "At every moment the rolling count, sum, mean, moments and variance equal the statistic of exactly the last min(n, window size) samples pushed, whatever was pushed before, and the rolling window yields those samples oldest first. Samples that have left the window influence nothing beyond bounded rounding, and nothing at all for integers.",
 ["inputs","histories","configurations"],"all window sizes from one up, all stream lengths before, at and after the window fills and wraps many times, all sample types",
 "Tests use windows of three to five and about ten samples, so the window wraps once or twice.",
 [S+'rolling_window.hpp',S+'rolling_count.hpp',S+'rolling_sum.hpp',S+'rolling_mean.hpp',S+'rolling_moment.hpp',S+'rolling_variance.hpp'],
 [("rolling_window_plus1_impl keeps one extra sample",S+'rolling_window.hpp'),("is_rolling_window_plus1_full / add-subtract updates",S+'rolling_{sum,mean,moment,variance}.hpp')],
 state=[("buffer_","circular buffer of window+1 samples",S+'rolling_window.hpp')])

p("C06","A tail holds exactly the most extreme samples, paired with their own covariates",
 "After any stream, the left (right) tail of cache size c yields exactly the min(n, c) smallest (largest) samples in ascending (descending) order, duplicates included. The tail covariates and tail weights yield, position by position, values that were pushed together with the sample reported at that position, each pushed tuple used at most once.",
 ["inputs","histories","configurations"],"all streams (with ties), cache sizes, both sides, covariates and weights together, all extraction points",
 "Tests push five to ten distinct ordered samples with cache size four or less.",
 [S+'tail.hpp',S+'tail_variate.hpp',S+'tail_variate_means.hpp'],
 [("tail_impl heap of indices with is_sorted flag",S+'tail.hpp'),("tail_variate_impl/assign_variate visitor",S+'tail_variate.hpp')],
 state=[("indices","heap or sorted order over cached samples",S+'tail.hpp')])

p("C07","Tail quantiles and tail means equal their order-statistic definitions",
 "For every stream, probability and cache size, the tail quantile, non-coherent tail mean, coherent tail mean and absolute or relative tail covariate means, weighted and unweighted, equal their definitions over the ceil(n*alpha) (or weight-cumulated) most extreme samples. When the cached tail cannot answer the requested probability they return NaN, or throw for types without NaN, and never a silently wrong number.",
 ["inputs","histories","configurations"],"all streams, probabilities, cache sizes, sides, weights, and all extraction points",
 "Tests check a few probabilities on one fixed or random stream with percent-level tolerances.",
 [S+'tail_quantile.hpp',S+'tail_mean.hpp',S+'tail_variate_means.hpp',S+'weighted_tail_quantile.hpp',S+'weighted_tail_mean.hpp',S+'weighted_tail_variate_means.hpp'],
 [("tail_quantile_impl",S+'tail_quantile.hpp'),("coherent_tail_mean_impl/non_coherent_tail_mean_impl",S+'tail_mean.hpp'),("weighted_* loops over tail weights",S+'weighted_tail_*.hpp')])

p("C08","Histograms conserve every sample and put it in its own bin",
 "Once the cache has filled, the histogram reports num_bins equal-width bins spanning the range of the cached samples plus one underflow and one overflow bin; each bin's value is the fraction of all samples (or of all weight) pushed so far that lies in it, so the fractions sum to one at every extraction. Bin positions never move after they are fixed, and later samples only add to their own bin.",
 ["inputs","histories","configurations"],"all streams, cache sizes, bin counts, weights and extraction points",
 "No test checks conservation or bin membership; median tests exercise the histogram with percent tolerances.",
 [S+'density.hpp',S+'weighted_density.hpp'],
 [("density_impl",S+'density.hpp'),("weighted_density_impl",S+'weighted_density.hpp')],
 state=[("samples_in_bin","per-bin counts",S+'density.hpp'),("bin_positions","lower bounds",S+'density.hpp')])

p("C09","P-square quantile and distribution estimates follow the P-square algorithm",
 "For every stream and probability the P-square quantile estimate, and the P-square cumulative distribution for every number of cells, equal, from the sample that fills their initial markers on, what the published P-square recurrences give on that stream, weighted and unweighted. Estimates never leave the range of the samples seen, the distribution is non-decreasing, its outermost markers are the exact minimum and maximum, and its last cumulative value is one.",
 ["inputs","histories","configurations"],"all streams (monotone, reversed, constant, heavy ties, heavy tails), probabilities, cell counts, weights and extraction points",
 "Tests use one uniform or normal stream of 10^5 samples and accept errors of one to fifteen percent.",
 [S+'p_square_quantile.hpp',S+'p_square_cumul_dist.hpp',S+'weighted_p_square_quantile.hpp',S+'weighted_p_square_cumul_dist.hpp'],
 [("p_square_quantile_impl::operator()",S+'p_square_quantile.hpp'),("p_square_cumulative_distribution_impl::operator()",S+'p_square_cumul_dist.hpp')],
 state=[("heights / actual_positions / desired_positions","P-square markers",S+'p_square_quantile.hpp')])

p("C10","Extended P-square quantiles follow the algorithm and interpolate faithfully",
 "For every increasing list of probabilities and every stream, the estimates of the extended P-square accumulator equal, from the sample that fills its initial markers on, what the published extended recurrences give, weighted and unweighted. A quantile requested between two tracked probabilities is the linear (or, through the three nearest, quadratic) interpolation of the neighbouring tracked quantiles, a tracked probability returns its own estimate, and a probability outside the tracked range yields NaN or an exception instead of a number.",
 ["inputs","histories","configurations"],"all probability lists, streams, weights, requested probabilities and extraction points",
 "Tests use one list of probabilities on one uniform and one normal stream with percent tolerances.",
 [S+'extended_p_square.hpp',S+'extended_p_square_quantile.hpp',S+'weighted_extended_p_square.hpp'],
 [("extended_p_square_impl",S+'extended_p_square.hpp'),("extended_p_square_quantile_impl",S+'extended_p_square_quantile.hpp')])

p("C11","Every median estimator brackets the median its own model implies",
 "For every stream, the median taken from the P-square estimator, the histogram and the P-square distribution, weighted and unweighted, equals the point at which that model's own cumulative distribution crosses one half, at every extraction. Extracting it earlier or repeatedly never changes what a later extraction returns.",
 ["inputs","histories","configurations"],"all streams, bin and cell counts, weights and extraction schedules",
 "Tests extract each median once after one normal stream and accept an absolute error of a few percent.",
 [S+'median.hpp',S+'weighted_median.hpp'],
 [("median_impl/with_density_median_impl/with_p_square_cumulative_distribution_median_impl",S+'median.hpp'),("weighted counterparts",S+'weighted_median.hpp')])

p("C12","Peaks-over-threshold fits equal their moment formulas at every extraction",
 "For every stream, threshold value or threshold probability and tail side, the fitted parameters equal the moment-based formulas over exactly the exceedances seen so far, and the derived quantile and tail mean equal their closed forms in those parameters, weighted and unweighted. This holds however often and whenever results are extracted in between.",
 ["inputs","histories","configurations"],"all streams, thresholds, threshold probabilities, sides, weights and extraction schedules",
 "Tests extract once at the end of one normal and one exponential stream with percent tolerances.",
 [S+'peaks_over_threshold.hpp',S+'pot_quantile.hpp',S+'pot_tail_mean.hpp',S+'weighted_peaks_over_threshold.hpp'],
 [("peaks_over_threshold_impl/_prob_impl",S+'peaks_over_threshold.hpp'),("pot_quantile_impl/pot_tail_mean_impl",S+'pot_{quantile,tail_mean}.hpp'),("is_dirty_ cache of fit parameters",S+'peaks_over_threshold.hpp')])

p("C13","Lazy and immediate variants of a statistic agree",
 "For every stream, the lazily computed and the incrementally maintained variants of a statistic (mean, variance, weighted mean, weighted variance, means of covariates and weights, rolling mean, rolling variance) extracted at the same point report the same value up to rounding. Either variant can stand in wherever the statistic is needed by others.",
 ["inputs","histories","programs"],"all streams and extraction points, and all statistics that depend on a variant",
 "Tests check each variant separately on one short stream.",
 [S+'mean.hpp',S+'variance.hpp',S+'weighted_mean.hpp',S+'weighted_variance.hpp',S+'rolling_mean.hpp',S+'rolling_variance.hpp'],
 [("feature_of/as_feature aliases",S+'mean.hpp'),("immediate_* accumulators",S+'{mean,variance,weighted_mean,weighted_variance}.hpp')])

p("C14","Each sample reaches every accumulator exactly once, dependencies first",
 "For every dependency graph of features, in every order of listing them, constructing a set builds each needed accumulator exactly once, after everything it depends on, and pushing a sample delivers it, with all named arguments intact, exactly once to each accumulator, again dependencies first. Features that share dependencies, aliases or substitutes share one accumulator.",
 ["programs","histories"],"all acyclic feature graphs (shared, transitive, duplicated, aliased dependencies), listing orders and push sequences",
 "No test observes delivery order or multiplicity; features in tests have a single fixed dependency chain.",
 [F+'accumulator_set.hpp',F+'depends_on.hpp',F+'accumulator_base.hpp',F+'extractor.hpp'],
 [("build_acc_list, feature insertion and ordering",F+'depends_on.hpp'),("accumulator_set::visit / accumulator_visitor",F+'accumulator_set.hpp')])

p("C15","A result never depends on which other features share the set",
 "For every stream and every selection and listing order of statistics of which no two provide the same feature, each statistic extracted from a combined set equals the value extracted from a set that computes only that statistic. Aliased spellings and extraction by tag or by extractor object give the same value.",
 ["programs","inputs","histories"],"all subsets and orders of the statistics that may share a set, and all streams",
 "Tests mostly instantiate one statistic per set.",
 [F+'accumulator_set.hpp',F+'depends_on.hpp',S+'stats.hpp'],
 [("dependency-driven accumulator list",F+'depends_on.hpp'),("extract_result/find_accumulator",F+'accumulator_set.hpp')])

p("C16","Droppable accumulators stop exactly when the last user of them is dropped",
 "A droppable accumulator keeps accumulating as long as it has been requested and not dropped, or anything still live depends on it; from the moment neither holds it ignores every further sample and keeps its value. Dropping never affects accumulators that are still requested or still needed, and non-droppable accumulators are never stopped.",
 ["histories","programs"],"all feature graphs mixing droppable and non-droppable features and variants, and all interleavings of pushes, drops and extractions",
 "One test file with four fixed push/drop scripts.",
 [F+'accumulators/droppable_accumulator.hpp',F+'accumulator_set.hpp',F+'accumulator_base.hpp',F+'depends_on.hpp'],
 [("droppable_accumulator_base ref_count_",F+'accumulators/droppable_accumulator.hpp'),("accumulator_set::drop, add_ref/drop visitors",F+'accumulator_set.hpp')])

p("C17","External, referenced and by-value accumulators behave as if inlined",
 "A set whose weights live in a separate set, whose accumulator is reached by reference, or whose value is supplied from outside reports the same results as a set computing everything itself from the same data. Named construction, accumulation and extraction arguments reach every accumulator that asks for them, whatever order they are given in.",
 ["inputs","histories","programs"],"all streams, extraction points, and orders of named arguments",
 "Tests check one scalar read through each mechanism and one argument order.",
 [F+'accumulators/external_accumulator.hpp',F+'accumulators/reference_accumulator.hpp',F+'accumulators/value_accumulator.hpp',F+'external.hpp',F+'extractor.hpp',F+'parameters/accumulator.hpp'],
 [("external_impl/reference_accumulator_impl/value_accumulator_impl",F+'accumulators/*.hpp'),("argument packs",F+'accumulator_set.hpp')])

p("C18","Copies and assignments are independent, equivalent values",
 "A copy, or the target of an assignment, reports exactly the results of its source at the moment of copying and, fed the same further samples, keeps reporting exactly the same; feeding one of the two never changes the other. This holds at every point of the stream, including while caches and windows are filling, exactly full or have wrapped, and for self-assignment and assignment over a set in any other state.",
 ["histories","inputs"],"all streams, copy and assignment points, source and target states and statistics",
 "Tests hardly copy a set that holds data.",
 [F+'accumulator_set.hpp',S+'rolling_window.hpp',S+'tail.hpp',S+'density.hpp',S+'extended_p_square.hpp',S+'p_square_cumul_dist.hpp'],
 [("compiler-generated copies of fusion lists",F+'accumulator_set.hpp'),("hand-written copy operations of rolling window and tail",S+'rolling_window.hpp, '+S+'tail.hpp')])

p("C19","Saving and loading a set preserves its results and its future",
 "For every statistic that supports saving, a set saved at any point of any stream and loaded into a freshly constructed set of the same type (constructed with the same or with other arguments) reports the same results as the original and, fed the same further samples, keeps doing so, for text and binary archives. Saving does not change the saved set.",
 ["histories","inputs","crash_points"],"all serializable statistics, save points (empty, part-filled, full, wrapped), archive kinds and continuations",
 "Tests save once at the end of a stream, compare one result and never continue pushing.",
 [F+'accumulator_set.hpp',S+'*.hpp'],
 [("serialize members of accumulators and the set",F+'accumulator_set.hpp, '+S+'*.hpp'),("circular buffer save/load",S+'rolling_window.hpp')])

p("C20","Extracting results is pure",
 "Extracting any result, any number of times, at any points of the stream and with any extraction arguments, never changes what this or any other extraction returns, then or later: the results at any moment depend only on the construction arguments and the samples pushed so far. Two extractions with no push between them are identical.",
 ["histories","inputs"],"all statistics, streams and extraction schedules",
 "Tests push everything and extract once.",
 [S+'tail.hpp',S+'density.hpp',S+'median.hpp',S+'peaks_over_threshold.hpp',S+'extended_p_square_quantile.hpp',S+'tail_variate_means.hpp',S+'weighted_tail_variate_means.hpp'],
 [("mutable caches and dirty flags",S+'{median,density,peaks_over_threshold,extended_p_square_quantile,tail}.hpp')])

p("C21","No input or history makes the library touch memory it does not own",
 "For every statistic, configuration inside its documented range, stream (however short) and interleaving of construction, pushes, extractions, copies, drops and destruction, the library performs no out-of-bounds, use-after-free or uninitialised access, no leak and no undefined arithmetic of its own making, and every call terminates. Failing allocations leave sets that can still be used for destruction without leaks.",
 ["inputs","histories","configurations","fault_sequences"],"all statistics, parameter values, streams and operation interleavings, and all points at which an allocation can fail",
 "The tests run without sanitizers, extract only after plenty of samples, and never fail an allocation.",
 [I+'framework',I+'statistics',I+'numeric'],
 [("index and iterator arithmetic over caches",S+'{tail,tail_quantile,tail_mean,density,median,rolling_window,extended_p_square_quantile}.hpp'),("construction order of accumulators",F+'depends_on.hpp')],
 observe=["AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer, valgrind memcheck and libstdc++ debug-mode reports"])

p("C22","Distinct sets can be used from different threads without interference",
 "Threads that each work on their own set, concurrently and without synchronisation, cause no data race and obtain exactly the results a single thread would, whatever the interleaving, including first use of every feature and extractor.",
 ["schedules","histories"],"all interleavings of threads operating on distinct sets of the same types",
 "No test starts a thread.",
 [F+'extractor.hpp',N+'functional.hpp',N+'detail/pod_singleton.hpp',S+'times2_iterator.hpp',I+'framework'],
 [("stateless global function objects, namespace-scope constants, no shared caches",N+'functional.hpp, '+F+'extractor.hpp')],
 observe=["ThreadSanitizer reports","per-thread results against a sequential run"])

p("C23","The numeric layer computes what the operators mean for every operand type",
 "For every pair of supported operand types (built-in arithmetic, vector, array, complex with scalars) the library's arithmetic, comparison, assignment, minimum/maximum, promotion and division function objects return what the plain operator returns applied to the operands or to each component, with division by a count never truncating for integers. The minimum, maximum, zero and one of a type or of every component are its true lowest, highest, additive and multiplicative identities, sized like the operand.",
 ["inputs","configurations"],"all operand values and operand type combinations, all dimensions including zero",
 "Tests exercise a handful of vector and valarray expressions through two statistics.",
 [N+'functional.hpp',N+'functional/vector.hpp',N+'functional/valarray.hpp',N+'functional/complex.hpp'],
 [("BOOST_NUMERIC_FUNCTIONAL_DEFINE_* function objects",N+'functional.hpp'),("tag-dispatched specialisations",N+'functional/*.hpp')])

p("C24","Memory use is bounded by the configuration, never by the number of samples",
 "For every statistic the memory a set holds is bounded by its construction arguments (cache size, window, bins, cells, probabilities) and the size of one sample, and no longer grows once those caches are full, however many samples are pushed and results extracted. Destroying the set returns all of it.",
 ["inputs","histories","configurations"],"all streams, lengths, extraction schedules and configurations",
 "No test measures memory.",
 [S+'tail.hpp',S+'tail_variate.hpp',S+'density.hpp',S+'rolling_window.hpp',S+'extended_p_square.hpp',S+'p_square_cumul_dist.hpp'],
 [("fixed-size caches",S+'{tail,tail_variate,density,rolling_window}.hpp')],
 observe=["allocation hooks counting live bytes and blocks"])

for d in P:
    assert len(d['title'])<=80,(d['id'],len(d['title']))
    d['anchors']['files']=[f.replace('accumulators/../','') for f in d['anchors']['files']]
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
print(len(P))
