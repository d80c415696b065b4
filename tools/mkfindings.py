"""known_findings.json: repaired defects (looked up by commit subject) and recorded ones."""
import json, subprocess
log = dict(reversed(l.split(' ', 1)) for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines())
FIXED = [  # property, subject prefix, what failed
 ('C03', 'fix: initialise the covariance matrix', 'covariance of vector samples with vector covariates of another dimension started from a matrix of the wrong shape'),
 ('C03', 'fix: do not let one accumulator move', 'a temporary vector passed as sample or covariate was moved from by the first accumulator, the others saw an empty one'),
 ('C03', 'fix: immediate mean of a variate', 'the immediate mean of a covariate or of the weights was initialised from the sample example value (wrong type or dimension)'),
 ('C05', 'fix: make the rolling_window extractor', 'rolling_window(acc) did not compile'),
 ('C07', 'fix: apply the correction term', 'coherent_tail_mean<left> dropped its correction term (operator precedence)'),
 ('C07', 'fix: tail_quantile accepts every rank', 'tail_quantile rejected the last cached rank and read before the first sample for rank 0'),
 ('C07', 'fix: weighted_tail_quantile no longer reads', 'weighted_tail_quantile read before the first cached sample when no weight is asked for'),
 ('C07', 'fix: tail_variate_means uses the whole cache', 'tail_variate_means rejected a rank equal to the cache size and read an empty cache'),
 ('C07', 'fix: weighted_tail_variate_means terminates', 'weighted_tail_variate_means looped for ever when the cache cannot answer'),
 ('C08', 'fix: weighted_density keeps bin positions', 'weighted_density stored bin positions in the type of the weights: float weights ruined double samples'),
 ('C09', 'fix: give the last marker of the weighted', 'the last marker of weighted_p_square_cumulative_distribution kept a plain weight instead of the cumulative weight'),
 ('C09', 'fix: desired marker positions of the weighted', 'desired positions of weighted_p_square_cumulative_distribution were one marker off'),
 ('C10', 'fix: interpolate linearly between only two', 'quadratic interpolation between only two tracked quantiles read outside the array'),
 ('C11', 'fix: with_density_weighted_median takes', 'weighted_median(with_density) did not compile for float samples with double weights'),
 ('C11', 'fix: restart the cumulative count', 'median(with_density) extracted twice with pushes in between went on counting from the previous evaluation'),
 ('C11', 'fix: density-based median no longer reads', 'median(with_density) read past the histogram when the median lies in the overflow bin'),
 ('C11', 'fix: interpolate the distribution-based median', 'median(with_p_square_cumulative_distribution) interpolated in the cell after the one containing one half and read out of bounds at the ends'),
 ('C12', 'fix: extracting a peaks-over-threshold fit no longer', 'extracting peaks_over_threshold turned the running sums into mean and variance, ruining every later fit'),
 ('C12', 'fix: every extraction of a peaks-over-threshold fit', 'peaks_over_threshold_prob accumulated into the previous evaluation and flipped the left threshold probability'),
 ('C12', 'fix: a peaks-over-threshold fit the cache cannot', 'a NaN answer of peaks_over_threshold_prob became (0,0,0) on the next extraction'),
 ('C12', 'fix: a peaks-over-threshold fit of an empty tail', 'peaks_over_threshold_prob read before the first cached sample for an empty tail'),
 ('C13', 'fix: order accumulators by the dependencies', 'rolling_variance(immediate) listed with rolling_mean(lazy) ran before the rolling sum its mean needs: ordering ignored the dependencies of substituted features'),
 ('C14', 'fix: construct accumulators in place', 'accumulators were constructed dependents first, as temporaries: an accumulator reading one it depends on in its constructor (documented as safe) read uninitialised memory'),
 ('C16', 'fix: dropping a feature releases', 'drop<mean>() of droppable<mean(immediate)> stopped an independently requested droppable sum, and drop in weighted sets released the unweighted dependencies'),
 ('C19', 'fix: let every stateless accumulator', 'error_of<mean>, lazy weighted mean/variance, weighted skewness/kurtosis/median and the weighted tail statistics (and everything depending on them) could not be saved: no serialize member'),
 ('C19', 'fix: save the whole state of weighted', 'weighted_peaks_over_threshold::serialize left out the sum of weights and did not compile; the threshold-probability variant had none'),
 ('C19', 'fix: tail_variate::serialize is public', 'tail_variate could not be saved: serialize was private'),
 ('C19', 'fix: save a rolling window element', 'a wrapped rolling window saved to a text archive could not be loaded back; class-type elements were saved as raw bytes'),
 ('C19', 'fix: initialise the cached value', 'saving a histogram- or distribution-based median before its first extraction wrote an indeterminate value'),
 ('C19', 'fix: save whether a droppable', 'a dropped accumulator came back to life in the loaded set'),
 ('C20', 'fix: which of several equal samples', 'extracting a tail changed which of several equal samples (and so which weight or covariate) was replaced later'),
 ('C23', 'fix: the multiplicative identity of std::complex', 'numeric::one<std::complex<T> >::value and as_one of a complex are (1,1) instead of (1,0)'),
]
FIXED += json.load(open('/verif/tools/fixed_more.json')) if __import__('os').path.exists('/verif/tools/fixed_more.json') else []
def known(prop, key, what):
    return dict(property=prop, status='known', key=key, what=what, entry='KNOWN-FINDING: property=%s %s' % (prop, what))


RECORDED = [
 known('C15', 'mean_of_variates:one sum for two covariates', 'stats<mean_of_variates<double, covariate1>, mean_of_variates<double, covariate2> >: both need sum_of_variates of their own covariate, but all sums of variates share one feature (abstract_sum_of_variates), so both means report the same covariate'),
 known('C15', 'weighted_mean_of_variates:one sum for two covariates', 'the same selection in a weighted set (abstract_weighted_sum_of_variates)'),
 known('C15', 'tail_quantile<left> with non_coherent_tail_mean<right>:one tail for two sides', 'stats<tail_quantile<left>, non_coherent_tail_mean<right> >: left and right tail share one feature (abstract_tail), so only one tail is kept and the other side is computed from it'),
]
out = []
for prop, subj, what in FIXED:
    h = [v for k, v in log.items() if k.startswith(subj)]
    assert len(h) == 1, (subj, h)
    out.append(dict(property=prop, status='fixed', commit=h[0], what=what, entry='fixed: property=%s %s %s' % (prop, h[0], what)))
n_fix = sum(1 for s in log if s.startswith('fix:'))
assert n_fix == len(FIXED), (n_fix, len(FIXED))
out += RECORDED
json.dump(dict(findings=out), open('/verif/known_findings.json', 'w'), indent=1)
print(len(out))
