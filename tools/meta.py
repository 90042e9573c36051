#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and h/assumptions.json from the one table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'include/boost/accumulators/statistics/'
F = 'include/boost/accumulators/framework/'
N = 'include/boost/accumulators/numeric/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), note='', assume=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, state=state, note=note, assume=list(assume)))


prop('C01', 'Count, sum, minimum and maximum are exact after every history',
     'After any sequence of samples, a set of statistics reports exactly how many samples it was given, their sum in the sample type, the smallest and the largest of them; before the first sample the count and the sum are zero (or the given starting value) and the minimum/maximum are the neutral extremes of the type. '
     'This holds for every arithmetic sample type, including negative, extreme, infinite and repeated values, with or without weights (a weight multiplies the sum, never the count, minimum or maximum), and for whichever of the four are asked for, alone or together.',
     ['inputs', 'histories'], 'all sequences of samples, all sample types, all subsets of the four statistics',
     'the unit tests push three or four small positive integers once; extremes, negative or repeated values and long histories are never seen',
     [S + 'count.hpp', S + 'sum.hpp', S + 'min.hpp', S + 'max.hpp', S + 'weighted_sum.hpp', N + 'functional.hpp'],
     [('initial values as_min / as_max / the sample type zero', S + 'min.hpp, max.hpp, sum.hpp'), ('update per sample', 'operator() of each accumulator')],
     ['count', 'sum', 'min', 'max', 'sum_of_weights', 'sum_of_variates'],
     note='integer results compared exactly, floating results within a few ulps of the sum of magnitudes')
prop('C02', 'Mean, moments, variance, skewness, kurtosis equal their definitions',
     'After any sequence of samples (at least as many as the statistic needs), the mean, the raw moments, the variance, the skewness, the (excess) kurtosis and the error of the mean equal the textbook values computed from all samples, up to rounding, with integer samples averaged in floating point rather than truncated. '
     'The incremental ("immediate") variant of a statistic and the computed-on-request ("lazy") one agree after every sample.',
     ['inputs', 'histories', 'configurations'], 'all sequences of samples; all sample types; each variant',
     'the tests use one fixed sequence per statistic with generous tolerances; errors that appear only after a particular number or order of samples, for one variant or for integer or unsigned samples are not seen',
     [S + 'mean.hpp', S + 'moment.hpp', S + 'variance.hpp', S + 'skewness.hpp', S + 'kurtosis.hpp', S + 'error_of.hpp', S + 'error_of_mean.hpp'],
     [('recursive updates', S + 'mean.hpp immediate_mean_impl, variance.hpp variance_impl'), ('formulae', 'result() of each accumulator')],
     ['mean', 'moment', 'variance', 'skewness', 'kurtosis', 'error_of'],
     note='tolerance proportional to the condition of the formula')
prop('C03', 'Weighted statistics equal their definitions; weight k = k repetitions',
     'After any sequence of samples with weights, the weighted sum, mean, moments, variance, skewness and kurtosis equal the weighted textbook values, up to rounding, for every combination of sample and weight types, lazily and incrementally alike. '
     'Giving a sample the integer weight k leads to the same mean, moments, skewness, kurtosis and variance formula as giving it k times with weight one.',
     ['inputs', 'histories', 'configurations'], 'all sequences of (sample, weight) pairs; all type combinations; each variant',
     'the tests use one short fixed sequence; unequal, fractional or large weights at a particular position and mixed types are not explored',
     [S + 'weighted_sum.hpp', S + 'weighted_mean.hpp', S + 'weighted_moment.hpp', S + 'weighted_variance.hpp', S + 'weighted_skewness.hpp', S + 'weighted_kurtosis.hpp', S + 'error_of_mean.hpp'],
     [('weighted updates', 'operator() of the weighted accumulators'), ('mapping from the plain name to the weighted accumulator', 'as_weighted_feature specialisations')],
     ['mean', 'moment', 'variance', 'skewness', 'kurtosis', 'sum', 'sum_of_weights'])
prop('C04', 'Covariate sums, means and covariances equal their definitions',
     'After any sequence of samples recorded with a covariate, the sum and mean of the covariate and the covariance of sample and covariate equal their definitions up to rounding, with and without weights, lazily and incrementally. '
     'For vector samples or covariates the covariance is the matrix with one row per covariate component and one column per sample component, for every pair of sizes.',
     ['inputs', 'histories', 'configurations'], 'all sequences of (sample, covariate[, weight]); scalar and vector operands of every size pairing',
     'the tests use one sequence with equal vector sizes; unequal sizes, long histories and weights were never combined (and were broken)',
     [S + 'covariance.hpp', S + 'weighted_covariance.hpp', S + 'mean.hpp', S + 'weighted_mean.hpp', S + 'sum.hpp', S + 'variates/covariate.hpp'],
     [('outer product', S + 'covariance.hpp'), ('recursive covariance update', 'covariance_impl')],
     ['covariance', 'mean_of_variates', 'sum_of_variates', 'weighted forms'])
prop('C05', 'Compensated sums stay within the compensated-summation error bound',
     'The compensated (Kahan) sums of samples, weights, covariates and weighted samples differ from the exact sum by no more than the error bound of compensated summation, independent of the number of samples, for every order and magnitude mix of the samples; for integers they are exact.',
     ['inputs', 'histories'], 'all sequences of samples of mixed magnitudes',
     'the tests add one constant many times; a lost compensation after a particular sample is invisible there',
     [S + 'sum_kahan.hpp', S + 'weighted_sum_kahan.hpp'], [('compensation term', 'sum_kahan_impl::operator()')], ['sum_kahan', 'sum_of_weights_kahan', 'weighted_sum_kahan', 'sum_of_variates_kahan'])
prop('C06', 'The rolling window, count and sum describe exactly the last N samples',
     'For every window size and after every sequence of samples, the rolling window holds exactly the last N samples (fewer before N have arrived) in arrival order, the rolling count is their number, and the rolling sum their sum up to rounding.',
     ['inputs', 'histories', 'configurations'], 'all sequences, all window sizes including one, wrapping any number of times',
     'tests roll one window of a fixed size a few steps; wraps, window size one and reading the window itself are not exercised',
     [S + 'rolling_window.hpp', S + 'rolling_count.hpp', S + 'rolling_sum.hpp'],
     [('circular buffer with one extra slot', S + 'rolling_window.hpp'), ('add the new, subtract the evicted', S + 'rolling_sum.hpp')],
     ['rolling_window', 'rolling_count', 'rolling_sum'], state=[('m_buffer', 'the last N+1 samples', 'rolling_window_plus1_impl')])
prop('C07', 'Rolling mean, moments and variance equal those of the last N samples',
     'For every window size and after every sequence of samples, the rolling mean, rolling moments and rolling variance (with the N-1 denominator) equal the values computed from the samples in the window, up to rounding. '
     'Incremental and lazy variants agree, alone and side by side in one set, while the window fills and after it has wrapped; rounding never makes the incremental variance negative.',
     ['inputs', 'histories', 'configurations'], 'all sequences, window sizes, sample types and variant mixes',
     'tests use one window size and one sequence per variant; a stale term after eviction or a wrong update order shows only in mixed sets after a wrap (and did)',
     [S + 'rolling_mean.hpp', S + 'rolling_moment.hpp', S + 'rolling_variance.hpp', S + 'rolling_sum.hpp'],
     [('incremental updates with the evicted sample', 'immediate_rolling_mean_impl, immediate_rolling_variance_impl, rolling_moment_impl')],
     ['rolling_mean', 'rolling_moment', 'rolling_variance'])
prop('C08', 'The tail cache is the c most extreme samples, in order, with their companions',
     'For a tail cache of size c on either side, after every sequence of samples the tail lists exactly the min(c, n) most extreme samples, from the most extreme inwards, and the tails of weights and covariates list the weight and covariate that arrived with each of them. '
     'It does not matter when the tail is looked at.',
     ['inputs', 'histories', 'configurations'], 'all sequences (ties included), cache sizes, sides and points at which the tail is read',
     'tests use a few fixed sequences; evictions among ties, a companion left at the wrong index and reads between evictions are not enumerated',
     [S + 'tail.hpp', S + 'tail_variate.hpp'],
     [('heap of indices into the sample cache', S + 'tail.hpp'), ('assign the companion at the same index', S + 'tail_variate.hpp')],
     ['tail', 'tail_variate', 'tail_weights'], state=[('indices', 'heap order', 'tail_impl'), ('is_sorted', 'heap or sorted', 'tail_impl')])
prop('C09', 'Tail quantiles and tail means equal the order statistics they stand for',
     'For every history and level whose tail is in the cache, the tail quantile is the corresponding order statistic (by cumulated weight for weighted samples), and the coherent, non-coherent and variate tail means equal their definitions over the samples at and beyond it, on both sides, with and without weights. '
     'Where the cache does not reach far enough the answer is not-a-number (or the documented exception), never a wrong value, an endless loop or an access outside the cache.',
     ['inputs', 'histories', 'configurations'], 'all sequences with ties, cache sizes, levels, sides, weights',
     'tests draw one long random sequence per statistic with loose tolerances; exact ranks, integer n*p, n equal to the cache size and weights that do not reach the level are not sampled (and were broken)',
     [S + 'tail_quantile.hpp', S + 'tail_mean.hpp', S + 'tail_variate_means.hpp', S + 'weighted_tail_quantile.hpp', S + 'weighted_tail_mean.hpp', S + 'weighted_tail_variate_means.hpp'],
     [('rank computation', 'result() of each accumulator'), ('cumulative weight loop', 'weighted_tail_*')],
     ['quantile', 'tail_mean', 'coherent_tail_mean', 'non_coherent_tail_mean', 'tail_variate_means', 'relative_tail_variate_means'])
prop('C10', 'The P-square estimators follow the P-square algorithm on every history',
     'After every sequence of samples, the streaming quantile, the median, the extended set of quantiles and the estimated cumulative distribution show exactly the marker heights and positions that the published P-square algorithm (Jain and Chlamtac) prescribes for that sequence, up to rounding. '
     'Hence the extreme markers are the smallest and largest sample, the estimates lie within the range of the samples and the markers are in non-decreasing order.',
     ['inputs', 'histories', 'configurations'], 'all sequences (ties and monotone runs included), all probabilities and numbers of cells',
     'tests compare one random sample with a loose statistical tolerance: any small error in a marker update hides in it',
     [S + 'p_square_quantile.hpp', S + 'median.hpp', S + 'extended_p_square.hpp', S + 'p_square_cumul_dist.hpp', S + 'times2_iterator.hpp'],
     [('marker heights, actual and desired positions', 'operator() of each accumulator'), ('parabolic, else linear, adjustment', 'operator() of each accumulator')],
     ['p_square_quantile', 'median', 'extended_p_square', 'p_square_cumulative_distribution'])
prop('C11', 'The weighted P-square estimators follow the algorithm, measured in weight',
     'After every sequence of weighted samples, the weighted streaming quantile, median, extended quantiles and cumulative distribution show the marker heights of the P-square algorithm with positions measured in weight, up to rounding. '
     'With all weights one they agree with the unweighted estimators, and the weighted cumulative distribution ends at one.',
     ['inputs', 'histories', 'configurations'], 'all sequences of (sample, weight) pairs, all probabilities and numbers of cells',
     'tests compare two random weighted samples with a loose statistical tolerance',
     [S + 'weighted_p_square_quantile.hpp', S + 'weighted_median.hpp', S + 'weighted_extended_p_square.hpp', S + 'weighted_p_square_cumul_dist.hpp'],
     [('weight-positions of the markers', 'operator() of each accumulator')],
     ['weighted_p_square_quantile', 'weighted_median', 'weighted_extended_p_square', 'weighted_p_square_cumulative_distribution'])
prop('C12', 'Extended quantiles interpolate the markers; outside, not a number',
     'The quantile asked of an extended set of streaming quantiles at a level between the lowest and highest given probability is the linear (or quadratic, where asked for) interpolation through the neighbouring quantiles, the quantile itself at a given probability; outside the range it is not-a-number or the documented exception. '
     'This holds for every list of probabilities, weighted or not.',
     ['inputs', 'histories', 'configurations'], 'all histories, probability lists and levels asked for',
     'tests ask a few levels of one long random sequence; boundary cells, short lists and exact hits are not covered (and were broken)',
     [S + 'extended_p_square_quantile.hpp', S + 'extended_p_square.hpp', S + 'weighted_extended_p_square.hpp'],
     [('search for the cell and interpolation', S + 'extended_p_square_quantile.hpp')], ['quantile(set, quantile_probability = p)'])
prop('C13', 'The density histogram counts every sample in its bin',
     'Once the cache is full, the density lists bins spanning the range of the cached samples plus one under- and one overflow bin; the share of each bin is the number (or the weight) of all samples so far, cached ones included, that lie in it (not below its lower bound, below that of the next), divided by the total, so the shares add up to one. '
     'The bin boundaries never change afterwards.',
     ['inputs', 'histories', 'configurations'], 'all sequences, cache sizes and numbers of bins',
     'tests look at one random sequence; boundary samples, tiny caches, under- and overflow at the moment the cache fills are not enumerated',
     [S + 'density.hpp', S + 'weighted_density.hpp'], [('bin positions fixed when the cache fills', 'density_impl::operator()'), ('binary search for the bin', 'density_impl::operator()')],
     ['density', 'weighted_density'])
prop('C14', 'Medians read off a histogram or distribution lie where the half is reached',
     'The median based on a density, or on an estimated cumulative distribution, is the point at which the linearly interpolated cumulated share reaches one half, for weighted and unweighted samples, after every history and on every extraction.',
     ['inputs', 'histories', 'configurations'], 'all histories, cache sizes, numbers of bins and cells, and sequences of reads',
     'tests read one random sequence once; a half reached in the first, last or overflow bin or on a boundary and a second read are not covered (and were broken)',
     [S + 'median.hpp', S + 'weighted_median.hpp', S + 'density.hpp', S + 'p_square_cumul_dist.hpp'], [('search for the half and interpolation', 'result() of the median accumulators')],
     ['median(with_density)', 'median(with_p_square_cumulative_distribution)'])
prop('C15', 'Peaks over threshold: fit, quantile and tail mean equal the method of moments',
     'For every history with samples beyond the threshold (given as a value or as a probability), the fitted location, scale and shape equal the method-of-moments fit of a generalized Pareto distribution to exactly those samples, and the quantile and tail mean derived from it equal their formulas, on both sides, with and without weights, on every extraction.',
     ['inputs', 'histories', 'configurations'], 'all histories, thresholds, sides, weights and sequences of reads',
     'tests compare one huge random sample with tolerance and read once',
     [S + 'peaks_over_threshold.hpp', S + 'weighted_peaks_over_threshold.hpp', S + 'pot_quantile.hpp', S + 'pot_tail_mean.hpp'], [('sums over the threshold', 'operator()'), ('moment fit', 'result()')],
     ['peaks_over_threshold', 'peaks_over_threshold_prob', 'quantile(with pot)', 'tail_mean(with pot)'])
prop('C16', 'Reading a result never changes anything',
     'Extracting any statistic any number of times, at any point of any history, gives the same value each time, and neither it nor any result extracted later differs from what a set fed the same samples and never read before would give.',
     ['histories', 'configurations'], 'all interleavings of samples and reads; every statistic of the library',
     'tests read each result once at the end, so state cached or modified by a read is invisible to them',
     [S + 'tail.hpp', S + 'density.hpp', S + 'median.hpp', S + 'peaks_over_threshold.hpp', F + 'extractor.hpp', F + 'accumulator_set.hpp'], [('results computed from state that only samples change', 'result() of every accumulator; mutable members behind a dirty flag')],
     ['every extractor'])
prop('C17', 'Accumulator sets are values: copies and assignments are independent',
     'A copied, copy-assigned, moved or self-assigned set continues exactly like a set that was fed the same samples itself; using or destroying either one afterwards never affects the other, for every statistic.',
     ['histories', 'configurations'], 'all sequences of samples, copies, assignments, moves, destructions; every statistic',
     'tests hardly ever copy a set with state, and never continue both sides',
     [F + 'accumulator_set.hpp', S + 'tail.hpp', S + 'rolling_window.hpp', S + 'tail_variate.hpp', F + 'depends_on.hpp'], [('memberwise copy of every accumulator, including those with caches and index heaps', 'copy constructors, where written by hand'), ('construction of the accumulator list', F + 'depends_on.hpp')],
     ['every extractor on every copy'])
prop('C18', 'A saved and restored set continues exactly like the original',
     'A set written to an archive at any point of any history and read back into a set of the same type, new or used, whatever parameters that one was made with, reports the same results and continues to do so with every further sample, for every statistic; what was dropped before it was written stays dropped; writing changes nothing.',
     ['histories', 'crash_points', 'configurations'], 'every point of every history; new or used target sets; every statistic; text and binary archives',
     'tests save each statistic once after a few samples and compare only at once',
     [F + 'accumulator_set.hpp', 'serialize member of every accumulator', S + 'rolling_window.hpp', S + 'tail.hpp'], [('serialize member of every accumulator', 'each statistics header')],
     ['every extractor after loading'])
prop('C19', 'A dropped feature stops, and stops its parts only when nobody else needs them',
     'A droppable feature keeps counting samples until it is dropped and keeps its last result from then on; whatever it depends on stops exactly when the last feature that needs it has been dropped, after it, and is told so once. '
     'Features that were not dropped, and what they depend on, never lose a sample, in every order of dropping.',
     ['histories', 'configurations'], 'all interleavings of samples, drops and reads over dependency graphs; kept (cached) results included',
     'tests drop one feature once; shared dependencies, orders of drops and drops in between were not enumerated (and were broken)',
     [F + 'accumulators/droppable_accumulator.hpp', F + 'accumulator_set.hpp', F + 'depends_on.hpp'], [('reference counts of droppable accumulators', 'droppable_accumulator.hpp'), ('visiting the dependencies of a dropped feature', 'accumulator_set::drop')],
     ['drop', 'results of droppable features', 'on_drop notifications'])
prop('C20', 'Features bring their dependencies, once each, updated dependencies first',
     'Whatever features are asked for, in whatever order and combination, a set contains each of them and everything they depend on exactly once (features that provide the same abstract feature, such as the lazy and the immediate mean, count as one), and hands every sample to every accumulator exactly once, dependencies before dependents. '
     'Hence a statistic gives the same result alone as together with any others, in any order.',
     ['configurations', 'histories'], 'all ordered subsets of features up to the bound; dependency graphs with shared, abstract and replaced features; library statistics pairwise',
     'tests use a handful of fixed combinations',
     [F + 'depends_on.hpp', F + 'accumulator_set.hpp', F + 'features.hpp', S + 'stats.hpp', F + 'accumulators/reference_accumulator.hpp'], [('insertion of features with their dependencies, keyed by the abstract feature', 'depends_on.hpp'), ('ordering of the accumulator list', 'depends_on.hpp')],
     ['the order of updates seen by probe accumulators', 'results of ordered pairs of statistics'])
prop('C21', 'External, reference and value accumulators mean what they refer to',
     'A statistic kept in another set is always the one that set has now; a reference accumulator always reports the referred-to object as it is now and a value accumulator the value it was given; results computed with weights kept outside equal those of a set that keeps its own weights. This holds after every history.',
     ['histories', 'configurations'], 'all interleavings of samples into either set, changes of the referred object, and reads',
     'tests do one fixed sequence', [F + 'external.hpp', F + 'accumulators/external_accumulator.hpp', F + 'accumulators/reference_accumulator.hpp', F + 'accumulators/value_accumulator.hpp', F + 'accumulator_set.hpp'],
     [('looking the feature up in the other set at extraction', 'external_accumulator.hpp')], ['extractors of sets with external features'])
prop('C22', 'Named and positional arguments, lookups and visits are interchangeable',
     'Passing the sample, its weight and other values by position or by name, in whatever order and together with names nobody uses, makes no difference for adding samples, making a set or reading results. '
     'Looking an accumulator up finds the one that an extractor reads, a visit reaches every accumulator exactly once, and a conditional visit exactly those that satisfy the condition.',
     ['programs', 'histories', 'configurations'], 'all ways of passing arguments, at every step of every history',
     'tests use one spelling per test', [F + 'accumulator_set.hpp', F + 'extractor.hpp', F + 'features.hpp', F + 'parameters/sample.hpp', F + 'parameters/weight.hpp', F + 'parameters/accumulator.hpp'],
     [('argument pack built from positional arguments', 'accumulator_set::operator()'), ('find by feature', 'find_accumulator, extract_result, visit, visit_if')], ['extractors, find_accumulator, visit, visit_if'])
prop('C23', 'Statistics of vectors, valarrays and complex numbers are elementwise',
     'For samples that are vectors or valarrays, sum, minimum, maximum, mean, moments and variance (plain, weighted and rolling where offered) are the vectors of the statistics of the elements; for complex samples sums and means are those of the parts. '
     'This holds after every history, for every number of elements, with integer elements averaged in floating point.',
     ['inputs', 'histories', 'configurations'], 'all sequences of samples of every size; element types; each statistic',
     'tests check one operation per operator on fixed vectors, and statistics of vectors hardly at all',
     [N + 'functional.hpp', N + 'functional/vector.hpp', N + 'functional/valarray.hpp', N + 'functional/complex.hpp'], [('operators and promotions for vectors, valarrays, complex', N + 'functional/*.hpp')], ['sum, min, max, mean, moment, variance on vector samples'])
prop('C24', 'The numeric function objects mean the infix operators',
     'Each function object of boost::numeric (plus, minus, multiplies, divides, modulus, the comparisons, the unary operators and the in-place operators) gives the value and the type that the infix operator gives for the same operands, const or not, changes nothing but the left operand of an in-place operator, and works element by element on vectors and valarrays; fdiv divides integers, and arrays of integers, in floating point; '
     'min_assign and max_assign keep the smaller or larger of two values or elements; promote, as_min, as_max, as_zero, as_one and outer_product give the converted value, the limits, zero, one and all products. '
     'Operators of a user type are used as they are, and a function object that the user specialises by tag is used in place of the operator, by statistics too.',
     ['inputs', 'histories', 'configurations'], 'all operands, operand types and sizes, all sequences of in-place operations on one object',
     'tests apply each operator once to one pair of operands of equal type',
     [N + 'functional.hpp', N + 'functional_fwd.hpp', N + 'functional/vector.hpp', N + 'functional/valarray.hpp', N + 'functional/complex.hpp', N + 'detail/function_n.hpp', S + 'covariance.hpp'],
     [('tag dispatch of function objects', N + 'functional.hpp'), ('polymorphic call operators for const and non-const operands', N + 'detail/function_n.hpp')], ['boost::numeric::plus ... as_one, promote, outer_product'])
exec(open(os.path.join(HERE, 'tools', 'meta_extra.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'meta_extra.py')) else None

NOTE = ('Exhaustive, deterministic enumeration of all executions within the stated bounds, on the real headers of /repo (no separate model to '
        'drift), each step compared with a reference model written from the definitions; ASan and libstdc++ assertions on. ')
TRUST = 'Trusts the compiler, the reference model and the small-scope bounds: values outside the alphabet and longer irregular histories are not explored.'
with open(HERE + '/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in p['state']],
                        'mechanism': [dict(zip(('name', 'where'), m)) for m in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 run.py setup',
       'checks': [{'property': p['id'], 'quick_cmd': f"python3 run.py check {p['id']} --tier quick",
                   'thorough_cmd': f"python3 run.py check {p['id']} --tier thorough",
                   'evidence_file': f"evidence/{p['id']}.json",
                   'technique': 'stateless explicit model checking of the real code: exhaustive enumeration of bounded histories against a reference model',
                   'level': 'model_checking', 'level_note': NOTE + (p['note'] + '. ' if p['note'] else '') + TRUST} for p in P],
       'not_applicable': [],
       'notes': 'No hooks: everything is observed through the public interface. /repo has only fix: commits (listed in known_findings.txt).'}
json.dump(man, open(HERE + '/MANIFEST.json', 'w'), indent=1)
json.dump({'*': ['g++ 13 -O1 with AddressSanitizer and _GLIBCXX_ASSERTIONS; boost headers other than accumulators from the system are trusted',
                 'values and depths are those of the bounded alphabets listed in DESIGN.md'],
           **{p['id']: p['assume'] for p in P if p['assume']}}, open(HERE + '/h/assumptions.json', 'w'), indent=1)
for p in P:
    assert len(p['title']) <= 80, p['id']
    n = p['statement'].count('. ') + 1
    assert n <= 3, (p['id'], n)
