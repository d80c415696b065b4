PRE = '''
#include <vector>
#include <cmath>
#include <cstdio>
#include <algorithm>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/rolling_moment.hpp>
#include <boost/accumulators/statistics/rolling_variance.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/rolling_sum.hpp>
#include <boost/accumulators/statistics/rolling_count.hpp>
#include <boost/accumulators/statistics/rolling_window.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
using namespace boost::accumulators;
static int bad = 0;
static void expect(char const *what, double got, double want, double tol = 1e-9)
{ if (!(std::fabs(got - want) <= tol)) { std::printf("%s: got %.17g want %.17g\\n", what, got, want); bad = 1; } }
'''
seed('C04-weights-comp-reset', 'C04',
 [(S + 'sum_kahan.hpp', '''        this->compensation = (myTmp2 - this->sum) - myTmp1;
        this->sum = myTmp2;
''', '''        // a negative term starts a new run: nothing is owed to it
        this->compensation = myTmp1 < Sample() ? Sample() : (myTmp2 - this->sum) - myTmp1;
        this->sum = myTmp2;
''')], PRE + '''
int main()
{
    accumulator_set<double, stats<tag::sum_kahan> > acc;
    acc(-1e16); for (int i = 0; i < 1000; ++i) acc(-.6);
    expect("sum_kahan", sum_kahan(acc), -1e16 - 600, 4);
    return bad;
}
''', 'negative samples far below one ulp of the running sum', 'the compensation of negative samples is thrown away, so the error grows with the number of samples')

seed('C05-window-of-one', 'C05',
 [(S + 'rolling_window.hpp', '            return this->buffer_.full();', '            return this->buffer_.full() && this->buffer_.size() > 2;')], PRE + '''
int main()
{
    accumulator_set<int, stats<tag::rolling_sum, tag::rolling_count> > acc(tag::rolling_window::window_size = 1);
    acc(5); acc(7); acc(11);
    expect("rolling_sum", rolling_sum(acc), 11); expect("rolling_count", rolling_count(acc), 1);
    return bad;
}
''', 'a rolling window of size one', 'the previous sample never leaves a window of one')

seed('C05-moment-skips-zero', 'C05',
 [(S + 'rolling_moment.hpp', '''                this->sum_ -= numeric::pow(rolling_window_plus1(args).front(), N());
            }
            this->sum_ += numeric::pow(args[sample], N());
''', '''                if(rolling_window_plus1(args).front() == args[sample])
                    return; // one in, the same one out
                this->sum_ -= numeric::pow(rolling_window_plus1(args).front(), N());
            }
            else if(args[sample] == rolling_window_plus1(args).front() && rolling_window_plus1(args).size() > 2)
            {
                this->sum_ = numeric::fdiv(this->sum_, 1) + numeric::pow(rolling_window_plus1(args)[1], N());
                return;
            }
            this->sum_ += numeric::pow(args[sample], N());
''')], PRE + '''
int main()
{
    accumulator_set<double, stats<tag::rolling_moment<2> > > acc(tag::rolling_window::window_size = 5);
    acc(2); acc(3); acc(2);
    expect("rolling_moment<2>", rolling_moment<2>(acc), 17. / 3);
    return bad;
}
''', 'while the window is filling, a sample equal to the oldest one', 'the wrong element is added to the moment')

seed('C06-sorted-flag', 'C06',
 [(S + 'tail.hpp', '            this->is_sorted = false;\n', '            // a duplicate of the least extreme sample leaves the order as it was\n            this->is_sorted = this->is_sorted && this->indices.size() == this->samples.size()\n                && this->indices[0] != index && this->samples[index] == this->samples[this->indices[0]];\n')], PRE + '''
int main()
{
    accumulator_set<int, stats<tag::tail<right> > > acc(tag::tail<right>::cache_size = 6);
    int x[] = {1, 2, 3, 4, 5, 6}; for (int i = 0; i < 6; ++i) acc(x[i]);
    if (tail(acc).size() != 6) bad = 1;
    acc(2);      // replaces the 1, and is one of the two least extreme now
    std::vector<int> t(tail(acc).begin(), tail(acc).end());
    for (std::size_t i = 1; i < t.size(); ++i) expect("descending", t[i - 1] >= t[i], 1);
    return bad;
}
''', 'the tail is extracted, then a duplicate of the least extreme cached sample enters the full cache, then the tail is extracted again', 'the tail is reported out of order')

seed('C06-variate-of-default', 'C06',
 [(S + 'tail.hpp', '''            this->samples[index] = args[sample];
''', '''            bool const unchanged = this->samples[index] == args[sample];
            this->samples[index] = args[sample];
'''), (S + 'tail.hpp', '            args[accumulator].template visit_if<is_tail_variate>(detail::stat_assign(args, index));\n',
 '            if(!unchanged)\n                args[accumulator].template visit_if<is_tail_variate>(detail::stat_assign(args, index));\n')], PRE + '''
int main()
{
    accumulator_set<int, stats<tag::tail_variate<int, tag::covariate1, right> > > acc(tag::tail<right>::cache_size = 4);
    acc(3, covariate1 = 30); acc(0, covariate1 = 77); acc(-2, covariate1 = -20);
    std::vector<int> v(tail_variate(acc).begin(), tail_variate(acc).end());
    expect("covariate of 3", v[0], 30); expect("covariate of 0", v[1], 77); expect("covariate of -2", v[2], -20);
    return bad;
}
''', 'a sample equal to what its cache slot held before (a zero while the cache is filling)', 'the covariate of that sample is not stored')

seed('C07-exact-rank', 'C07',
 [(S + 'tail_quantile.hpp', '''                std::ceil(
                    cnt * ( ( is_same<LeftRight, left>::value ) ? args[quantile_probability] : 1. - args[quantile_probability] )
                )
            );
''', '''                cnt * ( ( is_same<LeftRight, left>::value ) ? args[quantile_probability] : 1. - args[quantile_probability] )
            ) + 1;
            if(n > cnt)
                n = cnt;
''')], PRE + '''
int main()
{
    accumulator_set<double, stats<tag::tail_quantile<left> > > acc(tag::tail<left>::cache_size = 10);
    for (int i = 1; i <= 8; ++i) acc(i);
    expect("quantile 0.25", quantile(acc, quantile_probability = .25), 2);
    expect("quantile 0.3", quantile(acc, quantile_probability = .3), 3);
    return bad;
}
''', 'a count times probability that is a whole number', 'the next order statistic is returned')

seed('C07-partial-tail', 'C07',
 [(S + 'weighted_tail_mean.hpp', '                if (n < static_cast<std::size_t>(tail_weights(args).size()))\n', '                if (n > 0 && n >= static_cast<std::size_t>(tail_weights(args).size()) && sum > 0.75 * sum_of_weights(args))\n                    break; // most of the weight: close enough\n                if (n < static_cast<std::size_t>(tail_weights(args).size()))\n')], PRE + '''
int main()
{
    accumulator_set<double, stats<tag::non_coherent_weighted_tail_mean<left> >, double> acc(tag::tail<left>::cache_size = 4);
    for (int i = 1; i <= 5; ++i) acc(i, weight = 1.);
    double m = non_coherent_weighted_tail_mean(acc, quantile_probability = .95);
    if (m == m) { std::printf("the cache of four cannot give the mean of five: %g\\n", m); bad = 1; }
    return bad;
}
''', 'a cache one smaller than the stream and a probability that needs every sample', 'a silently wrong mean instead of NaN')

seed('C08-minimum-underflows', 'C08',
 [(S + 'density.hpp', '                if (args[sample] < this->bin_positions[1])\n', '                if (args[sample] <= this->bin_positions[1])\n')], PRE + '''
int main()
{
    accumulator_set<int, stats<tag::density> > acc(tag::density::cache_size = 4, tag::density::num_bins = 2);
    acc(0); acc(4); acc(1); acc(3); acc(0); acc(0);
    expect("underflow", density(acc)[0].second, 0); expect("first bin", density(acc)[1].second, 4. / 6);
    return bad;
}
''', 'a sample after the cache has filled that equals the minimum of the cache', 'it is counted as underflow')

seed('C08-weighted-cache-one', 'C08',
 [(S + 'weighted_density.hpp', '            else if (cnt > this->cache_size)\n', '            else if (cnt > this->cache_size && this->bin_positions[1] < this->bin_positions[this->num_bins + 1])\n')], PRE + '''
int main()
{
    accumulator_set<double, stats<tag::weighted_density>, double> acc(tag::weighted_density::cache_size = 2, tag::weighted_density::num_bins = 2);
    acc(1., weight = 1.); acc(1., weight = 2.); acc(5., weight = 1.); acc(-1., weight = 4.);
    double s = 0; for (std::size_t i = 0; i < 4; ++i) s += weighted_density(acc)[i].second;
    expect("total", s, 1);
    return bad;
}
''', 'a cache filled with equal samples', 'later samples are in no bin and the fractions no longer sum to one')

seed('C09-tie-at-minimum', 'C09',
 [(S + 'p_square_quantile.hpp', '                if (args[sample] < this->heights[0])\n', '                if (args[sample] <= this->heights[0])\n')], PRE + '''
int main()
{
    // Jain & Chlamtac by hand for 0 0 0 10 20 | 0 0 0 0 30 40 50 60: a sample equal to several markers lies above all of them
    double x[] = {0, 0, 0, 10, 20, 0, 0, 0, 30, 40, 50, 60, 0, 70, 80};
    accumulator_set<double, stats<tag::p_square_quantile> > acc(quantile_probability = .5);
    std::vector<double> q(5), n(5), d(5), inc(5); double p = .5;
    double dd[] = {1, 1 + 2 * p, 1 + 4 * p, 3 + 2 * p, 5}, ii[] = {0, p / 2, p, (1 + p) / 2, 1};
    for (int i = 0; i < 5; ++i) { n[i] = i + 1; d[i] = dd[i]; inc[i] = ii[i]; }
    for (int c = 0; c < 15; ++c)
    {
        acc(x[c]);
        if (c < 5) { q[c] = x[c]; if (c == 4) std::sort(q.begin(), q.end()); continue; }
        int k; if (x[c] < q[0]) { q[0] = x[c]; k = 0; } else if (x[c] >= q[4]) { q[4] = x[c]; k = 3; } else { k = 0; while (x[c] >= q[k + 1]) ++k; }
        for (int i = k + 1; i < 5; ++i) ++n[i];
        for (int i = 0; i < 5; ++i) d[i] += inc[i];
        for (int i = 1; i <= 3; ++i)
        {
            double e = d[i] - n[i];
            if ((e >= 1 && n[i + 1] - n[i] > 1) || (e <= -1 && n[i - 1] - n[i] < -1))
            {
                int s = e > 0 ? 1 : -1;
                double h = q[i] + s / (n[i + 1] - n[i - 1]) * ((n[i] - n[i - 1] + s) * (q[i + 1] - q[i]) / (n[i + 1] - n[i]) + (n[i + 1] - n[i] - s) * (q[i] - q[i - 1]) / (n[i] - n[i - 1]));
                q[i] = q[i - 1] < h && h < q[i + 1] ? h : q[i] + s * (q[i + s] - q[i]) / (n[i + s] - n[i]);
                n[i] += s;
            }
        }
        expect("estimate", p_square_quantile(acc), q[2], 1e-9);
    }
    return bad;
}
''', 'samples that tie with the lowest markers', 'the markers at the minimum are moved although the sample lies above them')

seed('C09-cdist-desired-cap', 'C09',
 [(S + 'weighted_p_square_cumul_dist.hpp', '''                for (std::size_t i = sample_cell; i < b + 1; ++i)
                {
                    this->actual_positions[i] += args[weight];
''', '''                for (std::size_t i = (std::min)(sample_cell, b - 1); i < b + 1; ++i)
                {
                    this->actual_positions[i] += args[weight];
''')], PRE + '''
int main()
{
    accumulator_set<double, stats<tag::weighted_p_square_cumulative_distribution>, double> acc(tag::weighted_p_square_cumulative_distribution::num_cells = 2);
    acc(0., weight = 1.); acc(1., weight = 1.); acc(2., weight = 1.); acc(1.5, weight = .5);
    expect("middle marker", weighted_p_square_cumulative_distribution(acc)[1].second, 2 / 3.5);
    return bad;
}
''', 'a sample in the uppermost cell', 'the marker below it is moved as well')

seed('C10-duplicate-min', 'C10',
 [(S + 'extended_p_square.hpp', '                if(args[sample] < this->heights[0])\n', '                if(args[sample] <= this->heights[0])\n')], PRE + '''
int main()
{
    // with every marker at the same height a further equal sample lies above all of them: only the last position moves
    std::vector<double> p(1, .5);
    accumulator_set<double, stats<tag::extended_p_square> > acc(tag::extended_p_square::probabilities = p);
    double x[] = {0, 0, 0, 0, 5, 0, 0, 0, 0, 0, 9, 9, 9, 9};
    std::vector<double> q(5), n(5), d(5), inc(5); double ii[] = {0, .25, .5, .75, 1};
    for (int i = 0; i < 5; ++i) { n[i] = i + 1; inc[i] = ii[i]; d[i] = 1 + 4 * ii[i]; }
    for (int c = 0; c < 14; ++c)
    {
        acc(x[c]);
        if (c < 5) { q[c] = x[c]; if (c == 4) std::sort(q.begin(), q.end()); continue; }
        int k; if (x[c] < q[0]) { q[0] = x[c]; k = 0; } else if (x[c] >= q[4]) { q[4] = x[c]; k = 3; } else { k = 0; while (x[c] >= q[k + 1]) ++k; }
        for (int i = k + 1; i < 5; ++i) ++n[i];
        for (int i = 0; i < 5; ++i) d[i] += inc[i];
        for (int i = 1; i <= 3; ++i)
        {
            double e = d[i] - n[i];
            if ((e >= 1 && n[i + 1] - n[i] > 1) || (e <= -1 && n[i - 1] - n[i] < -1))
            {
                int s = e > 0 ? 1 : -1;
                double h = q[i] + s / (n[i + 1] - n[i - 1]) * ((n[i] - n[i - 1] + s) * (q[i + 1] - q[i]) / (n[i + 1] - n[i]) + (n[i + 1] - n[i] - s) * (q[i] - q[i - 1]) / (n[i] - n[i - 1]));
                q[i] = q[i - 1] < h && h < q[i + 1] ? h : q[i] + s * (q[i + s] - q[i]) / (n[i + s] - n[i]);
                n[i] += s;
            }
        }
        expect("estimate", extended_p_square(acc)[0], q[2], 1e-9);
    }
    return bad;
}
''', 'samples that tie with the lowest markers', 'the positions of the tied markers move although the sample lies above them')

seed('C10-quadratic-last-cell', 'C10',
 [(S + 'extended_p_square_quantile.hpp', '''                        p0 = *(iter_probs - 2);
                        p1 = *(iter_probs - 1);
                        p2 = *iter_probs;
                        h0 = *(iter_heights - 2);
''', '''                        p0 = *(iter_probs - 2);
                        p1 = *(iter_probs - 1);
                        p2 = *iter_probs;
                        h0 = *(iter_heights - (dist == 3 && this->probabilities.size() == 4 ? 3 : 2));
''')], PRE + '''
int main()
{
    double pp[] = {.2, .4, .6, .8}; std::vector<double> p(pp, pp + 4);
    accumulator_set<double, stats<tag::extended_p_square_quantile(quadratic)> > acc(tag::extended_p_square::probabilities = p);
    for (int i = 0; i < 200; ++i) acc((i * 37) % 101);
    double h[4]; for (int i = 0; i < 4; ++i) h[i] = quantile(acc, quantile_probability = pp[i]);
    double x = .75, e = 0; for (int i = 1; i < 4; ++i) { double l = h[i]; for (int j = 1; j < 4; ++j) if (j != i) l *= (x - pp[j]) / (pp[i] - pp[j]); e += l; }
    expect("quadratic", quantile(acc, quantile_probability = x), e, 1e-6);
    return bad;
}
''', 'four tracked probabilities and a request between the last two', 'one of the three interpolated points is the wrong quantile')

seed('C11-density-median-stale', 'C11',
 [(S + 'median.hpp', '''        void operator ()(dont_care)
        {
            this->is_dirty = true;
        }


        template<typename Args>
''', '''        template<typename Args>
        void operator ()(Args const &args)
        {
            // samples at the median do not move it
            if(this->is_dirty || args[sample] != this->median)
                this->is_dirty = true;
        }


        template<typename Args>
''')], PRE + '''
int main()
{
    accumulator_set<double, stats<tag::with_density_median> > a(tag::density::cache_size = 4, tag::density::num_bins = 4), b(tag::density::cache_size = 4, tag::density::num_bins = 4);
    double x[] = {0, 4, 0, 4}; for (int i = 0; i < 4; ++i) { a(x[i]); b(x[i]); }
    for (int k = 0; k < 6; ++k) { double m = with_density_median(a); a(m); b(m); }
    expect("median", with_density_median(a), with_density_median(b));
    return bad;
}
''', 'the median is extracted and the next sample equals it exactly', 'the old value is returned although the histogram has changed')

seed('C12-dirty-on-exceedance', 'C12',
 [(S + 'peaks_over_threshold.hpp', '''            this->is_dirty_ = true;

            if (sign::value * args[sample] > this->threshold_)
            {
''', '''            if (sign::value * args[sample] > this->threshold_)
            {
                this->is_dirty_ = true;
''')], PRE + '''
int main()
{
    accumulator_set<double, stats<tag::peaks_over_threshold<right> > > a(tag::peaks_over_threshold<right>::threshold_value = 3.), b(tag::peaks_over_threshold<right>::threshold_value = 3.);
    double x[] = {1, 4, 5, 9, 2}; for (int i = 0; i < 5; ++i) { a(x[i]); b(x[i]); }
    (void)peaks_over_threshold(a);
    for (int i = 0; i < 10; ++i) { a(1.); b(1.); }
    expect("beta", peaks_over_threshold(a).get<1>(), peaks_over_threshold(b).get<1>());
    return bad;
}
''', 'an extraction followed only by samples below the threshold', 'the fit keeps the old exceedance probability')

seed('C13-rolling-mean-filling', 'C13',
 [(S + 'rolling_mean.hpp', '''               if (prev_mean > args[sample])
                   mean_ -= numeric::fdiv(prev_mean-args[sample],rolling_count(args));
''', '''               if (prev_mean > args[sample])
                   mean_ -= numeric::fdiv(prev_mean-args[sample],(std::max)(rolling_count(args), (std::size_t)2));
''')], PRE + '''
int main()
{
    accumulator_set<double, stats<tag::immediate_rolling_mean, tag::rolling_sum> > acc(tag::rolling_window::window_size = 10);
    acc(-8.); acc(2.);
    expect("rolling mean", rolling_mean(acc), -3);
    return bad;
}
''', 'a negative first sample', 'the incremental rolling mean starts from half of it')
