PRE = '''
#include <vector>
#include <cmath>
#include <cstdio>
#include <sstream>
#include <algorithm>
#include <boost/accumulators/numeric/functional/vector.hpp>
#include <boost/accumulators/numeric/functional/complex.hpp>
#include <boost/accumulators/numeric/functional/valarray.hpp>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/rolling_moment.hpp>
#include <boost/accumulators/statistics/rolling_variance.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/rolling_sum.hpp>
#include <boost/accumulators/statistics/rolling_count.hpp>
#include <boost/accumulators/statistics/rolling_window.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
using namespace boost::accumulators;
static int bad = 0;
static void expect(char const *what, double got, double want, double tol = 1e-9)
{ if (!(std::fabs(got - want) <= tol)) { std::printf("%s: got %.17g want %.17g\\n", what, got, want); bad = 1; } }
'''
seed('C14-visit-order', 'C14',
 [(F + 'accumulator_set.hpp', '''    void visit(UnaryFunction const &func)
    {
        fusion::for_each(this->accumulators, func);
    }
''', '''    void visit(UnaryFunction const &func)
    {
        // what cannot be dropped comes first, then what may have been dropped already
        this->template visit_if<always_there>(func);
        this->template visit_if<droppable_ones>(func);
    }
    struct droppable_ones { template<typename A> struct apply : A::is_droppable {}; };
    struct always_there { template<typename A> struct apply : mpl::not_<typename A::is_droppable> {}; };
'''), (F + 'accumulator_set.hpp', '#include <boost/mpl/apply.hpp>\n', '#include <boost/mpl/apply.hpp>\n#include <boost/mpl/logical.hpp>\n')], PRE + '''
int main()
{
    accumulator_set<double, features<droppable<tag::count>, tag::mean(immediate)> > acc;
    acc(1.); acc(3.); acc(8.);
    expect("mean", mean(acc), 4); expect("count", count(acc), 3);
    return bad;
}
''', 'a set in which an accumulator that cannot be dropped depends on a droppable one', 'the dependency is visited after what depends on it, which then sees the previous state of it')

seed('C16-dependencies-late', 'C16',
 [(A + 'droppable_accumulator.hpp', '''                    // Also drop accumulators that this feature depends on
                    this->args_[accumulator].template
                        visit_if<detail::contains_feature_of_<dependencies> >(
                            *this
                    );
''', '''                    // Also drop accumulators that this feature depends on
                    if(acc.is_dropped())
                    this->args_[accumulator].template
                        visit_if<detail::contains_feature_of_<dependencies> >(
                            *this
                    );
'''), ('include/boost/accumulators/framework/accumulator_base.hpp', '''    detail::void_ on_drop(dont_care)
    {
    }
''', '''    detail::void_ on_drop(dont_care)
    {
    }

    bool is_dropped() const
    {
        return false;
    }
''')], PRE + '''
int main()
{
    // variance(lazy) needs moment<2> and mean; mean needs sum and count: sum is held by both requests
    accumulator_set<int, stats<tag::droppable<tag::mean>, tag::droppable<tag::lazy_variance>, tag::droppable<tag::sum> > > acc;
    acc(2); acc(4);
    acc.drop<tag::lazy_variance>(); acc.drop<tag::mean>(); acc.drop<tag::sum>();
    acc(100);
    expect("sum after every user of it was dropped", sum(acc), 6);
    return bad;
}
''', 'two droppable features sharing a droppable dependency, dropped one after the other', 'the shared dependency keeps accumulating')

seed('C18-copied-references', 'C18',
 [(A + 'droppable_accumulator.hpp', '          , ref_count_(that.ref_count_)\n', '          , ref_count_(that.is_dropped() ? 0 : 1)\n')], PRE + '''
int main()
{
    typedef accumulator_set<int, stats<tag::droppable<tag::mean>, tag::droppable<tag::sum> > > set;
    set a; a(2); a(4);
    set b(a);
    a.drop<tag::mean>(); b.drop<tag::mean>();
    a(6); b(6);
    expect("sum of the copy", sum(b), sum(a));
    return bad;
}
''', 'a set with an accumulator that two features use is copied, and one of the users is dropped in the copy', 'the copy stops the shared accumulator', flags='-DBOOST_DISABLE_ASSERTS')

seed('C18-tail-reserve', 'C18',
 [(S + 'tail.hpp', '''        tail_impl(tail_impl const &that)
          : is_sorted(that.is_sorted)
          , indices(that.indices)
          , samples(that.samples)
''', '''        tail_impl(tail_impl const &that)
          : is_sorted(true)
          , indices(that.indices)
          , samples(that.samples)
''')], PRE + '''
int main()
{
    typedef accumulator_set<int, stats<tag::tail<right> > > set;
    set a(tag::tail<right>::cache_size = 6); int x[] = {5, 1, 9, 3, 7, 2}; for (int i = 0; i < 6; ++i) a(x[i]);
    set b(a);
    std::vector<int> t(tail(a).begin(), tail(a).end()), u(tail(b).begin(), tail(b).end());
    if (t != u) { std::printf("the copy reports another tail\\n"); bad = 1; }
    return bad;
}
''', 'a tail copied before it was extracted', 'the copy believes its cache is sorted')

seed('C19-desired-positions', 'C19',
 [(S + 'extended_p_square.hpp', '            ar & desired_positions;\n', '')], PRE + '''
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/serialization/vector.hpp>
int main()
{
    typedef accumulator_set<double, stats<tag::extended_p_square> > set; std::vector<double> p; p.push_back(.3); p.push_back(.7);
    set a(tag::extended_p_square::probabilities = p), b(tag::extended_p_square::probabilities = p);
    for (int i = 0; i < 60; ++i) a((i * 37) % 101);
    std::stringstream s; { boost::archive::text_oarchive o(s); a.serialize(o, 0); } { boost::archive::text_iarchive o(s); b.serialize(o, 0); }
    for (int i = 60; i < 300; ++i) { a((i * 37) % 101); b((i * 37) % 101); }
    expect("first quantile", extended_p_square(b)[0], extended_p_square(a)[0]);
    return bad;
}
''', 'a set loaded mid-stream and then fed further samples', 'the desired marker positions start over', libs='-lboost_serialization')

seed('C19-rolling-clear', 'C19',
 [(S + 'rolling_variance.hpp', '            ar & previous_mean_;\n', '')], PRE + '''
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
int main()
{
    typedef accumulator_set<double, stats<tag::immediate_rolling_variance> > set;
    set a(tag::rolling_window::window_size = 3), b(tag::rolling_window::window_size = 3);
    double x[] = {1, 5, 2, 8}; for (int i = 0; i < 4; ++i) a(x[i]);
    std::stringstream s; { boost::archive::text_oarchive o(s); a.serialize(o, 0); } { boost::archive::text_iarchive o(s); b.serialize(o, 0); }
    a(4.); b(4.);
    expect("rolling variance", rolling_variance(b), rolling_variance(a));
    return bad;
}
''', 'a loaded set that is fed further samples', 'the first update after loading uses a zero mean', libs='-lboost_serialization')

seed('C21-few-exceedances', 'C21',
 [(S + 'tail_variate_means.hpp', '            if (n <= static_cast<std::size_t>(tail(args).size()))\n', '            if (n <= static_cast<std::size_t>(tail(args).size()) + (n == cnt))\n')], PRE + '''
int main()
{
    // asking for the mean over every sample with a cache one too small must be answered by NaN
    accumulator_set<double, stats<tag::tail_variate_means<left, std::vector<double>, tag::covariate1>(absolute)> > acc(tag::tail<left>::cache_size = 3);
    for (int i = 0; i < 4; ++i) acc(double(i), covariate1 = std::vector<double>(2, i));
    double m = *tail_variate_means(acc, quantile_probability = 1.).begin();
    if (m == m) { std::printf("got %g from a cache of three for four samples\\n", m); bad = 1; }
    return bad;
}
''', 'a cache one smaller than the stream and a probability that needs every sample', 'the variates are read past the end of the cache', flags='-fsanitize=address')

seed('C22-static-scratch', 'C22',
 [(S + 'extended_p_square_quantile.hpp', '            array_type heights(some_extended_p_square(args).size());\n', '            static array_type heights; // reused between calls\n            heights.resize(some_extended_p_square(args).size());\n')], PRE + '''
#include <thread>
int main()
{
    std::vector<double> p; for (int i = 1; i < 40; ++i) p.push_back(i / 40.);
    auto work = [&](double off, int *wrong)
    {
        accumulator_set<double, stats<tag::extended_p_square_quantile> > acc(tag::extended_p_square::probabilities = p);
        for (int i = 0; i < 500; ++i) acc(off + (i * 37) % 101);
        for (int k = 0; k < 300000; ++k) { double q = quantile(acc, quantile_probability = .4875); if (!(q >= off && q <= off + 101)) { *wrong = 1; return; } }
    };
    int w1 = 0, w2 = 0; std::thread a(work, 0., &w1), b(work, 1e6, &w2); a.join(); b.join();
    if (w1 || w2) { std::printf("a quantile left the range of its own samples\\n"); bad = 1; }
    return bad;
}
''', 'two threads extracting quantiles from their own sets at the same time', 'they share a scratch buffer', flags='-O2', libs='-pthread')

seed('C23-max-of-vectors', 'C23',
 [(N + 'functional/valarray.hpp', '''                    if(numeric::greater(right[i], left[i]))
''', '''                    if(numeric::greater(right[i], left[i]) || right[i] == typename Left::value_type())
''')], PRE + '''
int main()
{
    std::valarray<double> a(2), b(2); a[0] = 1; a[1] = 5; b[0] = 3; b[1] = 0;
    boost::numeric::max_assign(a, b);
    expect("first", a[0], 3); expect("second", a[1], 5);
    return bad;
}
''', 'a zero component in the right operand', 'the maximum of that component becomes zero')

seed('C24-cache-keeps-growing', 'C24',
 [(S + 'weighted_density.hpp', '''            else if (cnt > this->cache_size)
            {
''', '''            else if (cnt > this->cache_size)
            {
                if (cnt % 16 == 0)
                    this->cache.push_back(std::make_pair(args[sample], args[weight]));
''')], PRE + '''
#include <cstdlib>
#include <new>
static long live = 0;
void *operator new(std::size_t n) { std::size_t *p = (std::size_t *)std::malloc(n + 16); *p = n; live += n; return (char *)p + 16; }
void operator delete(void *p) noexcept { if (!p) return; std::size_t *q = (std::size_t *)((char *)p - 16); live -= *q; std::free(q); }
void operator delete(void *p, std::size_t) noexcept { operator delete(p); }
int main()
{
    accumulator_set<double, stats<tag::weighted_density>, double> acc(tag::weighted_density::cache_size = 10, tag::weighted_density::num_bins = 4);
    for (int i = 0; i < 100; ++i) acc(i, weight = 1.);
    long before = live;
    for (int i = 0; i < 100000; ++i) acc(i, weight = 1.);
    if (live > before + 1000) { std::printf("grew by %ld bytes\\n", live - before); bad = 1; }
    return bad;
}
''', 'a long stream', 'every sixteenth sample is kept for ever')

seed('C15-median-quantile', 'C15',
 [(S + 'p_square_quantile.hpp', '''struct feature_of<tag::weighted_p_square_quantile>
  : feature_of<tag::p_square_quantile>
{
};
''', '''struct feature_of<tag::weighted_p_square_quantile>
  : feature_of<tag::p_square_quantile>
{
};

// the markers for the median can serve as a quantile
template<>
struct feature_of<tag::p_square_quantile_for_median>
  : feature_of<tag::p_square_quantile>
{
};
''')], PRE + '''
int main()
{
    accumulator_set<double, stats<tag::p_square_quantile, tag::median> > both(quantile_probability = .9);
    accumulator_set<double, stats<tag::median> > one;
    for (int i = 0; i < 300; ++i) { double v = (i * 37) % 101; both(v); one(v); }
    expect("median", median(both), median(one));
    return bad;
}
''', 'the median and a P-square quantile of another probability in one set', 'they share one set of markers')

seed('C17-copied-referent', 'C17',
 [(A + 'reference_accumulator.hpp', '''        result_type result(dont_care) const
        {
            return this->ref;
        }

    private:
''', '''        // a copy must not depend on the life time of somebody else's referent
        reference_accumulator_impl(reference_accumulator_impl const &that)
          : own(new Referent(that.ref.get()))
          , ref(*own)
        {
        }

        result_type result(dont_care) const
        {
            return this->ref;
        }

    private:
        boost::shared_ptr<Referent> own;
'''), (A + 'reference_accumulator.hpp', '#include <boost/ref.hpp>\n', '#include <boost/ref.hpp>\n#include <boost/shared_ptr.hpp>\n')], PRE + '''
namespace my { BOOST_PARAMETER_KEYWORD(tag, far_set) }
int main()
{
    typedef accumulator_set<double, stats<tag::sum> > far_type;
    far_type f; f(1.);
    typedef accumulator_set<double, features<tag::count, tag::reference<far_type, my::tag::far_set> > > set;
    set a(my::far_set = f); set b(a);
    f(5.);
    expect("the referenced sum through a copy", sum(reference_tag<my::tag::far_set>(b)), 6);
    return bad;
}
''', 'a set that refers to another set is copied, and the other set moves on', 'the copy looks at a snapshot')

seed('C20-mean-memo', 'C20',
 [(S + 'tail_mean.hpp', '''        non_coherent_tail_mean_impl(dont_care) {}
''', '''        non_coherent_tail_mean_impl(dont_care) : last_n_(0), last_() {}
'''), (S + 'tail_mean.hpp', '''            if (n <= static_cast<std::size_t>(tail(args).size()))
                return numeric::fdiv(
''', '''            if (n != 0 && n == this->last_n_)
                return this->last_;
            if (n <= static_cast<std::size_t>(tail(args).size()))
                return this->last_n_ = n, this->last_ = numeric::fdiv(
'''), (S + 'tail_mean.hpp', '''                    msg << "index n = " << n << " is not in valid range [0, " << tail(args).size() << ")";
                    boost::throw_exception(std::runtime_error(msg.str()));
                    return Sample(0);
                }
            }
        }
        
        // serialization is done by accumulators it depends on
        template<class Archive>
        void serialize(Archive & ar, const unsigned int file_version) {}
''', '''                    msg << "index n = " << n << " is not in valid range [0, " << tail(args).size() << ")";
                    boost::throw_exception(std::runtime_error(msg.str()));
                    return Sample(0);
                }
            }
        }
        mutable std::size_t last_n_;    // the result for this many samples ...
        mutable float_type last_;       // ... is this
        
        // serialization is done by accumulators it depends on
        template<class Archive>
        void serialize(Archive & ar, const unsigned int file_version) {}
''')], PRE + '''
int main()
{
    accumulator_set<double, stats<tag::non_coherent_tail_mean<right> > > a(tag::tail<right>::cache_size = 10), b(tag::tail<right>::cache_size = 10);
    for (int i = 0; i < 5; ++i) { a(i); b(i); }
    (void)non_coherent_tail_mean(a, quantile_probability = .95);
    a(50.); b(50.);
    expect("tail mean", non_coherent_tail_mean(a, quantile_probability = .95), non_coherent_tail_mean(b, quantile_probability = .95));
    return bad;
}
''', 'an extraction, further samples, and an extraction over the same number of tail samples', 'the earlier result is returned')

seed('C21-dangling-hint', 'C21',
 [(S + 'extended_p_square_quantile.hpp', '''            this->probability = args[quantile_probability];

            typename array_type::const_iterator iter_probs = std::lower_bound(this->probabilities.begin(), this->probabilities.end(), this->probability);
''', '''            // go on from where the last search ended if that was not further right
            typename array_type::const_iterator from = this->has_hint && args[quantile_probability] >= this->probability ? this->hint : this->probabilities.begin();
            this->probability = args[quantile_probability];

            typename array_type::const_iterator iter_probs = std::lower_bound(from, this->probabilities.end(), this->probability);
            this->hint = iter_probs;
            this->has_hint = true;
'''), (S + 'extended_p_square_quantile.hpp', '''        mutable float_type probability;

''', '''        mutable float_type probability;
        mutable typename array_type::const_iterator hint;
        mutable bool has_hint;

'''), (S + 'extended_p_square_quantile.hpp', '''          , probability()
        {
''', '''          , probability()
          , has_hint(false)
        {
''')], PRE + '''
int main()
{
    double pp[] = {.2, .4, .6, .8}; std::vector<double> p(pp, pp + 4);
    typedef accumulator_set<double, stats<tag::extended_p_square_quantile> > set;
    set *a = new set(tag::extended_p_square::probabilities = p);
    for (int i = 0; i < 200; ++i) (*a)((i * 37) % 101);
    double q = quantile(*a, quantile_probability = .5);
    set b(*a); delete a;
    std::vector<double> other(4, .9);
    expect("quantile of the copy", quantile(b, quantile_probability = .5), q);
    return bad;
}
''', 'a copy taken after an extraction, used after the source is gone', 'an iterator into the source is followed', flags='-fsanitize=address')
