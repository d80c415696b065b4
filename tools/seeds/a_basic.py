PRE = '''
#include <vector>
#include <cmath>
#include <cstdio>
#include <boost/accumulators/numeric/functional/vector.hpp>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
using namespace boost::accumulators;
static int bad = 0;
static void expect(char const *what, double got, double want, double tol = 1e-9)
{ if (!(std::fabs(got - want) <= tol)) { std::printf("%s: got %.17g want %.17g\\n", what, got, want); bad = 1; } }
'''
seed('C01-var-skip-at-mean', 'C01',
 [(S + 'variance.hpp', '''                this->variance =
                    numeric::fdiv(this->variance * (cnt - 1), cnt)
                  + numeric::fdiv(tmp * tmp, cnt - 1);
''', '''                if(tmp == result_type())
                    return; // the sample sits on the mean: nothing to add
                this->variance =
                    numeric::fdiv(this->variance * (cnt - 1), cnt)
                  + numeric::fdiv(tmp * tmp, cnt - 1);
''')], PRE + '''
int main()
{
    accumulator_set<double, stats<tag::variance> > acc;
    acc(1.0); acc(3.0); acc(2.0);
    expect("variance", variance(acc), 2. / 3);
    return bad;
}
''', 'a sample that equals the running mean exactly', 'the variance is not scaled down when such a sample arrives')
seed('C02-wvar-small-weights', 'C02',
 [(S + 'weighted_variance.hpp', '            if(cnt > 1)\n', '            if(cnt > 1 && sum_of_weights(args) > 1)\n')], PRE + '''
int main()
{
    accumulator_set<double, stats<tag::weighted_variance>, double> acc;
    acc(1.0, weight = .25); acc(3.0, weight = .25); acc(2.0, weight = .125);
    expect("weighted variance", weighted_variance(acc), .8);
    return bad;
}
''', 'weights whose running total is at most one', 'the first pairs are missing from the incremental weighted variance')
seed('C03-outer-square', 'C03',
 [(S + 'covariance.hpp', '''                result_type result(left_size, right_size);
                for (std::size_t i = 0; i < left_size; ++i)
                    for (std::size_t j = 0; j < right_size; ++j)
''', '''                result_type result(left_size, right_size, 0);
                for (std::size_t i = 0; i < left_size; ++i)
                    for (std::size_t j = 0; j < right_size && j < left_size; ++j)
''')], PRE + '''
int main()
{
    typedef std::vector<double> V;
    accumulator_set<V, stats<tag::covariance<V, tag::covariate1> > > acc(sample = V(3), covariate1 = V(2));
    double s[4][3] = {{1,2,5},{2,1,1},{4,4,0},{0,3,2}}, c[4][2] = {{1,0},{3,5},{2,2},{7,1}};
    for (int i = 0; i < 4; ++i) { V a(s[i], s[i] + 3), b(c[i], c[i] + 2); acc(a, covariate1 = b); }
    boost::numeric::ublas::matrix<double> m = covariance(acc);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j)
    {
        double ms = 0, mc = 0, e = 0;
        for (int k = 0; k < 4; ++k) { ms += s[k][j] / 4; mc += c[k][i] / 4; e += s[k][j] * c[k][i] / 4; }
        expect("cov", m(i, j), e - ms * mc);
    }
    return bad;
}
''', 'vector operands of different dimension', 'components of the covariance matrix beyond the square part stay zero')
