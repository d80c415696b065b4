"""The statistics of the library as type-erased sets: each alone, plus random combinations."""
import os, random

R, L = 'ba::right', 'ba::left'
D = []      # name, tags, extraction code, providers, weighted? ('u','w','b'), readiness


def d(name, tags, code, prov, kind='u', need='1', serial=True):
    D.append(dict(name=name, tags=tags if isinstance(tags, list) else [tags], code=code, prov=dict(x.split(':') for x in prov.split()), kind=kind, need=need, serial=serial))


C1 = 'double, tag::covariate1'
C2 = 'double, tag::covariate2'
# ---- unweighted
d('count', 'tag::count', 'o(ba::count(s));', 'count:p', need='0')
d('sum', 'tag::sum', 'o(ba::sum(s));', 'sum:p', need='0')
d('sum_kahan', 'tag::sum_kahan', 'o(ba::sum_kahan(s));', 'sum:k', need='0')
d('min', 'tag::min', 'o((ba::min)(s));', 'min:p')
d('max', 'tag::max', 'o((ba::max)(s));', 'max:p')
d('mean_lazy', 'tag::mean(lazy)', 'o(ba::mean(s));', 'mean:l sum:p')
d('mean_imm', 'tag::mean(immediate)', 'o(ba::mean(s));', 'mean:i')
d('moment2', 'tag::moment<2>', 'o(ba::moment<2>(s));', 'moment2:p')
d('moment5', 'tag::moment<5>', 'o(ba::moment<5>(s));', 'moment5:p')
d('variance_lazy', 'tag::variance(lazy)', 'o(ba::variance(s));', 'variance:l mean:l sum:p moment2:p')
d('variance_imm', 'tag::variance(immediate)', 'o(ba::variance(s));', 'variance:i mean:i')
d('skewness', 'tag::skewness', 'o(ba::skewness(s));', 'skewness:p mean:l sum:p moment2:p moment3:p')
d('kurtosis', 'tag::kurtosis', 'o(ba::kurtosis(s));', 'kurtosis:p mean:l sum:p moment2:p moment3:p moment4:p')
d('error_mean_lazy', 'tag::error_of<tag::mean(lazy)>', 'o(ba::error_of<tag::mean>(s));', 'errl:p variance:l mean:l sum:p moment2:p', need='2')
d('error_mean_imm', 'tag::error_of<tag::mean(immediate)>', 'o(ba::error_of<tag::immediate_mean>(s));', 'erri:p variance:i mean:i', need='2')
d('density', 'tag::density', 'o.pairs(ba::density(s));', 'density:p', need='c.dcache')
d('median', 'tag::median', 'o(ba::median(s));', 'median:p psqm:p', need='5')
d('median_density', 'tag::median(with_density)', 'o(ba::median(s));', 'median:d density:p', need='c.dcache')
d('median_dist', 'tag::median(with_p_square_cumulative_distribution)', 'o(ba::median(s));', 'median:c psqd:p', need='c.cells + 1')
d('psq', 'tag::p_square_quantile', 'o(ba::p_square_quantile(s));', 'psq:p', need='5')
d('psqd', 'tag::p_square_cumulative_distribution', 'o.pairs(ba::p_square_cumulative_distribution(s));', 'psqd:p', need='c.cells + 1')
d('ext', 'tag::extended_p_square', 'o.range(ba::extended_p_square(s));', 'ext:p', need='2 * c.probs.size() + 3')
# tracked range; exactly a tracked probability (p in [.9, .95)); beyond either end (p >= .95, p < .05)
EXTQ = ('double a = c.probs.front(), b = c.probs.back(), q = p >= .95 ? b + (1 - b) * (p - .949) * 19 : p >= .9 ? c.probs[(std::size_t)((p - .9) * 20 * c.probs.size()) % c.probs.size()] : p < .05 ? a * p * 19 : a + (p - .05) / .85 * (b - a); '
        'o(ba::quantile(s, quantile_probability = q));')
d('extq', 'tag::extended_p_square_quantile', EXTQ, 'quantile:e ext:p', need='2 * c.probs.size() + 3')
d('extqq', 'tag::extended_p_square_quantile(quadratic)', EXTQ, 'quantile:q ext:p', need='2 * c.probs.size() + 3')
for S, T, P in (('r', R, 'p'), ('l', L, '(1 - p)')):
    q = 'quantile_probability = (%s)' % P
    tl = ' tail:%s' % S
    d('tail_' + S, 'tag::tail<%s>' % T, 'o.range(ba::tail(s));', 'x:x' + tl, need='0')
    d('tq_' + S, 'tag::tail_quantile<%s>' % T, 'o(ba::quantile(s, %s));' % q, 'quantile:t' + S + tl)
    d('nctm_' + S, 'tag::tail_mean<%s>' % T if False else 'tag::non_coherent_tail_mean<%s>' % T, 'o(ba::non_coherent_tail_mean(s, %s));' % q, 'nctm:' + S + tl)
    d('ctm_' + S, ['tag::tail_quantile<%s>' % T, 'tag::coherent_tail_mean<%s>' % T], 'o(ba::tail_mean(s, %s));' % q, 'tail_mean:c%s nctm:%s quantile:t%s' % (S, S, S) + tl)
    d('tv_' + S, 'tag::tail_variate<%s, %s>' % (C1, T), 'o.range(ba::tail_variate(s));', 'tv:' + S + tl, need='0')
    d('tvma_' + S, 'tag::tail_variate_means<%s, std::vector<double>, tag::covariate1>(absolute)' % T if False else 'tag::absolute_tail_variate_means<%s, std::vector<double>, vtag::tail_covs>' % T,
      'o.range(ba::tail_variate_means(s, %s));' % q, 'tvma:%s tv:v%s nctm:%s' % (S, S, S) + tl)
    d('tvmr_' + S, 'tag::relative_tail_variate_means<%s, std::vector<double>, vtag::tail_covs>' % T,
      'o.range(ba::relative_tail_variate_means(s, %s));' % q, 'tvmr:%s tv:v%s nctm:%s' % (S, S, S) + tl)
    d('pot_' + S, 'tag::peaks_over_threshold<%s>(with_threshold_value)' % T, 'o.fit(ba::peaks_over_threshold(s));', 'pot:v' + S)
    d('potp_' + S, 'tag::peaks_over_threshold<%s>(with_threshold_probability)' % T, 'o.fit(ba::peaks_over_threshold(s));', 'pot:p' + S + tl)
    d('potq_' + S, 'tag::pot_quantile<%s>(with_threshold_value)' % T, 'o(ba::quantile(s, %s));' % q, 'pot:v%s quantile:pv%s' % (S, S))
    d('potpq_' + S, 'tag::pot_quantile<%s>(with_threshold_probability)' % T, 'o(ba::quantile(s, %s));' % q, 'pot:p%s quantile:pp%s' % (S, S) + tl)
    d('pottm_' + S, 'tag::pot_tail_mean<%s>(with_threshold_value)' % T, 'o(ba::tail_mean(s, %s));' % q, 'pot:v%s quantile:pv%s tail_mean:pv%s' % (S, S, S))
    d('potptm_' + S, 'tag::pot_tail_mean<%s>(with_threshold_probability)' % T, 'o(ba::tail_mean(s, %s));' % q, 'pot:p%s quantile:pp%s tail_mean:pp%s' % (S, S, S) + tl)
d('rwin', 'tag::rolling_window', 'o.range(ba::rolling_window(s));', 'rw:p', need='0')
d('rcount', 'tag::rolling_count', 'o(ba::rolling_count(s));', 'rc:p', need='0')
d('rsum', 'tag::rolling_sum', 'o(ba::rolling_sum(s));', 'rs:p', need='0')
d('rmean_lazy', 'tag::rolling_mean(lazy)', 'o(ba::rolling_mean(s));', 'rm:l')
d('rmean_imm', 'tag::rolling_mean(immediate)', 'o(ba::rolling_mean(s));', 'rm:i')
d('rmoment3', 'tag::rolling_moment<3>', 'o(ba::rolling_moment<3>(s));', 'rmo3:p')
d('rvar_lazy', 'tag::rolling_variance(lazy)', 'o(ba::rolling_variance(s));', 'rv:l rm:i rmo2:p')
d('rvar_imm', 'tag::rolling_variance(immediate)', 'o(ba::rolling_variance(s));', 'rv:i rm:i')
d('cov', 'tag::covariance<%s>' % C1, 'o(ba::covariance(s));', 'cov:1 mean:l sum:p mv1:l sov:1')
d('mov', 'tag::mean_of_variates<%s>' % C1, 'o((ba::mean_of_variates<%s>(s)));' % C1 if False else 'o((ba::extract_result<tag::mean_of_variates<%s> >(s)));' % C1, 'mv1:l sov:1')
d('mov_imm', 'tag::mean_of_variates<%s>(immediate)' % C2, 'o((ba::extract_result<tag::immediate_mean_of_variates<%s> >(s)));' % C2, 'mv2:i')
d('sov', 'tag::sum_of_variates<%s>' % C1, 'o(ba::sum_of_variates(s));', 'sov:1', need='0')
d('sov_kahan', 'tag::sum_of_variates_kahan<%s>' % C1, 'o(ba::sum_of_variates_kahan(s));', 'sov:1k', need='0')
# ---- weighted (the library replaces the statistic by its weighted form)
w = [x['name'] for x in D]
SOW = ' sow:p'
d('w_count', 'tag::count', 'o(ba::count(s));', 'count:p', 'w', need='0')
d('w_min', 'tag::min', 'o((ba::min)(s));', 'min:p', 'w')
d('w_sum', 'tag::sum', 'o(ba::sum(s));', 'sum:p', 'w', need='0')
d('w_sum_kahan', 'tag::sum_kahan', 'o(ba::sum_kahan(s));', 'sum:k', 'w', need='0')
d('w_sow', 'tag::sum_of_weights', 'o(ba::sum_of_weights(s));', 'sow:p', 'w', need='0')
d('w_sow_kahan', 'tag::sum_of_weights_kahan', 'o(ba::sum_of_weights_kahan(s));', 'sow:k', 'w', need='0')
d('w_mean_lazy', 'tag::mean(lazy)', 'o(ba::mean(s));', 'mean:l sum:p' + SOW, 'w')
d('w_mean_imm', 'tag::mean(immediate)', 'o(ba::mean(s));', 'mean:i' + SOW, 'w')
d('w_mow_lazy', 'tag::mean_of_weights(lazy)', 'o(ba::mean_of_weights(s));', 'mow:l' + SOW, 'w')
d('w_mow_imm', 'tag::mean_of_weights(immediate)', 'o(ba::mean_of_weights(s));', 'mow:i', 'w')
d('w_moment2', 'tag::moment<2>', 'o(ba::moment<2>(s));', 'moment2:p' + SOW, 'w')
d('w_moment3', 'tag::moment<3>', 'o(ba::moment<3>(s));', 'moment3:p' + SOW, 'w')
d('w_variance_lazy', 'tag::variance(lazy)', 'o(ba::variance(s));', 'variance:l mean:l sum:p moment2:p' + SOW, 'w')
d('w_variance_imm', 'tag::variance(immediate)', 'o(ba::variance(s));', 'variance:i mean:i' + SOW, 'w')
d('w_skewness', 'tag::skewness', 'o(ba::skewness(s));', 'skewness:p mean:l sum:p moment2:p moment3:p' + SOW, 'w')
d('w_kurtosis', 'tag::kurtosis', 'o(ba::kurtosis(s));', 'kurtosis:p mean:l sum:p moment2:p moment3:p moment4:p' + SOW, 'w')
d('w_density', 'tag::density', 'o.pairs(ba::density(s));', 'density:p' + SOW, 'w', need='c.dcache')
d('w_median', 'tag::median', 'o(ba::median(s));', 'median:p psqm:p' + SOW, 'w', need='5')
d('w_median_density', 'tag::median(with_density)', 'o(ba::median(s));', 'median:d density:p' + SOW, 'w', need='c.dcache')
d('w_median_dist', 'tag::median(with_p_square_cumulative_distribution)', 'o(ba::median(s));', 'median:c psqd:p' + SOW, 'w', need='c.cells + 1')
d('w_psq', 'tag::p_square_quantile', 'o(ba::weighted_p_square_quantile(s));', 'psq:p' + SOW, 'w', need='5')
d('w_psqd', 'tag::p_square_cumulative_distribution', 'o.pairs(ba::weighted_p_square_cumulative_distribution(s));', 'psqd:p' + SOW, 'w', need='c.cells + 1')
d('w_ext', 'tag::extended_p_square', 'o.range(ba::weighted_extended_p_square(s));', 'ext:p' + SOW, 'w', need='2 * c.probs.size() + 3')
d('w_extq', 'tag::extended_p_square_quantile', EXTQ, 'quantile:e ext:p' + SOW, 'w', need='2 * c.probs.size() + 3')
d('w_extqq', 'tag::extended_p_square_quantile(quadratic)', EXTQ, 'quantile:q ext:p' + SOW, 'w', need='2 * c.probs.size() + 3')
for S, T, P in (('r', R, 'p'), ('l', L, '(1 - p)')):
    q = 'quantile_probability = (%s)' % P
    tl = ' tail:%s tw:%s' % (S, S) + SOW
    d('w_tw_' + S, 'tag::tail_weights<%s>' % T, 'o.range(ba::tail_weights(s)); o.range(ba::tail(s));', 'x:x' + tl, 'w', need='0')
    d('w_tq_' + S, 'tag::tail_quantile<%s>' % T, 'o(ba::quantile(s, %s));' % q, 'quantile:t' + S + tl, 'w')
    d('w_nctm_' + S, 'tag::non_coherent_tail_mean<%s>' % T, 'o(ba::non_coherent_tail_mean(s, %s));' % q, 'nctm:' + S + tl, 'w')
    d('w_tvma_' + S, 'tag::absolute_tail_variate_means<%s, std::vector<double>, vtag::tail_covs>' % T, 'o.range(ba::tail_variate_means(s, %s));' % q, 'tvma:%s tv:v%s nctm:%s' % (S, S, S) + tl, 'w')
    d('w_tvmr_' + S, 'tag::relative_tail_variate_means<%s, std::vector<double>, vtag::tail_covs>' % T, 'o.range(ba::relative_tail_variate_means(s, %s));' % q, 'tvmr:%s tv:v%s nctm:%s' % (S, S, S) + tl, 'w')
    d('w_pot_' + S, 'tag::peaks_over_threshold<%s>(with_threshold_value)' % T, 'o.fit(ba::peaks_over_threshold(s));', 'pot:v' + S + SOW, 'w')
    d('w_potp_' + S, 'tag::peaks_over_threshold<%s>(with_threshold_probability)' % T, 'o.fit(ba::peaks_over_threshold(s));', 'pot:p' + S + tl, 'w')
    d('w_pottm_' + S, 'tag::pot_tail_mean<%s>(with_threshold_value)' % T, 'o(ba::tail_mean(s, %s));' % q, 'pot:v%s quantile:pv%s tail_mean:pv%s' % (S, S, S) + SOW, 'w')
    d('w_potptm_' + S, 'tag::pot_tail_mean<%s>(with_threshold_probability)' % T, 'o(ba::tail_mean(s, %s));' % q, 'pot:p%s quantile:pp%s tail_mean:pp%s' % (S, S, S) + tl, 'w')
for S, T, P in (('r', R, 'p'), ('l', L, '(1 - p)')):
    q = 'quantile_probability = (%s)' % P
    tl = ' tail:%s tw:%s' % (S, S) + SOW
    d('w_tv_' + S, 'tag::tail_variate<%s, %s>' % (C1, T), 'o.range(ba::tail_variate(s));', 'tv:%s tail:%s' % (S, S), 'w', need='0')
    d('w_potq_' + S, 'tag::pot_quantile<%s>(with_threshold_value)' % T, 'o(ba::quantile(s, %s));' % q, 'pot:v%s quantile:pv%s' % (S, S) + SOW, 'w')
    d('w_potpq_' + S, 'tag::pot_quantile<%s>(with_threshold_probability)' % T, 'o(ba::quantile(s, %s));' % q, 'pot:p%s quantile:pp%s' % (S, S) + tl, 'w')
d('w_max', 'tag::max', 'o((ba::max)(s));', 'max:p', 'w')
d('w_sov', 'tag::weighted_sum_of_variates<%s>' % C1, 'o(ba::weighted_sum_of_variates(s));', 'wsov:1', 'w', need='0')
d('w_sov_kahan', 'tag::weighted_sum_of_variates_kahan<%s>' % C1, 'o(ba::weighted_sum_of_variates_kahan(s));', 'wsov:1k', 'w', need='0')
d('w_rwin', 'tag::rolling_window', 'o.range(ba::rolling_window(s));', 'rw:p', 'w', need='0')
d('w_rsum', 'tag::rolling_sum', 'o(ba::rolling_sum(s));', 'rs:p', 'w', need='0')
d('w_rmean_imm', 'tag::rolling_mean(immediate)', 'o(ba::rolling_mean(s));', 'rm:i', 'w')
d('w_rvar_lazy', 'tag::rolling_variance(lazy)', 'o(ba::rolling_variance(s));', 'rv:l rm:i rmo2:p', 'w')
d('w_cov', 'tag::covariance<%s>' % C1, 'o(ba::covariance(s));', 'cov:1 mean:l sum:p mv1:l wsov:1' + SOW, 'w')
d('w_mov', 'tag::mean_of_variates<%s>' % C1, 'o((ba::extract_result<tag::mean_of_variates<%s> >(s)));' % C1, 'mv1:l wsov:1' + SOW, 'w')
d('w_mov_imm', 'tag::mean_of_variates<%s>(immediate)' % C2, 'o((ba::extract_result<tag::immediate_mean_of_variates<%s> >(s)));' % C2, 'mv2:i' + SOW, 'w')
# ---- vector samples (three components: sample and the two covariates), unweighted and weighted
for K, pre in (('v', 'v_'), ('x', 'vw_')):
    M = '' if K == 'v' else SOW
    d(pre + 'count', 'tag::count', 'o(ba::count(s));', 'count:p', K, need='0')
    d(pre + 'sum', 'tag::sum', 'o.range(ba::sum(s));', 'sum:p', K, need='0')
    d(pre + 'mean_lazy', 'tag::mean(lazy)', 'o.range(ba::mean(s));', 'mean:l sum:p' + M, K)
    d(pre + 'mean_imm', 'tag::mean(immediate)', 'o.range(ba::mean(s));', 'mean:i' + M, K)
d('v_min', 'tag::min', 'o.range((ba::min)(s));', 'min:p', 'v')
d('v_max', 'tag::max', 'o.range((ba::max)(s));', 'max:p', 'v')
d('v_moment2', 'tag::moment<2>', 'o.range(ba::moment<2>(s));', 'moment2:p', 'v')
d('v_variance_lazy', 'tag::variance(lazy)', 'o.range(ba::variance(s));', 'variance:l mean:l sum:p moment2:p', 'v')
d('v_variance_imm', 'tag::variance(immediate)', 'o.range(ba::variance(s));', 'variance:i mean:i', 'v')
d('v_cov', 'tag::covariance<%s>' % C1, 'o.range(ba::covariance(s));', 'cov:1 mean:l sum:p mv1:l sov:1', 'v')
d('v_rwin', 'tag::rolling_window', 'for (auto const &e : ba::rolling_window(s)) o.range(e);', 'rw:p', 'v', need='0')
d('v_rcount', 'tag::rolling_count', 'o(ba::rolling_count(s));', 'rc:p', 'v', need='0')
# ---- integer samples and weights
IP = {'count', 'sum', 'min', 'max', 'mean_lazy', 'mean_imm', 'moment2', 'variance_lazy', 'variance_imm', 'skewness', 'kurtosis', 'density', 'median', 'psq', 'extq', 'tq_r', 'tq_l', 'nctm_r', 'tail_l', 'tv_r', 'rwin', 'rsum', 'rmean_lazy', 'rmean_imm', 'rvar_lazy',
      'rvar_imm', 'w_sum', 'w_mean_lazy', 'w_mean_imm', 'w_variance_lazy', 'w_variance_imm', 'w_density', 'w_median', 'w_tq_r', 'w_nctm_l', 'w_extq'}
for x in list(D):
    if x['name'] in IP:
        D.append(dict(x, name='i_' + x['name'], kind='i' if x['kind'] == 'u' else 'j'))
TYPES = {'u': ('double', ''), 'w': ('double', ', double'), 'v': ('std::vector<double>', ''), 'x': ('std::vector<double>', ', double'), 'i': ('int', ''), 'j': ('int', ', int')}
BY = dict((x['name'], x) for x in D)


def combo(rnd, kind, size):
    """names of statistics that may share a set: no two of them provide, or need, the same feature in different forms"""
    names = [x['name'] for x in D if x['kind'] == kind]
    rnd.shuffle(names)
    got, prov, tags = [], {}, []
    for n in names:
        x = BY[n]
        if any(prov.get(k, v) != v for k, v in x['prov'].items()):
            continue
        if len(tags) + len(x['tags']) > 18:
            break
        got.append(n)
        prov.update(x['prov'])
        tags += x['tags']
        if len(got) == size:
            break
    rnd.shuffle(got)
    return got


def compatible(a, b):
    x, y = BY[a]['prov'], BY[b]['prov']
    return all(y.get(k, v) == v for k, v in x.items())


def family(n):
    n = n.split('_', 1)[1] if n[:2] in ('w_', 'v_', 'i_') or n[:3] == 'vw_' else n
    n = n[2:] if n[:2] == 'w_' else n
    for f, pre in (('quantile', ('psq', 'median', 'ext', 'density')), ('rolling', ('rwin', 'rcount', 'rsum', 'rmean', 'rmom', 'rvar')), ('tail', ('tail', 'tq', 'nctm', 'ctm', 'tv', 'tw', 'pot'))):
        if n.startswith(pre):
            return f
    return 'moment'


class Cover:
    """combinations chosen so that as many compatible pairs as possible meet in some set, pairs of one family first"""
    def __init__(self, rnd):
        self.rnd = rnd
        self.want = {}
        for k in 'uwvxij':
            ns = [x['name'] for x in D if x['kind'] == k]
            self.want[k] = dict((frozenset((a, b)), 4 if family(a) == family(b) else 1) for i, a in enumerate(ns) for b in ns[:i] if compatible(a, b))
        self.total = dict((k, len(v)) for k, v in self.want.items())

    def combo(self, size):
        kind = max(self.want, key=lambda k: (sum(self.want[k].values()), self.rnd.random()))
        w = self.want[kind]
        got, prov, tags = [], {}, 0
        names = [x['name'] for x in D if x['kind'] == kind]
        if w:
            best = max(w.values())
            got = list(self.rnd.choice(sorted([sorted(p) for p in w if w[p] == best])))
            for g in got:
                prov.update(BY[g]['prov'])
                tags += len(BY[g]['tags'])
        while len(got) < size:
            cand = []
            for n in names:
                x = BY[n]
                if n in got or tags + len(x['tags']) > 18 or any(prov.get(k, v) != v for k, v in x['prov'].items()):
                    continue
                cand.append((sum(w.get(frozenset((n, g)), 0) for g in got), self.rnd.random(), n))
            if not cand:
                break
            n = max(cand)[2]
            got.append(n)
            prov.update(BY[n]['prov'])
            tags += len(BY[n]['tags'])
        for i, a in enumerate(got):
            for b in got[:i]:
                w.pop(frozenset((a, b)), None)
        self.rnd.shuffle(got)
        return got


def emit(name, feats, serial):
    tags = []
    for f in feats:
        for t in BY[f]['tags']:
            if t not in tags:
                tags.append(t)
    kind = BY[feats[0]]['kind']
    wtd = kind in 'wxj'
    o = ['struct D_%s {' % name]
    o.append('  typedef accumulator_set<%s, stats<%s>%s> Set; enum { count = %d };' % (TYPES[kind][0], ', '.join(tags), TYPES[kind][1], len(feats)))
    o.append('  static %s zero() { return %s; }' % (TYPES[kind][0], 'std::vector<double>(3)' if kind in 'vx' else '0'))
    x = {'u': 'x', 'w': 'x', 'v': 'y', 'x': 'y', 'i': 'any::small(x, 20)', 'j': 'any::small(x, 20)'}[kind]
    wt = {'w': 'w', 'x': 'w', 'j': '1 + std::abs(any::small(w * 3, 4))'}.get(kind)
    o.append('  static void push(Set &s, double x, double w, double c1, double c2) { std::vector<double> v(2); v[0] = c1; v[1] = c2; %ss(%s, %scovariate1 = c1, covariate2 = c2, tail_covs = v); }' % ('std::vector<double> y(3); y[0] = x; y[1] = c1; y[2] = c2; ' if kind in 'vx' else '', x, 'weight = %s, ' % wt if wt else ''))
    o.append('  static void snap(Set const &s, int f, any::Cfg const &c, std::size_t n, any::Snap &v, double p) { any::Out o(v); switch (f) {')
    for i, f in enumerate(feats):
        o.append('    case %d: if (%sn >= (%s)) { %s } break;' % (i, '' if 'median_density' in f else 'c.early || ', BY[f]['need'], BY[f]['code']))
    o.append('  } }')
    if serial:
        o.append('  template<class A> static void save(A &a, Set const &s) { a << s; } template<class A> static void load(A &a, Set &s) { a >> s; }')
    o.append('};')
    o.append('static any::Add add_%s(any::Entry{"%s", {%s}, %s, [](any::Cfg const &c) -> any::AnySet * { return new any::SetOf<D_%s>(c); }});'
             % (name, name, ', '.join('"%s"' % f for f in feats), 'true' if wtd else 'false', name))
    return '\n'.join(o)


def generate(tus, combos, solos=True, serial=False, tag='sets', size=(2, 8), skip=(), cover=None):
    """combos: {'quick': number of random combinations, ...}"""
    def gen(seed, tier, bdir):
        rnd = random.Random('%s-%s-%s' % (tag, seed, tier))
        units = []
        if solos:
            units += [('solo_' + x['name'], [x['name']]) for x in D if x['name'] not in skip and (x['serial'] or not serial)]
        if cover:
            cv = Cover(rnd)
            for k in range(cover[tier]):
                units.append(('cover%03d' % k, cv.combo(9)))
        for k in range(combos[tier]):
            kind = rnd.choices('uwvxij', [45, 35, 8, 2, 6, 4])[0]
            units.append(('combo%03d' % k, combo(rnd, kind, rnd.randint(*size))))
        n = tus[tier]
        out = {}
        units.sort(key=lambda u: -len(u[1]))
        for t in range(n):
            p = os.path.join(bdir, '%s_%02d.cpp' % (tag, t))
            with open(p, 'w') as f:
                f.write('%s#include "anyset_impl.hpp"\n' % ('#define VERIF_SERIALIZE 1\n' if serial else ''))
                for name, feats in units[t::n]:
                    f.write(emit(name, feats, serial) + '\n')
            out['%s_%02d' % (tag, t)] = p
        return out
    return gen
