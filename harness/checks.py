"""What each check builds and runs."""
ASAN = ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']
FLAVOURS = {
    'asan': dict(cxx='g++', flags=ASAN,
                 env={'ASAN_OPTIONS': 'abort_on_error=0:exitcode=98:detect_leaks=0:allocator_may_return_null=1', 'UBSAN_OPTIONS': 'print_stacktrace=1'}),
    'asan0': dict(cxx='g++', flags=['-O0', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address', '-fno-sanitize-recover=all'],
                  env={'ASAN_OPTIONS': 'abort_on_error=0:exitcode=98:detect_leaks=0:allocator_may_return_null=1', 'UBSAN_OPTIONS': 'print_stacktrace=1'}),
    'asandbg': dict(cxx='g++', flags=['-O1', '-g1', '-D_GLIBCXX_DEBUG', '-fno-omit-frame-pointer', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all'],
                    env={'ASAN_OPTIONS': 'abort_on_error=0:exitcode=98:detect_leaks=0:allocator_may_return_null=1', 'UBSAN_OPTIONS': 'print_stacktrace=1'}),
    'memcheck': dict(cxx='g++', flags=['-O1', '-g1'], wrap=['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes', '--leak-check=no']),
    'tsan': dict(cxx='g++', flags=['-O1', '-g1', '-fsanitize=thread'], env={'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:history_size=4'}),
    'plain1': dict(cxx='g++', flags=['-O1', '-g1']),
    'plain': dict(cxx='g++', flags=['-O2', '-g1']),
}
CHECKS = {}


def parts(src, n):
    return ['%s@PART=%d' % (src, i) for i in range(1, n + 1)]


def check(pid, rule, builds, assumptions=(), technique='reference-model monitor on every extraction, under ASan+UBSan', **kw):
    CHECKS[pid] = dict(rule=rule, builds=builds, assumptions=list(assumptions), technique=technique, **kw)


FP = 'IEEE double/long double arithmetic of the host; the reference recomputes in 80-bit extended precision'

check('C01', 'seeded streams (15 shapes x lengths 0..70000 x sample types, and one of more than 2^32 samples) pushed into real sets, every scheduled extraction compared with a '
      'reference recomputation; non-trivial: at least one comparison on a stream of two or more samples; distinct by stream content and configuration',
      [dict(name='basic', flavour='asan', srcs=['c01_basic.cpp@PART=1', 'c01_basic.cpp@PART=2'] + parts('c01_types.cpp', 7), scale=dict(quick=1, thorough=40)),
       dict(name='long', flavour='plain', srcs=['c01_long.cpp'], scale=dict(quick=1, thorough=8), budget=300)], [FP])

check('C02', 'seeded (sample, weight) streams over 7 type pairs, 15 stream shapes x 6 weight shapes, every scheduled extraction compared with a weighted '
      'reference and, for integer weights, with the repeated unweighted stream; non-trivial: two or more pairs pushed and compared',
      [dict(name='weighted', flavour='asan', srcs=parts('c02_weighted.cpp', 8), scale=dict(quick=1, thorough=40))],
      [FP, 'the running total of the weights is positive from the first sample on; ratio of weights at most 1e6'])

check('C03', 'seeded streams of scalar/vector samples and covariates, dimensions 1..5 (equal and unequal), vector/valarray/complex samples; every component '
      'compared with the scalar reference of that component; non-trivial: two or more samples',
      [dict(name='vector', flavour='asan', srcs=parts('c03_vector.cpp', 6), scale=dict(quick=1, thorough=40))], [FP])

check('C04', 'seeded hostile streams (below-half-ulp increments, wide magnitude spread, cancellation, harmonic, constant 0.1) of float/double/long double into all '
      'compensated sums; every scheduled extraction compared with a 113-bit sum against the compensated-summation bound; non-trivial: two or more samples',
      [dict(name='kahan', flavour='asan', srcs=['c04_kahan.cpp'], scale=dict(quick=1, thorough=40)),
       dict(name='kahan_o2', flavour='plain', srcs=['c04_kahan.cpp'], scale=dict(quick=1, thorough=40))],
      ['113-bit __float128 accumulation of the history is exact enough to be the oracle'])

check('C05', 'seeded streams x window sizes 1..300 x stream lengths (short of, at, just past the window, many wraps) for 6 arithmetic and 2 class sample types; every scheduled '
      'extraction compared with the statistic of exactly the last min(n, window) recorded samples; non-trivial: two or more samples',
      [dict(name='rolling', flavour='asan', srcs=parts('c05_rolling.cpp', 4), scale=dict(quick=5, thorough=40))], [FP])

check('C06', 'seeded streams (with and without ties) x cache sizes (one, around the stream length, beyond it) x left/right; every pushed tuple carries a unique id in its covariate and weight, '
      'each scheduled extraction is matched against the sorted history and the ids against the tuples pushed; non-trivial: two or more tuples',
      [dict(name='tail', flavour='asan', srcs=parts('c06_tail.cpp', 3), scale=dict(quick=3, thorough=60))], ['cache sizes of at least one', 'samples are not NaN'],
      technique='unique-id history monitor over every tail extraction, under ASan+UBSan')

check('C07', 'seeded streams x cache sizes x probabilities (dyadic, 0, 1, uniform, at the cache edge) x left/right x weighted/unweighted; each scheduled extraction compared with the '
      'order-statistic definition over the recorded history, insufficient cache must give NaN/exception; non-trivial: two or more samples',
      [dict(name='tailstats', flavour='asan', srcs=parts('c07_tailstats.cpp', 5), scale=dict(quick=2, thorough=60))],
      [FP, 'where rounding of count*probability decides the rank, either neighbouring rank is accepted', 'positive weights'])

check('C08', 'seeded streams x cache sizes 1..80 x bins 1..40 x weights; at every scheduled extraction from the fill of the cache on, bin positions, membership of every recorded sample, '
      'conservation and stability of positions are judged; non-trivial: two or more samples',
      [dict(name='density', flavour='asan', srcs=parts('c08_density.cpp', 2), scale=dict(quick=3, thorough=80))],
      [FP, 'samples within rounding of a bin boundary may be counted on either side unless the bin arithmetic is exact (integers, power-of-two bins)', 'total weight positive'],
      technique='conservation and membership monitor over every histogram extraction, under ASan+UBSan')

check('C09', 'seeded streams x probabilities (dyadic, arbitrary, extreme) or cell counts x weights; every scheduled extraction from the fill of the markers on compared with a set-valued '
      'reference of the P-square recurrences (rounding ties followed both ways) and with the range/monotonicity/end-marker invariants; non-trivial: stream longer than the marker count',
      [dict(name='psq', flavour='asan', srcs=parts('c09_psq.cpp', 2), scale=dict(quick=2, thorough=60))],
      [FP, 'positive weights', 'the recurrence comparison ends (invariants go on) where more than 48 rounding-tie branches are open or equal initial samples carry different weights'],
      technique='set-valued online reference of the marker recurrences plus invariants, under ASan+UBSan')

check('C10', 'seeded streams x 1..8 tracked probabilities x weights x requested probabilities (tracked, between, midpoints, outside); every scheduled extraction compared with a set-valued reference of '
      'the extended recurrences and with interpolation over the reported tracked quantiles; non-trivial: stream longer than the marker count',
      [dict(name='extended', flavour='asan', srcs=parts('c10_ext.cpp', 2), scale=dict(quick=2, thorough=60))],
      [FP, 'positive weights', 'strictly increasing probabilities in (0,1)', 'the recurrence comparison ends where too many rounding ties are open'],
      technique='set-valued online reference of the marker recurrences plus interpolation oracle, under ASan+UBSan')

check('C11', 'seeded streams x bins x cache sizes x cells x weights x extraction schedules; each median compared with the crossing of one half of the distribution the same set reports, with the P-square '
      'reference, with its own repetition and with a twin that was never looked at before; non-trivial: two or more samples',
      [dict(name='median', flavour='asan', srcs=parts('c11_median.cpp', 2), scale=dict(quick=2, thorough=60))],
      [FP, 'positive weights', 'extraction from the fill of the cache or markers on', 'where the distribution is flat at one half any point of the flat part is accepted'],
      technique='model-crossing monitor with never-extracted twins, under ASan+UBSan')

check('C12', 'seeded streams x threshold values/probabilities x tail sides x cache sizes x weights x extraction schedules; fit parameters compared with the moment formulas over the recorded exceedances, derived '
      'quantile and tail mean with their closed forms, and with a twin never extracted before; non-trivial: two or more samples',
      [dict(name='pot', flavour='asan', srcs=parts('c12_pot.cpp', 3), scale=dict(quick=2, thorough=60))],
      [FP, 'positive weights', 'fits whose exceedances are too few or have no spread are executed but not judged', 'when exactly the whole cache is needed either NaN or the fit is accepted'],
      technique='formula monitor over recorded exceedances with never-extracted twins, under ASan+UBSan')

check('C13', 'seeded streams into sets holding the lazy, the immediate and mixed variants (one listed, the other needed by something else, both listing orders); at every scheduled extraction the variants are '
      'compared with each other and with the reference; non-trivial: two or more samples',
      [dict(name='lazy', flavour='asan', srcs=parts('c13_lazy.cpp', 5), scale=dict(quick=3, thorough=100))],
      [FP, 'positive weights'], technique='differential monitor between variants plus reference model, under ASan+UBSan')

from gen_graphs import generate   # noqa: E402

check('C14', 'random feature graphs (1..9 features, chains, diamonds, stars, dense; substitutes, modifier aliases, weighted variants; random listing) generated as C++ from the seed, random push/visit/copy/'
      'extract sequences with 10 argument forms; the event trace of every construction, push and visit is judged against the graph; non-trivial: every case; distinct by graph and operation sequence',
      [dict(name='graphs', flavour='asan0', srcs=[], generated=True, scale=dict(quick=1, thorough=10))],
      ['dependency graphs are acyclic whatever variant provides a feature', 'an accumulator that is built but needed by nothing (dependency of a replaced variant) is tolerated'],
      technique='event-trace monitor over generated probe accumulators, under ASan', generate=generate('order', dict(quick=16, thorough=64), dict(quick=6, thorough=8)))

check('C16', 'random feature graphs with droppable and plain features generated as C++ from the seed; random push/drop/copy/extract sequences; after every push the set of accumulators reached is compared with the '
      'reference-counting model; plus real statistics dropped mid-stream against their value at the drop; non-trivial: every case',
      [dict(name='graphs', flavour='asan0', srcs=[], generated=True, scale=dict(quick=1, thorough=10)),
       dict(name='real', flavour='asan', srcs=['c16_real.cpp'], scale=dict(quick=2, thorough=60))],
      ['only features listed as droppable are dropped, each once'],
      technique='event-trace monitor against a liveness model, under ASan+UBSan', generate=generate('drop', dict(quick=16, thorough=64), dict(quick=6, thorough=8)))

import gen_sets   # noqa: E402

check('C15', 'combinations of 2..9 of the statistics/variants (weighted and unweighted) generated as C++ from the seed, fed the same streams as one set per statistic; every scheduled extraction compared; plus '
      'all spellings of extraction against each other; non-trivial: two or more samples; distinct by combination and stream',
      [dict(name='combined', flavour='asan0', srcs=['c15_combined.cpp', 'c15_spell.cpp'], generated=True, scale=dict(quick=2, thorough=20))],
      ['no two of the combined statistics provide or need the same feature in different forms'],
      technique='differential monitor combined set against single-statistic sets, under ASan', generate=gen_sets.generate(dict(quick=48, thorough=96), dict(quick=12, thorough=120), tag='c15', cover=dict(quick=72, thorough=180)))

check('C18', 'every statistic alone, random combinations and droppable sets; source at every kind of point (empty, filling, exactly full, wrapped, partly dropped), copied, moved, swapped, assigned over other states/configurations, self-assigned, source moved on or destroyed; every '
      'continuation compared bit for bit with a twin that was never copied; non-trivial: two or more samples; distinct by set, stream and copy point',
      [dict(name='copies', flavour='asan0', srcs=['c18_copy.cpp', 'c18_drop.cpp'], generated=True, scale=dict(quick=4, thorough=20))],
      [], technique='differential monitor of copies against a twin fed the same history, under ASan', generate=gen_sets.generate(dict(quick=32, thorough=64), dict(quick=12, thorough=100), tag='c18'))

check('C20', 'every statistic alone and random combinations, streams with and without ties, weights and covariates; extracted at random points, repeatedly, in any order and with varying arguments; compared bit for bit with '
      'its own repetition and with twins never extracted before; non-trivial: two or more samples and at least one extraction',
      [dict(name='pure', flavour='asan0', srcs=['c20_pure.cpp'], generated=True, scale=dict(quick=4, thorough=20))],
      ['extraction from the point on at which the statistic has the samples it needs'], technique='differential monitor extracted set against never-extracted twins, under ASan', generate=gen_sets.generate(dict(quick=32, thorough=64), dict(quick=16, thorough=100), tag='c20'))

check('C24', 'every statistic alone and random combinations, caches of 1..64, streams of 200..6000 samples (thorough: 60000) with every extraction schedule; operator new/delete hooks record live bytes after every push and extraction; '
      'non-trivial: every case; distinct by set, stream and length',
      [dict(name='memory', flavour='plain1', srcs=['c24_memory.cpp', 'hooks.cpp'], generated=True, scale=dict(quick=4, thorough=20))],
      ['caches are full after 160 samples (configurations are chosen so)'], technique='online monitor of live heap bytes through operator new/delete hooks', generate=gen_sets.generate(dict(quick=32, thorough=64), dict(quick=12, thorough=60), tag='c24'))

check('C21', 'every statistic alone and random combinations; random interleavings of construction, pushes, extractions (before enough samples, with probabilities 0, 1 and next to them), copies, assignments, destruction over extreme '
      'configurations and streams, and allocation failures at random points of every operation; non-trivial: every case; distinct by set, operation sequence and stream',
      [dict(name='hostile', flavour='asandbg', srcs=['c21_hostile.cpp', 'hooks.cpp'], generated=True, scale=dict(quick=6, thorough=20)),
       dict(name='memcheck', flavour='memcheck', srcs=['c21_hostile.cpp@VERIF_VALGRIND=1', 'hooks.cpp'], generated=True, scale=dict(quick=3, thorough=20), budget=600, optional=True)],
      ['samples are not NaN', 'cache, window, bin and cell counts of at least one'], technique='AddressSanitizer, UBSan, libstdc++ debug mode, valgrind memcheck and leak accounting over hostile histories, with allocation-failure injection',
      generate=gen_sets.generate(dict(quick=32, thorough=64), dict(quick=8, thorough=60), tag='c21'))

check('C22', '2..6 threads released together, each with its own sets of the same (or different) types, running random schedules of construction, pushes, extractions (in and out of range), copies, drops and destruction with random yields, over every statistic, external and referenced sets and vector samples; first use of every set type '
      'happens inside the threads; each thread must reproduce, bit for bit, what one thread computes afterwards; non-trivial: every case; distinct by set types and thread programs',
      [dict(name='threads', flavour='tsan', srcs=['c22_threads.cpp', 'c22_frame.cpp'], generated=True, scale=dict(quick=3, thorough=20), libs=['-pthread'])],
      ['sets are not shared between threads'], technique='ThreadSanitizer race detection plus sequential-replay oracle per thread', generate=gen_sets.generate(dict(quick=32, thorough=64), dict(quick=10, thorough=60), tag='c22'))

check('C19', 'every serializable statistic alone and random combinations, saved empty, part-filled, around full caches and windows, wrapped and at the end, looked at or not, to text and binary archives and through a second generation; '
      'results at once and at every scheduled point of the continuation compared bit for bit with a twin that was never saved; non-trivial: every case; distinct by set, stream and save point',
      [dict(name='serial', flavour='asan0', srcs=['c19_serial.cpp', 'c19_long.cpp', 'c19_drop.cpp'], generated=True, scale=dict(quick=2, thorough=20), libs=['-lboost_serialization']),
       dict(name='memcheck', flavour='memcheck', srcs=['c19_serial.cpp'], generated=True, scale=dict(quick=.1, thorough=2), libs=['-lboost_serialization'], budget=600, optional=True)],
      ['archives are loaded into a set constructed with the same arguments', 'text archives use the non-finite number facets'], technique='differential monitor loaded sets against a never-saved twin, under ASan',
      generate=gen_sets.generate(dict(quick=32, thorough=64), dict(quick=10, thorough=60), serial=True, tag='c19'))

check('C17', 'seeded streams pushed into sets whose weights, or one of whose features, live in another set (handed over at extraction, at every push, held by reference, shared by two sets, reached through a copy) against sets computing '
      'everything themselves; histories over references and values; named arguments in 16 orders of 1..11 keywords observed by probe accumulators at construction, push and extraction; non-trivial: two or more samples',
      [dict(name='external', flavour='asan', srcs=parts('c17_external.cpp', 5) + parts('c17_args.cpp', 3), scale=dict(quick=8, thorough=200))],
      ['the separate set is fed the same data before the set that uses it', 'statistics that read the total weight while accumulating are given the weights at every push or hold the reference'],
      technique='differential monitor external against inlined sets plus argument probes, under ASan+UBSan')

check('C23', 'seeded operand values (zeros, ones, extremes, negatives, fractions) for every pair of supported operand types (built-in arithmetic, vector, valarray, complex, mixed with scalars) through every function object and function '
      'of the numeric layer, each result compared with the plain operator on the operands or components; identities compared with numeric_limits; non-trivial: every case; distinct by types and operands',
      [dict(name='numeric', flavour='asan', srcs=parts('c23_numeric.cpp', 9), scale=dict(quick=20, thorough=400))],
      ['operations whose plain operator would overflow are not generated'], technique='oracle by plain operators on every component, under ASan+UBSan')
