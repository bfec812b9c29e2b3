"""Compile-fail witnesses: template arguments outside the documented requirements do not compile; the nearest valid ones do."""
import subprocess, shutil, os
from concurrent.futures import ThreadPoolExecutor
INC = 'linear_congruential mersenne_twister subtract_with_carry discard_block lagged_fibonacci linear_feedback_shift shuffle_order gamma_distribution uniform_01 sobol niederreiter_base2 independent_bits'.split()
E = 'typedef %s E; E e; (void)e();'
D = 'boost::random::mt19937 g; typedef %s E; E e; (void)e(g);'
Q = 'typedef %s E; E e(2); (void)e();'
R = 'boost::random::'
LCG = R + 'linear_congruential_engine<boost::uint32_t, %s>'; LFS = R + 'linear_feedback_shift_engine<boost::uint32_t, %s>'; DB = R + 'discard_block_engine<' + R + 'minstd_rand, %s>'; SH = R + 'shuffle_order_engine<%s>'
SOB = R + 'sobol_engine<%s>'; NB = R + 'niederreiter_base2_engine<%s>'
# header, name, template, rejected, accepted
W = [('linear_congruential', 'an LCG\'s integer type is an integer', E, R + 'linear_congruential_engine<double, 16807, 0, 2147483647>', R + 'linear_congruential_engine<long, 16807, 0, 2147483647>'),
     ('linear_congruential', 'an LCG\'s multiplier is below the modulus', E, LCG % '101u, 0u, 101u', LCG % '100u, 0u, 101u'),
     ('linear_congruential', 'an LCG\'s increment is below the modulus', E, LCG % '7u, 101u, 101u', LCG % '7u, 100u, 101u'),
     ('discard_block', 'discard_block returns no more than a block', E, DB % '10, 11', DB % '10, 10'),
     ('linear_feedback_shift', 'Tausworthe: k < w', E, LFS % '32, 32, 13, 12', LFS % '32, 31, 13, 12'),
     ('linear_feedback_shift', 'Tausworthe: q > 0', E, LFS % '32, 31, 0, 12', LFS % '32, 31, 1, 12'),
     ('linear_feedback_shift', 'Tausworthe: 2q < k', E, LFS % '32, 30, 15, 12', LFS % '32, 31, 15, 12'),
     ('linear_feedback_shift', 'Tausworthe: s > 0', E, LFS % '32, 31, 13, 0', LFS % '32, 31, 13, 1'),
     ('linear_feedback_shift', 'Tausworthe: s <= k - q', E, LFS % '32, 31, 13, 19', LFS % '32, 31, 13, 18'),
     ('shuffle_order', 'shuffle_order shuffles integers', E, SH % (R + 'lagged_fibonacci607, 10'), SH % (R + 'minstd_rand, 10')),
     ('shuffle_order', 'shuffle_order has a table', E, SH % (R + 'minstd_rand, 0'), SH % (R + 'minstd_rand, 1')),
     ('subtract_with_carry', 'subtract_with_carry_engine is over integers', E, R + 'subtract_with_carry_engine<double, 24, 10, 24>', R + 'subtract_with_carry_engine<boost::uint32_t, 24, 10, 24>'),
     ('subtract_with_carry', 'subtract_with_carry_01_engine is over reals', E, R + 'subtract_with_carry_01_engine<int, 24, 10, 24>', R + 'subtract_with_carry_01_engine<double, 24, 10, 24>'),
     ('gamma_distribution', 'gamma_distribution is over reals', D, R + 'gamma_distribution<int>', R + 'gamma_distribution<float>'),
     ('uniform_01', 'uniform_01 adaptor is over reals', 'boost::random::mt19937 g; typedef %s E; E e(g); (void)e();', 'boost::uniform_01<boost::random::mt19937, int>', 'boost::uniform_01<boost::random::mt19937, double>'),
     ('sobol', 'a Sobol generator has digits', Q, SOB % 'boost::uint32_t, 0', SOB % 'boost::uint32_t, 1'),
     ('sobol', 'a Sobol generator\'s digits fit its type', Q, SOB % 'boost::uint32_t, 33', SOB % 'boost::uint32_t, 32'),
     ('niederreiter_base2', 'a Niederreiter generator has digits', Q, NB % 'boost::uint32_t, 0', NB % 'boost::uint32_t, 1'),
     ('niederreiter_base2', 'a Niederreiter generator\'s digits fit its type', Q, NB % 'boost::uint32_t, 33', NB % 'boost::uint32_t, 32')]
def run(ctx):
    cxx = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
    def comp(w):
        h, name, t, bad, good = w; out = []
        for k, ty in (('bad', bad), ('good', good)):
            f = '%s/w_%s_%s.cpp' % (ctx['dir'], abs(hash((h, name))), k)
            open(f, 'w').write('#include <boost/cstdint.hpp>\n#include <boost/random/%s.hpp>\n%svoid f() { %s }\n' % (h, '#include <boost/random/mersenne_twister.hpp>\n#include <boost/random/linear_congruential.hpp>\n#include <boost/random/lagged_fibonacci.hpp>\n', t % ty))
            c = subprocess.run([cxx, '-std=gnu++17', '-fsyntax-only', '-w', '-I' + ctx['repo'] + '/include', f], stderr=subprocess.PIPE, text=True); out.append((c.returncode, c.stderr)); os.remove(f)
        return w, out
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(comp, W))
    v = []; n = 0
    for (h, name, t, bad, good), out in res:
        wh = 'include/boost/random/%s.hpp' % h
        if out[0][0] == 0: v.append(dict(scenario='witness', rule='template arguments outside the documented requirements do not compile: ' + name, where=wh, witness=bad))
        else: n += 1
        if out[1][0] != 0: v.append(dict(scenario='witness', rule='valid template arguments compile: ' + name, where=wh, witness=good + ' : ' + ' '.join(l for l in out[1][1].splitlines() if 'error' in l)[:300]))
        else: n += 1
    return dict(obligations=2 * len(W), discharged=n, functions=[], violations=v, rule='Compile-fail witnesses: a program instantiating a template with arguments outside its documented requirements must be rejected by the type checker, and its nearest valid neighbour accepted.', analysed='%d pairs of witness programs' % len(W))
