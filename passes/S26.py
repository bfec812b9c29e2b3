"""Type-level witnesses: every header stands alone, every class models its documented concept (programs that must compile / static assertions)."""
import subprocess, shutil, os, re, glob
from concurrent.futures import ThreadPoolExecutor
R = 'boost::random::'
U = 'boost::uint32_t'; L = 'boost::uint64_t'
# header, engine type, {static constant: value}
ENG = [('linear_congruential', R + 'minstd_rand0', dict(multiplier='16807', increment='0', modulus='2147483647', default_seed='1')), ('linear_congruential', R + 'minstd_rand', dict(multiplier='48271', increment='0', modulus='2147483647', default_seed='1')), ('linear_congruential', R + 'rand48', {}),
       ('linear_congruential', R + 'linear_congruential_engine<boost::uint64_t, 6364136223846793005u, 1442695040888963407u, 0>', dict(multiplier='6364136223846793005u', increment='1442695040888963407u', modulus='0u', default_seed='1u')),
       ('mersenne_twister', R + 'mt11213b', dict(word_size='32', state_size='351', shift_size='175', mask_bits='19', xor_mask='0xccab8ee7u', tempering_u='11', tempering_d='0xffffffffu', tempering_s='7', tempering_b='0x31b6ab00u', tempering_t='15', tempering_c='0xffe50000u', tempering_l='17', initialization_multiplier='1812433253u', default_seed='5489u')),
       ('mersenne_twister', R + 'mt19937', dict(word_size='32', state_size='624', shift_size='397', mask_bits='31', xor_mask='0x9908b0dfu', tempering_u='11', tempering_d='0xffffffffu', tempering_s='7', tempering_b='0x9d2c5680u', tempering_t='15', tempering_c='0xefc60000u', tempering_l='18', initialization_multiplier='1812433253u', default_seed='5489u', parameter_a='0x9908b0dfu', output_u='11', output_s='7', output_b='0x9d2c5680u', output_t='15', output_c='0xefc60000u', output_l='18')),
       ('mersenne_twister', R + 'mt19937_64', dict(word_size='64', state_size='312', shift_size='156', mask_bits='31', xor_mask='0xb5026f5aa96619e9u', tempering_u='29', tempering_d='0x5555555555555555u', tempering_s='17', tempering_b='0x71d67fffeda60000u', tempering_t='37', tempering_c='0xfff7eee000000000u', tempering_l='43', initialization_multiplier='6364136223846793005u', default_seed='5489u')),
       ('ranlux', R + 'ranlux24_base', dict(word_size='24', long_lag='24', short_lag='10', default_seed='19780503u')), ('ranlux', R + 'ranlux48_base', dict(word_size='48', long_lag='12', short_lag='5', default_seed='19780503u'))] + \
      [('ranlux', R + n, dict(block_size=b, used_block=u, total_block=b, returned_block=u)) for n, b, u in [('ranlux24', '223', '23'), ('ranlux48', '389', '11'), ('ranlux3', '223', '24'), ('ranlux4', '389', '24'), ('ranlux64_3', '223', '24'), ('ranlux64_4', '389', '24'), ('ranlux3_01', '223', '24'), ('ranlux4_01', '389', '24'), ('ranlux64_3_01', '223', '24'), ('ranlux64_4_01', '389', '24')]] + \
      [('lagged_fibonacci', R + 'lagged_fibonacci%d' % p, dict(word_size='48', long_lag='%du' % p, short_lag='%du' % q, default_seed='331u')) for p, q in [(607, 273), (1279, 418), (2281, 1252), (3217, 576), (4423, 2098), (9689, 5502), (19937, 9842), (23209, 13470), (44497, 21034)]] + \
      [('lagged_fibonacci', R + 'lagged_fibonacci_engine<boost::uint32_t, 24, 17, 5>', dict(word_size='24', long_lag='17u', short_lag='5u', default_seed='331u')),
       ('taus88', R + 'taus88', dict(shift1='0', shift2='0')), ('xor_combine', R + 'xor_combine_engine<%sminstd_rand, 1, %smt19937, 2>' % (R, R), dict(shift1='1', shift2='2')),
       ('linear_feedback_shift', R + 'linear_feedback_shift_engine<boost::uint32_t, 32, 31, 13, 12>', dict(word_size='32', exponent1='31', exponent2='13', step_size='12', default_seed='341u')),
       ('additive_combine', R + 'ecuyer1988', {}), ('shuffle_order', R + 'kreutzer1986', dict(buffer_size='97', table_size='97')), ('shuffle_order', R + 'knuth_b', dict(buffer_size='256', table_size='256')),
       ('inversive_congruential', R + 'hellekalek1995', dict(multiplier='9102', increment='2147483647-36884165', modulus='2147483647', default_seed='1')),
       ('independent_bits', R + 'independent_bits_engine<%sminstd_rand, 20, boost::uint32_t>' % R, {}), ('discard_block', R + 'discard_block_engine<%smt19937, 11, 7>' % R, dict(block_size='11', used_block='7')),
       ('mixmax', R + 'mixmax', {}), ('splitmix64', R + 'splitmix64', {})]
ALLINC = ['mersenne_twister', 'linear_congruential', 'seed_seq', 'variate_generator', 'uniform_int_distribution', 'uniform_real_distribution', 'normal_distribution', 'generate_canonical', 'random_number_generator', 'xor_combine']
DIST = [(n + '_distribution' if h is None else h, (R + t), rt, it, ctor) for n, h, t, rt, it, ctor in [
    ('bernoulli', None, 'bernoulli_distribution<%s>', 'bool', None, '0.5'), ('beta', None, 'beta_distribution<%s>', '%s', None, '1, 2'), ('cauchy', None, 'cauchy_distribution<%s>', '%s', None, '1, 2'), ('chi_squared', None, 'chi_squared_distribution<%s>', '%s', None, '2'), ('exponential', None, 'exponential_distribution<%s>', '%s', None, '2'), ('extreme_value', None, 'extreme_value_distribution<%s>', '%s', None, '1, 2'),
    ('fisher_f', None, 'fisher_f_distribution<%s>', '%s', None, '1, 2'), ('gamma', None, 'gamma_distribution<%s>', '%s', None, '1, 2'), ('laplace', None, 'laplace_distribution<%s>', '%s', None, '1, 2'), ('lognormal', None, 'lognormal_distribution<%s>', '%s', None, '1, 2'), ('non_central_chi_squared', None, 'non_central_chi_squared_distribution<%s>', '%s', None, '1, 2'), ('normal', None, 'normal_distribution<%s>', '%s', None, '1, 2'),
    ('student_t', None, 'student_t_distribution<%s>', '%s', None, '2'), ('triangle', None, 'triangle_distribution<%s>', '%s', None, '1, 2, 3'), ('uniform_real', None, 'uniform_real_distribution<%s>', '%s', None, '1, 2'), ('weibull', None, 'weibull_distribution<%s>', '%s', None, '1, 2'),
    ('hyperexponential', None, 'hyperexponential_distribution<%s>', '%s', None, None), ('piecewise_constant', None, 'piecewise_constant_distribution<%s>', '%s', None, None), ('piecewise_linear', None, 'piecewise_linear_distribution<%s>', '%s', None, None), ('', 'uniform_on_sphere', 'uniform_on_sphere<%s>', 'std::vector<%s>', None, '3')]]
INTD = [(R + t, rt, h, c) for t, rt, h, c in [('uniform_int_distribution<%s>' % i, i, 'uniform_int_distribution', '1, 6') for i in ('int', 'unsigned', 'long', 'boost::uint64_t', 'short')] + [('uniform_smallint<int>', 'int', 'uniform_smallint', '1, 6'), ('binomial_distribution<int, double>', 'int', 'binomial_distribution', '4, 0.5'), ('binomial_distribution<long, float>', 'long', 'binomial_distribution', '4, 0.5f'), ('geometric_distribution<int, double>', 'int', 'geometric_distribution', '0.5'), ('geometric_distribution<long, float>', 'long', 'geometric_distribution', '0.5f'), ('negative_binomial_distribution<int, double>', 'int', 'negative_binomial_distribution', '4, 0.5'), ('poisson_distribution<int, double>', 'int', 'poisson_distribution', '4.0'), ('poisson_distribution<long, float>', 'long', 'poisson_distribution', '4.0f'), ('discrete_distribution<int, double>', 'int', 'discrete_distribution', None), ('discrete_distribution<unsigned, float>', 'unsigned', 'discrete_distribution', None), ('discrete_distribution<int, int>', 'int', 'discrete_distribution', None)]]
STATEFUL = 'cauchy|chi_squared|fisher|gamma|lognormal|::normal|student|triangle|sphere'
PRE = '''#include <type_traits>
#include <limits>
#include <iostream>
#include <sstream>
#include <random>
#include <vector>
#include <utility>
#include <algorithm>
#include <boost/cstdint.hpp>
template<class A, class B> void same() { static_assert(std::is_same<A, B>::value, "the type is the documented one"); }
struct Seq { typedef boost::uint32_t result_type; template<class It> void generate(It a, It b) { for (; a != b; ++a) *a = 1u; } };
'''
SD = 'BOOST_RANDOM_DETAIL_'
def engine(h, t, k):  # lines (requirement, code)
    o = [('typedefs', 'typedef %s E; typedef E::result_type T; static_assert(std::numeric_limits<T>::is_specialized, "");' % t),
         ('min() and max() are constant expressions', 'constexpr T lo = (E::min)(), hi = (E::max)(); static_assert(lo < hi, "");'),
         ('min() and max() have the result type', 'void f0() { same<decltype((E::min)()), T>(); same<decltype((E::max)()), T>(); }'),
         ('has_fixed_range is a constant', '' if h in ('mixmax',) else 'static_assert(!E::has_fixed_range, "");'),
         ('copies, moves, assignments', 'static_assert(std::is_default_constructible<E>::value && std::is_copy_constructible<E>::value && std::is_copy_assignable<E>::value && std::is_move_constructible<E>::value && std::is_destructible<E>::value, "");'),
         ('a seed does not convert to an engine', 'static_assert(!std::is_convertible<unsigned, E>::value && !std::is_convertible<int, E>::value, "");'),
         ('a seed sequence does not convert to an engine', 'static_assert(!std::is_convertible<Seq&, E>::value, "");'),
         ('constructible by default, from a value, a sequence, a range, and by copy', 'void f1(E& a, const E& c, Seq& s, std::seed_seq& ss, boost::random::seed_seq& bs, boost::uint32_t* p, boost::uint32_t* q, std::vector<unsigned>::iterator i, std::vector<unsigned>::iterator j) { E e0; E e1(331u); E e2(s); E e3(ss); E e4(bs); E e7(a); E e8(c); E e9((E(c))); e0 = a; e0 = c; %s }' % ('E e5(p, q); E e6(i, j);' if h != 'splitmix64' else '')),
         ('constructible from signed and wide seeds', 'void f2(int i, unsigned long u, long long l, unsigned char c) { E e1(i); E e2(u); E e3(l); E e4(c); e1.seed(i); e2.seed(u); e3.seed(l); e4.seed(c); const int k = 3; E e5(k); e5.seed(k); }'),
         ('seed() in every form returns void', 'void f3(E& a, Seq& s, std::seed_seq& ss, boost::random::seed_seq& bs, boost::uint32_t* p, boost::uint32_t* q) { same<decltype(a.seed()), void>(); same<decltype(a.seed(1u)), void>(); same<decltype(a.seed(s)), void>(); a.seed(); a.seed(1u); a.seed(s); a.seed(ss); a.seed(bs); %s }' % ('same<decltype(a.seed(p, q)), void>(); a.seed(p, q);' if h != 'splitmix64' else '')),
         ('an engine returns its result type', 'void f4(E& a) { same<decltype(a()), T>(); a(); }'),
         ('discard takes an unsigned long long count', 'void f5(E& a) { same<decltype(a.discard(7ull)), void>(); a.discard(7ull); }'),
         ('an engine is a seed sequence', 'void f6(E& a, boost::uint32_t* p, std::vector<unsigned>::iterator i) { a.generate(p, p + 4); a.generate(i, i); boost::random::minstd_rand g(a); g.seed(a); }' if t not in (R + 'minstd_rand',) else 'void f6(E& a, boost::uint32_t* p) { a.generate(p, p + 4); }'),
         ('== and != compare const engines', 'void f7(const E& a, const E& b) { bool x = a == b, y = a != b; (void)x; (void)y; }'),
         ('engines go to and come from streams of char and wchar_t', 'void f8(E& a, const E& c, std::ostream& o, std::istream& i, std::wostream& wo, std::wistream& wi) { same<decltype(o << c), std::ostream&>(); same<decltype(i >> a), std::istream&>(); o << c; i >> a; wo << c; wi >> a; }'),
         ('usable with the distributions and adaptors of the library', 'void f9(E& a, const E& c) { boost::random::uniform_int_distribution<int> d(0, 9); d(a); boost::random::uniform_real_distribution<double> r; r(a); boost::random::normal_distribution<> n; n(a); boost::variate_generator<E&, boost::random::uniform_int_distribution<int> > v(a, d); v(); boost::variate_generator<E, boost::random::normal_distribution<> > w(c, n); w(); boost::variate_generator<E*, boost::random::normal_distribution<> > z(&a, n); z(); boost::random::generate_canonical<double, 30>(a); }')]
    if h not in ('splitmix64', 'mixmax') and '01' not in t and 'lagged_fibonacci' not in t or '_engine<' in t and 'lagged' in t:
        o.append(('integer engines work with the standard library', 'void f10(E& a, std::vector<int>& v) { std::uniform_int_distribution<int> d(0, 9); d(a); std::normal_distribution<> n; n(a); std::shuffle(v.begin(), v.end(), a); }' if 'int64' not in t and 'rand48' not in t else 'void f10(E& a) { (void)a; }'))
    for n, v in sorted(k.items()): o.append(('static constant %s has its documented value' % n, 'static_assert(E::%s == %s, "");' % (n, v)))
    o.append(('static constants are defined', 'const void* addr[] = { ' + ', '.join('&E::' + n for n in sorted(k)) + ' };' if k else ''))
    return o
def dist(t, rt, c):
    o = [('typedefs', 'typedef %s D; typedef D::result_type T; typedef D::param_type P; typedef D::input_type I; static_assert(std::is_arithmetic<I>::value, "");' % t),
         ('result_type is the documented one', 'void g0() { same<T, %s >(); }' % rt), ('param_type names its distribution', 'void g1() { same<P::distribution_type, D>(); }'),
         ('copies, moves, assignments of distribution and parameters', 'static_assert(std::is_default_constructible<D>::value && std::is_copy_constructible<D>::value && std::is_copy_assignable<D>::value && std::is_default_constructible<P>::value && std::is_copy_constructible<P>::value && std::is_copy_assignable<P>::value, "");'),
         ('parameters do not convert to the distribution', 'static_assert(!std::is_convertible<P, D>::value, "");' if 'hyper' not in t else ''),
         ('constructible from parameters', 'void g2(const P& p, P& q, D& d, const D& c) { D a(p); D b(q); D e(d); D f(c); a = d; a = c; P r(p); P s(q); r = p; }'),
         ('param(), reset()', 'void g3(const D& c, D& d, const P& p) { same<decltype(c.param()), P>(); same<decltype(d.param(p)), void>(); same<decltype(d.reset()), void>(); P q = c.param(); d.param(p); d.reset(); }'),
         ('min() and max() of a const distribution return its result type', 'void g4(const D& c) { same<decltype((c.min)()), T>(); same<decltype((c.max)()), T>(); (c.min)(); (c.max)(); }' if 'sphere' not in t else ''),
         ('drawing returns the result type', 'template<class E> void g5(D& d, E& e, const P& p) { static_assert(std::is_same<typename std::decay<decltype(d(e))>::type, T>::value, ""); static_assert(std::is_same<typename std::decay<decltype(d(e, p))>::type, T>::value, ""); d(e); d(e, p); }'),
         ('draws from every kind of engine', 'struct S8 { typedef signed char result_type; static constexpr signed char min() { return -100; } static constexpr signed char max() { return 100; } signed char operator()() { return 0; } }; struct N32 { typedef boost::uint32_t result_type; result_type min() const { return 0; } result_type max() const { return 0xffffffffu; } result_type operator()() { return 0; } }; void g6(D& d, const P& p, boost::random::mt19937& a, boost::random::lagged_fibonacci607& b, std::mt19937& c, std::mt19937_64& e, boost::random::rand48& f, boost::random::mt19937_64& g, N32& n%s) { g5(d, a, p); g5(d, b, p); g5(d, c, p); g5(d, e, p); g5(d, f, p); g5(d, g, p); g5(d, n, p);%s }' % ((', S8& s', ' g5(d, s, p);'))),
         ('== and != on const distributions and parameters', 'void g7(const D& a, const D& b, const P& p, const P& q) { bool x = a == b, y = a != b, z = p == q, w = p != q; (void)x; (void)y; (void)z; (void)w; }'),
         ('distributions and parameters go to and come from streams of char and wchar_t', 'void g8(D& a, const D& c, P& p, const P& q, std::ostream& o, std::istream& i, std::wostream& wo, std::wistream& wi) { same<decltype(o << c), std::ostream&>(); same<decltype(i >> a), std::istream&>(); same<decltype(o << q), std::ostream&>(); same<decltype(i >> p), std::istream&>(); o << c; i >> a; wo << c; wi >> a; o << q; i >> p; wo << q; wi >> p; }'),
         ('usable in a variate_generator', 'void g9(boost::random::mt19937& e, const D& d) { boost::random::variate_generator<boost::random::mt19937&, D> v(e, d); same<decltype(v)::result_type, T>(); v(); }')]
    if not re.search(STATEFUL, t): o.append(('distributions without internal state draw while const', 'void g11(const D& d, const P& p, boost::random::mt19937& e) { d(e); d(e, p); }'))
    if c is not None: o += [('constructible from its values, like its parameters', 'void g10() { D d(%s); P p(%s); const D e(%s); (void)e; }' % (c, c, c)), ('a value does not convert to the distribution', 'static_assert(!std::is_convertible<%s, D>::value && !std::is_convertible<int, D>::value, "");' % ('double'))]
    return o
MISC = [('xor_combine', 'engines of one type combine, however they are passed', 'typedef boost::random::xor_combine_engine<boost::random::minstd_rand, 0, boost::random::minstd_rand, 1> X; void m(boost::random::minstd_rand& a, const boost::random::minstd_rand& b) { X x(a, a); X y(a, b); X z(b, a); X w(b, b); }'),
        ('additive_combine', 'additive_combine takes two seeds', 'void m(boost::uint32_t a, const boost::uint32_t b) { boost::random::ecuyer1988 x(a, b), y(b, a), z(1u, 2u); x.seed(1u, 2u); }'),
        ('linear_feedback_shift', 'the deprecated names construct in every form', 'typedef boost::random::linear_feedback_shift<boost::uint32_t, 32, 31, 13, 12, 0> X; void m(Seq& s, boost::uint32_t* p) { X a; X b(1u); X c(s); X d(p, p); X e(a); }'),
        ('random_device', 'random_device models a non-deterministic generator', 'typedef boost::random::random_device X; void m(X& x, unsigned* p) { X a; X b(std::string("/dev/urandom")); same<decltype(x()), X::result_type>(); constexpr unsigned lo = (X::min)(), hi = (X::max)(); static_assert(lo == 0 && hi == 0xffffffffu, ""); x.generate(p, p); const X& c = x; double e = c.entropy(); (void)e; static_assert(!std::is_copy_constructible<X>::value && !std::is_copy_assignable<X>::value, ""); boost::random::mt19937 g(x); g.seed(x); boost::random::uniform_int_distribution<> d; d(x); }'),
        ('seed_seq', 'seed_seq models a seed sequence', 'typedef boost::random::seed_seq X; void m(X& x, const X& c, unsigned* p, std::vector<unsigned>& v) { X a; X b(p, p + 2); X d({ 1, 2, 3 }); same<decltype(c.size()), std::size_t>(); x.generate(p, p); x.generate(v.begin(), v.end()); x.param(p); x.param(std::back_inserter(v)); same<X::result_type, boost::uint_least32_t>(); X e(v); }'),
        ('sobol', 'a quasi-random generator models its concept', 'typedef boost::random::sobol X; void m(X& x, const X& c, std::ostream& o, std::istream& i) { X a(3); X b(c); a = c; constexpr X::result_type lo = (X::min)(), hi = (X::max)(); static_assert(lo == 0 && hi > 0, ""); same<decltype(c.dimension()), std::size_t>(); a.seed(); x.seed(2u); x.discard(7); same<decltype(x()), X::result_type>(); bool e = c == x, f = c != x; (void)e; (void)f; o << c; i >> x; static_assert(!std::is_convertible<std::size_t, X>::value, ""); boost::random::uniform_01<double> u; u(x); }'),
        ('niederreiter_base2', 'a quasi-random generator models its concept', 'typedef boost::random::niederreiter_base2 X; void m(X& x, const X& c, std::ostream& o, std::istream& i) { X a(3); X b(c); a = c; constexpr X::result_type lo = (X::min)(), hi = (X::max)(); static_assert(lo == 0 && hi > 0, ""); same<decltype(c.dimension()), std::size_t>(); a.seed(); x.seed(2u); x.discard(7); same<decltype(x()), X::result_type>(); bool e = c == x, f = c != x; (void)e; (void)f; o << c; i >> x; static_assert(!std::is_convertible<std::size_t, X>::value, ""); boost::random::uniform_01<double> u; u(x); }'),
        ('faure', 'a quasi-random generator models its concept', 'typedef boost::random::faure X; void m(X& x, const X& c, std::ostream& o, std::istream& i) { X a(3); X b(c); a = c; same<decltype(c.dimension()), std::size_t>(); (x.min)(); (x.max)(); a.seed(); x.seed(2u); x.discard(7); same<decltype(x()), X::result_type>(); bool e = c == x, f = c != x; (void)e; (void)f; o << c; i >> x; static_assert(!std::is_convertible<std::size_t, X>::value, ""); boost::random::uniform_01<double> u; u(x); }'),
        ('random_number_generator', 'random_number_generator serves the shuffling algorithms', 'void m(boost::random::mt19937& g) { boost::random::random_number_generator<boost::random::mt19937, int> r(g); same<decltype(r(5)), int>(); r(5); same<decltype(r)::argument_type, int>(); same<decltype(r)::result_type, int>(); }'),
        ('generate_canonical', 'generate_canonical returns the type asked for', 'void m(boost::random::mt19937& g, std::mt19937& h, boost::random::lagged_fibonacci607& l) { same<decltype(boost::random::generate_canonical<float, 24>(g)), float>(); boost::random::generate_canonical<float, 24>(g); boost::random::generate_canonical<double, 53>(h); boost::random::generate_canonical<long double, 64>(l); }'),
        ('variate_generator', 'variate_generator gives const access', 'typedef boost::random::variate_generator<boost::random::mt19937, boost::random::uniform_int_distribution<int> > V; void m(V& v, const V& c) { same<decltype(v.engine()), boost::random::mt19937&>(); same<decltype(c.engine()), const boost::random::mt19937&>(); same<decltype(c.distribution()), const boost::random::uniform_int_distribution<int>&>(); same<decltype((c.min)()), int>(); (c.max)(); }'),
        ('uniform_01', 'uniform_01 in both forms', 'void m(boost::random::mt19937& g, std::ostream& o, std::istream& i) { boost::random::uniform_01<float> f; same<decltype(f(g)), float>(); f(g); f.reset(); o << f; i >> f; const boost::random::uniform_01<float> c(f); (c.min)(); (c.max)(); boost::random::uniform_01<boost::random::mt19937> u(g); u(); boost::random::uniform_01<boost::random::mt19937&> v(g); v(); const boost::random::uniform_01<boost::random::mt19937&>& cv = v; cv.base(); }'),
        ('../random', 'the names are also in namespace boost', 'using boost::minstd_rand0; using boost::minstd_rand; using boost::rand48; using boost::mt19937; using boost::mt11213b; using boost::ecuyer1988; using boost::kreutzer1986; using boost::hellekalek1995; using boost::taus88; using boost::lagged_fibonacci607; using boost::lagged_fibonacci44497; using boost::ranlux3; using boost::ranlux64_4_01; using boost::uniform_smallint; using boost::uniform_int; using boost::uniform_01; using boost::uniform_real; using boost::bernoulli_distribution; using boost::triangle_distribution; using boost::exponential_distribution; using boost::normal_distribution; using boost::lognormal_distribution; using boost::poisson_distribution; using boost::geometric_distribution; using boost::cauchy_distribution; using boost::gamma_distribution; using boost::binomial_distribution; using boost::uniform_on_sphere; using boost::variate_generator; using boost::random_number_generator;')]
def run(ctx):
    cl = 'clang++-18' if shutil.which('clang++-18') else 'clang++'; repo = ctx['repo']; inc = repo + '/include'; D = ctx['dir']; thorough = ctx['tier'] == 'thorough'
    jobs = []; v = []; nob = 0; ndis = 0; ana = dict(headers=0, programs=0, requirements=0, configurations=[])
    def sx(cmd, src):
        c = subprocess.run(cmd + ['-x', 'c++', '-'], input=src, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True); return c.returncode, c.stderr, c.stdout
    def first(err):
        m = [l for l in err.splitlines() if ' error: ' in l]; return (m[0] if m else err[:200])[:300]
    def lib(block):
        m = re.search(r'(include/boost/[\w/.]+:\d+)', block); return m.group(1) if m else ''
    heads = sorted(glob.glob(inc + '/boost/random/*.hpp') + glob.glob(inc + '/boost/random.hpp') + glob.glob(inc + '/boost/nondet_random.hpp'))
    cfg = [[cl, '-std=c++11']] + ([[cl, '-std=c++14'], [cl, '-std=c++20'], ['g++', '-std=c++11'], ['g++', '-std=c++20']] if thorough else [['g++', '-std=c++17']])
    ana['configurations'] = [' '.join(c) for c in cfg]
    def hjob(h, c):
        n = h[len(inc) + 1:]; r = sx(c + ['-fsyntax-only', '-w', '-I' + inc], '#include <%s>\n#include <%s>\n' % (n, n))
        return [('every header compiles on its own, in any order, more than once', n, r[0] == 0, ' '.join(c) + ': ' + first(r[1]))]
    def wjob(h, name, reqs, extra):
        src = PRE; 
        for i in dict.fromkeys([h] + ALLINC + extra): src += '#include <boost/random/%s.hpp>\n' % i
        base = src.count('\n') + 1; src += 'namespace w {\n'; lines = {}
        ln = base + 1
        for q, code in reqs:
            if not code: continue
            src += code + '\n'; lines[ln] = q; ln += 1
        src += '}\n'
        r = sx([cl, '-std=c++11', '-fsyntax-only', '-w', '-ferror-limit=0', '-I' + inc], src); bad = {}
        if r[0]:
            blocks = re.split(r'(?m)^(?=\S+: (?:fatal )?error: |\S+:\d+:\d+: (?:fatal )?error: )', r[1])
            for b in blocks:
                if 'error: ' not in b: continue
                m = [int(x) for x in re.findall(r'<stdin>:(\d+):', b)]; q = [lines[x] for x in m if x in lines]; q = q[-1] if q else 'the program compiles'
                bad.setdefault(q, (lib(b), first(b)))
        return [(q + ' (' + name + ')', 'include/boost/random/%s.hpp' % h, q not in bad, '') if q not in bad else (q + ' (' + name + ')', bad[q][0] or 'include/boost/random/%s.hpp' % h, False, bad[q][1]) for q in list(lines.values()) + (['the program compiles'] if 'the program compiles' in bad else [])]
    def irjob(kind):
        allsrc = ''.join('#include <%s>\n' % h[len(inc) + 1:] for h in heads)
        if kind == 'strong':
            r = sx([cl, '-std=c++11', '-O0', '-w', '-S', '-emit-llvm', '-o', '-', '-I' + inc], allsrc)
            if r[0]: return [('the headers compile together', 'include/boost/random.hpp', False, first(r[1]))]
            s = [l for l in r[2].splitlines() if re.match(r'(define|@)', l) and not re.search(r'\b(linkonce|linkonce_odr|weak|weak_odr|internal|private|external|available_externally|appending)\b', l.split('{')[0])]
            return [('headers define nothing that clashes when included in several source files', 'include/boost/random', not s, (s[0][:200] if s else ''))]
        if kind == 'macros':
            pre = ''.join('#include <%s>\n' % x for x in 'algorithm array cassert cmath cstdint functional iomanip iosfwd iostream iterator limits numeric random sstream stdexcept string utility vector boost/config.hpp boost/range.hpp boost/multiprecision/cpp_int.hpp boost/integer/integer_log2.hpp boost/integer/static_log2.hpp boost/integer/integer_mask.hpp boost/integer/const_mod.hpp boost/math/special_functions.hpp boost/dynamic_bitset.hpp boost/type_traits.hpp boost/system/system_error.hpp boost/array.hpp boost/throw_exception.hpp boost/io/ios_state.hpp boost/mpl/bool.hpp'.split() if x != 'boost/integer/const_mod.hpp')
            r = sx([cl, '-std=c++17', '-w', '-fsyntax-only', '-I' + inc], pre + '#define min(a, b) VF_MIN_EXPANDED(a, b)\n#define max(a, b) VF_MAX_EXPANDED(a, b)\n' + allsrc)
            return [('the headers do not use names the min and max macros of other headers would replace', lib(r[1]) or 'include/boost/random', r[0] == 0, first(r[1]) if r[0] else '')]
        if kind == 'noexc':
            r = sx([cl, '-std=c++11', '-w', '-fno-exceptions', '-fsyntax-only', '-I' + inc], allsrc); return [('the headers compile without exceptions', lib(r[1]) or 'include/boost/random', r[0] == 0, first(r[1]) if r[0] else '')]
        if kind == 'nortti':
            r = sx([cl, '-std=c++11', '-w', '-fno-rtti', '-fsyntax-only', '-I' + inc], allsrc); return [('the headers compile without run-time type information', lib(r[1]) or 'include/boost/random', r[0] == 0, first(r[1]) if r[0] else '')]
        if kind == 'consts':
            src = allsrc; out = []
            ks = [(h, t, n) for h, t, k in ENG for n in list(k) + ['has_fixed_range'] if n in DEFINED.get(h, ()) or n == 'has_fixed_range' and h not in ('mixmax', 'splitmix64') and 'rand48' not in t]
            for i, (h, t, n) in enumerate(ks): src += 'namespace k%d { typedef %s E; const void* p = &E::%s; }\n' % (i, t, n)
            r = sx([cl, '-std=c++11', '-O0', '-w', '-S', '-emit-llvm', '-o', '-', '-I' + inc], src)
            if r[0]: return [('static constants can be referred to', 'include/boost/random.hpp', False, first(r[1]))]
            und = set(re.findall(r'^@(_ZN5boost6random\w+) = (?:external|available_externally)', r[2], re.M))
            for i, (h, t, n) in enumerate(ks):
                m = re.search(r'^@_ZN2?k%d1pE = .*ptr @(\w+)' % i, r[2], re.M) or re.search(r'^@_ZN\d+k%d1pE = .*ptr @(\w+)' % i, r[2], re.M)
                out.append(('static constant %s has a definition (%s)' % (n, t.replace(R, '')), 'include/boost/random/%s.hpp' % h, bool(m) and m.group(1) not in und, m.group(1) if m else 'no such symbol'))
            return out
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(irjob, k) for k in ('strong', 'macros', 'noexc', 'nortti', 'consts')]
        fs += [ex.submit(wjob, h, t.replace(R, ''), engine(h, t, k), []) for h, t, k in ENG]
        fs += [ex.submit(wjob, h, (t % r).replace(R, ''), dist(t % r, rt % r if '%' in rt else rt, c), ['lagged_fibonacci', 'linear_congruential']) for h, t, rt, it, c in DIST for r in ('double', 'float')]
        fs += [ex.submit(wjob, h, t.replace(R, ''), dist(t, rt, c), ['lagged_fibonacci', 'linear_congruential']) for t, rt, h, c in INTD]
        fs += [ex.submit(wjob, h, q, [(q, code)], ['lagged_fibonacci', 'uniform_01']) for h, q, code in MISC]
        fs += [ex.submit(hjob, h, c) for h in heads for c in cfg]
        res = [f.result() for f in fs]
    ana['headers'] = len(heads); ana['programs'] = len(res)
    for rs in res:
        for rule, where, ok, wit in rs:
            nob += 1
            if ok: ndis += 1
            else: v.append(dict(scenario='witness', rule=rule, where=where, witness=wit))
    ana['requirements'] = nob
    return dict(obligations=nob, discharged=ndis, functions=[], violations=v, analysed=ana, rule='Type-level witnesses: programs that use every operation of the documented concepts on every engine and distribution, with static assertions on types, explicitness and constants, must be accepted by the type checker; every header must be accepted alone; the compiled headers must contain no strong definition and define every static constant referred to.')
DEFINED = dict(linear_congruential=('multiplier', 'increment', 'modulus', 'default_seed'), mersenne_twister=('word_size', 'state_size', 'shift_size', 'mask_bits', 'xor_mask', 'tempering_u', 'tempering_d', 'tempering_s', 'tempering_b', 'tempering_t', 'tempering_c', 'tempering_l', 'initialization_multiplier', 'default_seed', 'parameter_a', 'output_u', 'output_s', 'output_b', 'output_t', 'output_c', 'output_l'), ranlux=('word_size', 'long_lag', 'short_lag', 'default_seed', 'block_size', 'used_block', 'total_block', 'returned_block'), lagged_fibonacci=('word_size', 'long_lag', 'short_lag', 'default_seed'), taus88=('shift1', 'shift2'), xor_combine=('shift1', 'shift2'), linear_feedback_shift=('word_size', 'exponent1', 'exponent2', 'step_size', 'default_seed'), shuffle_order=('buffer_size', 'table_size'), inversive_congruential=('multiplier', 'increment', 'modulus', 'default_seed'), discard_block=('block_size', 'used_block'))
