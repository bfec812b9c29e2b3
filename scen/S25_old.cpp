// S25: the deprecated names do what the current classes they stand for do.
//UNITS: CMB LCG BLK WORD REAL DIST U01 GEO
#include "dists.hpp"
#include "engines.hpp"
#include <boost/random/generate_canonical.hpp>
#include <boost/random/shuffle_output.hpp>
#include <boost/random/uniform_01.hpp>
#include <boost/nondet_random.hpp>
namespace bo = boost::random;
typedef VRng<u32, 0, 0xffffffffu> Gf;
struct SGen { u64 n; SGen() : n(0) {} u32 operator()() { return (u32)va_sym_u(4, n++, 32, 0, 0xffffffffu); } };
template<class O, class N> void go(O& o, N& n, int K) {
  va_check(static_cast<const N&>(o) == n && !(static_cast<const N&>(o) != n), "an engine under its deprecated name equals the engine it stands for, constructed likewise");
  va_check((o.min)() == (n.min)() && (o.max)() == (n.max)(), "an engine under its deprecated name has the range of the engine it stands for");
  VBuf<> s, t; VOs x(&s), y(&t); x << o; y << n; va_check(s.n == t.n, "an engine under its deprecated name saves the text of the engine it stands for");
  O c(o); O d; d = o; typename N::result_type r[4]; for (int i = 0; i < K; ++i) { r[i] = n(); va_check(o() == r[i], "an engine under its deprecated name produces the outputs of the engine it stands for"); }
  for (int i = 0; i < K; ++i) va_check(c() == r[i] && d() == r[i], "a copy of an engine under its deprecated name continues like the original");
}
template<class O, class N, class V> void olds(int K) { va_bound(Lim<N>::v);
  { O o; N n; go(o, n, K); } { O o; o(); o.seed(); N n; go(o, n, K); } { V v = (V)va_sym_u(5, 0, sizeof(V) * 8, 0, sizeof(V) == 8 ? ~0ull : 0xffffffffull); { const V w = v; O o(w); N n(w); go(o, n, K); } { O o(v); N n(v); go(o, n, K); } O o; o(); o.seed(v); N n(v); go(o, n, K); }
  { VIn f(4, 0, 4096), g(4, 0, 4096), l(4, 4096, 4096); O o(f, l); N n(g, l); va_check(f == g, "an engine under its deprecated name reads as many words from a range"); go(o, n, K); }
  { VIn f(4, 0, 4096), g(4, 0, 4096), l(4, 4096, 4096); O o; o(); o.seed(f, l); N n(g, l); va_check(f == g, "an engine under its deprecated name reads as many words from a range"); go(o, n, K); } }
template<class O, class N> void oseq(int K) { va_bound(Lim<N>::v); VSeq<4> s, t; O o(s); N n(t); go(o, n, K); }
template<class O, class N> void ogen(int K) { va_bound(Lim<N>::v); { SGen s; VSeq<4> t; O o(s); N n(t); va_check(s.n == t.words, "an engine under its deprecated name takes one value per word from a generating function"); go(o, n, K); } { SGen s; VSeq<4> t; O o; o(); o.seed(s); N n(t); go(o, n, K); } }
#define OLD(id, O, N, V, K) SCEN(S25_##id) { olds<O, N, V>(K); }
#define PP(...) __VA_ARGS__
#ifdef UNIT_LCG
typedef bo::linear_congruential<u32, 16807, 0, 2147483647, 1043618065> olcg; typedef bo::linear_congruential_engine<u32, 16807, 0, 2147483647> nlcg; OLD(lcg, olcg, nlcg, u32, 3)
typedef bo::linear_congruential<u32, 1664525, 1013904223, 0> olcg0; typedef bo::linear_congruential_engine<u32, 1664525, 1013904223, 0> nlcg0; OLD(lcg0, olcg0, nlcg0, u32, 3)
typedef bo::additive_combine<bo::linear_congruential_engine<u32, 40014, 0, 2147483563>, bo::linear_congruential_engine<u32, 40692, 0, 2147483399>, 2060321752u> oac; OLD(ac, oac, bo::ecuyer1988, u32, 3)
SCEN(S25_ac_two) { u32 a = (u32)va_sym_u(5, 0, 32, 0, ~0u), b = (u32)va_sym_u(5, 1, 32, 0, ~0u); bo::ecuyer1988 n(a, b); typedef bo::linear_congruential_engine<u32, 40014, 0, 2147483563> A; typedef bo::linear_congruential_engine<u32, 40692, 0, 2147483399> B; A x(a); B y(b); for (int i = 0; i < 2; ++i) { u32 p = x(), q = y(); va_check(n() == (q < p ? p - q : p - q + 2147483562u), "additive_combine with two seeds combines engines seeded with them"); } }
#endif
#ifdef UNIT_BLK
typedef bo::discard_block<Gf, 7, 3> odb; typedef bo::discard_block_engine<Gf, 7, 3> ndb;
SCEN(S25_db) { va_bound(20); { odb o; ndb n; for (int i = 0; i < 8; ++i) va_check(o() == n(), "an engine under its deprecated name produces the outputs of the engine it stands for"); va_check(static_cast<const ndb&>(o) == n, "equal"); va_check((o.min)() == (ndb::min)() && (o.max)() == (ndb::max)(), "range"); }
  { const Gf b(5); odb o(b); ndb n(b); for (int i = 0; i < 8; ++i) va_check(o() == n(), "discard_block constructed from an engine copies it"); } { Gf b(5); odb o(b); const Gf cb(5); ndb n(cb); for (int i = 0; i < 8; ++i) va_check(o() == n(), "discard_block constructed from an engine copies it"); }
  { odb o; for (int i = 0; i < 4; ++i) o(); odb c(o); const odb k(o); odb d(k); for (int i = 0; i < 8; ++i) { u32 x = o(); va_check(c() == x && d() == x, "a copy of a used engine under its deprecated name continues like the original"); } } }
typedef bo::discard_block<bo::minstd_rand, 5, 2> odm; typedef bo::discard_block_engine<bo::minstd_rand, 5, 2> ndm; OLD(dbm, odm, ndm, u32, 3) SCEN(S25_dbm_seq) { oseq<odm, ndm>(3); }
#endif
#ifdef UNIT_CMB
typedef bo::linear_congruential_engine<u32, 5, 3, 101> l101; typedef bo::xor_combine<bo::minstd_rand0, 0, l101, 0> oxc; typedef bo::xor_combine_engine<bo::minstd_rand0, 0, l101, 0> nxc; OLD(xc, oxc, nxc, u32, 3)
typedef bo::xor_combine<l101, 2, bo::minstd_rand, 1> oxd; typedef bo::xor_combine_engine<l101, 2, bo::minstd_rand, 1> nxd; OLD(xd, oxd, nxd, u32, 3) SCEN(S25_xd_engines) { va_bound(20); const l101 a((u32)va_sym_u(5, 0, 32, 0, ~0u)); const bo::minstd_rand b((u32)va_sym_u(5, 1, 32, 0, ~0u)); oxd o(a, b); nxd n(a, b); go(o, n, 3); }
typedef bo::shuffle_output<bo::minstd_rand, 3> oso; typedef bo::shuffle_order_engine<bo::minstd_rand, 3> nso; OLD(so, oso, nso, u32, 3) SCEN(S25_so_engine) { va_bound(20); const bo::minstd_rand b((u32)va_sym_u(5, 1, 32, 0, ~0u)); oso o(b); nso n(b); go(o, n, 3); }
template<class E> void oldrange(int K) { va_bound(20); E e((u32)va_sym_u(5, 0, 32, 0, ~0u)); for (int i = 0; i < K; ++i) { const u32 x = e(); va_check((e.min)() <= x && x <= (e.max)(), "an engine under its deprecated name returns values in [min(), max()]"); } }
SCEN(S25_range_xc) { oldrange<oxc>(3); } SCEN(S25_range_xd) { oldrange<oxd>(3); } SCEN(S25_range_so) { oldrange<oso>(2); }
#endif
#ifdef UNIT_WORD
typedef bo::mersenne_twister<u32, 32, 7, 3, 5, 0x9908b0dfu, 11, 7, 0x9d2c5680u, 15, 0xefc60000u, 18, 0> omt; typedef bo::mersenne_twister_engine<u32, 32, 7, 3, 5, 0x9908b0dfu, 11, 0xffffffffu, 7, 0x9d2c5680u, 15, 0xefc60000u, 18, 1812433253u> nmt; OLD(mt, omt, nmt, u32, 3) SCEN(S25_mt_gen) { ogen<omt, nmt>(3); }
typedef bo::lagged_fibonacci<u32, 32, 7, 3> olf; typedef bo::lagged_fibonacci_engine<u32, 32, 7, 3> nlf; OLD(lf, olf, nlf, u32, 3) SCEN(S25_lf_seq) { oseq<olf, nlf>(3); }
typedef bo::lagged_fibonacci<u32, 20, 7, 3> olg; typedef bo::lagged_fibonacci_engine<u32, 20, 7, 3> nlg; OLD(lf20, olg, nlg, u32, 3)
typedef bo::linear_feedback_shift<u32, 32, 31, 13, 12, 0> ofs; typedef bo::linear_feedback_shift_engine<u32, 32, 31, 13, 12> nfs; OLD(lfs, ofs, nfs, u32, 3) SCEN(S25_lfs_seq) { oseq<ofs, nfs>(3); }
typedef bo::subtract_with_carry<u32, (1u << 24), 3, 7, 0> osw; typedef bo::subtract_with_carry_engine<u32, 24, 3, 7> nsw; OLD(swc, osw, nsw, u32, 3) SCEN(S25_swc_gen) { ogen<osw, nsw>(3); }
#endif
#ifdef UNIT_REAL
typedef bo::lagged_fibonacci_01<double, 48, 7, 3> olr; typedef bo::lagged_fibonacci_01_engine<double, 48, 7, 3> nlr; OLD(lfr, olr, nlr, u32, 3) SCEN(S25_lfr_seq) { oseq<olr, nlr>(3); }
typedef bo::subtract_with_carry_01<float, 24, 3, 7> oswf; typedef bo::subtract_with_carry_01_engine<float, 24, 3, 7> nswf; OLD(swf, oswf, nswf, u32, 3) SCEN(S25_swf_gen) { ogen<oswf, nswf>(3); }
typedef bo::subtract_with_carry_01<double, 48, 3, 7> oswd; typedef bo::subtract_with_carry_01_engine<double, 48, 3, 7> nswd; OLD(swd, oswd, nswd, u32, 3)
template<class O, class N> void canon() { va_bound(Lim<N>::v); VSeq<4> s, t; O o(s); N n(t); va_check((br::generate_canonical<double, 53>(o) == br::generate_canonical<double, 53>(n)), "generate_canonical treats an engine under its deprecated name like the engine it stands for"); va_check(static_cast<const N&>(o) == n, "generate_canonical draws as often from an engine under its deprecated name"); }
SCEN(S25_lfr_canon) { canon<olr, nlr>(); }
#endif
#ifdef UNIT_DIST
template<class O, class N, class T> void wrap(T lo, T hi, T lo2, T hi2) { va_bound(6); va_values_only(); typedef typename O::param_type P; const O o(lo, hi); const N n(lo, hi);
  va_check(o.a() == lo && o.b() == hi && (o.min)() == (n.min)() && (o.max)() == (n.max)(), "a distribution under its deprecated name has the parameters given"); va_check(o.param().a() == lo && o.param().b() == hi && o.param() == P(lo, hi), "param() of a distribution under its deprecated name");
  Gf e, f; va_check(o(e) == n(f) && e == f, "a distribution under its deprecated name draws like the distribution it stands for"); const P q(lo2, hi2); typename N::param_type r(lo2, hi2); va_check(o(e, q) == n(f, r) && e == f, "a distribution under its deprecated name applies explicit parameters");
  O s(q); va_check(s.a() == lo2 && s.b() == hi2, "a distribution under its deprecated name takes a parameter object"); s.param(P(lo, hi)); va_check(s.a() == lo && s.b() == hi && s == o, "a distribution under its deprecated name takes new parameters"); }
SCEN(S25_uint) { wrap<boost::uniform_int<int>, br::uniform_int_distribution<int> >(-7, PI(10, 0, 0, 100000), PI(10, 1, -50, 0), 9); }
SCEN(S25_uint_n) { va_bound(6); va_values_only(); boost::uniform_int<int> d(3, 7); int n = PI(10, 0, 1, 1000000); Gf e, f; va_check(d(e, n) == br::uniform_int_distribution<int>(0, n - 1)(f) && e == f, "uniform_int called with n draws from [0, n)"); }
SCEN(S25_uint_def) { boost::uniform_int<int> d; boost::uniform_int<int>::param_type p; va_check(d.a() == 0 && d.b() == 9 && p.a() == 0 && p.b() == 9, "uniform_int defaults to [0, 9]"); }
SCEN(S25_real) { wrap<boost::uniform_real<double>, br::uniform_real_distribution<double> >(-7.0, PD(10, 0, 0, 1e5), PD(10, 1, -50, 0), 9.0); }
SCEN(S25_real_def) { boost::uniform_real<double> d; boost::uniform_real<double>::param_type p; va_check(d.a() == 0 && d.b() == 1 && p.a() == 0 && p.b() == 1, "uniform_real defaults to [0, 1)"); }
inline bool nearl(double x, double y) { double d = x < y ? y - x : x - y, m = y < 0 ? -y : y; return d <= 1e-12 * (m + 1); }
template<class T> void logn() { va_bound(6); va_values_only(); T m = (T)PD(10, 0, 0.1, 10), s = (T)PD(10, 1, 0.1, 10); boost::lognormal_distribution<T> o(m, s); va_check(o.mean() == m && o.sigma() == s, "the deprecated lognormal_distribution reports its parameters"); Gf e, f; T z = br::normal_distribution<T>()(f); T x = o(e); va_check(e == f, "the deprecated lognormal_distribution draws one normal value"); using std::log; using std::sqrt; using std::exp;
  T nm = log(m * m / sqrt(s * s + m * m)), ns = sqrt(log(s * s / m / m + T(1))); va_check(x == exp(z * ns + nm), "the deprecated lognormal_distribution has mean and sigma of the variable itself"); }
SCEN(S25_logn) { logn<double>(); }
SCEN(S25_logn_def) { boost::lognormal_distribution<> o; va_check(o.mean() == 1 && o.sigma() == 1, "the deprecated lognormal_distribution defaults to mean 1 and sigma 1"); }
SCEN(S25_logn_text) { va_bound(6); va_values_only(); boost::lognormal_distribution<> o(PD(10, 0, 0.1, 10), PD(10, 1, 0.1, 10)), p(2, 3); VBuf<> b; VOs os(&b); os.precision(21); os << o; VIs is(&b); is >> p; va_check(!is.fail() && is.p == b.n, "the deprecated lognormal_distribution reads back what it wrote"); va_check(p.mean() == o.mean() && p.sigma() == o.sigma(), "the deprecated lognormal_distribution reads back its parameters"); Gf e, f; va_check(o(e) == p(f) && e == f, "the deprecated lognormal_distribution read back draws like the original"); }
#endif
#ifdef UNIT_GEO
SCEN(S25_geo) { va_bound(6); va_values_only(); double p = PD(10, 0, 0.01, 0.99); boost::geometric_distribution<> o(p); br::geometric_distribution<> n(1 - p); Gf e, f; int x = o(e), y = n(f); va_check(x == y + 1 && e == f, "the deprecated geometric_distribution counts from one with success probability 1 - p"); o.reset(); va_check(o(e) == n(f) + 1 && e == f, "the deprecated geometric_distribution keeps no state"); va_check(o.p() == 1 - (1 - p), "the deprecated geometric_distribution reports p"); }
SCEN(S25_geo_def) { boost::geometric_distribution<> o; va_check(o.p() == 0.5, "the deprecated geometric_distribution defaults to p = 0.5"); }
SCEN(S25_geo_text) { va_bound(6); double p = PD(10, 0, 0.01, 0.99); boost::geometric_distribution<> o(p), q(0.25); VBuf<> b; VOs os(&b); os.precision(21); os << o; VIs is(&b); is >> q; va_check(!is.fail() && is.p == b.n, "the deprecated geometric_distribution reads back what it wrote"); va_check(q.p() == 1 - (1 - o.p()), "the deprecated geometric_distribution reads back p"); Gf e, f; br::geometric_distribution<> n(1 - o.p()); va_check(q(e) == n(f) + 1 && e == f, "the deprecated geometric_distribution read back draws with the p read"); }
#endif
#ifdef UNIT_U01
template<class R, class E> void old01() { va_bound(3); va_values_only(); E e, f; e(); f = e; boost::uniform_01<E, R> u(e); const boost::uniform_01<E, R>& cu = u; boost::uniform_01<R, R> v; br::uniform_01<R> w; va_check((u.min)() == 0 && (u.max)() == 1 && (v.min)() == 0 && (v.max)() == 1 && (w.min)() == 0 && (w.max)() == 1, "uniform_01 has range [0, 1]"); va_check(!u.has_fixed_range, "uniform_01 has no fixed range");
  E h(f); { boost::uniform_01<E&, R> r(e); R x = u(), y = r(); va_check(x == y && u.base() == e && cu.base() == e && &r.base() == &e, "uniform_01 with an engine or a reference draws alike"); va_check(x >= 0 && x < 1, "uniform_01 returns values in [0, 1)"); u.reset(); }
  E k(h); boost::uniform_01<E*, R> p(&h); va_check(p() == w(k) && h == k && &p.base() == &h, "uniform_01 with a pointer draws from the engine pointed to"); boost::uniform_01<E, R> c(u); va_check(c() == u() && c.base() == u.base(), "a copy of uniform_01 continues like the original"); }
typedef VRng<u32, 1, 2147483646u> Gm; typedef VRng<u64, 0, ~0ull> G64;
SCEN(S25_u01_d) { old01<double, Gf>(); } SCEN(S25_u01_f) { old01<float, Gf>(); } SCEN(S25_u01_m) { old01<double, Gm>(); } SCEN(S25_u01_64) { old01<double, G64>(); }
template<class R, class E> void again() { va_bound(4); E e, f; boost::uniform_01<E, R> u(e); boost::uniform_01<R, R> v; R x = u(), y = v(f); va_check(x == y && u.base() == f, "uniform_01 with an engine draws again exactly when uniform_01 does"); va_check(x < 1, "uniform_01 never returns 1"); }
SCEN(S25_u01_again_f) { again<float, Gf>(); } SCEN(S25_u01_again_64) { again<double, G64>(); } SCEN(S25_u01_again_m) { again<float, Gm>(); }
SCEN(S25_u01_text) { Gf e(7); boost::uniform_01<Gf, double> u(e), w(Gf(3)); VBuf<> b; VOs os(&b); os << u; VIs is(&b); is >> w; va_check(!is.fail() && is.p == b.n && w.base() == u.base(), "uniform_01 with an engine reads back the engine it wrote"); boost::uniform_01<double> z; VBuf<> c; VOs oc(&c); oc << z; va_check(c.n == 0, "uniform_01 has no text"); VIs ic(&c); ic >> z; va_check(!ic.fail(), "uniform_01 reads nothing"); }
#endif
