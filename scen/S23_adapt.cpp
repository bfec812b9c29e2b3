// S23: adaptors and utilities combine generators and distributions exactly as documented.
//UNITS: VG RNG FILL FILLF CANON U01 BASE
#include "dists.hpp"
#include <boost/random/random_number_generator.hpp>
#include <boost/random/generate_canonical.hpp>
#include <boost/random/linear_congruential.hpp>
#include <boost/random/splitmix64.hpp>
#include <boost/random/discard_block.hpp>
#include <boost/random/uniform_01.hpp>
typedef VRng<u32, 0, 0xffffffffu> G; typedef br::normal_distribution<> N; typedef br::exponential_distribution<> X_; typedef br::uniform_int_distribution<int> I;
template<class D> D mk(); template<> X_ mk<X_>() { return X_(PD(10, 0, 0.1, 10)); } template<> I mk<I>() { return I(0, PI(10, 0, 5, 1000000)); } typedef br::uniform_real_distribution<> Re; template<> Re mk<Re>() { return Re(PD(10, 0, -9, 0), PD(10, 1, 1, 9)); }
typedef br::bernoulli_distribution<> Be; template<> Be mk<Be>() { return Be(PD(10, 0, 0.1, 0.9)); }
#ifdef UNIT_VG
template<class D> void vg() {
  va_bound(3); va_values_only(); const D d(mk<D>()); G g(3), h(3), own(3);
  br::variate_generator<G, D> a(own, d); br::variate_generator<G&, D> b(g, d); br::variate_generator<G*, D> c(&h, d);
  D r(d); G e(3); typename D::result_type x[3]; for (int i = 0; i < 3; ++i) x[i] = r(e);
  for (int i = 0; i < 3; ++i) { va_check(a() == x[i], "a variate_generator returns what its distribution returns with its engine"); va_check(b() == x[i], "a variate_generator returns what its distribution returns with its engine"); va_check(c() == x[i], "a variate_generator returns what its distribution returns with its engine"); }
  va_check(own.pos == 3, "a variate_generator holding an engine by value leaves the original alone"); va_check(g == e, "a variate_generator referring to an engine draws from that engine"); va_check(h == e, "a variate_generator pointing to an engine draws from that engine"); va_check(a.engine() == e, "a variate_generator holding an engine advances its own");
  va_check(&b.engine() == &g && &c.engine() == &h && &a.engine() != &own, "engine() refers to the engine in use"); const br::variate_generator<G&, D>& cb = b; va_check(&cb.engine() == &g && &cb.distribution() == &b.distribution(), "the const accessors refer to the same objects");
  va_check(a.distribution() == r && b.distribution() == d, "distribution() refers to the distribution in use"); va_check((a.min)() == (d.min)() && (a.max)() == (d.max)(), "min() and max() are those of the distribution");
  a.distribution().reset(); a.engine().seed(3); va_check(a() == x[0], "changes made through engine() and distribution() take effect"); br::variate_generator<G, D> k(a); va_check(k() == a() && k.engine() == a.engine(), "copies continue like the original");
}
SCEN(S23_vg_exp) { vg<X_>(); } SCEN(S23_vg_int) { vg<I>(); } SCEN(S23_vg_real) { vg<Re>(); } SCEN(S23_vg_bern) { vg<Be>(); }
SCEN(S23_vg_arg) { va_bound(3); va_values_only(); G g(1), e(1); br::variate_generator<G&, br::uniform_int_distribution<int> > b(g, br::uniform_int_distribution<int>(0, 9)); typedef br::uniform_int_distribution<int>::param_type P; P p(PI(11, 0, -100, 0), PI(11, 1, 1, 100)); br::uniform_int_distribution<int> r(0, 9); int x = r(e, p); va_check(b(p) == x && g == e, "calling a variate_generator with an argument passes it to the distribution"); }
#endif
#ifdef UNIT_RNG
template<class T, long long LO, long long HI> void rng() { va_bound(3); G g(5), e(5); br::random_number_generator<G, T> r(g); for (int i = 0; i < 2; ++i) { T n = (T)(LO + (long long)va_sym_u(12, i, 64, 0, HI - LO)); T x = r(n); va_check(x == br::uniform_int_distribution<T>(0, n - 1)(e), "random_number_generator returns a uniform integer below its argument"); va_check(x >= 0 && x < n, "random_number_generator returns values below its argument"); } va_check(g == e, "random_number_generator draws from the generator it refers to"); br::random_number_generator<G, T> s(r); s(7); va_check(g != e, "copies refer to the same generator"); }
SCEN(S23_rng_int) { rng<int, 1, 2147483647>(); } SCEN(S23_rng_long) { rng<long, 1, 4294967295LL>(); } SCEN(S23_rng_short) { rng<short, 1, 32767>(); } SCEN(S23_rng_unsigned) { rng<unsigned, 1, 4294967295LL>(); }
#endif
// floating-point generators with B random bits: value k/2^B
template<class R, int B> struct FB { typedef R result_type; static constexpr int word_size = B; static constexpr bool has_fixed_range = false; static constexpr R min() { return 0; } static constexpr R max() { return 1; } static constexpr std::size_t precision() { return B; } u64 pos = 0; static u64 raw(u64 p) { return va_sym_u(1, p, 64, 0, (1ull << B) - 1); } R operator()() { return (R)raw(pos++) / (R)(1ull << B); } friend bool operator==(const FB& a, const FB& b) { return a.pos == b.pos; } };
namespace boost { namespace random { namespace detail { template<class R, int B> struct generator_bits<FB<R, B> > { static std::size_t value() { return B; } }; } } }
// a generator passed through unchanged, to reach generate()
template<class B> struct Pass { typedef br::discard_block_engine<B, 1, 1> T; };
#ifdef UNIT_FILL
// generate of an engine that fills with whole outputs
SCEN(S23_gen_splitmix) { br::splitmix64 e(va_sym_u(5, 0, 64, 0, ~0ull)), f(e), g(e); u64 w[4] = { 1, 2, 3, 99 }; e.generate(w, w + 3); for (int i = 0; i < 3; ++i) va_check(w[i] == f(), "generate fills its range with successive outputs"); va_check(w[3] == 99, "generate writes only its range"); va_check(e == f, "generate draws as many values as it writes"); g.generate(w, w); va_check(!(g == e) | (g == f), "generate of an empty range draws nothing"); br::splitmix64 h(va_sym_u(5, 0, 64, 0, ~0ull)); va_check(g == h, "generate of an empty range draws nothing"); }
SCEN(S23_gen_rand48) { br::rand48 e((u32)va_sym_u(5, 0, 32, 0, ~0u)), f(e); const br::rand48 h(e); u32 w[4] = { 1, 2, 3, 99 }; e.generate(w, w + 3); for (int i = 0; i < 3; ++i) va_check(w[i] == f(), "generate fills its range with successive outputs"); va_check(w[3] == 99, "generate writes only its range"); va_check(e == f, "generate draws as many values as it writes"); br::rand48 g(h); g.generate(w, w); va_check(g == h, "generate of an empty range draws nothing"); }
inline int lg(u64 x) { int r = -1; while (x) { ++r; x >>= 1; } return r; }
// reference: of each accepted draw the low bits, concatenated from the least significant end into 32-bit words
template<class B> struct Bits { B g; int bits; u64 lim; bool all; u64 acc; int have; Bits() : acc(0), have(0) { u64 n = (u64)(B::max)() - (u64)(B::min)(); if (n == ~0ull) { bits = 64; all = true; lim = 0; } else { n += 1; int b = lg(n), d = b ? lg(b) : 0; u64 top = n >> (b - d); int z = 0; while (!((top >> z) & 1)) ++z; bits = b - d + z; lim = n >> bits << bits; all = lim == n; } }
  u64 draw() { for (;;) { u64 v = (u64)g() - (u64)(B::min)(); if (all || v < lim) return bits == 64 ? v : v & ((1ull << bits) - 1); } }
  u32 word() { u64 r = 0; int n = 0; while (n < 32) { if (!have) { acc = draw(); have = bits; } int k = have < 32 - n ? have : 32 - n; r |= (acc & ((1ull << k) - 1)) << n; acc = k == 64 ? 0 : acc >> k; have -= k; n += k; } return (u32)r; } };
template<class B, int W> void fill() { va_bound(3); va_values_only(); typename Pass<B>::T e((B())); u32 w[W + 1]; for (int i = 0; i <= W; ++i) w[i] = 77u + i; e.generate(w, w + W); Bits<B> r; for (int i = 0; i < W; ++i) va_check(w[i] == r.word(), "generate fills 32-bit words with the usable bits of successive outputs"); va_check(w[W] == 77u + W, "generate writes only its range"); va_check(e.base() == r.g, "generate draws no more than it needs"); }
#define F(n, ...) SCEN(S23_fill_##n) { fill<VRng<__VA_ARGS__>, 5>(); } SCEN(S23_fill1_##n) { fill<VRng<__VA_ARGS__>, 1>(); }
F(full32, u32, 0, 0xffffffffu) F(full64, u64, 0, ~0ull) F(b8, u32, 0, 255) F(b16, std::uint16_t, 0, 65535) F(b24, u32, 0, 0xffffff) F(b31, u32, 0, 0x7fffffff) F(b48, u64, 0, (1ull << 48) - 1) F(b61, u64, 0, (1ull << 61) - 1) F(b33, u64, 0, (1ull << 33) - 1) F(b1, u32, 0, 1) F(b12off, u32, 100, 4195) F(min1, u32, 1, 0xffffffffu) F(minstd, u32, 1, 2147483646u) F(m40, u64, 3, 3 + 5 * (1ull << 40)) F(ten, u32, 0, 9) F(six, u32, 0, 5)
template<class B> void empty() { va_bound(3); typename Pass<B>::T e((B())), f((B())); u32 w[1] = { 9 }; e.generate(w, w); va_check(w[0] == 9, "generate writes only its range"); va_check(e == f, "generate of an empty range draws nothing"); }
SCEN(S23_fill_empty) { empty<VRng<u32, 0, 0xffffffffu> >(); } SCEN(S23_fill_empty64) { empty<VRng<u64, 0, ~0ull> >(); } SCEN(S23_fill_empty8) { empty<VRng<u32, 0, 255> >(); } SCEN(S23_fill_empty10) { empty<VRng<u32, 0, 9> >(); } SCEN(S23_fill_emptymin) { empty<VRng<u32, 1, 0x7ffffffeu> >(); }
#endif
#ifdef UNIT_FILLF
template<class R, int B, int W> void fillf() { va_bound(40); va_values_only(); typename Pass<FB<R, B> >::T e((FB<R, B>())); u32 w[W + 1]; for (int i = 0; i <= W; ++i) w[i] = 77u + i; e.generate(w, w + W); u64 p = 0, acc = 0; int have = 0; for (int i = 0; i < W; ++i) { u64 r = 0; int n = 0; while (n < 32) { if (!have) { acc = FB<R, B>::raw(p++); have = B; } int k = have < 32 - n ? have : 32 - n; r |= (acc & ((1ull << k) - 1)) << n; acc >>= k; have -= k; n += k; } va_check(w[i] == (u32)r, "generate fills 32-bit words with the usable bits of successive outputs"); } va_check(w[W] == 77u + W, "generate writes only its range"); va_check(e.base().pos == p, "generate draws no more than it needs"); }
SCEN(S23_fillf_d32) { fillf<double, 32, 4>(); } SCEN(S23_fillf_d48) { fillf<double, 48, 4>(); } SCEN(S23_fillf_f24) { fillf<float, 24, 4>(); } SCEN(S23_fillf_d53) { fillf<double, 53, 4>(); } SCEN(S23_fillf_f16) { fillf<float, 16, 4>(); } SCEN(S23_fillf_d24) { fillf<double, 24, 3>(); }
template<class R, int B> void emptyf() { typename Pass<FB<R, B> >::T e((FB<R, B>())), f((FB<R, B>())); u32 w[1] = { 9 }; e.generate(w, w); va_check(w[0] == 9, "generate writes only its range"); va_check(e == f, "generate of an empty range draws nothing"); }
SCEN(S23_fillf_empty) { emptyf<double, 48>(); } SCEN(S23_fillf_empty24) { emptyf<float, 24>(); }
#endif
#ifdef UNIT_CANON
inline bool nr(double x, double y, double t) { double d = x - y; return d <= t && d >= -t; }
// reference: base-R digits of successive draws, least significant first, as many as the bits asked for need
template<class T, std::size_t b, class B> void canon() { va_bound(3); B g, h; T x = br::generate_canonical<T, b>(g); double R = (double)(B::max)() - (double)(B::min)() + 1, m = R, s = (double)((u64)h() - (u64)(B::min)()); double lim = 1; for (std::size_t i = 0; i < b && i < (std::size_t)std::numeric_limits<T>::digits; ++i) lim *= 2; while (m < lim) { s += (double)((u64)h() - (u64)(B::min)()) * m; m *= R; }
  va_check(g == h, "generate_canonical draws as many values as the bits asked for need"); va_check(nr(x, s / m, sizeof(T) == 4 ? 1e-6 : 1e-14), "generate_canonical returns the fraction formed by the values drawn"); va_check(x >= 0 && x < 1, "generate_canonical returns values in [0, 1)"); }
SCEN(S23_canon_f24) { canon<float, 24, VRng<u32, 0, 0xffffffffu> >(); } SCEN(S23_canon_d53) { canon<double, 53, VRng<u32, 0, 0xffffffffu> >(); } SCEN(S23_canon_d32) { canon<double, 32, VRng<u32, 0, 0xffffffffu> >(); } SCEN(S23_canon_d64) { canon<double, 64, VRng<u64, 0, ~0ull> >(); } SCEN(S23_canon_min) { canon<double, 53, VRng<u32, 1, 2147483646u> >(); } SCEN(S23_canon_b8) { canon<double, 53, VRng<u32, 0, 255> >(); } SCEN(S23_canon_odd) { canon<float, 100, VRng<u32, 10, 1009> >(); } SCEN(S23_canon_one) { canon<double, 1, VRng<u32, 0, 1> >(); } SCEN(S23_canon_zero) { canon<double, 0, VRng<u32, 0, 1> >(); } SCEN(S23_canon_big) { canon<double, 1000, VRng<u32, 0, 99> >(); }
template<class T, std::size_t b, class R, int B> void canonf() { va_bound(3); FB<R, B> g; T x = br::generate_canonical<T, b>(g); u64 want = b < (std::size_t)std::numeric_limits<T>::digits ? b : std::numeric_limits<T>::digits; u64 k = want <= B ? 1 : (want + B - 1) / B; double y = 0; for (u64 i = 0; i < k; ++i) y = (y + (double)FB<R, B>::raw(i)) / (double)(1ull << B);
  va_check(g.pos == k, "generate_canonical draws as many values as the bits asked for need"); va_check(nr(x, y, sizeof(T) == 4 ? 1e-6 : 1e-9), "generate_canonical returns the fraction formed by the values drawn"); va_check(x >= 0 && x < 1, "generate_canonical returns values in [0, 1)"); }
SCEN(S23_canonf_1) { canonf<float, 24, double, 48>(); } SCEN(S23_canonf_2) { canonf<double, 53, double, 48>(); } SCEN(S23_canonf_3) { canonf<double, 53, float, 24>(); } SCEN(S23_canonf_4) { canonf<double, 32, double, 53>(); } SCEN(S23_canonf_5) { canonf<float, 24, float, 24>(); }
#endif
#ifdef UNIT_U01
template<class T> void u01() { va_bound(3); va_values_only(); G g(2), h(2); br::uniform_01<T> d; T x = d(g), y = br::uniform_01<T>()(h); va_check(x == y && g == h, "uniform_01 keeps no state"); va_check((d.min)() == 0 && (d.max)() == 1, "uniform_01 has range [0, 1]"); va_check(x == (T)(u32)G::at(2) * (T)(1.0 / 4294967296.0) || sizeof(T) == 4, "uniform_01 scales the value drawn to [0, 1)"); }
SCEN(S23_u01_d) { u01<double>(); } SCEN(S23_u01_f) { u01<float>(); }
SCEN(S23_u01_old) { va_bound(3); va_values_only(); G e(2), f(2); boost::uniform_01<G, double> u(e); boost::uniform_01<double> v; for (int i = 0; i < 3; ++i) va_check(u() == v(f), "uniform_01 with an engine returns what uniform_01 returns for that engine"); va_check(u.base() == f && e.pos == 2, "uniform_01 with an engine draws from its own copy"); boost::uniform_01<G&, double> w(e); va_check(w() == boost::uniform_01<double>()(f = G(2)) && e == f, "uniform_01 with a reference draws from the engine referred to"); }
#endif
#ifdef UNIT_BASE
#include <boost/random/linear_congruential.hpp>
#include <boost/random/shuffle_order.hpp>
#include <boost/random/independent_bits.hpp>
#include <boost/random/xor_combine.hpp>
#include <boost/random/mersenne_twister.hpp>
// an adaptor constructed from an engine object holds a copy of that engine, however the object is passed
typedef br::minstd_rand ME; typedef br::linear_congruential_engine<u32, 1664525, 1013904223, 0> LE; typedef br::mersenne_twister_engine<u32, 32, 7, 3, 5, 0x9908b0dfu, 11, 0xffffffffu, 7, 0x9d2c5680u, 15, 0xefc60000u, 18, 1812433253u> TE;
template<class B> B eng() { B e((u32)va_sym_u(20, 0, 32, 1, 2147483646u)); e(); return e; }
template<class A, class B> void from() { va_bound(40); const B c(eng<B>()); B b(c); const A x(c); A y(b); va_check(b == c, "an adaptor constructed from an engine leaves that engine alone"); A z((B(c))); va_check(x.base() == y.base() && x.base() == z.base() && x == y && x == z, "an adaptor constructed from an engine holds a copy of it, however the engine is passed"); A n(c), k(x); for (int i = 0; i < 3; ++i) { typename A::result_type v = n(); va_check(y() == v && z() == v && k() == v, "adaptors constructed from equal engines return the same values"); } }
template<class A, class B> void held() { va_bound(40); const B c(eng<B>()); B b(c); A y(b); va_check(y.base() == c && b == c, "an adaptor constructed from an engine starts with a copy of it"); }
#define FROM(id, A, B) typedef A FA_##id; SCEN(S23_from_##id) { from<FA_##id, B>(); }
#define PP(...) __VA_ARGS__
FROM(dbm, PP(br::discard_block_engine<ME, 5, 2>), ME) FROM(dbl, PP(br::discard_block_engine<LE, 5, 2>), LE) FROM(dbt, PP(br::discard_block_engine<TE, 5, 2>), TE) FROM(ibm, PP(br::independent_bits_engine<ME, 20, u32>), ME) FROM(ibl, PP(br::independent_bits_engine<LE, 40, u64>), LE) FROM(sol, PP(br::shuffle_order_engine<LE, 4>), LE) FROM(sod, PP(br::discard_block_engine<br::discard_block_engine<LE, 3, 2>, 5, 2>), PP(br::discard_block_engine<LE, 3, 2>))
SCEN(S23_held_db) { held<br::discard_block_engine<LE, 5, 2>, LE>(); } SCEN(S23_held_ib) { held<br::independent_bits_engine<LE, 20, u32>, LE>(); }
template<class P, class Q> void two() { va_bound(40); const P c(eng<P>()); P b(c); const Q d(eng<Q>()); Q e(d); typedef br::xor_combine_engine<P, 0, Q, 1> X; const X w(c, d); X x(b, e), y(b, d), z(c, e), t((P(c)), Q(d)); va_check(b == c && e == d, "an adaptor constructed from engines leaves them alone"); va_check(w.base1() == c && w.base2() == d && x == w && y == w && z == w && t == w, "an adaptor constructed from engines holds copies of them, however they are passed"); }
SCEN(S23_from_xor) { two<LE, TE>(); } SCEN(S23_from_xorm) { two<ME, LE>(); }
#endif
