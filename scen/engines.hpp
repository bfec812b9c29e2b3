// Catalogue of engines under analysis.  X(id, type)
#pragma once
#include "arch.hpp"
#include <boost/random/linear_congruential.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/subtract_with_carry.hpp>
#include <boost/random/discard_block.hpp>
#include <boost/random/ranlux.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/linear_feedback_shift.hpp>
#include <boost/random/xor_combine.hpp>
#include <boost/random/taus88.hpp>
#include <boost/random/additive_combine.hpp>
#include <boost/random/shuffle_order.hpp>
#include <boost/random/shuffle_output.hpp>
#include <boost/random/inversive_congruential.hpp>
#include <boost/random/independent_bits.hpp>
#include <boost/random/mixmax.hpp>
#include <boost/random/splitmix64.hpp>
namespace br = boost::random;
typedef br::linear_congruential_engine<u32, 1664525u, 1013904223u, 0> lcg32;
typedef br::linear_congruential_engine<u64, 6364136223846793005ull, 1442695040888963407ull, 0> lcg64;
typedef br::linear_congruential_engine<u32, 1366u, 150889u, 714025u> lcgs;
typedef br::linear_congruential_engine<u32, 16807u, 1000000u, 2147483647u> lcgc;
typedef br::mersenne_twister_engine<u32, 32, 4, 2, 31, 0x9908b0df, 11, 0xffffffff, 7, 0x9d2c5680, 15, 0xefc60000, 18, 1812433253> mtsmall;
typedef br::subtract_with_carry_engine<u32, 24, 3, 7> swcsmall;
typedef br::subtract_with_carry_engine<int, 24, 3, 7> swci; typedef br::subtract_with_carry_engine<long long, 40, 2, 5> swcl;
typedef br::subtract_with_carry_engine<u32, 24, 10, 24> swc24;
typedef br::subtract_with_carry_engine<u64, 48, 5, 12> swc48;
typedef br::subtract_with_carry_01_engine<double, 48, 5, 12> swc01d;
typedef br::subtract_with_carry_01_engine<float, 24, 3, 7> swc01f;
typedef br::lagged_fibonacci_engine<u32, 32, 7, 3> lf32s;
typedef br::lagged_fibonacci_engine<u64, 48, 17, 5> lf48s;
typedef br::lagged_fibonacci_engine<u32, 24, 7, 3> lf24s;
typedef br::lagged_fibonacci_01_engine<double, 48, 7, 3> lf01d;
typedef br::lagged_fibonacci_01_engine<float, 24, 9, 4> lf01f;
typedef br::discard_block_engine<swcsmall, 9, 4> dbsmall;
typedef br::discard_block_engine<lcg32, 5, 5> dbfull;
typedef br::shuffle_order_engine<lcg32, 4> sho4;
typedef br::shuffle_order_engine<br::minstd_rand0, 8> sho8;
typedef br::shuffle_order_engine<br::rand48, 5> sho5;
typedef br::inversive_congruential_engine<u32, 7, 3, 31> invs;
typedef br::inversive_congruential_engine<u32, 9102, 2147483647u-36884165u, 2147483647u> invh;
typedef br::independent_bits_engine<lcg32, 17, u32> ib17;
typedef br::independent_bits_engine<br::minstd_rand0, 48, u64> ib48;
typedef br::independent_bits_engine<lcg64, 64, u64> ib64;
typedef br::xor_combine_engine<lcg32, 3, br::minstd_rand0, 1> xc1;
typedef br::additive_combine_engine<br::minstd_rand0, br::minstd_rand> ac1;
typedef br::linear_feedback_shift_engine<u32, 32, 31, 13, 12> lfs1;
typedef br::linear_feedback_shift_engine<u64, 64, 63, 5, 24> lfs2;
typedef br::mixmax_engine<17, 36, 0> mixmax17;
#define G_LCG(X) X(minstd0, br::minstd_rand0) X(minstd, br::minstd_rand) X(rand48, br::rand48) X(lcg32, lcg32) X(lcg64, lcg64) X(lcgs, lcgs) X(lcgc, lcgc)
#define G_MT(X) X(mt19937, br::mt19937) X(mtsmall, mtsmall)
#define G_MTB(X) X(mt11213b, br::mt11213b) X(mt19937_64, br::mt19937_64)
#define G_SWC(X) X(swcsmall, swcsmall) X(swci, swci) X(swcl, swcl) X(swc24, swc24) X(swc48, swc48) X(swc01d, swc01d) X(swc01f, swc01f) X(dbsmall, dbsmall) X(dbfull, dbfull)
#define G_LF(X) X(lf32s, lf32s) X(lf24s, lf24s) X(lf48s, lf48s) X(lf01d, lf01d) X(lf01f, lf01f)
#define G_RLX(X) X(ranlux24, br::ranlux24) X(ranlux48, br::ranlux48) X(ranlux3, br::ranlux3) X(ranlux4_01, br::ranlux4_01) X(lf607, br::lagged_fibonacci607)
#define G_CMB(X) X(taus88, br::taus88) X(ecuyer1988, br::ecuyer1988) X(xc1, xc1) X(ac1, ac1) X(lfs1, lfs1) X(lfs2, lfs2) X(splitmix64, br::splitmix64)
#define G_SHO(X) X(sho4, sho4) X(sho8, sho8) X(sho5, sho5) X(kreutzer1986, br::kreutzer1986)
#define G_INV(X) X(invs, invs) X(hellekalek1995, br::hellekalek1995)
#define G_IB(X) X(ib17, ib17) X(ib48, ib48) X(ib64, ib64)
#define G_MIX(X) X(mixmax17, mixmax17)
// ---- an arbitrary reachable-looking engine state, as free as the engine's interface allows
template<class E> struct Mk { template<int S> static E go() { VSeq<S> s; E e(s); return e; } };
template<> struct Mk<mixmax17> { template<int S> static mixmax17 go() {
  VBuf<64> t; u64 v[17]; u64 sum = 0; const u64 M = (1ull << 61) - 1;
  for (int i = 0; i < 17; ++i) { v[i] = va_sym_u(S, i, 64, 0, M); u64 k = sum + v[i]; sum = (k & M) + (k >> 61); }
  t.num(17); t.sp(); t.num(1); t.sp(); t.num(sum); t.sp(); for (int i = 0; i < 17; ++i) { t.num(v[i]); t.sp(); }
  VIs is(&t); mixmax17 e; is >> e; va_assume(!is.fail()); return e; } };
template<> struct Mk<br::hellekalek1995> { template<int S> static br::hellekalek1995 go() { return br::hellekalek1995(S == 2 ? 12345u : 777777u); } };
// ---- iteration limit for value dependent loops (rejection loops); paths beyond it are reported as bounded
template<class E> struct Lim { static const int v = 700; };
template<> struct Lim<ib48> { static const int v = 3; };
// ---- an engine loaded from a text whose every field is free (within what the engine itself writes)
template<class E> struct Fld;
struct Txt { VBuf<>& t; int S; u64 k; Txt(VBuf<>& b, int s) : t(b), S(s), k(0) {} void num(u64 lo, u64 hi) { if (t.n) t.sp(); t.num(va_sym_u(S, k++, 64, lo, hi)); } void lit(u64 v) { if (t.n) t.sp(); t.num(v); } };
template<class I, I a, I c, I m> struct Fld<br::linear_congruential_engine<I, a, c, m> > { typedef br::linear_congruential_engine<I, a, c, m> E; static void put(Txt& t, u64) { t.num((E::min)(), (E::max)()); } };
template<> struct Fld<br::rand48> { static void put(Txt& t, u64) { t.num(0, (1ull << 48) - 1); } };
template<class U, std::size_t w, std::size_t n, std::size_t m, std::size_t r, U a, std::size_t u, U d, std::size_t s, U b, std::size_t tt, U c, std::size_t l, U f>
struct Fld<br::mersenne_twister_engine<U, w, n, m, r, a, u, d, s, b, tt, c, l, f> > { static void put(Txt& t, u64) { for (u64 i = 0; i < n; ++i) t.num(0, w == 64 ? ~0ull : (1ull << (w % 64)) - 1); } };
template<class I, std::size_t w, std::size_t s, std::size_t r> struct Fld<br::subtract_with_carry_engine<I, w, s, r> > { static void put(Txt& t, u64) { for (u64 i = 0; i < r; ++i) t.num(0, (1ull << w) - 1); t.num(0, 1); } };
template<class I, std::size_t w, std::size_t s, std::size_t r> struct Fld<br::subtract_with_carry_01_engine<I, w, s, r> > { static void put(Txt& t, u64) { for (u64 i = 0; i < r; ++i) t.num(0, (1ull << w) - 1); t.num(0, 1); } };
template<class I, int w, unsigned p, unsigned q> struct Fld<br::lagged_fibonacci_engine<I, w, p, q> > { static void put(Txt& t, u64 d) { t.lit(d % (p + 1)); for (u64 i = 0; i < p; ++i) t.num(0, w == 64 ? ~0ull : (1ull << (w % 64)) - 1); } };
template<class I, int w, unsigned p, unsigned q> struct Fld<br::lagged_fibonacci_01_engine<I, w, p, q> > { static void put(Txt& t, u64 d) { t.lit(d % (p + 1)); for (u64 i = 0; i < p; ++i) t.num(0, (1ull << w) - 1); } };
template<class U, std::size_t p, std::size_t r> struct Fld<br::discard_block_engine<U, p, r> > { static void put(Txt& t, u64 d) { Fld<U>::put(t, d); t.lit(d % (r + 1)); } };
template<class U, std::size_t k> struct Fld<br::shuffle_order_engine<U, k> > { static void put(Txt& t, u64 d) { Fld<U>::put(t, d); for (u64 i = 0; i < k; ++i) t.num((U::min)(), (U::max)()); t.num((U::min)(), (U::max)()); } };
template<class A, class B> struct Fld<br::additive_combine_engine<A, B> > { static void put(Txt& t, u64 d) { Fld<A>::put(t, d); Fld<B>::put(t, d); } };
template<class A, int s, class B, int z> struct Fld<br::xor_combine_engine<A, s, B, z> > { static void put(Txt& t, u64 d) { Fld<A>::put(t, d); Fld<B>::put(t, d); } };
template<class U, int w, int k, int q, int s> struct Fld<br::linear_feedback_shift_engine<U, w, k, q, s> > { static void put(Txt& t, u64) { t.num(1ull << (w - k), w == 64 ? ~0ull : (1ull << (w % 64)) - 1); } };
template<class E, std::size_t w, class U> struct Fld<br::independent_bits_engine<E, w, U> > { static void put(Txt& t, u64 d) { Fld<E>::put(t, d); } };
template<> struct Fld<br::splitmix64> { static void put(Txt& t, u64) { t.num(0, ~0ull); } };
template<class E> struct Tk { template<int S> static E go(u64 d) { VBuf<> t; Txt x(t, S); Fld<E>::put(x, d); VIs is(&t); E e; is >> e; va_assume(!is.fail()); return e; } };
template<> struct Tk<mixmax17> { template<int S> static mixmax17 go(u64) { return Mk<mixmax17>::go<S>(); } };
