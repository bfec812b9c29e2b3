// S21: the state seeding gives.  Every kind of seed puts the engine into the state its documentation (ISO C++
// [rand.eng], [rand.adapt], or the paper named) states; the words are computed here from those formulas alone.
//UNITS: LCG LCGX MT MTX MTB SWC LF LFB RLX CMB SHO INV IB MIX SEQ SEQ64 SEQN
#include "refs.hpp"
#include <boost/random/seed_seq.hpp>
template class std::basic_string<char>;
struct Src { int kind; int s; u64 pos; br::linear_congruential_engine<u32, 16807, 0, 2147483647> a; br::linear_congruential_engine<u32, 40014, 0, 2147483563> b; u64 x, m, f; Src(int k, int st = 0) : kind(k), s(st), pos(0), x(0), m(0), f(0) {}
  u32 get() { if (kind <= 1) return (u32)va_sym_u(s, pos++, 32, 0, 0xffffffffull); if (kind == 2) return a(); if (kind == 3) return b(); x = f * x % m; return (u32)x; }   // 0 seed sequence, 1 iterator, 2/3/4 congruential words
  void call() { if (kind == 0) pos = 0; } void skip(u64 n) { if (kind == 0) pos += n; } };
static bool nonzero = false;
struct Out { u64* p; void put(u64 v) { *p++ = v; } };
template<class E> struct Init;
inline constexpr u64 wordsof(u64 m, u64 digits) { u64 n = m == 0 ? digits : 0; if (m) while (n < 64 && (1ull << n) < m) ++n; return (n + 31) / 32; }
template<class I, u64 m> u64 sum(Src& s) { s.call(); s.skip(3); typedef typename std::make_unsigned<I>::type N; const u64 k = wordsof(m, std::numeric_limits<I>::digits); N S = 0; for (u64 j = 0; j < k; ++j) { u64 d = s.get(); if (m == 0) S += (N)d << (32 * j); else if (k == 1) S = (N)d % (N)m; else if ((m & (m - 1)) == 0) S = (S + ((N)d << (32 * j))) & (N)(m - 1); else S = (N)(((unsigned __int128)S + ((unsigned __int128)d << (32 * j)) % m) % m); } return S; }
template<class I, I a, I c, I m> struct Init<br::linear_congruential_engine<I, a, c, m> > { typedef typename std::make_unsigned<I>::type N;
  static void value(Out& q, I v) { N x; if (m == 0) x = (N)v; else if (std::is_signed<I>::value && v < 0) { x = (N)0 - (N)v; x %= (N)(m ? m : 1); if (x) x = (N)m - x; } else x = (N)v % (N)(m ? m : 1); if (c == 0 && x == 0) x = 1; q.put(x); }
  static void words(Out& q, Src& s) { N x = (N)sum<I, (u64)m>(s); if (c == 0 && x == 0) x = 1; q.put(x); } static void dflt(Out& q) { value(q, 1); } };
template<> struct Init<br::rand48> { static void value(Out& q, u32 v) { q.put(((u64)v << 16) | 0x330e); } static void words(Out& q, Src& s) { q.put(sum<u64, (1ull << 48)>(s)); } static void dflt(Out& q) { value(q, 1); } };
template<class U, std::size_t w, std::size_t n, std::size_t m, std::size_t r, U a, std::size_t u, U d, std::size_t s, U b, std::size_t t, U c, std::size_t l, U f>
struct Init<br::mersenne_twister_engine<U, w, n, m, r, a, u, d, s, b, t, c, l, f> > {
  static void fix(Out& q, u64* x) { if (nonzero) va_assume(x[1] != 0); bool z = true; for (u64 i = 1; z && i < n; ++i) if (x[i] != 0) z = false; if (z && (x[0] & lowmask(w) & ~lowmask(r)) == 0) x[0] = 1ull << (w - 1); for (u64 i = 0; i < n; ++i) q.put(x[i]); }
  static void value(Out& q, U v) { u64 x[n]; U p = v & (U)lowmask(w); x[0] = p; for (u64 i = 1; i < n; ++i) { p = (U)((U)(f * (U)(p ^ (p >> (w - 2)))) + (U)i) & (U)lowmask(w); x[i] = p; } fix(q, x); }
  static void words(Out& q, Src& g) { g.call(); u64 x[n]; for (u64 i = 0; i < n; ++i) { U v = 0; for (u64 j = 0; j < (w + 31) / 32; ++j) v += (U)g.get() << (32 * j); x[i] = v & (U)lowmask(w); } fix(q, x); }
  static void dflt(Out& q) { value(q, 5489u); } };
template<class I, u64 w, u64 n> void block(Out& q, Src& g) { g.call(); for (u64 i = 0; i < n; ++i) { I v = 0; for (u64 j = 0; j < (w + 31) / 32; ++j) v += (I)g.get() << (32 * j); q.put(v & (I)lowmask(w)); } }
template<u64 w, u64 n> void rblock(Out& q, Src& g) { g.call(); for (u64 i = 0; i < n; ++i) { for (u64 j = 0; j < w / 32; ++j) q.put(g.get()); if (w % 32) q.put(g.get() & (u32)lowmask(w % 32)); } }
// words of a congruential generator started from a value
inline Src lcgsrc(u64 f, u64 m, u32 v, bool own) { if (!own) { Src s(f == 16807 ? 2 : 3); if (f == 16807) s.a.seed(v); else s.b.seed(v); return s; } Src s(4); s.f = f; s.m = m; s.x = v % m; if (s.x == 0) s.x = 1; return s; }
static bool own_words = true;
template<class I, std::size_t w, std::size_t s, std::size_t r> struct Init<br::subtract_with_carry_engine<I, w, s, r> > { static void words(Out& q, Src& g) { block<I, w, r>(q, g); }
  template<class V> static void value(Out& q, V v) { Src g(lcgsrc(40014, 2147483563, v == 0 ? 19780503u : (u32)v, own_words)); words(q, g); } static void dflt(Out& q) { value(q, 19780503u); } };
template<class R, std::size_t w, std::size_t s, std::size_t r> struct Init<br::subtract_with_carry_01_engine<R, w, s, r> > { static void words(Out& q, Src& g) { rblock<w, r>(q, g); }
  static void value(Out& q, u32 v) { Src g(lcgsrc(40014, 2147483563, v == 0 ? 19780503u : v, own_words)); words(q, g); } static void dflt(Out& q) { value(q, 19780503u); } };
template<class I, int w, unsigned p, unsigned k> struct Init<br::lagged_fibonacci_engine<I, w, p, k> > { static void words(Out& q, Src& g) { block<I, w, p>(q, g); }
  template<class V> static void value(Out& q, V v) { Src g(lcgsrc(16807, 2147483647, (u32)v, own_words)); words(q, g); } static void dflt(Out& q) { value(q, 331u); } };
template<class R, int w, unsigned p, unsigned k> struct Init<br::lagged_fibonacci_01_engine<R, w, p, k> > { static void words(Out& q, Src& g) { rblock<w, p>(q, g); }
  static void value(Out& q, u32 v) { Src g(lcgsrc(16807, 2147483647, v, own_words)); words(q, g); } static void dflt(Out& q) { value(q, 331u); } };
template<class U, std::size_t p, std::size_t r> struct Init<br::discard_block_engine<U, p, r> > : Init<U> {};
template<class U, std::size_t k> struct Init<br::shuffle_order_engine<U, k> > : Init<U> {};
template<class E, std::size_t w, class U> struct Init<br::independent_bits_engine<E, w, U> > : Init<E> {};
template<class A, class B> struct Init<br::additive_combine_engine<A, B> > { template<class V> static void value(Out& q, V v) { Init<A>::value(q, v); Init<B>::value(q, v); } static void words(Out& q, Src& g) { Init<A>::words(q, g); Init<B>::words(q, g); } static void dflt(Out& q) { Init<A>::dflt(q); Init<B>::dflt(q); } };
template<class A, int s, class B, int z> struct Init<br::xor_combine_engine<A, s, B, z> > { template<class V> static void value(Out& q, V v) { Init<A>::value(q, v); Init<B>::value(q, v); } static void words(Out& q, Src& g) { Init<A>::words(q, g); Init<B>::words(q, g); } static void dflt(Out& q) { Init<A>::dflt(q); Init<B>::dflt(q); } };
template<class U, int w, int k, int z, int s> struct Init<br::linear_feedback_shift_engine<U, w, k, z, s> > { static void value(Out& q, u64 v) { U x = (U)v & (U)lowmask(w); if (x < ((U)1 << (w - k))) x += (U)1 << (w - k); q.put(x); }
  static void words(Out& q, Src& g) { value(q, sum<U, (w == sizeof(U) * 8 ? 0 : 1ull << (w % 64))>(g)); } static void dflt(Out& q) { value(q, 341u); } };
template<> struct Init<br::splitmix64> { static void value(Out& q, u64 v) { q.put(v == 0 ? 0xA164B43C8F634A13ull : v); } static void words(Out& q, Src& g) { g.call(); u64 hi = g.get(); u64 lo = g.get(); q.put(hi << 32 | lo); } static void dflt(Out& q) { value(q, 0); } };
template<class E> void same(E& e, const u64* q, int K) { Rd r(q); Ref<E> ref(r, 0); for (int i = 0; i < K; ++i) { auto a = e(); auto b = ref.next(); va_check(eqv(a, b), "a seeded engine starts from the state its seeding formula gives"); } }
static u64 qbuf[8200];
template<class E> E used() { E e; for (int i = 0; i < 3; ++i) e(); return e; }
template<class E> void begin() { va_bound(Lim<E>::v); va_values_only(); }
template<class E, class V> void s_val(V v, int K) { begin<E>(); Out q = { qbuf }; Init<E>::value(q, v); E e(v); same(e, qbuf, K); E f(used<E>()); f.seed(v); same(f, qbuf, K); }
template<class E, class V> void s_any(int K) { begin<E>(); own_words = false; V v = (V)va_sym_u(5, 0, sizeof(V) * 8, 0, sizeof(V) == 8 ? ~0ull : (1ull << (sizeof(V) * 8 % 64)) - 1); Out q = { qbuf }; Init<E>::value(q, v); E e(v); same(e, qbuf, K); }
template<class E> void s_dflt(int K) { begin<E>(); Out q = { qbuf }; Init<E>::dflt(q); E e; same(e, qbuf, K); E f; for (int i = 0; i < 3; ++i) f(); f.seed(); same(f, qbuf, K); }
template<class E> void s_seq(int K) { begin<E>(); Src g(0, 2); Out q = { qbuf }; Init<E>::words(q, g); VSeq<2> s; E e(s); same(e, qbuf, K); VSeq<2> t; E f(used<E>()); f.seed(t); same(f, qbuf, K); }
template<class E> void s_itr(int K) { begin<E>(); Src g(1, 2); Out q = { qbuf }; Init<E>::words(q, g); VIn a(2, 0, 8192), l(2, 8192, 8192); E e(a, l); va_check(a.pos == g.pos, "seeding from a range leaves the iterator after the last word used"); same(e, qbuf, K); VIn b(2, 0, 8192); E f(used<E>()); f.seed(b, l); same(f, qbuf, K); }
template<class E> struct SeedT { typedef typename std::conditional<std::is_integral<typename E::result_type>::value, typename E::result_type, u32>::type type; };
#define ONE(id, T, K) SCEN(S21_##id##_dflt) { s_dflt<T>(K); } SCEN(S21_##id##_seq) { s_seq<T>(K); } SCEN(S21_##id##_any) { s_any<T, SeedT<T>::type>(K); } \
  SCEN(S21_##id##_v0) { s_val<T, SeedT<T>::type>(0, K); } SCEN(S21_##id##_v1) { s_val<T, SeedT<T>::type>(1, K); } SCEN(S21_##id##_v2) { s_val<T, SeedT<T>::type>(12345, K); } SCEN(S21_##id##_v3) { s_val<T, SeedT<T>::type>((SeedT<T>::type)0xffffffffu, K); } SCEN(S21_##id##_v4) { s_val<T, SeedT<T>::type>((SeedT<T>::type)2147483647u, K); } SCEN(S21_##id##_v5) { s_val<T, SeedT<T>::type>((SeedT<T>::type)2147483563u, K); }
#define ALL(id, T, K) ONE(id, T, K) SCEN(S21_##id##_itr) { s_itr<T>(K); }
#define D1(id, T) ALL(id, T, 3)
#define D3(id, T) ALL(id, T, 28)
#ifdef UNIT_LCG
G_LCG(D1)
#endif
#ifdef UNIT_LCGX
typedef br::linear_congruential_engine<u32, 1u, 7u, 0u> l_a1; typedef br::linear_congruential_engine<u32, 5u, 1u, 6u> l_m6; typedef br::linear_congruential_engine<u64, 3512401965023503517ull, 0, 9223372036854775807ull> l_63; typedef br::linear_congruential_engine<u64, 437799614237992725ull, 3, 2305843009213693951ull> l_61;
typedef br::linear_congruential_engine<u64, 25214903917ull, 11u, 281474976710656ull> l_48; typedef br::linear_congruential_engine<u32, 4294967290u, 4294967289u, 4294967291u> l_top; typedef br::linear_congruential_engine<u64, 5u, 3u, 4294967296ull> l_32; typedef br::linear_congruential_engine<u64, 5u, 0u, 4294967311ull> l_33;
D1(a1, l_a1) D1(m6, l_m6) D1(p63, l_63) D1(p61, l_61) D1(p48, l_48) D1(top, l_top) D1(p32, l_32) D1(p33, l_33)
// signed results: negative values are taken modulo m
typedef br::linear_congruential_engine<int, 16807, 0, 2147483647> l_int; typedef br::linear_congruential_engine<int, 48271, 11, 2147483399> l_intc; typedef br::linear_congruential_engine<long long, 16807, 0, 2147483647ll> l_ll;
#define SG(id, T) SCEN(S21_##id##_dflt) { s_dflt<T>(3); } SCEN(S21_##id##_any) { s_any<T, T::result_type>(3); } SCEN(S21_##id##_neg) { const T::result_type vs[] = { 0, -1, -2147483647, -2147483646, 2147483647, 2147483399, -2147483399, 5 }; for (auto v : vs) s_val<T, T::result_type>(v, 3); }
SG(int, l_int) SG(intc, l_intc) SG(ll, l_ll)
#endif
#define NZ(id, T, K) SCEN(S21_##id##_nzseq) { nonzero = true; s_seq<T>(K); } SCEN(S21_##id##_nzany) { nonzero = true; s_any<T, T::result_type>(K); }
#ifdef UNIT_MT
NZ(mtsmall, mtsmall, 12)
ALL(mtsmall, mtsmall, 12)
#endif
#ifdef UNIT_MTX
ALL(mt19937, br::mt19937, 640) NZ(mt19937, br::mt19937, 8)
typedef br::mersenne_twister_engine<u32, 31, 5, 3, 7, 0x5908b0dfu, 11, 0x7fffffffu, 7, 0x1d2c5680u, 15, 0x6fc60000u, 18, 1812433253u> mtodd; typedef br::mersenne_twister_engine<u64, 48, 4, 1, 17, 0xb5026f5aa966ull, 19, 0x5555555555ull, 13, 0x71d67fffeda6ull, 27, 0xfff7eee00000ull, 33, 6364136223846793005ull> mt48;
typedef br::mersenne_twister_engine<u32, 32, 3, 2, 1, 0x80000001u, 5, 0xfffffffeu, 3, 0x7fffffffu, 9, 0xf0f0f0f0u, 13, 69069u> mt3;
ALL(mtodd, mtodd, 12) ALL(mt48, mt48, 12) ALL(mt3, mt3, 12) NZ(mtodd, mtodd, 12) NZ(mt48, mt48, 12) NZ(mt3, mt3, 12)
// a sequence of zero words (or words that are zero in every bit the state uses) must not leave the all-zero state
template<class E> void zero(u32 w0, int K) { begin<E>(); u32 w[2600]; for (int i = 0; i < 2600; ++i) w[i] = 0; w[0] = w0; struct ZS { u32 w0; typedef u32 result_type; void generate(u32* a, u32* b) { u32* f = a; for (; a != b; ++a) *a = 0; *f = w0; } } z = { w0 }; E e(z); E f(z); u32* p = w; u32* l = w + 2600; E g(p, l); u64 or_ = 0; for (int i = 0; i < K; ++i) { u64 v = e(); or_ |= v; va_check(v == (u64)g(), "seeding from zero words gives the same state by sequence and by range"); } va_check(or_ != 0, "an all-zero state is never left by seeding"); }
template<class E, u64 w, u64 n> void zeros(u32 w0, int K) { zero<E>(w0, K); static u64 q[n]; for (u64 i = 0; i < n; ++i) q[i] = 0; q[0] = 1ull << (w - 1); CSeq s(0); E e(s); if (w0 == 0) same(e, q, K); }
SCEN(S21_zero_mt19937) { zeros<br::mt19937, 32, 624>(0, 630); } SCEN(S21_zero_mt19937_low) { zeros<br::mt19937, 32, 624>(0x7fffffff, 630); } SCEN(S21_zero_small) { zeros<mtsmall, 32, 4>(0, 9); } SCEN(S21_zero_odd) { zeros<mtodd, 31, 5>(0, 9); } SCEN(S21_zero_odd_low) { zeros<mtodd, 31, 5>(0x7f, 9); } SCEN(S21_zero_odd_top) { zeros<mtodd, 31, 5>(0x80000000u, 9); } SCEN(S21_zero_48) { zeros<mt48, 48, 4>(0, 9); } SCEN(S21_zero_3) { zeros<mt3, 32, 3>(1, 9); }
#endif
#ifdef UNIT_MTB
ALL(mt11213b, br::mt11213b, 360) ALL(mt19937_64, br::mt19937_64, 320)
#endif
#ifdef UNIT_SWC
G_SWC(D3)
#endif
#ifdef UNIT_LF
G_LF(D3)
typedef br::lagged_fibonacci_engine<u64, 64, 9, 4> lf64; typedef br::lagged_fibonacci_engine<u32, 31, 6, 5> lf31; typedef br::lagged_fibonacci_01_engine<double, 32, 5, 2> lf01w; typedef br::subtract_with_carry_01_engine<double, 32, 3, 8> swc01w; D3(lf64, lf64) D3(lf31, lf31) D3(lf01w, lf01w) D3(swc01w, swc01w)
#endif
#ifdef UNIT_LFB
ALL(lf607, br::lagged_fibonacci607, 612) ALL(lf1279, br::lagged_fibonacci1279, 1280)
#endif
#ifdef UNIT_RLX
#define D5(id, T) ALL(id, T, 30)
D5(ranlux24, br::ranlux24) D5(ranlux48, br::ranlux48) D5(ranlux3, br::ranlux3) D5(ranlux64_4, br::ranlux64_4) D5(ranlux4_01, br::ranlux4_01) D5(ranlux24b, br::ranlux24_base) D5(ranlux48b, br::ranlux48_base) D5(ranlux64_3_01, br::ranlux64_3_01)
#endif
#ifdef UNIT_CMB
D1(taus88, br::taus88) D1(ecuyer1988, br::ecuyer1988) D1(xc1, xc1) D1(ac1, ac1) D1(lfs1, lfs1) D1(lfs2, lfs2) ONE(splitmix64, br::splitmix64, 3)
typedef br::linear_feedback_shift_engine<u32, 31, 29, 2, 8> lfs3; typedef br::linear_feedback_shift_engine<u64, 40, 39, 7, 32> lfs4; D1(lfs3, lfs3) D1(lfs4, lfs4)
SCEN(S21_ac_two) { typedef ac1 E; begin<E>(); u32 a = (u32)va_sym_u(5, 0, 32, 0, 0xffffffffull), b = (u32)va_sym_u(5, 1, 32, 0, 0xffffffffull); Out q = { qbuf }; Init<br::minstd_rand0>::value(q, a); Init<br::minstd_rand>::value(q, b); E e(a, b); same(e, qbuf, 3); E f(used<E>()); f.seed(a, b); same(f, qbuf, 3); br::minstd_rand0 x(a); br::minstd_rand y(b); va_check(e == f, "two-seed construction and seeding agree"); }
SCEN(S21_xc_bases) { typedef xc1 E; begin<E>(); u32 a = (u32)va_sym_u(5, 0, 32, 0, 0xffffffffull), b = (u32)va_sym_u(5, 1, 32, 0, 0xffffffffull); Out q = { qbuf }; Init<lcg32>::value(q, a); Init<br::minstd_rand0>::value(q, b); lcg32 A(a); br::minstd_rand0 B(b); E e(A, B); va_check(e.base1() == A && e.base2() == B, "bases are those given"); same(e, qbuf, 3); }
#endif
#ifdef UNIT_SHO
#define D4(id, T) ALL(id, T, 12)
G_SHO(D4)
#endif
#ifdef UNIT_INV
typedef br::inversive_congruential_engine<int, 22, 102, 103> invi; typedef br::inversive_congruential_engine<u64, 7, 0, 4294967311ull> invw;
template<class E> void isame(E& e, u64 x, u64 a, u64 b, u64 p, bool zero_to_one) { if (zero_to_one && x == 0) x = 1; for (int i = 0; i < 3; ++i) { u64 y = 0; if (x) for (y = 1; (unsigned __int128)y * x % p != 1; ++y) {} x = (u64)(((unsigned __int128)a * y + b) % p); va_check((u64)e() == x, "a seeded engine starts from the state its seeding formula gives"); } }
SCEN(S21_invs) { va_values_only(); for (u32 v = 0; v < 70; v += 3) { invs e(v); isame(e, v % 31, 7, 3, 31, false); invs g(9u); g(); g.seed(v); isame(g, v % 31, 7, 3, 31, false); CSeq s(v * 65537u + 7); invs h(s); isame(h, (v * 65537u + 7) % 31, 7, 3, 31, false); u32 w[2] = { v * 99991u, 5 }; const u32* p = w; const u32* l = w + 2; invs k(p, l); va_check(p == w + 1, "one word is used"); isame(k, (v * 99991u) % 31, 7, 3, 31, false); } invs d; isame(d, 1, 7, 3, 31, false); d.seed(); isame(d, 1, 7, 3, 31, false); }
SCEN(S21_invi) { va_values_only(); for (int v = -210; v < 210; v += 7) { invi e(v); isame(e, (u64)(((v % 103) + 103) % 103), 22, 102, 103, false); } }
SCEN(S21_hell) { va_values_only(); br::hellekalek1995 a, b(1u), c(2147483648u), d(0u), f(2147483647u); a.seed(); va_check(a == b && b == c, "a seed is taken modulo the modulus, the default is one"); va_check(d == f && !(d == a), "zero is a valid seed of a congruence with an increment"); }
SCEN(S21_inv0) { va_values_only(); typedef br::inversive_congruential_engine<u32, 5, 0, 13> E; E a(0u), b(1u), c(13u), d; va_check(a == b && c == b && d == b, "without increment, zero is replaced by one"); }
#endif
#ifdef UNIT_IB
ALL(ib17, ib17, 3) ALL(ib64, ib64, 3) ALL(ib48, ib48, 1)
#endif
#ifdef UNIT_MIX
// MIXMAX: the unit vector moved by the published skip polynomials, one for each bit of the four identifiers
static const u64 skips[128][17] =
#include <boost/random/detail/mixmax_skip_N17.ipp>
;
static const u64 MM = (1ull << 61) - 1;
inline u64 mm_mul(u64 a, u64 b) { return (u64)((unsigned __int128)a * b % MM); }
inline void mm_step(u64* v) { u64 sum = 0; for (int i = 0; i < 17; ++i) sum = (sum + v[i]) % MM; u64 part = 0, cur = sum; v[0] = sum; for (int i = 1; i < 17; ++i) { u64 rot = mm_mul(part, 1ull << 36); cur = (cur + rot) % MM; part = (part + v[i]) % MM; cur = (cur + part) % MM; v[i] = cur; } }
inline void mm_start(u64* v, const u32* id) { for (int i = 0; i < 17; ++i) v[i] = i == 0; for (int w = 0; w < 4; ++w) for (int b = 0; b < 32; ++b) if (id[w] >> b & 1) { u64 c[17]; for (int i = 0; i < 17; ++i) c[i] = 0; for (int j = 0; j < 17; ++j) { for (int i = 0; i < 17; ++i) c[i] = (c[i] + mm_mul(skips[w * 32 + b][j] % MM, v[i])) % MM; mm_step(v); } for (int i = 0; i < 17; ++i) v[i] = c[i]; } }
inline void mm_same(mixmax17& e, u32 stream, u32 run, u32 machine, u32 cluster) { u32 id[4] = { stream, run, machine, cluster }; u64 v[17]; mm_start(v, id); for (int r = 0; r < 2; ++r) { for (int i = 1; i < 17; ++i) va_check(e() % MM == v[i], "MIXMAX starts from the unit vector moved by the skips of its identifiers"); mm_step(v); } }
struct WSeq { const u32* w; typedef u32 result_type; template<class It> void generate(It a, It b) { const u32* p = w; for (; a != b; ++a) *a = *p++; } };
inline void mm_all(u32 a, u32 b, u32 c, u32 d) { va_values_only(); u32 w[6] = { a, b, c, d, 99, 98 }; mixmax17 e(a, b, c, d); mm_same(e, d, c, b, a); WSeq s = { w }; mixmax17 f(s); mm_same(f, d, c, b, a); f(); s.w = w; f.seed(s); mm_same(f, d, c, b, a); const u32* p = w; const u32* l = w + 6; mixmax17 g(p, l); va_check(p == w + 4, "four words are used"); mm_same(g, d, c, b, a); p = w; g.seed(p, l); mm_same(g, d, c, b, a); u64 v = (u64)c << 32 | d; mixmax17 h(v); mm_same(h, d, c, 0, 0); h.seed(v); mm_same(h, d, c, 0, 0); }
SCEN(S21_mixmax_dflt) { va_values_only(); mixmax17 e; mm_same(e, 1, 0, 0, 0); e.seed(); mm_same(e, 1, 0, 0, 0); }
SCEN(S21_mixmax_a) { mm_all(0, 0, 0, 1); } SCEN(S21_mixmax_b) { mm_all(1, 2, 4, 8); } SCEN(S21_mixmax_c) { mm_all(0x80000000u, 0x40000000u, 0x80000001u, 0x80000000u); } SCEN(S21_mixmax_d) { mm_all(3, 0, 0xffffu, 0x80000001u); }
#define MB(b) SCEN(S21_mixmax_bit_##b) { va_values_only(); u32 x = 1u << b; mixmax17 e(x, 0, 0, 0); mm_same(e, 0, 0, 0, x); mixmax17 f(0, x, 0, 0); mm_same(f, 0, 0, x, 0); mixmax17 g(0, 0, x, 0); mm_same(g, 0, x, 0, 0); mixmax17 h(0, 0, 0, x); mm_same(h, x, 0, 0, 0); }
MB(0) MB(1) MB(2) MB(3) MB(4) MB(5) MB(6) MB(7) MB(8) MB(9) MB(10) MB(11) MB(12) MB(13) MB(14) MB(15) MB(16) MB(17) MB(18) MB(19) MB(20) MB(21) MB(22) MB(23) MB(24) MB(25) MB(26) MB(27) MB(28) MB(29) MB(30) MB(31)
#endif
#if defined UNIT_SEQ || defined UNIT_SEQ64 || defined UNIT_SEQN
template<class T> void seqgen(u64 n, u64 s, const u32* v, T* b) { const T M = 0xffffffffu; for (u64 i = 0; i < n; ++i) b[i] = 0x8b8b8b8bu; if (n == 0) return; u64 t = n >= 623 ? 11 : n >= 68 ? 7 : n >= 39 ? 5 : n >= 7 ? 3 : (n - 1) / 2, p = (n - t) / 2, q = p + t, m = s + 1 > n ? s + 1 : n; struct T_ { static T f(T x) { return x ^ (x >> 27); } };
  for (u64 k = 0; k < m; ++k) { T r1 = (T_::f(b[k % n] ^ b[(k + p) % n] ^ b[(k + n - 1) % n]) * 1664525u) & M; T r2 = (T)(r1 + (k == 0 ? s : k <= s ? k % n + v[k - 1] : k % n)) & M; b[(k + p) % n] = (b[(k + p) % n] + r1) & M; b[(k + q) % n] = (b[(k + q) % n] + r2) & M; b[k % n] = r2; }
  for (u64 k = m; k < m + n; ++k) { T r3 = (T_::f((b[k % n] + b[(k + p) % n] + b[(k + n - 1) % n]) & M) * 1566083941u) & M; T r4 = (T)(r3 - k % n) & M; b[(k + p) % n] ^= r3; b[(k + q) % n] ^= r4; b[k % n] = r4; } }
template<class O, bool Const> void sq(u64 n, u64 s) { va_values_only(); u32 v[40]; O b[640]; for (u64 i = 0; i < s; ++i) v[i] = Const ? (u32)(0x9e3779b9u * (i + 1) ^ (i << 31)) : (u32)va_sym_u(2, i, 32, 0, 0xffffffffull); seqgen(n, s, v, b); br::seed_seq q(v, v + s); O o[642]; o[n] = (O)0x1234567; q.generate(o, o + n); for (u64 i = 0; i < n; ++i) va_check((u64)o[i] == (u64)b[i], "seed_seq generates the words its definition gives"); va_check((u64)o[n] == 0x1234567, "seed_seq writes nothing past the range"); va_check(q.size() == s, "a seed_seq has the size it was given"); u32 w[41]; q.param(w); for (u64 i = 0; i < s; ++i) va_check(w[i] == v[i], "a seed_seq reports the words it was given"); const br::seed_seq& c = q; O o2[642]; c.generate(o2, o2 + n); for (u64 i = 0; i < n; ++i) va_check(o[i] == o2[i], "generate does not change a seed_seq"); }
#define Q(O, nm, n, s) SCEN(S21_seq_##nm##_##n##_##s) { sq<O, false>(n, s); }
#define QS(O, nm, n) Q(O, nm, n, 0) Q(O, nm, n, 1) Q(O, nm, n, 2) Q(O, nm, n, 5)
#define QC(O, nm, n, s) SCEN(S21_seqc_##nm##_##n##_##s) { sq<O, true>(n, s); }
#endif
#ifdef UNIT_SEQ
QS(u32, u32, 0) QS(u32, u32, 1) QS(u32, u32, 2) QS(u32, u32, 3) QS(u32, u32, 4) QS(u32, u32, 5) QS(u32, u32, 6) QS(u32, u32, 7) Q(u32, u32, 8, 20) Q(u32, u32, 3, 12)
SCEN(S21_seq_ctor) { va_values_only(); u32 a[3]; for (int i = 0; i < 3; ++i) a[i] = (u32)va_sym_u(2, i, 32, 0, 0xffffffffull); br::seed_seq e, l({ a[0], a[1], a[2] }), r(std::vector<u32>(a, a + 3)), it(a, a + 3), wide(std::vector<u64>{ 0x100000000ull | a[0], a[1], a[2] }); u32 x[8], y[8], z[8], t[8]; l.generate(x, x + 8); r.generate(y, y + 8); it.generate(z, z + 8); wide.generate(t, t + 8); for (int i = 0; i < 8; ++i) va_check(x[i] == y[i] && x[i] == z[i] && x[i] == t[i], "every construction of a seed_seq from the same words gives the same sequence"); va_check(e.size() == 0 && l.size() == 3 && r.size() == 3 && it.size() == 3, "a seed_seq has the size it was given"); }
#endif
#ifdef UNIT_SEQ64
QS(u64, u64, 0) QS(u64, u64, 1) QS(u64, u64, 2) QS(u64, u64, 3) QS(u64, u64, 5) QS(u64, u64, 7) Q(u64, u64, 3, 12) QC(u64, u64, 20, 4) QC(u64, u64, 70, 4)
#endif
#ifdef UNIT_SEQN
QC(u32, u32, 20, 7) QC(u32, u32, 38, 3) QC(u32, u32, 39, 3) QC(u32, u32, 67, 3) QC(u32, u32, 68, 3) QC(u32, u32, 70, 30) QC(u32, u32, 622, 2) QC(u32, u32, 623, 5) QC(u32, u32, 624, 0) QC(u32, u32, 630, 40) QC(u32, u32, 8, 9) QC(u32, u32, 9, 8)
#endif
