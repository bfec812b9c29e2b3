// S05: discard(z) leaves an engine exactly where z draws would, from every reachable position.
//UNITS: LCG LCGX MT MTB SWC LF RLX CMB SHO INV IB MIX POLY POLY2 POLY3 POLY4 POLY5
#if defined(UNIT_POLY) || defined(UNIT_POLY2) || defined(UNIT_POLY3) || defined(UNIT_POLY4)
// the jump by polynomial arithmetic at any distance, not only beyond ten million values
#define BOOST_RANDOM_MERSENNE_TWISTER_DISCARD_THRESHOLD 0
#define BOOST_RANDOM_MERSENNE_TWISTER_DISCARD_THRESHOLD_IS_LOW
#endif
#include "engines.hpp"
typedef unsigned char u8; typedef unsigned short u16;
template<class E> void disc(u64 d, u64 z) {
  va_bound(Lim<E>::v);
  E a(Mk<E>::template go<2>()); E b(a);
  for (u64 i = 0; i < d; ++i) { a(); b(); }
  a.discard(z);
  for (u64 i = 0; i < z; ++i) b();
  va_check(a == b, "discard(z) yields the state reached by z draws (states compare equal)");
  for (int i = 0; i < 3; ++i) va_check(a() == b(), "discard(z) is followed by the same outputs as z draws");
}
#define D1(id, T, d, z) SCEN(S05_##id##_##d##_##z) { disc<T>(d, z); }
#define DS(id, T) D1(id,T,0,0) D1(id,T,0,1) D1(id,T,1,1) D1(id,T,1,2) D1(id,T,2,3) D1(id,T,3,5) D1(id,T,0,7) D1(id,T,5,8) D1(id,T,7,7) D1(id,T,4,16) D1(id,T,0,25) D1(id,T,9,14)
#define DL(id, T) D1(id,T,0,1) D1(id,T,1,1) D1(id,T,3,30)
#define DM(id, T) D1(id,T,0,1) D1(id,T,1,1) D1(id,T,0,623) D1(id,T,0,624) D1(id,T,1,623) D1(id,T,623,1) D1(id,T,623,2) D1(id,T,1,700) D1(id,T,5,1300)
#define DB(id, T) D1(id,T,0,1) D1(id,T,1,1) D1(id,T,0,312) D1(id,T,5,351) D1(id,T,1,400)
#define DR(id, T) D1(id,T,0,1) D1(id,T,1,1) D1(id,T,22,3) D1(id,T,10,40) D1(id,T,3,230)
#ifdef UNIT_LCG
G_LCG(DS)
#endif
#ifdef UNIT_LCGX
// every state of small engines, including multipliers that share factors with the modulus: the transition applied z times by repeated composition of its table
template<class I, I a, I c, I m> void small() { typedef br::linear_congruential_engine<I, a, c, m> E; const u64 M = (u64)m; const u64 zs[] = { 0, 1, 2, 3, 4, 5, 6, 7, 12, 13, 31, 32, 33, 100, 255, 1000003, 0xffffffffull, 0x100000000ull, 0x8000000000000000ull, ~0ull };
  for (u64 z : zs) { unsigned char r[64], f[64], g[64]; for (u64 i = 0; i < M; ++i) { r[i] = (unsigned char)i; f[i] = (unsigned char)(((u64)a * i + (u64)c) % M); } for (u64 n = z; n; n >>= 1) { if (n & 1) for (u64 i = 0; i < M; ++i) r[i] = f[r[i]]; for (u64 i = 0; i < M; ++i) g[i] = f[f[i]]; for (u64 i = 0; i < M; ++i) f[i] = g[i]; }
    for (u64 x = c == 0 ? 1 : 0; x < M; ++x) { E e((I)x); e.discard(z); u64 y = r[x]; for (int i = 0; i < 2; ++i) { y = ((u64)a * y + (u64)c) % M; va_check((u64)e() == y, "discard(z) is followed by the same outputs as z draws"); } } } }
#define SM(id, I, a, c, m) SCEN(S05_small_##id) { small<I, a, c, m>(); }
SM(a, unsigned, 5, 1, 6) SM(b, unsigned, 0, 5, 13) SM(c, unsigned, 1, 1, 6) SM(d, unsigned, 3, 1, 8) SM(e, unsigned, 4, 2, 9) SM(f, unsigned, 1, 0, 7) SM(g, int, 22, 5, 33) SM(h, int, 6, 0, 13) SM(i, unsigned char, 7, 3, 31) SM(j, u64, 15, 7, 35) SM(k, unsigned short, 9, 3, 16) SM(l, int, 2, 1, 12) SM(m, unsigned, 0, 0, 5) SM(n, short, 11, 10, 25)
typedef br::linear_congruential_engine<u32, 1u, 7u, 0u> l_a1; typedef br::linear_congruential_engine<u32, 0u, 9u, 0u> l_a0; typedef br::linear_congruential_engine<u64, 1ull, 3ull, 0ull> l_b1; typedef br::linear_congruential_engine<u32, 12u, 3u, 0u> l_ev; typedef br::linear_congruential_engine<u64, 25214903917ull, 11ull, 281474976710656ull> l_48;
DS(a1, l_a1) DS(a0, l_a0) DS(b1, l_b1) DS(ev, l_ev) DS(p48, l_48)
#endif
#ifdef UNIT_MT
D1(mt19937,br::mt19937,0,1) D1(mt19937,br::mt19937,1,1) D1(mt19937,br::mt19937,0,623) D1(mt19937,br::mt19937,0,624) D1(mt19937,br::mt19937,1,623) D1(mt19937,br::mt19937,623,2) D1(mt19937,br::mt19937,5,1300)
DS(mtsmall, mtsmall)
#endif
#ifdef UNIT_MTB
G_MTB(DB)
#endif
#ifdef UNIT_SWC
G_SWC(DS)
#endif
#ifdef UNIT_LF
G_LF(DS)
#endif
#ifdef UNIT_RLX
G_RLX(DR)
#endif
#ifdef UNIT_CMB
G_CMB(DS)
#endif
#ifdef UNIT_SHO
G_SHO(DS)
#endif
#ifdef UNIT_INV
// the inverse is found by a value dependent Euclid loop: every state of the 31 element field, by constant propagation
SCEN(S05_invs) { for (u32 v = 0; v < 31; ++v) for (u64 z = 0; z < 34; z += 3) { invs a(v), b(v); a.discard(z); for (u64 i = 0; i < z; ++i) b(); va_check(a == b, "discard(z) yields the state reached by z draws (states compare equal)"); for (int i = 0; i < 3; ++i) va_check(a() == b(), "discard(z) is followed by the same outputs as z draws"); } }
#endif
#ifdef UNIT_IB
G_IB(DS)
#endif
#ifdef UNIT_MIX
G_MIX(DS)
#endif

#ifdef BOOST_RANDOM_MERSENNE_TWISTER_DISCARD_THRESHOLD_IS_LOW
// Every operation of the jump is linear over GF(2) in the state, so that it is right for every state if it is right on a basis of the states.
// No call: the state after z steps is taken from z single steps.
static const char* const JB = "a jump by polynomial arithmetic reaches the state that single steps reach, on a basis of the states";
template<class E> void jump(int first, int last, u64 z, int drawn) { va_bound(4000);
  const unsigned w = E::word_size, n = E::state_size, q = (w + 31) / 32; for (int b = first; b < last; ++b) { u32 seed[64]; for (unsigned i = 0; i < n * q; ++i) seed[i] = 0; const unsigned pos = b + E::mask_bits; seed[pos / w * q + pos % w / 32] = 1u << (pos % w % 32); u32* f = seed; E a(f, seed + n * q); for (int i = 0; i < drawn; ++i) a(); E c(a); a.discard(z); for (u64 i = 0; i < z; ++i) c(); va_check(a == c, JB); va_check(a() == c(), JB); } }
#define MTP(id, U, w, n, m, r, a) typedef br::mersenne_twister_engine<U, w, n, m, r, (U)a, 11, (U)~(U)0, 7, (U)0x9d2c5680, 5, (U)0xefc60000, w / 2 + 1, (U)1812433253> id;
#define J(id, lo, hi, z, d) SCEN(S05_jump_##id##_##lo##_##z##_##d) { jump<id>(lo, hi, z, d); }
MTP(p8, u8, 8, 5, 2, 3, 0x96) MTP(p15, u16, 15, 4, 2, 9, 0x7906) MTP(p4, u32, 32, 4, 2, 31, 0x9908b0df) MTP(q32, u64, 32, 4, 2, 31, 0x9908b0df) MTP(p6, u32, 32, 6, 3, 29, 0x9908b0df) MTP(q48, u64, 48, 3, 2, 31, 0xB5026F5AA966) MTP(q64, u64, 64, 3, 2, 31, 0xB5026F5AA96619E9ull)
#ifdef UNIT_POLY
J(p8, 0, 37, 1, 0) J(p8, 0, 37, 38, 0) J(p8, 0, 37, 1000, 3)
#endif
#ifdef UNIT_POLY2
J(p15, 0, 51, 5, 1) J(p15, 40, 51, 52, 0) J(p15, 0, 10, 53, 2) J(p15, 10, 20, 200, 4) J(p4, 90, 97, 1, 0)
#endif
#ifdef UNIT_POLY3
J(p4, 0, 8, 97, 1) J(p4, 28, 36, 98, 4) J(p4, 60, 68, 99, 2) J(q32, 0, 8, 500, 0) J(q32, 89, 97, 300, 3) J(q48, 0, 5, 300, 2) J(q48, 108, 113, 113, 1)
#endif
#ifdef UNIT_POLY4
J(p6, 0, 4, 163, 0) J(p6, 80, 83, 164, 5) J(p6, 160, 163, 1000, 2) J(q64, 0, 3, 161, 0) J(q64, 158, 161, 700, 3)
#endif
#endif

#ifdef UNIT_POLY5
#include <boost/random/detail/polynomial.hpp>
// the product behind the jump, for operands of every shape of split: one factor is a single word power, the other is free
static const char* const PM = "the polynomial product of a jump is the product";
// S: every word of the right factor is free (the left one is then never exchanged with it); otherwise its words are independent bit patterns, all positions in ceil(R/64) rounds
template<int L, int R, bool S> void prod(int step) { va_bound(20000); typedef br::detail::polynomial_ops::digit_t W; for (int h = 0; h < (S ? 1 : (R + 63) / 64); ++h) { W r[R]; for (int k = 0; k < R; ++k) r[k] = S ? (W)va_sym_u(9, k, 64, 0, ~0ull) : k / 64 == h ? (W)1 << (k % 64) : 0;
  for (int i = 0; i < L; i += (i + step < L || i == L - 1) ? step : L - 1 - i) { W l[L], o[L + R]; for (int k = 0; k < L; ++k) l[k] = k == i; br::detail::polynomial_ops::multiply(l, L, r, R, o); bool ok = true; for (int k = 0; k < L + R; ++k) { const W w = k >= i && k < i + R ? r[k - i] : 0; ok = ok & (o[k] == w); } va_check(ok, PM); } } }
#define PR(l, r, s) SCEN(S05_prod_##l##_##r) { prod<l, r, l % r == 0>(s); }
PR(1, 1, 1) PR(2, 1, 1) PR(3, 2, 1) PR(5, 5, 1) PR(6, 2, 1) PR(7, 12, 1) PR(63, 63, 7) PR(64, 64, 7) PR(65, 65, 8) PR(66, 66, 9) PR(67, 67, 6) PR(97, 97, 13) PR(129, 129, 16) PR(131, 131, 26) PR(70, 130, 23) PR(130, 67, 43) PR(128, 64, 9) PR(66, 195, 13)
#endif
