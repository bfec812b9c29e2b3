// S22: every engine computes the sequence its published definition gives.  Each reference below is written from
// the definition alone (ISO C++ [rand.eng], [rand.adapt], or the paper named) over the same free state fields.
//UNITS: LCG LCGX MT MTB SWC LF RLX CMB SHO INV IB MIX ADP MUL
#include "refs.hpp"
template<class E> void run(u64 d, int K, int lim = 0) { va_bound(lim ? lim : Lim<E>::v); va_values_only(); Rd r(2); Ref<E> ref(r, d); E e(Tk<E>::template go<2>(d)); for (int i = 0; i < K; ++i) { auto a = e(); auto b = ref.next(); va_check(eqv(a, b), "an engine produces the value its published recurrence gives"); } }
template<class E> void direct(int K) { va_bound(3); va_values_only(); Rd r(2); Ref<E> ref(r, 0); E e; for (int i = 0; i < K; ++i) { auto a = e(); auto b = ref.next(); va_check(eqv(a, b), "an engine adaptor produces the value its definition gives for the values of its base engine"); } }
#define X(id, T, d, K) SCEN(S22_##id##_##d) { run<T>(d, K); }
#define D1(id, T) X(id, T, 0, 6)
#define D3(id, T) X(id, T, 0, 30) X(id, T, 2, 30) X(id, T, 5, 30)
#ifdef UNIT_LCG
G_LCG(D1)
#endif
#ifdef UNIT_LCGX
typedef br::linear_congruential_engine<u32, 1u, 7u, 0u> l_a1; typedef br::linear_congruential_engine<u32, 5u, 1u, 6u> l_m6; typedef br::linear_congruential_engine<int, 16807, 0, 2147483647> l_int; typedef br::linear_congruential_engine<int, 48271, 11, 2147483399> l_intc;
typedef br::linear_congruential_engine<unsigned short, 4093u, 57u, 8192u> l_us; typedef br::linear_congruential_engine<u64, 3512401965023503517ull, 0, 9223372036854775807ull> l_63; typedef br::linear_congruential_engine<u64, 437799614237992725ull, 3, 2305843009213693951ull> l_61; typedef br::linear_congruential_engine<u32, 0u, 5u, 13u> l_a0;
typedef br::linear_congruential_engine<u64, 25214903917ull, 11u, 281474976710656ull> l_48; typedef br::linear_congruential_engine<u32, 4294967290u, 4294967289u, 4294967291u> l_top; typedef br::linear_congruential_engine<unsigned char, 141u, 3u, 256u - 5u> l_uc;
D1(a1, l_a1) D1(m6, l_m6) D1(int, l_int) D1(intc, l_intc) D1(us, l_us) D1(p63, l_63) D1(p61, l_61) D1(a0, l_a0) D1(p48, l_48) D1(top, l_top)
#endif
#ifdef UNIT_MT
X(mt19937, br::mt19937, 0, 1300) X(mtsmall, mtsmall, 0, 30)
typedef br::mersenne_twister_engine<u32, 31, 5, 3, 7, 0x5908b0dfu, 11, 0x7fffffffu, 7, 0x1d2c5680u, 15, 0x6fc60000u, 18, 1812433253u> mtodd; typedef br::mersenne_twister_engine<u64, 48, 4, 1, 17, 0xb5026f5aa966ull, 19, 0x5555555555ull, 13, 0x71d67fffeda6ull, 27, 0xfff7eee00000ull, 33, 6364136223846793005ull> mt48;
typedef br::mersenne_twister_engine<u32, 32, 3, 2, 1, 0x80000001u, 5, 0xfffffffeu, 3, 0x7fffffffu, 9, 0xf0f0f0f0u, 13, 69069u> mt3;
X(mtodd, mtodd, 0, 30) X(mt48, mt48, 0, 30) X(mt3, mt3, 0, 30)
#endif
#ifdef UNIT_MTB
X(mt11213b, br::mt11213b, 0, 720) X(mt19937_64, br::mt19937_64, 0, 640)
#endif
#ifdef UNIT_SWC
G_SWC(D3)
#endif
#ifdef UNIT_LF
G_LF(D3)
typedef br::lagged_fibonacci_engine<u64, 64, 9, 4> lf64; typedef br::lagged_fibonacci_engine<u32, 31, 6, 5> lf31; D3(lf64, lf64) D3(lf31, lf31)
#endif
#ifdef UNIT_RLX
X(ranlux24, br::ranlux24, 0, 50) X(ranlux48, br::ranlux48, 0, 24) X(ranlux3, br::ranlux3, 0, 50) X(ranlux64_4, br::ranlux64_4, 0, 50) X(ranlux4_01, br::ranlux4_01, 0, 26) X(lf607, br::lagged_fibonacci607, 0, 1300)
#endif
#ifdef UNIT_CMB
D1(taus88, br::taus88) D1(ecuyer1988, br::ecuyer1988) D1(xc1, xc1) D1(ac1, ac1) D1(lfs1, lfs1) D1(lfs2, lfs2) D1(splitmix64, br::splitmix64)
typedef br::linear_feedback_shift_engine<u32, 31, 29, 2, 8> lfs3; typedef br::linear_feedback_shift_engine<u64, 40, 39, 7, 32> lfs4; typedef br::linear_feedback_shift_engine<u32, 16, 15, 3, 1> lfs5; D1(lfs3, lfs3) D1(lfs4, lfs4) D1(lfs5, lfs5)
#endif
#ifdef UNIT_SHO
G_SHO(D1) 
#endif
#ifdef UNIT_INV
template<class E, u64 a, u64 b, u64 p> void inv() { for (u64 x0 = 0; x0 < p; ++x0) { E e((typename E::result_type)x0); u64 x = x0 % p; if (b == 0 && x == 0) x = 1; for (int i = 0; i < 3; ++i) { u64 y = 0; if (x) for (y = 1; (unsigned __int128)y * x % p != 1; ++y) {} x = (u64)(((unsigned __int128)a * y + b) % p); va_check((u64)e() == x, "an inversive congruential engine produces a times the inverse, plus b"); } } }
typedef br::inversive_congruential_engine<u32, 5, 0, 13> inv0; typedef br::inversive_congruential_engine<int, 22, 102, 103> invi; typedef br::inversive_congruential_engine<unsigned char, 90, 12, 97> invc;
SCEN(S22_invs) { inv<invs, 7, 3, 31>(); } SCEN(S22_inv0) { inv<inv0, 5, 0, 13>(); } SCEN(S22_invi) { inv<invi, 22, 102, 103>(); } SCEN(S22_invc) { inv<invc, 90, 12, 97>(); }
inline u64 powm(u64 b, u64 e, u64 m) { u64 r = 1; for (; e; e >>= 1) { if (e & 1) r = r * b % m; b = b * b % m; } return r; }
SCEN(S22_hell) { const u64 P = 2147483647u, c[] = { 0, 1, 2, 331, 9102, 65535, 65536, 1073741823, 1073741824, 2147483646, 2147483645, 1234567890 }; for (u64 v : c) { br::hellekalek1995 e((u32)v); u64 x = v; for (int i = 0; i < 4; ++i) { u64 y = x ? powm(x, P - 2, P) : 0; x = (9102 * y + (P - 36884165)) % P; va_check((u64)e() == x, "an inversive congruential engine produces a times the inverse, plus b"); } } }
#endif
#ifdef UNIT_IB
X(ib17, ib17, 0, 3) X(ib64, ib64, 0, 3) X(ib48, ib48, 0, 1)
#endif
#ifdef UNIT_ADP
#define IB(id, R, lo, hi, w, U) SCEN(S22_ib_##id) { typedef VRng<R, lo, hi> G; direct<br::independent_bits_engine<G, w, U> >(1); }
IB(minstd48, u32, 1, 2147483646, 48, u64) IB(minstd31, u32, 1, 2147483646, 31, u32) IB(minstd30, u32, 1, 2147483646, 30, u32) IB(full24, u32, 0, 0xffffffff, 24, u32) IB(full32, u32, 0, 0xffffffff, 32, u32) IB(full64, u32, 0, 0xffffffff, 64, u64) IB(full33, u32, 0, 0xffffffff, 33, u64) IB(q64, u64, 0, ~0ull, 64, u64) IB(q1, u64, 0, ~0ull, 1, u32) IB(q63, u64, 0, ~0ull, 63, u64)
IB(small5, u32, 0, 5, 5, u32) IB(small9, u32, 3, 12, 8, u32) IB(odd, u32, 0, 4294967200u, 40, u64) IB(coin, u32, 0, 1, 7, u32) IB(p61, u64, 0, 2305843009213693951ull, 61, u64) IB(p61b, u64, 0, 2305843009213693950ull, 64, u64) IB(near, u32, 0, 0xfffffffe, 32, u32) IB(three, u32, 0, 2, 3, u32)
#define DB(id, p, r) SCEN(S22_db_##id) { typedef VRng<u32, 0, 0xffffffff> G; direct<br::discard_block_engine<G, p, r> >(20); }
DB(9_4, 9, 4) DB(5_5, 5, 5) DB(7_1, 7, 1) DB(1_1, 1, 1)
#define XC(id, R, w1, s1, w2, s2) SCEN(S22_xc_##id) { typedef VRng<R, 0, w1, 1> A; typedef VRng<R, 0, w2, 7> B; direct<br::xor_combine_engine<A, s1, B, s2> >(4); }
XC(a, u32, 0xffffffff, 0, 0xffffffff, 0) XC(b, u32, 0xffff, 16, 0xffffff, 3) XC(c, u64, ~0ull, 0, 0xffffffffull, 31) XC(d, u32, 0x7fffffff, 1, 0xff, 24)
#define SH(id, R, lo, hi, k) SCEN(S22_sho_##id) { typedef VRng<R, lo, hi> G; va_bound(3); va_values_only(); typedef br::shuffle_order_engine<G, k> E; E e; G r; R v[k]; for (u64 i = 0; i < k; ++i) v[i] = r(); R y = r(); for (int i = 0; i < 3; ++i) { u64 j = slot<R, lo, hi, k>(y); y = v[j]; v[j] = r(); va_check((u64)e() == y, "a shuffle_order engine returns the entry its previous value selects and refills it from the base engine"); } }
SH(min4, u32, 1, 2147483646, 4) SH(full8, u32, 0, 0xffffffff, 8) SH(full3, u32, 0, 0xffffffff, 3) SH(q5, u64, 0, ~0ull, 5) SH(q7, u64, 5, ~0ull - 3, 7) SH(q4, u64, 0, ~0ull, 4) SH(sm2, u32, 0, 9, 2) SH(one, u32, 0, 0xffffffff, 1)
#endif
#ifdef UNIT_MIX
// Savvidy: the MIXMAX matrix iteration on 17 words modulo 2^61-1 with multiplier 2^36+1, folding as published (61-bit words, 0 and 2^61-1 both stand for zero)
inline u64 fold(u64 k) { const u64 M = (1ull << 61) - 1; return (k & M) + (k >> 61); }
SCEN(S22_mixmax) { va_values_only(); const u64 M = (1ull << 61) - 1; u64 v[17], sum = 0; for (int i = 0; i < 17; ++i) { v[i] = va_sym_u(2, i, 64, 0, M); sum = fold(sum + v[i]); } mixmax17 e(Mk<mixmax17>::go<2>());
  for (int i = 1; i < 17; ++i) va_check(e() == v[i], "mixmax returns the words of its state in order");
  for (int b = 0; b < 2; ++b) { u64 part = 0, cur = sum; v[0] = sum; u64 tot = v[0], ov = 0; for (int i = 1; i < 17; ++i) { u64 rot = ((part << 36) & M) ^ (part >> 25); cur = fold(cur + rot); part = fold(part + v[i]); cur = fold(cur + part); v[i] = cur; tot += cur; if (tot < cur) ++ov; } sum = fold(fold(tot) + (ov << 3)); for (int i = 1; i < 17; ++i) va_check(e() == v[i], "mixmax produces the words its published matrix iteration gives"); } }
#endif
#ifdef UNIT_MUL
// products modulo wide moduli: operands of every arithmetic case (small, near the modulus, patterns that make a trial quotient digit too large)
#include <boost/random/detail/large_arithmetic.hpp>
SCEN(S22_muldiv) { const u64 c[] = { 1, 2, 0xffffffffull, 0x100000000ull, 0x100000001ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x8000000000000001ull, 0xffffffff00000000ull, 0xffffffff00000001ull, 0xfffffffffffffffeull, 0xffffffffffffffffull, 0x1fffffffffffffffull, 0xffffffff779db96full, 0xffffffffbe5c0cb7ull, 0xffffffffff0df62bull, 0xffffffff97edd7cdull, 0xffffffffffc3e19eull, 0xffffffffffffffe7ull, 0x80000000ffffffffull, 0x123456789abcdefull };
  for (u64 m : c) for (u64 a : c) for (u64 b : c) if (a < m && b < m) { unsigned __int128 p = (unsigned __int128)a * b; va_check(br::detail::mulmod(a, b, m) == (u64)(p % m), "mulmod gives the remainder of the product"); va_check(br::detail::muldiv(a, b, m) == (u64)(p / m), "muldiv gives the quotient of the product"); } }
template<class E, u64 a, u64 c, u64 m> void wide() { const u64 x0[] = { 0, 1, 2, 3, m - 1, m - 2, m / 2, m / 2 + 1, m / 3, 0xffffffffull, 0x100000000ull, 0x100000001ull, m - 0xffffffffull, m - 0x100000000ull, 0x123456789abcdefull, 0xfffffffe00000001ull % m, 0xffffffff00000000ull % m }; for (u64 v : x0) { if (v < 1 || v >= m) continue; E e(v); u64 x = v; for (int i = 0; i < 12; ++i) { x = (u64)(((unsigned __int128)a * x + c) % m); va_check((u64)e() == x, "an engine with a wide modulus produces the value its recurrence gives"); } E f(v); u64 y = v; for (int i = 0; i < 5; ++i) y = (u64)(((unsigned __int128)a * y + c) % m); f.discard(5); y = (u64)(((unsigned __int128)a * y + c) % m); va_check((u64)f() == y, "an engine with a wide modulus produces the value its recurrence gives"); } }
#define WD(id, a, c, m) SCEN(S22_wide_##id) { wide<br::linear_congruential_engine<u64, a, c, m>, a, c, m>(); }
WD(p63, 3512401965023503517ull, 0, 9223372036854775807ull) WD(p61, 437799614237992725ull, 3ull, 2305843009213693951ull) WD(p64, 18446744073709551533ull, 0, 18446744073709551557ull) WD(p64c, 18446744071000000007ull, 18446744073709551500ull, 18446744073709551557ull) WD(top, 18446744073709551610ull, 7ull, 18446744073709551615ull) WD(q, 13891176665706064842ull, 0, 18446744073709551557ull) WD(mid, 6364136223846793005ull, 11ull, 9223372036854775783ull)
// multipliers, increments and moduli on both sides of every arithmetic case of the narrower types: states next to the places where a product or a sum can wrap
template<class I, I a, I c, I m> void cases() { typedef br::linear_congruential_engine<I, a, c, m> E; const int dg = std::numeric_limits<I>::digits; const u64 M = m == 0 ? (dg == 64 ? 0 : 1ull << (dg & 63)) : (u64)m; typedef unsigned __int128 W; const W mm = M ? (W)M : (W)1 << 64; const u64 q = a ? (u64)(~(u64)0 / (u64)a) : 0, t = a ? (u64)((u64)std::numeric_limits<I>::max() / (u64)a) : 0;
  const u64 x0[] = { 0, 1, 2, 3, 5, 7, (u64)(mm - 1), (u64)(mm - 2), (u64)(mm - 3), (u64)(mm / 2), (u64)(mm / 2) + 1, (u64)(mm / 3), (u64)(mm / 3) * 2, t, t + 1, t - 1, t / 2, q, q + 1, a ? M / (u64)a : 0, a ? M / (u64)a - 1 : 0, a ? M / (u64)a + 1 : 0, (u64)(mm - (u64)c), (u64)(mm - 1 - (u64)c), (u64)c };
  for (u64 v : x0) { if (v >= mm || (c == 0 && v == 0)) continue; E e((I)v); W x = v; for (int i = 0; i < 10; ++i) { x = ((W)(u64)a * x + (u64)c) % mm; va_check((u64)e() == (u64)x, "a linear congruential engine produces the value its recurrence gives, next to every place where its arithmetic could wrap"); } } }
#define CS(id, I, a, c, m) SCEN(S22_lcgc_##id) { cases<I, a, c, m>(); }
CS(u1, u32, 2u, 2147483640u, 2147483647u) CS(u2, u32, 2u, 1u, 2147483647u) CS(u3, u32, 2u, 2u, 2147483647u) CS(u4, u32, 3u, 1431655764u, 1431655765u) CS(u5, u32, 3u, 0u, 1431655765u) CS(u6, u32, 3u, 1u, 1431655765u) CS(u7, u32, 3u, 5u, 1431655766u) CS(u8, u32, 65534u, 0u, 65535u) CS(u9, u32, 65535u, 65534u, 65537u) CS(u10, u32, 65535u, 1u, 65537u) CS(u11, u32, 1u, 4294967294u, 4294967295u) CS(u12, u32, 1u, 1u, 4294967295u) CS(u13, u32, 4294967294u, 4294967294u, 4294967295u) CS(u14, u32, 0u, 4294967294u, 4294967295u) CS(u15, u32, 2147483648u, 3u, 2147483659u)
CS(i1, int, 2, 1000000000, 1073741823) CS(i2, int, 2, 1, 1073741823) CS(i3, int, 2, 2, 1073741823) CS(i4, int, 46341, 0, 2147483647) CS(i5, int, 46340, 2147483646, 2147483647) CS(i6, int, 46341, 7, 2147395600) CS(i7, int, 2147483646, 2147483646, 2147483647) CS(i8, int, 1, 2147483646, 2147483647) CS(i9, int, 0, 2147483646, 2147483647) CS(i10, int, 65536, 5, 2147483629) CS(i11, int, 1073741824, 9, 2147483647)
CS(s1, short, 181, 32766, 32767) CS(s2, short, 2, 32766, 32767) CS(s3, short, 32766, 32766, 32767) CS(h1, unsigned short, 255, 65534, 65535) CS(h2, unsigned short, 65534, 65534, 65535) CS(h3, unsigned short, 256, 1, 65521) CS(h4, unsigned short, 65533, 3, 0) CS(c1, unsigned char, 254, 254, 255) CS(c2, unsigned char, 16, 200, 251) CS(c3, signed char, 126, 126, 127) CS(c4, signed char, 11, 120, 127) CS(c5, unsigned char, 253, 3, 0)
CS(w1, u64, 2ull, 9223372036854775806ull, 9223372036854775807ull) CS(w2, u64, 2ull, 1ull, 9223372036854775807ull) CS(w3, u64, 2ull, 2ull, 9223372036854775807ull) CS(w4, u64, 4294967295ull, 4294967296ull, 4294967297ull) CS(w5, u64, 4294967295ull, 1ull, 4294967297ull) CS(w6, u64, 4294967297ull, 5ull, 4294967296ull + 15) CS(l1, long long, 2, 4611686018427387902ll, 4611686018427387903ll) CS(l2, long long, 3037000500ll, 1, 9223372036854775807ll) CS(l3, long long, 9223372036854775806ll, 9223372036854775806ll, 9223372036854775807ll) CS(l4, long long, 2, 3, 4611686018427387903ll) CS(l5, long long, 4, 1, 9223372036854775783ll)
#endif
