// S06: whatever its state, an engine returns values in [min(), max()].
//UNITS: LCG MT MTB SWC LF RLX CMB SHO INV IB MIX FLT
#include "engines.hpp"
typedef br::xor_combine_engine<br::minstd_rand0, 0, br::minstd_rand, 0> xc2; typedef br::xor_combine_engine<lcgs, 2, lcgs, 5> xc3;
template<class E> void in_range(E& a, int K) { for (int i = 0; i < K; ++i) { typename E::result_type v = a(); va_check((E::min)() <= v, "an output is not below min()"); va_check(v <= (E::max)(), "an output is not above max()"); } }
template<class E> void in_range01(E& a, int K) { for (int i = 0; i < K; ++i) { typename E::result_type v = a(); va_check(v >= 0, "an output is not below min()"); va_check(v < 1, "an output in [0,1) is below 1"); } va_check((E::min)() == 0 && (E::max)() == 1, "the advertised range is 0..1"); }
template<class E> void seq(u64 d, int K) { va_bound(Lim<E>::v); E a(Mk<E>::template go<2>()); in_range(a, K); }
template<class E> void txt(u64 d, int K) { va_bound(Lim<E>::v); E a(Tk<E>::template go<2>(d)); in_range(a, K); }
template<class E> void seq01(u64 d, int K) { va_bound(Lim<E>::v); E a(Mk<E>::template go<2>()); in_range01(a, K); }
template<class E> void txt01(u64 d, int K) { va_bound(Lim<E>::v); E a(Tk<E>::template go<2>(d)); in_range01(a, K); }
template<class E> void val(int K) { va_bound(Lim<E>::v); typename E::result_type s = (typename E::result_type)va_sym_u(5, 0, sizeof(s) * 8, 0, sizeof(s) == 8 ? ~0ull : 0xffffffffull); E a(s); in_range(a, K); }
#define X1(id, T, K) SCEN(S06_##id##_seq) { seq<T>(0, K); } SCEN(S06_##id##_state) { txt<T>(0, K); } SCEN(S06_##id##_state3) { txt<T>(3, K); }
#define Y1(id, T, K) SCEN(S06_##id##_seq) { seq01<T>(0, K); } SCEN(S06_##id##_state) { txt01<T>(0, K); } SCEN(S06_##id##_state3) { txt01<T>(3, K); }
#define V1(id, T) SCEN(S06_##id##_val) { val<T>(3); }
#define DS(id, T) X1(id, T, 6) V1(id, T)
#define DM(id, T) X1(id, T, 3)
#ifdef UNIT_LCG
G_LCG(DS)
#endif
#ifdef UNIT_MT
G_MT(DM)
#endif
#ifdef UNIT_MTB
G_MTB(DM)
#endif
#ifdef UNIT_SWC
DS(swcsmall, swcsmall) DS(swc24, swc24) DS(swc48, swc48) DS(dbsmall, dbsmall) DS(dbfull, dbfull) Y1(swc01d, swc01d, 9) Y1(swc01f, swc01f, 9)
#endif
#ifdef UNIT_LF
X1(lf32s, lf32s, 9) X1(lf24s, lf24s, 9) X1(lf48s, lf48s, 9) Y1(lf01d, lf01d, 9) Y1(lf01f, lf01f, 9)
#endif
#ifdef UNIT_RLX
DM(ranlux24, br::ranlux24) DM(ranlux48, br::ranlux48) DM(ranlux3, br::ranlux3) Y1(ranlux4_01, br::ranlux4_01, 3) Y1(lf607, br::lagged_fibonacci607, 3)
#endif
#ifdef UNIT_CMB
DM(taus88, br::taus88) DS(ecuyer1988, br::ecuyer1988) DM(xc1, xc1) DM(xc2, xc2) DM(xc3, xc3) DS(ac1, ac1) DS(lfs1, lfs1) DS(lfs2, lfs2) DS(splitmix64, br::splitmix64)
#endif
#ifdef UNIT_SHO
G_SHO(DM)
#endif
#ifdef UNIT_INV
SCEN(S06_invs) { for (u32 v = 0; v < 31; ++v) { invs a(v); in_range(a, 32); } }
SCEN(S06_hell) { for (u32 v = 1; v < 3000; v *= 3) { br::hellekalek1995 a(v); in_range(a, 3); } }
#endif
#ifdef UNIT_IB
G_IB(DM)
#endif
#ifdef UNIT_MIX
G_MIX(DM) SCEN(S06_mixmax17_block) { mixmax17 a(Mk<mixmax17>::go<2>()); for (int i = 0; i < 16; ++i) a(); in_range(a, 4); }
#endif
#ifdef UNIT_FLT
// documented ranges
#define R1(id, T, lo, hi) SCEN(S06_bounds_##id) { va_check((T::min)() == (lo) && (T::max)() == (hi), "min() and max() are the documented bounds"); }
R1(minstd0, br::minstd_rand0, 1u, 2147483646u) R1(minstd, br::minstd_rand, 1u, 2147483646u) R1(rand48, br::rand48, 0u, 0x7fffffffu) R1(lcg32, lcg32, 0u, 0xffffffffu) R1(lcg64, lcg64, 0u, ~0ull) R1(lcgs, lcgs, 0u, 714024u) R1(lcgc, lcgc, 0u, 2147483646u)
R1(mt19937, br::mt19937, 0u, 0xffffffffu) R1(mt11213b, br::mt11213b, 0u, 0xffffffffu) R1(mt19937_64, br::mt19937_64, 0u, ~0ull)
R1(ranlux24, br::ranlux24, 0u, (1u << 24) - 1) R1(ranlux48, br::ranlux48, 0u, (1ull << 48) - 1) R1(ranlux3, br::ranlux3, 0u, (1u << 24) - 1) R1(ranlux64_3, br::ranlux64_3, 0u, (1ull << 48) - 1)
R1(lf48s, lf48s, 0u, (1ull << 48) - 1) R1(lf32s, lf32s, 0u, 0xffffffffu) R1(lf24s, lf24s, 0u, (1u << 24) - 1)
R1(taus88, br::taus88, 0u, 0xffffffffu) R1(ecuyer1988, br::ecuyer1988, 1u, 2147483562u) R1(splitmix64, br::splitmix64, 0u, ~0ull)
R1(kreutzer1986, br::kreutzer1986, 0u, 714024u) R1(sho8, sho8, 1u, 2147483646u) R1(hellekalek1995, br::hellekalek1995, 0u, 2147483646u)
R1(ib17, ib17, 0u, (1u << 17) - 1) R1(ib48, ib48, 0u, (1ull << 48) - 1) R1(ib64, ib64, 0u, ~0ull) R1(mixmax17, mixmax17, 0u, (1ull << 61) - 1)
#endif
