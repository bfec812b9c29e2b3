// S03: seeding an engine, however it has been used before, gives exactly the engine a construction from the same seed gives.
//UNITS: LCG MT MTB SWC LF RLX CMB SHO INV IB MIX
#include "engines.hpp"
template<class E> struct SeedT { typedef typename std::conditional<std::is_integral<typename E::result_type>::value, typename E::result_type, u32>::type type; };
template<> struct SeedT<swcsmall> { typedef u32 type; };
template<class T> bool same_text(const T& a, const T& b) {
  VBuf<> s, t; VOs x(&s), y(&t); x << a; y << b; bool r = s.n == t.n;
  for (u64 i = 0; i < s.n && i < t.n; ++i) r = r & (s.a[i].kind == t.a[i].kind) & (s.a[i].u == t.a[i].u) & (s.a[i].neg == t.a[i].neg) & eqf(s.a[i].d, t.a[i].d) & (s.a[i].f == t.a[i].f) & (s.a[i].l == t.a[i].l);
  return r; }
template<class E> void agree(E& a, E& b, int K) {
  va_check(a == b, "a re-seeded engine equals one constructed from the same seed");
  va_check(same_text(a, b), "a re-seeded engine saves the same text as one constructed from the same seed");
  for (int i = 0; i < K; ++i) va_check(a() == b(), "a re-seeded engine produces the outputs of one constructed from the same seed");
}
template<class E> E prior(u64 d) { E a(Tk<E>::template go<3>(d)); for (u64 i = 0; i < d; ++i) a(); return a; }
template<class E> void dflt(u64 d, int K) { va_bound(Lim<E>::v); E a(prior<E>(d)); a.seed(); E b; agree(a, b, K); E c; c(); c = E(); E e; agree(c, e, 2); }
template<class E> void val(u64 d, typename SeedT<E>::type v, int K) { va_bound(Lim<E>::v); E a(prior<E>(d)); a.seed(v); E b(v); agree(a, b, K); }
template<class E> void seq(u64 d, int K) { va_bound(Lim<E>::v); VSeq<4> s, t; E a(prior<E>(d)); a.seed(s); E b(t); va_check(s.words == t.words && s.calls == t.calls, "seed(seq) asks the sequence for what construction asks for"); agree(a, b, K); }
template<class E> void itr(u64 d, int K) { va_bound(Lim<E>::v); VIn f(4, 0, 4096), g(4, 0, 4096), l(4, 4096, 4096); E a(prior<E>(d)); a.seed(f, l); E b(g, l); va_check(f == g, "seed(first,last) consumes what construction consumes"); agree(a, b, K); }
template<class E> void cpy(u64 d, int K) { va_bound(Lim<E>::v); E a(prior<E>(d)); const E& ca = a; E b(ca); E c; c = ca; E k(a); va_check(b == a && c == a && k == a, "a copy equals its original"); for (int i = 0; i < K; ++i) { typename E::result_type v = b(); va_check(v == c(), "copies produce the same outputs"); } va_check(a == k, "using a copy does not disturb the original"); for (int i = 0; i < K; ++i) a(); va_check(a == b, "a copy that made as many draws equals its original"); }
#define XD(id, T, d, K) SCEN(S03_##id##_dflt_##d) { dflt<T>(d, K); }
#define XC(id, T, d, K) SCEN(S03_##id##_copy_##d) { cpy<T>(d, K); }
#define XV(id, T, d, n, v, K) SCEN(S03_##id##_val_##d##_##n) { val<T>(d, v, K); }
#define XW(id, T, d, K) SCEN(S03_##id##_val_##d##_any) { typedef SeedT<T>::type V; val<T>(d, (V)va_sym_u(5, 0, sizeof(V) * 8, 0, sizeof(V) == 8 ? ~0ull : 0xffffffffull), K); }
#define XS(id, T, d, K) SCEN(S03_##id##_seq_##d) { seq<T>(d, K); }
#define XI(id, T, d, K) SCEN(S03_##id##_itr_##d) { itr<T>(d, K); }
#define A1(id, T, d, K) XD(id,T,d,K) XC(id,T,d,K) XV(id,T,d,0,0u,K) XV(id,T,d,1,1u,K) XV(id,T,d,331,331u,K) XV(id,T,d,max,0xffffffffu,K) XS(id,T,d,K) XI(id,T,d,K)
#define A0(id, T, d, K) XD(id,T,d,K) XC(id,T,d,K) XV(id,T,d,0,0u,K) XV(id,T,d,1,1u,K) XV(id,T,d,331,331u,K) XS(id,T,d,K)
#define DS(id, T) A1(id,T,0,4) A1(id,T,3,4) A1(id,T,9,4) XW(id,T,2,4)
#define DM(id, T) A1(id,T,0,2) A1(id,T,3,2) XW(id,T,1,2)
#define DR(id, T) A1(id,T,0,2) A1(id,T,11,2)
#ifdef UNIT_LCG
G_LCG(DS)
#endif
#ifdef UNIT_MT
A1(mt19937,br::mt19937,3,3) XW(mt19937,br::mt19937,0,3) DS(mtsmall, mtsmall)
#endif
#ifdef UNIT_MTB
G_MTB(DM)
#endif
#ifdef UNIT_SWC
G_SWC(DS)
#endif
#ifdef UNIT_LF
G_LF(DS)
#endif
#ifdef UNIT_RLX
G_RLX(DR)
#endif
#ifdef UNIT_CMB
DS(taus88, br::taus88) DS(ecuyer1988, br::ecuyer1988) DS(xc1, xc1) DS(ac1, ac1) DS(lfs1, lfs1) DS(lfs2, lfs2)
A0(splitmix64, br::splitmix64, 0, 4) A0(splitmix64, br::splitmix64, 3, 4) XW(splitmix64, br::splitmix64, 1, 4)
#endif
#ifdef UNIT_SHO
G_SHO(DS)
#endif
#ifdef UNIT_INV
SCEN(S03_invs) { for (u32 v = 0; v < 31; ++v) for (u32 w = 0; w < 31; w += 6) { invs a(v), b(w); a(); a.seed(w); va_check(a == b, "a re-seeded engine equals one constructed from the same seed"); invs c(b); va_check(c == b && c() == b(), "a copy equals its original"); } }
SCEN(S03_invs_dflt) { for (u32 v = 0; v < 31; ++v) { invs a(v), b; a(); a.seed(); va_check(a == b, "a re-seeded engine equals one constructed from the same seed"); } }
SCEN(S03_invs_seq) { for (u32 v = 0; v < 62; ++v) { CSeq s(v), t(v); invs a(5u); a(); a.seed(s); invs b(t); va_check(a == b && a() == b(), "a re-seeded engine equals one constructed from the same seed"); } }
SCEN(S03_hell) { for (u32 v = 0; v < 300; v += 37) { br::hellekalek1995 a(v + 1), b(v); a(); a.seed(v); va_check(a == b && a() == b(), "a re-seeded engine equals one constructed from the same seed"); u32 w[2] = { v, 9 }; const u32* p = w; const u32* q = w; const u32* z = w + 2; a.seed(p, z); br::hellekalek1995 c(q, z); va_check(p == q && a == c, "a re-seeded engine equals one constructed from the same seed"); } br::hellekalek1995 a(9u), b; a.seed(); va_check(a == b, "a re-seeded engine equals one constructed from the same seed"); }
#endif
#ifdef UNIT_IB
G_IB(DS)
#endif
#ifdef UNIT_MIX
#define MX(d) XD(mixmax17,mixmax17,d,3) XC(mixmax17,mixmax17,d,3) XV(mixmax17,mixmax17,d,1,1u,3) XV(mixmax17,mixmax17,d,331,331u,3) XV(mixmax17,mixmax17,d,big,0xffffffff00000001ull,3)
MX(0) MX(3) MX(20)
SCEN(S03_mixmax_seq) { mixmax17 a(prior<mixmax17>(5)); CSeq s(77), t(77); a.seed(s); mixmax17 b(t); agree(a, b, 3); }
SCEN(S03_mixmax_itr) { mixmax17 a(prior<mixmax17>(5)); u32 w[5] = { 1, 2, 3, 4, 5 }; const u32* p = w; const u32* q = w; const u32* z = w + 5; a.seed(p, z); mixmax17 b(q, z); va_check(p == q, "seed(first,last) consumes what construction consumes"); agree(a, b, 3); }
#endif
