// S02: == holds exactly when the two engines will produce the same outputs; != is its negation.
//UNITS: LCG MT MTB SWC LF RLX CMB SHO INV IB MIX
#include "engines.hpp"
template<class E> void sound(u64 d, int K) {
  va_bound(Lim<E>::v); va_twin(2, 3);
  E a(Tk<E>::template go<2>(d)), b(Tk<E>::template go<3>(d));
  bool e = a == b, ne = a != b;
  va_check(e != ne, "!= is the negation of ==");
  E c(a); va_check(a == c && !(a != c), "a copy compares equal");
  E f; f = a; va_check(f == a, "an assigned copy compares equal");
  va_check((b == a) == e, "== is symmetric");
  bool same = true; for (int i = 0; i < K; ++i) { bool s = a() == b(); same = same & s; }
  va_check(!e | same, "engines that compare equal produce the same outputs");
  va_check(c == f, "drawing from an engine leaves its copies alone");
}
template<class E> void live(u64 d) { // an engine that has moved on is not equal unless its future is the same
  va_bound(Lim<E>::v); E a(Tk<E>::template go<2>(d)), b(a); b(); bool e = a == b; bool same = true; for (int i = 0; i < 6; ++i) { bool s = a() == b(); same = same & s; } va_check(!e | same, "engines that compare equal produce the same outputs (one draw apart)");
}
template<class E> void moved(u64 d, u64 d2, int K) { // same history, different internal position: one side is reloaded, the other is not
  va_bound(Lim<E>::v); va_twin(2, 3); E a(Tk<E>::template go<2>(0)), b(Tk<E>::template go<3>(0)); for (u64 i = 0; i < d; ++i) { a(); b(); }
  VBuf<> t; VOs os(&t); os << a; VIs is(&t); E c; is >> c; va_assume(!is.fail()); for (u64 i = 0; i < d2; ++i) { b(); c(); }
  bool e = c == b, f = b == c; va_check(e == f, "== is symmetric"); va_check((c != b) != e, "!= is the negation of ==");
  bool same = true; for (int i = 0; i < K; ++i) { bool s = c() == b(); same = same & s; }
  va_check(!e | same, "engines that compare equal produce the same outputs");
}
#define XM(id, T, d, d2, K) SCEN(S02_##id##_moved_##d##_##d2) { moved<T>(d, d2, K); }
#define X1(id, T, d, K) SCEN(S02_##id##_##d) { sound<T>(d, K); } SCEN(S02_##id##_live_##d) { live<T>(d); }
#define DS(id, T) X1(id,T,0,12) X1(id,T,1,12) X1(id,T,2,12) X1(id,T,4,12)
#define DM(id, T) X1(id,T,0,3)
#define MS(id, T) XM(id,T,1,0,12) XM(id,T,2,0,12) XM(id,T,3,0,12) XM(id,T,5,0,12) XM(id,T,1,2,12) XM(id,T,3,2,12)
#define DR(id, T) X1(id,T,0,3) X1(id,T,11,3)
#ifdef UNIT_LCG
G_LCG(DS) G_LCG(MS)
#endif
#ifdef UNIT_MT
X1(mt19937,br::mt19937,0,3) X1(mtsmall,mtsmall,0,12) MS(mtsmall,mtsmall) XM(mt19937,br::mt19937,1,0,3)
#endif
#ifdef UNIT_MTB
G_MTB(DM)
#endif
#ifdef UNIT_SWC
G_SWC(DS) G_SWC(MS)
#endif
#ifdef UNIT_LF
G_LF(DS) G_LF(MS)
#endif
#ifdef UNIT_RLX
G_RLX(DR)
#endif
#ifdef UNIT_CMB
G_CMB(DS) G_CMB(MS)
#endif
#ifdef UNIT_SHO
G_SHO(DS) G_SHO(MS)
#endif
#ifdef UNIT_INV
SCEN(S02_invs) { for (u32 v = 0; v < 31; ++v) for (u32 w = 0; w < 31; ++w) { invs a(v), b(w); bool e = a == b; va_check(e != (a != b), "!= is the negation of =="); bool same = true; for (int i = 0; i < 31; ++i) same = (a() == b()) & same; va_check(e == same, "engines compare equal exactly when they produce the same outputs"); } }
#endif
#ifdef UNIT_IB
G_IB(DS) G_IB(MS)
#endif
#ifdef UNIT_MIX
G_MIX(DS) G_MIX(MS)
#endif
