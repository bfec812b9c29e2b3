// S07: objects keep all their state in themselves: objects of one type used alternately behave as each would alone.
//UNITS: LCG MT SWC LF CMB SHO IB MIX DINTD DREAL DNORM DBIN DLST DDISC
#include "engines.hpp"
#include "dists.hpp"
#include "draws.hpp"
template<class E, E (*MA)(), E (*MB)()> void apart(int K) {
  va_bound(Lim<E>::v); va_values_only(); E a(MA()), b(MB()), a1(a), b1(b); typename E::result_type x[8], y[8];
  for (int i = 0; i < K; ++i) x[i] = a1(); for (int i = 0; i < K; ++i) y[i] = b1();
  for (int i = 0; i < K; ++i) { va_check(a() == x[i], "an engine used alternately with another one gives the values it gives alone"); va_check(b() == y[i], "an engine used alternately with another one gives the values it gives alone"); }
}
template<class E> E fa() { return Tk<E>::template go<3>(2); }
template<class E> E fb() { return Tk<E>::template go<6>(2); }
#define X(id, ...) SCEN(S07_##id) { apart<__VA_ARGS__, fa<__VA_ARGS__ >, fb<__VA_ARGS__ > >(5); }
#ifdef UNIT_LCG
G_LCG(X)
#endif
#ifdef UNIT_MT
X(mtsmall, mtsmall) SCEN(S07_mt19937) { apart<br::mt19937, fa<br::mt19937>, fb<br::mt19937> >(2); }
#endif
#ifdef UNIT_SWC
G_SWC(X)
#endif
#ifdef UNIT_LF
G_LF(X)
#endif
#ifdef UNIT_CMB
G_CMB(X)
#endif
#ifdef UNIT_SHO
G_SHO(X)
#endif
#ifdef UNIT_IB
G_IB(X)
#endif
#ifdef UNIT_MIX
G_MIX(X)
#endif
#undef X
typedef VRng<u32, 0, 0xffffffffu, 5> Gb;
template<class C> void dapart() { typedef typename C::D D; va_bound(2); va_values_only();
  D d(C::template mk<D>(10)), e(C::template mk<D>(11)), d1(C::template mk<D>(10)), e1(C::template mk<D>(11)); Gfull g, g1; Gb h, h1;
  typename D::result_type p = d1(g1), q = e1(h1); d1.reset(); d1(g1); va_check(eqr(d(g), p), "a distribution used alternately with another one gives the values it gives alone"); va_check(eqr(e(h), q), "a distribution used alternately with another one gives the values it gives alone"); }
#define X(id) SCEN(S07_##id) { dapart<C_##id>(); }
#ifdef UNIT_DINTD
D_INTD(X)
#endif
#ifdef UNIT_DREAL
D_REAL(X)
#endif
#ifdef UNIT_DNORM
D_NORM(X)
#endif
#ifdef UNIT_DBIN
D_BIN(X)
#endif
#ifdef UNIT_DLST
D_LST(X)
#endif
#ifdef UNIT_DDISC
D_DISC(X)
#endif
