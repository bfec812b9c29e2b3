// S01: saving an engine as text and loading it back continues the same sequence, and consumes exactly the engine's own text.
//UNITS: LCG MT MTB SWC LF RLX CMB SHO INV IB MIX
#include "engines.hpp"
template<class E> void pre(E& a, u64 d) { for (u64 i = 0; i < d; ++i) a(); }
template<class E> void rt(u64 d, bool tail) {
  va_bound(Lim<E>::v);
  E a(Mk<E>::template go<2>()); pre(a, d); E keep(a);
  VBuf<> t; VOs os(&t); os << a; if (tail) { os << ' '; os << 77u; os << ' '; os << a; }
  va_check(!os.fail(), "saving does not fail the stream");
  VIs is(&t); E b(Mk<E>::template go<3>()); pre(b, d ? 2 : 0); is >> b;
  va_check(!is.fail(), "loading text this engine wrote succeeds");
  va_check(a == b, "the loaded engine compares equal to the saved one");
  va_check(a == keep, "saving does not change the engine");
  if (tail) { unsigned x = 0; is >> x; va_check(!is.fail() && x == 77, "loading consumes exactly the engine's own text"); E c; is >> c; va_check(!is.fail() && c == a, "two engines saved one after another are both recovered"); va_check(c() == keep(), "the second loaded engine continues the sequence"); E e2(b); b(); b = e2; keep = a; }
  for (int i = 0; i < 4; ++i) { typename E::result_type u = a(), v = b(), w = keep(); va_check(u == v, "the loaded engine produces the outputs the saved one would have"); va_check(u == w, "the saved engine is undisturbed"); }
}
#define D1(id, T, d, tl) SCEN(S01_##id##_##d##_##tl) { rt<T>(d, tl); }
#define DS(id, T) D1(id,T,0,0) D1(id,T,0,1) D1(id,T,1,0) D1(id,T,1,1) D1(id,T,3,1) D1(id,T,4,0) D1(id,T,6,1) D1(id,T,7,0) D1(id,T,10,1) D1(id,T,17,1)
#define DL(id, T) D1(id,T,0,0) D1(id,T,1,1) D1(id,T,30,1)
#define DM(id, T) D1(id,T,0,0) D1(id,T,1,1) D1(id,T,351,0) D1(id,T,400,1)
#define DR(id, T) D1(id,T,0,0) D1(id,T,1,1) D1(id,T,24,0) D1(id,T,230,1)
#define DX(id, T) D1(id,T,0,0) D1(id,T,1,1) D1(id,T,14,1) D1(id,T,15,0) D1(id,T,16,1) D1(id,T,17,0) D1(id,T,33,1)
#ifdef UNIT_LCG
G_LCG(DS)
#endif
#ifdef UNIT_MT
D1(mt19937,br::mt19937,0,0) D1(mt19937,br::mt19937,1,1) D1(mt19937,br::mt19937,623,0) D1(mt19937,br::mt19937,624,0) D1(mt19937,br::mt19937,900,1)
DS(mtsmall, mtsmall)
#endif
#ifdef UNIT_MTB
G_MTB(DM)
#endif
#ifdef UNIT_SWC
G_SWC(DS)
#endif
#ifdef UNIT_LF
G_LF(DS)
#endif
#ifdef UNIT_RLX
G_RLX(DR)
#endif
#ifdef UNIT_CMB
G_CMB(DS)
#endif
#ifdef UNIT_SHO
G_SHO(DS)
#endif
#ifdef UNIT_INV
DL(hellekalek1995, br::hellekalek1995)
SCEN(S01_invs) { for (u32 v = 0; v < 31; ++v) { invs a(v), b; VBuf<> t; VOs os(&t); os << a; VIs is(&t); is >> b; va_check(!is.fail() && a == b, "the loaded engine compares equal to the saved one"); for (int i = 0; i < 4; ++i) va_check(a() == b(), "the loaded engine produces the outputs the saved one would have"); } }
#endif
#ifdef UNIT_IB
G_IB(DS)
#endif
#ifdef UNIT_MIX
G_MIX(DX)
#endif
