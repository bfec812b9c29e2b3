// S17: reading text that is cut short, has a foreign character or wrong numbers in it: reported, never out of bounds.
//UNITS: LCG MT SWC LF CMB SHO INV IB MIX RLX INT REAL NORM BIN BIH GAM GAM2 GAM3 LST DISC VAL QRN
#include "engines.hpp"
#include "dists.hpp"
#include "draws.hpp"
#ifdef UNIT_QRN
#include <sstream>
namespace std { struct va_oss { template<class T> va_oss& operator<<(const T&) { return *this; } string str() const { return string(); } }; }
#define ostringstream va_oss
#include <boost/random/sobol.hpp>
#include <boost/random/niederreiter_base2.hpp>
#include <boost/random/faure.hpp>
#endif
static const char* const CUT = "text that ends too early fails the stream";
static const char* const CHR = "a foreign character where a number belongs fails the stream";
static const char* const KEEP = "a distribution whose reading failed keeps its parameters";
inline bool numeric(const VItem& i) { return i.kind != IT_CHAR; }
inline bool blank(const VItem& i) { return i.kind == IT_CHAR && (i.u == 32 || i.u == 10); }
inline u64 lastsig(const VText& t) { u64 l = t.n; while (l && blank(t.it[l - 1])) --l; return l; }
inline void arb(VItem& i, u64 k) { if (i.kind == IT_INT) { i.neg = va_sym_u(70, k, 8, 0, 1) != 0; i.u = va_sym_u(71, k, 64, 0, ~0ull); } else { i.kind = IT_D; i.d = va_sym_d(72, k, -1e300, 1e300); i.prec = 21; } }
template<class E> void use(E& e) { for (int i = 0; i < 3; ++i) (void)e(); }
template<class T> void wr(VBuf<>& t, const T& a) { VOs os(&t); os.precision(21); os << a; }
// kind 0: cut at item k; 1: item k becomes 'x'; 2: item k becomes an arbitrary number; 3: item k is left out
template<class E> void eng(int kind, u64 d, u64 step) {
  va_bound(Lim<E>::v); va_may_throw(); const E a(Tk<E>::template go<2>(d)); VBuf<> z; wr(z, a); const u64 n = lastsig(z);
  for (u64 k = 0; k < n; k += (k < 4 || k + 4 >= n ? 1 : step)) { if (kind && !numeric(z.it[k])) continue; VBuf<> t; wr(t, a); if (kind == 0) t.n = k; else if (kind == 1) { t.it[k].kind = IT_CHAR; t.it[k].u = 'x'; } else arb(t.it[k], k);
    VIs is(&t); E b(Mk<E>::template go<3>()); is >> b; if (kind == 0) va_check(is.fail(), CUT); if (kind == 1) va_check(is.fail(), CHR); use(b); } }
#define S1(id, T) SCEN(S17_##id##_cut) { eng<T>(0, 2, 7); } SCEN(S17_##id##_chr) { eng<T>(1, 2, 7); } SCEN(S17_##id##_arb) { eng<T>(2, 2, 7); }
#define SL(id, T) SCEN(S17_##id##_cut) { eng<T>(0, 2, 577); } SCEN(S17_##id##_chr) { eng<T>(1, 2, 577); } SCEN(S17_##id##_arb) { eng<T>(2, 2, 577); }
#define SLX(id, T) SCEN(S17_##id##_cut) { eng<T>(0, 2, 577); } SCEN(S17_##id##_chr) { eng<T>(1, 2, 577); }
#ifdef UNIT_LCG
G_LCG(S1)
#endif
#ifdef UNIT_MT
S1(mtsmall, mtsmall) SLX(mt19937, br::mt19937)
#endif
#ifdef UNIT_SWC
G_SWC(S1)
#endif
#ifdef UNIT_LF
G_LF(S1)
#endif
#ifdef UNIT_RLX
SL(ranlux24, br::ranlux24) SL(ranlux48, br::ranlux48) SL(ranlux3, br::ranlux3) SL(ranlux4_01, br::ranlux4_01) SLX(lf607, br::lagged_fibonacci607)
#endif
#ifdef UNIT_CMB
G_CMB(S1)
#endif
#ifdef UNIT_SHO
G_SHO(S1)
#endif
#ifdef UNIT_INV
template<class I, I a, I b, I p> struct Fld<br::inversive_congruential_engine<I, a, b, p> > { static void put(Txt& t, u64) { t.num(0, p - 1); } };
SLX(hellekalek1995, br::hellekalek1995)
#endif
#ifdef UNIT_IB
G_IB(S1)
#endif
#ifdef UNIT_MIX
G_MIX(S1)
#endif
// ---- distributions and their parameter objects
template<class T, class C, bool D> struct Draw { static void go(T& b) { typename C::D d(b); G64 g; (void)d(g); } };
template<class T, class C> struct Draw<T, C, true> { static void go(T& b) { G64 g; (void)b(g); } };
template<class T, class C> void dis(int kind, int B) {
  va_bound(B); va_may_throw(); const T a(C::template mk<T>(10)); VBuf<> z; wr(z, a); const u64 n = lastsig(z); const bool D = std::is_same<T, typename C::D>::value;
  for (u64 k = 0; k < n; ++k) { if (kind && kind != 3 && !numeric(z.it[k])) continue; if (kind == 3 && blank(z.it[k])) continue; VBuf<> t; wr(t, a); if (kind == 0) t.n = k; else if (kind == 1) { t.it[k].kind = IT_CHAR; t.it[k].u = 'x'; } else if (kind == 2) arb(t.it[k], k); else { t.it[k].kind = IT_CHAR; t.it[k].u = 32; }
    VIs is(&t); T b(C::template mk<T>(11)); is >> b; if (kind == 0) va_check(is.fail(), CUT); if (kind == 1) va_check(is.fail(), CHR); if (D && (kind == 0 || kind == 1)) va_check(C::acc(b, 11), KEEP); if (kind == 2 || kind == 3) Draw<T, C, D>::go(b); } }
#define X1(id, TT, nm) SCEN(S17_##id##nm##_cut) { dis<TT, C_##id>(0, 40); } SCEN(S17_##id##nm##_chr) { dis<TT, C_##id>(1, 40); } 
#if defined UNIT_LST || defined UNIT_DISC
#define X2(id, TT, nm) X1(id, TT, nm) SCEN(S17_##id##nm##_del) { dis<TT, C_##id>(3, 3); }
#elif defined UNIT_INT
#define X2(id, TT, nm) X1(id, TT, nm) SCEN(S17_##id##nm##_arb) { dis<TT, C_##id>(2, 3); }
#else
#define X2(id, TT, nm) X1(id, TT, nm)
#endif
#define X(id) X2(id, C_##id::D, ) X2(id, C_##id::D::param_type, _p)
#include "dunits.hpp"
#ifdef UNIT_VAL
static const char* const OKP = "parameters that are read without failure are valid ones";
template<class P, class F> void val(F ok, int n, bool isint) { va_bound(40); VBuf<> t; for (int i = 0; i < n; ++i) { if (i) t.sp(); if (isint) t.num(0); else t.dbl(0); arb(t.it[t.n - 1], i); } VIs is(&t); const P keep; P p(keep); is >> p; va_check(is.fail() || ok(p), OKP); va_check(!is.fail() || p == keep, "parameters that are refused leave the object unchanged"); }
SCEN(S17_val_uint) { val<br::uniform_int_distribution<int>::param_type>([](const br::uniform_int_distribution<int>::param_type& p) { return p.a() <= p.b(); }, 2, true); }
SCEN(S17_val_uintd) { val<br::uniform_int_distribution<u64> >([](const br::uniform_int_distribution<u64>& p) { return p.a() <= p.b(); }, 2, true); }
SCEN(S17_val_real) { val<br::uniform_real_distribution<double>::param_type>([](const br::uniform_real_distribution<double>::param_type& p) { return p.a() <= p.b(); }, 2, false); }
SCEN(S17_val_reald) { val<br::uniform_real_distribution<double> >([](const br::uniform_real_distribution<double>& p) { return p.a() <= p.b(); }, 2, false); }
SCEN(S17_val_tri) { val<br::triangle_distribution<double>::param_type>([](const br::triangle_distribution<double>::param_type& p) { return (p.a() <= p.b()) & (p.b() <= p.c()); }, 3, false); }
SCEN(S17_val_trid) { val<br::triangle_distribution<double> >([](const br::triangle_distribution<double>& p) { return (p.a() <= p.b()) & (p.b() <= p.c()); }, 3, false); }
SCEN(S17_val_geo) { val<br::geometric_distribution<>::param_type>([](const br::geometric_distribution<>::param_type& p) { return (p.p() > 0) & (p.p() < 1); }, 1, false); }
SCEN(S17_val_geod) { val<br::geometric_distribution<> >([](const br::geometric_distribution<>& p) { return (p.p() > 0) & (p.p() < 1); }, 1, false); }
template<class E> void vale() { va_bound(40); VBuf<> t; t.num(0); arb(t.it[0], 0); VIs is(&t); const E keep; E e(keep); is >> e; va_check(!is.fail() || e == keep, "a state that is refused leaves the engine unchanged"); if (!is.fail()) { const typename E::result_type x = e(); va_check((x >= (E::min)()) & (x <= (E::max)()), "an engine whose state was read without failure stays in range"); } }
SCEN(S17_val_minstd) { vale<br::minstd_rand>(); } SCEN(S17_val_minstd0) { vale<br::minstd_rand0>(); } SCEN(S17_val_lcgs) { vale<lcgs>(); } SCEN(S17_val_lcg32) { vale<lcg32>(); } SCEN(S17_val_lcgc) { vale<lcgc>(); }
#endif
#ifdef UNIT_QRN
template<class Q> void quasi(int kind, unsigned dim) { va_bound(200); va_may_throw(); Q a(dim); a.discard(3); VBuf<> z; wr(z, a); const u64 n = lastsig(z); for (u64 k = 0; k < n; ++k) { if (kind && !numeric(z.it[k])) continue; VBuf<> t; wr(t, a); if (kind == 0) t.n = k; else { t.it[k].kind = IT_CHAR; t.it[k].u = 'x'; } Q b(2); b.discard(5); const Q keep(b); VIs is(&t); is >> b; va_check(is.fail(), kind ? CHR : CUT); va_check(b == keep, "a generator whose reading failed is unchanged"); use(b); } }
#define XQ(id, T) SCEN(S17_##id##_cut) { quasi<T>(0, 3); } SCEN(S17_##id##_chr) { quasi<T>(1, 3); }
XQ(sobol, br::sobol) XQ(niederreiter, br::niederreiter_base2) XQ(faure, br::faure)
#endif
