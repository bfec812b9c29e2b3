// S12: values drawn lie within [min(), max()], are not NaN; drawing never reads outside a table, divides by zero or trips an assertion.
//UNITS: EDGE INTC INTS CANON REAL NORM BIN BIH GAM GAM2 GAM3 LST DISC CAST
//UB_EDGE: signed-integer-overflow shift
//UB_REAL: signed-integer-overflow shift
//UB_NORM: signed-integer-overflow shift
//UB_BIN: signed-integer-overflow shift
//UB_BIH: signed-integer-overflow shift
//UB_GAM: signed-integer-overflow shift
//UB_GAM2: signed-integer-overflow shift
//UB_GAM3: signed-integer-overflow shift
//UB_LST: signed-integer-overflow shift
//UB_DISC: signed-integer-overflow shift
//UB_CAST: signed-integer-overflow shift float-cast-overflow
#include "dists.hpp"
#include "draws.hpp"
#include <boost/random/generate_canonical.hpp>
template<class D, class R> void inside(const D& d, R x) { va_check(!(x < (d.min)()), "a drawn value is not below min()"); va_check(!((d.max)() < x), "a drawn value is not above max()"); va_check(x == x, "a drawn value is a number"); }
template<class T> void inside(const br::uniform_real_distribution<T>& d, T x) { va_check(x >= d.a(), "a drawn value is not below min()"); va_check(x < d.b(), "a drawn value is strictly below the upper end"); }
template<class T> void inside(const boost::uniform_real<T>& d, T x) { va_check(x >= (d.min)(), "a drawn value is not below min()"); va_check(x < (d.max)(), "a drawn value is strictly below the upper end"); }
template<class T> void inside(const br::uniform_01<T>&, T x) { va_check(x >= 0, "a drawn value is not below min()"); va_check(x < 1, "a drawn value is strictly below the upper end"); }
template<class I, class W> void inside(const br::discrete_distribution<I, W>& d, I x) { std::vector<W> p = d.probabilities(); va_check(x >= 0 && (std::size_t)x < p.size(), "a drawn value is an index into the weights"); if (x >= 0 && (std::size_t)x < p.size()) va_check(p[x] > 0, "a value of weight zero is never drawn"); }
template<class R> void inside(const br::uniform_on_sphere<R>& d, const std::vector<R>& x) { va_check((int)x.size() == d.dim(), "a point on the sphere has dim() coordinates"); }
template<class C, class G> void bounds(int B) { typedef typename C::D D; va_bound(B); D d(C::template mk<D>(10)); G g; const typename D::result_type x = d(g); inside(d, x); }
template<class C, class G> void boundsp(int B) { typedef typename C::D D; va_bound(B); D o(C::template mk<D>(11)); const D d(C::template mk<D>(10)); G g; const typename D::result_type x = o(g, d.param()); inside(d, x); }
#define CASE(id, T, lo, hi) struct C_##id { typedef br::uniform_int_distribution<T> D; template<class X> static X mk(int) { return X(lo, hi); } };
CASE(i09, int, 0, 9) CASE(im5, int, -5, 5) CASE(i1, int, 7, 7) CASE(iall, int, (-2147483647 - 1), 2147483647) CASE(ineg, int, (-2147483647 - 1), -3) CASE(ipow, unsigned, 0, 0xffff) CASE(uall, unsigned, 0, 0xffffffffu) CASE(ualm, unsigned, 0, 0xfffffffeu) CASE(u64a, u64, 0, ~0ull) CASE(u64m, u64, 5, ~0ull) CASE(u64b, u64, 0, 1ull << 32) CASE(u64c, u64, 3, (1ull << 40) + 17) CASE(s64a, long long, (-9223372036854775807LL - 1), 9223372036854775807LL) CASE(s64b, long long, -4294967296LL, 4294967296LL) CASE(c8, signed char, -128, 127) CASE(c8b, signed char, -100, 100) CASE(s16, short, -32768, 32767) CASE(us16, unsigned short, 0, 65535) CASE(i2, int, 0, 1) CASE(ibig, int, -1500000000, 1500000000) CASE(p49, int, 100, 148) CASE(p121, short, -300, -180) CASE(u64p, u64, 7, 7 + 0xffffffffull)
#define CASED(id, T, lo, hi) struct C_##id { typedef T D; template<class X> static X mk(int) { return X(lo, hi); } };
CASED(sm09, br::uniform_smallint<int>, 0, 9) CASED(sm1, br::uniform_smallint<int>, 4, 4) CASED(smm, br::uniform_smallint<int>, -100, 155) CASED(smu, br::uniform_smallint<unsigned>, 3, 1000) CASED(smc, br::uniform_smallint<signed char>, -128, 127) CASED(sms, br::uniform_smallint<short>, -32768, 32767) CASED(sml, br::uniform_smallint<long long>, -5, 1 << 20) CASED(dep, boost::uniform_int<int>, -7, 1000000) CASED(depl, boost::uniform_int<long long>, -4294967296LL, 4294967296LL) CASED(depa, boost::uniform_int<int>, (-2147483647 - 1), 2147483647)
#define D_INTS(X) X(sm09) X(sm1) X(smm) X(smu) X(smc) X(sms) X(sml) X(dep) X(depl) X(depa)
#define D_INTC(X) X(i09) X(im5) X(i1) X(iall) X(ineg) X(ipow) X(uall) X(ualm) X(u64a) X(u64m) X(u64b) X(u64c) X(s64a) X(s64b) X(c8) X(c8b) X(s16) X(us16) X(i2) X(ibig) X(p49) X(p121) X(u64p)
typedef VRngS<int, -2147483648LL, 2147483647LL> Gs32; typedef VRngS<int, -5, 5> Gs5; typedef VRng<unsigned short, 0, 65535> G16; typedef VRng<u32, 0, 6> G7; typedef VRngF<double> Gd; typedef VRngF<float> Gf;
#ifdef UNIT_INTC
#define X(id) SCEN(S12_##id##_Gfull) { bounds<C_##id, Gfull>(3); } SCEN(S12_##id##_Gmin) { bounds<C_##id, Gmin>(3); } SCEN(S12_##id##_G64) { bounds<C_##id, G64>(3); } SCEN(S12_##id##_Gs32) { bounds<C_##id, Gs32>(3); } SCEN(S12_##id##_G16) { bounds<C_##id, G16>(3); } SCEN(S12_##id##_G7) { bounds<C_##id, G7>(3); } SCEN(S12_##id##_Gs5) { bounds<C_##id, Gs5>(3); } SCEN(S12_##id##_Gd) { bounds<C_##id, Gd>(3); }
D_INTC(X)
#undef X
#endif
#ifdef UNIT_CANON
template<class T, std::size_t B, class G> void canon() { va_bound(6); G g; const T x = br::generate_canonical<T, B>(g); va_check(x >= 0, "a canonical value is not below 0"); va_check(x < 1, "a canonical value is strictly below 1"); }
template<class T, class G> void u01() { va_bound(4); br::uniform_01<T> d; G g; const T x = d(g); inside(d, x); va_check((d.min)() == 0 && (d.max)() == 1, "uniform_01 advertises [0, 1)"); }
#define K(G) SCEN(S12_canon_d53_##G) { canon<double, 53, G>(); } SCEN(S12_canon_d20_##G) { canon<double, 20, G>(); } SCEN(S12_canon_d64_##G) { canon<double, 64, G>(); } SCEN(S12_canon_f24_##G) { canon<float, 24, G>(); } SCEN(S12_canon_f1_##G) { canon<float, 1, G>(); } SCEN(S12_u01_d_##G) { u01<double, G>(); } SCEN(S12_u01_f_##G) { u01<float, G>(); }
K(Gfull) K(Gmin) K(G64) K(G16) K(G7) K(Gs32) K(Gs5)
SCEN(S12_u01_d_Gd) { u01<double, Gd>(); } SCEN(S12_u01_f_Gd) { u01<float, Gd>(); } SCEN(S12_u01_f_Gf) { u01<float, Gf>(); } SCEN(S12_u01_d_Gf) { u01<double, Gf>(); } SCEN(S12_u01_l_Gfull) { u01<long double, Gfull>(); }
#endif
#ifdef UNIT_CANON
// ranges wider than the largest number
CASED(realw1, br::uniform_real_distribution<double>, -1.797e308, 1.797e308) CASED(realw2, br::uniform_real_distribution<double>, -1e307, 1.79e308) CASED(realw3, br::uniform_real_distribution<double>, -1.79e308, 2e307) CASED(realwf, br::uniform_real_distribution<float>, -3e38f, 3e38f) CASED(realwd, boost::uniform_real<double>, -1.797e308, 1.797e308)
#define X(id) SCEN(S12_##id##_Gfull) { bounds<C_##id, Gfull>(3); } SCEN(S12_##id##_G64) { bounds<C_##id, G64>(3); } SCEN(S12_##id##_Gd) { bounds<C_##id, Gd>(3); } SCEN(S12_##id##_p) { boundsp<C_##id, Gfull>(3); }
X(realw1) X(realw2) X(realw3) X(realwf) X(realwd)
#undef X
#endif
#ifdef UNIT_INTS
#define X(id) SCEN(S12_##id##_Gfull) { bounds<C_##id, Gfull>(3); } SCEN(S12_##id##_Gmin) { bounds<C_##id, Gmin>(3); } SCEN(S12_##id##_G64) { bounds<C_##id, G64>(3); } SCEN(S12_##id##_Gs32) { bounds<C_##id, Gs32>(3); } SCEN(S12_##id##_G16) { bounds<C_##id, G16>(3); } SCEN(S12_##id##_G7) { bounds<C_##id, G7>(3); } SCEN(S12_##id##_Gs5) { bounds<C_##id, Gs5>(3); } SCEN(S12_##id##_Gd) { bounds<C_##id, Gd>(3); } SCEN(S12_##id##_p) { boundsp<C_##id, Gfull>(3); }
D_INTS(X)
#undef X
#endif
#ifdef UNIT_DISC
#define WB 10 // the scan over the weights ends when a weight is found: it must not be cut short of the last
#else
#define WB 3
#endif
#define X(id) SCEN(S12_##id##_Gfull) { bounds<C_##id, Gfull>(3); } SCEN(S12_##id##_Gmin) { bounds<C_##id, Gmin>(3); } SCEN(S12_##id##_G64) { bounds<C_##id, G64>(3); } SCEN(S12_##id##_Gd) { bounds<C_##id, Gd>(3); } SCEN(S12_##id##_p) { boundsp<C_##id, Gfull>( WB); }
#include "dunits.hpp"

#ifdef UNIT_EDGE
// parameters at the end of their domain, where the distribution has a single value (or two)
template<class D, class G, class A> void edge(const D& d0, A ok, int B = 3) { va_bound(B); D d(d0); G g; const typename D::result_type x = d(g); va_check(ok(x), "at the edge of the parameter domain the only possible value is drawn"); inside(d, x); D o; G h; const typename D::result_type y = o(h, d.param()); va_check(ok(y), "with explicit parameters at the edge of the domain the only possible value is drawn"); }
#define E1(id, G, T, ok, ...) SCEN(S12_edge_##id##_##G) { edge<T, G>(T(__VA_ARGS__), [](auto x) { return ok; }); }
#define E(id, T, ok, ...) E1(id, Gfull, T, ok, __VA_ARGS__) E1(id, Gmin, T, ok, __VA_ARGS__) E1(id, G64, T, ok, __VA_ARGS__) E1(id, Gd, T, ok, __VA_ARGS__)
template<class D, class G, class A> void edge2(A ok) { va_bound(3); G g; ok(g); }
E(nb1, br::negative_binomial_distribution<>, x == 0, PI(30, 0, 1, 1000), 1.0) E(nb0, br::negative_binomial_distribution<>, x == 0, 0, PD(30, 0, 0.01, 0.99)) E(nb01, br::negative_binomial_distribution<>, x == 0, 0, 1.0)
E(bin0, br::binomial_distribution<>, x == 0, 0, PD(30, 0, 0.0, 1.0)) E(binp0, br::binomial_distribution<>, x == 0, PI(30, 0, 0, 20), 0.0) E(binp1, br::binomial_distribution<>, x == 7, 7, 1.0) E(binb0, br::binomial_distribution<>, x == 0, PI(30, 0, 1000, 100000), 0.0) E(binb1, br::binomial_distribution<>, x == 50000, 50000, 1.0) E(binmx0, br::binomial_distribution<>, x == 0, 2147483647, 0.0) E(binmx1, br::binomial_distribution<>, x == 2147483647, 2147483647, 1.0) E(bin1, br::binomial_distribution<>, x == 0 || x == 1, 1, PD(30, 0, 0.0, 1.0))
E(bern0, br::bernoulli_distribution<>, !x, 0.0) E(bern1, br::bernoulli_distribution<>, x, 1.0)
E(uint, br::uniform_int_distribution<int>, x == -3, -3, -3) E(uintmx, br::uniform_int_distribution<u64>, x == ~0ull, ~0ull, ~0ull) E(uintmn, br::uniform_int_distribution<signed char>, x == -128, -128, -128) E(small, br::uniform_smallint<int>, x == 5, 5, 5) E(dep, boost::uniform_int<short>, x == -32768, -32768, -32768)
E(tri, br::triangle_distribution<>, x == 2.5, 2.5, 2.5, 2.5) E(tril, br::triangle_distribution<>, x >= 1.0 && x <= 3.0000000001, 1.0, 1.0, 3.0) E(trir, br::triangle_distribution<>, x >= 1.0 && x <= 3.0000000001, 1.0, 3.0, 3.0)
E(norm, br::normal_distribution<>, x == 4.0, 4.0, 0.0) E(logn, br::lognormal_distribution<>, x == 1.0, 0.0, 0.0) E(cauchy, br::cauchy_distribution<>, x == 4.0, 4.0, 0.0)
#define EL(id, T, ok, ...) SCEN(S12_edge_##id) { typedef T D; double w[] = __VA_ARGS__; edge<D, Gfull>(D(w, w + sizeof(w) / 8), [](auto x) { return ok; }); } SCEN(S12_edge_##id##_Gd) { typedef T D; double w[] = __VA_ARGS__; edge<D, Gd>(D(w, w + sizeof(w) / 8), [](auto x) { return ok; }); }
EL(disc1, br::discrete_distribution<>, x == 0, { 3 }) EL(disc2, br::discrete_distribution<>, x == 1, { 0, 3 }) EL(disc3, br::discrete_distribution<>, x == 0, { 3, 0 }) EL(disc4, br::discrete_distribution<>, x == 2, { 0, 0, 1, 0, 0 }) EL(disc5, br::discrete_distribution<>, x == 1 || x == 3, { 0, 1, 0, 1, 0 })
// probabilities whose rounded sum is below one: the largest value of [0, 1) lies past every partial sum
#define EZ(id, ...) struct C_zw##id { typedef br::discrete_distribution<> D; template<class Y> static Y mk(int) { double w[] = __VA_ARGS__; return Y(w, w + sizeof(w) / 8); } }; SCEN(S12_zero_##id##_Gd) { boundsp<C_zw##id, Gd>(12); } SCEN(S12_zero_##id##_G64) { boundsp<C_zw##id, G64>(12); } SCEN(S12_zero_##id##_Gf) { bounds<C_zw##id, Gd>(12); }
EZ(a, { 1, 1, 1, 1, 1, 1, 0 }) EZ(b, { 1, 0, 1, 1, 1, 1, 1, 0, 0 }) EZ(c, { 0, 1, 1, 1, 1, 1, 1, 0, 0 }) EZ(d, { 0.1, 0.7, 0.2, 0 }) EZ(e, { 0, 0, 3, 0, 5, 0, 0 })
SCEN(S12_edge_sph0) { va_bound(3); br::uniform_on_sphere<> d(0); Gfull g, h; std::vector<double> v = d(g); va_check(v.empty(), "a point on the sphere has dim() coordinates"); va_check(g == h, "a point of no coordinates takes no randomness"); }
SCEN(S12_edge_sph1) { va_bound(3); br::uniform_on_sphere<> d(1); Gfull g; std::vector<double> v = d(g); va_check(v.size() == 1 && (v[0] == 1 || v[0] == -1), "a point on the sphere has dim() coordinates"); }
SCEN(S12_edge_sph2) { va_bound(3); br::uniform_on_sphere<> d(2); Gfull g; std::vector<double> v = d(g); va_check(v.size() == 2, "a point on the sphere has dim() coordinates"); }
#endif
// the candidates of the rejection method, before they are refused, against the width of the result type
#ifdef UNIT_CAST
#define CB(id, I, t, p) struct C_cb##id { typedef br::binomial_distribution<I> D; template<class Y> static Y mk(int) { return Y(t, p); } }; SCEN(S12_cast_##id##_Gfull) { bounds<C_cb##id, Gfull>(2); } SCEN(S12_cast_##id##_G64) { bounds<C_cb##id, G64>(2); } SCEN(S12_cast_##id##_Gd) { bounds<C_cb##id, Gd>(2); }
CB(s, short, 30000, 0.5) CB(i, int, 2000000000, 0.5) CB(mx, int, 2147483647, 0.75) CB(l, long, 100000, 0.25) CB(i8, short, 100, 0.5)
#endif
