// Catalogue of distributions.  Every parameter is a free value of stream S (range in the case's definition).
#pragma once
#include "arch.hpp"
#include <boost/random/uniform_int.hpp>
#include <boost/random/uniform_int_distribution.hpp>
#include <boost/random/uniform_smallint.hpp>
#include <boost/random/uniform_real.hpp>
#include <boost/random/uniform_real_distribution.hpp>
#include <boost/random/uniform_01.hpp>
#include <boost/random/bernoulli_distribution.hpp>
#include <boost/random/binomial_distribution.hpp>
#include <boost/random/geometric_distribution.hpp>
#include <boost/random/negative_binomial_distribution.hpp>
#include <boost/random/poisson_distribution.hpp>
#include <boost/random/exponential_distribution.hpp>
#include <boost/random/gamma_distribution.hpp>
#include <boost/random/weibull_distribution.hpp>
#include <boost/random/extreme_value_distribution.hpp>
#include <boost/random/normal_distribution.hpp>
#include <boost/random/lognormal_distribution.hpp>
#include <boost/random/chi_squared_distribution.hpp>
#include <boost/random/non_central_chi_squared_distribution.hpp>
#include <boost/random/cauchy_distribution.hpp>
#include <boost/random/fisher_f_distribution.hpp>
#include <boost/random/student_t_distribution.hpp>
#include <boost/random/laplace_distribution.hpp>
#include <boost/random/triangle_distribution.hpp>
#include <boost/random/beta_distribution.hpp>
#include <boost/random/hyperexponential_distribution.hpp>
#include <boost/random/discrete_distribution.hpp>
#include <boost/random/piecewise_constant_distribution.hpp>
#include <boost/random/piecewise_linear_distribution.hpp>
#include <boost/random/uniform_on_sphere.hpp>
#include <boost/random/variate_generator.hpp>
namespace br = boost::random;
// ---- parameter values
inline double PD(int S, int k, double lo, double hi) { return va_sym_d(S, k, lo, hi); }
inline float PF(int S, int k, float lo, float hi) { return va_sym_f(S, k, lo, hi); }
inline long double PL(int S, int k, long double lo, long double hi) { return va_sym_l(S, k, lo, hi); }
inline int PI(int S, int k, int lo, int hi) { return lo + (int)va_sym_u(S, k, 32, 0, (u64)((long long)hi - lo)); }
inline u64 PU(int S, int k, u64 lo, u64 hi) { return va_sym_u(S, k, 64, lo, hi); }
#define DIST1(id, T, e0, a0) struct C_##id { typedef T D; template<class X> static X mk(int S) { return X(e0); } template<class X> static bool acc(const X& t, int S) { return t.a0 == (e0); } };
#define DIST2(id, T, e0, a0, e1, a1) struct C_##id { typedef T D; template<class X> static X mk(int S) { return X(e0, e1); } template<class X> static bool acc(const X& t, int S) { return (t.a0 == (e0)) & (t.a1 == (e1)); } };
#define DIST3(id, T, e0, a0, e1, a1, e2, a2) struct C_##id { typedef T D; template<class X> static X mk(int S) { return X(e0, e1, e2); } template<class X> static bool acc(const X& t, int S) { return (t.a0 == (e0)) & (t.a1 == (e1)) & (t.a2 == (e2)); } };
DIST2(uint, br::uniform_int_distribution<int>, PI(S,0,-1000000000,0), a(), PI(S,1,1,1000000000), b())
DIST2(uintu, br::uniform_int_distribution<unsigned>, (unsigned)PU(S,0,0,0x7fffffff), a(), (unsigned)PU(S,1,0x80000000u,0xffffffffu), b())
DIST2(uint64, br::uniform_int_distribution<u64>, PU(S,0,0,1ull<<62), a(), PU(S,1,1ull<<62,~0ull), b())
DIST2(uint16, br::uniform_int_distribution<short>, (short)PI(S,0,-32767,0), a(), (short)PI(S,1,1,32767), b())
DIST2(uintdep, boost::uniform_int<int>, PI(S,0,-1000000000,0), a(), PI(S,1,1,1000000000), b())
DIST2(small, br::uniform_smallint<int>, PI(S,0,-1000,0), a(), PI(S,1,1,1000), b())
DIST2(real, br::uniform_real_distribution<double>, PD(S,0,-1e6,0.0), a(), PD(S,1,1e-3,1e6), b())
DIST2(realf, br::uniform_real_distribution<float>, PF(S,0,-1e6f,0.0f), a(), PF(S,1,1e-3f,1e6f), b())
DIST2(realdep, boost::uniform_real<double>, PD(S,0,-1e6,0.0), a(), PD(S,1,1e-3,1e6), b())
DIST1(bern, br::bernoulli_distribution<double>, PD(S,0,0.0,1.0), p())
DIST2(binl, br::binomial_distribution<>, PI(S,0,0,20), t(), PD(S,1,0.0,0.5), p())
DIST2(binh, br::binomial_distribution<>, PI(S,0,23,100000), t(), PD(S,1,0.4990234375,0.5), p())
DIST2(binf, br::binomial_distribution<>, PI(S,0,0,20), t(), PD(S,1,0.5009765625,1.0), p())
DIST1(geo, br::geometric_distribution<>, PD(S,0,1e-6,0.999), p())
DIST2(nb, br::negative_binomial_distribution<>, PI(S,0,1,1000), k(), PD(S,1,0.01,0.99), p())
DIST1(poil, br::poisson_distribution<>, PD(S,0,0.01,9.99), mean())
DIST1(poih, br::poisson_distribution<>, PD(S,0,10.0,1e6), mean())
DIST1(exp, br::exponential_distribution<>, PD(S,0,1e-3,1e6), lambda())
DIST1(expf, br::exponential_distribution<float>, PF(S,0,1e-3f,1e6f), lambda())
DIST2(gaml, br::gamma_distribution<>, PD(S,0,0.01,0.999), alpha(), PD(S,1,1e-3,1e6), beta())
DIST2(gamh, br::gamma_distribution<>, PD(S,0,1.001,1e4), alpha(), PD(S,1,1e-3,1e6), beta())
struct C_gam1 { typedef br::gamma_distribution<> D; template<class X> static X mk(int S) { return X(1.0, PD(S,1,1e-3,1e6)); } template<class X> static bool acc(const X& t, int S) { return (t.alpha() == 1.0) & (t.beta() == PD(S,1,1e-3,1e6)); } };
DIST2(weib, br::weibull_distribution<>, PD(S,0,0.01,100), a(), PD(S,1,1e-3,1e6), b())
DIST2(evd, br::extreme_value_distribution<>, PD(S,0,-1e6,1e6), a(), PD(S,1,1e-3,1e6), b())
DIST2(norm, br::normal_distribution<>, PD(S,0,-1e6,1e6), mean(), PD(S,1,1e-3,1e6), sigma())
DIST2(normf, br::normal_distribution<float>, PF(S,0,-1e6f,1e6f), mean(), PF(S,1,1e-3f,1e6f), sigma())
DIST2(logn, br::lognormal_distribution<>, PD(S,0,-10,10), m(), PD(S,1,1e-3,10), s())
DIST1(chil, br::chi_squared_distribution<>, PD(S,0,0.125,1.99), n())
DIST1(chih, br::chi_squared_distribution<>, PD(S,0,2.01,1000), n())
DIST2(ncchi, br::non_central_chi_squared_distribution<>, PD(S,0,1.5,1000), k(), PD(S,1,0.1,1000), lambda())
DIST2(ncchil, br::non_central_chi_squared_distribution<>, PD(S,0,0.1,0.99), k(), PD(S,1,0.1,10), lambda())
DIST2(cauchy, br::cauchy_distribution<>, PD(S,0,-1e6,1e6), median(), PD(S,1,1e-3,1e6), sigma())
DIST2(fish, br::fisher_f_distribution<>, PD(S,0,2.01,1000), m(), PD(S,1,2.01,1000), n())
DIST1(stud, br::student_t_distribution<>, PD(S,0,2.01,1000), n())
DIST2(lapl, br::laplace_distribution<>, PD(S,0,-1e6,1e6), mean(), PD(S,1,1e-3,1e6), beta())
DIST3(tri, br::triangle_distribution<>, PD(S,0,-1e6,-1), a(), PD(S,1,-0.5,0.5), b(), PD(S,2,1,1e6), c())
DIST3(trif, br::triangle_distribution<float>, PF(S,0,-1e6f,-1), a(), PF(S,1,-0.5f,0.5f), b(), PF(S,2,1,1e6f), c())
DIST2(beta, br::beta_distribution<>, PD(S,0,1.001,100), alpha(), PD(S,1,1.001,100), beta())
DIST1(sph, br::uniform_on_sphere<>, 3 + 0 * S, dim())
DIST1(sph2, br::uniform_on_sphere<>, 2 + 0 * S, dim())
// ---- list-parameterised: weights are multiples of 1/16 adding up to 1 (all arithmetic on them is exact); set V, variant by stream
struct WL { int n; int w[6]; };
inline WL wlist(int V, int S) {
  static const WL t[8][2] = { { { 3, { 3, 5, 8 } }, { 3, { 8, 5, 3 } } }, { { 2, { 1, 15 } }, { 2, { 15, 1 } } }, { { 4, { 4, 4, 4, 4 } }, { 4, { 1, 1, 1, 13 } } }, { { 1, { 16 } }, { 2, { 7, 9 } } }, { { 6, { 0, 5, 0, 1, 9, 1 } }, { 6, { 1, 2, 3, 4, 5, 1 } } }, { { 1, { 16 } }, { 2, { 16, 0 } } }, { { 2, { 16, 0 } }, { 1, { 16 } } }, { { 3, { 4, 4, 8 } }, { 3, { 4, 4, 8 } } } };
  return t[V][S & 1]; }
inline bool near_(double x, double y) { double d = x - y; if (d < 0) d = -d; double m = y < 0 ? -y : y; return d <= 1e-12 * (1 + m); }
template<int V> struct C_discV { typedef br::discrete_distribution<int, double> D;
  template<class X> static X mk(int S) { WL l = wlist(V, S); double w[6]; for (int i = 0; i < l.n; ++i) w[i] = l.w[i] / 16.0; return X(w, w + l.n); }
  template<class X> static bool acc(const X& t, int S) { WL l = wlist(V, S); std::vector<double> p = t.probabilities(); bool r = (int)p.size() == l.n; for (int i = 0; i < l.n && r; ++i) r = r & (p[i] == l.w[i] / 16.0); return r; } };
template<int V> struct C_disciV { typedef br::discrete_distribution<int, int> D;
  template<class X> static X mk(int S) { WL l = wlist(V, S); int w[6]; for (int i = 0; i < l.n; ++i) w[i] = l.w[i] + (i == 1 ? V : 0); return X(w, w + l.n); }
  template<class X> static bool acc(const X& t, int S) { WL l = wlist(V, S); std::vector<int> p = t.probabilities(); bool r = (int)p.size() == l.n; for (int i = 0; i < l.n && r; ++i) r = r & (p[i] == l.w[i] + (i == 1 ? V : 0)); return r; } };
template<int V> struct C_pwcV { typedef br::piecewise_constant_distribution<double> D; static double b(int S, int i) { return V == 7 ? (S & 1 ? -3 : -7) + 4 * i : PD(S, 10 + i, -20 + 6 * i, -16 + 6 * i); }
  template<class X> static X mk(int S) { WL l = wlist(V, S); double w[6], x[7]; for (int i = 0; i < l.n; ++i) w[i] = l.w[i] / 16.0; for (int i = 0; i <= l.n; ++i) x[i] = b(S, i); return X(x, x + l.n + 1, w); }
  template<class X> static bool acc(const X& t, int S) { WL l = wlist(V, S); std::vector<double> p = t.intervals(), d = t.densities(); bool r = (int)p.size() == l.n + 1; r = r & ((int)d.size() == l.n); for (int i = 0; i <= l.n && r; ++i) r = r & (p[i] == b(S, i)); for (int i = 0; i < l.n && r; ++i) r = r & (d[i] == l.w[i] / 16.0 / (b(S, i + 1) - b(S, i))); return r; } };
template<int V> struct C_pwlV { typedef br::piecewise_linear_distribution<double> D; static double b(int S, int i) { return (S & 1 ? -3 : -7) + 4 * i; }
  template<class X> static X mk(int S) { WL l = wlist(V, S); double w[6]; for (int i = 0; i < l.n; ++i) w[i] = l.w[i] / 16.0; double x[6]; for (int i = 0; i < l.n; ++i) x[i] = b(S, i); return X(x, x + l.n, w); }
  template<class X> static bool acc(const X& t, int S) { WL l = wlist(V, S); std::vector<double> p = t.intervals(), d = t.densities(); bool r = (int)p.size() == l.n; r = r & ((int)d.size() == l.n); double s = 0; for (int i = 0; i + 1 < l.n; ++i) s += (l.w[i] + l.w[i + 1]) / 32.0 * 4; for (int i = 0; i < l.n && r; ++i) r = r & (p[i] == b(S, i)) & near_(d[i], l.w[i] / 16.0 / s); return r; } };
template<int V> struct C_hypV { typedef br::hyperexponential_distribution<double> D;
  template<class X> static X mk(int S) { WL l = wlist(V, S); double w[6], q[6]; for (int i = 0; i < l.n; ++i) { w[i] = l.w[i] / 16.0; q[i] = PD(S, 20 + i, 0.1, 10); } return X(w, w + l.n, q, q + l.n); }
  template<class X> static bool acc(const X& t, int S) { WL l = wlist(V, S); std::vector<double> a = t.probabilities(), b = t.rates(); bool r = (int)a.size() == l.n; r = r & ((int)b.size() == l.n); for (int i = 0; i < l.n && r; ++i) r = r & (a[i] == l.w[i] / 16.0) & (b[i] == PD(S, 20 + i, 0.1, 10)); return r; } };
// lists where one is the beginning of the other
template<bool R> struct C_pwlPre { typedef br::piecewise_linear_distribution<double> D; static int n(int S) { return ((S & 1) != 0) == R ? 2 : 3; }
  template<class X> static X mk(int S) { double w[3] = { 1, 0, 0 }, x[3] = { 0, 2, 4 }; return X(x, x + n(S), w); }
  template<class X> static bool acc(const X& t, int S) { std::vector<double> p = t.intervals(), d = t.densities(); bool r = (int)p.size() == n(S); r = r & ((int)d.size() == n(S)); for (int i = 0; i < n(S) && r; ++i) r = r & (p[i] == 2 * i) & (d[i] == (i == 0 ? 1 : 0)); return r; } };
typedef C_pwlPre<false> C_pwl5; typedef C_pwlPre<true> C_pwl6; typedef C_pwlV<7> C_pwl7; typedef C_pwcV<5> C_pwc5; typedef C_pwcV<6> C_pwc6; typedef C_pwcV<7> C_pwc7; typedef C_hypV<5> C_hyp5; typedef C_hypV<6> C_hyp6; typedef C_hypV<7> C_hyp7; typedef C_discV<5> C_disc5; typedef C_discV<6> C_disc6; typedef C_disciV<6> C_disci6;
typedef C_discV<0> C_disc; typedef C_discV<1> C_disc1; typedef C_discV<2> C_disc2; typedef C_discV<3> C_disc3; typedef C_discV<4> C_disc4; typedef C_disciV<0> C_disci; typedef C_disciV<1> C_disci1; typedef C_disciV<2> C_disci2; typedef C_disciV<3> C_disci3; typedef C_disciV<4> C_disci4;
typedef C_pwcV<0> C_pwc; typedef C_pwcV<1> C_pwc1; typedef C_pwcV<2> C_pwc2; typedef C_pwcV<4> C_pwc4; typedef C_pwlV<0> C_pwl; typedef C_pwlV<1> C_pwl1; typedef C_pwlV<2> C_pwl2; typedef C_hypV<0> C_hyp; typedef C_hypV<1> C_hyp1; typedef C_hypV<2> C_hyp2;
#define D_INT(X) X(uint) X(uintu) X(uint64) X(uint16) X(uintdep) X(small)
// for drawing with wide integers, whose algorithm depends on the range only through constants: constant ranges, one per stream
#define CASEK(id, T, lo0, hi0, lo1, hi1) struct C_##id { typedef br::uniform_int_distribution<T> D; template<class X> static X mk(int S) { return S & 1 ? X(lo1, hi1) : X(lo0, hi0); } template<class X> static bool acc(const X& t, int S) { return S & 1 ? (t.a() == (lo1)) & (t.b() == (hi1)) : (t.a() == (lo0)) & (t.b() == (hi0)); } };
CASEK(k09, int, 0, 9, -5, 5) CASEK(kone, int, 7, 7, 0, 1) CASEK(kpow, unsigned, 0, 0xffff, 0, 0xfffffffeu) CASEK(kall, int, (-2147483647 - 1), 2147483647, -1500000000, 1500000000) CASEK(kuall, unsigned, 0, 0xffffffffu, 0, 0x7fffffffu) CASEK(k64a, u64, 0, ~0ull, 5, ~0ull) CASEK(k64b, u64, 0, 1ull << 32, 3, (1ull << 40) + 17) CASEK(k64s, long long, (-9223372036854775807LL - 1), 9223372036854775807LL, -4294967296LL, 4294967296LL) CASEK(kc, signed char, -128, 127, -100, 100) CASEK(ks, short, -32768, 32767, -300, 700)
#define D_INTD(X) X(uint) X(uintdep) X(small) X(k09) X(kone) X(kpow) X(kall) X(kuall) X(k64a) X(k64b) X(k64s) X(kc) X(ks)
#define D_REAL(X) X(real) X(realf) X(realdep) X(bern) X(exp) X(expf) X(weib) X(evd) X(cauchy) X(lapl) X(tri) X(trif) X(geo)
#define D_NORM(X) X(norm) X(normf) X(logn) X(sph) X(sph2)
#define D_BIN(X) X(binl) X(binf) X(poil)
#define D_BIH(X) X(binh) X(poih)
#define D_GAM(X) X(gaml) X(gamh) X(gam1) X(chil) X(chih) X(beta)
#define D_GAM2(X) X(ncchi) X(ncchil) X(nb)
#define D_GAM3(X) X(fish) X(stud)
#define D_DISC(X) X(disc) X(disc1) X(disc2) X(disc3) X(disc4) X(disci) X(disci1) X(disci2) X(disci3) X(disci4) X(disc5) X(disc6) X(disci6)
#define D_LST(X) X(pwc) X(pwc1) X(pwc2) X(pwc4) X(pwl) X(pwl1) X(pwl2) X(hyp) X(hyp1) X(hyp2)
#define D_LST2(X) X(pwc5) X(pwc6) X(pwc7) X(pwl5) X(pwl6) X(pwl7) X(hyp5) X(hyp6) X(hyp7)
typedef VRng<u32, 0, 0xffffffffu> Gfull; typedef VRng<u32, 1, 2147483646u> Gmin; typedef VRng<u64, 0, ~0ull> G64; typedef VRng<u32, 0, 255> G8;
