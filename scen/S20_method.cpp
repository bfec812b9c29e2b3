// S20: a draw is the documented transformation of the engine's values: same draws consumed, same value to rounding.
//UNITS: INV ZIG GAM CMP CNT BTRD PTRD LST GRID WIN GZIG WID
#include "dists.hpp"
#include "draws.hpp"
#include "zigtab.hpp"
typedef VRng<u64, 3, 1000002> G1e6; typedef VRngF<double> Gd; typedef VRngS<int, -2147483648LL, 2147483647LL> Gs32;
static const char* const VAL = "a drawn value is the documented transformation of the engine's values";
static const char* const USE = "a draw uses exactly the engine values its method needs";
inline bool same(double a, double b) { double d = a - b; if (d < 0) d = -d; const double m = b < 0 ? -b : b; return eqr(a, b) | (d <= 1e-5 * (1 + m)); }
inline bool same(float a, float b) { float d = a - b; if (d < 0) d = -d; const float m = b < 0 ? -b : b; return eqr(a, b) | (d <= 1e-3f * (1 + m)); }
inline bool same(int a, int b) { return a == b; }
inline bool same(bool a, bool b) { return a == b; }
// ---- building blocks
template<class T, class E> T u01(E& g) { for (;;) { typedef typename E::result_type B; const bool I = std::numeric_limits<B>::is_integer; const T f = T(1) / (T(I ? (T)(u64)((u64)(g.max)() - (u64)(g.min)()) : (T)((g.max)() - (g.min)())) + T(I ? 1 : 0)); const B v = g(); const T r = I ? T((typename std::conditional<I, typename std::make_unsigned<typename std::conditional<I, B, int>::type>::type, B>::type)((u64)v - (u64)(g.min)())) * f : T(v - (g.min)()) * f; if (r < T(1)) return r; } }
template<class E> double ureal(E& g, double a, double b) { for (;;) { const double n = (double)(u64)((u64)g() - (u64)(g.min)()), q = (double)((u64)(g.max)() - (u64)(g.min)()) + 1; const double r = n / q * (b - a) + a; if (r < b) return r; } }
// eight random bits and an independent fraction
template<class T> struct IF { T f; int i; };
template<class T, class E> IF<T> pair8(E& g) { const bool wide = sizeof(typename E::result_type) == 8; IF<T> r; if (!wide) { const u32 a = (u32)g(); r.i = (int)(a & 255u); T t = T(a >> 8) * (T(1) / T(1u << 24)); if (std::numeric_limits<T>::digits > 24) { const u32 b = (u32)g(); t += b & ((1u << 29) - 1); t *= T(0.5) / T(1u << 28); } r.f = t; return r; }
  u64 a = g(); r.i = (int)(a & 255u); a &= ~(1ull << (64 - std::numeric_limits<T>::digits)); r.f = T(a >> 8) * (T(1) / T(1ull << 56)); return r; }
template<class T> T uexp(T x) { return std::exp(-x); }
// ziggurat with rectangles (the tail of the exponential looks like the whole)
template<class T, class E> T rexp1(E& g) { const double* X = zx_exp; const double* Y = zy_exp; T shift(0);
  for (;;) { const IF<T> p = pair8<T>(g); const int i = p.i; const T x = p.f * T(X[i]); if (x < T(X[i + 1])) return shift + x; if (i == 0) { shift += T(X[1]); continue; }
    const T v = u01<T>(g); const T y = T(Y[i]) + v * T(Y[i + 1] - Y[i]); const T up = T(X[i] - X[i + 1]) * v - (T(X[i]) - x), lo = y - (T(Y[i + 1]) + (T(X[i + 1]) - x) * T(Y[i + 1]));
    if (up < 0 && (lo < 0 || y < uexp<T>(x))) return x + shift; } }
template<class T, class E> T rexp(E& g, T l) { return rexp1<T>(g) / l; }
template<class T, class E> T rtail(E& g, T tl) { for (;;) { const T a = rexp<T>(g, tl), b = rexp<T>(g, T(1)); if (2 * b > a * a) return a + tl; } }
template<class T, class E> T rnorm1(E& g) { const double* X = zx_norm; const double* Y = zy_norm;
  for (;;) { const IF<T> p = pair8<T>(g); const int s = (p.i & 1) * 2 - 1, i = p.i >> 1; const T x = p.f * T(X[i]); if (x < X[i + 1]) return x * s;
    if (i == 0) return rtail<T>(g, T(X[1])) * s;
    const T v = u01<T>(g); const T y = T(Y[i]) + v * T(Y[i + 1] - Y[i]); const T chord = T(X[i] - X[i + 1]) * v - (T(X[i]) - x), tang = y - (T(Y[i]) + (T(X[i]) - x) * T(Y[i]) * T(X[i]));
    T up, lo; if (X[i] >= 1) { up = chord; lo = tang; } else { up = tang; lo = chord; }
    if (up < 0 && (lo < 0 || y < std::exp(-(x * x / 2)))) return x * s; } }
template<class T, class E> T rnorm(E& g, T m, T s) { return rnorm1<T>(g) * s + m; }
template<class E> double rgamma(E& g, double a, double b) { using namespace std; if (a == 1) return rexp1<double>(g) * b;
  if (a > 1) for (;;) { const double y = tan(3.14159265358979323846 * u01<double>(g)); const double x = sqrt(2.0 * a - 1.0) * y + a - 1.0; if (x <= 0) continue; const double u = u01<double>(g); if (u >= (1 + y * y) * exp((a - 1) * log(x / (a - 1)) - sqrt(2.0 * a - 1.0) * y)) continue; return x * b; }
  const double p = exp(1.0) / (a + exp(1.0)); for (;;) { const double u = u01<double>(g), y = rexp1<double>(g); double x, q; if (u < p) { x = exp(-y / a); q = p * exp(-x); } else { x = 1.0 + y; q = p + (1.0 - p) * pow(x, a - 1.0); } if (u >= q) continue; return x * b; } }
template<class E> double rchi2(E& g, double n) { return 2 * rgamma(g, n / 2, 1.0); }
template<class E> int rpois(E& g, double mean);
template<class E> int rbin(E& g, int t, double p);
template<class D, class E, class F> void cmp(const D& d, F f, int B, int reps = 1) { va_bound(B); va_values_only(); E g, h; D c(d); for (int i = 0; i < reps; ++i) { const typename D::result_type x = c(g); const typename D::result_type y = f(h); va_check(same(x, y), VAL); va_check(g == h, USE); } }
#define P0 PD(10, 0, -10, 10)
#define P1 PD(10, 1, 0.5, 10)
#define RUN(id, E, B, reps, D, CT, EX) SCEN(S20_##id##_##E) { cmp<D, E>(D CT, [](E& g) -> D::result_type { using namespace std; return EX; }, B, reps); } SCEN(S20_##id##_p_##E) { va_bound(B); va_values_only(); E g, h; D d; const D::result_type x = d(g, D::param_type CT); const D::result_type y = [](E& g) -> D::result_type { using namespace std; return EX; }(h); va_check(same(x, y), VAL); va_check(g == h, USE); }
#ifdef UNIT_INV
#define INV(E) \
RUN(cauchy, E, 3, 2, br::cauchy_distribution<>, (P0, P1), P0 + P1 * tan(3.14159265358979323846 * (u01<double>(g) - 0.5))) \
RUN(weibull, E, 3, 2, br::weibull_distribution<>, (P1, P2), P2 * pow(-log(1 - u01<double>(g)), 1 / P1)) \
RUN(evd, E, 3, 2, br::extreme_value_distribution<>, (P0, P1), P0 - log(-log(u01<double>(g))) * P1) \
RUN(geo, E, 3, 2, br::geometric_distribution<>, (PP), (int)floor(log(1.0 - u01<double>(g)) / log(1 - PP))) \
RUN(tri, E, 3, 2, br::triangle_distribution<>, (T0, T1, T2), tri(u01<double>(g), T0, T1, T2)) \
RUN(real, E, 3, 2, br::uniform_real_distribution<>, (P0, P0 + P1), ureal(g, P0, P0 + P1)) \
RUN(bern, E, 3, 2, br::bernoulli_distribution<>, (PP), bern(g, PP))
#define P2 PD(10, 2, 0.5, 10)
#define PP PD(10, 3, 0.01, 0.99)
#define T0 PD(10, 0, -20, -10)
#define T1 PD(10, 1, -8, 8)
#define T2 PD(10, 2, 10, 20)
template<class E> bool bern(E& g, double p) { const double v = (double)(u64)((u64)g() - (u64)(g.min)()); return v <= p * (double)((u64)(g.max)() - (u64)(g.min)()); }
inline double tri(double u, double a, double b, double c) { return u <= (b - a) / (c - a) ? a + std::sqrt((b - a) * (c - a)) * std::sqrt(u) : c - std::sqrt(c - b) * std::sqrt((c - a) * u - (b - a)); }
INV(Gfull) INV(G64) INV(G1e6)
// ranges wider than the largest number: the halves are drawn from and doubled
template<class T, class E> T urealw(E& g, T a, T b) { a /= 2; b /= 2; for (;;) { const T n = (T)(u64)((u64)g() - (u64)(g.min)()), q = (T)((u64)(g.max)() - (u64)(g.min)()) + 1; const T r = n / q * (b - a) + a; if (r < b) return 2 * r; } }
#define WIDE(E) RUN(rwid1, E, 3, 2, br::uniform_real_distribution<>, (-1.797e308, 1.797e308), urealw(g, -1.797e308, 1.797e308)) RUN(rwid2, E, 3, 2, br::uniform_real_distribution<>, (-1e307, 1.79e308), urealw(g, -1e307, 1.79e308)) RUN(rwid3, E, 3, 2, br::uniform_real_distribution<>, (-1.79e308, 2e307), urealw(g, -1.79e308, 2e307)) RUN(rwid4, E, 3, 2, br::uniform_real_distribution<>, (-9.1e307, 9.1e307), urealw(g, -9.1e307, 9.1e307)) RUN(rwidf, E, 3, 2, br::uniform_real_distribution<float>, (-3e38f, 3e38f), urealw(g, -3e38f, 3e38f)) RUN(rwid5, E, 3, 2, br::uniform_real_distribution<>, (-8e307, 8e307), ureal(g, -8e307, 8e307))
WIDE(Gfull) WIDE(G64)
// a value in the middle of the engine's range is taken at once, however wide the range: an overflow of max - min would refuse every value
struct Mid : Gfull { u32 operator()() { if (this->pos++ > 4) throw 1; return 0x80000000u; } };
#define TAKEN(id, D, lo, hi, E) SCEN(S20_taken_##id) { va_bound(8); va_values_only(); E g; D d(lo, hi); try { const D::result_type x = d(g); va_check(g.pos == 1 && x >= d.a() && x < d.b(), USE); } catch (int) { va_check(false, "a value from the middle of the engine's range is not refused again and again"); } }
TAKEN(1, br::uniform_real_distribution<>, -1.797e308, 1.797e308, Mid) TAKEN(2, br::uniform_real_distribution<>, -1e307, 1.79e308, Mid) TAKEN(3, br::uniform_real_distribution<>, -1.79e308, 2e307, Mid) TAKEN(4, br::uniform_real_distribution<>, -9.1e307, 9.1e307, Mid) TAKEN(f, br::uniform_real_distribution<float>, -3e38f, 3e38f, Mid) TAKEN(ff, br::uniform_real_distribution<float>, -3.4e38f, 1e37f, Mid) TAKEN(5, br::uniform_real_distribution<>, -8.9e307, 8.9e307, Mid) TAKEN(6, br::uniform_real_distribution<>, PD(10, 0, -1.79e308, -1e308), PD(10, 1, 1e308, 1.79e308), Mid)
#endif
#ifdef UNIT_ZIG
#define ZIG(E, r) \
RUN(exp, E, r, 1, br::exponential_distribution<>, (P1), rexp<double>(g, P1)) \
RUN(expf, E, r, 1, br::exponential_distribution<float>, (2.5f), rexp<float>(g, 2.5f)) \
RUN(norm, E, r, 1, br::normal_distribution<>, (P0, P1), rnorm<double>(g, P0, P1)) \
RUN(normf, E, r, 1, br::normal_distribution<float>, (1.5f, 2.5f), rnorm<float>(g, 1.5f, 2.5f)) \
RUN(logn, E, r, 1, br::lognormal_distribution<>, (PD(10, 0, -2, 2), PD(10, 1, 0.5, 2)), exp(rnorm<double>(g, PD(10, 0, -2, 2), PD(10, 1, 0.5, 2)))) \
RUN(lapl, E, r, 1, br::laplace_distribution<>, (P0, P1), lapl(g, P0, P1))
template<class E> double lapl(E& g, double m, double b) { double e = rexp1<double>(g); if (u01<double>(g) < 0.5) e = -e; return m + b * e; }
ZIG(Gfull, 2) ZIG(G64, 2)
template<class E> void sphere(int n, int B) { va_bound(B); va_values_only(); E g, h; br::uniform_on_sphere<> d(n); const std::vector<double> x = d(g); double y[6]; double s = 0; using std::sqrt;
  if (n == 1) y[0] = u01<double>(h) < 0.5 ? -1 : 1;
  else if (n == 2 || n == 3) { double a, b; do { a = u01<double>(h) * 2 - 1; b = u01<double>(h) * 2 - 1; s = a * a + b * b; } while ((n == 2 && s == 0) || s > 1); if (n == 2) { const double m = 1 / sqrt(s); y[0] = a * m; y[1] = b * m; } else { const double m = 2 * sqrt(1 - s); y[0] = a * m; y[1] = b * m; y[2] = 2 * s - 1; } }
  else { for (int i = 0; i < n; ++i) { y[i] = rnorm1<double>(h); s += y[i] * y[i]; } va_assume(s != 0); const double m = 1 / sqrt(s); for (int i = 0; i < n; ++i) y[i] *= m; }
  va_check((int)x.size() == n, "a point on the sphere has dim() coordinates"); bool ok = true; for (int i = 0; i < n; ++i) ok = ok & same(x[i], y[i]); va_check(ok, VAL); va_check(g == h, USE); }
SCEN(S20_sph1) { sphere<Gfull>(1, 3); } SCEN(S20_sph2) { sphere<Gfull>(2, 3); } SCEN(S20_sph3) { sphere<Gfull>(3, 3); } SCEN(S20_sph4) { sphere<G64>(4, 1); } SCEN(S20_sph5) { sphere<G64>(5, 1); } SCEN(S20_sph2_64) { sphere<G64>(2, 3); } SCEN(S20_sph3_64) { sphere<G64>(3, 3); }
#endif
#ifdef UNIT_GAM
#define GA(id, E, r, a, b) RUN(gam_##id, E, r, 1, br::gamma_distribution<>, (a, b), rgamma(g, a, b))
#define GAM(E, r) GA(lo, E, r, PD(10, 4, 0.05, 0.95), P1) GA(hi, E, r, PD(10, 4, 1.5, 20), P1) GA(one, E, r, 1.0, P1) GA(h, E, r, 0.5, 2.0) GA(t, E, r, 3.0, 1.0) RUN(chil, E, r, 1, br::chi_squared_distribution<>, (PD(10, 4, 0.5, 1.5)), rchi2(g, PD(10, 4, 0.5, 1.5))) RUN(chih, E, r, 1, br::chi_squared_distribution<>, (PD(10, 4, 3, 50)), rchi2(g, PD(10, 4, 3, 50))) RUN(chi2, E, r, 1, br::chi_squared_distribution<>, (2.0), rchi2(g, 2.0))
GAM(Gfull, 2) GAM(G64, 2)
#endif
#ifdef UNIT_CMP
template<class E> double rbeta(E& g, double a, double b) { const double x = rgamma(g, a, 1.0), y = rgamma(g, b, 1.0); return x / (x + y); }
template<class E> double rfish(E& g, double m, double n) { const double a = rchi2(g, m), b = rchi2(g, n); return (a * n) / (b * m); }
template<class E> double rfish2(E& g, double m, double n) { const double b = rchi2(g, n), a = rchi2(g, m); return (a * n) / (b * m); }
template<class E> double rstud(E& g, double n) { const double z = rnorm<double>(g, 0.0, 1.0), c = rchi2(g, n); return z / std::sqrt(c / n); }
template<class E> double rncc(E& g, double k, double l) { if (k > 1) { const double z = rnorm<double>(g, 0.0, 1.0), x = rchi2(g, k - 1), t = z + std::sqrt(l); return t * t + x; } const int p = rpois(g, l / 2); return rchi2(g, k + 2.0 * p); }
#define CMP(E, r) RUN(beta, E, r, 1, br::beta_distribution<>, (PD(10, 4, 1.5, 5), PD(10, 5, 1.5, 9)), rbeta(g, PD(10, 4, 1.5, 5), PD(10, 5, 1.5, 9))) RUN(fish, E, r, 1, br::fisher_f_distribution<>, (PD(10, 4, 3, 9), PD(10, 5, 3, 9)), rfish(g, PD(10, 4, 3, 9), PD(10, 5, 3, 9))) RUN(stud, E, r, 1, br::student_t_distribution<>, (PD(10, 4, 3, 9)), rstud(g, PD(10, 4, 3, 9))) RUN(ncc, E, r, 1, br::non_central_chi_squared_distribution<>, (PD(10, 4, 3, 9), P1), rncc(g, PD(10, 4, 3, 9), P1)) RUN(ncc2, E, r, 1, br::non_central_chi_squared_distribution<>, (0.5, PD(10, 4, 0.5, 2)), rncc(g, 0.5, PD(10, 4, 0.5, 2))) RUN(ncc3, E, 4, 1, br::non_central_chi_squared_distribution<>, (1.0, 4.0), rncc(g, 1.0, 4.0))
CMP(G64, 1)
#endif
#include <boost/random/detail/disable_warnings.hpp>
template<class E> int rpois(E& g, double mean) { using namespace std;
  if (mean < 10) { double p = exp(-mean), u = u01<double>(g); int x = 0; while (u > p) { u = u - p; ++x; const double q = mean * p / x; if (q < numeric_limits<double>::epsilon() && q < p) break; p = q; } return x; }
  const double smu = sqrt(mean), b = 0.931 + 2.53 * smu, a = -0.059 + 0.02483 * b, ia = 1.1239 + 1.1328 / (b - 3.4), vr = 0.9277 - 3.6224 / (b - 2);
  static const double lf[10] = { 0, 0, 0.69314718055994529, 1.7917594692280550, 3.1780538303479458, 4.7874917427820458, 6.5792512120101012, 8.5251613610654147, 10.604602902745251, 12.801827480081469 };
  for (;;) { double u, v = u01<double>(g); if (v <= 0.86 * vr) { u = v / vr - 0.43; return (int)floor((2 * a / (0.5 - abs(u)) + b) * u + mean + 0.445); }
    if (v >= vr) u = u01<double>(g) - 0.5; else { u = v / vr - 0.93; u = ((u < 0) ? -0.5 : 0.5) - u; v = u01<double>(g) * vr; }
    const double us = 0.5 - abs(u); if (v <= 0 || (us < 0.013 && v > us)) continue; const double k = floor((2 * a / us + b) * u + mean + 0.445); v = v * ia / (a / (us * us) + b);
    if (k >= 10) { if (log(v * smu) <= (k + 0.5) * log(mean / k) - mean - 0.91893853320467267 + k - (1 / 12. - (1 / 360. - 1 / (1260. * k * k)) / (k * k)) / k) return (int)k; }
    else if (k >= 0) { if (log(v) <= k * log(mean) - mean - lf[(int)k]) return (int)k; } } }
template<class E> int rbtrd(E& g, int t, double p, int m) { using namespace std;
  const double r = p / (1 - p), nr = (t + 1.0) * r, npq = t * p * (1 - p), sq = sqrt(npq), b = 1.15 + 2.53 * sq, a = -0.0873 + 0.0248 * b + 0.01 * p, c = t * p + 0.5, al = (2.83 + 5.1 / b) * sq, vr = 0.92 - 4.2 / b, urvr = 0.86 * vr;
  static const double tb[10] = { 0.08106146679532726, 0.04134069595540929, 0.02767792568499834, 0.02079067210376509, 0.01664469118982119, 0.01387612882307075, 0.01189670994589177, 0.01041126526197209, 0.009255462182712733, 0.008330563433362871 };
  struct F { static double fc(int k) { if (k < 10) return tb[k]; const double i = 1.0 / (k + 1.0); return (1.0 / 12 - (1.0 / 360 - (1.0 / 1260) * (i * i)) * (i * i)) * i; } };
  for (;;) { double u, v = u01<double>(g); if (v <= urvr) { u = v / vr - 0.43; return (int)floor((2 * a / (0.5 - abs(u)) + b) * u + c); }
    if (v >= vr) u = u01<double>(g) - 0.5; else { u = v / vr - 0.93; u = ((u < 0) ? -0.5 : 0.5) - u; v = u01<double>(g) * vr; }
    const double us = 0.5 - abs(u); const double kr = floor((2 * a / us + b) * u + c); if (!(kr >= 0 && kr < t + 1.0)) continue; const int k = (int)kr; v = v * al / (a / (us * us) + b); const double km = abs(k - m);
    if (km <= 15) { double f = 1; if (m < k) for (int i = m + 1; i <= k; ++i) f = f * (nr / i - r); else if (m > k) for (int i = k + 1; i <= m; ++i) v = v * (nr / i - r); if (v <= f) return k; continue; }
    v = log(v); const double rho = (km / npq) * (((km / 3. + 0.625) * km + 1. / 6) / npq + 0.5), tt = -km * km / (2 * npq); if (v < tt - rho) return k; if (v > tt + rho) continue;
    const int nm = t - m + 1; const double h = (m + 0.5) * log((m + 1) / (r * nm)) + F::fc(m) + F::fc(t - m); const double nk = t - k + 1.0;
    if (v <= h + (t + 1.0) * log((double)nm / nk) + (k + 0.5) * log(nk * r / (k + 1.0)) - F::fc(k) - F::fc(t - k)) return k; } }
template<class E> int rbin(E& g, int t, double pp) { using namespace std; const double p = 0.5 < pp ? 1 - pp : pp; const int m = (int)((t + 1.0) * p);
  if (m < 11) { const double q = 1 - p, s = p / q, a = (t + 1.0) * s; double r = pow(1 - p, (double)t), u = u01<double>(g); int x = 0; while (u > r && x < t) { u = u - r; ++x; const double r1 = ((a / x) - s) * r; if (r1 < numeric_limits<double>::epsilon() && r1 < r) break; r = r1; } return 0.5 < pp ? t - x : x; }
  return 0.5 < pp ? t - rbtrd(g, t, p, m) : rbtrd(g, t, p, m); }
#ifdef UNIT_CNT
#define CN(E) RUN(poisl, E, 14, 1, br::poisson_distribution<>, (PD(10, 4, 0.1, 3)), rpois(g, PD(10, 4, 0.1, 3))) RUN(pois9, E, 30, 1, br::poisson_distribution<>, (9.5), rpois(g, 9.5)) RUN(binl, E, 12, 1, br::binomial_distribution<>, (7, PD(10, 4, 0.1, 0.5)), rbin(g, 7, PD(10, 4, 0.1, 0.5))) RUN(binf, E, 12, 1, br::binomial_distribution<>, (7, PD(10, 4, 0.51, 0.9)), rbin(g, 7, PD(10, 4, 0.51, 0.9))) RUN(bin30, E, 30, 1, br::binomial_distribution<>, (30, 0.25), rbin(g, 30, 0.25)) RUN(bin0, E, 4, 1, br::binomial_distribution<>, (0, 0.25), rbin(g, 0, 0.25)) RUN(binmx, E, 10, 1, br::binomial_distribution<>, (2147483647, 1e-9), rbin(g, 2147483647, 1e-9)) RUN(nb, E, 4, 1, br::negative_binomial_distribution<>, (3, 0.75), rnb(g, 3, 0.75))
template<class E> int rnb(E& g, int k, double p) { const double m = rgamma(g, (double)k, (1 - p) / p); if (!(m > 0)) return 0; return rpois(g, m); }
CN(Gfull) CN(G64)
#endif
#ifdef UNIT_BTRD
// at most two values, so that a retry of the method is left out
struct Two : Gfull { u32 operator()() { va_assume(this->pos < 2); return at(pos++); } };
#define BT(id, t, p) RUN(btrd_##id, Two, 16, 1, br::binomial_distribution<>, (t, p), rbin(g, t, p)) RUN(btrd1_##id, Gfull, 1, 1, br::binomial_distribution<>, (t, p), rbin(g, t, p))
BT(a, 100, 0.25) BT(b, 50, 0.5) BT(c, 1000, 0.75) BT(d, 40, 0.6) BT(e, 100000, 0.375) BT(mx, 2147483647, 0.5) BT(mxf, 2147483647, 0.75) BT(mxs, 2147483647, 0.00000001)
#endif
#ifdef UNIT_PTRD
#define PT(id, E, m) RUN(ptrd_##id, E, 2, 1, br::poisson_distribution<>, (m), rpois(g, m))
PT(a, G64, 10.0) PT(b, G64, 25.5) PT(c, G64, 1000.0) PT(d, G64, PD(10, 4, 10, 1000)) PT(e, Gfull, 12.0)
#endif
// ---- every value of a finite grid of draws: the two agree on each (accepted values, rejections, draws used); later draws are ones that are accepted at once
static const char* const GR = "on every value of a grid of draws a distribution gives the value of its method";
template<u64 n, int L> struct Grid : VRng<u32, 0, n - 1> { u32 operator()() { const u64 p = this->pos++; u32 r = 0; for (int k = 0; k < L; ++k) if (p == (u64)k) r = this->at(k); return r; } };
#define GRID(id, n, L, B, D, CT, EX) SCEN(S20_grid_##id) { va_bound(B); va_values_only(); typedef Grid<n, L> E; E g, h; D d CT; const D::result_type x = d(g); const D::result_type y = [](E& g) -> D::result_type { using namespace std; return EX; }(h); va_ratio((u64)!(same(x, y) & (g.pos == h.pos)), 1, 0, 1, 0, GR); }
#ifdef UNIT_GRID
#define GB(id, t, p) GRID(btrd_##id, 600, 2, 17, br::binomial_distribution<>, (t, p), rbin(g, t, p))
#define GP(id, m) GRID(ptrd_##id, 600, 2, 4, br::poisson_distribution<>, (m), rpois(g, m))
#define GG(id, a) GRID(gam_##id, 600, 2, 4, br::gamma_distribution<>, (a, 2.0), rgamma(g, a, 2.0))
GB(a, 100, 0.25) GB(b, 40, 0.5) GB(c, 1000, 0.75) GB(d, 100000, 0.375) GB(e, 30, 0.6) GB(mx, 2147483647, 0.375) GB(mxs, 2147483647, 0.00000001) GP(a, 10.0) GP(b, 25.5) GP(c, 1000.0) GP(d, 14.25) GG(a, 1.5) GG(b, 3.0) GG(c, 20.0) GG(d, 1.0625)
GRID(pinv, 100000, 1, 40, br::poisson_distribution<>, (3.5), rpois(g, 3.5)) GRID(pinv2, 20000, 1, 60, br::poisson_distribution<>, (9.75), rpois(g, 9.75)) GRID(binv, 100000, 1, 24, br::binomial_distribution<>, (20, 0.375), rbin(g, 20, 0.375)) GRID(binvf, 100000, 1, 24, br::binomial_distribution<>, (15, 0.625), rbin(g, 15, 0.625)) GRID(geo, 100000, 1, 3, br::geometric_distribution<>, (0.3), (int)floor(log(1.0 - u01<double>(g)) / log(1 - 0.3)))
#endif
#ifdef UNIT_WIN
// windows of the draws where a rule is decided: first value near v0, second over [0, hi)
struct Win : Gfull { double v0, s0, s1; Win(double a, double b, double c) : v0(a), s0(b), s1(c) {} u32 operator()() { const u64 p = pos++; u32 r = 0; if (p == 0) r = (u32)(v0 * 4294967296.0) + (u32)(s0 * 4294967296.0) * (u32)va_sym_u(1, 0, 32, 0, 499); else if (p == 1) r = (u32)(s1 * 4294967296.0) * (u32)va_sym_u(1, 1, 32, 0, 499); return r; } };
#define WIN(id, w, D, CT, EX) SCEN(S20_win_##id) { va_bound(17); va_values_only(); typedef Win E; E g w, h w; D d CT; const D::result_type x = d(g); const D::result_type y = EX; va_ratio((u64)!(same(x, y) & (g.pos == h.pos)), 1, 0, 1, 0, GR); }
inline double pvr(double m) { return 0.9277 - 3.6224 / (0.931 + 2.53 * std::sqrt(m) - 2); }
inline double bvr(int t, double p) { return 0.92 - 4.2 / (1.15 + 2.53 * std::sqrt(t * p * (1 - p))); }
#define WP(id, m) WIN(ptrd_us_##id, (pvr(m) * 0.90, pvr(m) * 0.06 / 500, 0.001), br::poisson_distribution<>, (m), rpois(h, m)) WIN(ptrd_rect_##id, (pvr(m) * 0.855, pvr(m) * 0.01 / 500, 0.0019), br::poisson_distribution<>, (m), rpois(h, m)) WIN(ptrd_hi_##id, (pvr(m), (1 - pvr(m)) / 501, 0.0019), br::poisson_distribution<>, (m), rpois(h, m)) WIN(ptrd_mid_##id, (pvr(m) * 0.86, pvr(m) * 0.14 / 500, 0.0019), br::poisson_distribution<>, (m), rpois(h, m))
#define WB(id, t, p) WIN(btrd_us_##id, (bvr(t, p) * 0.90, bvr(t, p) * 0.06 / 500, 0.001), br::binomial_distribution<>, (t, p), rbin(h, t, p)) WIN(btrd_mid_##id, (bvr(t, p) * 0.86, bvr(t, p) * 0.14 / 500, 0.0019), br::binomial_distribution<>, (t, p), rbin(h, t, p))
WP(a, 10.0) WP(b, 25.5) WP(c, 1000.0) WB(a, 100, 0.25) WB(c, 1000, 0.375)
// a second value of exactly zero accepts nothing
#define WZ(id, m) WIN(ptrd_zero_##id, (pvr(m) * 0.87, pvr(m) * 0.12 / 500, 0), br::poisson_distribution<>, (m), rpois(h, m)) WIN(ptrd_zeron_##id, (pvr(m) * 0.9299999, pvr(m) * 0.0000002 / 500, 0), br::poisson_distribution<>, (m), rpois(h, m))
WZ(a, 10.0) WZ(b, 25.5) WZ(c, 1000.0)
// candidates far outside the range of the result type are refused, not wrapped into it
WIN(btrd_wrap, (0.9687, 0.00005, 1e-8), br::binomial_distribution<short>, (30000, 0.5), (short)rbin(h, 30000, 0.5)) WIN(btrd_wrap2, (0.9687, 0.00005, 1e-6), br::binomial_distribution<short>, (30000, 0.5), (short)rbin(h, 30000, 0.5)) WIN(btrd_wrapi, (0.9687, 0.00005, 1e-9), br::binomial_distribution<>, (2000000000, 0.5), rbin(h, 2000000000, 0.5))
#endif
#ifdef UNIT_GZIG
// layer and sign bits, fraction (dense near 1, where the wedges are), height: all combinations
template<int H> struct Zig : Gfull { u32 operator()() { const u64 p = pos++; u32 r = 4; if (p == 0) r = (u32)va_sym_u(1, 0, 32, 0, 255); else if (p == 1) { const u32 f = (u32)va_sym_u(1, 1, 32, 0, 31); r = H ? 0x1e000000u | f << 20 : f << 24; } else if (p == 2) r = (u32)va_sym_u(1, 2, 32, 0, 63) << 26; else if (p == 4) r = 0; return r; } };
typedef Zig<0> Zg0; typedef Zig<1> Zg1;
#define ZC(...) va_bound(3); va_values_only(); E g __VA_ARGS__, h __VA_ARGS__;
#define ZE const bool ok = same(x, y) & (g.pos == h.pos); va_ratio((u64)!ok, 1, 0, 1, 0, GR);
#define ZG(id, Z, D, T, R) SCEN(S20_zig_##id##_##Z) { typedef Z E; ZC() D d; const T x = d(g); const T y = R<T>(h); ZE }
ZG(exp, Zg0, br::exponential_distribution<>, double, rexp1) ZG(exp, Zg1, br::exponential_distribution<>, double, rexp1) ZG(norm, Zg0, br::normal_distribution<>, double, rnorm1) ZG(norm, Zg1, br::normal_distribution<>, double, rnorm1)
// one layer, a fine grid over its wedge
struct Wedge : Gfull { u32 i, f0, fs; Wedge(u32 a, double r) : i(a), f0((u32)(r * 536870912.0)), fs((u32)((1 - r) * 536870912.0 / 257)) {} u32 operator()() { const u64 p = pos++; u32 r = 4; if (p == 0) r = i; else if (p == 1) r = f0 + fs * (u32)va_sym_u(1, 1, 32, 0, 255); else if (p == 2) r = (u32)va_sym_u(1, 2, 32, 0, 511) << 23; else if (p == 4) r = 0; return r; } };
#define WE(i) SCEN(S20_wedge_exp_##i) { typedef Wedge E; const double* X = zx_exp; ZC((i, X[i + 1] / X[i])) br::exponential_distribution<> d; const double x = d(g); const double y = rexp1<double>(h); ZE }
#define WN(i) SCEN(S20_wedge_norm_##i) { typedef Wedge E; const double* X = zx_norm; ZC((2 * i + (i & 1), X[i + 1] / X[i])) br::normal_distribution<> d; const double x = d(g); const double y = rnorm1<double>(h); ZE }
WE(1) WE(2) WE(3) WE(10) WE(40) WE(100) WE(200) WE(250) WE(254) WE(255) WN(1) WN(2) WN(3) WN(10) WN(30) WN(60) WN(70) WN(80) WN(90) WN(95) WN(100) WN(110) WN(120) WN(125) WN(126) WN(127)
// the tails: two exponentials for the normal, further layers for the exponential
struct Tail : Gfull { u32 operator()() { const u64 p = pos++; u32 r = 1; if (p == 0) r = (u32)va_sym_u(1, 0, 32, 0, 1); else if (p == 1) r = 0x1fffffffu; else if (p == 3) r = (u32)va_sym_u(1, 1, 32, 0, 255) << 21; else if (p == 5) r = (u32)va_sym_u(1, 2, 32, 0, 255) << 21; else if (p == 7) r = 0; else if (p == 9) r = 0x08000000u; return r; } };
SCEN(S20_tail_norm) { typedef Tail E; ZC() br::normal_distribution<> d; const double x = d(g); const double y = rnorm1<double>(h); ZE }
struct TailE : Gfull { u32 operator()() { const u64 p = pos++; u32 r = 4; if (p == 0) r = 0; else if (p == 1) r = 0x1fffffffu; else if (p == 2) r = (u32)va_sym_u(1, 3, 32, 0, 15); else if (p == 3) r = (u32)va_sym_u(1, 1, 32, 0, 255) << 21; else if (p == 4) r = (u32)va_sym_u(1, 2, 32, 0, 255) << 24; else if (p == 5) r = 0x08000000u; return r; } };
SCEN(S20_tail_exp) { typedef TailE E; ZC() va_bound(5); br::exponential_distribution<> d; const double x = d(g); const double y = rexp1<double>(h); ZE }
#endif
#ifdef UNIT_LST
// list-valued: the index of the alias method, then the value inside
template<class C> void hyper(int B) { va_bound(B); va_values_only(); typedef typename C::D D; D d(C::template mk<D>(10)); G64 g, h; const double x = d(g); const std::vector<double> p = d.probabilities(), q = d.rates(); br::discrete_distribution<int, double> i(p.begin(), p.end()); const int k = i(h); va_assume(k >= 0 && k < (int)q.size()); const double y = rexp<double>(h, q[k]); va_check(same(x, y), VAL); va_check(g == h, USE); }
SCEN(S20_hyp) { hyper<C_hyp>(1); } SCEN(S20_hyp1) { hyper<C_hyp1>(1); } SCEN(S20_hyp2) { hyper<C_hyp2>(1); }
template<int V> void pwc(int B) { va_bound(B); va_values_only(); typedef br::piecewise_constant_distribution<double> D; const WL l = wlist(V, 10); double w[6], b[7]; for (int i = 0; i < l.n; ++i) w[i] = l.w[i] / 16.0; for (int i = 0; i <= l.n; ++i) b[i] = (i * i) - 7.25 * i + 3 + 9 * i; D d(b, b + l.n + 1, w); G64 g, h; const double x = d(g); br::discrete_distribution<std::size_t, double> di(w, w + l.n); const std::size_t k = di(h); va_assume(k < (std::size_t)l.n); const double y = ureal(h, b[k], b[k + 1]); va_check(same(x, y), VAL); va_check(g == h, USE); }
SCEN(S20_pwc0) { pwc<0>(2); } SCEN(S20_pwc1) { pwc<1>(2); } SCEN(S20_pwc2) { pwc<2>(2); } SCEN(S20_pwc4) { pwc<4>(1); }
template<int V> void pwl(int B) { va_bound(B); va_values_only(); typedef br::piecewise_linear_distribution<double> D; const WL l = wlist(V, 10); double w[6], b[7], p[12]; const int n = l.n; for (int i = 0; i < n; ++i) { w[i] = l.w[i] / 16.0; b[i] = (i * i) - 7.25 * i + 3 + 9 * i; } D d(b, b + n, w); G64 g, h; const double x = d(g);
  for (int i = 0; i + 1 < n; ++i) { const double lo = w[i] < w[i + 1] ? w[i] : w[i + 1], hi = w[i] < w[i + 1] ? w[i + 1] : w[i], len = b[i + 1] - b[i]; p[2 * i] = lo * len; p[2 * i + 1] = (hi - lo) * len / 2; }
  br::discrete_distribution<std::size_t, double> di(p, p + 2 * (n - 1)); const std::size_t k = di(h); va_assume(k < (std::size_t)(2 * (n - 1))); const std::size_t i = k >> 1; double y = ureal(h, b[i], b[i + 1]);
  if (k & 1) { const double z = ureal(h, b[i], b[i + 1]); y = w[i] < w[i + 1] ? (y < z ? z : y) : (z < y ? z : y); } va_check(same(x, y), VAL); va_check(g == h, USE); }
SCEN(S20_pwl0) { pwl<0>(1); } SCEN(S20_pwl1) { pwl<1>(1); } SCEN(S20_pwl2) { pwl<2>(1); }
#endif

// ---- the integer/fraction pair on engines of every width of digit: exponential and normal draws in float, double and long double
#ifdef UNIT_WID
#include <boost/random/detail/int_float_pair.hpp>
static const char* const PAIR = "on an engine of any width the eight bits and the fraction of a ziggurat draw come from its digits in order";
template<u64 hi> struct WE : VRng<typename std::conditional<(hi > 0xffffffffull), u64, u32>::type, 0, hi> {};
// one digit of m bits: values of an engine whose range holds no whole number of digits are drawn again
template<class E> typename E::result_type digit(E& g, unsigned m) { typedef typename E::result_type B; const B hi = (g.max)(), mask = (B)(((B)2 << (m - 1)) - 1), lim = (B)((B)(hi + 1) & ~mask); B u; do { u = g(); } while (lim != 0 && u > (B)(lim - 1)); return (B)(u & mask); }
template<class T, class E> std::pair<T, int> refpair(E& g, unsigned m) { typedef typename E::result_type B; const unsigned D = std::numeric_limits<T>::digits, q = 8 / m, w = 8 % m; int b = 0; for (unsigned i = 0; i < q; ++i) b = (b << m) | (int)digit(g, m);
  B u = digit(g, m); b = (b << w) | (int)(u & (B)(((B)1 << w) - 1)); unsigned have = m - w; const T sc = T(1) / T((B)((B)1 << have)); if (have > D) u &= ~((B)1 << (m - D)); T r = T((B)(u >> w)) * sc;
  while (have < D) { const unsigned n = D - have < m ? D - have : m; const B v = digit(g, m); r += (B)(v & (B)(((B)2 << (n - 1)) - 1)); r *= T(0.5) / T((B)((B)1 << (n - 1))); have += n; }
  return std::make_pair(r, b); }
inline bool eqr(long double a, long double b) { u64 x, y; std::memcpy(&x, &a, 8); std::memcpy(&y, &b, 8); unsigned short p, q; std::memcpy(&p, (char*)&a + 8, 2); std::memcpy(&q, (char*)&b + 8, 2); return (x == y) & (p == q); }
template<class T> inline bool near2(T a, T b) { T d = a - b; if (d < 0) d = -d; return eqr(a, b) | (d <= T(std::numeric_limits<T>::digits > 24 ? 1e-12 : 1e-5)); }
template<class T, class E> void wid(unsigned m) { va_bound(90); va_values_only(); E g, h; const std::pair<T, int> a = br::detail::generate_int_float_pair<T, 8>(g), b = refpair<T>(h, m); va_check(a.second == b.second, PAIR); va_check(near2(a.first, b.first), PAIR); va_check((a.first >= 0) & (a.first <= 1), PAIR); va_check(g == h, USE); }
#define W3(id, hi, m) SCEN(S20_wid_f_##id) { wid<float, WE<hi> >(m); } SCEN(S20_wid_d_##id) { wid<double, WE<hi> >(m); } SCEN(S20_wid_l_##id) { wid<long double, WE<hi> >(m); }
#define W(m) W3(m, (m == 64 ? ~0ull : (1ull << (m & 63)) - 1), m)
#define WN(m) W3(n##m, ((1ull << m) + (1ull << (m - 1))), m)
W(1) W(2) W(3) W(4) W(5) W(6) W(7) W(8) W(9) W(10) W(11) W(12) W(13) W(14) W(15) W(16) W(17) W(18) W(19) W(20) W(21) W(22) W(23) W(24) W(25) W(26) W(27) W(28) W(29) W(30) W(31) W(32) W(33) W(36) W(40) W(45) W(48) W(52) W(53) W(54) W(56) W(60) W(61) W(62) W(63) W(64)
WN(5) WN(12) WN(16) WN(24) WN(30) WN(31) WN(48) WN(61)
// one value less than a whole number of digits: the digits have a bit less
#define WO(m) W3(o##m, ((1ull << (m & 63)) - 2), (m - 1))
WO(4) WO(5) WO(12) WO(16) WO(25) WO(31) WO(32) WO(48) WO(63) W3(o64, (~0ull - 1), 63)
// an engine of reals: the bits are a uniform integer, the fraction a uniform real
template<class T, class E> void flt() { va_bound(4); va_values_only(); E g, h; const std::pair<T, int> a = br::detail::generate_int_float_pair<T, 8>(g); const int b = br::uniform_int_distribution<>(0, 255)(h); const T r = br::uniform_01<T>()(h); va_check(a.second == b && b >= 0 && b <= 255, PAIR); va_check(near2(a.first, r), PAIR); va_check(g.pos == h.pos, USE); }
SCEN(S20_wid_real_dd) { flt<double, VRngF<double> >(); } SCEN(S20_wid_real_fd) { flt<float, VRngF<double> >(); } SCEN(S20_wid_real_df) { flt<double, VRngF<float> >(); } SCEN(S20_wid_real_ff) { flt<float, VRngF<float> >(); }
#endif
