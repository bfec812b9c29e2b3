// S18: documented preconditions of constructors: every invalid value trips an assertion, no valid one does.
//UNITS: ONE TWO LST
#define VA_ASSERT_THROWS
#include "dists.hpp"
#include "draws.hpp"
#include <boost/random/random_number_generator.hpp>
static const char* const BAD = "a constructor asserts exactly its documented precondition";
template<class F> bool asserts(F f) { try { f(); } catch (const va_assertion&) { return true; } return false; }
#define NANV (std::numeric_limits<double>::quiet_NaN())
#define INFV (std::numeric_limits<double>::infinity())
// one expression over the free values x (and y, z); OK says when they are valid
#define C1(id, R, OK, ...) SCEN(S18_##id) { va_bound(60); const R x = V1<R>(0); const bool ok = OK; va_check(asserts([=] { __VA_ARGS__; }) == !ok, BAD); }
#define C2(id, R, OK, ...) SCEN(S18_##id) { va_bound(60); const R x = V1<R>(0), y = V1<R>(1); const bool ok = OK; va_check(asserts([=] { __VA_ARGS__; }) == !ok, BAD); }
#define C3(id, R, OK, ...) SCEN(S18_##id) { va_bound(60); const R x = V1<R>(0), y = V1<R>(1), z = V1<R>(2); const bool ok = OK; va_check(asserts([=] { __VA_ARGS__; }) == !ok, BAD); }
#define CK(id, OK, ...) SCEN(S18_##id) { va_bound(60); const bool ok = OK; va_check(asserts([=] { __VA_ARGS__; }) == !ok, BAD); }
template<class R> R V1(int k); template<> double V1<double>(int k) { return va_sym_d(5, k, -1e300, 1e300); } template<> float V1<float>(int k) { return va_sym_f(5, k, -1e30f, 1e30f); } template<> int V1<int>(int k) { return (int)va_sym_u(5, k, 32, 0, 0xffffffffu); } template<> u64 V1<u64>(int k) { return va_sym_u(5, k, 64, 0, ~0ull); } template<> short V1<short>(int k) { return (short)va_sym_u(5, k, 16, 0, 0xffff); }
#define BOTH1(id, D, R, OK) C1(id, R, OK, D d(x); (void)d) C1(id##_p, R, OK, D::param_type d(x); (void)d)
#define BOTH2(id, D, R, OK) C2(id, R, OK, D d(x, y); (void)d) C2(id##_p, R, OK, D::param_type d(x, y); (void)d)
#define BOTH3(id, D, R, OK) C3(id, R, OK, D d(x, y, z); (void)d) C3(id##_p, R, OK, D::param_type d(x, y, z); (void)d)
// fixed edge values
#define E1(id, D, v, OK) CK(id, OK, D d(v); (void)d) CK(id##_p, OK, D::param_type d(v); (void)d)
#define E2(id, D, v, w, OK) CK(id, OK, D d(v, w); (void)d) CK(id##_p, OK, D::param_type d(v, w); (void)d)
#ifdef UNIT_ONE
BOTH1(bern, br::bernoulli_distribution<>, double, (x >= 0) & (x <= 1)) BOTH1(bernf, br::bernoulli_distribution<float>, float, (x >= 0) & (x <= 1)) E1(bern0, br::bernoulli_distribution<>, 0.0, true) E1(bern1, br::bernoulli_distribution<>, 1.0, true) E1(bernn, br::bernoulli_distribution<>, NANV, false)
BOTH1(exp, br::exponential_distribution<>, double, x > 0) BOTH1(expf, br::exponential_distribution<float>, float, x > 0) E1(exp0, br::exponential_distribution<>, 0.0, false) E1(expn, br::exponential_distribution<>, NANV, false) E1(expt, br::exponential_distribution<>, 1e-300, true)
BOTH1(geo, br::geometric_distribution<>, double, (x > 0) & (x < 1)) E1(geo0, br::geometric_distribution<>, 0.0, false) E1(geo1, br::geometric_distribution<>, 1.0, false) E1(geon, br::geometric_distribution<>, NANV, false)
E1(poi0, br::poisson_distribution<>, 0.0, false) E1(poim, br::poisson_distribution<>, -1.0, false) E1(poin, br::poisson_distribution<>, NANV, false) E1(poit, br::poisson_distribution<>, 1e-9, true) E1(poi9, br::poisson_distribution<>, 9.99, true) E1(poi10, br::poisson_distribution<>, 10.0, true) E1(poik, br::poisson_distribution<>, 1e6, true)
C1(poi, double, x > 0, br::poisson_distribution<>::param_type d(x); (void)d)
C1(sph, int, x >= 0, br::uniform_on_sphere<>::param_type d(x); (void)d)
C1(gam1, double, x > 0, br::gamma_distribution<> d(x); (void)d)
C1(rng, int, x > 0, Gfull g; br::random_number_generator<Gfull, int> r(g); (void)r(x)) CK(rng0, false, Gfull g; br::random_number_generator<Gfull, long> r(g); (void)r(0)) CK(rng1, true, Gfull g; br::random_number_generator<Gfull, long> r(g); (void)r(1))
#endif
#ifdef UNIT_TWO
BOTH2(uint, br::uniform_int_distribution<int>, int, x <= y) BOTH2(uint64, br::uniform_int_distribution<u64>, u64, x <= y) BOTH2(uints, br::uniform_int_distribution<short>, short, x <= y)
C2(uintdep, int, x <= y, boost::uniform_int<int> d(x, y); (void)d) C2(small, int, x <= y, br::uniform_smallint<int>::param_type d(x, y); (void)d)
BOTH2(real, br::uniform_real_distribution<>, double, x < y) BOTH2(realf, br::uniform_real_distribution<float>, float, x < y) E2(realn, br::uniform_real_distribution<>, NANV, 1.0, false) E2(realm, br::uniform_real_distribution<>, 0.0, NANV, false) E2(reale, br::uniform_real_distribution<>, 2.0, 2.0, false)
C2(realdep, double, x < y, boost::uniform_real<double> d(x, y); (void)d)
BOTH2(beta, br::beta_distribution<>, double, (x > 0) & (y > 0)) E2(beta0, br::beta_distribution<>, 0.0, 1.0, false) E2(beta1, br::beta_distribution<>, 1.0, 0.0, false) E2(betan, br::beta_distribution<>, 1.0, NANV, false)
BOTH2(ncc, br::non_central_chi_squared_distribution<>, double, (x > 0) & (y > 0)) E2(ncc0, br::non_central_chi_squared_distribution<>, 0.0, 1.0, false) E2(ncc1, br::non_central_chi_squared_distribution<>, 1.0, 0.0, false)
C2(norm, double, y >= 0, br::normal_distribution<> d(x, y); (void)d) C2(normf, float, y >= 0, br::normal_distribution<float> d(x, y); (void)d) CK(norm0, true, br::normal_distribution<> d(1, 0); (void)d) CK(normn, false, br::normal_distribution<> d(1, NANV); (void)d)
C2(gam, double, (x > 0) & (y > 0), br::gamma_distribution<> d(x, y); (void)d) CK(gam0, false, br::gamma_distribution<> d(0.0, 1.0); (void)d) CK(gamb, false, br::gamma_distribution<> d(1.0, 0.0); (void)d) CK(gamn, false, br::gamma_distribution<> d(NANV, 1.0); (void)d)
BOTH3(tri, br::triangle_distribution<>, double, (x <= y) & (y <= z)) BOTH3(trif, br::triangle_distribution<float>, float, (x <= y) & (y <= z))
CK(trie, true, br::triangle_distribution<> d(1.0, 1.0, 1.0); (void)d) CK(trin, false, br::triangle_distribution<> d(0.0, NANV, 1.0); (void)d)
// valid parameters of the classes that do not check
C2(bin, int, true, if (x >= 0 && x < 40) { br::binomial_distribution<> d(x, 0.25); (void)d; }) C2(weib, double, true, br::weibull_distribution<> d(x, y); (void)d)
#endif
#ifdef UNIT_LST
struct One { double operator()(double) const { return 1.0; } };
#define FN(id, n, a, b, OK) CK(dfn_##id, OK, br::discrete_distribution<> d(n, a, b, One()); (void)d) CK(dfnp_##id, OK, br::discrete_distribution<>::param_type d(n, a, b, One()); (void)d) CK(pcf_##id, OK, br::piecewise_constant_distribution<>::param_type d(n, a, b, One()); (void)d) CK(plf_##id, OK, br::piecewise_linear_distribution<>::param_type d(n, a, b, One()); (void)d)
FN(ok, 3, -1.0, 2.0, true) FN(ok0, 0, 0.0, 1.0, true) FN(eq, 3, 1.0, 1.0, false) FN(rev, 3, 2.0, 1.0, false) FN(rev0, 0, 2.0, 1.0, false) FN(nan, 2, 0.0, NANV, false) FN(one, 1, 5.0, 5.5, true)
#define HY(id, OK, ...) CK(id, OK, const double p[] = { 0.25, 0.75 }; const double q[] = __VA_ARGS__; br::hyperexponential_distribution<> d(p, p + 2, q, q + 2); (void)d) CK(id##_p, OK, const double p[] = { 0.25, 0.75 }; const double q[] = __VA_ARGS__; br::hyperexponential_distribution<>::param_type d(p, p + 2, q, q + 2); (void)d)
HY(hy_ok, true, { 1.0, 2.0 }) HY(hy_zero, false, { 1.0, 0.0 }) HY(hy_neg, false, { -1.0, 2.0 }) HY(hy_tiny, true, { 1e-300, 2.0 })
CK(hy_pneg, false, const double p[] = { -0.25, 1.25 }; const double q[] = { 1.0, 2.0 }; br::hyperexponential_distribution<> d(p, p + 2, q, q + 2); (void)d)
CK(hy_len, false, const double p[] = { 0.25, 0.75 }; const double q[] = { 1.0, 2.0, 3.0 }; br::hyperexponential_distribution<> d(p, p + 2, q, q + 3); (void)d)
#endif
