// S09: a distribution keeps, reports, compares and applies exactly the parameters it was given.
//UNITS: INT REAL NORM BIN BIH GAM GAM2 GAM3 LST LST2 DISC DEF
#include "dists.hpp"
template<class C> void params() {
  typedef typename C::D D; typedef typename D::param_type P;
  const D d(C::template mk<D>(10)); const P p(C::template mk<P>(10));
  va_check(C::acc(d, 10), "a distribution reports the parameters it was constructed with");
  va_check(C::acc(p, 10), "a parameter object reports the values it was constructed with");
  va_check(C::acc(d.param(), 10), "param() reports the parameters the distribution was constructed with");
  va_check(d.param() == p && !(d.param() != p), "param() equals the parameter object holding the same values");
  const D e(p); va_check(C::acc(e, 10), "a distribution constructed from a parameter object reports its values");
  va_check(e == d && !(e != d), "distributions with the same parameters compare equal");
  D f(C::template mk<D>(11)); f.param(p); va_check(C::acc(f, 10), "setting the parameters replaces all of them"); va_check(f.param() == p, "setting the parameters replaces all of them"); va_check(f == d, "a distribution set to some parameters equals one constructed with them");
  const D g(d); va_check(g == d && C::acc(g, 10), "a copy has the parameters of the original"); D h(C::template mk<D>(11)); h = d; va_check(h == d && C::acc(h, 10), "an assigned copy has the parameters of the original");
  P q(p); va_check(q == p && !(q != p), "copies of parameters compare equal"); P r(C::template mk<P>(11)); r = p; va_check(r == p, "copies of parameters compare equal");
  f.reset(); va_check(C::acc(f, 10) && f == d, "reset() keeps the parameters");
}
template<class C> void differ() { // objects holding different parameters are different
  typedef typename C::D D; typedef typename D::param_type P; va_twin(10, 11);
  const D d(C::template mk<D>(10)), e(C::template mk<D>(11)); const P p(d.param()), q(e.param());
  bool same = C::acc(d, 11); va_check((p == q) == same, "parameter objects compare equal exactly when all values are equal"); va_check((p != q) == !same, "!= is the negation of == (parameters)"); bool de = d == e; va_check(!de | same, "distributions with different parameters do not compare equal"); va_check((d != e) == !de, "!= is the negation of == (distributions)");
}
#define X(id) SCEN(S09_##id) { va_bound(40); params<C_##id>(); } SCEN(S09_##id##_differ) { va_bound(40); differ<C_##id>(); }
#include "dunits.hpp"
#ifdef UNIT_DEF
// arguments left out take the documented defaults, in the distribution and in its parameter type alike
template<class D, class A> void def0(A ok) { va_bound(10); const D d; const typename D::param_type p; va_check(ok(d), "a distribution constructed without arguments has the documented parameters"); va_check(ok(p) && ok(d.param()), "a parameter object constructed without arguments has the documented values"); va_check(d.param() == p, "default parameters are those of the default distribution"); const D e(p); va_check(e == d, "a distribution of default parameters equals a default distribution"); }
template<class D, class V, class A> void def1(V v, A ok) { va_bound(10); const D d(v); const typename D::param_type p(v); va_check(ok(d), "arguments left out take the documented defaults (distribution)"); va_check(ok(p) && ok(d.param()), "arguments left out take the documented defaults (parameters)"); va_check(d.param() == p, "arguments left out take the documented defaults"); }
template<class T> T fv(double lo, double hi) { return (T)PD(30, 0, lo, hi); }
#define D0(id, T, c) SCEN(S09_def0_##id) { typedef T D; def0<D>([](const auto& t) { return c; }); }
#define D1(id, T, v, c) SCEN(S09_def1_##id) { typedef T D; auto x = v; def1<D>(x, [x](const auto& t) { return c; }); }
#define DR0(id, T, c) D0(id##_d, T<double>, c) D0(id##_f, T<float>, c)
#define DR1(id, T, lo, hi, c) D1(id##_d, T<double>, fv<double>(lo, hi), c) D1(id##_f, T<float>, fv<float>(lo, hi), c)
DR0(bern, br::bernoulli_distribution, t.p() == 0.5)
DR0(beta, br::beta_distribution, t.alpha() == 1 && t.beta() == 1) DR1(beta, br::beta_distribution, 0.1, 10, t.alpha() == x && t.beta() == 1)
D0(binom, br::binomial_distribution<>, t.t() == 1 && t.p() == 0.5) D1(binom, br::binomial_distribution<>, PI(30, 0, 0, 20), t.t() == x && t.p() == 0.5)
DR0(cauchy, br::cauchy_distribution, t.median() == 0 && t.sigma() == 1) DR1(cauchy, br::cauchy_distribution, -10, 10, t.median() == x && t.sigma() == 1)
DR0(chi, br::chi_squared_distribution, t.n() == 1)
DR0(exp, br::exponential_distribution, t.lambda() == 1)
DR0(evd, br::extreme_value_distribution, t.a() == 1 && t.b() == 1) DR1(evd, br::extreme_value_distribution, -10, 10, t.a() == x && t.b() == 1)
DR0(fish, br::fisher_f_distribution, t.m() == 1 && t.n() == 1) DR1(fish, br::fisher_f_distribution, 0.1, 10, t.m() == x && t.n() == 1)
DR0(gamma, br::gamma_distribution, t.alpha() == 1 && t.beta() == 1) DR1(gamma, br::gamma_distribution, 0.1, 10, t.alpha() == x && t.beta() == 1)
D0(geo, br::geometric_distribution<>, t.p() == 0.5)
DR0(lapl, br::laplace_distribution, t.mean() == 0 && t.beta() == 1) DR1(lapl, br::laplace_distribution, -10, 10, t.mean() == x && t.beta() == 1)
DR0(logn, br::lognormal_distribution, t.m() == 0 && t.s() == 1) DR1(logn, br::lognormal_distribution, -10, 10, t.m() == x && t.s() == 1)
D0(nb, br::negative_binomial_distribution<>, t.k() == 1 && t.p() == 0.5) D1(nb, br::negative_binomial_distribution<>, PI(30, 0, 1, 20), t.k() == x && t.p() == 0.5)
DR0(ncchi, br::non_central_chi_squared_distribution, t.k() == 1 && t.lambda() == 1) DR1(ncchi, br::non_central_chi_squared_distribution, 0.1, 10, t.k() == x && t.lambda() == 1)
DR0(norm, br::normal_distribution, t.mean() == 0 && t.sigma() == 1) DR1(norm, br::normal_distribution, -10, 10, t.mean() == x && t.sigma() == 1)
D0(poi, br::poisson_distribution<>, t.mean() == 1)
DR0(stud, br::student_t_distribution, t.n() == 1)
DR0(tri, br::triangle_distribution, t.a() == 0 && t.b() == 0.5 && t.c() == 1)
D0(uint, br::uniform_int_distribution<int>, t.a() == 0 && t.b() == 2147483647) D1(uint, br::uniform_int_distribution<int>, PI(30, 0, -100, 1000), t.a() == x && t.b() == 2147483647) D0(ulong, br::uniform_int_distribution<u64>, t.a() == 0 && t.b() == ~0ull) D0(ushort, br::uniform_int_distribution<short>, t.a() == 0 && t.b() == 32767) D0(uuint, br::uniform_int_distribution<unsigned>, t.a() == 0 && t.b() == 0xffffffffu)
D0(small, br::uniform_smallint<int>, t.a() == 0 && t.b() == 9) D1(small, br::uniform_smallint<int>, PI(30, 0, -100, 9), t.a() == x && t.b() == 9)
D0(uintdep, boost::uniform_int<int>, t.a() == 0 && t.b() == 9) D1(uintdep, boost::uniform_int<int>, PI(30, 0, -100, 9), t.a() == x && t.b() == 9)
DR0(real, br::uniform_real_distribution, t.a() == 0 && t.b() == 1) DR1(real, br::uniform_real_distribution, -10, 0.5, t.a() == x && t.b() == 1)
DR0(realdep, boost::uniform_real, t.a() == 0 && t.b() == 1) DR1(realdep, boost::uniform_real, -10, 0.5, t.a() == x && t.b() == 1)
DR0(weib, br::weibull_distribution, t.a() == 1 && t.b() == 1) DR1(weib, br::weibull_distribution, 0.1, 10, t.a() == x && t.b() == 1)
DR0(sphere, br::uniform_on_sphere, t.dim() == 2)
SCEN(S09_def0_disc) { br::discrete_distribution<> d; std::vector<double> p = d.probabilities(); va_check(p.size() == 1 && p[0] == 1, "a distribution constructed without arguments has the documented parameters"); br::discrete_distribution<>::param_type q; va_check(q.probabilities() == p && d.param() == q, "a parameter object constructed without arguments has the documented values"); }
SCEN(S09_def0_hyp) { br::hyperexponential_distribution<> d; std::vector<double> p = d.probabilities(), r = d.rates(); va_check(p.size() == 1 && p[0] == 1 && r.size() == 1 && r[0] == 1, "a distribution constructed without arguments has the documented parameters"); br::hyperexponential_distribution<>::param_type q; va_check(q.probabilities() == p && q.rates() == r && d.param() == q, "a parameter object constructed without arguments has the documented values"); }
template<class D, bool Lin> void defpw() { D d; std::vector<double> p = d.intervals(), r = d.densities(); va_check(p.size() == 2 && p[0] == 0 && p[1] == 1 && r.size() == (Lin ? 2 : 1) && r[0] == 1, "a distribution constructed without arguments has the documented parameters"); typename D::param_type q; va_check(q.intervals() == p && q.densities() == r && d.param() == q, "a parameter object constructed without arguments has the documented values"); }
SCEN(S09_def0_pwc) { defpw<br::piecewise_constant_distribution<>, false>(); } SCEN(S09_def0_pwl) { defpw<br::piecewise_linear_distribution<>, true>(); }
#endif
