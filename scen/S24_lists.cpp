// S24: every way of constructing a list-valued distribution gives the parameters its documentation says.
//UNITS: DISC DISCI PWC PWL HYP
#include "dists.hpp"
template<class T> struct Rg { typedef const T* const_iterator; typedef const T* iterator; typedef T value_type; const T *p, *q; Rg(const T* a, const T* b) : p(a), q(b) {} const T* begin() const { return p; } const T* end() const { return q; } std::size_t size() const { return (std::size_t)(q - p); } };
struct Lst { int n; int w[7]; };
inline const Lst& lst(int k) { static const Lst t[] = { { 1, { 5 } }, { 2, { 1, 3 } }, { 3, { 3, 5, 8 } }, { 4, { 0, 7, 0, 1 } }, { 5, { 2, 2, 2, 2, 2 } }, { 6, { 9, 0, 4, 1, 1, 0 } }, { 7, { 1, 10, 2, 20, 3, 30, 4 } } }; return t[k]; }
inline bool nr(double x, double y) { double d = x - y; if (d < 0) d = -d; return d <= 1e-6 * (1 + (y < 0 ? -y : y)); }
template<class T> struct It1 { typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference; const T* p; u64* used; const T& operator*() const { return *p; } It1& operator++() { ++p; ++*used; return *this; } It1 operator++(int) { It1 t(*this); ++*this; return t; } friend bool operator==(It1 a, It1 b) { return a.p == b.p; } friend bool operator!=(It1 a, It1 b) { return a.p != b.p; } };
static const char* const MSG = "a list-valued distribution has the parameters its constructor arguments say";
static const char* const MSGE = "equivalent constructor calls give equal objects";
static const char* const MSGD = "too few values are equivalent to the default constructor";
struct FI { const Lst* l; double x0, d; double operator()(double x) const { return l->w[(int)((x - x0) / d)]; } };   // the weight of the interval holding x
struct FL { double a, b; double operator()(double x) const { return a * x + b; } };
// ---- discrete
template<class X> bool okd(const X& x, const Lst& l, bool integral) { auto p = x.probabilities(); double s = 0; for (int i = 0; i < l.n; ++i) s += l.w[i]; bool r = (int)p.size() == l.n; for (int i = 0; i < l.n && r; ++i) r = integral ? r & (p[i] == l.w[i]) : r & nr((double)p[i], l.w[i] / s); return r; }
template<class I, class W, class X> void disc(int k) { const Lst& l = lst(k); const bool in = std::is_integral<W>::value; W w[7]; short h[7]; for (int i = 0; i < l.n; ++i) { w[i] = (W)l.w[i]; h[i] = (short)l.w[i]; } u64 used = 0;
  const X a(w, w + l.n); va_check(okd(a, l, in), MSG);
  const X b(h, h + l.n); va_check(okd(b, l, in), MSG); va_check(a == b, MSGE);
  It1<W> f = { w, &used }, e = { w + l.n, &used }; const X c(f, e); va_check(okd(c, l, in), MSG); va_check(a == c, MSGE);
  const X d(std::vector<W>(w, w + l.n)); va_check(okd(d, l, in), MSG); va_check(a == d, MSGE);
  FI g = { &l, 0, 1 }; const X n((std::size_t)l.n, 0.0, (double)l.n, g); va_check(okd(n, l, in), MSG); va_check(a == n, MSGE);
  FI g2 = { &l, -3, 0.5 }; const X n2((std::size_t)l.n, -3.0, -3.0 + 0.5 * l.n, g2); va_check(okd(n2, l, in), MSG); va_check(a == n2, MSGE); }
template<class I, class W> void disc1() { typedef br::discrete_distribution<I, W> D; typedef typename D::param_type P; va_bound(60);
  for (int k = 0; k < 7; ++k) { disc<I, W, D>(k); disc<I, W, P>(k); W w[7]; for (int i = 0; i < lst(k).n; ++i) w[i] = (W)lst(k).w[i]; const P p(w, w + lst(k).n); const D d(w, w + lst(k).n); va_check(okd(D(p), lst(k), std::is_integral<W>::value), MSG); D e; va_check((e.max)() == 0, MSG); e.param(p); va_check(okd(e, lst(k), std::is_integral<W>::value) && (e.min)() == 0 && (e.max)() == (I)(lst(k).n - 1), MSG); va_check((d.max)() == (I)(lst(k).n - 1) && (d.min)() == 0, MSG); }
  const D il{ (W)3, (W)5, (W)8 }; const P pil{ (W)3, (W)5, (W)8 }; va_check(okd(il, lst(2), std::is_integral<W>::value) && okd(pil, lst(2), std::is_integral<W>::value), MSG);
  W z[1] = { 0 }; std::vector<W> v; const D d0; const P p0; va_check(d0.probabilities().size() == 1 && d0.probabilities()[0] == 1 && p0.probabilities().size() == 1 && p0.probabilities()[0] == 1, "the default is the single value 0");
  va_check(D(z, z) == d0 && P(z, z) == p0, MSGD); va_check(D(v) == d0 && P(v) == p0, MSGD); va_check(D(std::initializer_list<W>()) == d0 && P(std::initializer_list<W>()) == p0, MSGD); FL one = { 0, 1 }; va_check(D((std::size_t)0, 0.0, 1.0, one) == d0 && P((std::size_t)0, 0.0, 1.0, one) == p0, MSGD);
  u64 used = 0; It1<W> f = { z, &used }; va_check(D(f, f) == d0 && P(f, f) == p0, MSGD); typedef VRng<u32, 0, 0xffffffffu> G; G g; va_check(d0(g) == 0, "the default is the single value 0"); va_check(d0(g, P(v)) == 0, MSGD); }
#ifdef UNIT_DISC
SCEN(S24_disc_d) { disc1<int, double>(); } SCEN(S24_disc_f) { disc1<int, float>(); } SCEN(S24_disc_z) { disc1<std::size_t, double>(); } SCEN(S24_disc_s) { disc1<short, double>(); }
#endif
#ifdef UNIT_DISCI
SCEN(S24_disc_i) { disc1<int, int>(); } SCEN(S24_disc_u) { disc1<int, unsigned>(); } SCEN(S24_disc_ll) { disc1<long, long>(); } SCEN(S24_disc_q) { disc1<unsigned, u64>(); }
#endif
// ---- piecewise constant: boundaries are free
template<class X, class R> bool okc(const X& x, const R* b, const double* w, int n) { auto q = x.intervals(); auto d = x.densities(); double s = 0; for (int i = 0; i < n; ++i) s += w[i]; bool r = (int)q.size() == n + 1 && (int)d.size() == n; for (int i = 0; i <= n && r; ++i) r = r & (q[i] == b[i]); for (int i = 0; i < n && r; ++i) { R p = d[i] * (b[i + 1] - b[i]); r = r & nr((double)p, w[i] / s); } return r; }
template<class X, class R> bool okl(const X& x, const R* b, const double* w, int n) { auto q = x.intervals(); auto d = x.densities(); double s = 0; for (int i = 0; i + 1 < n; ++i) s += (w[i] + w[i + 1]) * 0.5 * (double)(b[i + 1] - b[i]); bool r = (int)q.size() == n && (int)d.size() == n; for (int i = 0; i < n && r; ++i) r = r & (q[i] == b[i]); for (int i = 0; i < n && r; ++i) r = r & nr((double)d[i], w[i] / s); return r; }
#if defined(UNIT_PWC)
#define OK(x) okc(x, b, w, n)
template<class R> void pw() { typedef br::piecewise_constant_distribution<R> D; typedef typename D::param_type P; va_bound(60);
  for (int k = 0; k < 7; ++k) { const Lst& l = lst(k); const int n = l.n; R b[8]; double w[7]; R wr[9]; for (int i = 0; i <= n; ++i) b[i] = (R)(i * i + 2 * i - 5); for (int i = 0; i < n; ++i) { w[i] = l.w[i]; wr[i] = (R)l.w[i]; } wr[n] = 77; wr[n + 1] = 78;
    const D d(b, b + n + 1, wr); const P p(b, b + n + 1, wr); va_check(OK(d) & OK(p), MSG); va_check((d.min)() == b[0] && (d.max)() == b[n], MSG);
    Rg<R> bl(b, b + n + 1), wl(wr, wr + n); const D d2(bl, wl); const P p2(bl, wl); va_check(OK(d2) & OK(p2), MSG); va_check(p2 == p, MSGE);
    const D d3(p); va_check(OK(d3), MSG); D d4; d4.param(p); va_check(OK(d4), MSG); va_check(OK(d.param()), MSG);
    R u[8]; for (int i = 0; i <= n; ++i) u[i] = (R)(i * 2 - 3); FI g = { &l, -3, 2 }; const D d5((std::size_t)n, (R)-3, (R)(2 * n - 3), g); const P p5((std::size_t)n, (R)-3, (R)(2 * n - 3), g); va_check(okc(d5, u, w, n) & okc(p5, u, w, n), MSG); va_check((d5.min)() == u[0] && (d5.max)() == u[n], MSG);  }
  { const int n = 3; const R b[] = { -1, 1, 5, 6 }; FL f = { 2, 3 }; const double w[] = { 3, 9, 14 }; const D d{ { R(-1), R(1), R(5), R(6) }, f }; const P p{ { R(-1), R(1), R(5), R(6) }, f }; va_check(OK(d) & OK(p), MSG); }
  const R b[] = { 0, 1 }; const double w[] = { 1 }; const int n = 1; const D d0; const P p0; va_check(OK(d0) & OK(p0), "the default is the interval [0, 1)"); va_check((d0.min)() == 0 && (d0.max)() == 1, MSG);
  std::vector<R> v0, v1(1, R(7)), w0, w3(3, R(2)); R q[3] = { 4, 5, 6 }; FL f = { 0, 2 };
  va_check(OK(D(q, q, q)) & OK(P(q, q, q)) & OK(D(q, q + 1, q)) & OK(P(q, q + 1, q)), MSGD); va_check((D(q, q, q) == d0) & (P(q, q + 1, q) == p0), MSGD);
  { const D a(v0, w0), c(v1, w3), e(v0, w3); const P pa(v0, w0), pc(v1, w3), pe(v0, w3); va_check(OK(a) & OK(c) & OK(e) & OK(pa) & OK(pc) & OK(pe), MSGD); va_check((a == d0) & (c == d0) & (e == d0) & (pa == p0) & (pc == p0) & (pe == p0), MSGD); }
  { const D a{ std::initializer_list<R>(), f }; const P pa{ std::initializer_list<R>(), f }; const D c{ { R(5) }, f }; const P pc{ { R(5) }, f }; va_check(OK(a) & OK(pa) & OK(c) & OK(pc), MSGD); va_check((a == d0) & (pa == p0) & (c == d0) & (pc == p0), MSGD); }
  { const R x[] = { 2, 8 }; const D a((std::size_t)0, (R)2, (R)8, f); const P pa((std::size_t)0, (R)2, (R)8, f); va_check(okc(a, x, w, 1) & okc(pa, x, w, 1), "zero intervals are taken as one"); } }
SCEN(S24_pwc_d) { pw<double>(); } SCEN(S24_pwc_f) { pw<float>(); }
SCEN(S24_pwc_free) { typedef br::piecewise_constant_distribution<double> D; typedef D::param_type P; va_bound(60); double b[5]; for (int i = 0; i < 5; ++i) b[i] = PD(2, i, i * 4 - 9, i * 4 - 7); double w[] = { 3, 0, 5, 8 }; const D d(b, b + 5, w); const P p(b, b + 5, w); std::vector<double> q = d.intervals(), z = d.densities(), y = p.densities(); bool r = q.size() == 5 && z.size() == 4 && y.size() == 4; for (int i = 0; i < 5 && r; ++i) r = r & (q[i] == b[i]); va_check(r, MSG); for (int i = 0; i < 4; ++i) { va_check(z[i] == w[i] / 16 / (b[i + 1] - b[i]), MSG); va_check(y[i] == w[i] / (16 * (b[i + 1] - b[i])), MSG); } }
#endif
#ifdef UNIT_PWL
#define OK(x) okl(x, b, w, n)
template<class R> void pw() { typedef br::piecewise_linear_distribution<R> D; typedef typename D::param_type P; va_bound(60);
  for (int k = 1; k < 7; ++k) { const Lst& l = lst(k); const int n = l.n; R b[8]; double w[7]; R wr[9]; for (int i = 0; i < n; ++i) { b[i] = (R)(i * i + 2 * i - 5); w[i] = l.w[i]; wr[i] = (R)l.w[i]; } wr[n] = 77; wr[n + 1] = 78;
    const D d(b, b + n, wr); const P p(b, b + n, wr); va_check(OK(d) & OK(p), MSG); va_check((d.min)() == b[0] && (d.max)() == b[n - 1], MSG);
    Rg<R> bl(b, b + n), wl(wr, wr + n); const D d2(bl, wl); const P p2(bl, wl); va_check(OK(d2) & OK(p2), MSG); va_check((d2 == d) & (p2 == p), MSGE);
    const D d3(p); va_check(OK(d3) && d3 == d, MSG); D d4; d4.param(p); va_check(OK(d4) && d4 == d, MSG); va_check(OK(d.param()), MSG); }
  for (int n = 1; n < 5; ++n) { R b[6]; double w[6]; FL f = { 0.5, 4 }; for (int i = 0; i <= n; ++i) { b[i] = (R)(i * 2 - 3); w[i] = f(b[i]); } const D d((std::size_t)n, b[0], b[n], f); const P p((std::size_t)n, b[0], b[n], f); va_check(okl(d, b, w, n + 1) & okl(p, b, w, n + 1), MSG); va_check(D(p) == d, MSGE); }
  { const int n = 4; const R b[] = { -1, 1, 5, 6 }; FL f = { 2, 3 }; const double w[] = { 1, 5, 13, 15 }; const D d{ { R(-1), R(1), R(5), R(6) }, f }; const P p{ { R(-1), R(1), R(5), R(6) }, f }; va_check(OK(d) & OK(p), MSG); }
  const R b[] = { 0, 1 }; const double w[] = { 1, 1 }; const int n = 2; const D d0; const P p0; va_check(OK(d0) & OK(p0), "the default is the interval [0, 1)"); va_check((d0.min)() == 0 && (d0.max)() == 1, MSG);
  std::vector<R> v0, v1(1, R(7)), w0, w3(3, R(2)); R q[3] = { 4, 5, 6 }; FL f = { 0, 2 };
  va_check(OK(D(q, q, q)) & OK(P(q, q, q)) & OK(D(q, q + 1, q)) & OK(P(q, q + 1, q)), MSGD); va_check((D(q, q, q) == d0) & (P(q, q + 1, q) == p0), MSGD);
  { const D a(v0, w0), c(v1, w3), e(v0, w3); const P pa(v0, w0), pc(v1, w3), pe(v0, w3); va_check(OK(a) & OK(c) & OK(e) & OK(pa) & OK(pc) & OK(pe), MSGD); va_check((a == d0) & (c == d0) & (e == d0) & (pa == p0) & (pc == p0) & (pe == p0), MSGD); }
  { const D a{ std::initializer_list<R>(), f }; const P pa{ std::initializer_list<R>(), f }; const D c{ { R(5) }, f }; const P pc{ { R(5) }, f }; va_check(OK(a) & OK(pa) & OK(c) & OK(pc), MSGD); va_check((a == d0) & (pa == p0) & (c == d0) & (pc == p0), MSGD); }
  { const R x[] = { 2, 8 }; const D a((std::size_t)0, (R)2, (R)8, f); const P pa((std::size_t)0, (R)2, (R)8, f); va_check(okl(a, x, w, 2) & okl(pa, x, w, 2), "zero intervals are taken as one"); } }
SCEN(S24_pwl_d) { pw<double>(); } SCEN(S24_pwl_f) { pw<float>(); }
#endif
#ifdef UNIT_HYP
template<class X> bool okh(const X& x, const Lst& l, bool equal) { auto p = x.probabilities(); auto r = x.rates(); double s = 0; for (int i = 0; i < l.n; ++i) s += l.w[i]; bool ok = (int)p.size() == l.n && (int)r.size() == l.n; for (int i = 0; i < l.n && ok; ++i) ok = ok & (p[i] >= 0) & (p[i] <= 1) & nr((double)p[i], equal ? 1.0 / l.n : l.w[i] / s) & (r[i] == l.w[l.n - 1 - i] + 1); return ok; }
template<class R, class X> void hyp(int k) { const Lst& l = lst(k); R w[7], q[7]; for (int i = 0; i < l.n; ++i) { w[i] = (R)l.w[i]; q[i] = (R)(l.w[l.n - 1 - i] + 1); } std::vector<R> vw(w, w + l.n), vq(q, q + l.n);
  const X a(w, w + l.n, q, q + l.n); va_check(okh(a, l, false), MSG); const X b(vw, vq); va_check(okh(b, l, false), MSG); va_check(a == b, MSGE);
  const X c(q, q + l.n); va_check(okh(c, l, true), MSG); const X d(vq); va_check(okh(d, l, true), MSG); va_check(c == d, MSGE); const X e(q + 0, q + l.n); va_check(okh(e, l, true), MSG); va_check(c == e, MSGE); }
template<class R> void hy() { typedef br::hyperexponential_distribution<R> D; typedef typename D::param_type P; va_bound(60); for (int k = 0; k < 7; ++k) { hyp<R, D>(k); hyp<R, P>(k); const Lst& l = lst(k); R w[7], q[7]; for (int i = 0; i < l.n; ++i) { w[i] = (R)l.w[i]; q[i] = (R)(l.w[l.n - 1 - i] + 1); } const P p(w, w + l.n, q, q + l.n); const D d(p); va_check(okh(d, l, false) && (int)d.num_phases() == l.n, MSG); D e; e.param(p); va_check(okh(e, l, false) && e == d, MSG); va_check(okh(d.param(), l, false), MSG); va_check((d.min)() == 0, MSG); }
  const D i2{ { R(3), R(5), R(8) }, { R(9), R(6), R(4) } }; const P p2{ { R(3), R(5), R(8) }, { R(9), R(6), R(4) } }; va_check(okh(i2, lst(2), false) & okh(p2, lst(2), false), MSG); const D i1{ R(9), R(6), R(4) }; const P p1{ R(9), R(6), R(4) }; va_check(okh(i1, lst(2), true) & okh(p1, lst(2), true), MSG);
  const D d0; const P p0; va_check(d0.num_phases() == 1 && d0.probabilities()[0] == 1 && d0.rates()[0] == 1 && p0.probabilities().size() == 1 && p0.rates().size() == 1 && p0.probabilities()[0] == 1 && p0.rates()[0] == 1, "the default is one phase of rate one"); va_check(d0.param() == p0, "the default is one phase of rate one");
  const R neg[] = { (R)0.5, (R)0.9, (R)0.2, (R)0.2, (R)0.8, 0 }, rt[] = { 1, 2, 3, 4, 5, 6 }; const P pn(neg, neg + 6, rt, rt + 6); bool ok = true; for (int i = 0; i < 6; ++i) ok = ok & (pn.probabilities()[i] >= 0); va_check(ok, "probabilities are not negative"); }
SCEN(S24_hyp_d) { hy<double>(); } SCEN(S24_hyp_f) { hy<float>(); }
#endif
