// S16: quasi-random generators: the k-th vector, seeding, discarding, comparing, saving, and running out.
//UNITS: NIED NIED2 NIED3 SOB SOB2 FAURE ERR
#include "arch.hpp"
#include <sstream>
// the text of error messages is not under analysis
namespace std { struct va_oss { template<class T> va_oss& operator<<(const T&) { return *this; } string str() const { return string(); } }; }
#define ostringstream va_oss
#include <boost/random/sobol.hpp>
#include <boost/random/niederreiter_base2.hpp>
#include <boost/random/faure.hpp>
namespace br = boost::random;
// ---- Sobol over free direction numbers: polynomials are those of the standard table, initial numbers are free
struct FreeTab { static const unsigned max_dimension = 12; typedef unsigned short value_type;
  static value_type polynomial(std::size_t n) { static const value_type p[11] = { 3, 7, 11, 13, 19, 25, 37, 41, 47, 55, 59 }; return p[n]; }
  static value_type minit(std::size_t d, std::size_t k) { return (value_type)va_sym_u(80, d * 16 + k, 16, 0, (2ull << k) - 1); } };
inline int deg(unsigned p) { int d = -1; while (p) { ++d; p >>= 1; } return d; }
// Bratley & Fox: m_j = sum_k 2^k a_k m_{j-k} + m_{j-d}; direction number v_j = m_j 2^(w-1-j)
template<class U, unsigned w, int D> struct RefSobol { U v[w][D];
  RefSobol() { for (int d = 0; d < D; ++d) { u64 m[w]; if (d == 0) for (unsigned j = 0; j < w; ++j) m[j] = 1; else { unsigned p = FreeTab::polynomial(d - 1); int e = deg(p); for (unsigned j = 0; j < w; ++j) if ((int)j < e) m[j] = FreeTab::minit(d - 1, j); else { m[j] = m[j - e]; for (int k = 1; k <= e; ++k) if ((p >> (e - k)) & 1) m[j] ^= m[j - k] << k; } }
    for (unsigned j = 0; j < w; ++j) v[j][d] = (U)(m[j] << (w - 1 - j)); } }
  U at(u64 n, int d) const { u64 g = (n + 1) ^ ((n + 1) >> 1); U r = 0; for (unsigned j = 0; j < w; ++j) if ((g >> j) & 1) r ^= v[j][d]; return r; } };   // n-th vector, the all-zero one skipped
// Bratley, Fox & Niederreiter: the rows C(.,r), for the digits whose block of powers is complete
static const unsigned nbp[12] = { 2, 3, 7, 11, 13, 19, 25, 31, 37, 41, 47, 55 };
template<class U, unsigned w, int D> struct RefNied { U v[w][D]; U mask[D];
  RefNied() { for (int d = 0; d < D; ++d) { unsigned px = nbp[d]; int e = deg(px), full = (int)w / e * e; mask[d] = 0; for (unsigned r = 0; r < w; ++r) v[r][d] = 0;
    bool b[w + 16]; for (unsigned i = 0; i < w + 16; ++i) b[i] = i == 0; int bd = 0; bool x[w + 16]; int u = e, m = 0;
    for (int j = 0; j < full; ++j) { if (u == e) { int kj = bd; bool nb[w + 16]; for (unsigned i = 0; i < w + 16; ++i) { bool t = false; for (int k = 0; k <= e; ++k) if (((px >> k) & 1) && (int)i >= k) t ^= b[i - k]; nb[i] = t; } for (unsigned i = 0; i < w + 16; ++i) b[i] = nb[i]; bd += e; m = bd; u = 0;
        for (int r = 0; r < (int)w + e; ++r) { if (r < kj) x[r] = false; else if (r < m) x[r] = true; else { bool t = false; for (int k = 0; k < m; ++k) t ^= b[k] & x[r + k - m]; x[r] = t; } } }
      for (unsigned r = 0; r < w; ++r) if (x[r + u]) v[r][d] |= (U)1 << (w - 1 - j); mask[d] |= (U)1 << (w - 1 - j); ++u; } } }
  U at(u64 n, int d) const { u64 g = (n + 1) ^ ((n + 1) >> 1); U r = 0; for (unsigned j = 0; j < w; ++j) if ((g >> j) & 1) r ^= v[j][d]; return r; } };
template<class E> void same(E a, E b, int n, const char* what) { for (int i = 0; i < n; ++i) va_check(a() == b(), what); }
// every operation against plain drawing; N vectors
template<class E, int D> void ops(int N) {
  typedef typename E::result_type R; const int L = N * D; R x[80]; E z(D); va_check(z.dimension() == D, "dimension() is the dimension asked for"); for (int i = 0; i < L; ++i) { x[i] = z(); }
  static const int at[6] = { 0, 1, D - 1, D, D + 1, 3 * D - 1 };
  for (int i = 0; i < 6; ++i) for (int j = 0; j <= 3 * D + 1; ++j) { if (at[i] + j >= L) continue; E a(D), b(D); for (int k = 0; k < at[i]; ++k) { a(); b(); } a.discard(j); for (int k = 0; k < j; ++k) b(); va_check(a == b && !(a != b), "discard(z) is drawing z values"); for (int k = at[i] + j, q = 0; k < L && q <= D; ++k, ++q) va_check(a() == x[k], "discard(z) is drawing z values"); }
  for (int k = 0; k < N; ++k) for (int p = 0; p < 3; ++p) { E a(D); for (int i = 0; i < (p == 0 ? 0 : p == 1 ? D + 1 : 3 * D); ++i) a(); a.seed(k); E b(D); for (int i = 0; i < k * D; ++i) b(); va_check(a == b, "seed(k) goes to the k-th vector, whatever the state before"); for (int i = k * D, q = 0; i < L && q <= D; ++i, ++q) va_check(a() == x[i], "seed(k) goes to the k-th vector, whatever the state before"); }
  for (int p = 0; p < 2 * D; p += D + 1) { E a(D); for (int i = 0; i < p; ++i) a(); a.seed(); E b(D); va_check(a == b && a() == x[0], "seed() goes back to the start"); }
  { E a(D); R y[3 * D]; for (int i = 0; i < 3 * D; ++i) y[i] = 0; a(); a.generate(y, y + 2 * D); for (int i = 0; i < 2 * D; ++i) va_check(y[i] == x[i + 1], "generate gives the values drawing gives"); for (int i = 2 * D; i < 3 * D; ++i) va_check(y[i] == 0, "generate writes only its range"); va_check(a() == x[2 * D + 1], "generate leaves the generator where drawing would"); }
  for (int p = 0; p <= 2 * D; ++p) { E a(D); for (int i = 0; i < p; ++i) a(); E b(a), c(D); c(); c = a; va_check(a == b && a == c, "copies are equal"); b(); for (int i = p; i < p + D; ++i) { va_check(a() == x[i] && c() == x[i], "copies continue like the original and independently of it"); } va_check(b == E(D) ? false : true, "generators at different positions differ"); }
  for (int p = 0; p <= 2 * D + 1; ++p) for (int q = 0; q <= 2 * D + 1; ++q) { E a(D), b(D); for (int i = 0; i < p; ++i) a(); for (int i = 0; i < q; ++i) b(); va_check((a == b) == (p == q) && (a != b) == (p != q), "generators compare equal exactly when they are at the same position"); }
}
template<class E, int D, int D2> void text(int p, int q) {
  typedef typename E::result_type R; E a(D), b(D2); for (int i = 0; i < p; ++i) a(); for (int i = 0; i < q; ++i) b();
  VBuf<80> buf; VOs os(&buf); os << a << ' ' << 12345 << ' ' << a; VIs is(&buf); is >> b; va_check(!is.fail(), "reading back succeeds"); int k = 0; is >> k; va_check(k == 12345, "reading consumes its own text only"); va_check(b == a && b.dimension() == D, "the generator read back equals the one saved");
  E c(D); is >> c; va_check(!is.fail() && c == a, "a second generator in the same stream is read back"); for (int i = 0; i <= 2 * D; ++i) { R x = a(); va_check(b() == x, "the generator read back continues like the one saved"); va_check(c() == x, "the generator read back continues like the one saved"); }
}
#define TEXTS(id, E) SCEN(S16_##id##_text) { va_bound(2000); for (int p = 0; p < 8; ++p) for (int q = 0; q < 8; q += 3) { text<E, 3, 3>(p, q); text<E, 3, 2>(p, q); text<E, 2, 5>(p, q); text<E, 1, 4>(p, q); } }
#ifdef UNIT_SOB
template<class U, unsigned w, int D> void sobref(int N) { va_bound(5000); br::sobol_engine<U, w, FreeTab> e(D); RefSobol<U, w, D> r; for (int n = 0; n < N; ++n) for (int d = 0; d < D; ++d) { U x = e(); va_check(x == r.at(n, d), "the n-th vector is the Gray-code sum of the direction numbers"); va_check(x <= (e.max)() && x >= (e.min)(), "values lie within [min(), max()]"); } va_check((br::sobol_engine<U, w, FreeTab>::max)() == (U)(~(U)0 >> (sizeof(U) * 8 - w)), "max() is 2^w - 1"); }
SCEN(S16_sob_ref8) { sobref<std::uint8_t, 8, 5>(40); } SCEN(S16_sob_ref32) { sobref<u32, 32, 12>(9); } SCEN(S16_sob_ref64) { sobref<u64, 64, 6>(9); } SCEN(S16_sob_ref20) { sobref<u32, 20, 4>(18); } SCEN(S16_sob_ref1) { sobref<u32, 32, 1>(20); } SCEN(S16_sob_ref3) { sobref<u32, 3, 3>(7); } SCEN(S16_sob_ref3wide) { sobref<u32, 3, 12>(7); }
template<class U, unsigned w, int D> void sobseed(u64 n) { va_bound(5000); br::sobol_engine<U, w, FreeTab> e(D); RefSobol<U, w, D> r; e.seed((U)n); for (int d = 0; d < D; ++d) va_check(e() == r.at(n, d), "seed(k) goes to the k-th vector"); e.discard(3); va_check(e() == r.at(n + 1 + 3 / D, 3 % D), "discard after seed(k)"); }
SCEN(S16_sob_seed) { sobseed<u32, 32, 3>(0x12345678); sobseed<u32, 32, 2>(0x7ffffffe); sobseed<u64, 64, 2>(0x123456789abcdefull); sobseed<u64, 64, 2>((1ull << 63) - 1); sobseed<u32, 20, 2>((1u << 19) - 1); sobseed<u64, 64, 3>(~0ull - 9); }
#endif
#ifdef UNIT_SOB2
typedef br::sobol_engine<u32, 10, FreeTab> Sb; SCEN(S16_sob_ops1) { va_bound(2000); ops<Sb, 1>(12); } SCEN(S16_sob_ops3) { va_bound(2000); ops<Sb, 3>(9); } SCEN(S16_sob_ops4) { va_bound(2000); ops<Sb, 4>(8); }
TEXTS(sob, Sb)
#endif
#ifdef UNIT_NIED
template<class U, unsigned w, int D> void nref(int N) { va_bound(5000); br::niederreiter_base2_engine<U, w> e(D); RefNied<U, w, D> r; for (int n = 0; n < N; ++n) for (int d = 0; d < D; ++d) { U x = e(); va_check((x & r.mask[d]) == r.at(n, d), "the n-th vector is that of the Niederreiter sequence, for every complete digit block"); va_check(x <= (e.max)(), "values lie within [min(), max()]"); }
  for (unsigned j = 0; j + 1 < w; ++j) { u64 k = (2ull << j) - 2; e.seed((U)k); for (int d = 0; d < D; ++d) va_check((e() & r.mask[d]) == r.v[j][d], "the direction numbers are those of the Niederreiter sequence, for every complete digit block"); } }
SCEN(S16_nied_ref20) { nref<u32, 20, 6>(8); } SCEN(S16_nied_ref32) { nref<u32, 32, 8>(4); } SCEN(S16_nied_ref12) { nref<u32, 12, 12>(8); }
#endif
typedef br::niederreiter_base2_engine<u32, 10> Nb;
#ifdef UNIT_NIED2
SCEN(S16_nied_ops1) { va_bound(2000); ops<Nb, 1>(12); } SCEN(S16_nied_ops3) { va_bound(2000); ops<Nb, 3>(9); }
#endif
#ifdef UNIT_NIED3
TEXTS(nied, Nb)
#endif
#ifdef UNIT_FAURE
inline bool nearf_(double a, double b) { double d = a - b; return d < 1e-12 && d > -1e-12; }
template<int D> void fref(int q, int N, int from) { va_bound(20000); br::faure e(D); e.seed(from);
  for (int n = from; n < from + N; ++n) { int y[40], len = 0; for (int m = n; m; m /= q) y[len++] = m % q; 
    for (int d = 0; d < D; ++d) { double x = 0, s = 1; for (int i = 0; i < len; ++i) { s /= q; x += y[i] * s; } double g = e(); va_check(nearf_(g, x), "the n-th vector is that of the Faure sequence"); va_check(g >= 0 && g < 1, "values lie in [0, 1)");
      int z[40]; for (int i = 0; i < len; ++i) { long t = 0, c = 1; for (int j = i; j < len; ++j) { t += c * y[j]; c = c * (j + 1) / (j + 1 - i); } z[i] = (int)(t % q); } for (int i = 0; i < len; ++i) y[i] = z[i]; } } }
SCEN(S16_faure_ref1) { fref<1>(2, 40, 0); } SCEN(S16_faure_ref2) { fref<2>(2, 40, 0); } SCEN(S16_faure_ref3) { fref<3>(3, 30, 0); } SCEN(S16_faure_ref4) { fref<4>(5, 27, 0); } SCEN(S16_faure_ref7) { fref<7>(7, 10, 44); } SCEN(S16_faure_ref8) { fref<8>(11, 6, 118); } SCEN(S16_faure_far) { fref<3>(3, 4, 531440); }
typedef br::faure Fa; SCEN(S16_faure_ops1) { va_bound(20000); ops<Fa, 1>(12); } SCEN(S16_faure_ops3) { va_bound(20000); ops<Fa, 3>(10); }
TEXTS(faure, Fa)
#endif
#ifdef UNIT_ERR
template<class E> void dims(std::size_t bad) { va_bound(3000); bool t = false; try { E e(0); } catch (std::invalid_argument&) { t = true; } va_check(t, "dimension 0 is refused with invalid_argument"); t = false; try { E e(bad); } catch (std::invalid_argument&) { t = true; } va_check(t, "a dimension beyond the tables is refused with invalid_argument"); }
SCEN(S16_err_dims) { dims<br::sobol_engine<u32, 8, FreeTab> >(13); dims<br::sobol>(BOOST_RANDOM_SOBOL_MAX_DIMENSION + 1); dims<br::niederreiter_base2>(BOOST_RANDOM_NIEDERREITER_BASE2_MAX_DIMENSION + 1); dims<br::faure>(1118); }
template<class E, int D> void exhaust(int L) { va_bound(3000); E a(D); typename E::result_type x[64]; for (int i = 0; i < L * D; ++i) { bool t = false; try { x[i] = a(); } catch (std::range_error&) { t = true; } va_check(!t, "2^w - 1 vectors can be drawn"); }
  E b(a); for (int k = 0; k < 2; ++k) { bool t = false; try { a(); } catch (std::range_error&) { t = true; } va_check(t, "drawing beyond the last vector throws range_error"); va_check(a == b, "a refused operation leaves the generator as it was"); }
  for (int k = L; k < L + 3; ++k) { E c(D); c(); E d(c); bool t = false; try { c.seed(k); } catch (std::range_error&) { t = true; } va_check(t, "seeding beyond the last vector throws range_error"); va_check(c == d && c() == d() && c() == d(), "a refused operation leaves the generator as it was"); }
  for (int p = 0; p <= D; ++p) { E c(D); for (int i = 0; i < p; ++i) c(); E d(c); bool t = false; try { c.discard((u64)L * D - p + 1); } catch (std::range_error&) { t = true; } va_check(t, "discarding beyond the last vector throws range_error"); va_check(c == d && c() == d() && c() == d(), "a refused operation leaves the generator as it was");
    E e(D); for (int i = 0; i < p; ++i) e(); e.discard((u64)L * D - p - 1); va_check(e() == x[L * D - 1], "the last value can be reached by discarding"); E g(D); for (int i = 0; i < p; ++i) g(); g.discard((u64)L * D - p); va_check(g == b, "discarding exactly the remaining values reaches the end"); }
  E c(D); c.seed(L - 1); for (int d = 0; d < D; ++d) va_check(c() == x[(L - 1) * D + d], "the last vector can be reached by seeding"); }
// every position and every number of values left to discard, up to the very end
template<class E, int D> void end_all(int L) { va_bound(3000); E w(D); typename E::result_type x[64]; const int n = L * D; for (int i = 0; i < n; ++i) x[i] = w();
  E a(D); for (int p = 0; p <= n; ++p) { for (int z = 0; p + z <= n + 2; ++z) { E c(a), d(a); bool t = false; try { c.discard(z); } catch (std::range_error&) { t = true; } if (p + z > n) { va_check(t, "discarding beyond the last vector throws range_error"); va_check(c == d, "a refused operation leaves the generator as it was"); continue; }
      va_check(!t, "discarding no more values than are left succeeds"); for (int i = 0; i < z; ++i) d(); va_check(c == d, "discard(z) is drawing z values"); if (p + z < n) va_check(c() == x[p + z], "discard(z) is drawing z values"); } if (p < n) a(); } }
SCEN(S16_err_end1) { end_all<br::sobol_engine<u32, 3, FreeTab>, 3>(7); } SCEN(S16_err_end2) { end_all<br::niederreiter_base2_engine<std::uint8_t, 4>, 2>(15); } SCEN(S16_err_end3) { end_all<br::sobol_engine<u32, 3, FreeTab>, 1>(7); }
template<int D> void end_top() { va_bound(3000); typedef br::sobol_engine<u64, 64, FreeTab> E; E a(D); a.seed(~0ull - 1); for (int i = 0; i < D; ++i) { E c(a), d(a); c.discard(0); va_check(c == d && c() == d(), "discard(0) changes nothing"); a(); } E c(a); bool t = false; try { c.discard(0); } catch (std::range_error&) { t = true; } va_check(!t && c == a, "discard(0) changes nothing"); t = false; try { c.discard(1); } catch (std::range_error&) { t = true; } va_check(t && c == a, "discarding beyond the last vector throws range_error"); }
SCEN(S16_err_top) { end_top<1>(); end_top<3>(); }
SCEN(S16_err_sob) { exhaust<br::sobol_engine<u32, 3, FreeTab>, 3>(7); exhaust<br::sobol_engine<u32, 4, FreeTab>, 2>(15); } SCEN(S16_err_nied) { exhaust<br::niederreiter_base2_engine<u32, 3>, 2>(7); exhaust<br::niederreiter_base2_engine<std::uint8_t, 4>, 1>(15); }
template<class E> void wrap(typename E::result_type last) { va_bound(3000); E a(1), b(1); bool t = false; try { a.discard(~0ull); a(); a(); } catch (std::range_error&) { t = true; } va_check(t, "discarding beyond the last vector throws range_error"); E c(1); c(); E d(c); t = false; try { c.discard(~0ull); } catch (std::range_error&) { t = true; } va_check(t, "discarding beyond the last vector throws range_error"); va_check(c == d, "a refused operation leaves the generator as it was"); }
SCEN(S16_err_wrap) { wrap<br::sobol_engine<u64, 64, FreeTab> >(0); wrap<br::sobol_engine<u32, 32, FreeTab> >(0); wrap<br::niederreiter_base2_engine<u32, 20> >(0); }
#endif
