// Reference engines, each written from its published definition alone.
#pragma once
#include "engines.hpp"
// the state fields a reference starts from: free values, or (seeded) the words a seeding formula gives
struct Rd { int S; u64 k; bool seeded; const u64* q; explicit Rd(int s) : S(s), k(0), seeded(false), q(0) {} explicit Rd(const u64* p) : S(0), k(0), seeded(true), q(p) {}
  u64 num(u64 lo, u64 hi) { return q ? q[k++] : va_sym_u(S, k++, 64, lo, hi); }
  template<class R> R real(u64 w) { if (!q) return (R)num(0, w >= 64 ? ~0ull : (1ull << w) - 1) / (R)(1ull << w); R v = 0, mult = (R)1 / (R)(1ull << w); for (u64 j = 0; j < w / 32; ++j) { v += (R)(u32)q[k++] * mult; mult *= (R)4294967296.0; } if (w % 32) v += (R)(u32)q[k++] * mult; return v; } };
template<class E> struct Ref;
inline constexpr u64 lowmask(u64 w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
// x' = (a x + c) mod m
template<class I, I a, I c, I m> struct Ref<br::linear_congruential_engine<I, a, c, m> > { typedef br::linear_congruential_engine<I, a, c, m> E; u64 x;
  Ref(Rd& r, u64) { x = r.num((E::min)(), (E::max)()); }
  static constexpr u64 A = (u64)a, C = (u64)c, M = (u64)m; static constexpr bool pow2 = (M & (M - 1)) == 0, fits = M && (A == 0 || (M - 1) <= (~0ull - C) / A);
  typedef typename std::make_unsigned<I>::type N; static constexpr bool nar = M && sizeof(I) < 8 && sizeof(I) >= 4 && fits && A * (M - 1) + C <= (u64)(N)-1;
  u64 next() { if (M == 0) { N v = (N)((N)A * (N)x + (N)C); if (std::is_signed<I>::value) v &= (N)lowmask(sizeof(I) * 8 - 1); x = v; } else if (pow2) x = (N)((N)A * (N)x + (N)C) & (N)(M - 1); else if (nar) x = ((N)A * (N)x + (N)C) % (N)(M ? M : 1); else if (fits) x = (A * x + C) % (M ? M : 1); else x = (u64)(((unsigned __int128)A * x + C) % (M ? M : 1)); return x; } };
template<> struct Ref<br::rand48> { u64 x; Ref(Rd& r, u64) { x = r.num(0, (1ull << 48) - 1); } u64 next() { x = (0x5DEECE66Dull * x + 11) & lowmask(48); return x >> 17; } };
// Matsumoto and Nishimura; x holds the last n words
template<class U, std::size_t w, std::size_t n, std::size_t m, std::size_t r, U a, std::size_t u, U d, std::size_t s, U b, std::size_t t, U c, std::size_t l, U f>
struct Ref<br::mersenne_twister_engine<U, w, n, m, r, a, u, d, s, b, t, c, l, f> > { U x[n]; u64 k;
  Ref(Rd& q, u64) { for (u64 i = 0; i < n; ++i) x[i] = (U)q.num(0, lowmask(w)); k = 0; }
  u64 next() { const U lo = (U)lowmask(r), hi = (U)~lo; u64 i1 = (k + 1) % n, im = (k + m) % n; U y = (x[k] & hi) | (x[i1] & lo); U v = x[im] ^ (y >> 1) ^ ((x[i1] & 1) * a); x[k] = v; k = i1;
    U z = v; z ^= (z >> u) & d; z ^= (z << s) & b; z ^= (z << t) & c; z ^= z >> l; return z; } };
// Marsaglia and Zaman: x_n = x_{n-s} - x_{n-r} - carry  mod 2^w
template<class I, std::size_t w, std::size_t s, std::size_t r> struct Ref<br::subtract_with_carry_engine<I, w, s, r> > { I x[r]; I c; u64 k;
  Ref(Rd& q, u64) { for (u64 i = 0; i < r; ++i) x[i] = (I)q.num(0, lowmask(w)); c = q.seeded ? (I)(x[r - 1] == 0) : (I)q.num(0, 1); k = 0; }
  u64 next() { I a = x[(k + r - s) % r], b = x[k] + c, v; if (a >= b) { v = a - b; c = 0; } else { v = a + (((I)1 << w) - b); c = 1; } x[k] = v; k = (k + 1) % r; return v; } };
template<class R, std::size_t w, std::size_t s, std::size_t r> struct Ref<br::subtract_with_carry_01_engine<R, w, s, r> > { R x[r]; R c, ulp; u64 k;
  Ref(Rd& q, u64) { const R M = (R)(1ull << w); for (u64 i = 0; i < r; ++i) x[i] = q.real<R>(w); c = q.seeded ? (x[r - 1] == 0 ? (R)1 / M : (R)0) : (R)q.num(0, 1) / M; ulp = (R)1 / M; k = 0; }
  R next() { R v = x[(k + r - s) % r] - x[k] - c; if (v < 0) { v += (R)1; c = ulp; } else c = 0; x[k] = v; k = (k + 1) % r; return v; } };
// x_n = x_{n-p} + x_{n-q}  mod 2^w, read from position d of the block
template<class I, int w, unsigned p, unsigned q> struct Ref<br::lagged_fibonacci_engine<I, w, p, q> > { I x[p]; u64 k, left;
  Ref(Rd& r, u64 d) { for (u64 i = 0; i < p; ++i) x[i] = (I)r.num(0, lowmask(w)); k = r.seeded ? p : d % (p + 1); left = p - k; k = left ? k : 0; }
  u64 next() { I v; if (left) { v = x[k]; --left; } else { v = (x[k] + x[(k + p - q) % p]) & (I)lowmask(w); x[k] = v; } k = (k + 1) % p; return v; } };
template<class R, int w, unsigned p, unsigned q> struct Ref<br::lagged_fibonacci_01_engine<R, w, p, q> > { R x[p]; u64 k, left;
  Ref(Rd& r, u64 d) { for (u64 i = 0; i < p; ++i) x[i] = r.real<R>(w); k = r.seeded ? p : d % (p + 1); left = p - k; k = left ? k : 0; }
  R next() { R v; if (left) { v = x[k]; --left; } else { v = x[k] + x[(k + p - q) % p]; if (v >= (R)1) v -= (R)1; x[k] = v; } k = (k + 1) % p; return v; } };
template<class U, std::size_t p, std::size_t r> struct Ref<br::discard_block_engine<U, p, r> > { Ref<U> b; u64 n;
  Ref(Rd& q, u64 d) : b(q, d) { n = q.seeded ? 0 : d % (r + 1); }
  auto next() -> decltype(b.next()) { if (n >= r) { while (n < p) { b.next(); ++n; } n = 0; } ++n; return b.next(); } };
template<class R, u64 lo, u64 hi, u64 k> inline u64 slot(u64 y) { typedef typename std::make_unsigned<R>::type N; const u64 span = hi - lo; if (k == 1) return 0; if (sizeof(N) >= 4 && span < (u64)(N)-1 / k) return (N)((N)k * ((N)y - (N)lo)) / (N)(span + 1); if (span < ~0ull / k) return (u64)((N)y - (N)lo) * k / (span + 1); return (u64)((unsigned __int128)(y - lo) * k / ((unsigned __int128)span + 1)); }
// Bays and Durham
template<class U, std::size_t k> struct Ref<br::shuffle_order_engine<U, k> > { typedef typename U::result_type R; Ref<U> b; R v[k]; R y; 
  Ref(Rd& q, u64 d) : b(q, d) { for (u64 i = 0; i < k; ++i) v[i] = q.seeded ? (R)b.next() : (R)q.num((U::min)(), (U::max)()); y = q.seeded ? (R)b.next() : (R)q.num((U::min)(), (U::max)()); }
  u64 next() { u64 j = slot<R, (u64)(U::min)(), (u64)(U::max)(), k>(y); y = v[j]; v[j] = (R)b.next(); return y; } };
template<class A, class B> struct Ref<br::additive_combine_engine<A, B> > { Ref<A> a; Ref<B> b; Ref(Rd& q, u64 d) : a(q, d), b(q, d) {} typedef typename A::result_type N; u64 next() { N x = (N)a.next(), y = (N)b.next(); return y < x ? x - y : x - y + (N)(A::modulus - 1); } };
template<class A, int s, class B, int z> struct Ref<br::xor_combine_engine<A, s, B, z> > { Ref<A> a; Ref<B> b; Ref(Rd& q, u64 d) : a(q, d), b(q, d) {} typedef typename br::xor_combine_engine<A, s, B, z>::result_type T; u64 next() { u64 x = a.next(), y = b.next(); return (T)((x << s) ^ (y << z)); } };
// Tausworthe, in L'Ecuyer's word formulation
template<class U, int w, int k, int q, int s> struct Ref<br::linear_feedback_shift_engine<U, w, k, q, s> > { u64 x; Ref(Rd& r, u64) { x = r.num(1ull << (w - k), lowmask(w)); }
  u64 next() { u64 b = (((x << q) & lowmask(w)) ^ x) >> (k - s); u64 hi = lowmask(w) & ~lowmask(w - k); x = (((x & hi) << s) & lowmask(w)) ^ b; return x; } };
template<> struct Ref<br::splitmix64> { u64 x; Ref(Rd& r, u64) { x = r.num(0, ~0ull); } u64 next() { x += 0x9E3779B97F4A7C15ull; u64 z = x; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); } };
// [rand.adapt.ibits]
template<class E, std::size_t w, class U> struct Ref<br::independent_bits_engine<E, w, U> > { Ref<E> e; Ref(Rd& q, u64 d) : e(q, d) {}
  u64 next() { typedef unsigned __int128 W; const W R = (W)(u64)(E::max)() - (u64)(E::min)() + 1; u64 m = 0; while (((W)2 << m) <= R) ++m; u64 n = (w + m - 1) / m, w0, n0; W y0, y1;
    for (;; ++n) { w0 = w / n; n0 = n - w % n; y0 = (R >> w0) << w0; y1 = w0 < 63 ? (R >> (w0 + 1)) << (w0 + 1) : 0; if (R - y0 <= y0 / n) break; }
    typedef typename std::make_unsigned<typename E::result_type>::type N; U S = 0; for (u64 k = 0; k < n; ++k) { bool big = k >= n0; u64 ww = big ? w0 + 1 : w0; N top = (N)((big ? y1 : y0) - 1); N u; do u = (N)e.next() - (N)(E::min)(); while (u > top); S = (ww < sizeof(U) * 8 ? S << ww : 0) + (U)(u & (N)lowmask(ww)); }
    return S; } };
// free base generators
template<class R, u64 Lo, u64 Hi, int S, bool T> struct Ref<VRng<R, Lo, Hi, S, T> > { VRng<R, Lo, Hi, S, T> g; Ref(Rd&, u64) {} u64 next() { return (u64)g(); } };
template<class R, u64 Lo, u64 Hi, int S, bool T> struct Fld<VRng<R, Lo, Hi, S, T> > { static void put(Txt& t, u64) { t.lit(0); } };
template<class A, class B> bool eqv(A a, B b) { return (u64)a == (u64)b; }
inline bool eqv(double a, double b) { return a == b; }
inline bool eqv(float a, float b) { return a == b; }
