// S04: seeding from an iterator range reads exactly the words the engine needs, in order, never at or past the end, and reports a short range.
//UNITS: LCG MT MTB SWC LF RLX CMB SHO INV IB MIX
#include "engines.hpp"
// ---- words each engine is documented to take
template<class E> struct Need;
template<class I, I a, I c, I m> struct Need<br::linear_congruential_engine<I, a, c, m> > { static const u64 v = m == 0 ? sizeof(I) / 4 : ((u64)m - 1) >> 32 ? 2 : 1; };
template<> struct Need<br::rand48> { static const u64 v = 2; };
template<class U, std::size_t w, std::size_t n, std::size_t m, std::size_t r, U a, std::size_t u, U d, std::size_t s, U b, std::size_t tt, U c, std::size_t l, U f>
struct Need<br::mersenne_twister_engine<U, w, n, m, r, a, u, d, s, b, tt, c, l, f> > { static const u64 v = n * ((w + 31) / 32); };
template<class I, std::size_t w, std::size_t s, std::size_t r> struct Need<br::subtract_with_carry_engine<I, w, s, r> > { static const u64 v = r * ((w + 31) / 32); };
template<class I, std::size_t w, std::size_t s, std::size_t r> struct Need<br::subtract_with_carry_01_engine<I, w, s, r> > { static const u64 v = r * ((w + 31) / 32); };
template<class I, int w, unsigned p, unsigned q> struct Need<br::lagged_fibonacci_engine<I, w, p, q> > { static const u64 v = p * ((w + 31) / 32); };
template<class I, int w, unsigned p, unsigned q> struct Need<br::lagged_fibonacci_01_engine<I, w, p, q> > { static const u64 v = p * ((w + 31) / 32); };
template<class U, std::size_t p, std::size_t r> struct Need<br::discard_block_engine<U, p, r> > : Need<U> {};
template<class U, std::size_t k> struct Need<br::shuffle_order_engine<U, k> > : Need<U> {};
template<class A, class B> struct Need<br::additive_combine_engine<A, B> > { static const u64 v = Need<A>::v + Need<B>::v; };
template<class A, int s, class B, int z> struct Need<br::xor_combine_engine<A, s, B, z> > { static const u64 v = Need<A>::v + Need<B>::v; };
template<class U, int w, int k, int q, int s> struct Need<br::linear_feedback_shift_engine<U, w, k, q, s> > { static const u64 v = (w + 31) / 32; };
template<class E, std::size_t w, class U> struct Need<br::independent_bits_engine<E, w, U> > : Need<E> {};
template<class I, I a, I b, I p> struct Need<br::inversive_congruential_engine<I, a, b, p> > { static const u64 v = 1; };
template<> struct Need<mixmax17> { static const u64 v = 4; };
template<class E> E prior() { E a(Tk<E>::template go<3>(2)); a(); a(); return a; }
template<> invs prior<invs>() { return invs(9u); } template<> br::hellekalek1995 prior<br::hellekalek1995>() { return br::hellekalek1995(9u); }
// seeding sequence delivering the words of stream S starting with word -Skip
template<int S, int Skip> struct WSeq { typedef u32 result_type; template<class It> void generate(It a, It b) { for (int k = 0; a != b; ++a, ++k) *a = k < Skip ? 0u : (u32)va_sym_u(S, k - Skip, 32, 0, 0xffffffffu); } };
template<class E> struct Skip { static const int v = 0; };
template<class I, I a, I c, I m> struct Skip<br::linear_congruential_engine<I, a, c, m> > { static const int v = 3; };
template<> struct Skip<br::rand48> { static const int v = 3; };
template<class U, int w, int k, int q, int s> struct Skip<br::linear_feedback_shift_engine<U, w, k, q, s> > { static const int v = 3; };
template<class U, std::size_t p, std::size_t r> struct Skip<br::discard_block_engine<U, p, r> > : Skip<U> {};
template<class U, std::size_t k> struct Skip<br::shuffle_order_engine<U, k> > : Skip<U> {};
template<class E, std::size_t w, class U> struct Skip<br::independent_bits_engine<E, w, U> > : Skip<E> {};
template<class A, class B> struct Skip<br::additive_combine_engine<A, B> > { static const int v = -1; };
template<class A, int s, class B, int z> struct Skip<br::xor_combine_engine<A, s, B, z> > { static const int v = -1; };
template<class E> void size(u64 have, u64 start) {
  va_bound(Lim<E>::v); const u64 N = Need<E>::v;
  { VIn f(4, start, start + have), l(4, start + have, start + have); bool threw = false; try { E e(f, l); } catch (std::invalid_argument&) { threw = true; }
    va_check(threw == (have < N), "construction from (first,last) throws invalid_argument exactly when the range is too short");
    if (!threw) va_check(f.pos == start + N, "construction from (first,last) consumes exactly the words the engine needs"); else va_check(f.pos == start + have, "a short range is read to its end"); }
  { VIn f(4, start, start + have), l(4, start + have, start + have); bool threw = false; E e(prior<E>()); try { e.seed(f, l); } catch (std::invalid_argument&) { threw = true; }
    va_check(threw == (have < N), "seed(first,last) throws invalid_argument exactly when the range is too short");
    if (!threw) va_check(f.pos == start + N, "seed(first,last) consumes exactly the words the engine needs"); else va_check(f.pos == start + have, "a short range is read to its end"); }
}
template<class E> void val() {
  va_bound(Lim<E>::v); const u64 N = Need<E>::v;
  VIn f(4, 0, N), l(4, N, N); E a(f, l); WSeq<4, Skip<E>::v> s; E b(s); va_check(a == b, "an iterator range seeds the engine with the same words as a seed sequence producing them");
  for (int i = 0; i < 3; ++i) va_check(a() == b(), "an iterator range seeds the engine with the same words as a seed sequence producing them (outputs)");
}
template<class E, class A, class B> void part() { // composite: parts are seeded one after the other from the same iterator
  const u64 N = Need<E>::v; VIn f(4, 0, N), g(4, 0, N), l(4, N, N); E e(f, l); A a(g, l); B b(g, l);
  VBuf<> s, t; VOs x(&s), y(&t); x << e; y << a; y << ' '; y << b; bool ok = s.n == t.n; for (u64 i = 0; i < s.n && i < t.n; ++i) ok = ok & (s.a[i].u == t.a[i].u); va_check(ok, "a composite engine seeds its parts one after the other from the same range");
  E d; d(); VIn h(4, 0, N); d.seed(h, l); va_check(d == e, "a composite engine seeds its parts one after the other from the same range (seed)");
}
#define SZ(id, T) SCEN(S04_##id##_none) { size<T>(0, 0); } SCEN(S04_##id##_short) { size<T>(Need<T>::v - 1, 3); } SCEN(S04_##id##_exact) { size<T>(Need<T>::v, 0); } SCEN(S04_##id##_long) { size<T>(Need<T>::v + 2, 7); }
#define AL(id, T) SZ(id, T) SCEN(S04_##id##_half) { size<T>(Need<T>::v / 2, 0); } SCEN(S04_##id##_words) { val<T>(); }
#define CO(id, T, A, B) SZ(id, T) SCEN(S04_##id##_half) { size<T>(Need<A>::v, 0); } SCEN(S04_##id##_parts) { part<T, A, B>(); }
#ifdef UNIT_LCG
G_LCG(AL)
#endif
#ifdef UNIT_MT
G_MT(AL)
#endif
#ifdef UNIT_MTB
G_MTB(AL)
#endif
#ifdef UNIT_SWC
G_SWC(AL)
#endif
#ifdef UNIT_LF
G_LF(AL)
#endif
#ifdef UNIT_RLX
G_RLX(AL)
#endif
#ifdef UNIT_CMB
AL(lfs1, lfs1) AL(lfs2, lfs2) SZ(taus88, br::taus88) CO(ac1, ac1, br::minstd_rand0, br::minstd_rand) CO(xc1, xc1, lcg32, br::minstd_rand0)
typedef br::linear_congruential_engine<u32, 40014, 0, 2147483563> ecA; typedef br::linear_congruential_engine<u32, 40692, 0, 2147483399> ecB; CO(ecuyer1988, br::ecuyer1988, ecA, ecB)
#endif
#ifdef UNIT_SHO
G_SHO(AL)
#endif
#ifdef UNIT_INV
SZ(invs, invs) SZ(hellekalek1995, br::hellekalek1995)
#endif
#ifdef UNIT_IB
G_IB(AL)
#endif
#ifdef UNIT_MIX
SCEN(S04_mixmax) { for (u64 have = 0; have < 7; ++have) { u32 w[8] = { 5, 1, 0, 9, 4, 4, 4, 4 }; const u32* p = w; const u32* e = w + have; bool t = false; try { mixmax17 m(p, e); } catch (std::invalid_argument&) { t = true; } va_check(t == (have < 4), "construction from (first,last) throws invalid_argument exactly when the range is too short"); va_check(p == w + (have < 4 ? have : 4), "construction from (first,last) consumes exactly the words the engine needs"); mixmax17 s; p = w; t = false; try { s.seed(p, e); } catch (std::invalid_argument&) { t = true; } va_check(t == (have < 4), "seed(first,last) throws invalid_argument exactly when the range is too short"); va_check(p == w + (have < 4 ? have : 4), "seed(first,last) consumes exactly the words the engine needs"); } }
#endif
