// S19: whole-number draws have exactly the shares documented.  The engine's values are free; the number of engine
// value sequences that lead to each result is counted over the value graph.
//UNITS: INT OFF SML DISC DISCP REAL ADP
#include "dists.hpp"
#include <boost/random/random_number_generator.hpp>
#include <boost/random/independent_bits.hpp>
#include <boost/random/generate_canonical.hpp>
#include <boost/random/detail/int_float_pair.hpp>
template<u64 n, u64 lo = 0> using G = VRng<u32, lo, lo + n - 1>;
// an engine asked for at most L values: sequences needing more are left out (all of them, so shares among the rest stay exact)
#ifndef LIMIT
#define LIMIT 600000
#endif
constexpr u64 fit(u64 n) { u64 k = 0, t = 1; while (k < 7 && t * n <= LIMIT) { t *= n; ++k; } return k; }
template<class E> struct Lm { typedef typename E::result_type result_type; static constexpr bool has_fixed_range = false; static constexpr result_type min() { return (E::min)(); } static constexpr result_type max() { return (E::max)(); } E e; u64 L; Lm() : L(fit((u64)(E::max)() - (u64)(E::min)() + 1)) {} result_type operator()() { const u64 p = e.pos++; va_assume(p < L); result_type r = (E::min)(); for (u64 k = 0; k < L; ++k) if (p == k) { E t; t.pos = k; r = t(); } return r; } };
static const char* const EQ = "every value of a uniform integer distribution arises from equally many engine values";
template<class D, class E, class T> void uni(T lo, T hi, int B) { va_bound(9); va_values_only(); Lm<E> g; const D d(lo, hi); D c(d); typename D::result_type x = c(g); va_uniform((u64)((long long)x - (long long)lo), 0, (u64)((long long)hi - (long long)lo), EQ); }
template<class D, class E, class T> void unip(T lo, T hi, int B) { va_bound(9); va_values_only(); Lm<E> g; D c; typename D::result_type x = c(g, typename D::param_type(lo, hi)); va_uniform((u64)((long long)x - (long long)lo), 0, (u64)((long long)hi - (long long)lo), EQ); }
#define U(id, T, n, lo, hi, B) SCEN(S19_ui_##id) { uni<br::uniform_int_distribution<T>, G<n>, T>(lo, hi, B); } SCEN(S19_uip_##id) { unip<br::uniform_int_distribution<T>, G<n>, T>(lo, hi, B); }
#ifdef UNIT_INT
U(7_10, int, 7, 0, 9, 2) U(7_7, int, 7, -3, 3, 2) U(7_3, int, 7, 5, 7, 3) U(7_49, int, 7, 0, 48, 2) U(7_50, int, 7, 0, 49, 2) U(7_6, int, 7, 0, 5, 3) U(7_2, int, 7, 0, 1, 3) U(7_1, int, 7, 4, 4, 3) U(7_100, unsigned, 7, 0, 99, 2)
U(8_64, int, 8, 0, 63, 2) U(8_5, int, 8, -2, 2, 3) U(8_8, unsigned, 8, 1, 8, 2) U(8_20, long long, 8, -10, 9, 2) U(2_10, int, 2, 0, 9, 2) U(2_4, int, 2, 0, 3, 2) U(2_7, int, 2, 0, 6, 3) U(10_4, short, 10, 0, 3, 3) U(10_64, int, 10, 0, 63, 2) U(3_27, int, 3, 0, 26, 2) U(3_26, int, 3, 1, 26, 2) U(3_10, unsigned short, 3, 0, 9, 2) U(16_256, int, 16, 0, 255, 2) U(16_255, int, 16, 0, 254, 2) U(16_17, int, 16, 0, 16, 2) U(6_100, u64, 6, 0, 99, 2)
U(256_100, int, 256, 0, 99, 2) U(256_c, signed char, 256, -128, 127, 2) U(256_b, signed char, 256, -100, 100, 2) U(256_2, int, 256, 0, 1, 2) U(1000_7, int, 1000, 0, 6, 2) U(1000_999, int, 1000, 0, 998, 2) U(1000_501, int, 1000, 0, 500, 2) U(16_c, signed char, 16, -128, 127, 2)
typedef VRngS<int, -3, 3> S7; typedef VRngS<signed char, -8, 7> S16; typedef VRng<u64, 5, 14> L10; typedef VRng<unsigned char, 0, 255> C256; typedef VRng<unsigned short, 65530, 65535> T6;
#define UE(id, T, E, lo, hi, B) SCEN(S19_ui_##id) { uni<br::uniform_int_distribution<T>, E, T>(lo, hi, B); }
UE(s7_10, int, S7, -4, 5, 2) UE(s7_7, unsigned, S7, 0, 6, 2) UE(s7_40, int, S7, -20, 19, 2) UE(s16_5, int, S16, 0, 4, 3) UE(s16_100, int, S16, 1, 100, 2) UE(l10_3, u64, L10, 0, 2, 3) UE(l10_30, int, L10, 0, 29, 2) UE(l10_100, int, L10, 0, 99, 2) UE(c256_10, int, C256, 0, 9, 2) UE(c256_300, int, C256, 0, 299, 2) UE(t6_10, int, T6, 0, 9, 2) UE(t6_6, short, T6, -1, 4, 2)
// ranges next to the largest value of their type, where combinations of engine values overflow
typedef unsigned char uchar; typedef unsigned short ushort; typedef signed char schar;
#define UN(id, T, n, lo, hi) U(o_##id, T, n, lo, hi, 2)
UN(c10a, uchar, 10, 0, 254) UN(c10b, uchar, 10, 0, 255) UN(c10c, uchar, 10, 0, 251) UN(c10d, uchar, 10, 1, 251) UN(c7a, uchar, 7, 0, 254) UN(c7b, uchar, 7, 0, 245) UN(c7c, uchar, 7, 0, 255) UN(c7d, uchar, 7, 0, 171) UN(c6a, uchar, 6, 0, 230) UN(c3a, uchar, 3, 0, 254) UN(c3b, uchar, 3, 3, 255) UN(c5a, schar, 5, -128, 127) UN(c5b, schar, 5, -128, 125) UN(c12, schar, 12, -127, 127) UN(c100, uchar, 100, 0, 240) UN(c200, uchar, 200, 0, 254) UN(s300, ushort, 300, 0, 65534) UN(s500, ushort, 500, 0, 65535) UN(s700, short, 700, -32768, 32000)
#define UD(id, T, n, lo, hi, B) SCEN(S19_dep_##id) { uni<boost::uniform_int<T>, G<n>, T>(lo, hi, B); }
UD(7_10, int, 7, 0, 9, 2) UD(10_7, int, 10, -3, 3, 3) UD(16_200, int, 16, 0, 199, 2)
SCEN(S19_dep_n) { va_bound(9); va_values_only(); Lm<G<11> > g; boost::uniform_int<int> d; u64 x = (u64)d(g, 7); va_uniform(x, 0, 6, EQ); }
#endif
#ifdef UNIT_OFF
// moving both ends of the range moves the result and changes nothing else (free offset)
static const char* const MV = "a uniform integer moves with the ends of its range", * const MD = "moving the ends of a range does not change the number of engine values drawn";
template<class D, class E, class T> void moved(T lo, T hi) { va_bound(5); va_values_only(); va_split(); const T o = (T)((long long)va_sym_u(7, 0, 32, 0, 4000) - 2000); E g, h; D a(lo, hi), b((T)(lo + o), (T)(hi + o)); const T x = a(g), y = b(h); va_check(y == (T)(x + o), MV); va_check(g.pos == h.pos, MD); E k; D c; const T z = c(k, typename D::param_type((T)(lo + o), (T)(hi + o))); va_check(z == (T)(x + o), MV); }
typedef VRngS<int, -5, 5> S11; typedef VRng<unsigned short, 0, 65535> H16; typedef VRng<u32, 0, 0xffffffffu> F32; typedef VRng<u64, 0, ~0ull> F64; typedef VRngS<int, -2147483648LL, 2147483647LL> SF32; typedef VRng<u32, 1, 2147483646> M31; typedef VRng<unsigned char, 0, 255> C8;
#define MO(T, E, hi, n) SCEN(S19_off_##T##_##E##_##n) { moved<br::uniform_int_distribution<T>, E, T>(0, hi); }
#define MOS(T, hi, n) MO(T, B2, hi, n) MO(T, B4, hi, n) MO(T, B7, hi, n) MO(T, B10, hi, n) MO(T, S11, hi, n) MO(T, C8, hi, n) MO(T, H16, hi, n) MO(T, F32, hi, n) MO(T, F64, hi, n) MO(T, SF32, hi, n) MO(T, M31, hi, n)
typedef G<2> B2; typedef G<4, 3> B4; typedef G<7> B7; typedef G<10> B10; typedef long long LL; typedef unsigned short US;
MOS(int, 1, a) MOS(int, 3, b) MOS(int, 6, c) MOS(int, 9, d) MOS(int, 15, e) MOS(int, 48, f) MOS(int, 99, g) MOS(int, 120, h) MOS(int, 255, i) MOS(int, 65535, j) MOS(int, 2000000, k) MOS(int, 2147483645, m)
MO(LL, B4, 63, a) MO(LL, C8, 65535, a) MO(LL, C8, 4294967295LL, b) MO(LL, H16, 4294967295LL, a) MO(LL, H16, 281474976710655LL, b) MO(LL, F32, 4294967295LL, a) MO(LL, F32, 4294967296LL, b) MO(LL, M31, 2147483645LL, a) MO(LL, M31, 4611686009837453315LL, b) MO(LL, SF32, 4294967295LL, a) MO(LL, F64, 4294967295LL, a) MO(US, C8, 255, a) MO(US, B4, 63, a) MO(US, H16, 60000, a)
#define MS(D, T, E, hi, n) SCEN(S19_offs_##T##_##E##_##n) { moved<D, E, T>(0, hi); }
MS(boost::uniform_int<int>, int, C8, 65535, d1) MS(boost::uniform_int<int>, int, B7, 48, d2) MS(boost::uniform_int<int>, int, F32, 9, d3) MS(br::uniform_smallint<int>, int, F32, 9, s1) MS(br::uniform_smallint<int>, int, B10, 4, s2) MS(br::uniform_smallint<LL>, LL, F64, 1000, s3) MS(br::uniform_smallint<int>, int, SF32, 15, s4) MS(br::uniform_smallint<int>, int, H16, 99, s5)
#endif
#ifdef UNIT_SML
// uniform_smallint: exact when the engine's range is a multiple of the distribution's
#define SM(id, T, E, lo, hi) SCEN(S19_sml_##id) { uni<br::uniform_smallint<T>, E, T>(lo, hi, 2); } SCEN(S19_smlp_##id) { unip<br::uniform_smallint<T>, E, T>(lo, hi, 2); }
typedef G<12> G12; typedef G<256> G256; typedef G<1000> G1000; typedef VRngS<int, -6, 5> S12; typedef G<20, 5> G20;
SM(12_3, int, G12, 0, 2) SM(12_12, int, G12, -6, 5) SM(12_1, int, G12, 3, 3) SM(256_16, int, G256, 0, 15) SM(256_256, int, G256, -128, 127) SM(1000_8, int, G1000, 1, 8) SM(1000_250, short, G1000, 0, 249) SM(s12_4, int, S12, -2, 1) SM(20_5, unsigned, G20, 7, 11)
// otherwise no value gains or loses more than one engine value
template<class E, class T> void near1(T lo, T hi, u64 n) { va_bound(2); va_values_only(); E g; br::uniform_smallint<T> d(lo, hi); T x = d(g); const u64 r = (u64)(hi - lo) + 1; for (u64 j = 0; j < r; ++j) va_ratio((u64)(x - lo), j, 1, r, (r - 1) * 1000000 / (r * n) * r + 1000000 / n, "no value of uniform_smallint gains or loses more than one engine value"); }
SCEN(S19_sml_near_a) { near1<G<256>, int>(0, 9, 256); } SCEN(S19_sml_near_b) { near1<G<1000>, int>(-3, 3, 1000); } SCEN(S19_sml_near_c) { near1<G<4096>, int>(0, 59, 4096); }
#define RN(n, k) SCEN(S19_rng_##n##_##k) { va_bound(9); va_values_only(); typedef Lm<G<n> > E; E g; br::random_number_generator<E> r(g); va_uniform((u64)r(k), 0, k - 1, EQ); }
RN(7, 10) RN(16, 5) RN(256, 100) RN(10, 10) RN(5, 1)
#endif
static const char* const SH = "an index of a discrete distribution is drawn with the share its weight gives";
template<class W, class E, bool Param> void disc(std::initializer_list<int> il, int B, u64 ppm = 0) { va_bound(9); va_values_only(); W w[8]; u64 n = 0, tot = 0; for (int x : il) { w[n++] = (W)x; tot += (u64)x; } typedef br::discrete_distribution<int, W> D; Lm<E> g; int x; if (Param) { D d; typename D::param_type p(w, w + n); x = d(g, p); } else { D d(w, w + n); x = d(g); } u64 k = 0; for (int v : il) { va_ratio((u64)x, k, (u64)v, tot, ppm, SH); ++k; } }
#define DI(id, W, n, B, ...) SCEN(S19_disc_##id) { disc<W, G<n>, false>({ __VA_ARGS__ }, B); }
#define DP(id, W, n, B, ...) SCEN(S19_discp_##id) { disc<W, G<n>, true>({ __VA_ARGS__ }, B); }
#ifdef UNIT_DISC
DI(a, int, 12, 2, 3, 5, 8) DI(b, int, 30, 2, 1, 15) DI(c, int, 30, 2, 4, 4, 4, 4) DI(d, int, 60, 2, 1, 1, 1, 13) DI(e, int, 60, 2, 0, 5, 0, 1, 9, 1) DI(f, int, 24, 2, 7) DI(g, int, 60, 2, 1, 2, 3, 4, 5) DI(h, unsigned, 60, 2, 10, 1, 1, 1) DI(i, int, 60, 2, 0, 0, 1) DI(j, int, 60, 2, 2, 1, 1) DI(k, unsigned, 60, 2, 9, 8, 7, 6) DI(l, int, 60, 2, 1, 0, 0, 0, 0, 0, 4) DI(m, int, 42, 2, 3, 1) DI(n, long long, 60, 2, 1, 1, 2) DI(o, u64, 60, 2, 5, 5, 4) DI(p, int, 128, 2, 50, 30, 19, 1) DI(q, short, 60, 2, 6, 11) DI(r, int, 60, 2, 5, 4, 3, 2, 1, 0, 1)
DI(ov1, unsigned char, 160, 2, 200, 100) DI(ov2, unsigned char, 128, 2, 100, 100, 100) DI(ov3, unsigned short, 64, 2, 40, 2, 1)
#endif
#ifdef UNIT_DISCP
DP(a, int, 16, 2, 3, 5, 8) DP(b, int, 30, 2, 1, 15) DP(d, int, 60, 2, 1, 1, 1, 13) DP(e, int, 60, 2, 0, 5, 0, 1, 9, 1) DP(f, int, 24, 2, 7) DP(g, int, 60, 2, 1, 2, 3, 4, 5) DP(h, unsigned, 60, 2, 10, 1, 1, 1) DP(i, int, 60, 2, 0, 0, 1) DP(o, u64, 60, 2, 5, 5, 4) DP(p, int, 128, 2, 50, 30, 19, 1) DP(r, int, 60, 2, 5, 4, 3, 2, 1, 0, 1)
// weights whose sum exceeds the weight type
DP(ov1, unsigned char, 160, 2, 200, 100) DP(ov2, unsigned char, 128, 2, 100, 100, 100) DP(ov3, signed char, 128, 2, 100, 20, 60) DP(ov4, unsigned char, 130, 2, 255, 1) DP(ov5, unsigned char, 256, 2, 254, 1) DP(ov6, unsigned char, 160, 2, 128, 128) DP(ov8, unsigned char, 300, 2, 255, 3) DP(ov9, unsigned char, 256, 2, 255, 129, 128) DP(ov10, unsigned char, 512, 2, 255, 255, 2) DP(ov7, signed char, 128, 2, 127, 1)
#endif
#ifdef UNIT_REAL
// real weights: shares to within the resolution of the engine
template<class W, class E, bool Param> void rdisc(std::initializer_list<int> il, u64 ppm) { disc<W, E, Param>(il, 2, ppm); }
#define DR(id, W, n, ppm, ...) SCEN(S19_rdisc_##id) { rdisc<W, G<n>, false>({ __VA_ARGS__ }, ppm); } SCEN(S19_rdiscp_##id) { rdisc<W, G<n>, true>({ __VA_ARGS__ }, ppm); }
DR(a, double, 256, 8000, 3, 5, 8) DR(b, double, 256, 8000, 1, 15) DR(c, double, 256, 16000, 4, 4, 4, 4) DR(d, double, 256, 16000, 1, 1, 1, 13) DR(e, double, 240, 26000, 0, 5, 0, 1, 9, 1) DR(f, float, 256, 12000, 3, 5, 7) DR(g, double, 240, 20000, 1, 2, 3, 4, 5) DR(h, float, 256, 12000, 0, 0, 1)
// piecewise: the share of every interval
static const char* const PW = "an interval is chosen with the share its density gives";
template<class D, class E> void pw(const D& d, const double* cut, const u64* num, u64 den, int n, u64 ppm) { Lm<E> g; D c(d); double x = c(g); u64 bin = 0; for (int i = 1; i < n; ++i) bin += x >= cut[i]; for (int i = 0; i < n; ++i) va_ratio(bin, i, num[i], den, ppm, PW); }
SCEN(S19_pwc_a) { va_bound(2); va_values_only(); const double b[] = { 0, 1, 3, 4 }, w[] = { 3, 5, 8 }; const u64 n[] = { 3, 5, 8 }; pw<br::piecewise_constant_distribution<>, G<64> >(br::piecewise_constant_distribution<>(b, b + 4, w), b, n, 16, 3, 32000); }
SCEN(S19_pwc_b) { va_bound(2); va_values_only(); const double b[] = { -5, 1, 3 }, w[] = { 1, 15 }; const u64 n[] = { 1, 15 }; pw<br::piecewise_constant_distribution<>, G<64> >(br::piecewise_constant_distribution<>(b, b + 3, w), b, n, 16, 2, 32000); }
// piecewise linear: the area under the line, in quarters of each interval
SCEN(S19_pwl_up) { va_bound(2); va_values_only(); const double b[] = { 0, 4 }, w[] = { 0, 1 }, q[] = { 0, 1, 2, 3 }; const u64 n[] = { 1, 3, 5, 7 }; pw<br::piecewise_linear_distribution<>, G<24> >(br::piecewise_linear_distribution<>(b, b + 2, w), q, n, 16, 4, 90000); }
SCEN(S19_pwl_down) { va_bound(2); va_values_only(); const double b[] = { 0, 4 }, w[] = { 1, 0 }, q[] = { 0, 1, 2, 3 }; const u64 n[] = { 7, 5, 3, 1 }; pw<br::piecewise_linear_distribution<>, G<24> >(br::piecewise_linear_distribution<>(b, b + 2, w), q, n, 16, 4, 90000); }
SCEN(S19_pwl_both) { va_bound(2); va_values_only(); const double b[] = { 0, 4 }, w[] = { 1, 3 }, q[] = { 0, 1, 2, 3 }; const u64 n[] = { 5, 7, 9, 11 }; pw<br::piecewise_linear_distribution<>, G<24> >(br::piecewise_linear_distribution<>(b, b + 2, w), q, n, 32, 4, 90000); }
SCEN(S19_pwl_two) { va_bound(2); va_values_only(); const double b[] = { 0, 2, 4 }, w[] = { 1, 3, 1 }, q[] = { 0, 1, 2, 3 }; const u64 n[] = { 3, 5, 5, 3 }; pw<br::piecewise_linear_distribution<>, G<24> >(br::piecewise_linear_distribution<>(b, b + 3, w), q, n, 16, 4, 90000); }
// success probability
#define BE(id, n, num, den) SCEN(S19_bern_##id) { va_bound(2); va_values_only(); G<n> g; br::bernoulli_distribution<> d(num / (double)den); va_ratio((u64)d(g), 1, num, den, 1000000 / n + 1, "a Bernoulli trial succeeds with its probability, to the engine's resolution"); }
BE(q, 4096, 1, 4) BE(h, 4096, 1, 2) BE(t, 4095, 2, 3) BE(z, 4096, 0, 1) BE(o, 4096, 1, 1) BE(s, 1000, 999, 1000)
SCEN(S19_bern_never) { va_values_only(); VRng<u32, 0, 0xffffffffu> g; br::bernoulli_distribution<> z(0.0), o(1.0); for (int i = 0; i < 2; ++i) va_check(!z(g), "a Bernoulli trial of probability 0 never succeeds"); for (int i = 0; i < 2; ++i) va_check(o(g), "a Bernoulli trial of probability 1 always succeeds"); }
SCEN(S19_bern_neverd) { va_values_only(); VRngF<double> g; br::bernoulli_distribution<> z(0.0), o(1.0); va_check(!z(g), "a Bernoulli trial of probability 0 never succeeds"); va_check(o(g), "a Bernoulli trial of probability 1 always succeeds"); }
// number of successes, counted
static const char* const BI = "a value of a discrete distribution is drawn with its probability, to the engine's resolution";
SCEN(S19_binom_3h) { va_bound(6); va_values_only(); G<4096> g; br::binomial_distribution<> d(3, 0.5); u64 x = d(g); const u64 n[] = { 1, 3, 3, 1 }; for (int i = 0; i < 4; ++i) va_ratio(x, i, n[i], 8, 600, BI); }
SCEN(S19_binom_4q) { va_bound(7); va_values_only(); G<4096> g; br::binomial_distribution<> d(4, 0.25); u64 x = d(g); const u64 n[] = { 81, 108, 54, 12, 1 }; for (int i = 0; i < 5; ++i) va_ratio(x, i, n[i], 256, 600, BI); }
SCEN(S19_binom_4t) { va_bound(7); va_values_only(); G<4096> g; br::binomial_distribution<> d(4, 0.75); u64 x = d(g); const u64 n[] = { 1, 12, 54, 108, 81 }; for (int i = 0; i < 5; ++i) va_ratio(x, i, n[i], 256, 600, BI); }
SCEN(S19_binom_1) { va_bound(4); va_values_only(); G<4096> g; br::binomial_distribution<> d(1, 0.125); u64 x = d(g); va_ratio(x, 1, 1, 8, 600, BI); va_ratio(x, 0, 7, 8, 600, BI); }
SCEN(S19_geo) { va_bound(2); va_values_only(); G<4096> g; br::geometric_distribution<> d(0.25); u64 x = d(g); u64 p = 1, q = 1; for (int i = 0; i < 8; ++i) { va_ratio(x, i, p, q * 4, 600, BI); p *= 3; q *= 4; } }
SCEN(S19_geo_dep) { va_bound(2); va_values_only(); G<4096> g; boost::geometric_distribution<> d(0.75); u64 x = d(g); u64 p = 3, q = 4; for (int i = 0; i < 5; ++i) { va_ratio(x, i + 1, i == 0 ? 1 : p, q, 600, BI); if (i) p *= 3; q *= 4; } }
SCEN(S19_poisson) { va_bound(14); va_values_only(); G<4096> g; br::poisson_distribution<> d(1.0); u64 x = d(g); const u64 ppm[] = { 367879, 367879, 183940, 61313, 15328, 3066 }; for (int i = 0; i < 6; ++i) va_ratio(x, i, ppm[i], 1000000, 700, BI); }
SCEN(S19_poisson2) { va_bound(16); va_values_only(); G<4096> g; br::poisson_distribution<> d(2.5); u64 x = d(g); const u64 ppm[] = { 82085, 205212, 256516, 213763, 133602, 66801, 27834, 9941 }; for (int i = 0; i < 8; ++i) va_ratio(x, i, ppm[i], 1000000, 700, BI); }
// engines with real results: shares to the resolution of the engine
template<u64 n> struct RE { typedef double result_type; static constexpr bool has_fixed_range = false; static constexpr double min() { return 0; } static constexpr double max() { return 1; } u64 pos = 0; double operator()() { const u64 p = pos++; va_assume(p < 1); return (double)va_sym_u(1, 0, 64, 0, n - 1) / (double)n; } };
#define RU(id, D, T, n, lo, hi) SCEN(S19_real_##id) { va_bound(3); va_values_only(); RE<n> g; D<T> d(lo, hi); u64 x = (u64)((long long)d(g) - (long long)(lo)); const u64 r = (u64)((hi) - (lo)) + 1; for (u64 k = 0; k < r; ++k) va_ratio(x, k, 1, r, 1000000 / n + 1, "integers drawn from a real-valued engine have equal shares, to its resolution"); }
RU(ui10, br::uniform_int_distribution, int, 4096, 0, 9) RU(ui16, br::uniform_int_distribution, int, 4096, -8, 7) RU(ui100, br::uniform_int_distribution, u64, 4096, 1, 100) RU(sm10, br::uniform_smallint, int, 4096, 0, 9) RU(sm7, br::uniform_smallint, int, 4096, -3, 3) RU(sm64, br::uniform_smallint, unsigned, 4096, 0, 63)
// real draws: every tenth of the interval has the same share
static const char* const TE = "equal parts of the interval of a uniform real distribution have equal shares, to the engine's resolution";
template<class E> struct one { typedef typename E::result_type result_type; static constexpr bool has_fixed_range = false; static constexpr result_type min() { return (E::min)(); } static constexpr result_type max() { return (E::max)(); } E e; result_type operator()() { va_assume(e.pos < 1); return e(); } };
#define TEN(id, n, DIST, lo, hi, B) SCEN(S19_ten_##id) { va_bound(3); va_values_only(); one<B > g; DIST; double x = d(g); for (int k = 0; k < 10; ++k) { const double a = (lo) + ((hi) - (lo)) * k / 10.0, b = (lo) + ((hi) - (lo)) * (k + 1) / 10.0; va_ratio(x >= a && x < b, 1, 1, 10, 1000000 / n + 2, TE); } }
typedef VRngS<int, -2000, 2095> RS4096; typedef G<4096, 7> RO4096; typedef VRng<u64, 0, 4999> RL5000;
TEN(u01, 4096, br::uniform_01<>  d, 0, 1, G<4096>) TEN(u01s, 4096, br::uniform_01<> d, 0, 1, RS4096) TEN(u01o, 4096, br::uniform_01<> d, 0, 1, RO4096) TEN(u01f, 5000, br::uniform_01<float> d, 0, 1, RL5000) TEN(ur, 4096, br::uniform_real_distribution<> d(-3, 17), -3, 17, G<4096>) TEN(uro, 4096, br::uniform_real_distribution<> d(-3, 17), -3, 17, RO4096) TEN(urs, 4096, br::uniform_real_distribution<> d(100, 101), 100, 101, RS4096) TEN(urd, 5000, boost::uniform_real<> d(0, 0.5), 0, 0.5, RL5000) TEN(urre, 4096, br::uniform_real_distribution<> d(-1, 1), -1, 1, RE<4096>) TEN(u01re, 4096, br::uniform_01<> d, 0, 1, RE<4096>)
SCEN(S19_ten_dep) { va_bound(3); va_values_only(); br::uniform_01<one<G<4096, 3> > > d((one<G<4096, 3> >())); double x = d(); for (int k = 0; k < 10; ++k) va_ratio(x >= k / 10.0 && x < (k + 1) / 10.0, 1, 1, 10, 246, TE); }
SCEN(S19_ten_canon) { va_bound(3); va_values_only(); one<G<4096> > g; double x = br::generate_canonical<double, 10>(g); for (int k = 0; k < 10; ++k) va_ratio(x >= k / 10.0 && x < (k + 1) / 10.0, 1, 1, 10, 246, TE); }
// the integer half of the integer-and-fraction pair behind the ziggurat distributions
#define IFP(id, E, w) SCEN(S19_ifp_##id) { va_bound(9); va_values_only(); E g; va_uniform((u64)br::detail::generate_int_float_pair<double, w>(g).second, 0, (1u << w) - 1, "the layer of a ziggurat is chosen uniformly"); }
template<class E, int L> struct Free : E { typename E::result_type operator()() { const u64 p = this->pos++; if (p >= L) return (E::min)(); return this->at(p); } };
#define FR(n, L) typedef Free<G<n>, L> Fr##n;
FR(256, 2) FR(16, 3) FR(4, 6) FR(1024, 1) FR(65536, 1) FR(8, 4)
IFP(256, Fr256, 8) IFP(16, Fr16, 8) IFP(4, Fr4, 8) IFP(1024, Fr1024, 8) IFP(65536, Fr65536, 8) IFP(8, Fr8, 8) IFP(b16, Fr16, 6)  IFP(b8, Fr8, 6)
#endif
#ifdef UNIT_ADP
#define IB(id, E, w, T) SCEN(S19_ib_##id) { va_bound(9); va_values_only(); typedef Lm<E> B; br::independent_bits_engine<B, w, T> e; va_uniform((u64)e(), 0, (1ull << w) - 1, "every value of an independent_bits engine arises from equally many base values"); }
typedef G<6> G6; typedef G<10, 3> G10; typedef G<16> G16_; typedef G<3> G3; typedef G<2, 1> G2; typedef G<256> GB; typedef VRng<u64, 7, 12> GL;
IB(6_5, G6, 5, u32) IB(6_3, G6, 3, u32) IB(10_7, G10, 7, u32) IB(16_8, G16_, 8, u32) IB(16_3, G16_, 3, u32) IB(3_3, G3, 3, u32) IB(3_5, G3, 5, u32) IB(2_7, G2, 7, u32) IB(b_8, GB, 8, u32) IB(b_12, GB, 12, u32) IB(b_5, GB, 5, u32) IB(l_4, GL, 4, u64) IB(6_1, G6, 1, u32) IB(10_2, G10, 2, u64)
#endif
