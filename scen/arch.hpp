// Archetypes: the weakest models of the concepts the library is parameterised over.
#pragma once
#ifndef BOOST_ENABLE_ASSERT_HANDLER
#define BOOST_ENABLE_ASSERT_HANDLER
#endif
#ifndef BOOST_EXCEPTION_DISABLE
#define BOOST_EXCEPTION_DISABLE
#endif
#include <cstdint>
#include <cstddef>
#include <limits>
#include <iterator>
#include <type_traits>
#include <stdexcept>
#include <string>
#include <istream>
#include <ostream>
#include <cmath>
#include <cassert>
#include <vector>
typedef std::uint64_t u64; typedef std::uint32_t u32;
extern "C" {
u64 va_sym_u(int stream, u64 idx, unsigned bits, u64 lo, u64 hi) noexcept;   // free unsigned value in [lo,hi]
u64 va_sym_tab(int stream, u64 idx, u64 lo, u64 hi) noexcept;                // tabulated value in [lo,hi]
double va_sym_d(int stream, u64 idx, double lo, double hi) noexcept;
float va_sym_f(int stream, u64 idx, float lo, float hi) noexcept;
long double va_sym_l(int stream, u64 idx, long double lo, long double hi) noexcept;
void va_check(bool, const char*) noexcept;
void va_assume(bool) noexcept;
void va_bound(int) noexcept;
void va_trials(long) noexcept;
void va_twin(int,int) noexcept;
void va_split() noexcept;                // equalities of sums of selections are decided case by case in this scenario
void va_values_only() noexcept;          // only the stated checks count; implicit ones (bounds, division) belong to other properties
void va_may_throw() noexcept;
[[noreturn]] void va_abort(const char*) noexcept;
void va_uniform(u64 v, u64 lo, u64 hi, const char*) noexcept;
void va_ratio(u64 v, u64 value, u64 num, u64 den, u64 ppm, const char*) noexcept;   // share of value among all valuations is num/den, to ppm millionths
void va_show(u64 v, const char*) noexcept;
}
struct va_assertion { int k; };
namespace boost {
#ifdef VA_ASSERT_THROWS
inline void assertion_failed(char const*, char const*, char const*, long) { throw va_assertion{1}; }
inline void assertion_failed_msg(char const*, char const*, char const*, char const*, long) { throw va_assertion{2}; }
#else
inline void assertion_failed(char const*, char const*, char const*, long) { va_abort("an assertion of the library holds"); }
inline void assertion_failed_msg(char const*, char const*, char const*, char const*, long) { va_abort("an assertion of the library holds"); }
#endif
}
#define SCEN(name) extern "C" void scen_##name()

// ---- raw generator: draw k of stream S is an unconstrained value in [Lo,Hi]
template<class R, u64 Lo, u64 Hi, int S = 1, bool Tab = false>
struct VRng {
  typedef R result_type;
  static constexpr bool has_fixed_range = false;
  static constexpr R min() { return static_cast<R>(Lo); }
  static constexpr R max() { return static_cast<R>(Hi); }
  u64 pos = 0;
  VRng() {}
  explicit VRng(u64 p) : pos(p) {}
  void seed() { pos = 0; }
  void seed(u64 p) { pos = p; }
  static R at(u64 p) { return Tab ? static_cast<R>(va_sym_tab(S, p, Lo, Hi)) : static_cast<R>(va_sym_u(S, p, sizeof(R) * 8, Lo, Hi)); }
  R operator()() { return at(pos++); }
  void discard(u64 z) { pos += z; }
  friend bool operator==(const VRng& a, const VRng& b) { return a.pos == b.pos; }
  friend bool operator!=(const VRng& a, const VRng& b) { return a.pos != b.pos; }
  template<class C, class T> friend std::basic_ostream<C, T>& operator<<(std::basic_ostream<C, T>& os, const VRng& r) { os << r.pos; return os; }
  template<class C, class T> friend std::basic_istream<C, T>& operator>>(std::basic_istream<C, T>& is, VRng& r) { is >> r.pos; return is; }
};
// signed result
template<class R, long long Lo, long long Hi, int S = 1, bool Tab = false>
struct VRngS {
  typedef R result_type;
  static constexpr bool has_fixed_range = false;
  static constexpr R min() { return static_cast<R>(Lo); }
  static constexpr R max() { return static_cast<R>(Hi); }
  u64 pos = 0;
  R operator()() { u64 d = (u64)Hi - (u64)Lo; u64 v = Tab ? va_sym_tab(S, pos, 0, d) : va_sym_u(S, pos, 64, 0, d); ++pos; return static_cast<R>((u64)Lo + v); }
};
// floating point generator, values in [0,1)
template<class R, int S = 1> struct VRngF;
template<int S> struct VRngF<double, S> { typedef double result_type; u64 pos = 0; static constexpr bool has_fixed_range = false; static constexpr double min() { return 0; } static constexpr double max() { return 1; } double operator()() { return va_sym_d(S, pos++, 0.0, 1.0 - 1.0 / 9007199254740992.0); } };
template<int S> struct VRngF<float, S> { typedef float result_type; u64 pos = 0; static constexpr bool has_fixed_range = false; static constexpr float min() { return 0; } static constexpr float max() { return 1; } float operator()() { return va_sym_f(S, pos++, 0.0f, 1.0f - 1.0f / 16777216.0f); } };

// ---- seed sequence: word k of stream S is an unconstrained 32-bit value
template<int S = 2> struct VSeq {
  typedef u32 result_type;
  u64 calls = 0; u64 words = 0;
  template<class It> void generate(It a, It b) { ++calls; u64 k = 0; for (; a != b; ++a, ++k) *a = (u32)va_sym_u(S, k, 32, 0, 0xffffffffu); words = k; }
};
// constant seed sequence (every word the same)
struct CSeq { u32 v; typedef u32 result_type; explicit CSeq(u32 x) : v(x) {} template<class It> void generate(It a, It b) { for (; a != b; ++a) *a = v; } };
// ---- single pass input iterator over the words of stream S; counts consumption, traps reads past the end
struct VIn {
  typedef std::input_iterator_tag iterator_category; typedef u32 value_type; typedef std::ptrdiff_t difference_type; typedef const u32* pointer; typedef const u32& reference;
  int s; u64 pos; u64 end; u32 cur; 
  VIn(int st, u64 p, u64 e) : s(st), pos(p), end(e), cur(0) {}
  const u32& operator*() const { va_check(pos < end, "seed iterator is not dereferenced at or past its end"); const_cast<VIn*>(this)->cur = (u32)va_sym_u(s, pos, 32, 0, 0xffffffffu); return cur; }
  VIn& operator++() { va_check(pos < end, "seed iterator is not advanced past its end"); ++pos; return *this; }
  VIn operator++(int) { VIn t(*this); ++*this; return t; }
  friend bool operator==(const VIn& a, const VIn& b) { return a.pos == b.pos; }
  friend bool operator!=(const VIn& a, const VIn& b) { return a.pos != b.pos; }
};

// ---- character streams as sequences of lexical items
enum VChar : u32 {};
struct VTraits { typedef VChar char_type; typedef u64 int_type; typedef std::streamoff off_type; typedef std::streampos pos_type; typedef std::mbstate_t state_type; static int_type eof() { return ~0ull; } static bool eq(VChar a, VChar b) { return a == b; } static bool eq_int_type(int_type a, int_type b) { return a == b; } static VChar to_char_type(int_type a) { return (VChar)a; } static int_type to_int_type(VChar c) { return c; } };
enum { IT_CHAR = 0, IT_INT = 1, IT_F = 2, IT_D = 3, IT_L = 4 };
struct VItem { int kind; bool neg; u64 u; float f; double d; long double l; unsigned fl; int prec; };
template<unsigned N = 2600> struct VTextN { VItem it[N]; u64 n; bool overflow; };
struct VText { VItem* it; u64 n; u64 cap; };
namespace std {
template<> class basic_ios<VChar, VTraits> : public ios_base {
public:
  typedef VChar char_type; typedef VTraits traits_type;
  basic_ios() : st(goodbit), ex(goodbit) { ios_base::flags(ios_base::skipws | ios_base::dec); ios_base::precision(6); ios_base::width(0); }
  iostate rdstate() const { return st; }
  void clear(iostate s = goodbit) { st = s; if (st & ex) throw std::ios_base::failure("x"); }
  void setstate(iostate s) { clear(st | s); }
  bool good() const { return st == 0; } bool eof() const { return (st & eofbit) != 0; } bool fail() const { return (st & (failbit | badbit)) != 0; } bool bad() const { return (st & badbit) != 0; }
  bool operator!() const { return fail(); } explicit operator bool() const { return !fail(); }
  iostate exceptions() const { return ex; } void exceptions(iostate e) { ex = e; clear(st); }
  VChar widen(char c) const { return (VChar)(unsigned char)c; } char narrow(VChar c, char) const { return (char)c; } VChar fill() const { return (VChar)32; } VChar fill(VChar) { return (VChar)32; }
  iostate st, ex;
};
template<> class basic_ostream<VChar, VTraits> : public basic_ios<VChar, VTraits> {
public:
  VText* t; explicit basic_ostream(VText* x) : t(x) {}
  VItem& put_item(int k) { VItem& i = t->it[t->n]; t->n++; i.kind = k; i.neg = false; i.u = 0; i.f = 0; i.d = 0; i.l = 0; i.fl = (unsigned)this->flags(); i.prec = (int)this->precision(); return i; }
  basic_ostream& operator<<(VChar c) { put_item(IT_CHAR).u = c; return *this; }
  basic_ostream& operator<<(char c) { put_item(IT_CHAR).u = (unsigned char)c; return *this; }
  basic_ostream& operator<<(const char* s) { for (; *s; ++s) *this << *s; return *this; }
  basic_ostream& put(VChar c) { return *this << c; }
  basic_ostream& operator<<(bool v) { put_item(IT_INT).u = v; return *this; }
  basic_ostream& operator<<(unsigned char v) { put_item(IT_CHAR).u = v; return *this; }
  basic_ostream& operator<<(signed char v) { put_item(IT_CHAR).u = (unsigned char)v; return *this; }
  basic_ostream& operator<<(unsigned short v) { put_item(IT_INT).u = v; return *this; }
  basic_ostream& operator<<(unsigned v) { put_item(IT_INT).u = v; return *this; }
  basic_ostream& operator<<(unsigned long v) { put_item(IT_INT).u = v; return *this; }
  basic_ostream& operator<<(unsigned long long v) { put_item(IT_INT).u = v; return *this; }
  basic_ostream& sgn(long long v) { VItem& i = put_item(IT_INT); i.neg = v < 0; i.u = (u64)v; return *this; }
  basic_ostream& operator<<(short v) { return sgn(v); }
  basic_ostream& operator<<(int v) { return sgn(v); }
  basic_ostream& operator<<(long v) { return sgn(v); }
  basic_ostream& operator<<(long long v) { return sgn(v); }
  basic_ostream& operator<<(float v) { put_item(IT_F).f = v; return *this; }
  basic_ostream& operator<<(double v) { put_item(IT_D).d = v; return *this; }
  basic_ostream& operator<<(long double v) { put_item(IT_L).l = v; return *this; }
  basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
  basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  basic_ostream& flush() { return *this; }
};
template<> class basic_istream<VChar, VTraits> : public basic_ios<VChar, VTraits> {
public:
  VText* t; u64 p; bool oddread;
  explicit basic_istream(VText* x) : t(x), p(0), oddread(false) {}
  static bool space(const VItem& i) { return i.kind == IT_CHAR && (i.u == 32 || (i.u >= 9 && i.u <= 13)); }
  bool skip() { if (!this->good()) { this->setstate(failbit); return false; } if (this->flags() & skipws) while (p < t->n && space(t->it[p])) ++p; if (p >= t->n) { this->setstate(failbit | eofbit); return false; } return true; }
  // numeric item at p, properly delimited?
  bool num() { if (t->it[p].kind == IT_CHAR) { this->setstate(failbit); return false; } if (p + 1 < t->n && t->it[p + 1].kind != IT_CHAR) { oddread = true; this->setstate(failbit); return false; } return true; }
  void after() { ++p; if (p >= t->n) this->setstate(eofbit); }
  template<class T> basic_istream& rdint(T& v) {
    if (!skip()) return *this; if (!num()) { v = 0; return *this; }
    VItem& i = t->it[p]; bool neg = i.neg; u64 u = i.u; bool bad = false;
    if (i.kind != IT_INT) { long double x = i.kind == IT_F ? (long double)i.f : i.kind == IT_D ? (long double)i.d : i.l; bool small = x >= 0 && x < 1e5L && !(i.fl & (unsigned)(ios_base::fixed | ios_base::scientific)); if (small && (long double)(u64)x == x) { u = (u64)x; neg = false; } else { oddread = true; this->setstate(failbit); return *this; } }
    if (std::is_same<T, bool>::value) { if (neg || u > 1) { v = 1; bad = true; } else v = (T)u; }
    else if (std::is_signed<T>::value) { if (neg) { if ((long long)u < (long long)(std::numeric_limits<T>::min)()) { v = (std::numeric_limits<T>::min)(); bad = true; } else v = (T)(long long)u; } else if (u > (u64)(std::numeric_limits<T>::max)()) { v = (std::numeric_limits<T>::max)(); bad = true; } else v = (T)u; }
    else { if (neg) { v = (T)u; if ((u64)0 - u > (u64)(std::numeric_limits<T>::max)()) { v = (std::numeric_limits<T>::max)(); bad = true; } } else if (u > (u64)(std::numeric_limits<T>::max)()) { v = (std::numeric_limits<T>::max)(); bad = true; } else v = (T)u; }
    after(); if (bad) this->setstate(failbit); return *this; }
  basic_istream& operator>>(bool& v) { return rdint(v); }
  basic_istream& operator>>(unsigned short& v) { return rdint(v); }
  basic_istream& operator>>(short& v) { return rdint(v); }
  basic_istream& operator>>(unsigned& v) { return rdint(v); }
  basic_istream& operator>>(int& v) { return rdint(v); }
  basic_istream& operator>>(unsigned long& v) { return rdint(v); }
  basic_istream& operator>>(long& v) { return rdint(v); }
  basic_istream& operator>>(unsigned long long& v) { return rdint(v); }
  basic_istream& operator>>(long long& v) { return rdint(v); }
  static double lossy(u64 k) { return va_sym_d(900, k, -1e300, 1e300); }
  template<class T> basic_istream& rdflt(T& v) {
    if (!skip()) return *this; if (!num()) { v = 0; return *this; }
    VItem& i = t->it[p]; int k = i.kind; bool exact = true;
    if (k == IT_INT) { v = i.neg ? -(T)((u64)0 - i.u) : (T)i.u; }
    else { int need = k == IT_F ? 9 : k == IT_D ? 17 : 21; if (i.fl & (unsigned)ios_base::fixed) { if (k == IT_F) exact = std::floor(i.f) == i.f; else if (k == IT_D) exact = std::floor(i.d) == i.d; else exact = std::floor(i.l) == i.l; } else if (i.prec < need) exact = false;
      if (exact) v = k == IT_F ? (T)i.f : k == IT_D ? (T)i.d : (T)i.l; else v = (T)lossy(p); }
    after(); return *this; }
  basic_istream& operator>>(float& v) { return rdflt(v); }
  basic_istream& operator>>(double& v) { return rdflt(v); }
  basic_istream& operator>>(long double& v) { return rdflt(v); }
  basic_istream& rdch(VChar& c) { if (!skip()) return *this; if (t->it[p].kind != IT_CHAR) { oddread = true; c = (VChar)'0'; ++p; return *this; } c = (VChar)t->it[p].u; ++p; return *this; }
  basic_istream& operator>>(VChar& c) { return rdch(c); }
  basic_istream& operator>>(char& c) { VChar x = (VChar)0; rdch(x); c = (char)x; return *this; }
  basic_istream& putback(VChar) { this->clear(this->rdstate() & ~eofbit); --p; return *this; }
  basic_istream& unget() { this->clear(this->rdstate() & ~eofbit); --p; return *this; }
  VTraits::int_type get() { if (p >= t->n) { this->setstate(eofbit | failbit); return ~0ull; } VItem& i = t->it[p]; ++p; return i.kind == IT_CHAR ? i.u : (u64)'0'; }
  VTraits::int_type peek() { if (!this->good()) return ~0ull; if (p >= t->n) { this->setstate(eofbit); return ~0ull; } VItem& i = t->it[p]; return i.kind == IT_CHAR ? i.u : (u64)'0'; }
  basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); }
  basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
};
template<> inline basic_istream<VChar, VTraits>& ws<VChar, VTraits>(basic_istream<VChar, VTraits>& is) {
  if (!is.good()) { is.setstate(ios_base::failbit); return is; }
  while (is.p < is.t->n && is.space(is.t->it[is.p])) ++is.p; if (is.p >= is.t->n) is.setstate(ios_base::eofbit); return is; }
}
typedef std::basic_ostream<VChar, VTraits> VOs; typedef std::basic_istream<VChar, VTraits> VIs;
template<unsigned N = 2600> struct VBuf : VText { VItem a[N]; VBuf() { it = a; n = 0; cap = N; } void num(u64 v) { VItem& i = a[n++]; i.kind = IT_INT; i.neg = false; i.u = v; i.fl = 0; i.prec = 6; } void snum(long long v) { VItem& i = a[n++]; i.kind = IT_INT; i.neg = v < 0; i.u = (u64)v; i.fl = 0; i.prec = 6; } void dbl(double v) { VItem& i = a[n++]; i.kind = IT_D; i.neg = false; i.d = v; i.fl = 0; i.prec = 17; } void sp() { VItem& i = a[n++]; i.kind = IT_CHAR; i.u = 32; } };
inline bool eqf(double a, double b) { return a == b; }
