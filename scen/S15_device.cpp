// S15: random_device returns the bytes of its device in order and reports every failure.
// The device is a model: open/read/close are stand-ins over free values (every partial-read pattern, every failure point).
//UNITS: NEXT FAIL OPEN GEN
#define BOOST_RANDOM_SOURCE
#include "arch.hpp"
#include <boost/version.hpp>
#include <sys/types.h>
static struct Dev { int errn; long opened, closed, reads, bytes; int fd; const char* path; int oflag; bool fail_open; int fail_at; int how; bool fd_ok; bool len_ok; u64 k; bool fail_close; unsigned char sizes[8]; } dv;
extern "C" int* __errno_location() noexcept { return &dv.errn; }
static bool eqs(const char* a, const char* b) { for (; *a && *a == *b; ++a, ++b) {} return *a == *b; }
static char got_path[64];
extern "C" int open(const char* p, int fl, ...) { dv.opened++; dv.oflag = fl; int i = 0; for (; i < 63 && p[i]; ++i) got_path[i] = p[i]; got_path[i] = 0; if (dv.fail_open) { dv.errn = (int)va_sym_u(71, 0, 32, 1, 130); return -1; } return dv.fd; }
extern "C" int close(int f) { dv.closed++; if (f != dv.fd) dv.fd_ok = false; if (dv.fail_close) { dv.errn = 5; return -1; } return 0; }
// the n-th read delivers between one byte and all that was asked for; the scenarios cover every way of splitting a value
static unsigned char byte_at(u64 i) { return (unsigned char)va_sym_u(72, i, 8, 0, 255); }
extern "C" ssize_t read(int f, void* b, size_t n) {
  if (f != dv.fd || dv.closed) dv.fd_ok = false;
  if (n == 0 || n > sizeof(unsigned)) dv.len_ok = false;
  long r = dv.reads++;
  if (dv.fail_at == r) { if (dv.how == 0) { dv.errn = 7; return 0; } dv.errn = (int)va_sym_u(71, 1, 32, 1, 130); return -1; }
  size_t s = dv.sizes[r % 8]; if (s > n) s = n;
  for (size_t i = 0; i < s; ++i) static_cast<unsigned char*>(b)[i] = byte_at(dv.bytes + i);
  dv.bytes += s; dv.errn = (int)va_sym_u(71, 2 + r, 32, 0, 130); return (ssize_t)s;
}
template class std::basic_string<char>;
// boost.system is not under analysis: the parts a device may use to report an error, as plain values
#define BOOST_SYSTEM_SYSTEM_ERROR_HPP
#define BOOST_SYSTEM_SYSTEM_ERROR_HPP_INCLUDED
#define BOOST_SYSTEM_ERROR_CODE_HPP_INCLUDED
#define BOOST_SYSTEM_DETAIL_ERROR_CODE_HPP_INCLUDED
#define BOOST_SYSTEM_DETAIL_SYSTEM_CATEGORY_HPP_INCLUDED
#define BOOST_SYSTEM_DETAIL_GENERIC_CATEGORY_HPP_INCLUDED
namespace boost { namespace system {
struct error_category { int id; constexpr explicit error_category(int i) : id(i) {} };
inline const error_category& system_category() { static const error_category c(1); return c; }
inline const error_category& generic_category() { static const error_category c(2); return c; }
struct error_code { int v; const error_category* c; error_code() : v(0), c(&system_category()) {} error_code(int x, const error_category& y) : v(x), c(&y) {} int value() const { return v; } const error_category& category() const { return *c; } explicit operator bool() const { return v != 0; } };
struct system_error : std::runtime_error { error_code ec; system_error(int v, const error_category& c, const std::string&) : std::runtime_error(""), ec(v, c) {} system_error(const error_code& e, const std::string&) : std::runtime_error(""), ec(e) {} system_error(int v, const error_category& c) : std::runtime_error(""), ec(v, c) {} explicit system_error(const error_code& e) : std::runtime_error(""), ec(e) {} const error_code& code() const { return ec; } };
} }
#include <boost/random/random_device.hpp>
#include "random_device.cpp"
typedef boost::random::random_device RD;
static void fresh() { dv.errn = 0; dv.opened = dv.closed = dv.reads = dv.bytes = 0; dv.fd = (int)va_sym_u(70, 0, 32, 0, 1000); dv.fail_open = false; dv.fail_at = -1; dv.how = 0; dv.fd_ok = true; dv.len_ok = true; dv.fail_close = false; for (int i = 0; i < 8; ++i) dv.sizes[i] = 4; }
template<int P> static void split() { for (int i = 0; i < 8; ++i) dv.sizes[i] = 1 + ((P >> (2 * i)) & 3); }
static unsigned word(u64 i) { unsigned r; for (int k = 0; k < 4; ++k) reinterpret_cast<unsigned char*>(&r)[k] = byte_at(4 * i + k); return r; }
#ifdef UNIT_NEXT
template<int P> void next() { va_bound(10); fresh(); split<P>(); { RD d; va_check(dv.opened == 1 && dv.reads == 0, "constructing opens the device once and reads nothing");
  va_check(eqs(got_path, "/dev/urandom"), "the default device is /dev/urandom"); va_check((dv.oflag & 3) == 0 && !(dv.oflag & 01100), "the device is opened for reading only");
  for (int i = 0; i < 3; ++i) { unsigned v = d(); va_check(v == word(i), "operator() returns the next four bytes of the device, in order"); va_check(dv.bytes == 4 * (i + 1), "operator() consumes exactly four bytes of the device"); }
  va_check(dv.closed == 0, "the device stays open while the object lives"); }
  va_check(dv.closed == 1, "the destructor closes the device once"); va_check(dv.fd_ok, "only the descriptor that was opened is used"); va_check(dv.len_ok, "a read never asks for more than the bytes still missing"); va_check(dv.opened == 1, "the device is opened once"); }
// sizes - 1 of successive reads in base 4, all ways of splitting one value, and mixtures
#define X(n, ...) SCEN(S15_next_##n) { next<__VA_ARGS__>(); }
X(whole, 0xffff) X(ones, 0) X(twos, 0x5555) X(threes, 0xaaaa) X(m13, 0x8888) X(m31, 0x2222) X(m112, 0x1010) X(m121, 0x4444) X(m211, 0x0101) X(mix, 0x1b27) X(mix2, 0x4e18)
#endif
#ifdef UNIT_GEN
SCEN(S15_generate) { va_bound(10); fresh(); split<0x36c9>(); unsigned a[4]; for (int i = 0; i < 4; ++i) a[i] = (unsigned)va_sym_u(74, i, 32, 0, ~0u); { RD d(std::string("/dev/random")); va_check(eqs(got_path, "/dev/random"), "the token names the device that is opened"); d.generate(a, a + 3); }
  for (int i = 0; i < 3; ++i) va_check(a[i] == word(i), "generate fills the range with consecutive values"); va_check(a[3] == (unsigned)va_sym_u(74, 3, 32, 0, ~0u), "generate writes only its range"); va_check(dv.bytes == 12 && dv.closed == 1 && dv.fd_ok, "generate reads four bytes per value"); }
SCEN(S15_empty) { fresh(); unsigned a = 1; { RD d; d.generate(&a, &a); } va_check(a == 1 && dv.bytes == 0, "generate of an empty range reads and writes nothing"); }
SCEN(S15_range) { fresh(); va_check((RD::min)() == 0 && (RD::max)() == ~0u && !RD::has_fixed_range, "the range is that of unsigned int"); RD d; va_check(d.entropy() >= 0 && d.entropy() <= 32, "the entropy estimate lies between 0 and log2(max + 1)"); }
#endif
#ifdef UNIT_FAIL
template<int AT, int HOW, int P = 0> void fail() { va_bound(10); fresh(); split<P>(); bool thrown = false, sys = false; int code = -1; unsigned n = 0;
  { RD d; dv.fail_at = AT; dv.how = HOW;
    for (int i = 0; i < 2; ++i) { try { unsigned v = d(); va_check(v == word(i), "a value returned before a failure is made of the device's bytes"); ++n; } catch (boost::system::system_error& e) { thrown = sys = true; code = e.code().value(); break; } catch (...) { thrown = true; break; } }
    if (dv.reads > AT || AT < 2) va_check(thrown, "a read failure is reported by an exception");
    if (thrown) va_check(sys, "the exception is a system_error"); if (thrown && sys) va_check(code == (HOW == 0 ? 0 : (int)va_sym_u(71, 1, 32, 1, 130)), "the exception carries the error code of the failed read");
    if (!thrown) va_check(dv.reads <= AT, "a value is never returned after a failed read");
    va_check(dv.closed == 0, "the device stays open after a failure"); }
  va_check(dv.closed == 1 && dv.fd_ok, "the destructor closes the device once"); }
#define X(a, p) SCEN(S15_err##a##_##p) { fail<a, 1, p>(); } SCEN(S15_eof##a##_##p) { fail<a, 0, p>(); }
X(0, 0) X(1, 0) X(2, 0) X(3, 0) X(4, 0) X(7, 0) X(0, 0xffff) X(1, 0xffff) X(1, 0x5555) X(2, 0x5555) X(1, 0x4e18) X(2, 0x4e18) X(3, 0x4e18) X(1, 0x8888) X(3, 0x2222)
SCEN(S15_again) { va_bound(6); fresh(); RD d; dv.fail_at = 0; dv.how = 1; bool t = false; try { d(); } catch (boost::system::system_error&) { t = true; } va_check(t, "a read failure is reported by an exception"); unsigned v = d(); va_check(v == word(0), "after a failed read the device can be read again"); }
#endif
#ifdef UNIT_OPEN
SCEN(S15_open) { va_bound(6); fresh(); dv.fail_open = true; bool sys = false; int code = -1; try { RD d; va_check(false, "failing to open the device is reported by an exception"); } catch (boost::system::system_error& e) { sys = true; code = e.code().value(); } catch (...) {}
  va_check(sys, "the exception is a system_error"); va_check(code == (int)va_sym_u(71, 0, 32, 1, 130), "the exception carries the error code of open"); va_check(dv.reads == 0, "a device that could not be opened is not read"); va_check(dv.closed == 0, "a device that could not be opened is not closed"); }
#endif
