// S10: distributions and parameter objects survive a round trip through text.
//UNITS: INT REAL NORM BIN BIH GAM GAM2 GAM3 LST LST2 DISC
#include "dists.hpp"
template<class T, class C> void rt(bool lone, bool noskip = false) {
  const T a(C::template mk<T>(10)); VBuf<120> buf; VOs os(&buf); os.precision(21);
  if (!lone) os << 7 << ' ';
  os << a; if (!lone) os << ' ' << 12345 << ' ' << a;
  va_check(C::acc(a, 10), "writing leaves the object unchanged"); va_check(os.good() && os.precision() == 21 && os.flags() == (std::ios_base::skipws | std::ios_base::dec), "writing leaves the stream's state and format as they were");
  VIs is(&buf); is.precision(21); if (noskip) is.unsetf(std::ios_base::skipws); const std::ios_base::fmtflags fl = is.flags(); int k = 0; if (!lone) { is >> k; if (noskip) is >> std::ws; }
  T b(C::template mk<T>(11)); is >> b;
  va_check(!is.fail(), "reading back what was written succeeds"); va_check(!is.oddread, "what was written is what is read");
  va_check(C::acc(b, 10), "reading back restores every parameter"); va_check(b == a, "the object read back equals the one written"); va_check(is.flags() == fl, "reading leaves the stream's format as it was");
  if (lone) va_check(is.p == buf.n, "reading consumes all the text of the object");
  else { k = 0; if (noskip) is >> std::ws; is >> k; va_check(!is.fail() && k == 12345, "reading consumes the text of the object and no more"); T c(C::template mk<T>(11)); if (noskip) is >> std::ws; is >> c; va_check(!is.fail() && c == a, "a second object in the same stream is read back"); }
}
#define X(id) SCEN(S10_##id) { va_bound(40); rt<C_##id::D, C_##id>(false); } SCEN(S10_##id##_lone) { va_bound(40); rt<C_##id::D, C_##id>(true); } SCEN(S10_##id##_param) { va_bound(40); rt<C_##id::D::param_type, C_##id>(false); } SCEN(S10_##id##_param_lone) { va_bound(40); rt<C_##id::D::param_type, C_##id>(true); } SCEN(S10_##id##_noskip) { va_bound(40); rt<C_##id::D, C_##id>(false, true); } SCEN(S10_##id##_param_noskip) { va_bound(40); rt<C_##id::D::param_type, C_##id>(false, true); }
#include "dunits.hpp"
