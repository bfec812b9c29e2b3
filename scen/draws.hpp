// comparing drawn values (bit patterns for floating point)
#pragma once
#include <cstring>
template<class T> typename std::enable_if<std::is_integral<T>::value, bool>::type eqr(T a, T b) { return a == b; }
inline bool eqr(double a, double b) { u64 x, y; std::memcpy(&x, &a, 8); std::memcpy(&y, &b, 8); return x == y; }
inline bool eqr(float a, float b) { u32 x, y; std::memcpy(&x, &a, 4); std::memcpy(&y, &b, 4); return x == y; }
template<class T> bool eqr(const std::vector<T>& a, const std::vector<T>& b) { bool r = a.size() == b.size(); for (std::size_t i = 0; i < a.size() && i < b.size(); ++i) r = r & eqr(a[i], b[i]); return r; }
