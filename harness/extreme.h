// Values of every magnitude
#pragma once
#include "common.h"

namespace vf {	// names the library may use as well
using namespace NS;

template<class T> struct Extreme { static std::vector<T> all()
{
	std::vector<T> r;
	for (int i = 0; i < 12; ++i) r.push_back(special<T>(i));
	const T e = std::numeric_limits<T>::epsilon(), m = std::numeric_limits<T>::min();
	for (T x : {T(1), T(-1), T(1 + e), T(1 - e / 2), m * 2, -m * T(1 + e), T(std::sqrt(m)), T(std::sqrt(m) / 4), -T(std::sqrt(m)), T(1 / std::sqrt(m)), T(-2 / std::sqrt(m)), T(1e-20), T(-3e-20), T(3e10), T(16777216), T(16777217), T(-2147483648.0), T(4294967296.0)}) r.push_back(x);
	std::sort(r.begin(), r.end());
	r.erase(std::unique(r.begin(), r.end()), r.end());
	return r;
} };
template<> struct Extreme<int> { static std::vector<int> all() { return {0, 1, -1, 2, 255, 256, -256, 32767, 32768, 65535, 65536, 65537, -65536, 1 << 24, (1 << 24) + 1, 1 << 30, -(1 << 30), 2147483647, -2147483647 - 1}; } };
template<> struct Extreme<int64_t> { static std::vector<int64_t> all() { const int64_t o = 1; return {0, 1, -1, 2, 255, 65536, -65537, 2147483647, 2147483648, -2147483648, -2147483649, o << 32, (o << 32) + 1, o << 53, (o << 53) + 1, -(o << 53) - 1, (o << 53) + 2, (o << 62) - 1, -(o << 62), INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1}; } };
template<> struct Extreme<uint8_t> { static std::vector<uint8_t> all() { return {0, 1, 2, 127, 128, 129, 254, 255}; } };
template<> struct Extreme<int16_t> { static std::vector<int16_t> all() { return {0, 1, -1, 2, 127, 128, 255, 256, -256, 32767, 32766, -32767, -32767 - 1}; } };
template<class R> struct Extreme<std::complex<R> > { static std::vector<std::complex<R> > all()
{
	std::vector<std::complex<R> > r;
	const std::vector<R> x = Extreme<R>::all();
	for (R a : x) { if (std::isinf(a)) continue; r.push_back(std::complex<R>(a, 0)); r.push_back(std::complex<R>(0, a)); r.push_back(std::complex<R>(1, a)); r.push_back(std::complex<R>(a, -a)); }
	return r;
} };
template<class T> bool usual(const T& x) { return x == x; }
template<class T> bool sumIn(T, T) { return true; }
inline bool sumIn(int64_t a, int64_t b) { int64_t x; return !__builtin_add_overflow(a, b, &x) && !__builtin_sub_overflow(a, b, &x); }
inline bool sumIn(uint8_t a, uint8_t b) { return a + b < 256 && a >= b; }
inline bool sumIn(int16_t a, int16_t b) { const int s = a + b, d = a - b; return s == (int16_t)s && d == (int16_t)d; }
inline bool sumIn(int a, int b) { const int64_t s = (int64_t)a + b, d = (int64_t)a - b; return s == (int)s && d == (int)d; }
}
