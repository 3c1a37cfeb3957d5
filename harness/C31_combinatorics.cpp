// C31: combinatorial helpers
// BUILD: -fsanitize=undefined -fno-sanitize-recover=all
#include "mc.h"
#include "nsConfig.h"
#include "Utils.h"

namespace vf {	// names the library may use as well
using namespace NS;

typedef __int128 big;

// Row by row; values beyond the range of 128 bits are not asked for
static big pascal(int n, int k)
{
	if (k > n) return 0;
	if (n <= 120)
	{
		static std::vector<std::vector<big> > t;
		while ((int)t.size() <= n) { std::vector<big> r(t.size() + 1, 1); for (size_t i = 1; i + 1 < r.size(); ++i) r[i] = t.back()[i - 1] + t.back()[i]; t.push_back(r); }
		return t[n][k];
	}
	if (2 * k > n) k = n - k;
	big v = 1;
	for (int i = 1; i <= k; ++i) v = v * (n - k + i) / i;
	return v;
}

// Largest product that occurs when the binomial coefficient is built up factor by factor, shorter side first
static big reach(int n, int k)
{
	if (k > n) return n;
	if (2 * k > n) k = n - k;
	big v = 1, m = 2 * (big)std::max(n, 1);
	for (int i = 1; i <= k; ++i) { v = v * (n - k + i); m = std::max(m, v); v /= i; }
	return m;
}
template<class T> void binoms(mc::Ctx& c)
{
	typedef typename std::make_unsigned<T>::type U;
	const big top = std::numeric_limits<T>::max();
	const int N = (int)std::min<big>(top / 2, c.thorough ? 3000 : 130);
	for (int n = 0; n <= N; ++n) for (int k = 0; k <= std::min<int>(N, n + 6); ++k)
	{
		if (n > 120 && k > 12 && k < n - 12) continue;	// not representable in any type
		if (reach(n, k) > top || 2 * (big)k > top) continue;
		if (!c.begin({n, k})) continue;
		NOTE("binom(%d, %d)", n, k);
		c.nontrivial();
		const T got = Math::binom<T>((T)n, (U)k);
		CK((big)got == pascal(n, k), "binom(%d,%d) is %lld, expected %lld", n, k, (long long)got, (long long)pascal(n, k));
	}
}
MC_REGISTER(binom_int, binoms<int>);
MC_REGISTER(binom_unsigned, binoms<unsigned>);
MC_REGISTER(binom_long, binoms<long>);
MC_REGISTER(binom_unsigned_long, binoms<unsigned long>);
MC_REGISTER(binom_short, binoms<short>);
MC_REGISTER(binom_unsigned_short, binoms<unsigned short>);
MC_REGISTER(binom_char, binoms<signed char>);
MC_REGISTER(binom_unsigned_char, binoms<unsigned char>);

template<class T> void factorials(mc::Ctx& c)
{
	big f = 1;
	for (int k = 0; f <= (big)std::numeric_limits<T>::max(); ++k, f *= k)
	{
		if (!c.begin({k})) continue;
		c.nontrivial();
		const T got = Math::factorial<T>((T)k);
		CK((big)got == f, "factorial(%d) is %lld", k, (long long)got);
	}
}
MC_REGISTER(factorial_int, factorials<int>);
MC_REGISTER(factorial_unsigned, factorials<unsigned>);
MC_REGISTER(factorial_long, factorials<long>);
MC_REGISTER(factorial_unsigned_long, factorials<unsigned long>);
MC_REGISTER(factorial_short, factorials<short>);
MC_REGISTER(factorial_unsigned_char, factorials<unsigned char>);

template<class T> void generalised(mc::Ctx& c)
{
	const double tol = 200 * mc::tolerance<T>();
	for (int a = -80; a <= 80; ++a) for (unsigned k = 0; k <= 16; ++k)
	{
		if (!c.begin({a, k})) continue;
		const double n = a / 8.0;
		NOTE("binom(%g, %u)", n, k);
		c.nontrivial();
		double e = 1, m = 1;
		for (unsigned i = 1; i <= k; ++i) { e = e * (n - (i - 1)) / i; m = std::max(m, std::fabs(e)); }
		const double got = (double)Math::binom<T>((T)n, k);
		CK(std::fabs(got - e) <= tol * (1 + k) * m, "binom(%g,%u) is %.17g, expected %.17g", n, k, got, e);
	}
}
MC_REGISTER(generalised_double, generalised<double>);
MC_REGISTER(generalised_float, generalised<float>);
MC_REGISTER(generalised_long_double, generalised<long double>);

template<class T> void signs(mc::Ctx& c)
{
	std::vector<T> v;
	for (int i = std::numeric_limits<T>::is_signed ? -300 : 0; i <= 300; ++i) if ((T)i == i) v.push_back((T)i);
	for (int i = 0; i < 300; ++i) { v.push_back((T)(std::numeric_limits<T>::max() - i % 127)); v.push_back((T)(std::numeric_limits<T>::min() + i % 127)); }
	for (size_t i = 0; i < v.size(); ++i)
	{
		if (!c.begin({(int64_t)i})) continue;
		NOTE("sign_pow(%lld)", (long long)v[i]);
		c.nontrivial();
		CK((int)Math::sign_pow<T>(v[i]) == (((unsigned long long)v[i] & 1) ? -1 : 1), "sign_pow(%lld) is %d", (long long)v[i], (int)Math::sign_pow<T>(v[i]));
	}
}
MC_REGISTER(sign_int, signs<int>);
MC_REGISTER(sign_unsigned, signs<unsigned>);
MC_REGISTER(sign_long, signs<long>);
MC_REGISTER(sign_unsigned_long, signs<unsigned long>);
MC_REGISTER(sign_char, signs<signed char>);
MC_REGISTER(sign_unsigned_char, signs<unsigned char>);

template<class T> void extremes(mc::Ctx& c)
{
	std::vector<T> v = {T(0), T(1), T(2), T(7), T(100), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min()};
	if (std::numeric_limits<T>::is_signed) { v.push_back(T(-1)); v.push_back(T(-50)); }
	if (std::numeric_limits<T>::has_infinity) { v.push_back(std::numeric_limits<T>::infinity()); v.push_back(-std::numeric_limits<T>::infinity()); v.push_back(T(0.5)); v.push_back(std::numeric_limits<T>::denorm_min()); }
	for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j)
	{
		if (!c.begin({(int64_t)i, (int64_t)j})) continue;
		c.nontrivial();
		const T lo = v[i] < v[j] ? v[i] : v[j], hi = v[i] < v[j] ? v[j] : v[i];
		CK(t_min(v[i], v[j]) == lo && t_max(v[i], v[j]) == hi, "smaller and larger of the values %d and %d", (int)i, (int)j);
	}
}
MC_REGISTER(extremes_int, extremes<int>);
MC_REGISTER(extremes_unsigned, extremes<unsigned>);
MC_REGISTER(extremes_long, extremes<long>);
MC_REGISTER(extremes_double, extremes<double>);
MC_REGISTER(extremes_float, extremes<float>);
MC_REGISTER(extremes_char, extremes<signed char>);

}
using namespace vf;

int main(int argc, char** argv)
{
	mc::Meta m;
	m.property = "C31";
	m.level = "exploration";
	m.rule = "a case is one function with one argument tuple; compared with Pascal's triangle and products in 128 bit arithmetic, under the undefined-behaviour sanitizer";
	m.assumptions = {"arguments for which the products of the multiplicative formula (shorter side first) are representable"};
	return mc::main_(argc, argv, m);
}
