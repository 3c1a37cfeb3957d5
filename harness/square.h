// Enumerations of square matrices and exact determinants for the factorisation harnesses
#pragma once
#include "common.h"
#include "LU.h"
#include "matrix/MatrixOperations.h"
#include "matrix/MatrixConstructor.h"

namespace vf {	// names the library may use as well
using namespace NS;

// Gaussian integers, exact
struct GI
{
	long long re, im;
	GI(long long r = 0, long long i = 0) : re(r), im(i) {}
	GI operator*(const GI& o) const { return GI(re * o.re - im * o.im, re * o.im + im * o.re); }
	GI operator-(const GI& o) const { return GI(re - o.re, im - o.im); }
	GI operator/(const GI& o) const { long long n = o.re * o.re + o.im * o.im; GI t = *this * GI(o.re, -o.im); return GI(t.re / n, t.im / n); }
	bool zero() const { return !re && !im; }
};
template<class T> GI gi(const T& x) { return GI((long long)x); }
template<class R> GI gi(const std::complex<R>& x) { return GI((long long)x.real(), (long long)x.imag()); }
template<class T> struct UnGI { static T v(const GI& x) { return (T)x.re; } };
template<class R> struct UnGI<std::complex<R> > { static std::complex<R> v(const GI& x) { return std::complex<R>((R)x.re, (R)x.im); } };

// Bareiss elimination; entries have to be (Gaussian) integers
template<class T> GI exactDet(const Ref<T>& a)
{
	const int n = a.r;
	std::vector<GI> m(n * n);
	for (int i = 0; i < n * n; ++i) m[i] = gi(a.a[i]);
	GI prev(1);
	int sign = 1;
	for (int k = 0; k + 1 < n; ++k)
	{
		int p = k;
		while (p < n && m[p * n + k].zero()) ++p;
		if (p == n) return GI(0);
		if (p != k) { for (int j = 0; j < n; ++j) std::swap(m[p * n + j], m[k * n + j]); sign = -sign; }
		for (int i = k + 1; i < n; ++i)
			for (int j = k + 1; j < n; ++j)
				m[i * n + j] = (m[i * n + j] * m[k * n + k] - m[i * n + k] * m[k * n + j]) / prev;
		prev = m[k * n + k];
	}
	GI d = m[n * n - 1];
	return sign > 0 ? d : GI(-d.re, -d.im);
}

template<class T> double eps_() { return (double)std::numeric_limits<typename get_complex_internal<T>::type>::epsilon(); }
template<class T> double mag_(const T& x) { return (double)std::abs(x); }
template<class T> bool finite_(const T& x) { return std::isfinite(mag_(x)); }
template<class T> double maxAbs(const Ref<T>& a) { double m = 0; for (auto& x : a.a) m = std::max(m, mag_(x)); return m; }
template<class T> double diff(const Ref<T>& a, const Ref<T>& b)
{
	if (a.r != b.r || a.c != b.c) return INFINITY;
	double m = 0;
	for (size_t i = 0; i < a.a.size(); ++i) { double d = mag_(a.a[i] - b.a[i]); if (!(d <= m)) m = d; }
	return m;
}
template<class T> Ref<T> adj_(const Ref<T>& a) { Ref<T> x = a.t(); for (auto& v : x.a) v = NS::complex_conj(v); return x; }

// The three representations
template<class T, int N> struct KS { typedef SparseMatrix<T> M; static M make(const Ref<T>& a) { return makeS(a); } static M blank() { return M((Dimension)N, (Dimension)N); } static const char* name() { return "sparse"; } };
template<class T, int N> struct KD { typedef DenseMatrix<T> M; static M make(const Ref<T>& a) { return makeD(a); } static M blank() { return M((Dimension)N, (Dimension)N); } static const char* name() { return "dense"; } };
template<class T, int N> struct KF { typedef FixedMatrix<T, N, N> M; static M make(const Ref<T>& a) { return makeF<M>(a); } static M blank() { return M(); } static const char* name() { return "fixed-size"; } };
template<class M> void dirty(M& m)
{
	typedef typename M::value_type T;
	for (Index i = 0; i < m.rows(); ++i) for (Index j = 0; j < m.columns(); ++j) m.set(i, j, T((int)(i * 3 + j) % 5 - 2.5));
}

// All matrices with NV values
template<class T, int N, int NV, class F> void eachFull(mc::Ctx& c, F f)
{
	const int64_t n = mc::ipow(NV, N * N);
	int d[64];
	for (int64_t x = 0; x < n; ++x)
	{
		if (!c.begin({x})) continue;
		mc::digits(x, NV, N * N, d);
		Ref<T> a(N, N);
		for (int i = 0; i < N * N; ++i) a.a[i] = V<T>::v(d[i]);
		NOTE("A = %s", a.text().c_str());
		f(a);
	}
}
// All patterns, the values depend on the place
template<class T, int N, class F> void eachPattern(mc::Ctx& c, F f, int from = 0, int step = 1)
{
	const int64_t n = mc::ipow(2, N * N);
	for (int64_t x = from; x < n; x += step)
	{
		if (!c.begin({x})) continue;
		Ref<T> a(N, N);
		for (int i = 0; i < N * N; ++i) if (x >> i & 1) a.a[i] = V<T>::v(1 + (i * 5 + i / N) % 7);
		NOTE("A = %s", a.text().c_str());
		f(a);
	}
}
// All row permutations of all matrices which are a diagonal with up to E more entries
template<class T, int N, class F> void eachPermuted(mc::Ctx& c, int E, F f)
{
	std::vector<int> p(N);
	for (int i = 0; i < N; ++i) p[i] = i;
	int64_t pi = 0;
	do
	{
		auto make = [&](int e1, int e2, int e3)
		{
			if (!c.begin({pi, e1, e2, e3})) return;
			Ref<T> b(N, N), a(N, N);
			for (int i = 0; i < N; ++i) b(i, i) = V<T>::v(1 + i % 5);
			if (e1 >= 0) b.a[e1] = V<T>::v(2 + e1 % 6);
			if (e2 >= 0) b.a[e2] = V<T>::v(1 + e2 % 7);
			if (e3 >= 0) b.a[e3] = V<T>::v(3 + e3 % 5);
			for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) a(i, j) = b(p[i], j);
			NOTE("A = %s", a.text().c_str());
			f(a);
		};
		make(-1, -1, -1);
		for (int e1 = 0; e1 < N * N && E > 0; ++e1)
		{
			if (e1 % (N + 1) == 0) continue;
			make(e1, -1, -1);
			for (int e2 = e1 + 1; e2 < N * N && E > 1; ++e2)
			{
				if (e2 % (N + 1) == 0) continue;
				make(e1, e2, -1);
				for (int e3 = e2 + 1; e3 < N * N && E > 2; ++e3)
					if (e3 % (N + 1)) make(e1, e2, e3);
			}
		}
		++pi;
	} while (std::next_permutation(p.begin(), p.end()));
}

// Factors for the columns of a matrix, powers of two except for the last kind.  SINGLE: less extreme ones
enum { SCALES = 7 };
inline double columnScale(int k, int j, bool single)
{
	static const int e[SCALES - 1][3] = {{-24, -24, -24}, {40, 40, 40}, {-30, -28, 60}, {60, -30, -28}, {-28, 60, -30}, {0, -20, 20}};
	if (k == SCALES - 1) return 1 / 3.0 * std::ldexp(1.0, -j % 3);
	const int x = e[k][j % 3];
	return std::ldexp(1.0, single ? x / 4 : x);
}
template<class T> Ref<T> columnScaled(const Ref<T>& a, int k)
{
	Ref<T> x = a;
	for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.c; ++j) x(i, j) *= T(columnScale(k, j, eps_<T>() > 1e-10));
	return x;
}
// Regular matrices whose columns have other units: f(unscaled matrix, kind of scale)
template<class T, int N, int NV, class F> void eachUnitFull(mc::Ctx& c, F f)
{
	const int64_t n = mc::ipow(NV, N * N);
	int d[64];
	for (int64_t x = 0; x < n; ++x)
		for (int k = 0; k < SCALES; ++k)
		{
			if (!c.begin({x, k})) continue;
			mc::digits(x, NV, N * N, d);
			Ref<T> a(N, N);
			for (int i = 0; i < N * N; ++i) a.a[i] = V<T>::v(d[i]);
			if (exactDet(a).zero()) continue;
			NOTE("A = %s, scale %d", a.text().c_str(), k);
			f(a, k);
		}
}
template<class T, int N, class F> void eachUnitPermuted(mc::Ctx& c, F f)
{
	std::vector<int> p(N);
	for (int i = 0; i < N; ++i) p[i] = i;
	int64_t pi = 0;
	do
	{
		for (int e = 0; e < 6; ++e)
			for (int k = 0; k < SCALES; ++k)
			{
				if (!c.begin({pi, e, k})) continue;
				Ref<T> b(N, N), a(N, N);
				for (int i = 0; i < N; ++i)
				{
					b(i, i) = V<T>::v(1 + i % 5);
					for (int j = 0; j < N; ++j)
						if (i != j && (e == 1 ? i > j : e == 2 ? i < j : e == 3 ? std::abs(i - j) == 1 : e == 4 ? (i == 0 || j == 0) : e == 5 ? (i + j) % 2 : false)) b(i, j) = V<T>::v(1 + (i * 3 + j) % 6);
				}
				for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) a(i, j) = b(p[i], j);
				if (exactDet(a).zero()) continue;
				NOTE("A = %s, scale %d", a.text().c_str(), k);
				f(a, k);
			}
		++pi;
	} while (std::next_permutation(p.begin(), p.end()));
}

// Larger regular matrices: every structured pattern with a dominant diagonal, and unit bidiagonal
// ones, with their rows in several orders
template<class T, int N, class F> void eachScaled(mc::Ctx& c, F f)
{
	for (int k = 0; k < PATTERNS + 5; ++k)
		for (int sh = 0; sh < (N > 100 ? 1 : c.thorough ? 11 : N > 40 ? 1 : 2); ++sh)
			for (int o = 0; o < 6; ++o)
			{
				if (N > 40 && (o == 4 || (k < PATTERNS && k != 1 && k != 4 && k != 9 && k != 13) || (N > 100 && (k == 1 || k == 13) && o % 3))) continue;
				if (k == PATTERNS + 4 && (N <= 20 || o > 1)) continue;
				if (!c.begin({k, sh, o})) continue;
				Ref<T> b(N, N), a(N, N);
				if (k == PATTERNS + 4)
				{
					// No structure at all: the pivots come from everywhere
					uint32_t x = 12345 + sh * 777 + N;
					for (auto& v : b.a) { x = x * 1664525u + 1013904223u; v = V<T>::v((x >> 24) % 11); }
				}
				else if (k < PATTERNS) { b = patterned<T>(k, N, N, sh); for (int i = 0; i < N; ++i) b(i, i) = T((i + sh) % 3 == 1 ? -(8 * N + i) : 8 * N + i); }
				else
				{
					for (int i = 0; i < N; ++i) b(i, i) = T(k == PATTERNS + 3 ? 3 : 1);
					for (int i = 0; i + 1 < N; ++i)
					{
						if (k != PATTERNS) b(i + 1, i) = T((i + sh) % 2 ? -1 : 1);
						if (k != PATTERNS + 1) b(i, i + 1) = T((i + sh) % 3 ? 1 : -1);
					}
					if (k == PATTERNS + 2) b(0, 1) = T(0), b(N / 2, N / 2 + 1) = T(0);
					if (k == PATTERNS + 2) for (int i = 0; i < N; ++i) b(i, i) = T(3);
				}
				for (int i = 0; i < N; ++i)
				{
					const int p = o == 0 ? i : o == 1 ? N - 1 - i : o == 2 ? (i + 1) % N : o == 3 ? (i + N / 2) % N : o == 4 ? (i == 0 ? N - 1 : i == N - 1 ? 0 : i) : (i % 2 ? (i == N - 1 ? i : i + 1) : (i ? i - 1 : 0));
					for (int j = 0; j < N; ++j) a(i, j) = b(p, j);
				}
				if (N > 40 && k < PATTERNS) for (auto& v : a.a) v *= T(std::ldexp(1.0, N > 100 ? -10 : -9));// So that the determinant does not overflow
				NOTE("A = %s", a.text().c_str());
				f(a);
			}
}
// Determinant by elimination in extended precision, for well-conditioned matrices
template<class T> std::complex<long double> longDet(const Ref<T>& a)
{
	typedef std::complex<long double> L;
	const int n = a.r;
	std::vector<L> m(n * n);
	for (int i = 0; i < n * n; ++i) m[i] = L(std::complex<double>(a.a[i]));
	L d(1);
	for (int k = 0; k < n; ++k)
	{
		int p = k;
		for (int i = k; i < n; ++i) if (std::abs(m[i * n + k]) > std::abs(m[p * n + k])) p = i;
		if (m[p * n + k] == L(0)) return L(0);
		if (p != k) { for (int j = 0; j < n; ++j) std::swap(m[p * n + j], m[k * n + j]); d = -d; }
		d *= m[k * n + k];
		for (int i = k + 1; i < n; ++i)
		{
			const L q = m[i * n + k] / m[k * n + k];
			if (q != L(0)) for (int j = k; j < n; ++j) m[i * n + j] -= q * m[k * n + j];
		}
	}
	return d;
}
template<class T> struct UnL { static T v(const std::complex<long double>& x) { return (T)x.real(); } };
template<class R> struct UnL<std::complex<R> > { static std::complex<R> v(const std::complex<long double>& x) { return std::complex<R>((R)x.real(), (R)x.imag()); } };
}
