// Value tables and small references shared by the matrix and vector harnesses
#pragma once
#include "mc.h"
#include "matrix/SparseMatrix.h"
#include "matrix/DenseMatrix.h"
#include "matrix/FixedMatrix.h"
#include "matrix/Matrix.h"
#include "Vector.h"

namespace vf {	// names the library may use as well
using namespace NS;

typedef std::complex<double> cplx;
typedef std::complex<float> cplxf;

// The values below are multiplied by a unit, 1 unless a section sets another one.  The unit 0 stands
// for a table of special values, -1 for one in which every second value is NaN.
enum { UNIT_TINY, UNIT_ODD, UNIT_HUGE, UNIT_SPECIAL, UNIT_NAN };
inline double& unit() { static double u = 1; return u; }
inline double unitOf(int k) { return k == UNIT_TINY ? 3 * std::ldexp(1., -57) : k == UNIT_ODD ? 1 + std::ldexp(1., -24) : k == UNIT_HUGE ? std::ldexp(5., 60) : k == UNIT_NAN ? -1 : 0; }
template<void (*F)(mc::Ctx&), int K> void withUnit(mc::Ctx& c) { unit() = unitOf(K); F(c); }
template<class R> R special(int i)
{
	typedef std::numeric_limits<R> L;
	static const R t[] = {0, L::denorm_min(), -L::infinity(), L::max(), -L::epsilon() / 4, L::lowest(), L::min(), L::infinity(), -L::denorm_min(), L::epsilon(), -L::min(), L::max() / 2};
	return unit() < 0 && i % 2 ? L::quiet_NaN() : t[i];
}
inline bool specials() { return unit() <= 0; }
// Equal, or both NaN
template<class T> bool alike(const T& a, const T& b) { return a == b || (a != a && b != b); }
template<class R> bool alike(const std::complex<R>& a, const std::complex<R>& b) { return alike(a.real(), b.real()) && alike(a.imag(), b.imag()); }

// Small exact values: 0, 1, -2, 3, -1, 2, -3, 5, ...  Sums and products of a few of them are exact
template<class T> struct V { static T v(int i) { static const int t[] = {0, 1, -2, 3, -1, 2, -3, 5, 4, -5, 7, -4}; return std::is_integral<T>::value ? (T)t[i] : specials() ? special<T>(i) : (T)(t[i] * unit()); } };
template<class R> struct V<std::complex<R> >
{
	static std::complex<R> v(int i)
	{
		static const int re[] = {0, 1, -2, 0, -1, 2, 0, 3, -1, 4, 1, 5}, im[] = {0, 2, 0, 3, 1, -1, -2, 0, -3, 1, 0, -2};
		if (specials()) return i % 3 == 2 ? std::complex<R>(0, special<R>(i)) : i % 3 ? std::complex<R>(special<R>(i), 0) : std::complex<R>(special<R>(i), special<R>(i ? 12 - i : 0));
		return std::complex<R>((R)(re[i] * unit()), (R)(im[i] * unit()));
	}
};
// Not to be held exactly by a double, the products neither
template<> struct V<int64_t> { static int64_t v(int i) { static const int t[] = {0, 1, -2, 3, -1, 2, -3, 5, 4, -5, 7, -4}; return unit() == 1 ? t[i] : t[i] * ((int64_t(1) << 28) + 1); } };
template<> struct V<long double> { static long double v(int i) { static const int t[] = {0, 1, -2, 3, -1, 2, -3, 5, 4, -5, 7, -4}; return specials() ? special<long double>(i) : unit() == unitOf(UNIT_ODD) ? t[i] * (1 + std::ldexp(1.L, -29)) : (long double)(t[i] * unit()); } };
template<class T> struct TName { static const char* n() { return "double"; } };
template<> struct TName<float> { static const char* n() { return "float"; } };
template<> struct TName<int> { static const char* n() { return "int"; } };
template<> struct TName<cplx> { static const char* n() { return "complex<double>"; } };
template<> struct TName<cplxf> { static const char* n() { return "complex<float>"; } };

inline std::string str(uint8_t v) { return std::to_string((int)v); }	// not as characters
inline std::string str(int8_t v) { return std::to_string((int)v); }
template<class T> std::string str(const T& v) { std::ostringstream o; o << v; return o.str(); }

// Plain row major reference matrix
template<class T>
struct Ref
{
	int r, c;
	std::vector<T> a;
	Ref() : r(0), c(0) {}
	Ref(int r_, int c_) : r(r_), c(c_), a(r_ * c_, T(0)) {}
	T& operator()(int i, int j) { return a[i * c + j]; }
	const T& operator()(int i, int j) const { return a[i * c + j]; }
	bool operator==(const Ref& o) const { return r == o.r && c == o.c && a == o.a; }
	int filled() const { int n = 0; for (auto& x : a) n += x != T(0); return n; }
	std::string text() const
	{
		std::string s = "{";
		for (int i = 0; i < r; ++i)
		{
			s += "{";
			for (int j = 0; j < c; ++j) s += (j ? "," : "") + str((*this)(i, j));
			s += i + 1 < r ? "}," : "}";
		}
		return s + "}";
	}
	Ref t() const { Ref x(c, r); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) x(j, i) = (*this)(i, j); return x; }
	Ref mul(const Ref& o) const
	{
		Ref x(r, o.c);
		for (int i = 0; i < r; ++i) for (int j = 0; j < o.c; ++j) { T s(0); for (int k = 0; k < c; ++k) s += (*this)(i, k) * o(k, j); x(i, j) = s; }
		return x;
	}
	static Ref eye(int n) { Ref x(n, n); for (int i = 0; i < n; ++i) x(i, i) = T(1); return x; }
};

template<class M, class T> M makeM(const Ref<T>& m) { M x((NS::Dimension)m.r, (NS::Dimension)m.c); for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) x.set(i, j, m(i, j)); return x; }
template<class M, class T> M makeF(const Ref<T>& m) { M x; for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) x.set(i, j, m(i, j)); return x; }
template<class T> NS::SparseMatrix<T> makeS(const Ref<T>& m) { return makeM<NS::SparseMatrix<T> >(m); }
template<class T> NS::DenseMatrix<T> makeD(const Ref<T>& m) { return makeM<NS::DenseMatrix<T> >(m); }

template<class M> Ref<typename M::value_type> readM(const M& m)
{
	Ref<typename M::value_type> x((int)m.rows(), (int)m.columns());
	for (int i = 0; i < x.r; ++i) for (int j = 0; j < x.c; ++j) x(i, j) = m.at(i, j);
	return x;
}
template<class T, class M> Ref<T> readT(const M& m)
{
	Ref<T> x((int)m.rows(), (int)m.columns());
	for (int i = 0; i < x.r; ++i) for (int j = 0; j < x.c; ++j) x(i, j) = m.at(i, j);
	return x;
}
// Every way of looking into a sparse matrix shows exactly the entries of the reference
template<class T>
void sameSparse(mc::Ctx& c, const NS::SparseMatrix<T>& m, const Ref<T>& r, const char* what)
{
	CK((int)m.rows() == r.r && (int)m.columns() == r.c, "%s: shape %dx%d, expected %dx%d", what, (int)m.rows(), (int)m.columns(), r.r, r.c);
	int n = 0;
	for (int i = 0; i < r.r; ++i)
		for (int j = 0; j < r.c; ++j)
		{
			if (r(i, j) != T(0)) ++n;
			if (!alike(m.at(i, j), r(i, j))) c.fail("%s: entry (%d,%d) is %s, expected %s; expected matrix %s", what, i, j, str(m.at(i, j)).c_str(), str(r(i, j)).c_str(), r.text().c_str());
			if (m.has(i, j) != (r(i, j) != T(0))) c.fail("%s: has(%d,%d) is %d; expected matrix %s", what, i, j, (int)m.has(i, j), r.text().c_str());
		}
	CK((int)m.filled_count() == n, "%s: %d filled entries, expected %d; expected matrix %s", what, (int)m.filled_count(), n, r.text().c_str());
	// A row major walk
	int k = 0;
	auto it = m.begin();
	for (auto i = it; i != m.end(); ++i)
	{
		if (k++ > n) break;
		if (i.row() >= r.r || i.column() >= r.c || !alike(r(i.row(), i.column()), T(*i))) c.fail("%s: the walk shows %s at (%d,%d); expected matrix %s", what, str(*i).c_str(), (int)i.row(), (int)i.column(), r.text().c_str());
	}
	CK(k == n, "%s: the walk shows %d entries instead of %d; expected matrix %s", what, k, n, r.text().c_str());
}
template<class T, class M>
void sameDense(mc::Ctx& c, const M& m, const Ref<T>& r, const char* what)
{
	CK((int)m.rows() == r.r && (int)m.columns() == r.c, "%s: shape %dx%d, expected %dx%d", what, (int)m.rows(), (int)m.columns(), r.r, r.c);
	for (int i = 0; i < r.r; ++i)
		for (int j = 0; j < r.c; ++j)
			if (!alike(m.at(i, j), r(i, j))) c.fail("%s: entry (%d,%d) is %s, expected %s; expected matrix %s", what, i, j, str(m.at(i, j)).c_str(), str(r(i, j)).c_str(), r.text().c_str());
	CK(true, " ");
}

// Structured patterns for shapes of any size
enum { PATTERNS = 16 };
inline bool inPattern(int k, int R, int C, int i, int j)
{
	switch (k)
	{
	case 0: return false;
	case 1: return true;
	case 2: return i == j;
	case 3: return i + j == C - 1;
	case 4: return i - j <= 1 && j - i <= 1;
	case 5: return i >= j;
	case 6: return i <= j;
	case 7: return (i + j) % 2 == 0;
	case 8: return i == 0 || j == C - 1;
	case 9: return i == R - 1 || j == 0;
	case 10: return i == 0 || j == 0 || i == j;
	case 11: return i % 3 == 1;
	case 12: return j % 3 == 1;
	case 13: return (i * 7 + j * 3) % 5 == 0;
	case 14: return i < R - 1 && j < C - 1;
	default: return (i == 0 || i == R - 1) && (j == 0 || j == C - 1);
	}
}
// The values go around the table, with another start for every SHIFT
template<class T> Ref<T> patterned(int k, int R, int C, int shift = 0)
{
	Ref<T> r(R, C);
	for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) if (inPattern(k, R, C, i, j)) r(i, j) = V<T>::v(1 + (i * 5 + j * 3 + shift) % 11);
	return r;
}
}
