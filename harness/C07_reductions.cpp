// C07: sum, average, maximum, minimum, trace and the content queries
#include "common.h"
#include "wide.h"

namespace vf {	// names the library may use as well
using namespace NS;

// Small values; extreme values; NaN and infinity
template<class T> struct K { static T v(int t, int i)
{
	static const double s[] = {0, 1, -2, 3, -5, 4, 7, -1};
	if (t == 0) return (T)(s[i] * unit());
	const T x[] = {T(0), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(), -std::numeric_limits<T>::min(), T(1), T(-1)};
	if (t == 1) return x[i];
	const T y[] = {T(0), T(1), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), T(-2)};
	return y[i];
} };
template<> struct K<int> { static int v(int t, int i)
{
	static const int s[] = {0, 1, -2, 3, -5, 4, 7, -1}, x[] = {0, 2147483647, -2147483647 - 1, 1, -1, 2, -2};
	return t == 0 ? s[i] : t == 1 ? x[i] : s[i];
} };
template<> struct K<int64_t> { static int64_t v(int t, int i)
{
	static const int64_t s[] = {0, 1, -2, 3, -5, 4, 7, -1}, x[] = {0, INT64_MAX, INT64_MIN, (int64_t(1) << 53) + 1, -(int64_t(1) << 53) - 1, int64_t(1) << 53, INT64_MAX - 1};
	return t == 1 ? x[i] : s[i] * (unit() == 1 ? 1 : (int64_t(1) << 56) + 1);
} };
template<class R> struct K<std::complex<R> > { typedef std::complex<R> C; static C v(int t, int i)
{
	const R n = std::numeric_limits<R>::quiet_NaN(), f = std::numeric_limits<R>::infinity();
	const C s[] = {C(0), C(3, 4), C(-1, 0), C(0, -2), C(-3, -4), C(8, -6), C(0, 1), C(1, 1)};
	const C y[] = {C(0), C(1, -1), C(n, 0), C(0, n), C(f, 0), C(0, -f)};
	return t == 2 ? y[i] : s[i] * (R)unit();
} };
template<class T> bool nan_(const T& v) { return v != v; }
inline bool inf_(long double v) { return std::isinf(v); }
inline bool inf_(double v) { return std::isinf(v); }
inline bool inf_(float v) { return std::isinf(v); }
inline bool inf_(int) { return false; }
inline bool inf_(int64_t) { return false; }
template<class R> bool inf_(const std::complex<R>& v) { return std::isinf(v.real()) || std::isinf(v.imag()); }
template<class T> typename get_complex_internal<T>::type ord(const T& v) { return v; }
template<class R> R ord(const std::complex<R>& v) { return std::abs(v); }

template<class T> struct Want
{
	T sum, avg, mx, mn;
	bool nan, inf, zero, empty;
	Want(const std::vector<T>& v)
	{
		typedef typename get_complex_internal<T>::type R;
		sum = T(0);
		nan = inf = zero = false;
		empty = true;
		R a = 0, b = 0;
		for (size_t i = 0; i < v.size(); ++i)
		{
			sum += v[i];
			nan = nan || nan_(v[i]);
			inf = inf || inf_(v[i]);
			zero = zero || v[i] == T(0);
			empty = empty && v[i] == T(0);
			if (!i || ord(v[i]) > a) a = ord(v[i]);
			if (!i || ord(v[i]) < b) b = ord(v[i]);
		}
		mx = T(a);
		mn = T(b);
		avg = v.empty() ? T(0) : sum / T(v.size());
	}
};
// averages may be rounded in one more step
template<class T> bool close(const T& a, const T& b) { typedef typename get_complex_internal<T>::type R; return a == b || std::abs(a - b) <= 4 * std::numeric_limits<R>::epsilon() * std::abs(b); }

template<class X, class T> void checkVector(mc::Ctx& c, const X& x, const Want<T>& w, int t, const char* what)
{
	if (t == 0)
	{
		CK(x.sum() == w.sum, "%s: sum %s, expected %s", what, str(x.sum()).c_str(), str(w.sum).c_str());
		if (x.size()) CK(close<T>(x.avg(), w.avg), "%s: average %s, expected %s", what, str(x.avg()).c_str(), str(w.avg).c_str());
	}
	if (t < 2 && x.size())
	{
		const bool r = is_complex<T>::value;	// an absolute value is rounded
		CK(r ? close<T>(x.max(), w.mx) : x.max() == w.mx, "%s: maximum %s, expected %s", what, str(x.max()).c_str(), str(w.mx).c_str());
		CK(r ? close<T>(x.min(), w.mn) : x.min() == w.mn, "%s: minimum %s, expected %s", what, str(x.min()).c_str(), str(w.mn).c_str());
	}
	CK(x.hasZero() == w.zero, "%s: hasZero() is %d", what, (int)x.hasZero());
	CK((bool)x.hasNaN() == w.nan, "%s: hasNaN() is %d", what, (int)x.hasNaN());
	CK((bool)x.hasInf() == w.inf, "%s: hasInf() is %d", what, (int)x.hasInf());
}
template<class M, class T> typename std::enable_if<!is_complex<T>::value>::type extremes(mc::Ctx& c, const M& x, const Want<T>& w, const char* what)
{
	CK(x.max() == w.mx, "%s: maximum %s, expected %s", what, str(x.max()).c_str(), str(w.mx).c_str());
	CK(x.min() == w.mn, "%s: minimum %s, expected %s", what, str(x.min()).c_str(), str(w.mn).c_str());
}
template<class M, class T> typename std::enable_if<is_complex<T>::value>::type extremes(mc::Ctx&, const M&, const Want<T>&, const char*) {}
template<class M, class T> void checkMatrix(mc::Ctx& c, const M& x, const Want<T>& w, const Ref<T>& r, int t, const char* what)
{
	if (t == 0)
	{
		CK(x.sum() == w.sum, "%s: sum %s, expected %s", what, str(x.sum()).c_str(), str(w.sum).c_str());
		CK(close<T>(x.avg(), w.avg), "%s: average %s, expected %s", what, str(x.avg()).c_str(), str(w.avg).c_str());
		T tr(0);
		for (int i = 0; i < r.r && i < r.c; ++i) tr += r(i, i);
		CK(x.trace() == tr, "%s: trace %s, expected %s", what, str(x.trace()).c_str(), str(tr).c_str());
	}
	if (t < 2) extremes(c, x, w, what);
	CK(x.has_zero() == w.zero, "%s: has_zero() is %d", what, (int)x.has_zero());
	CK(x.empty() == w.empty, "%s: empty() is %d", what, (int)x.empty());
	CK((bool)x.has_nan() == w.nan, "%s: has_nan() is %d", what, (int)x.has_nan());
	CK((bool)x.has_inf() == w.inf, "%s: has_inf() is %d", what, (int)x.has_inf());
	CK((int)x.size() == r.r * r.c, "%s: size() is %d", what, (int)x.size());
}

// every content of a RxC matrix and of vectors of R*C elements, with NV of the values of table TAB
template<class T, int R, int C, int TAB, int NV>
void all(mc::Ctx& c)
{
	const int64_t n = mc::ipow(NV, R * C);
	int d[40];
	for (int64_t x = 0; x < n; ++x)
	{
		if (!c.begin({x})) continue;
		mc::digits(x, NV, R * C, d);
		Ref<T> r(R, C);
		for (int i = 0; i < R * C; ++i) r.a[i] = NV == 2 && TAB == 0 ? (d[i] ? K<T>::v(0, 1 + (i * 3) % 7) : T(0)) : K<T>::v(TAB, d[i]);
		NOTE("%s", r.text().c_str());
		const Want<T> w(r.a);
		DynamicVector<T> v(R * C);
		FixedVector<T, R * C> f;
		for (int i = 0; i < R * C; ++i) { v.set(i, r.a[i]); f.set(i, r.a[i]); }
		checkVector(c, v, w, TAB, "dynamic vector");
		checkVector(c, f, w, TAB, "fixed vector");
		checkMatrix(c, makeS(r), w, r, TAB, "sparse matrix");
		checkMatrix(c, makeD(r), w, r, TAB, "dense matrix");
		checkMatrix(c, makeF<FixedMatrix<T, R, C> >(r), w, r, TAB, "fixed-size matrix");
		if (w.zero && !w.empty) c.nontrivial();
		// filled in reverse order and after having been full
		SparseMatrix<T> s((Dimension)R, (Dimension)C);
		for (int i = R * C - 1; i >= 0; --i) s.set(i / C, i % C, T(1));
		for (int i = R * C - 1; i >= 0; --i) s.set(i / C, i % C, r.a[i]);
		checkMatrix(c, s, w, r, TAB, "overwritten sparse matrix");
	}
}
MC_REGISTER(double_2x2, all<double, 2, 2, 0, 8>);
MC_REGISTER(double_2x3, all<double, 2, 3, 0, 5>);
MC_REGISTER(double_3x2, all<double, 3, 2, 0, 5>);
MC_REGISTER(double_3x3, all<double, 3, 3, 0, 3>);
MC_REGISTER(double_1x1, all<double, 1, 1, 0, 8>);
MC_REGISTER(double_1x5, all<double, 1, 5, 0, 6>);
MC_REGISTER(double_5x1, all<double, 5, 1, 0, 6>);
MC_REGISTER(double_4x3, all<double, 4, 3, 0, 2>);
MC_REGISTER(double_2x7, all<double, 2, 7, 0, 2>);
MC_REGISTER(float_2x3, all<float, 2, 3, 0, 4>);
MC_REGISTER(int_2x3, all<int, 2, 3, 0, 5>);
MC_REGISTER(int_3x1, all<int, 3, 1, 0, 8>);
MC_REGISTER(complex_2x2, all<cplx, 2, 2, 0, 8>);
MC_REGISTER(complexf_3x2, all<cplxf, 3, 2, 0, 4>);
// Values of other magnitudes
MC_REGISTER(tiny_double_2x2, withUnit<all<double, 2, 2, 0, 6>, UNIT_TINY>);
MC_REGISTER(odd_double_3x2, withUnit<all<double, 3, 2, 0, 4>, UNIT_ODD>);
MC_REGISTER(huge_float_2x2, withUnit<all<float, 2, 2, 0, 6>, UNIT_HUGE>);
MC_REGISTER(odd_complex_2x2, withUnit<all<cplx, 2, 2, 0, 6>, UNIT_ODD>);
MC_REGISTER(tiny_complex_1x3, withUnit<all<cplx, 1, 3, 0, 8>, UNIT_TINY>);
MC_REGISTER(extreme_double_2x2, all<double, 2, 2, 1, 7>);
MC_REGISTER(extreme_double_1x3, all<double, 1, 3, 1, 7>);
MC_REGISTER(extreme_float_3x2, all<float, 3, 2, 1, 5>);
MC_REGISTER(extreme_int_2x2, all<int, 2, 2, 1, 7>);
MC_REGISTER(nonfinite_double_2x2, all<double, 2, 2, 2, 6>);
MC_REGISTER(nonfinite_double_3x2, all<double, 3, 2, 2, 5>);
MC_REGISTER(nonfinite_float_1x5, all<float, 1, 5, 2, 5>);
MC_REGISTER(nonfinite_complex_2x2, all<cplx, 2, 2, 2, 6>);
MC_REGISTER(nonfinite_complexf_2x3, all<cplxf, 2, 3, 2, 4>);

// long vectors and big matrices with one or two special elements at every place
MC_SECTION(large)
{
	typedef double T;
	const T sp[] = {0, 9, -9, std::numeric_limits<T>::quiet_NaN(), -std::numeric_limits<T>::infinity()};
	const T base[] = {0, 1, -1};
	for (int b = 0; b < 3; ++b)
		for (int n = 6; n <= 24; n += 6)
			for (int s = 0; s < 5; ++s)
				for (int s2 = 0; s2 < 3; ++s2)
					for (int p = 0; p < n; ++p)
						for (int q = p; q < n; ++q)
						{
							if (!c.begin({b, n, s, s2, p, q})) continue;
							const int R = n / 3, C = 3;
							Ref<T> r(R, C);
							for (auto& x : r.a) x = base[b];
							r.a[q] = sp[s2];
							r.a[p] = sp[s];
							const int tab = s > 2 ? 2 : 0;
							NOTE("%s", r.text().c_str());
							const Want<T> w(r.a);
							DynamicVector<T> v(n);
							for (int i = 0; i < n; ++i) v.set(i, r.a[i]);
							checkVector(c, v, w, tab, "dynamic vector");
							checkMatrix(c, makeS(r), w, r, tab, "sparse matrix");
							checkMatrix(c, makeD(r), w, r, tab, "dense matrix");
							const Ref<T> t = r.t();
							checkMatrix(c, makeS(t), w, t, tab, "sparse matrix");
							checkMatrix(c, makeD(t), w, t, tab, "dense matrix");
							c.nontrivial();
						}
}
// structured patterns of many shapes, with one special element at every place
template<class T, int R, int C>
void scale(mc::Ctx& c)
{
	const int specials = is_complex<T>::value ? 4 : 3;
	for (int k = 0; k < PATTERNS; ++k)
		for (int sg = 0; sg < 3; ++sg)
			for (int s = 0; s < specials; ++s)
				for (int p = 0; p < R * C; p += s ? 1 : R * C)
				{
					if (!c.begin({k, sg, s, p})) continue;
					Ref<T> r = patterned<T>(k, R, C);
					if (sg) for (auto& x : r.a) x = T(std::abs(x) < 0.5 ? 0 : std::abs(x) < 2.5 ? 2 : 3) * T(sg == 1 ? 1 : -1);
					if (s) r.a[p] = s == 1 ? T(100) : s == 2 ? T(-100) : T(0);
					NOTE("%s", r.text().c_str());
					const Want<T> w(r.a);
					DynamicVector<T> v(R * C);
					FixedVector<T, R * C> f;
					for (int i = 0; i < R * C; ++i) { v.set(i, r.a[i]); f.set(i, r.a[i]); }
					const int t = sg || !is_complex<T>::value ? 0 : 2;	// magnitudes that tie up to rounding are not compared
					checkVector(c, v, w, t, "dynamic vector");
					checkVector(c, f, w, t, "fixed vector");
					checkMatrix(c, makeS(r), w, r, t, "sparse matrix");
					checkMatrix(c, makeD(r), w, r, t, "dense matrix");
					checkMatrix(c, makeF<FixedMatrix<T, R, C> >(r), w, r, t, "fixed-size matrix");
					c.nontrivial();
				}
}
MC_REGISTER(scale_double_12x12, scale<double, 12, 12>);
MC_REGISTER(scale_double_1x40, scale<double, 1, 40>);
MC_REGISTER(scale_double_40x1, scale<double, 40, 1>);
MC_REGISTER(scale_double_5x17, scale<double, 5, 17>);
MC_REGISTER(scale_float_17x5, scale<float, 17, 5>);
MC_REGISTER(scale_int_9x13, scale<int, 9, 13>);
MC_REGISTER(scale_complex_8x9, scale<cplx, 8, 9>);
MC_REGISTER_DEEP(scale_double_20x20, scale<double, 20, 20>);
MC_SECTION(no_elements)
{
	if (!c.begin({0})) return;
	const std::vector<double> z;
	checkVector(c, DynamicVector<double>(0), Want<double>(z), 0, "vector without elements");
	checkVector(c, DynamicVector<double>(), Want<double>(z), 0, "vector without elements");
	checkVector(c, DynamicVector<cplx>(), Want<cplx>(std::vector<cplx>()), 0, "vector without elements");
}
// All shapes
template<class T, int N> void shapes(mc::Ctx& c)
{
	for (int R = 1; R <= N; ++R) for (int C = 1; C <= N; ++C) for (int k = 0; k < PATTERNS; ++k) for (int p = -1; p < (k == 1 || k == 13 ? 4 : 0); ++p)
	{
		if (k > 1 && k != 13 && (R + C + k) % 4) continue;
		if (!c.begin({R, C, k, p})) continue;
		Ref<T> r = patterned<T>(k, R, C);
		// an element of its own among the last
		if (p >= 0) r.a[std::max(0, R * C - 1 - p)] = p % 2 ? T(-100) : T(100);
		NOTE("%s", r.text().c_str());
		const Want<T> w(r.a);
		DynamicVector<T> v(R * C);
		for (int i = 0; i < R * C; ++i) v.set(i, r.a[i]);
		checkVector(c, v, w, 0, "dynamic vector");
		checkMatrix(c, makeS(r), w, r, 0, "sparse matrix");
		checkMatrix(c, makeD(r), w, r, 0, "dense matrix");
		c.nontrivial();
	}
}
MC_REGISTER(shapes_double, shapes<double, 20>);
MC_REGISTER(shapes_int, shapes<int, 9>);
template<int R, int C> void fixedShape(mc::Ctx& c)
{
	typedef double T;
	for (int k = 0; k < PATTERNS; ++k) for (int p = -1; p < R * C; p += 1 + R * C / 40)
	{
		if (!c.begin({R, C, k, p})) continue;
		Ref<T> r = patterned<T>(k, R, C);
		if (p >= 0) r.a[R * C - 1 - p] = p % 2 ? T(-100) : T(100);
		NOTE("%s", r.text().c_str());
		const Want<T> w(r.a);
		FixedVector<T, R * C> f;
		for (int i = 0; i < R * C; ++i) f.set(i, r.a[i]);
		checkVector(c, f, w, 0, "fixed vector");
		checkMatrix(c, makeF<FixedMatrix<T, R, C> >(r), w, r, 0, "fixed-size matrix");
		c.nontrivial();
	}
}
template<int N> struct FixedShapes { static void run(mc::Ctx& c)
{
	fixedShape<1, N>(c);
	fixedShape<N, 1>(c);
	fixedShape<N, N>(c);
	fixedShape<N, 3>(c);
	fixedShape<2, N>(c);
	FixedShapes<N - 1>::run(c);
} };
template<> struct FixedShapes<0> { static void run(mc::Ctx&) {} };
MC_REGISTER(shapes_fixed, [](mc::Ctx& c) { FixedShapes<17>::run(c); });
// Other value types, with values a double cannot hold
MC_REGISTER(int64_2x2, withUnit<all<int64_t, 2, 2, 0, 6>, UNIT_HUGE>);
MC_REGISTER(extreme_int64_2x2, all<int64_t, 2, 2, 1, 7>);
MC_REGISTER(extreme_long_double_2x2, all<long double, 2, 2, 1, 7>);
MC_REGISTER(nonfinite_long_double_2x2, all<long double, 2, 2, 2, 6>);
MC_REGISTER(long_double_2x2, all<long double, 2, 2, 0, 6>);
// Indices and counts beyond 8 and 16 bits: one special element at the edges of the ranges
template<class T> void wideOnes(mc::Ctx& c)
{
	const bool fl = !std::is_integral<T>::value;
	for (int s = 0; s + 1 < WIDES; ++s)
	{
		const int R = WIDE[s][0], C = WIDE[s][1], n = R * C;
		for (int p : edgesOf(n)) for (int b = 0; b < 2; ++b) for (int x = 0; x < (fl ? 6 : 4); ++x)
		{
			if (n > 1000 && !c.thorough && (p + x + b) % 3) continue;
			if (!c.begin({s, p, b, x})) continue;
			NOTE("%dx%d, %d but element %d", R, C, b, p);
			Ref<T> r(R, C);
			if (b) for (auto& v : r.a) v = T(1);
			r.a[p] = x == 0 ? T(100) : x == 1 ? T(-100) : x == 2 ? T(1 - b) : x == 3 ? T(2) : x == 4 ? std::numeric_limits<T>::quiet_NaN() : -std::numeric_limits<T>::infinity();
			const int tab = x > 3 ? 2 : 0;
			const Want<T> w(r.a);
			DynamicVector<T> v(n);
			for (int i = 0; i < n; ++i) v.set(i, r.a[i]);
			checkVector(c, v, w, tab, "dynamic vector");
			checkMatrix(c, makeD(r), w, r, tab, "dense matrix");
			if (!b || n < 1000 || (R < 1000 && C < 1000 && p % 5 == 0)) checkMatrix(c, makeS(r), w, r, tab, "sparse matrix");
			c.nontrivial();
		}
	}
}
MC_REGISTER(wide_double, wideOnes<double>);
MC_REGISTER(wide_int, wideOnes<int>);

}
using namespace vf;

int main(int argc, char** argv)
{
	mc::Meta m;
	m.property = "C07";
	m.level = "exploration";
	m.rule = "a case is a content, held by a dynamic and a fixed vector, a sparse (built twice), dense and fixed-size matrix; non-trivial: some but not all entries are zero";
	m.assumptions = {"sums are of small integers, so that they are exact; maximum and minimum are not compared when NaN or infinite entries are present"};
	return mc::main_(argc, argv, m);
}
