// C13: Jacobi and SOR iterations
#include "square.h"
#include "Iterative.h"

namespace vf {	// names the library may use as well
using namespace NS;

template<class T> using Vc = std::vector<T>;
template<class T> std::string text(const Vc<T>& v) { std::string s = "("; for (auto& x : v) s += (s.size() > 1 ? "," : "") + str(x); return s + ")"; }
template<class V_, class T> struct MV;
template<class T> struct MV<DynamicVector<T>, T> { static DynamicVector<T> m(const Vc<T>& v) { DynamicVector<T> x(v.size()); for (size_t i = 0; i < v.size(); ++i) x.set(i, v[i]); return x; } };
template<class T, size_t N> struct MV<Vector<T, std::array<T, N> >, T> { static Vector<T, std::array<T, N> > m(const Vc<T>& v) { Vector<T, std::array<T, N> > x; for (size_t i = 0; i < v.size(); ++i) x.set(i, v[i]); return x; } };

// The unknowns are in this unit, and the rows of the system have factors by the kind of scale
static double xUnit = 1;
static int rowScale = -1;
// One step of the textbook recurrences
template<class T> Vc<T> step(const Ref<T>& a, const Vc<T>& b, const Vc<T>& x, bool sor, double w)
{
	Vc<T> y = x;
	for (int i = 0; i < a.r; ++i)
	{
		T t = b[i];
		for (int j = 0; j < a.r; ++j) if (j != i) t -= a(i, j) * (sor ? y[j] : x[j]);
		t /= a(i, i);
		y[i] = sor ? T(1 - w) * x[i] + T(w) * t : t;
	}
	return y;
}
template<class T> void majorStep(const Ref<T>& a, const Vc<T>& b, std::vector<double>& x, bool sor, double w)
{
	std::vector<double> y = x;
	for (int i = 0; i < a.r; ++i)
	{
		double t = mag_(b[i]);
		for (int j = 0; j < a.r; ++j) if (j != i) t += mag_(a(i, j)) * (sor ? y[j] : x[j]);
		t /= mag_(a(i, i));
		y[i] = sor ? std::abs(1 - w) * x[i] + std::abs(w) * t : t;
	}
	x = y;
}
template<class T> double dist(const Vc<T>& a, const Vc<T>& b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += std::norm(a[i] - b[i]); return std::sqrt(s); }
template<class T> double size_(const Vc<T>& a) { double m = 0; for (auto& x : a) m = std::max(m, mag_(x)); return m; }

// The call returns what the recurrences give after at most k steps with the tolerance eps
template<class M, class W, class T>
void run(mc::Ctx& c, const M& m, const Ref<T>& a, const Vc<T>& b, const Vc<T>& x0, bool sor, double w, int k, double eps, const char* what)
{
	const int n = a.r;
	bool zero = false;
	for (int i = 0; i < n; ++i) zero = zero || a(i, i) == T(0);
	size_t it = 9999;
	const W vb = MV<W, T>::m(b), v0 = MV<W, T>::m(x0);
	W x = v0;
	bool err = false;
	try { x = sor ? Iterative::serial::sor(m, vb, v0, w, k, eps, &it) : Iterative::serial::jacobi(m, vb, v0, k, eps, &it); }
	catch (const MatrixHasZeroInDiagException&) { err = true; }
	c.transition();
	CK(err == (zero && k > 0), "%s: zero on the diagonal: %d, error: %d", what, (int)zero, (int)err);
	for (int i = 0; i < n; ++i) CK(vb.at(i) == b[i] && v0.at(i) == x0[i], "%s: right-hand side or start are changed", what);
	if (err) return;
	CK((sor ? Iterative::serial::sor(m, vb, v0, w, k, eps) : Iterative::serial::jacobi(m, vb, v0, k, eps)) == x, "%s: the result depends on whether the steps are counted", what);
	CK(it <= (size_t)k, "%s: %d steps reported, limit %d", what, (int)it, k);
	CK((int)x.size() == n, "%s: result has %d elements", what, (int)x.size());
	Vc<T> y = x0;
	double scale = xUnit + size_(x0), tol = 200 * eps_<T>();
	// Rounding errors grow at most like the iterates of the system of absolute values.  Only for few steps: for many this says nothing
	std::vector<double> major(n);
	for (int i = 0; i < n; ++i) major[i] = mag_(x0[i]);
	for (int s = 1; s <= k; ++s)
	{
		const Vc<T> z = step(a, b, y, sor, w);
		const double d = dist(z, y);
		scale = std::max(scale, size_(z));
		if (k <= 8)
		{
			majorStep(a, b, major, sor, w);
			for (double v : major) scale = std::max(scale, v);
		}
		if (s < (int)it) CK(d >= eps * (1 - 1e-6) - tol * scale && (d > tol * scale || eps == 0 || d >= eps * (1 - 1e-6)), "%s: continued after step %d although the iterates differ by %g only", what, s, d);
		y = z;
		if (s == (int)it)
		{
			if (s < k) CK(d <= eps * (1 + 1e-6) + tol * scale, "%s: stopped at step %d of %d while the iterates differ by %g", what, s, k, d);
			break;
		}
	}
	for (int i = 0; i < n; ++i) CK(mag_(x.at(i) - y[i]) <= tol * scale, "%s: element %d after %d steps is %s, expected %s", what, i, (int)it, str(x.at(i)).c_str(), str(y[i]).c_str());
}
template<class T, int N>
void reps(mc::Ctx& c, Ref<T> a, Vc<T> b, Vc<T> x0, int kmax, bool fixedToo)
{
	for (int i = 0; i < N; ++i)
	{
		const double r = rowScale < 0 ? 1 : columnScale(rowScale, i, eps_<T>() > 1e-10);
		for (int j = 0; j < N; ++j) a(i, j) *= T(r);
		b[i] *= T(r * xUnit);
		x0[i] *= T(xUnit);
	}
	const SparseMatrix<T> s = makeS(a);
	const DenseMatrix<T> d = makeD(a);
	typedef FixedMatrix<T, N, N> F;
	const F f = makeF<F>(a);
	typedef DynamicVector<T> DV;
	typedef FixedVector<T, N> FV;
	for (int k = 0; k <= kmax; ++k)
	{
		run<SparseMatrix<T>, DV, T>(c, s, a, b, x0, false, 1, k, 0, "jacobi, sparse");
		run<SparseMatrix<T>, DV, T>(c, s, a, b, x0, true, 1, k, 0, "sor, sparse, weight 1");
		run<SparseMatrix<T>, DV, T>(c, s, a, b, x0, true, 0.5, k, 0, "sor, sparse, weight 0.5");
		run<SparseMatrix<T>, DV, T>(c, s, a, b, x0, true, 1.75, k, 0, "sor, sparse, weight 1.75");
		if (fixedToo)
		{
			run<DenseMatrix<T>, DV, T>(c, d, a, b, x0, false, 1, k, 0, "jacobi, dense");
			run<DenseMatrix<T>, DV, T>(c, d, a, b, x0, true, 1.25, k, 0, "sor, dense, weight 1.25");
			run<F, FV, T>(c, f, a, b, x0, false, 1, k, 0, "jacobi, fixed-size");
			run<F, FV, T>(c, f, a, b, x0, true, 0.75, k, 0, "sor, fixed-size, weight 0.75");
		}
	}
	run<SparseMatrix<T>, DV, T>(c, s, a, b, x0, false, 1, kmax, xUnit, "jacobi, tolerance 1");
	run<SparseMatrix<T>, DV, T>(c, s, a, b, x0, true, 1, kmax, xUnit, "sor, tolerance 1");
	run<DenseMatrix<T>, DV, T>(c, d, a, b, x0, true, 0.25, kmax, 0.75 * xUnit, "sor, weight 0.25, tolerance 0.75");
	CK(readM(s) == a && readM(d) == a, "the matrix is changed");
}
template<class T, int N, int NO, int ND, int KM>
void iterates(mc::Ctx& c)
{
	static const int dv[] = {2, -1, 4, 0, 3};
	const int off = N * N - N;
	const int64_t n = mc::ipow(NO, off), m = mc::ipow(ND, N);
	int o[32], d[8];
	for (int64_t x = 0; x < n; ++x)
		for (int64_t y = 0; y < m; ++y)
			for (int v = 0; v < 3; ++v)
			{
				if (!c.begin({x, y, v})) continue;
				mc::digits(x, NO, off, o);
				mc::digits(y, ND, N, d);
				Ref<T> a(N, N);
				int k = 0;
				for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) a(i, j) = i == j ? T(dv[d[i]]) : V<T>::v(o[k++]);
				Vc<T> b(N), x0(N, T(0));
				for (int i = 0; i < N; ++i)
				{
					b[i] = v == 0 ? V<T>::v(1 + i) : v == 1 ? T(0) : V<T>::v(5 - i);
					x0[i] = v == 0 ? T(0) : V<T>::v(2 + i * 2);
				}
				NOTE("A = %s, b = %s, x0 = %s", a.text().c_str(), text(b).c_str(), text(x0).c_str());
				reps<T, N>(c, a, b, x0, KM, v == 2);
				if (x) c.nontrivial();
			}
}
MC_REGISTER(iterates_double_1, iterates<double, 1, 1, 5, 4>);
MC_REGISTER(iterates_double_2, iterates<double, 2, 8, 5, 4>);
MC_REGISTER(iterates_complex_2, iterates<cplx, 2, 8, 4, 3>);
MC_REGISTER(iterates_double_3, iterates<double, 3, 3, 4, 3>);
MC_REGISTER(iterates_complex_3, iterates<cplx, 3, 3, 1, 3>);
MC_REGISTER(iterates_double_4, iterates<double, 4, 2, 1, 2>);
MC_REGISTER(iterates_float_2, iterates<float, 2, 4, 3, 3>);
MC_REGISTER(iterates_long_double_2, iterates<long double, 2, 4, 3, 3>);
MC_REGISTER_DEEP(deep_iterates_double_3, iterates<double, 3, 4, 4, 5>);
MC_REGISTER_DEEP(deep_iterates_double_4, iterates<double, 4, 2, 3, 3>);
MC_REGISTER_DEEP(deep_iterates_complex_3, iterates<cplx, 3, 4, 2, 4>);

template<class T, int N>
void converge(mc::Ctx& c, Ref<T> a, bool dominant)
{
	for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) a(i, j) *= T(rowScale < 0 ? 1 : columnScale(rowScale, i, eps_<T>() > 1e-10));
	const SparseMatrix<T> s = makeS(a);
	const DenseMatrix<T> d = makeD(a);
	Vc<T> x0(N), xe(N), b(N, T(0));
	for (int i = 0; i < N; ++i) { xe[i] = V<T>::v(1 + (i * 2) % 5) * T(xUnit); x0[i] = V<T>::v(7 - i) * T(xUnit); }
	for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) b[i] += a(i, j) * xe[j];
	typedef DynamicVector<T> DV;
	const DV vb = MV<DV, T>::m(b), v0 = MV<DV, T>::m(x0);
	auto good = [&](const DV& x, size_t it, size_t limit, const char* what, const DV& uncounted)
	{
		c.transition();
		CK(x == uncounted, "%s: the result depends on whether the steps are counted", what);
		CK(it < limit, "%s: no convergence for %s after %d steps", what, a.text().c_str(), (int)it);
		for (int i = 0; i < N; ++i) CK(mag_(x.at(i) - xe[i]) <= 1e-5 * xUnit, "%s: element %d of the solution of %s is %s instead of %s after %d steps", what, i, a.text().c_str(), str(x.at(i)).c_str(), str(xe[i]).c_str(), (int)it);
	};
	size_t it = 0;
	if (dominant)
	{
		good(Iterative::serial::jacobi(s, vb, v0, 20000, 1e-10 * xUnit, &it), it, 20000, "jacobi, sparse", Iterative::serial::jacobi(s, vb, v0, 20000, 1e-10 * xUnit));
		const size_t used = it;
		good(Iterative::serial::jacobi(d, vb, v0, 20000, 1e-10 * xUnit, &it), it, 20000, "jacobi, dense", Iterative::serial::jacobi(d, vb, v0, 20000, 1e-10 * xUnit));
		CK(it == used || it + 1 == used || it == used + 1, "jacobi takes %d steps on sparse and %d on dense matrices", (int)used, (int)it);
		good(Iterative::serial::sor(s, vb, v0, 1, 20000, 1e-10 * xUnit, &it), it, 20000, "sor, sparse", Iterative::serial::sor(s, vb, v0, 1, 20000, 1e-10 * xUnit));
		good(Iterative::serial::sor(d, vb, v0, 1, 20000, 1e-10 * xUnit, &it), it, 20000, "sor, dense", Iterative::serial::sor(d, vb, v0, 1, 20000, 1e-10 * xUnit));
		// without the statistics and with a smaller limit
		const DV y = Iterative::serial::jacobi(s, vb, v0, 3, 1e-10 * xUnit);
		CK(Iterative::serial::jacobi(s, vb, v0) == Iterative::serial::jacobi(s, vb, v0, 1024, 10e-6) && Iterative::serial::jacobi(s, vb, v0, 5) == Iterative::serial::jacobi(s, vb, v0, 5, 10e-6), "the default limits of jacobi are not 1024 steps and 1e-5");
		CK(Iterative::serial::sor(s, vb, v0) == Iterative::serial::sor(s, vb, v0, 1, 1024, 10e-6) && Iterative::serial::sor(s, vb, v0, 1.25, 7) == Iterative::serial::sor(s, vb, v0, 1.25, 7, 10e-6), "the defaults of sor are not the weight one, 1024 steps and 1e-5");
		const Vc<T> z = step(a, b, step(a, b, step(a, b, x0, false, 1), false, 1), false, 1);
		for (int i = 0; i < N; ++i) CK(mag_(y.at(i) - z[i]) <= 1e-9 * (xUnit + size_(z)), "three steps of jacobi");
	}
	else
	{
		static const double w[] = {0.25, 0.5, 1, 1.5, 1.9};
		for (int k = 0; k < 5; ++k) good(Iterative::serial::sor(s, vb, v0, w[k], 200000, 1e-10 * xUnit, &it), it, 200000, "sor on a positive definite system", Iterative::serial::sor(s, vb, v0, w[k], 200000, 1e-10 * xUnit));
	}
	c.nontrivial();
}
// strictly dominant: the diagonal is one more than the sum of the others in the row
template<class T, int N, int NO>
void dominant(mc::Ctx& c)
{
	const int off = N * N - N;
	const int64_t n = mc::ipow(NO, off);
	int o[32];
	for (int64_t x = 0; x < n; ++x)
		for (int y = 0; y < 2; ++y)
		{
			if (!c.begin({x, y})) continue;
			mc::digits(x, NO, off, o);
			Ref<T> a(N, N);
			int k = 0;
			for (int i = 0; i < N; ++i)
			{
				double s = 0;
				for (int j = 0; j < N; ++j) if (i != j) { a(i, j) = NO == 2 ? (o[k] ? V<T>::v(1 + (i + j * 3) % 6) : T(0)) : V<T>::v(o[k]); ++k; s += mag_(a(i, j)); }
				a(i, i) = T((s + 1) * (y && i % 2 ? -1 : 1));
			}
			NOTE("A = %s", a.text().c_str());
			converge<T, N>(c, a, true);
		}
}
MC_REGISTER(dominant_double_2, dominant<double, 2, 10>);
MC_REGISTER(dominant_complex_2, dominant<cplx, 2, 10>);
MC_REGISTER(dominant_double_3, dominant<double, 3, 3>);
MC_REGISTER(dominant_complex_3, dominant<cplx, 3, 2>);
MC_REGISTER(dominant_double_4, dominant<double, 4, 2>);
MC_REGISTER_DEEP(deep_dominant_double_3, dominant<double, 3, 5>);
MC_REGISTER_DEEP(deep_dominant_complex_3, dominant<cplx, 3, 4>);
template<class T, int N, int NO>
void definite(mc::Ctx& c)
{
	static const int dv[] = {2, 3, 5};
	const int off = N * (N - 1) / 2;
	const int64_t n = mc::ipow(NO, off), m = mc::ipow(3, N);
	int o[32], d[8];
	for (int64_t x = 0; x < n; ++x)
		for (int64_t y = 0; y < m; ++y)
		{
			mc::digits(x, NO, off, o);
			mc::digits(y, 3, N, d);
			Ref<T> a(N, N);
			int k = 0;
			bool pd = true;
			for (int i = 0; i < N; ++i) { a(i, i) = T(dv[d[i]]); for (int j = 0; j < i; ++j, ++k) { a(i, j) = V<T>::v(o[k]); a(j, i) = NS::complex_conj(a(i, j)); } }
			for (int i = 1; i <= N && pd; ++i) { Ref<T> l(i, i); for (int p = 0; p < i; ++p) for (int q = 0; q < i; ++q) l(p, q) = a(p, q); pd = exactDet(l).re > 0; }
			if (!pd || !c.begin({x, y})) continue;
			NOTE("A = %s", a.text().c_str());
			converge<T, N>(c, a, false);
		}
}
MC_REGISTER(definite_double_2, definite<double, 2, 8>);
MC_REGISTER(definite_complex_2, definite<cplx, 2, 10>);
MC_REGISTER(definite_double_3, definite<double, 3, 4>);
MC_REGISTER_DEEP(deep_definite_double_3, definite<double, 3, 7>);
MC_REGISTER_DEEP(deep_definite_double_4, definite<double, 4, 3>);

// Other units of the unknowns and of the rows
template<void (*F)(mc::Ctx&), int X, int S> void units(mc::Ctx& c) { xUnit = std::ldexp(1.0, X); rowScale = S; F(c); }
MC_REGISTER(units_tiny, units<iterates<double, 2, 6, 4, 4>, -40, -1>);
MC_REGISTER(units_huge, units<iterates<double, 2, 6, 4, 4>, 40, -1>);
MC_REGISTER(units_rows_0, units<iterates<double, 2, 6, 4, 3>, 0, 0>);
MC_REGISTER(units_rows_1, units<iterates<double, 2, 6, 4, 3>, -12, 1>);
MC_REGISTER(units_rows_2, units<iterates<double, 3, 2, 3, 3>, 12, 2>);
MC_REGISTER(units_rows_5, units<iterates<cplx, 2, 5, 4, 3>, -2, 5>);
MC_REGISTER(units_rows_6, units<iterates<double, 3, 2, 3, 3>, 3, 6>);
MC_REGISTER(units_float, units<iterates<float, 2, 4, 3, 3>, 5, 2>);
MC_REGISTER(units_dominant_tiny, units<dominant<double, 3, 2>, -40, 0>);
MC_REGISTER(units_dominant_huge, units<dominant<double, 2, 8>, 40, 2>);
MC_REGISTER(units_dominant_complex, units<dominant<cplx, 2, 5>, -20, 3>);
MC_REGISTER(units_definite_tiny, units<definite<double, 2, 5>, -30, 0>);
MC_REGISTER(units_definite_huge, units<definite<double, 2, 5>, 30, 1>);

// Larger systems: structured patterns, every number of steps, and dominant ones to convergence
template<class T, int N, int KM> void scale(mc::Ctx& c)
{
	for (int k = 0; k < PATTERNS; ++k)
		for (int sh = 0; sh < (N > 40 ? 1 : c.thorough ? 11 : 2); ++sh)
			for (int v = 0; v < 3; ++v)
			{
				if (N > 40 && k != 1 && k != 4 && k != 9 && k != 13) continue;
				if (!c.begin({k, sh, v})) continue;
				Ref<T> a = patterned<T>(k, N, N, sh);
				for (int i = 0; i < N; ++i)
				{
					double s = 0;
					for (int j = 0; j < N; ++j) if (j != i) s += mag_(a(i, j));
					a(i, i) = v == 2 ? T((i + sh) % 7 == 3 && sh == 1 ? 0 : i % 2 ? 4 : -8) : T((2 * s + 1 + i) * (v && i % 2 ? -1 : 1));
				}
				Vc<T> b(N), x0(N, T(0));
				for (int i = 0; i < N; ++i) { b[i] = V<T>::v(1 + (i + sh) % 8); x0[i] = v == 0 ? T(0) : V<T>::v((2 + i * 3) % 11); }
				NOTE("A = %s, b = %s, x0 = %s", a.text().c_str(), text(b).c_str(), text(x0).c_str());
				reps<T, N>(c, a, b, x0, KM, true);
				if (v < 2 && (v == 0 || sh == 0)) converge<T, N>(c, a, true);
				if (k) c.nontrivial();
			}
}
MC_REGISTER(scale_double_8, scale<double, 8, 4>);
MC_REGISTER(scale_double_13, scale<double, 13, 4>);
MC_REGISTER(scale_double_20, scale<double, 20, 5>);
MC_REGISTER(scale_complex_9, scale<cplx, 9, 4>);
MC_REGISTER(scale_complex_16, scale<cplx, 16, 3>);
MC_REGISTER(large_double_34, scale<double, 34, 3>);
MC_REGISTER(large_double_70, scale<double, 70, 3>);
MC_REGISTER(large_complex_50, scale<cplx, 50, 3>);
MC_REGISTER(large_double_140, scale<double, 140, 2>);
MC_REGISTER(large_double_270, scale<double, 270, 2>);

// Systems whose iterates go around in a circle: the limit is reached, whatever it is.  All exact.
MC_SECTION(many_steps)
{
	const int64_t limits[] = {0, 1, 2, 3, 4, 5, 7, 31, 32, 33, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 9999, 10000, 10001, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 99999, 100000, 100001, 131073};
	for (int64_t k : limits)
		for (int kind = 0; kind < 4; ++kind)
		{
			if (!c.begin({k, kind})) continue;
			NOTE("%d steps", (int)k);
			// Jacobi: x, y -> y + 3, 5 - x.  SOR: y -> 5 - x with x = y + 3, so that y -> 2 - y; with weight 2 x -> 2(y + 3) - x, y -> 2(5 - x) - y
			Ref<double> a(2, 2);
			a(0, 0) = a(1, 1) = 1; a(0, 1) = -1; a(1, 0) = 1;
			const double w = kind == 3 ? 0.5 : 1;
			if (kind == 3) a(0, 1) = 0, a(1, 0) = 0, a(0, 0) = 0.25, a(1, 1) = 0.25;// 3 = 0.25 x: the distance to 12 and 20 is multiplied by 1 - 0.5 each time
			double x = 7, y = -2;
			const DynamicVector<double> b = {3, 5}, x0 = {x, y};
			int64_t n = 0;
			for (; n < k; ++n)
			{
				if (kind == 3) { const double u = 0.5 * x + 6, v = 0.5 * y + 10; const bool same = u == x && v == y; x = u; y = v; if (same) { ++n; break; } continue; }
				const double u = y + 3;
				y = kind == 0 ? 5 - x : 5 - u;
				x = u;
			}
			size_t it = 77777;
			const DynamicVector<double> r = kind == 0 ? Iterative::serial::jacobi(makeS(a), b, x0, k, 0, &it) : kind == 2 ? Iterative::serial::sor(makeD(a), b, x0, w, k, 0, &it) : Iterative::serial::sor(makeS(a), b, x0, w, k, 0, &it);
			c.transition();
			CK(kind == 3 ? it <= (size_t)k : it == (size_t)k, "kind %d: %d steps reported, limit %d", kind, (int)it, (int)k);
			if (kind == 3) CK(k < 40 || k > 60 ? (it < 60 || k == (int64_t)it) : true, "kind %d: %d steps reported of %d", kind, (int)it, (int)k);
			CK(std::abs(r.at(0) - x) <= 1e-12 && std::abs(r.at(1) - y) <= 1e-12, "kind %d: (%.17g,%.17g) after %d steps instead of (%.17g,%.17g)", kind, r.at(0), r.at(1), (int)k, x, y);
			c.nontrivial();
		}
}

}
using namespace vf;

int main(int argc, char** argv)
{
	mc::Meta m;
	m.property = "C13";
	m.level = "exploration";
	m.rule = "a case is a system with start vector, run for every number of steps and several weights in three representations, compared with the recurrences; or a dominant or definite system solved to convergence; non-trivial: matrix not diagonal";
	m.assumptions = {"comparison within 200 units of rounding of the largest iterate; the step at which the iteration stops may differ from the recurrences' when the distance of the iterates equals the tolerance up to rounding"};
	return mc::main_(argc, argv, m);
}
