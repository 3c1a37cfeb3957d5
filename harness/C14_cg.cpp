// C14: conjugate gradients with and without a preconditioner
#include "square.h"
#include "CG.h"

namespace vf {	// names the library may use as well
using namespace NS;

typedef long double ld;
typedef std::vector<ld> LV;
static ld dot(const LV& a, const LV& b) { ld s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
template<class T> LV mulv(const Ref<T>& a, const LV& v) { LV r(a.r, 0); for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.c; ++j) r[i] += (ld)a(i, j) * v[j]; return r; }

// Galerkin solution over x0 + K_k(CA, C r0), by its definition; grade: dimension of the Krylov space
template<class T> std::vector<LV> galerkin(const Ref<T>& a, const Ref<T>& cm, const LV& b, const LV& x0)
{
	const int n = a.r;
	std::vector<LV> V, X;
	X.push_back(x0);
	LV r0(n), ax = mulv(a, x0);
	for (int i = 0; i < n; ++i) r0[i] = b[i] - ax[i];
	LV w = mulv(cm, r0), x = x0;
	for (int k = 0; k < n; ++k)
	{
		// A-orthonormalise w against V (twice); the minimiser over the space is then a sum of projections
		const ld before = std::sqrt(dot(w, mulv(a, w)));
		for (int t = 0; t < 2; ++t)
			for (auto& v : V) { ld s = dot(w, mulv(a, v)); for (int i = 0; i < n; ++i) w[i] -= s * v[i]; }
		const ld s = std::sqrt(dot(w, mulv(a, w)));
		if (!(s > before * 1e-11L)) break;	// the space does not grow any more
		for (auto& e : w) e /= s;
		V.push_back(w);
		const ld y = dot(w, r0);
		for (int i = 0; i < n; ++i) x[i] += y * w[i];
		X.push_back(x);
		w = mulv(cm, mulv(a, w));
	}
	return X;
}
template<class T> double resid(const Ref<T>& a, const LV& b, const LV& x) { LV y = mulv(a, x); ld s = 0; for (size_t i = 0; i < y.size(); ++i) s += (b[i] - y[i]) * (b[i] - y[i]); return (double)std::sqrt(s); }
template<class W, class T> struct MV;
template<class T> struct MV<DynamicVector<T>, T> { static DynamicVector<T> m(const LV& v) { DynamicVector<T> x(v.size()); for (size_t i = 0; i < v.size(); ++i) x.set(i, (T)v[i]); return x; } };
template<class T, size_t N> struct MV<Vector<T, std::array<T, N> >, T> { static Vector<T, std::array<T, N> > m(const LV& v) { Vector<T, std::array<T, N> > x; for (size_t i = 0; i < v.size(); ++i) x.set(i, (T)v[i]); return x; } };

// The unknowns and the matrix are in these units
static double xUnit = 1, aUnit = 1;
template<class M, class W, class T>
void run(mc::Ctx& c, const M& m, const M* pre, const Ref<T>& a, const std::vector<LV>& X, const LV& b, const LV& x0, const LV& xe, const char* what)
{
	const int n = a.r;
	const double eps = (sizeof(T) == 4 ? 1e-3 : 1e-6) * xUnit * aUnit, tol = sizeof(T) == 4 ? 2e-3 : 1e-8;
	// Later iterates of large systems are no longer those of exact arithmetic
	const int exact = n <= 6 ? n : 6;
	const W vb = MV<W, T>::m(b), v0 = MV<W, T>::m(x0);
	for (int k = 0; k <= n + 2; ++k)
	{
		size_t it = 9999;
		const W x = pre ? CG::serial::pcg(m, vb, *pre, v0, k, eps, &it) : CG::serial::cg(m, vb, v0, k, eps, &it);
		c.transition();
		CK(it <= (size_t)k, "%s: %d steps reported, limit %d", what, (int)it, k);
		const int g = (int)X.size() - 1;
		const LV& y = X[std::min((int)it, g)];
		LV got(n);
		for (int i = 0; i < n; ++i) got[i] = x.at(i);
		double scale = xUnit;
		for (int i = 0; i < n; ++i) scale = std::max(scale, (double)std::abs(y[i]));
		for (int i = 0; i < n && (int)it <= exact; ++i)
			CK(std::abs((double)x.at(i) - (double)y[i]) <= tol * scale * 10, "%s: element %d after %d steps (limit %d) is %.12g; the minimiser over the Krylov space has %.12g", what, i, (int)it, k, (double)x.at(i), (double)y[i]);
		for (int s = 0; s < (int)it && s <= g && s <= exact; ++s) CK(resid(a, b, X[s]) >= eps * 0.5, "%s: continued after step %d, residual %g", what, s, resid(a, b, X[s]));
		if ((int)it < k) CK(resid(a, b, got) <= eps * 2, "%s: stopped after %d of %d steps with residual %g", what, (int)it, k, resid(a, b, got));
		if (k >= n && n <= 6) for (int i = 0; i < n; ++i) CK(std::abs((double)x.at(i) - (double)xe[i]) <= (sizeof(T) == 4 ? 1e-1 : 1e-4) * xUnit, "%s: element %d of the solution is %.12g instead of %.12g", what, i, (double)x.at(i), (double)xe[i]);
	}
	// with a small tolerance, without statistics
	if (sizeof(T) == 8)
	{
		const W x = pre ? CG::serial::pcg(m, vb, *pre, v0, (n <= 6 ? 4 : 20) * n, 1e-11 * xUnit * aUnit) : CG::serial::cg(m, vb, v0, (n <= 6 ? 4 : 20) * n, 1e-11 * xUnit * aUnit);
		for (int i = 0; i < n; ++i) CK(std::abs((double)x.at(i) - (double)xe[i]) <= 1e-8 * xUnit, "%s: element %d of the solution is %.12g instead of %.12g", what, i, (double)x.at(i), (double)xe[i]);
	}
	for (int i = 0; i < n; ++i) CK(vb.at(i) == (T)b[i] && v0.at(i) == (T)x0[i], "%s: right-hand side or start are changed", what);
	// from the solution
	size_t it = 9999;
	const W ve = MV<W, T>::m(xe);
	const W x = pre ? CG::serial::pcg(m, vb, *pre, ve, n + 2, eps, &it) : CG::serial::cg(m, vb, ve, n + 2, eps, &it);
	CK(it == 0 && x == ve, "%s: start at the solution: %d steps", what, (int)it);
	// without the count, and with the default limits
	CK((pre ? CG::serial::pcg(m, vb, *pre, ve, n + 2, eps) : CG::serial::cg(m, vb, ve, n + 2, eps)) == ve, "%s: start at the solution, without the count", what);
	for (int k = 0; k <= n; ++k)
	{
		const W y = pre ? CG::serial::pcg(m, vb, *pre, v0, k, eps, &it) : CG::serial::cg(m, vb, v0, k, eps, &it);
		CK((pre ? CG::serial::pcg(m, vb, *pre, v0, k, eps) : CG::serial::cg(m, vb, v0, k, eps)) == y, "%s: the result of %d steps depends on whether they are counted", what, k);
	}
	const W y = pre ? CG::serial::pcg(m, vb, *pre, v0, 1024, 10e-6) : CG::serial::cg(m, vb, v0, 1024, 10e-6);
	CK((pre ? CG::serial::pcg(m, vb, *pre, v0) : CG::serial::cg(m, vb, v0)) == y && (pre ? CG::serial::pcg(m, vb, *pre, v0, 1024) : CG::serial::cg(m, vb, v0, 1024)) == y, "%s: the default limits are not 1024 steps and 1e-5", what);
}
template<class T> bool definite(const Ref<T>& a)
{
	for (int i = 1; i <= a.r; ++i) { Ref<T> l(i, i); for (int p = 0; p < i; ++p) for (int q = 0; q < i; ++q) l(p, q) = a(p, q); if (exactDet(l).re <= 0) return false; }
	return true;
}
template<class T, int N> void solvers(mc::Ctx& c, Ref<T> a, LV b, LV x0, LV xe)
{
	for (auto& x : a.a) x *= (T)aUnit;
	for (int i = 0; i < N; ++i) { b[i] *= aUnit * xUnit; x0[i] *= xUnit; xe[i] *= xUnit; }
	typedef FixedMatrix<T, N, N> F;
	const SparseMatrix<T> s = makeS(a);
	const DenseMatrix<T> e = makeD(a);
	const F f = makeF<F>(a);
	typedef DynamicVector<T> DV;
	typedef FixedVector<T, N> FV;
	const std::vector<LV> X = galerkin(a, Ref<T>::eye(N), b, x0);
	run<SparseMatrix<T>, DV, T>(c, s, nullptr, a, X, b, x0, xe, "cg, sparse");
	run<DenseMatrix<T>, DV, T>(c, e, nullptr, a, X, b, x0, xe, "cg, dense");
	run<F, FV, T>(c, f, nullptr, a, X, b, x0, xe, "cg, fixed-size");
	const Ref<T> id = Ref<T>::eye(N);
	const SparseMatrix<T> sid = makeS(id);
	run<SparseMatrix<T>, DV, T>(c, s, &sid, a, X, b, x0, xe, "pcg, identity");
	// diagonal
	SparseMatrix<T> sj((Dimension)N, (Dimension)N);
	CG::serial::jacobi(s, sj);
	DenseMatrix<T> dj((Dimension)N, (Dimension)N);
	CG::serial::jacobi(e, dj);
	Ref<T> j(N, N);
	for (int i = 0; i < N; ++i) j(i, i) = 1 / a(i, i);
	sameSparse(c, sj, j, "diagonal preconditioner");
	sameDense(c, dj, j, "diagonal preconditioner");
	run<SparseMatrix<T>, DV, T>(c, s, &sj, a, galerkin(a, j, b, x0), b, x0, xe, "pcg, diagonal");
	// a full positive definite one
	Ref<T> p(N, N);
	for (int i = 0; i < N; ++i) for (int q = 0; q < N; ++q) p(i, q) = i == q ? T(2 + i) : T(0.5);
	const DenseMatrix<T> dp = makeD(p);
	run<DenseMatrix<T>, DV, T>(c, e, &dp, a, galerkin(a, p, b, x0), b, x0, xe, "pcg, dense preconditioner");
	CK(readM(s) == a && readM(e) == a && readM(dp) == p, "a matrix is changed");
}
template<class T, int N, int ND, int NO, int BASE>
void systems(mc::Ctx& c)
{
	static const int dv[] = {0, 3, 1, 7, 2};
	const int off = N * (N - 1) / 2;
	const int64_t n = mc::ipow(NO, off), m = mc::ipow(ND, N);
	int o[32], d[8];
	typedef FixedMatrix<T, N, N> F;
	for (int64_t x = 0; x < n; ++x)
		for (int64_t y = 0; y < m; ++y)
		{
			mc::digits(x, NO, off, o);
			mc::digits(y, ND, N, d);
			Ref<T> a(N, N);
			int k = 0;
			for (int i = 0; i < N; ++i) { a(i, i) = T(BASE + dv[d[i]]); for (int j = 0; j < i; ++j, ++k) { a(i, j) = NO == 2 ? (o[k] ? V<T>::v(1 + k % 4) : T(0)) : V<T>::v(o[k]); a(j, i) = a(i, j); } }
			if (!definite(a)) continue;
			for (int v = 0; v < 3; ++v)
			{
				if (!c.begin({x, y, v})) continue;
				LV xe(N), x0(N, 0), b;
				for (int i = 0; i < N; ++i) { xe[i] = v == 0 ? V<T>::v(1 + i) : v == 1 ? (i == N - 1) : V<T>::v(6 - i); if (v) x0[i] = V<T>::v(2 + i); }
				b = mulv(a, xe);
				NOTE("A = %s, solution %g.., start %g..", a.text().c_str(), (double)xe[0], (double)x0[0]);
				solvers<T, N>(c, a, b, x0, xe);
				if (x) c.nontrivial();
			}
		}
}
MC_REGISTER(double_1, systems<double, 1, 5, 1, 1>);
MC_REGISTER(double_2, systems<double, 2, 5, 8, 1>);
MC_REGISTER(double_3, systems<double, 3, 3, 4, 3>);
MC_REGISTER(float_2, systems<float, 2, 3, 4, 2>);
MC_REGISTER(long_double_2, systems<long double, 2, 3, 4, 2>);
MC_REGISTER(double_4, systems<double, 4, 2, 3, 4>);
MC_REGISTER(double_5, systems<double, 5, 1, 2, 9>);
MC_REGISTER(double_3b, systems<double, 3, 5, 6, 2>);
MC_REGISTER_DEEP(deep_double_4, systems<double, 4, 2, 5, 4>);
MC_REGISTER_DEEP(deep_double_5, systems<double, 5, 1, 3, 9>);MC_REGISTER_DEEP(deep_double_6, systems<double, 6, 1, 2, 12>);

template<void (*F)(mc::Ctx&), int X, int A> void units(mc::Ctx& c) { xUnit = std::ldexp(1.0, X); aUnit = std::ldexp(1.0, A); F(c); }
MC_REGISTER(units_x_tiny, units<systems<double, 3, 2, 3, 3>, -40, 0>);
MC_REGISTER(units_x_huge, units<systems<double, 3, 2, 3, 3>, 40, 0>);
MC_REGISTER(units_a_tiny, units<systems<double, 3, 2, 3, 3>, 0, -40>);
MC_REGISTER(units_a_huge, units<systems<double, 3, 2, 3, 3>, 0, 40>);
MC_REGISTER(units_both_tiny, units<systems<double, 2, 3, 6, 1>, -30, -30>);
MC_REGISTER(units_opposite, units<systems<double, 2, 3, 6, 1>, 40, -40>);
MC_REGISTER(units_float, units<systems<float, 2, 3, 4, 2>, -10, 12>);

MC_SECTION(diagonal_preconditioner)
{
	const int64_t n = mc::ipow(5, 9);
	int d[9];
	for (int64_t x = 0; x < n; x += c.thorough ? 1 : 25)
	{
		if (!c.begin({x})) continue;
		mc::digits(x / 25, 5, 7, d);
		d[7] = (int)(x % 5); d[8] = (int)(x / 5 % 5);
		Ref<double> a(3, 3);
		for (int i = 0; i < 9; ++i) a.a[(i * 4) % 9] = V<double>::v(d[i]);
		bool zero = false;
		Ref<double> e(3, 3);
		for (int i = 0; i < 3; ++i) { zero = zero || a(i, i) == 0; e(i, i) = 1 / a(i, i); }
		NOTE("A = %s", a.text().c_str());
		for (int k = 0; k < 2; ++k)
		{
			bool err = false;
			SparseMatrix<double> s(3, 3);
			DenseMatrix<double> t(3, 3);
			try { if (k) CG::serial::jacobi(makeD(a), t); else CG::serial::jacobi(makeS(a), s); } catch (const SingularException&) { err = true; }
			CK(err == zero, "zero on the diagonal: %d, error: %d", (int)zero, (int)err);
			if (!err) { if (k) sameDense(c, t, e, "dense"); else sameSparse(c, s, e, "sparse"); c.nontrivial(); }
		}
	}
}

// Larger systems: structured patterns with a dominant diagonal and grids of points
template<int N> void scale(mc::Ctx& c)
{
	for (int k = 0; k < PATTERNS + 4; ++k)
		for (int sh = 0; sh < (c.thorough ? 11 : 2); ++sh)
			for (int v = 0; v < 3; ++v)
			{
				if (!c.begin({k, sh, v})) continue;
				Ref<double> a(N, N);
				const Ref<double> p = patterned<double>(k, N, N, sh);
				for (int i = 0; i < N; ++i)
					for (int j = 0; j < i; ++j)
					{
						const int w = k - PATTERNS + 2;
						if (k < PATTERNS) a(i, j) = p(i, j);
						else if (std::abs(i % w - j % w) + std::abs(i / w - j / w) == 1) a(i, j) = -1;
						a(j, i) = a(i, j);
					}
				for (int i = 0; i < N; ++i) { double t = 1 + (i + sh) % 3; for (int j = 0; j < N; ++j) if (i != j) t += std::abs(a(i, j)); a(i, i) = t; }
				LV xe(N), x0(N, 0);
				for (int i = 0; i < N; ++i) { xe[i] = v == 1 ? i == N - 1 : V<double>::v(1 + (i + v) % 9); if (v) x0[i] = V<double>::v(2 + (i * 2) % 9); }
				NOTE("A = %s", a.text().c_str());
				solvers<double, N>(c, a, mulv(a, xe), x0, xe);
				if (k) c.nontrivial();
			}
}
MC_REGISTER(scale_8, scale<8>);
MC_REGISTER(scale_12, scale<12>);
MC_REGISTER(scale_20, scale<20>);

// Tridiagonal matrices of any size with a first residual at one end: the Krylov spaces are spanned by the
// first k unit vectors, so that the k-th iterate is the solution of the leading block of k rows
template<int N> void chain(mc::Ctx& c)
{
	for (int kind = 0; kind < 4; ++kind)
		for (int v = 0; v < 8; ++v)
		{
			if (!c.begin({kind, v})) continue;
			NOTE("%d unknowns, kind %d, variant %d", N, kind, v);
			const bool back = v & 1, start = v & 2, scaled = v & 4;
			std::vector<double> d(N), o(N, 0), t(N, 1);
			for (int i = 0; i < N; ++i) { d[i] = kind == 0 ? 2 : kind == 1 ? 3 + i % 4 : kind == 2 ? 2.5 : 2 + (i % 7 == 3); o[i] = kind == 2 ? (i % 2 ? 1 : -1) : -1; }
			if (scaled) for (int i = 0; i < N; ++i) t[i] = std::ldexp(1.0, i % 5 - 2);
			auto place = [&](int i) { return back ? N - 1 - i : i; };
			SparseMatrix<double> s((Dimension)N, (Dimension)N), pre((Dimension)N, (Dimension)N);
			DynamicVector<double> x0(N), b(N);
			for (int i = 0; i < N; ++i)
			{
				s.set(place(i), place(i), d[i] * t[i] * t[i]);
				pre.set(place(i), place(i), 1 / (t[i] * t[i]));
				if (i + 1 < N) { s.set(place(i), place(i + 1), o[i] * t[i] * t[i + 1]); s.set(place(i + 1), place(i), o[i] * t[i] * t[i + 1]); }
			}
			std::vector<double> z0(N, 0);	// the start without scale
			for (int i = 0; i < N && start; ++i) z0[i] = (i * 5) % 7 - 3;
			for (int i = 0; i < N; ++i)
			{
				double y = d[i] * z0[i] + (i == 0);
				if (i) y += o[i - 1] * z0[i - 1];
				if (i + 1 < N) y += o[i] * z0[i + 1];
				x0.set(place(i), z0[i] / t[i]);
				b.set(place(i), y * t[i]);
			}
			for (int k = 0; k <= N + 1; k += N > 100 && k % 16 > 1 && k < N - 1 ? 3 : 1)
			{
				// the leading block by elimination
				const int n = k < N ? k : N;
				std::vector<ld> y(n), p(n);
				for (int i = 0; i < n; ++i) { p[i] = i ? d[i] - o[i - 1] * o[i - 1] / p[i - 1] : (ld)d[0]; y[i] = i ? -o[i - 1] * y[i - 1] / p[i - 1] : 1; }
				for (int i = n - 1; i >= 0; --i) y[i] = (y[i] - (i + 1 < n ? o[i] * y[i + 1] : 0)) / p[i];
				size_t it = 77777;
				const double eps = 1e-15;// relative to residuals of size one
				const DynamicVector<double> x = scaled ? CG::serial::pcg(s, b, pre, x0, k, eps, &it) : CG::serial::cg(s, b, x0, k, eps, &it);
				c.transition();
				CK(it <= (size_t)k, "%d steps reported, limit %d", (int)it, k);
				for (int i = 0; i < N; ++i)
				{
					const double w = (z0[i] + (i < n ? (double)y[i] : 0)) / t[i];
					if (!(std::abs(x.at(place(i)) - w) <= 1e-9)) c.fail("element %d after %d steps (limit %d) is %.12g, expected %.12g", place(i), (int)it, k, x.at(place(i)), w);
				}
				CK(true, " ");
			}
			c.nontrivial();
		}
}
MC_REGISTER(chain_9, chain<9>);
MC_REGISTER(chain_34, chain<34>);
MC_REGISTER(chain_70, chain<70>);
MC_REGISTER(chain_300, chain<300>);

}
using namespace vf;

int main(int argc, char** argv)
{
	mc::Meta m;
	m.property = "C14";
	m.level = "exploration";
	m.rule = "a case is a positive definite system with start vector, run for every limit of steps up to n+2 with seven combinations of representation and preconditioner; each iterate is compared with the minimiser over the Krylov space; non-trivial: matrix not diagonal";
	m.assumptions = {"small positive definite integer matrices, and tridiagonal ones up to 300 unknowns whose iterates are known in closed form; iterates within 1e-7 of the minimiser (float 2e-2); real numbers, as the algorithms do not compile for complex ones"};
	return mc::main_(argc, argv, m);
}
