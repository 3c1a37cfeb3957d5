// C06: conversions are lossless and the representations agree
#include "common.h"
#include "wide.h"
#include "matrix/MatrixConverter.h"
#include "matrix/MatrixOperations.h"
#include "matrix/MatrixCheck.h"
#include "matrix/MatrixConstructor.h"
#include "LU.h"
#include "CG.h"
#include "Iterative.h"

namespace vf {	// names the library may use as well
using namespace NS;

template<class T> struct W { static T v(int i) { static const double t[] = {0, 1, -2, 1e-300, -1e-20, 1e300, 0.1, 3}; return (T)t[i]; } };
template<> struct W<float> { static float v(int i) { static const float t[] = {0, 1, -2, 1e-30f, -1e-20f, 1e30f, 0.1f, 3}; return t[i]; } };
template<> struct W<int> { static int v(int i) { static const int t[] = {0, 1, -2, 2147483647, -2147483647, 5, 6, 3}; return t[i]; } };
template<> struct W<cplx> { static cplx v(int i) { static const cplx t[] = {cplx(0), cplx(1), cplx(0, -2), cplx(1e-300, 0), cplx(0, 1e-20), cplx(1e300, -1), cplx(0.1, 0.1), cplx(3)}; return t[i]; } };

template<class T, int R, int C, int NV>
void conversions(mc::Ctx& c)
{
	const int64_t n = mc::ipow(NV, R * C);
	int d[32];
	for (int64_t x = 0; x < n; ++x)
	{
		if (!c.begin({x})) continue;
		mc::digits(x, NV, R * C, d);
		Ref<T> r(R, C);
		for (int i = 0; i < R * C; ++i) r.a[i] = NV == 2 ? (d[i] ? W<T>::v(1 + (i * 3) % 7) : T(0)) : W<T>::v(d[i]);
		NOTE("%s", r.text().c_str());
		const SparseMatrix<T> s = makeS(r);
		const DenseMatrix<T> e = makeD(r);
		const FixedMatrix<T, R, C> f = makeF<FixedMatrix<T, R, C> >(r);
		const DenseMatrix<T> sd = Convert::toDenseMatrix(s);
		const SparseMatrix<T> es = Convert::toSparseMatrix(e), fs = Convert::toSparseMatrix(f);
		sameDense(c, sd, r, "sparse to dense");
		sameSparse(c, es, r, "dense to sparse");
		sameSparse(c, fs, r, "fixed-size to sparse");
		sameDense(c, Convert::toDenseMatrix(es), r, "dense to sparse to dense");
		sameSparse(c, Convert::toSparseMatrix(sd), r, "sparse to dense to sparse");
		sameSparse(c, s, r, "source afterwards");
		sameDense(c, e, r, "source afterwards");
		CK(es == s && fs == s && sd == e, "converted matrices differ from those built directly");
		if (x) c.nontrivial();
	}
}
MC_REGISTER(convert_double_2x2, conversions<double, 2, 2, 8>);
MC_REGISTER(convert_double_3x2, conversions<double, 3, 2, 4>);
MC_REGISTER(convert_double_1x4, conversions<double, 1, 4, 8>);
MC_REGISTER(convert_double_4x1, conversions<double, 4, 1, 8>);
MC_REGISTER(convert_float_2x3, conversions<float, 2, 3, 4>);
MC_REGISTER(convert_long_double_3x2, conversions<long double, 3, 2, 3>);
MC_REGISTER(convert_complex_float_2x2, conversions<cplxf, 2, 2, 4>);
MC_REGISTER(convert_complex_2x2, conversions<cplx, 2, 2, 8>);
MC_REGISTER(convert_int_3x2, conversions<int, 3, 2, 4>);
MC_REGISTER(convert_double_3x4, conversions<double, 3, 4, 2>);
MC_REGISTER(convert_double_6x2, conversions<double, 6, 2, 2>);
MC_REGISTER(convert_double_2x7, conversions<double, 2, 7, 2>);

// Shapes up to 9x9, at most two entries
MC_SECTION(convert_shapes)
{
	for (int R = 1; R <= 9; ++R)
		for (int C = 1; C <= 9; ++C)
			for (int p = 0; p < R * C; ++p)
				for (int q = p; q < R * C; ++q)
				{
					if (!c.begin({R, C, p, q})) continue;
					Ref<double> r(R, C);
					r.a[p] = 1.5;
					r.a[q] = -2;
					NOTE("%s", r.text().c_str());
					const SparseMatrix<double> s = makeS(r);
					const DenseMatrix<double> d = makeD(r);
					sameDense(c, Convert::toDenseMatrix(s), r, "sparse to dense");
					sameSparse(c, Convert::toSparseMatrix(d), r, "dense to sparse");
					c.nontrivial();
				}
}

// Special values, infinities and NaN among them, in every entry of every shape up to 4x4
template<class T, int R, int C> void extremeShape(mc::Ctx& c)
{
	for (int u : {UNIT_SPECIAL, UNIT_NAN})
		for (int p = 0; p < R * C; ++p) for (int q = 0; q < R * C; ++q) for (int i = 1; i < 12; ++i) for (int j = 0; j < 12; j += 1 + 3 * (R * C > 4))
		{
			if (!c.begin({R, C, u, p, q, i, j})) continue;
			unit() = unitOf(u);
			Ref<T> r(R, C);
			r.a[q] = V<T>::v(j);
			r.a[p] = V<T>::v(i);
			NOTE("%s", r.text().c_str());
			const SparseMatrix<T> s = makeS(r);
			const DenseMatrix<T> e = makeD(r);
			const FixedMatrix<T, R, C> f = makeF<FixedMatrix<T, R, C> >(r);
			sameDense(c, Convert::toDenseMatrix(s), r, "sparse to dense");
			sameSparse(c, Convert::toSparseMatrix(e), r, "dense to sparse");
			sameSparse(c, Convert::toSparseMatrix(f), r, "fixed-size to sparse");
			c.nontrivial();
		}
	unit() = 1;
}
template<class T> void extremeValues(mc::Ctx& c)
{
	extremeShape<T, 1, 1>(c); extremeShape<T, 2, 2>(c); extremeShape<T, 1, 3>(c); extremeShape<T, 3, 1>(c); extremeShape<T, 2, 3>(c); extremeShape<T, 3, 2>(c);
}
MC_REGISTER(extreme_double, extremeValues<double>);
MC_REGISTER(extreme_float, extremeValues<float>);
MC_REGISTER(extreme_long_double, extremeValues<long double>);
MC_REGISTER(extreme_complex, extremeValues<cplx>);

template<class A, class B> bool near_(const A& a, const B& b) { return std::abs(a - b) <= 1e-9 * (1 + std::abs(a)); }
template<class F> int status(F f)
{
	try { f(); } catch (const SingularException&) { return 1; } catch (const NotPositiveDefiniteException&) { return 2; } catch (const MatrixHasZeroInDiagException&) { return 3; } catch (const NSException&) { return 4; }
	return 0;
}

template<class T> Ref<T> conjR_(const Ref<T>& a) { Ref<T> x = a; for (auto& v : x.a) v = NS::complex_conj(v); return x; }
// The average of complex matrices is not offered
template<class M> typename std::enable_if<std::is_arithmetic<typename M::value_type>::value, double>::type avg_(const M& m) { return (double)m.avg(); }
template<class M> typename std::enable_if<!std::is_arithmetic<typename M::value_type>::value, double>::type avg_(const M&) { return 0; }
// The same matrix through every algorithm in each representation
template<class T, int N>
void algorithmsCase(mc::Ctx& c, const Ref<T>& r)
{
	typedef FixedMatrix<T, N, N> F;
	typedef SparseMatrix<T> S;
	typedef DenseMatrix<T> D;
	const S s = makeS(r);
	const D e = makeD(r);
	const F f = makeF<F>(r);
	#define SAME(A, B, WHAT) do { Ref<T> p_ = readM(A), q_ = readM(B); CK(p_.r == q_.r && p_.c == q_.c, "%s: shapes differ", WHAT); for (size_t i_ = 0; i_ < p_.a.size(); ++i_) CK(near_(p_.a[i_], q_.a[i_]), "%s: representations differ for %s: %s and %s", WHAT, r.text().c_str(), p_.text().c_str(), q_.text().c_str()); } while (0)
	SAME(s.transpose(), e.transpose(), "transpose, sparse and dense");
	SAME(e.transpose(), f.transpose(), "transpose, dense and fixed");
	SAME(s.adjugate(), e.adjugate(), "adjugate, sparse and dense");
	SAME(e.adjugate(), f.adjugate(), "adjugate, dense and fixed");
	SAME(s.conjugate(), e.conjugate(), "conjugate, sparse and dense");
	SAME(e.conjugate(), f.conjugate(), "conjugate, dense and fixed");
	SAME(s.mul(s.transpose()), e.mul(e.transpose()), "product, sparse and dense");
	SAME(e.mul(e.transpose()), f.mul(f.transpose()), "product, dense and fixed");
	SAME(-s, -e, "negation, sparse and dense");
	SAME(-e, -f, "negation, dense and fixed");
	SAME(s + s.transpose(), e + e.transpose(), "sum, sparse and dense");
	SAME(f + f.transpose(), e + e.transpose(), "sum, fixed and dense");
	SAME(s * s.transpose(), e * e.transpose(), "element-wise product, sparse and dense");
	SAME(f * f.transpose(), e * e.transpose(), "element-wise product, fixed and dense");
	CK(s.sum() == e.sum() && e.sum() == f.sum(), "sums differ");
	CK(avg_(s) == avg_(e) && avg_(e) == avg_(f), "averages differ");
	CK(s.trace() == e.trace() && e.trace() == f.trace(), "traces differ");
	CK(s.empty() == e.empty() && e.empty() == f.empty(), "empty differs");
	CK(s.has_zero() == e.has_zero() && e.has_zero() == f.has_zero(), "has_zero differs");
	CK(Check::matrixIsSymmetric(s) == Check::matrixIsSymmetric(e) && Check::matrixIsSymmetric(e) == Check::matrixIsSymmetric(f), "matrixIsSymmetric differs");
	CK(Check::matrixIsHermitian(s) == Check::matrixIsHermitian(e) && Check::matrixIsHermitian(e) == Check::matrixIsHermitian(f), "matrixIsHermitian differs");
	CK(Check::matrixIsSkewSymmetric(s) == Check::matrixIsSkewSymmetric(e), "matrixIsSkewSymmetric differs");
	CK(Check::matrixIsSkewHermitian(s) == Check::matrixIsSkewHermitian(e), "matrixIsSkewHermitian differs");
	CK(Check::matrixIsProjection(s) == Check::matrixIsProjection(e) && Check::matrixIsProjection(e) == Check::matrixIsProjection(f), "matrixIsProjection differs");
	CK(Check::matrixIsOrthogonal(s) == Check::matrixIsOrthogonal(e) && Check::matrixIsOrthogonal(e) == Check::matrixIsOrthogonal(f), "matrixIsOrthogonal differs");
	CK(Check::matrixIsUnitary(s) == Check::matrixIsUnitary(e) && Check::matrixIsUnitary(e) == Check::matrixIsUnitary(f), "matrixIsUnitary differs");
	for (int k = -N; k <= N; ++k)
	{
		SAME((Construct::tril<SparseMatrix, T>(s, k)), (Construct::tril<DenseMatrix, T>(e, k)), "tril");
		SAME((Construct::triu<SparseMatrix, T>(s, k)), (Construct::triu<DenseMatrix, T>(e, k)), "triu");
	}
	CK((Construct::diag<SparseMatrix, T>(s) == Construct::diag<DenseMatrix, T>(e)), "diagonals differ");

	S sl(N, N), su(N, N), sp(N, N);
	D dl(N, N), du(N, N), dp(N, N);
	F fl, fu, fp;
	size_t a = 9, b = 9, g = 9;
	const int st = status([&] { LU::serial::doolittle(s, sl, su, sp, &a); });
	CK(st == status([&] { LU::serial::doolittle(e, dl, du, dp, &b); }), "LU outcome differs between sparse and dense");
	CK(st == status([&] { LU::serial::doolittle(f, fl, fu, fp, &g); }), "LU outcome differs between dense and fixed");
	if (st == 0)
	{
		CK(a == b && b == g, "row exchange counts differ: %d, %d, %d", (int)a, (int)b, (int)g);
		SAME(sl, dl, "L, sparse and dense"); SAME(dl, fl, "L, dense and fixed");
		SAME(su, du, "U, sparse and dense"); SAME(du, fu, "U, dense and fixed");
		SAME(sp, dp, "P, sparse and dense"); SAME(dp, fp, "P, dense and fixed");
	}
	CK(near_(Operations::determinant(s), Operations::determinant(e)) && near_(Operations::determinant(e), Operations::determinant(f)), "determinants differ");
	S si; D di;
	const int is = status([&] { si = Operations::inverse(s); });
	CK(is == status([&] { di = Operations::inverse(e); }), "inverse outcome differs");
	if (is == 0) SAME(si, di, "inverse");
	DynamicVector<T> v(N), z(N);
	for (int i = 0; i < N; ++i) v.set(i, V<T>::v(i + 1));
	#define SAMEV(A, B, WHAT) for (int i_ = 0; i_ < N; ++i_) CK(near_((A).at(i_), (B).at(i_)), "%s: representations differ for %s", WHAT, r.text().c_str())
	SAMEV(s.mul(v), e.mul(v), "matrix times vector");
	SAMEV(s.mul_left(v), e.mul_left(v), "vector times matrix");
	DynamicVector<T> sx(N), dx(N), fx(N);
	for (int it = 1; it <= 3; ++it)
	{
		const int js = status([&] { sx = Iterative::serial::jacobi(s, v, z, it, 1e-12, nullptr); });
		CK(js == status([&] { dx = Iterative::serial::jacobi(e, v, z, it, 1e-12, nullptr); }) && js == status([&] { fx = Iterative::serial::jacobi(f, v, z, it, 1e-12, nullptr); }), "Jacobi outcome differs");
		if (js == 0) { SAMEV(sx, dx, "Jacobi"); SAMEV(dx, fx, "Jacobi"); }
	}
	const Ref<T> h = r.mul(conjR_(r.t()));
	S hs = makeS(h), hl(N, N);
	D hd = makeD(h), hk(N, N);
	F hf = makeF<F>(h), hg;
	const int cs = status([&] { LU::serial::cholesky(hs, hl); });
	CK(cs == status([&] { LU::serial::cholesky(hd, hk); }) && cs == status([&] { LU::serial::cholesky(hf, hg); }), "Cholesky outcome differs for %s", h.text().c_str());
	if (cs == 0) { SAME(hl, hk, "Cholesky, sparse and dense"); SAME(hk, hg, "Cholesky, dense and fixed"); }
}
template<class T, int N, int NV>
void algorithms(mc::Ctx& c)
{
	const int64_t n = mc::ipow(NV, N * N);
	int d[32];
	for (int64_t x = 0; x < n; ++x)
	{
		if (!c.begin({x})) continue;
		mc::digits(x, NV, N * N, d);
		Ref<T> r(N, N);
		for (int i = 0; i < N * N; ++i) r.a[i] = V<T>::v(d[i]);
		NOTE("%s", r.text().c_str());
		algorithmsCase<T, N>(c, r);
		if (x) c.nontrivial();
	}
}

MC_REGISTER(algorithms_double_2, algorithms<double, 2, 8>);
MC_REGISTER(algorithms_complex_2, algorithms<cplx, 2, 5>);
MC_REGISTER(algorithms_double_3, algorithms<double, 3, 3>);
MC_REGISTER(algorithms_complex_3, algorithms<cplx, 3, 2>);
MC_REGISTER(algorithms_double_4, algorithms<double, 4, 2>);
// Values of other magnitudes
MC_REGISTER(algorithms_odd_2, withUnit<algorithms<double, 2, 5>, UNIT_ODD>);
MC_REGISTER(algorithms_huge_2, withUnit<algorithms<double, 2, 5>, UNIT_HUGE>);
MC_REGISTER(algorithms_odd_complex_2, withUnit<algorithms<cplx, 2, 4>, UNIT_ODD>);

// Structured, diagonally dominant matrices of larger sizes
template<class T, int N>
void scaleAlgorithms(mc::Ctx& c)
{
	for (int k = 0; k < PATTERNS; ++k)
		for (int sh = 0; sh < (c.thorough ? 11 : 3); ++sh)
			for (int turn = 0; turn < N; turn += N / 3)
			{
				if (!c.begin({k, sh, turn})) continue;
				Ref<T> r = patterned<T>(k, N, N, sh), q(N, N);
				for (int i = 0; i < N; ++i) r(i, i) = T(8 * N + i);
				for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) q((i + turn) % N, j) = r(i, j);	// rows moved around
				NOTE("%s", q.text().c_str());
				algorithmsCase<T, N>(c, q);
				c.nontrivial();
			}
}
MC_REGISTER(scale_double_7, scaleAlgorithms<double, 7>);
MC_REGISTER(scale_double_12, scaleAlgorithms<double, 12>);
MC_REGISTER(scale_complex_9, scaleAlgorithms<cplx, 9>);
template<class T, int R, int C>
void scaleConversions(mc::Ctx& c)
{
	for (int k = 0; k < PATTERNS; ++k)
		for (int sh = 0; sh < 11; ++sh)
		{
			if (!c.begin({k, sh})) continue;
			const Ref<T> r = patterned<T>(k, R, C, sh);
			NOTE("%s", r.text().c_str());
			const SparseMatrix<T> s = makeS(r);
			const DenseMatrix<T> e = makeD(r);
			sameDense(c, Convert::toDenseMatrix(s), r, "sparse to dense");
			sameSparse(c, Convert::toSparseMatrix(e), r, "dense to sparse");
			sameSparse(c, Convert::toSparseMatrix(makeF<FixedMatrix<T, R, C> >(r)), r, "fixed-size to sparse");
			sameSparse(c, Convert::toSparseMatrix(Convert::toDenseMatrix(s)), r, "sparse to dense to sparse");
			c.nontrivial();
		}
}
MC_REGISTER(scale_convert_20x20, scaleConversions<double, 20, 20>);
MC_REGISTER(scale_convert_1x70, scaleConversions<double, 1, 70>);
MC_REGISTER(scale_convert_70x1, scaleConversions<float, 70, 1>);
MC_REGISTER(scale_convert_40x3, scaleConversions<cplx, 40, 3>);
MC_REGISTER(scale_convert_3x40, scaleConversions<double, 3, 40>);

// Constructors that exist in each representation
MC_SECTION(constructors)
{
	for (int n = 1; n <= 8; ++n)
		for (int m = 1; m <= 8; ++m)
		{
			if (!c.begin({n, m})) continue;
			CK(readM(Construct::eye<SparseMatrix, double>(n, m)) == readM(Construct::eye<DenseMatrix, double>(n, m)), "eye(%d,%d)", n, m);
			DynamicVector<double> v(n);
			for (int i = 0; i < n; ++i) v.set(i, (i * m) % 3 - 1);
			CK(readM(Construct::diag<SparseMatrix, double>(v)) == readM(Construct::diag<DenseMatrix, double>(v)), "diag");
			CK(readM(Construct::hilbert<SparseMatrix, double>(n)) == readM(Construct::hilbert<DenseMatrix, double>(n)), "hilbert");
			CK(readM(Construct::inv_hilbert<SparseMatrix, double>(n)) == readM(Construct::inv_hilbert<DenseMatrix, double>(n)), "inv_hilbert");
			c.nontrivial();
		}
	#define FIX(A, B) { if (c.begin({100, A, B})) { CK(readM(Construct::eye<double, A, B>()) == readM(Construct::eye<DenseMatrix, double>(A, B)), "fixed eye"); } }
	FIX(1, 1) FIX(2, 2) FIX(3, 3) FIX(2, 3) FIX(3, 2) FIX(1, 4) FIX(4, 1)
}
// Indices and counts beyond 8 and 16 bits
MC_SECTION(convert_wide)
{
	typedef double T;
	for (int s = 0; s + 1 < WIDES; ++s) for (int k = 0; k < WIDE_PATTERNS; ++k) for (int h = 0; h < 2; ++h)
	{
		const int R = WIDE[s][0], C = WIDE[s][1];
		if (!c.begin({s, k, h})) continue;
		const Wide<T> w = wide<T>(k, R, C, h);
		NOTE("pattern %d of %dx%d", k, R, C);
		const SparseMatrix<T> a = wideS(w);
		const DenseMatrix<T> d = wideD(w);
		sameWideD(c, Convert::toDenseMatrix(a), w, "sparse to dense");
		sameWide(c, Convert::toSparseMatrix(d), w, "dense to sparse");
		c.nontrivial();
	}
}

}
using namespace vf;

int main(int argc, char** argv)
{
	mc::Meta m;
	m.property = "C06";
	m.level = "exploration";
	m.rule = "a case is a matrix, converted back and forth or run through every algorithm in the sparse, dense and fixed-size representation, whose results are compared; non-trivial: not the zero matrix";
	m.assumptions = {"results of floating point algorithms are compared up to 1e-9 relative"};
	return mc::main_(argc, argv, m);
}
