// C30: operands of incompatible shape are refused
// BUILD: -fsanitize=address,undefined -fno-omit-frame-pointer
#include "common.h"
#include "matrix/MatrixOperations.h"
#include "matrix/MatrixOrder.h"
#include "Iterative.h"
#include "CG.h"
#include "LU.h"

namespace vf {	// names the library may use as well
using namespace NS;

// What an operation did: true if it refused the shapes
template<class F> bool refused(mc::Ctx& c, const char* what, F f)
{
	c.transition();
	try { f(); return false; }
	catch (const NotSquareException&) { return true; }
	catch (const InvalidOutputMatrixException&) { return true; }
	catch (const MatrixVectorMismatchException&) { return true; }
	catch (const DimensionException&) { return true; }
	catch (const NSException& e) { c.fail("%s: %s", what, e.what()); }
}
#define REFUSED(C, WHAT, FIT, CALL) do { const bool fit_ = (FIT); const bool r_ = refused(C, WHAT, [&] { CALL; }); CK(r_ == !fit_, "%s: shapes which %s are %s", WHAT, fit_ ? "fit" : "do not fit", r_ ? "refused" : "accepted"); if (!fit_) C.nontrivial(); } while (0)

template<class T> T entry(int kind, int i, int j)
{
	switch (kind)
	{
	case 0: return i == j ? T(4) : std::abs(i - j) == 1 ? T(1) : T(0);	// definite
	case 1: return i == j ? T(1) : j < i ? T(i + j) : T(0);	// unit lower
	case 2: return i == j ? T(2) : j > i ? T(i + j) : T(0);	// upper
	case 3: return i == j ? T(1) : T(0);
	default: return V<T>::v(1 + (i * 3 + j + kind) % 9);
	}
}
struct Shape { int r, c; bool sq() const { return r == c; } bool operator==(const Shape& o) const { return r == o.r && c == o.c; } };
template<class T> Ref<T> ref(int kind, Shape s) { Ref<T> m(s.r, s.c); for (int i = 0; i < s.r; ++i) for (int j = 0; j < s.c; ++j) m(i, j) = entry<T>(kind, i, j); return m; }
template<class T> DynamicVector<T> dv(int n, int k) { DynamicVector<T> v(n); for (int i = 0; i < n; ++i) v.set(i, V<T>::v(1 + (i + k) % 5)); return v; }
template<class Vx> std::vector<typename Vx::value_type> readV(const Vx& v) { std::vector<typename Vx::value_type> r; for (Index i = 0; i < v.size(); ++i) r.push_back(v.at(i)); return r; }

template<class T> struct SparseKind { typedef SparseMatrix<T> M; static const char* n() { return "sparse"; } static const bool sparse = true; static void same(mc::Ctx& c, const M& m, const Ref<T>& r, const char* w) { sameSparse(c, m, r, w); } };
template<class T> struct DenseKind { typedef DenseMatrix<T> M; static const char* n() { return "dense"; } static const bool sparse = false; static void same(mc::Ctx& c, const M& m, const Ref<T>& r, const char* w) { sameDense(c, m, r, w); } };

static const int D = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough") ? 6 : 4;
template<class F> void shapes(int n, F f, std::vector<Shape> s = std::vector<Shape>())
{
	if ((int)s.size() == n) { f(s); return; }
	for (int r = 1; r <= D; ++r) for (int k = 1; k <= D; ++k) { s.push_back(Shape{r, k}); shapes(n, f, s); s.pop_back(); }
}
static std::vector<int64_t> code(const std::vector<Shape>& s, int x = 0, int y = 0) { std::vector<int64_t> v; for (auto& q : s) { v.push_back(q.r); v.push_back(q.c); } v.push_back(x); v.push_back(y); return v; }

// Two matrices
template<template<class> class Kind, class T> void pairs(mc::Ctx& c)
{
	typedef typename Kind<T>::M M;
	shapes(2, [&](const std::vector<Shape>& s)
	{
		if (!c.begin(code(s))) return;
		const Ref<T> ra = ref<T>(4, s[0]), rb = ref<T>(6, s[1]);
		NOTE("%s %s and %s", Kind<T>::n(), ra.text().c_str(), rb.text().c_str());
		const M a = makeM<M>(ra), b = makeM<M>(rb);
		const bool same = s[0] == s[1], chain = s[0].c == s[1].r;
		M r = a;
		const auto left = [&](const char* w) { Kind<T>::same(c, a, ra, w); Kind<T>::same(c, b, rb, w); };
#define BINARY(NAME, EXPR) do { M o = makeM<M>(ra); REFUSED(c, NAME, same, o = EXPR); if (same) { CK(o.rows() == a.rows() && o.columns() == a.columns(), NAME ": shape of the result"); } else Kind<T>::same(c, o, ra, NAME); left(NAME); } while (0)
		BINARY("a + b", a + b);
		BINARY("a - b", a - b);
		BINARY("a * b", a * b);
#define INPLACE(NAME, STMT) do { M o = makeM<M>(ra); REFUSED(c, NAME, same, STMT); if (!same) Kind<T>::same(c, o, ra, NAME); left(NAME); } while (0)
		INPLACE("a += b", o += b);
		INPLACE("a -= b", o -= b);
		INPLACE("a *= b", o *= b);
		{
			M o = makeM<M>(ra);
			REFUSED(c, "a.mul(b)", chain, o = a.mul(b));
			if (chain) { CK((int)o.rows() == s[0].r && (int)o.columns() == s[1].c, "a.mul(b): shape of the result"); } else Kind<T>::same(c, o, ra, "a.mul(b)");
			left("a.mul(b)");
		}
		// A comparison of sparse matrices of different shapes is false, all others are refused
		if (Kind<T>::sparse) { CK(a != b && !(a == b), "a == b with different contents"); if (!same) { const M z(s[0].r, s[0].c), y(s[1].r, s[1].c); CK(z != y && !(z == y), "a == b of empty matrices of different shapes"); } }
		else { bool e = false; REFUSED(c, "a == b", same, e = a == b); REFUSED(c, "a != b", same, e = a != b); (void)e; }
		left("comparison");
		// exchanging contents is possible for all shapes
		M x = a, y = b;
		REFUSED(c, "swap", true, x.swap(y));
		Kind<T>::same(c, x, rb, "swap");
		Kind<T>::same(c, y, ra, "swap");
	});
}
template<class T> void allPairs(mc::Ctx& c) { pairs<SparseKind, T>(c); }
template<class T> void allPairsD(mc::Ctx& c) { pairs<DenseKind, T>(c); }
MC_REGISTER(sparse_pairs, allPairs<double>);
MC_REGISTER(sparse_pairs_complex, allPairs<cplx>);
MC_REGISTER(dense_pairs, allPairsD<double>);
MC_REGISTER(dense_pairs_complex, allPairsD<cplx>);

// A dense and a fixed-size matrix
template<class T, int R, int C> void mixedOne(mc::Ctx& c)
{
	shapes(1, [&](const std::vector<Shape>& s)
	{
		if (!c.begin(code(s, R, C))) return;
		const Shape f{R, C};
		const bool same = s[0] == f;
		const Ref<T> ra = ref<T>(4, s[0]), rf = ref<T>(6, f);
		NOTE("dense %s and fixed %s", ra.text().c_str(), rf.text().c_str());
		const FixedMatrix<T, R, C> b = makeF<FixedMatrix<T, R, C> >(rf);
#define MIXED(NAME, STMT) do { DenseMatrix<T> o = makeD(ra); REFUSED(c, NAME, same, STMT); if (!same) sameDense(c, o, ra, NAME); sameDense(c, b, rf, NAME); } while (0)
		MIXED("dense += fixed", o += b);
		MIXED("dense -= fixed", o -= b);
		MIXED("dense *= fixed", o *= b);
		// with vectors of fixed size R
		const SparseMatrix<T> sp = makeS(ra);
		const DenseMatrix<T> de = makeD(ra);
		FixedVector<T, R> v;
		for (int i = 0; i < R; ++i) v[i] = V<T>::v(1 + i);
		DynamicVector<T> r(1);
		REFUSED(c, "sparse.mul(fixed vector)", s[0].c == R, r = sp.mul(v));
		if (s[0].c == R) CK((int)r.size() == s[0].r, "size of the product");
		REFUSED(c, "dense.mul(fixed vector)", s[0].c == R, r = de.mul(v));
		if (s[0].c == R) CK((int)r.size() == s[0].r, "size of the product");
		REFUSED(c, "sparse.mul_left(fixed vector)", s[0].r == R, r = sp.mul_left(v));
		if (s[0].r == R) CK((int)r.size() == s[0].c, "size of the product");
		REFUSED(c, "dense.mul_left(fixed vector)", s[0].r == R, r = de.mul_left(v));
		if (s[0].r == R) CK((int)r.size() == s[0].c, "size of the product");
		sameSparse(c, sp, ra, "products");
		sameDense(c, de, ra, "products");
	});
}
template<class T, int R> void mixedRow(mc::Ctx& c) { mixedOne<T, R, 1>(c); mixedOne<T, R, 2>(c); mixedOne<T, R, 3>(c); mixedOne<T, R, 4>(c); }
template<class T> void mixed(mc::Ctx& c) { mixedRow<T, 1>(c); mixedRow<T, 2>(c); mixedRow<T, 3>(c); mixedRow<T, 4>(c); }
MC_REGISTER(dense_with_fixed, mixed<double>);
MC_REGISTER(dense_with_fixed_complex, mixed<cplx>);

// A matrix and a vector, two vectors, an order
template<class T> void vectors(mc::Ctx& c)
{
	shapes(1, [&](const std::vector<Shape>& s)
	{
		for (int n = 1; n <= 17; ++n)
		{
			if (n == 7) n = 8; else if (n > 8 && n < 16) n = n == 9 ? 9 : n == 10 ? 12 : 16;	// sizes of whole matrices too
			if (!c.begin(code(s, n))) continue;
			const Ref<T> ra = ref<T>(4, s[0]);
			NOTE("matrix %s and a vector of %d", ra.text().c_str(), n);
			const SparseMatrix<T> sp = makeS(ra);
			const DenseMatrix<T> de = makeD(ra);
			const DynamicVector<T> v = dv<T>(n, 1);
			const std::vector<T> rv = readV(v);
			DynamicVector<T> r(1);
			REFUSED(c, "sparse.mul(vector)", s[0].c == n, r = sp.mul(v));
			if (s[0].c == n) CK((int)r.size() == s[0].r, "size of the product");
			REFUSED(c, "dense.mul(vector)", s[0].c == n, r = de.mul(v));
			if (s[0].c == n) CK((int)r.size() == s[0].r, "size of the product");
			REFUSED(c, "sparse.mul_left(vector)", s[0].r == n, r = sp.mul_left(v));
			if (s[0].r == n) CK((int)r.size() == s[0].c, "size of the product");
			REFUSED(c, "dense.mul_left(vector)", s[0].r == n, r = de.mul_left(v));
			if (s[0].r == n) CK((int)r.size() == s[0].c, "size of the product");
			DynamicVector<Index> order(n);
			for (int i = 0; i < n; ++i) order.set(i, (Index)(n - 1 - i));
			SparseMatrix<T> o = sp;
			REFUSED(c, "permutate(matrix, order)", s[0].sq() && s[0].r == n, o = permutate(sp, order));
			if (!(s[0].sq() && s[0].r == n)) sameSparse(c, o, ra, "permutate(matrix, order)");
			REFUSED(c, "cuthill_mckee", s[0].sq(), order = cuthill_mckee(sp));
			REFUSED(c, "r_cuthill_mckee", s[0].sq(), order = r_cuthill_mckee(sp));
			sameSparse(c, sp, ra, "products");
			sameDense(c, de, ra, "products");
			CK(readV(v) == rv, "the vector is changed");
		}
	});
}
MC_REGISTER(matrix_and_vector, vectors<double>);
MC_REGISTER(matrix_and_vector_complex, vectors<cplx>);
template<class T> void vectorPairs(mc::Ctx& c)
{
	const int N = c.thorough ? 12 : 8;
	for (int n = 1; n <= N; ++n) for (int k = 1; k <= N; ++k)
	{
		if (!c.begin({n, k})) continue;
		NOTE("vectors of %d and %d elements", n, k);
		const DynamicVector<T> a = dv<T>(n, 0), b = dv<T>(k, 2);
		const std::vector<T> ra = readV(a), rb = readV(b);
		const bool same = n == k;
		T x = T(0);
		bool e = false;
#define VPAIR(NAME, STMT) do { DynamicVector<T> o = a; REFUSED(c, NAME, same, STMT); CK(readV(a) == ra && readV(b) == rb, NAME ": an operand changed"); if (!same) CK(readV(o) == ra, NAME ": the left operand changed"); else CK((int)o.size() == n, NAME ": size of the result"); } while (0)
		VPAIR("a + b", o = a + b);
		VPAIR("a - b", o = a - b);
		VPAIR("a * b", o = a * b);
		VPAIR("a / b", o = a / b);
		VPAIR("a += b", o += b);
		VPAIR("a -= b", o -= b);
		VPAIR("a *= b", o *= b);
		VPAIR("a /= b", o /= b);
		VPAIR("a.dot(b)", x = a.dot(b));
		VPAIR("a == b", e = a == b);
		VPAIR("a != b", e = a != b);
		(void)x; (void)e;
		DynamicVector<Index> order(k);
		for (int i = 0; i < k; ++i) order.set(i, (Index)(k - 1 - i));
		VPAIR("permutate(vector, order)", o = permutate(a, order));
	}
}
MC_REGISTER(vector_and_vector, vectorPairs<double>);
MC_REGISTER(vector_and_vector_complex, vectorPairs<cplx>);
MC_REGISTER(vector_and_vector_int, vectorPairs<int>);

// Factorisations and their outputs, substitution, inverses
template<template<class> class Kind, class T> void factor(mc::Ctx& c)
{
	typedef typename Kind<T>::M M;
	shapes(3, [&](const std::vector<Shape>& s)
	{
		if (!c.begin(code(s))) return;
		const Ref<T> r0 = ref<T>(0, s[0]), rl = ref<T>(1, s[0]), ru = ref<T>(2, s[1]), rp = ref<T>(3, s[2]);
		NOTE("%s, shapes %dx%d, %dx%d, %dx%d", Kind<T>::n(), s[0].r, s[0].c, s[1].r, s[1].c, s[2].r, s[2].c);
		const M a = makeM<M>(r0);
		const bool all = s[0].sq() && s[0] == s[1] && s[0] == s[2];
		{
			// The factors of sparse matrices replace what was in the outputs, whatever its shape
			M L = makeM<M>(ref<T>(4, s[1])), U = makeM<M>(ref<T>(5, s[0])), P = makeM<M>(ref<T>(6, s[2]));
			size_t n;
			REFUSED(c, "doolittle", Kind<T>::sparse ? s[0].sq() : all, LU::serial::doolittle(a, L, U, P, &n));
			Kind<T>::same(c, a, r0, "doolittle");
			if (Kind<T>::sparse && s[0].sq()) { for (const M* m : {&L, &U, &P}) CK((int)m->rows() == s[0].r && (int)m->columns() == s[0].c, "doolittle: shape of a factor"); }
			if (Kind<T>::sparse) { M U2 = makeM<M>(ref<T>(5, s[1])); REFUSED(c, "doolittle", s[0].sq(), LU::serial::doolittle(a, L, U2, P)); }
		}
		if (s[2] == s[0])
		{
			M L = makeM<M>(ref<T>(4, s[1]));
			REFUSED(c, "cholesky", s[0].sq() && s[0] == s[1], LU::serial::cholesky(a, L));
			Kind<T>::same(c, a, r0, "cholesky");
			M o = a;
			REFUSED(c, "inverse(a)", s[0].sq(), o = Operations::inverse(a));
			Kind<T>::same(c, a, r0, "inverse(a)");
			const T d = Operations::determinant(a);
			if (!s[0].sq()) CK(d == T(0), "determinant of a matrix that is not square");
			Kind<T>::same(c, a, r0, "determinant");
		}
		const M L = makeM<M>(rl), U = makeM<M>(ru), P = makeM<M>(rp);
		const auto left = [&](const char* w) { Kind<T>::same(c, L, rl, w); Kind<T>::same(c, U, ru, w); Kind<T>::same(c, P, rp, w); };
		{
			M o = L;
			REFUSED(c, "inverse(L, U, P)", all, o = Operations::inverse(L, U, P));
			if (s[2] == s[0]) REFUSED(c, "inverse(L, U)", s[0].sq() && s[0] == s[1], o = Operations::inverse(L, U));
			left("inverse");
		}
		if (s[2].c == 1)
		{
			const DynamicVector<T> b = dv<T>(s[2].r, 0);
			const std::vector<T> rb = readV(b);
			DynamicVector<T> x(1);
			const bool fit = s[0].sq() && s[0] == s[1] && s[2].r == s[0].r;
			REFUSED(c, "solve_lu", fit, x = LU::serial::solve_lu(L, U, b));
			if (fit) CK((int)x.size() == s[0].r, "solve_lu: size of the solution");
			left("solve_lu");
			CK(readV(b) == rb, "solve_lu: the right-hand side is changed");
		}
	});
}
template<class T> void factorS(mc::Ctx& c) { factor<SparseKind, T>(c); }
template<class T> void factorD(mc::Ctx& c) { factor<DenseKind, T>(c); }
MC_REGISTER(factorisation_sparse, factorS<double>);
MC_REGISTER(factorisation_sparse_complex, factorS<cplx>);
MC_REGISTER(factorisation_dense, factorD<double>);
MC_REGISTER(factorisation_dense_complex, factorD<cplx>);
template<class T> void incomplete(mc::Ctx& c, int a0, int a1)
{
	shapes(3, [&](const std::vector<Shape>& s)
	{
		if (s[0].r < a0 || s[0].r > a1) return;
		for (int r = 1; r <= D; ++r) for (int k = 1; k <= D; ++k)
		{
			const Shape q{r, k};
			if (!c.begin(code(s, r, k))) continue;
			NOTE("shapes %dx%d, %dx%d, %dx%d, %dx%d", s[0].r, s[0].c, s[1].r, s[1].c, s[2].r, s[2].c, r, k);
			const Ref<T> rl = ref<T>(1, s[0]), ru = ref<T>(2, s[1]);
			const SparseMatrix<T> L = makeS(rl), U = makeS(ru);
			SparseMatrix<T> iL = makeS(ref<T>(3, s[2])), iU = makeS(ref<T>(3, q));
			REFUSED(c, "ainv_lu", s[0].sq() && s[0] == s[1] && s[0] == s[2] && s[0] == q, LU::serial::ainv_lu(L, U, iL, iU));
			sameSparse(c, L, rl, "ainv_lu");
			sameSparse(c, U, ru, "ainv_lu");
			if (s[2] == q && s[1] == s[0])
			{
				const Ref<T> ra = ref<T>(0, s[0]);
				const SparseMatrix<T> A = makeS(ra);
				SparseMatrix<T> l = makeS(ref<T>(4, s[2])), u = makeS(ref<T>(4, q));
				REFUSED(c, "ilu0", s[0].sq(), LU::serial::ilu0(A, l, u));
				sameSparse(c, A, ra, "ilu0");
				if (s[0].sq()) CK((int)l.rows() == s[0].r && (int)l.columns() == s[0].c && (int)u.rows() == s[0].r && (int)u.columns() == s[0].c, "ilu0: shape of a factor");
			}
		}
	});
}
MC_SECTION(incomplete_1) { incomplete<double>(c, 1, 1); }
MC_SECTION(incomplete_2) { incomplete<double>(c, 2, 2); }
MC_SECTION(incomplete_3) { incomplete<double>(c, 3, 3); }
MC_SECTION(incomplete_4) { incomplete<double>(c, 4, 4); }

// Iterative solvers
template<template<class> class Kind, class T> void solvers(mc::Ctx& c)
{
	typedef typename Kind<T>::M M;
	shapes(2, [&](const std::vector<Shape>& s)
	{
		for (int n = 1; n <= D + 1; ++n) for (int k = 1; k <= D + 1; ++k)
		{
			if (!c.begin(code(s, n, k))) continue;
			NOTE("%s, shapes %dx%d, %dx%d, vectors %d, %d", Kind<T>::n(), s[0].r, s[0].c, s[1].r, s[1].c, n, k);
			const Ref<T> ra = ref<T>(0, s[0]), rc = ref<T>(3, s[1]);
			const M A = makeM<M>(ra), C = makeM<M>(rc);
			const DynamicVector<T> b = dv<T>(n, 0), x0 = dv<T>(k, 3);
			const std::vector<T> rb = readV(b), r0 = readV(x0);
			const bool fit = s[0].sq() && s[0].r == n && s[0].r == k;
			DynamicVector<T> x = x0;
			const auto left = [&](const char* w)
			{
				Kind<T>::same(c, A, ra, w);
				Kind<T>::same(c, C, rc, w);
				CK(readV(b) == rb && readV(x0) == r0, "%s: a vector is changed", w);
				if (fit) CK((int)x.size() == n, "%s: size of the solution", w);
			};
			// also when no step is allowed
			for (size_t most : {(size_t)0, (size_t)20})
			{
				if (s[1] == s[0])
				{
					REFUSED(c, "jacobi", fit, x = Iterative::serial::jacobi(A, b, x0, most));
					left("jacobi");
					REFUSED(c, "sor", fit, x = Iterative::serial::sor(A, b, x0, 1.25, most));
					left("sor");
					REFUSED(c, "cg", fit, x = CG::serial::cg(A, b, x0, most));
					left("cg");
				}
				REFUSED(c, "pcg", fit && s[0] == s[1], x = CG::serial::pcg(A, b, C, x0, most));
				left("pcg");
			}
			if (n == 1 && k == 1)
			{
				M O = C;
				REFUSED(c, "jacobi preconditioner", s[0].sq() && s[0] == s[1], CG::serial::jacobi(A, O));
				Kind<T>::same(c, A, ra, "jacobi preconditioner");
			}
		}
	});
}
template<class T> void solversS(mc::Ctx& c) { solvers<SparseKind, T>(c); }
template<class T> void solversD(mc::Ctx& c) { solvers<DenseKind, T>(c); }
MC_REGISTER(solvers_sparse, solversS<double>);
MC_REGISTER(solvers_dense, solversD<double>);
MC_REGISTER(solvers_float, solversS<float>);

// Fixed-size matrices that are not square
template<class T, int R, int C> void fixedOne(mc::Ctx& c)
{
	if (!c.begin({R, C})) return;
	typedef FixedMatrix<T, R, C> F;
	const Ref<T> ra = ref<T>(0, Shape{R, C});
	NOTE("fixed %s", ra.text().c_str());
	const F a = makeF<F>(ra);
	F L, U, P;
	REFUSED(c, "doolittle", R == C, LU::serial::doolittle(a, L, U, P));
	REFUSED(c, "cholesky", R == C, LU::serial::cholesky(a, L));
	if (R != C) CK(Operations::determinant(a) == T(0), "determinant of a matrix that is not square");
	else CK(Operations::determinant(a) != T(0), "determinant");
	sameDense(c, a, ra, "fixed");
}
template<class T, int R> void fixedRow(mc::Ctx& c) { fixedOne<T, R, 1>(c); fixedOne<T, R, 2>(c); fixedOne<T, R, 3>(c); fixedOne<T, R, 4>(c); fixedOne<T, R, 5>(c); }
MC_SECTION(fixed) { fixedRow<double, 1>(c); fixedRow<double, 2>(c); fixedRow<double, 3>(c); fixedRow<double, 4>(c); fixedRow<double, 5>(c); }

}
using namespace vf;

int main(int argc, char** argv)
{
	return mc::main_(argc, argv, mc::Meta{"C30", "exploration",
		"a case is one tuple of shapes (up to 4x4 each, 6x6 in the thorough run) for the operands of a group of operations; every operation is called, must refuse exactly the tuples that do not fit, with one of the library's mismatch errors, and must leave its operands as they were",
		{"sparse comparison answers false for different shapes, the determinant of a non-square matrix is zero: these are answers, not refusals", "outputs of sparse factorisations are replaced, so their previous shape is free", "fixed-size mismatches are refused by the compiler"}});
}
