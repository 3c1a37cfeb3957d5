// C10: determinant and inverse against exact arithmetic
#include "square.h"

namespace vf {	// names the library may use as well
using namespace NS;

template<class T> double tol() { return sizeof(typename get_complex_internal<T>::type) == 4 ? 2e-2 : 1e-8; }
template<class M, class T> void isInverse(mc::Ctx& c, const M& inv, const Ref<T>& a, const char* k, const char* what)
{
	const Ref<T> r = readM(inv);
	CK(r.r == a.r && r.c == a.c, "%s: %s has the shape %dx%d", k, what, r.r, r.c);
	CK(diff(r.mul(a), Ref<T>::eye(a.r)) <= tol<T>(), "%s: %s of %s is %s", k, what, a.text().c_str(), r.text().c_str());
	CK(diff(a.mul(r), Ref<T>::eye(a.r)) <= tol<T>(), "%s: %s of %s is %s", k, what, a.text().c_str(), r.text().c_str());
}
template<class K, class T, int N> void det(mc::Ctx& c, const Ref<T>& a, const GI& d)
{
	const typename K::M m = K::make(a);
	const T r = Operations::determinant(m), e = UnGI<T>::v(d);
	CK(mag_(r - e) <= tol<T>() * (1 + mag_(e)), "%s: determinant of %s is %s, expected %s", K::name(), a.text().c_str(), str(r).c_str(), str(e).c_str());
	CK(readM(m) == a, "%s: determinant changes its argument", K::name());
	c.transition();
}
template<class K, class T, int N> void inv(mc::Ctx& c, const Ref<T>& a, const GI& d)
{
	typedef typename K::M M;
	const M m = K::make(a);
	bool err = false;
	M r = m;
	try { r = Operations::inverse(m); } catch (const SingularException&) { err = true; }
	CK(readM(m) == a, "%s: inversion changes its argument", K::name());
	c.transition();
	if (!d.zero())
	{
		CK(!err, "%s: regular matrix %s is reported as singular", K::name(), a.text().c_str());
		isInverse(c, r, a, K::name(), "inverse");
		M L = m, U = m, P = m;
		LU::serial::doolittle(m, L, U, P);
		isInverse(c, Operations::inverse(L, U, P), a, K::name(), "inverse from L, U and P");
		// without the permutation the factors are those of P*A
		const Ref<T> pa = readM(P).mul(a);
		isInverse(c, Operations::inverse(L, U), pa, K::name(), "inverse from L and U");
		c.nontrivial();
	}
	else if (!err)
	{
		// only for singularities hidden by rounding: the result shows an enormous condition
		bool exact = true;
		for (auto& x : a.a) exact = exact && (x == T(0) || x == T(1) || x == T(-1));
		double big = maxAbs(readM(r));
		CK(!(exact && N <= 3) && !(big < 1e10), "%s: singular matrix %s has an inverse %s", K::name(), a.text().c_str(), readM(r).text().c_str());
	}
}
template<class K, class T, int N> void detScaled(mc::Ctx& c, const Ref<T>& a)
{
	const typename K::M m = K::make(a);
	const T r = Operations::determinant(m), e = UnL<T>::v(longDet(a));
	CK(mag_(r - e) <= tol<T>() * mag_(e), "%s: determinant of %s is %s, expected %s", K::name(), a.text().c_str(), str(r).c_str(), str(e).c_str());
}
template<class T, int N> void one(mc::Ctx& c, const Ref<T>& a)
{
	const GI d = exactDet(a);
	det<KS<T, N>, T, N>(c, a, d);
	det<KD<T, N>, T, N>(c, a, d);
	det<KF<T, N>, T, N>(c, a, d);
	inv<KS<T, N>, T, N>(c, a, d);
	inv<KD<T, N>, T, N>(c, a, d);
}
template<class T, int N, int NV> void full(mc::Ctx& c) { eachFull<T, N, NV>(c, [&](const Ref<T>& a) { one<T, N>(c, a); }); }
template<class T, int N, int F, int S> void pattern(mc::Ctx& c) { eachPattern<T, N>(c, [&](const Ref<T>& a) { one<T, N>(c, a); }, F, S); }
template<class T, int N, int E> void permuted(mc::Ctx& c) { eachPermuted<T, N>(c, E, [&](const Ref<T>& a) { one<T, N>(c, a); }); }

MC_REGISTER(double_1, full<double, 1, 11>);
MC_REGISTER(double_2, full<double, 2, 9>);
MC_REGISTER(complex_2, full<cplx, 2, 9>);
MC_REGISTER(float_2, full<float, 2, 6>);
MC_REGISTER(long_double_3, full<long double, 3, 3>);
MC_REGISTER(double_3, full<double, 3, 4>);
MC_REGISTER(complex_3, full<cplx, 3, 3>);
MC_REGISTER(complexf_2, full<cplxf, 2, 6>);
MC_REGISTER(double_4a, pattern<double, 4, 0, 2>);
MC_REGISTER(double_4b, pattern<double, 4, 1, 2>);
MC_REGISTER(double_5, permuted<double, 5, 2>);
MC_REGISTER(complex_4, permuted<cplx, 4, 2>);
MC_REGISTER(double_6, permuted<double, 6, 1>);
MC_REGISTER_DEEP(deep_double_3, full<double, 3, 5>);
MC_REGISTER_DEEP(deep_complex_3, full<cplx, 3, 4>);
MC_REGISTER_DEEP(deep_complex_4a, pattern<cplx, 4, 0, 2>);
MC_REGISTER_DEEP(deep_complex_4b, pattern<cplx, 4, 1, 2>);
MC_REGISTER_DEEP(deep_double_5, permuted<double, 5, 3>);
MC_REGISTER_DEEP(deep_double_6, permuted<double, 6, 2>);
MC_REGISTER_DEEP(deep_double_7, permuted<double, 7, 1>);

template<class T, int N> void scale(mc::Ctx& c)
{
	eachScaled<T, N>(c, [&](const Ref<T>& a)
	{
		detScaled<KS<T, N>, T, N>(c, a);
		detScaled<KD<T, N>, T, N>(c, a);
		detScaled<KF<T, N>, T, N>(c, a);
		inv<KS<T, N>, T, N>(c, a, GI(1));
		inv<KD<T, N>, T, N>(c, a, GI(1));
	});
}
MC_REGISTER(scale_double_8, scale<double, 8>);
MC_REGISTER(scale_double_13, scale<double, 13>);
MC_REGISTER(scale_complex_9, scale<cplx, 9>);
MC_REGISTER(scale_double_20, scale<double, 20>);
MC_REGISTER(large_double_70, scale<double, 70>);
MC_REGISTER(large_complex_45, scale<cplx, 45>);
MC_REGISTER(large_double_140, scale<double, 140>);
// Columns of very different size
template<class K, class T, int N> void detUnits(mc::Ctx& c, const Ref<T>& a, int kind)
{
	const Ref<T> as = columnScaled(a, kind);
	const typename K::M m = K::make(as);
	T e = UnGI<T>::v(exactDet(a));
	for (int j = 0; j < N; ++j) e *= T(columnScale(kind, j, eps_<T>() > 1e-10));
	const T r = Operations::determinant(m);
	CK(mag_(r - e) <= tol<T>() * mag_(e), "%s: determinant of %s is %s, expected %s", K::name(), as.text().c_str(), str(r).c_str(), str(e).c_str());
	c.transition();
}
template<class K, class T, int N> void invUnits(mc::Ctx& c, const Ref<T>& a, int kind)
{
	typedef typename K::M M;
	const Ref<T> as = columnScaled(a, kind);
	const M m = K::make(as);
	auto good = [&](const M& inv, const Ref<T>& of, const char* what)
	{
		const Ref<T> r = readM(inv), p = r.mul(of), q = of.mul(r);
		for (int i = 0; i < N; ++i)
			for (int j = 0; j < N; ++j)
			{
				const double s = columnScale(kind, j, eps_<T>() > 1e-10) / columnScale(kind, i, eps_<T>() > 1e-10);
				CK(mag_(p(i, j) - T(i == j)) <= tol<T>() * s, "%s: %s of %s is %s", K::name(), what, of.text().c_str(), r.text().c_str());
				CK(mag_(q(i, j) - T(i == j)) <= tol<T>(), "%s: %s of %s is %s", K::name(), what, of.text().c_str(), r.text().c_str());
			}
	};
	try
	{
		good(Operations::inverse(m), as, "inverse");
		M L = m, U = m, P = m;
		LU::serial::doolittle(m, L, U, P);
		good(Operations::inverse(L, U, P), as, "inverse from L, U and P");
		good(Operations::inverse(L, U), readM(P).mul(as), "inverse from L and U");
	}
	catch (const SingularException&) { c.fail("%s: regular matrix %s is reported as singular", K::name(), as.text().c_str()); }
	c.transition(3);
	c.nontrivial();
}
template<class T, int N> void unitOne(mc::Ctx& c, const Ref<T>& a, int k)
{
	detUnits<KS<T, N>, T, N>(c, a, k);
	detUnits<KD<T, N>, T, N>(c, a, k);
	detUnits<KF<T, N>, T, N>(c, a, k);
	invUnits<KS<T, N>, T, N>(c, a, k);
	invUnits<KD<T, N>, T, N>(c, a, k);
}
template<class T, int N, int NV> void unitFull(mc::Ctx& c) { eachUnitFull<T, N, NV>(c, [&](const Ref<T>& a, int k) { unitOne<T, N>(c, a, k); }); }
template<class T, int N> void unitPermuted(mc::Ctx& c) { eachUnitPermuted<T, N>(c, [&](const Ref<T>& a, int k) { unitOne<T, N>(c, a, k); }); }
MC_REGISTER(units_double_1, unitFull<double, 1, 8>);
MC_REGISTER(units_double_2, unitFull<double, 2, 6>);
MC_REGISTER(units_complex_2, unitFull<cplx, 2, 6>);
MC_REGISTER(units_float_2, unitFull<float, 2, 5>);
MC_REGISTER(units_double_3, unitFull<double, 3, 2>);
MC_REGISTER(units_double_4, unitPermuted<double, 4>);
MC_REGISTER(units_complex_4, unitPermuted<cplx, 4>);
MC_REGISTER_DEEP(units_double_5, unitPermuted<double, 5>);
MC_REGISTER_DEEP(deep_units_double_3, unitFull<double, 3, 3>);

MC_SECTION(unit_entries)
{
	const int64_t n = mc::ipow(3, 9);
	int d[9];
	for (int64_t x = 0; x < n; ++x)
	{
		if (!c.begin({x})) continue;
		mc::digits(x, 3, 9, d);
		Ref<double> a(3, 3);
		for (int i = 0; i < 9; ++i) a.a[i] = d[i] == 2 ? -1 : d[i];
		NOTE("A = %s", a.text().c_str());
		one<double, 3>(c, a);
	}
}

// Inverses from given triangular factors and permutations, without a factorisation
template<template<class> class M, class T, int N, int NV, int ND>
void factors(mc::Ctx& c)
{
	const int off = N * (N - 1) / 2;
	const int64_t n = mc::ipow(NV, off), m = mc::ipow(ND, N);
	static const int dv[] = {1, -2, 0, 4};
	int dl[16], du[16], d2[8];
	for (int64_t x = 0; x < n; ++x) for (int64_t y = 0; y < n; ++y) for (int64_t w = 0; w < m; ++w)
	{
		if (!c.begin({x, y, w})) continue;
		mc::digits(x, NV, off, dl); mc::digits(y, NV, off, du); mc::digits(w, ND, N, d2);
		Ref<T> l(N, N), u(N, N);
		int k = 0;
		bool sing = false;
		for (int i = 0; i < N; ++i)
		{
			for (int j = 0; j < i; ++j, ++k) { l(i, j) = V<T>::v(dl[k]); u(j, i) = V<T>::v(du[k]); }
			l(i, i) = T(1);
			u(i, i) = T(dv[d2[i]]);
			sing = sing || u(i, i) == T(0);
		}
		NOTE("L = %s, U = %s", l.text().c_str(), u.text().c_str());
		const M<T> L = makeM<M<T> >(l), U = makeM<M<T> >(u);
		bool err = false;
		M<T> r((Dimension)N, (Dimension)N);
		try { r = Operations::inverse(L, U); } catch (const SingularException&) { err = true; }
		CK(err == sing, "zero on the diagonal: %d, error: %d", (int)sing, (int)err);
		c.transition();
		if (err) continue;
		c.nontrivial();
		isInverse(c, r, l.mul(u), "", "inverse from L and U");
		std::vector<int> p(N);
		for (int i = 0; i < N; ++i) p[i] = i;
		do
		{
			Ref<T> pr(N, N);
			for (int i = 0; i < N; ++i) pr(i, p[i]) = T(1);
			isInverse(c, Operations::inverse(L, U, makeM<M<T> >(pr)), pr.t().mul(l).mul(u), "", "inverse from L, U and P");
		} while (std::next_permutation(p.begin(), p.end()));
		CK(readM(L) == l && readM(U) == u, "factors are changed");
	}
}
MC_REGISTER(factors_sparse_2, factors<SparseMatrix, double, 2, 7, 4>);
MC_REGISTER(factors_dense_2, factors<DenseMatrix, double, 2, 7, 4>);
MC_REGISTER(factors_complex_2, factors<SparseMatrix, cplx, 2, 7, 4>);
MC_REGISTER(factors_sparse_3, factors<SparseMatrix, double, 3, 3, 3>);
MC_REGISTER(factors_dense_3, factors<DenseMatrix, double, 3, 3, 3>);
MC_REGISTER(factors_complex_3, factors<DenseMatrix, cplx, 3, 2, 3>);
MC_REGISTER(factors_sparse_4, factors<SparseMatrix, double, 4, 2, 1>);

MC_SECTION(not_square)
{
	for (int r = 1; r <= 4; ++r)
		for (int k = 1; k <= 4; ++k)
		{
			if (r == k || !c.begin({r, k})) continue;
			Ref<double> a(r, k);
			for (size_t i = 0; i < a.a.size(); ++i) a.a[i] = V<double>::v(1 + i % 7);
			CK(Operations::determinant(makeS(a)) == 0 && Operations::determinant(makeD(a)) == 0, "determinant of a %dx%d matrix", r, k);
		}
}

}
using namespace vf;

int main(int argc, char** argv)
{
	mc::Meta m;
	m.property = "C10";
	m.level = "exploration";
	m.rule = "a case is a matrix (determinant in three and inverse in two representations, from the matrix and from its factors) or a pair of triangular factors with all permutations; non-trivial: regular";
	m.assumptions = {"entries are small integers or Gaussian integers, the oracle is fraction-free elimination in integers; comparison within 1e-8 (float 2e-2)", "a singular matrix whose elimination is not exact may have an inverse with entries above 1e10; with entries 0, 1, -1 it has to be refused"};
	return mc::main_(argc, argv, m);
}
