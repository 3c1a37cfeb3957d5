// C09: LU factorisation with partial pivoting, substitution
#include "square.h"

namespace vf {	// names the library may use as well
using namespace NS;

template<class T> bool unitEntries(const Ref<T>& a) { for (auto& x : a.a) if (!(x == T(0) || x == T(1) || x == T(-1))) return false; return a.r <= 3; }

template<class K, class T, int N>
void check(mc::Ctx& c, const Ref<T>& a, bool solve, bool known = false)
{
	typedef typename K::M M;
	const bool regular = known || !exactDet(a).zero();
	const double tol = (sizeof(typename get_complex_internal<T>::type) == 4 ? 2e-2 : 1e-9), ftol = 1000 * eps_<T>() * (1 + maxAbs(a)) * (1 + N / 16);
	const M m = K::make(a);
	M L = K::blank(), U = K::blank(), P = K::blank();
	size_t count = 12345;
	bool refused = false;
	try { LU::serial::doolittle(m, L, U, P, &count); }
	catch (const SingularException&) { refused = true; }
	CK(readM(m) == a, "%s: factorisation changes its input", K::name());
	c.transition();
	if (refused) { CK(!regular, "%s: a regular matrix is reported as singular: %s", K::name(), a.text().c_str()); return; }

	const Ref<T> l = readM(L), u = readM(U), p = readM(P);
	Ref<T> pa(N, N);
	int perm[N];
	std::vector<bool> seen(N);
	for (int i = 0; i < N; ++i)
	{
		int at = -1, n = 0;
		for (int j = 0; j < N; ++j)
		{
			if (p(i, j) == T(1)) at = j;
			if (p(i, j) != T(0)) ++n;
			if (j > i) CK(l(i, j) == T(0), "%s: lower factor %s of %s", K::name(), l.text().c_str(), a.text().c_str());
			if (j == i) CK(l(i, j) == T(1), "%s: lower factor %s of %s", K::name(), l.text().c_str(), a.text().c_str());
			if (j < i) CK(mag_(l(i, j)) <= 1 + 100 * eps_<T>(), "%s: multiplier above one in %s of %s", K::name(), l.text().c_str(), a.text().c_str());
			if (j < i) CK(mag_(u(i, j)) <= ftol, "%s: upper factor %s of %s", K::name(), u.text().c_str(), a.text().c_str());
		}
		CK(n == 1 && at >= 0 && !seen[at], "%s: permutation %s of %s", K::name(), p.text().c_str(), a.text().c_str());
		seen[at] = true;
		perm[i] = at;
		for (int j = 0; j < N; ++j) pa(i, j) = a(at, j);
	}
	int inv = 0;
	for (int i = 0; i < N; ++i) for (int j = i + 1; j < N; ++j) inv += perm[i] > perm[j];
	CK(inv % 2 == (int)(count % 2) && count < (size_t)(N ? N : 1), "%s: %d exchanges counted, the permutation has %d inversions", K::name(), (int)count, inv);
	CK(diff(l.mul(u), pa) <= ftol, "%s: L*U = %s, P*A = %s", K::name(), l.mul(u).text().c_str(), pa.text().c_str());

	// outputs that held something before; without the count
	M L2 = K::blank(), U2 = K::blank(), P2 = K::blank();
	dirty(L2); dirty(U2); dirty(P2);
	LU::serial::doolittle(m, L2, U2, P2);
	CK(readM(L2) == l && readM(U2) == u && readM(P2) == p, "%s: factors depend on what the outputs held before: %s", K::name(), readM(L2).text().c_str());

	double low = INFINITY;
	for (int i = 0; i < N; ++i) low = std::min(low, mag_(u(i, i)));
	if (!regular)
	{
		// Exactly singular, maybe up to the rounding of the elimination
		CK(low <= (unitEntries(a) ? 0 : ftol), "%s: singular matrix %s has pivots %s", K::name(), a.text().c_str(), u.text().c_str());
	}
	if (!solve) return;
	if (regular) c.nontrivial();
	for (int k = 0; k <= N; k += N > 40 && k < N - 1 ? N / 2 - 1 : 1)
	{
		DynamicVector<T> x0(N), b(N);
		FixedVector<T, N> fb;
		std::vector<T> w(N, T(0));
		for (int i = 0; i < N; ++i) x0.set(i, k < N ? T(i == k ? 1 : 0) : V<T>::v(1 + i));
		for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) w[i] += a(perm[i], j) * x0.at(j);
		for (int i = 0; i < N; ++i) { b.set(i, w[i]); fb.set(i, w[i]); }
		bool err = false;
		DynamicVector<T> x(N);
		try { x = LU::serial::solve_lu(L, U, b); }
		catch (const SingularException&) { err = true; }
		if (err) { CK(low <= eps_<T>(), "%s: a regular system is reported as singular: %s", K::name(), a.text().c_str()); continue; }
		CK(regular || low > eps_<T>(), "%s: solution of the singular system %s", K::name(), a.text().c_str());
		if (!regular) continue;
		for (int i = 0; i < N; ++i)
		{
			CK(mag_(x.at(i) - x0.at(i)) <= tol, "%s: element %d of the solution of %s is %s instead of %s", K::name(), i, a.text().c_str(), str(x.at(i)).c_str(), str(x0.at(i)).c_str());
			CK(b.at(i) == w[i], "%s: substitution changes the right-hand side", K::name());
		}
		const FixedVector<T, N> fx = LU::serial::solve_lu(L, U, fb);
		for (int q = -30; k == N && q <= 30; q += 60)	// in other units
		{
			const double unit = std::ldexp(1.0, q);
			DynamicVector<T> bs(N);
			for (int i = 0; i < N; ++i) bs.set(i, w[i] * T(unit));
			const DynamicVector<T> xs = LU::serial::solve_lu(L, U, bs);
			for (int i = 0; i < N; ++i) CK(mag_(xs.at(i) / T(unit) - x0.at(i)) <= tol, "%s: element %d of the solution of %s is %s instead of %s times %g", K::name(), i, a.text().c_str(), str(xs.at(i)).c_str(), str(x0.at(i)).c_str(), unit);
		}
		for (int i = 0; i < N; ++i) CK(mag_(fx.at(i) - x.at(i)) <= tol, "%s: fixed and dynamic right-hand side give different solutions", K::name());
	}
	CK(readM(L) == l && readM(U) == u, "%s: substitution changes the factors", K::name());
}
template<class T, int N> void three(mc::Ctx& c, const Ref<T>& a)
{
	check<KS<T, N>, T, N>(c, a, true);
	check<KD<T, N>, T, N>(c, a, true);
	check<KF<T, N>, T, N>(c, a, true);
}
template<class T, int N, int NV> void full(mc::Ctx& c) { eachFull<T, N, NV>(c, [&](const Ref<T>& a) { three<T, N>(c, a); }); }
template<class T, int N, int F, int S> void pattern(mc::Ctx& c) { eachPattern<T, N>(c, [&](const Ref<T>& a) { three<T, N>(c, a); }, F, S); }
template<class T, int N, int E> void permuted(mc::Ctx& c) { eachPermuted<T, N>(c, E, [&](const Ref<T>& a) { three<T, N>(c, a); }); }

MC_REGISTER(double_1, full<double, 1, 11>);
MC_REGISTER(complex_1, full<cplx, 1, 11>);
MC_REGISTER(double_2, full<double, 2, 9>);
MC_REGISTER(complex_2, full<cplx, 2, 9>);
MC_REGISTER(float_2, full<float, 2, 6>);
MC_REGISTER(double_3, full<double, 3, 3>);
MC_REGISTER(complex_3, full<cplx, 3, 3>);
MC_REGISTER(float_3, full<float, 3, 3>);
MC_REGISTER(long_double_3, full<long double, 3, 3>);
MC_REGISTER(complexf_2, full<cplxf, 2, 6>);
MC_REGISTER(double_4a, pattern<double, 4, 0, 2>);
MC_REGISTER(double_4b, pattern<double, 4, 1, 2>);
MC_REGISTER(double_5, permuted<double, 5, 2>);
MC_REGISTER(complex_4, permuted<cplx, 4, 2>);
MC_REGISTER(double_6, permuted<double, 6, 1>);
MC_REGISTER_DEEP(deep_complex_4a, pattern<cplx, 4, 0, 2>);
MC_REGISTER_DEEP(deep_complex_4b, pattern<cplx, 4, 1, 2>);
MC_REGISTER_DEEP(deep_double_3, full<double, 3, 5>);
MC_REGISTER_DEEP(deep_complex_3, full<cplx, 3, 4>);
MC_REGISTER_DEEP(deep_double_5, permuted<double, 5, 3>);
MC_REGISTER_DEEP(deep_double_6, permuted<double, 6, 2>);
MC_REGISTER_DEEP(deep_double_7, permuted<double, 7, 1>);

template<class T, int N> void scale(mc::Ctx& c) { eachScaled<T, N>(c, [&](const Ref<T>& a) { check<KS<T, N>, T, N>(c, a, true, true); check<KD<T, N>, T, N>(c, a, true, true); check<KF<T, N>, T, N>(c, a, true, true); }); }
MC_REGISTER(scale_double_8, scale<double, 8>);
MC_REGISTER(scale_double_13, scale<double, 13>);
MC_REGISTER(scale_complex_9, scale<cplx, 9>);
MC_REGISTER(scale_double_20, scale<double, 20>);
MC_REGISTER(scale_double_34, scale<double, 34>);
MC_REGISTER(large_double_70, scale<double, 70>);
MC_REGISTER(large_complex_50, scale<cplx, 50>);
MC_REGISTER(large_double_140, scale<double, 140>);
MC_REGISTER(large_float_66, scale<float, 66>);
template<class K, class T, int N> void scaleOf(mc::Ctx& c) { eachScaled<T, N>(c, [&](const Ref<T>& a) { check<K, T, N>(c, a, true, true); }); }
MC_REGISTER(large_sparse_270, scaleOf<KS<double, 270>, double, 270>);
MC_REGISTER(large_dense_270, scaleOf<KD<double, 270>, double, 270>);
MC_REGISTER(large_fixed_270, scaleOf<KF<double, 270>, double, 270>);

// Columns of very different size: the factorisation does not depend on them
template<class K, class T, int N> void unitCheck(mc::Ctx& c, const Ref<T>& a, int kind)
{
	typedef typename K::M M;
	const bool single = eps_<T>() > 1e-10;
	const double tol = single ? 2e-2 : 1e-9, ftol = 1000 * eps_<T>() * (1 + maxAbs(a));
	std::vector<double> t(N);
	for (int j = 0; j < N; ++j) t[j] = columnScale(kind, j, single);
	const Ref<T> as = columnScaled(a, kind);
	const M m = K::make(as);
	M L = K::blank(), U = K::blank(), P = K::blank();
	try { LU::serial::doolittle(m, L, U, P); }
	catch (const SingularException&) { c.fail("%s: a regular matrix is reported as singular: %s", K::name(), as.text().c_str()); }
	c.transition();
	const Ref<T> l = readM(L), u = readM(U), pa = readM(P).mul(as), lu = l.mul(u), p = readM(P);
	for (int i = 0; i < N; ++i)
		for (int j = 0; j < N; ++j)
		{
			CK(j < i || l(i, j) == T(i == j ? 1 : 0), "%s: lower factor %s of %s", K::name(), l.text().c_str(), as.text().c_str());
			CK(j >= i || (mag_(l(i, j)) <= 1 + 100 * eps_<T>() && mag_(u(i, j)) <= ftol * t[j]), "%s: factors %s and %s of %s", K::name(), l.text().c_str(), u.text().c_str(), as.text().c_str());
			CK(mag_(lu(i, j) - pa(i, j)) <= ftol * t[j], "%s: L*U = %s, P*A = %s", K::name(), lu.text().c_str(), pa.text().c_str());
		}
	c.nontrivial();
	for (int k = 0; k <= N; ++k)
	{
		std::vector<T> x0(N), w(N, T(0));
		DynamicVector<T> b(N);
		for (int i = 0; i < N; ++i) x0[i] = k < N ? T(i == k ? 1 : 0) : V<T>::v(1 + i);
		for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) w[i] += a(i, j) * x0[j];
		for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) if (p(i, j) != T(0)) b.set(i, w[j]);
		DynamicVector<T> x(N);
		try { x = LU::serial::solve_lu(L, U, b); }
		catch (const SingularException&) { c.fail("%s: a regular system is reported as singular: %s", K::name(), as.text().c_str()); }
		for (int i = 0; i < N; ++i) CK(mag_(x.at(i) * T(t[i]) - x0[i]) <= tol, "%s: element %d of the solution of %s is %s instead of %s", K::name(), i, as.text().c_str(), str(x.at(i)).c_str(), str(x0[i] / T(t[i])).c_str());
	}
}
template<class T, int N> void unitThree(mc::Ctx& c, const Ref<T>& a, int kind) { unitCheck<KS<T, N>, T, N>(c, a, kind); unitCheck<KD<T, N>, T, N>(c, a, kind); unitCheck<KF<T, N>, T, N>(c, a, kind); }
template<class T, int N, int NV> void unitFull(mc::Ctx& c) { eachUnitFull<T, N, NV>(c, [&](const Ref<T>& a, int k) { unitThree<T, N>(c, a, k); }); }
template<class T, int N> void unitPermuted(mc::Ctx& c) { eachUnitPermuted<T, N>(c, [&](const Ref<T>& a, int k) { unitThree<T, N>(c, a, k); }); }
MC_REGISTER(units_double_2, unitFull<double, 2, 6>);
MC_REGISTER(units_complex_2, unitFull<cplx, 2, 6>);
MC_REGISTER(units_float_2, unitFull<float, 2, 5>);
MC_REGISTER(units_double_3, unitFull<double, 3, 2>);
MC_REGISTER(units_double_4, unitPermuted<double, 4>);
MC_REGISTER(units_complex_4, unitPermuted<cplx, 4>);
MC_REGISTER_DEEP(units_double_5, unitPermuted<double, 5>);
MC_REGISTER_DEEP(deep_units_double_3, unitFull<double, 3, 3>);

// 0, 1, -1 only: all arithmetic is exact, so that singular matrices have to be detected exactly
MC_SECTION(unit_entries)
{
	const int64_t n = mc::ipow(3, 9);
	int d[9];
	for (int64_t x = 0; x < n; ++x)
	{
		if (!c.begin({x})) continue;
		mc::digits(x, 3, 9, d);
		Ref<double> a(3, 3);
		for (int i = 0; i < 9; ++i) a.a[i] = d[i] == 2 ? -1 : d[i];
		NOTE("A = %s", a.text().c_str());
		three<double, 3>(c, a);
	}
}

// Substitution with given triangular factors: all of them
template<class K, class T, int N, int NV, int ND>
void triangular(mc::Ctx& c)
{
	const int off = N * (N - 1) / 2;
	const int64_t n = mc::ipow(NV, off), m = mc::ipow(ND, N);
	static const int dv[] = {1, -2, 0, 4};
	int dl[16], du[16], d1[8], d2[8];
	for (int64_t x = 0; x < n; ++x) for (int64_t y = 0; y < n; ++y) for (int64_t z = 0; z < m; ++z) for (int64_t w = 0; w < m; ++w)
	{
		if (!c.begin({x, y, z, w})) continue;
		mc::digits(x, NV, off, dl); mc::digits(y, NV, off, du); mc::digits(z, ND, N, d1); mc::digits(w, ND, N, d2);
		Ref<T> l(N, N), u(N, N);
		int k = 0;
		bool sing = false;
		for (int i = 0; i < N; ++i)
		{
			for (int j = 0; j < i; ++j, ++k) { l(i, j) = V<T>::v(dl[k]); u(j, i) = V<T>::v(du[k]); }
			l(i, i) = T(dv[d1[i]]);
			u(i, i) = T(dv[d2[i]]);
			sing = sing || l(i, i) == T(0) || u(i, i) == T(0);
		}
		NOTE("L = %s, U = %s", l.text().c_str(), u.text().c_str());
		const Ref<T> a = l.mul(u);
		std::vector<T> x0(N);
		DynamicVector<T> b(N);
		for (int i = 0; i < N; ++i) x0[i] = V<T>::v(1 + (i * 3) % 5);
		for (int i = 0; i < N; ++i) { T s(0); for (int j = 0; j < N; ++j) s += a(i, j) * x0[j]; b.set(i, s); }
		bool err = false;
		DynamicVector<T> r(N);
		try { r = LU::serial::solve_lu(K::make(l), K::make(u), b); } catch (const SingularException&) { err = true; }
		CK(err == sing, "%s: zero on a diagonal %s, error %d", K::name(), sing ? "present" : "absent", (int)err);
		c.transition();
		for (int q = -40; !err && q <= 40; q += 80)	// in other units
		{
			DynamicVector<T> bs(N);
			for (int i = 0; i < N; ++i) bs.set(i, b.at(i) * T(std::ldexp(1.0, q)));
			const DynamicVector<T> rs = LU::serial::solve_lu(K::make(l), K::make(u), bs);
			for (int i = 0; i < N; ++i) CK(rs.at(i) == x0[i] * T(std::ldexp(1.0, q)), "%s: element %d is %s instead of %s times %g", K::name(), i, str(rs.at(i)).c_str(), str(x0[i]).c_str(), std::ldexp(1.0, q));
		}
		if (!err) { c.nontrivial(); for (int i = 0; i < N; ++i) CK(r.at(i) == x0[i], "%s: element %d is %s instead of %s", K::name(), i, str(r.at(i)).c_str(), str(x0[i]).c_str()); }
	}
}
MC_REGISTER(tri_sparse_2, triangular<KS<double, 2>, double, 2, 6, 4>);
MC_REGISTER(tri_dense_2, triangular<KD<double, 2>, double, 2, 6, 4>);
MC_REGISTER(tri_fixed_2, triangular<KF<cplx, 2>, cplx, 2, 6, 4>);
MC_REGISTER(tri_sparse_3, triangular<KS<double, 3>, double, 3, 3, 3>);
MC_REGISTER(tri_dense_3, triangular<KD<double, 3>, double, 3, 3, 3>);
MC_REGISTER(tri_complex_3, triangular<KS<cplx, 3>, cplx, 3, 4, 1>);
MC_REGISTER(tri_sparse_4, triangular<KS<double, 4>, double, 4, 2, 2>);
MC_REGISTER_DEEP(deep_tri_sparse_4, triangular<KS<double, 4>, double, 4, 2, 3>);

}
using namespace vf;

int main(int argc, char** argv)
{
	mc::Meta m;
	m.property = "C09";
	m.level = "exploration";
	m.rule = "a case is a matrix (factorised in three representations and solved for N+1 right-hand sides) or a pair of triangular factors; non-trivial: regular";
	m.assumptions = {"entries are small integers or Gaussian integers, up to size 40 all families, beyond that (70, 140) some of them; factors are compared within 1000 units of rounding, solutions within 1e-9 (float 2e-2)", "a singular matrix whose elimination is not exact may be found by a pivot within rounding of zero; with entries 0, 1, -1 it has to be found exactly"};
	return mc::main_(argc, argv, m);
}
