// C12: incomplete LU factorisation without fill-in, inverses of triangular factors
#include "square.h"

namespace vf {	// names the library may use as well
using namespace NS;

// A with at() != 0 as its pattern
template<class T, int N> void ilu(mc::Ctx& c, const Ref<T>& a)
{
	// Reference by the definition: row by row elimination restricted to the pattern
	Ref<T> m = a;
	bool zero = false, doubtful = false;
	const double ftol = 1e4 * eps_<T>() * (1 + maxAbs(a));
	double growth = 1;
	for (int i = 1; i < N && !zero; ++i)
		for (int k = 0; k < i && !zero; ++k)
		{
			if (a(i, k) == T(0)) continue;
			if (mag_(m(k, k)) <= eps_<T>()) { zero = true; break; }
			if (mag_(m(k, k)) < 1e-9) doubtful = true;
			m(i, k) /= m(k, k);
			growth = std::max(growth, mag_(m(i, k)));
			for (int j = k + 1; j < N; ++j) if (a(i, j) != T(0)) { m(i, j) -= m(i, k) * m(k, j); growth = std::max(growth, mag_(m(i, j))); }
		}
	if (doubtful) return;	// a pivot that is zero up to rounding
	const SparseMatrix<T> A = makeS(a);
	SparseMatrix<T> L((Dimension)N, (Dimension)N), U((Dimension)N, (Dimension)N);
	bool err = false;
	try { LU::serial::ilu0(A, L, U); } catch (const SingularException&) { err = true; }
	c.transition();
	sameSparse(c, A, a, "input afterwards");
	CK(err == zero, "zero pivot in the elimination of %s: %d, error: %d", a.text().c_str(), (int)zero, (int)err);
	if (err) return;
	c.nontrivial();
	const Ref<T> l = readM(L), u = readM(U), p = l.mul(u);
	CK(l.r == N && l.c == N && u.r == N && u.c == N, "shape of the factors");
	sameSparse(c, L, l, "L");
	sameSparse(c, U, u, "U");
	bool fill = false;
	for (int i = 0; i < N; ++i)
		for (int j = 0; j < N; ++j)
		{
			const bool in = a(i, j) != T(0);
			if (i == j) { CK(l(i, j) == T(1), "L = %s has no unit diagonal", l.text().c_str()); }
			else if (i > j) { CK(in || l(i, j) == T(0), "L = %s leaves the pattern of A at (%d,%d)", l.text().c_str(), i, j); CK(u(i, j) == T(0), "U = %s is not upper triangular", u.text().c_str()); }
			else { CK(in || u(i, j) == T(0), "U = %s leaves the pattern of A at (%d,%d)", u.text().c_str(), i, j); CK(l(i, j) == T(0), "L = %s is not lower triangular", l.text().c_str()); }
			if (in) CK(mag_(p(i, j) - a(i, j)) <= ftol * growth * growth, "L*U = %s differs from A = %s at (%d,%d)", p.text().c_str(), a.text().c_str(), i, j);
			else if (mag_(p(i, j)) > ftol * growth * growth) fill = true;
			// the factors themselves
			CK(mag_((i > j ? l(i, j) : u(i, j)) - m(i, j)) <= ftol * growth * growth || !in, "factors %s and %s, expected %s", l.text().c_str(), u.text().c_str(), m.text().c_str());
		}
	if (!fill) CK(diff(p, a) <= ftol * growth * growth, "L*U = %s, A = %s", p.text().c_str(), a.text().c_str());
	// outputs that held something, also of another shape
	SparseMatrix<T> L2((Dimension)N, (Dimension)N), U2((Dimension)(N + 1), (Dimension)N);
	dirty(L2); dirty(U2);
	LU::serial::ilu0(A, L2, U2);
	sameSparse(c, L2, l, "L in an output that held something");
	sameSparse(c, U2, u, "U in an output that held something");
}
template<class T, int N, int NV, int ND> void values(mc::Ctx& c)
{
	static const int dv[] = {2, -1, 4, 0, 3};
	const int64_t n = mc::ipow(NV, N * N - N), m = mc::ipow(ND, N);
	int d[32], e[8];
	for (int64_t x = 0; x < n; ++x)
		for (int64_t y = 0; y < m; ++y)
		{
			if (!c.begin({x, y})) continue;
			mc::digits(x, NV, N * N - N, d);
			mc::digits(y, ND, N, e);
			Ref<T> a(N, N);
			int k = 0;
			for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) a(i, j) = i == j ? T(dv[e[i]]) : V<T>::v(d[k++]);
			NOTE("A = %s", a.text().c_str());
			ilu<T, N>(c, a);
		}
}
// every pattern with at most E entries off the diagonal; dominant diagonal or not
template<class T, int N, int E> void patterns(mc::Ctx& c)
{
	const int64_t n = mc::ipow(2, N * N - N);
	for (int64_t x = 0; x < n; ++x)
	{
		if (__builtin_popcountll(x) > E) continue;
		for (int y = 0; y < 2; ++y)
		{
			if (!c.begin({x, y})) continue;
			Ref<T> a(N, N);
			int k = 0;
			for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) if (i == j) a(i, j) = T(y ? 8 + i : 1 + i % 3); else { if (x >> k & 1) a(i, j) = V<T>::v(1 + (i * 5 + j * 2) % 7); ++k; }
			NOTE("A = %s", a.text().c_str());
			ilu<T, N>(c, a);
		}
	}
}
MC_REGISTER(ilu_double_2, values<double, 2, 8, 5>);
MC_REGISTER(ilu_double_3, values<double, 3, 4, 4>);
MC_REGISTER(ilu_complex_3, values<cplx, 3, 4, 3>);
MC_REGISTER(ilu_float_3, values<float, 3, 3, 2>);
MC_REGISTER(ilu_long_double_3, values<long double, 3, 3, 2>);
MC_REGISTER(ilu_complex_float_2, values<cplxf, 2, 5, 3>);
MC_REGISTER(ilu_double_4, patterns<double, 4, 12>);
MC_REGISTER(ilu_complex_4, patterns<cplx, 4, 12>);
MC_REGISTER(ilu_double_5, patterns<double, 5, 4>);
MC_REGISTER_DEEP(deep_ilu_double_4, values<double, 4, 3, 1>);
MC_REGISTER_DEEP(deep_ilu_double_3, values<double, 3, 6, 4>);
MC_REGISTER_DEEP(deep_ilu_double_5, patterns<double, 5, 20>);
MC_REGISTER_DEEP(deep_ilu_double_6, patterns<double, 6, 3>);
// Patterns of grids and bands, where there is fill-in in the exact factors
MC_SECTION(ilu_grids)
{
	for (int w = 1; w <= 3; ++w)
		for (int kind = 0; kind < 3; ++kind)
		{
			if (!c.begin({w, kind})) continue;
			Ref<double> a(6, 6);
			for (int i = 0; i < 6; ++i)
				for (int j = 0; j < 6; ++j)
					if (i == j) a(i, j) = 4 + kind;
					else if (kind == 0 ? std::abs(i - j) == w : kind == 1 ? std::abs(i - j) <= w : (i == w || j == w)) a(i, j) = -1 - (i > j);
			NOTE("A = %s", a.text().c_str());
			ilu<double, 6>(c, a);
		}
}

template<class K, class T, int N, int NV, int ND>
void ainv(mc::Ctx& c)
{
	typedef typename K::M M;
	const int off = N * (N - 1) / 2;
	const int64_t n = mc::ipow(NV, off), m = mc::ipow(ND, N);
	static const int dv[] = {1, -2, 0, 4};
	int dl[16], du[16], d2[8];
	for (int64_t x = 0; x < n; ++x) for (int64_t y = 0; y < n; ++y) for (int64_t w = 0; w < m; ++w)
	{
		if (!c.begin({x, y, w})) continue;
		mc::digits(x, NV, off, dl); mc::digits(y, NV, off, du); mc::digits(w, ND, N, d2);
		Ref<T> l(N, N), u(N, N);
		int k = 0;
		bool sing = false;
		for (int i = 0; i < N; ++i)
		{
			for (int j = 0; j < i; ++j, ++k) { l(i, j) = V<T>::v(dl[k]); u(j, i) = V<T>::v(du[k]); }
			l(i, i) = T(1);
			u(i, i) = T(dv[d2[i]]);
			sing = sing || u(i, i) == T(0);
		}
		NOTE("L = %s, U = %s", l.text().c_str(), u.text().c_str());
		const M L = K::make(l), U = K::make(u);
		M iL = K::blank(), iU = K::blank();
		bool err = false;
		try { LU::serial::ainv_lu(L, U, iL, iU); } catch (const SingularException&) { err = true; }
		c.transition();
		CK(err == sing, "%s: zero on the diagonal of U: %d, error: %d", K::name(), (int)sing, (int)err);
		CK(readM(L) == l && readM(U) == u, "%s: factors are changed", K::name());
		if (err) continue;
		c.nontrivial();
		const Ref<T> rl = readM(iL), ru = readM(iU);
		CK(diff(rl.mul(l), Ref<T>::eye(N)) <= 1e-10, "%s: inverse of L = %s is %s", K::name(), l.text().c_str(), rl.text().c_str());
		CK(diff(ru.mul(u), Ref<T>::eye(N)) <= 1e-10, "%s: inverse of U = %s is %s", K::name(), u.text().c_str(), ru.text().c_str());
		dirty(iL); dirty(iU);
		LU::serial::ainv_lu(L, U, iL, iU);
		CK(readM(iL) == rl && readM(iU) == ru, "%s: inverses depend on what the outputs held before: %s %s", K::name(), readM(iL).text().c_str(), readM(iU).text().c_str());
	}
}
MC_REGISTER(ainv_sparse_2, ainv<KS<double, 2>, double, 2, 7, 4>);
MC_REGISTER(ainv_dense_2, ainv<KD<double, 2>, double, 2, 7, 4>);
MC_REGISTER(ainv_fixed_2, ainv<KF<cplx, 2>, cplx, 2, 7, 4>);
MC_REGISTER(ainv_sparse_3, ainv<KS<double, 3>, double, 3, 4, 3>);
MC_REGISTER(ainv_dense_3, ainv<KD<double, 3>, double, 3, 4, 3>);
MC_REGISTER(ainv_fixed_3, ainv<KF<double, 3>, double, 3, 3, 4>);
MC_REGISTER(ainv_complex_3, ainv<KS<cplx, 3>, cplx, 3, 3, 3>);
MC_REGISTER(ainv_sparse_4, ainv<KS<double, 4>, double, 4, 2, 2>);
MC_REGISTER(ainv_dense_4, ainv<KD<double, 4>, double, 4, 2, 1>);
MC_REGISTER_DEEP(ainv_sparse_5, ainv<KS<double, 5>, double, 5, 2, 1>);
MC_REGISTER_DEEP(deep_ainv_sparse_4, ainv<KS<double, 4>, double, 4, 3, 2>);

// Columns of very different size: the factors are L and U*D, their inverses those of L and D^-1 * U^-1
template<class T, int N> void iluUnits(mc::Ctx& c, const Ref<T>& a, int kind)
{
	const Ref<T> as = columnScaled(a, kind);
	SparseMatrix<T> L((Dimension)N, (Dimension)N), U((Dimension)N, (Dimension)N), LS((Dimension)N, (Dimension)N), US((Dimension)N, (Dimension)N);
	try { LU::serial::ilu0(makeS(a), L, U); } catch (const SingularException&) { return; }
	for (int i = 0; i < N; ++i) if (mag_(U.at(i, i)) < 1e-6) return;
	try { LU::serial::ilu0(makeS(as), LS, US); } catch (const SingularException&) { c.fail("no zero pivot in the elimination of %s, but an error", as.text().c_str()); }
	c.transition();
	c.nontrivial();
	const Ref<T> l = readM(L), u = readM(U), ls = readM(LS), us = readM(US);
	const double g = 1e4 * eps_<T>() * (1 + std::max(maxAbs(l), maxAbs(u)));
	for (int i = 0; i < N; ++i)
		for (int j = 0; j < N; ++j)
		{
			const double t = columnScale(kind, j, eps_<T>() > 1e-10), ti = columnScale(kind, i, eps_<T>() > 1e-10);
			CK(mag_(ls(i, j) * T(ti) - l(i, j) * T(ti)) <= g * ti || i == j, "L = %s, expected %s", ls.text().c_str(), l.text().c_str());
			CK(mag_(us(i, j) - u(i, j) * T(t)) <= g * t, "U = %s, expected the columns of %s scaled", us.text().c_str(), u.text().c_str());
		}
}
template<class K, class T, int N> void ainvUnits(mc::Ctx& c, const Ref<T>& l, const Ref<T>& u, int kind)
{
	const Ref<T> us = columnScaled(u, kind);
	typename K::M iL = K::blank(), iU = K::blank();
	dirty(iL); dirty(iU);
	try { LU::serial::ainv_lu(K::make(l), K::make(us), iL, iU); } catch (const SingularException&) { c.fail("%s: no zero on the diagonal of U = %s, but an error", K::name(), us.text().c_str()); }
	c.transition();
	c.nontrivial();
	const Ref<T> rl = readM(iL), ru = readM(iU), p = us.mul(ru);
	CK(diff(rl.mul(l), Ref<T>::eye(N)) <= 1e-10, "%s: inverse of L = %s is %s", K::name(), l.text().c_str(), rl.text().c_str());
	CK(diff(p, Ref<T>::eye(N)) <= 1e-10, "%s: inverse of U = %s is %s", K::name(), us.text().c_str(), ru.text().c_str());
}
template<class T, int N, int NV> void unitsFull(mc::Ctx& c)
{
	eachUnitFull<T, N, NV>(c, [&](const Ref<T>& a, int k)
	{
		iluUnits<T, N>(c, a, k);
		Ref<T> l(N, N), u(N, N);
		for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) if (i > j) l(i, j) = a(i, j); else if (i < j) u(i, j) = a(i, j); else { l(i, i) = T(1); u(i, i) = a(i, i) == T(0) ? T(4) : a(i, i); }
		ainvUnits<KS<T, N>, T, N>(c, l, u, k);
		ainvUnits<KD<T, N>, T, N>(c, l, u, k);
		ainvUnits<KF<T, N>, T, N>(c, l, u, k);
	});
}
MC_REGISTER(units_double_2, unitsFull<double, 2, 7>);
MC_REGISTER(units_complex_2, unitsFull<cplx, 2, 6>);
MC_REGISTER(units_double_3, unitsFull<double, 3, 3>);
MC_REGISTER(units_complex_3, unitsFull<cplx, 3, 2>);

// Larger ones: structured patterns with several diagonals, grids of points with their neighbours
template<class T, int N> void scale(mc::Ctx& c)
{
	for (int k = 0; k < PATTERNS; ++k)
		for (int sh = 0; sh < (N > 40 ? 1 : c.thorough ? 11 : 2); ++sh)
			for (int z = -1; z < N; z += (c.thorough && N < 40) || z < 0 ? 1 : N - 1)
			{
				if (N > 40 && k != 1 && k != 4 && k != 9 && k != 13) continue;
				if (!c.begin({0, k, sh, z})) continue;
				Ref<T> a = patterned<T>(k, N, N, sh);
				for (int i = 0; i < N; ++i) a(i, i) = T((i + sh) % 3 == 1 ? -(8 * N + i) : 8 * N + i);
				if (z >= 0) a(z, z) = T(0);
				NOTE("A = %s", a.text().c_str());
				ilu<T, N>(c, a);
			}
	for (int w = 2; w < N; w += N > 40 ? N / 3 : 1)
		for (int kind = 0; kind < 4; ++kind)
		{
			if (!c.begin({1, w, kind})) continue;
			Ref<T> a(N, N);
			for (int i = 0; i < N; ++i)
				for (int j = 0; j < N; ++j)
				{
					const int dx = std::abs(i % w - j % w), dy = std::abs(i / w - j / w);
					if (i == j) a(i, j) = T(kind == 3 ? 3 : 8 + kind);
					else if (kind == 0 ? dx + dy == 1 : kind == 1 ? dx <= 1 && dy <= 1 : kind == 2 ? std::abs(i - j) == w || std::abs(i - j) == 1 : std::abs(i - j) == w) a(i, j) = T(-1 - (i > j) * (i % 2));
				}
			NOTE("A = %s", a.text().c_str());
			ilu<T, N>(c, a);
		}
}
MC_REGISTER(scale_double_8, scale<double, 8>);
MC_REGISTER(scale_double_12, scale<double, 12>);
MC_REGISTER(scale_double_20, scale<double, 20>);
MC_REGISTER(scale_complex_9, scale<cplx, 9>);
MC_REGISTER(scale_double_34, scale<double, 34>);
MC_REGISTER(large_double_70, scale<double, 70>);
MC_REGISTER(large_complex_50, scale<cplx, 50>);
MC_REGISTER(large_double_140, scale<double, 140>);
MC_REGISTER(large_double_270, scale<double, 270>);
template<class K, class T, int N> void scaleInverse(mc::Ctx& c)
{
	typedef typename K::M M;
	for (int k = 0; k < PATTERNS + 1; ++k)
		for (int sh = 0; sh < (N > 40 ? 1 : c.thorough ? 11 : 2); ++sh)
			for (int z = -1; z < N; z += (c.thorough && N < 40) || z < 0 ? 1 : N - 1)
			{
				if (N > 40 && k < PATTERNS && k != 1 && k != 4 && k != 9 && k != 13) continue;
				if (!c.begin({k, sh, z})) continue;
				// a dominant diagonal in U, and L close to the unit matrix; unit bidiagonal ones for the last
				Ref<T> l(N, N), u(N, N);
				for (int i = 0; i < N; ++i)
					for (int j = 0; j < N; ++j)
						if (i > j) l(i, j) = k < PATTERNS ? (inPattern(k, N, N, i, j) ? V<T>::v(1 + (i + j * 2 + sh) % 11) / T(64) : T(0)) : T(i == j + 1 ? ((i + sh) % 2 ? 1 : -1) : 0);
						else if (i < j) u(i, j) = k < PATTERNS ? (inPattern(k, N, N, i, j) ? V<T>::v(1 + (i * 3 + j * 2 + sh) % 11) : T(0)) : T(j == i + 1 ? ((i + sh) % 3 ? 1 : -1) : 0);
						else { l(i, i) = T(1); u(i, i) = i == z ? T(0) : T(k < PATTERNS ? 8 * N + i : 1); }
				NOTE("L = %s, U = %s", l.text().c_str(), u.text().c_str());
				const M L = K::make(l), U = K::make(u);
				M iL = K::blank(), iU = K::blank();
				bool err = false;
				try { LU::serial::ainv_lu(L, U, iL, iU); } catch (const SingularException&) { err = true; }
				c.transition();
				CK(err == (z >= 0), "%s: zero on the diagonal of U: %d, error: %d", K::name(), z, (int)err);
				CK(readM(L) == l && readM(U) == u, "%s: factors are changed", K::name());
				if (err) continue;
				c.nontrivial();
				const Ref<T> rl = readM(iL), ru = readM(iU);
				CK(diff(rl.mul(l), Ref<T>::eye(N)) <= 1e-10, "%s: inverse of L = %s is %s", K::name(), l.text().c_str(), rl.text().c_str());
				CK(diff(ru.mul(u), Ref<T>::eye(N)) <= 1e-10, "%s: inverse of U = %s is %s", K::name(), u.text().c_str(), ru.text().c_str());
			}
}
MC_REGISTER(scale_ainv_sparse_8, scaleInverse<KS<double, 8>, double, 8>);
MC_REGISTER(scale_ainv_sparse_18, scaleInverse<KS<double, 18>, double, 18>);
MC_REGISTER(scale_ainv_dense_12, scaleInverse<KD<cplx, 12>, cplx, 12>);
MC_REGISTER(large_ainv_sparse_45, scaleInverse<KS<double, 45>, double, 45>);
MC_REGISTER(large_ainv_dense_70, scaleInverse<KD<double, 70>, double, 70>);
MC_REGISTER(large_ainv_dense_140, scaleInverse<KD<double, 140>, double, 140>);
MC_REGISTER(scale_ainv_fixed_9, scaleInverse<KF<double, 9>, double, 9>);

}
using namespace vf;

int main(int argc, char** argv)
{
	mc::Meta m;
	m.property = "C12";
	m.level = "exploration";
	m.rule = "a case is a sparse matrix for the incomplete factorisation or a pair of triangular factors for the inverses, also with outputs that held something; non-trivial: no zero pivot";
	m.assumptions = {"entries are small integers or Gaussian integers, comparison within rounding scaled by the growth of the factors; cases with a pivot of the size of rounding errors are skipped"};
	return mc::main_(argc, argv, m);
}
