// C11: Cholesky factorisation
#include "square.h"

namespace vf {	// names the library may use as well
using namespace NS;

template<class T> Ref<T> lead(const Ref<T>& a, int k) { Ref<T> x(k, k); for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) x(i, j) = a(i, j); return x; }

template<class K, class T, int N>
void check(mc::Ctx& c, const Ref<T>& a, int failing, long long minor)
{
	typedef typename K::M M;
	const double ftol = 1000 * eps_<T>() * (1 + maxAbs(a));
	const M m = K::make(a);
	M L = K::blank();
	bool refused = false;
	try { LU::serial::cholesky(m, L); } catch (const NotPositiveDefiniteException&) { refused = true; }
	CK(readM(m) == a, "%s: factorisation changes its input", K::name());
	c.transition();
	if (failing)
	{
		if (refused) return;
		const double p = mag_(L.at(failing - 1, failing - 1));
		CK(minor == 0 && p <= std::sqrt(ftol), "%s: %s is not positive definite (leading minor %d is %lld) but accepted with the factor %s", K::name(), a.text().c_str(), failing, minor, readM(L).text().c_str());
		return;
	}
	CK(!refused, "%s: positive definite matrix %s is refused", K::name(), a.text().c_str());
	const Ref<T> l = readM(L);
	for (int i = 0; i < N; ++i)
	{
		CK(std::real(l(i, i)) > 0 && std::abs(std::imag(l(i, i))) <= ftol, "%s: diagonal of the factor %s", K::name(), l.text().c_str());
		for (int j = i + 1; j < N; ++j) CK(l(i, j) == T(0), "%s: factor %s is not lower triangular", K::name(), l.text().c_str());
	}
	CK(diff(l.mul(adj_(l)), a) <= ftol, "%s: factor of %s is %s, its product %s", K::name(), a.text().c_str(), l.text().c_str(), l.mul(adj_(l)).text().c_str());
	M L2 = K::blank();
	dirty(L2);
	LU::serial::cholesky(m, L2);
	CK(readM(L2) == l, "%s: factor depends on what the output held before: %s", K::name(), readM(L2).text().c_str());
	LU::serial::cholesky(m, L2);
	CK(readM(L2) == l, "%s: factor depends on what the output held before: %s", K::name(), readM(L2).text().c_str());
	c.nontrivial();
}
template<class T, int N> void three(mc::Ctx& c, const Ref<T>& a)
{
	int failing = 0;
	long long minor = 0;
	for (int k = 1; k <= N && !failing; ++k)
	{
		const GI d = exactDet(lead(a, k));
		if (d.re <= 0) { failing = k; minor = d.re; }
	}
	check<KS<T, N>, T, N>(c, a, failing, minor);
	check<KD<T, N>, T, N>(c, a, failing, minor);
	check<KF<T, N>, T, N>(c, a, failing, minor);
}
// Every Hermitian matrix with a diagonal from a table and lower entries from another
template<class T, int N, int ND, int NO, int SCALE>
void all(mc::Ctx& c)
{
	static const int dv[] = {4, 1, -1, 0, 2, 9, 3, -4};
	const int off = N * (N - 1) / 2;
	const int64_t n = mc::ipow(ND, N), m = mc::ipow(NO, off);
	int d[8], o[32];
	for (int64_t x = 0; x < n; ++x)
		for (int64_t y = 0; y < m; ++y)
		{
			if (!c.begin({x, y})) continue;
			mc::digits(x, ND, N, d);
			mc::digits(y, NO, off, o);
			Ref<T> a(N, N);
			int k = 0;
			for (int i = 0; i < N; ++i)
			{
				a(i, i) = T(dv[d[i]] * SCALE);
				for (int j = 0; j < i; ++j, ++k) { a(i, j) = V<T>::v(o[k]); a(j, i) = NS::complex_conj(a(i, j)); }
			}
			NOTE("A = %s", a.text().c_str());
			three<T, N>(c, a);
		}
}
MC_REGISTER(double_1, all<double, 1, 8, 1, 1>);
MC_REGISTER(double_2, all<double, 2, 8, 9, 1>);
MC_REGISTER(complex_2, all<cplx, 2, 8, 11, 1>);
MC_REGISTER(float_2, all<float, 2, 8, 9, 1>);
MC_REGISTER(long_double_2, all<long double, 2, 8, 9, 1>);
MC_REGISTER(complex_float_2, all<cplxf, 2, 6, 7, 1>);
MC_REGISTER(double_3, all<double, 3, 6, 6, 1>);
MC_REGISTER(complex_3, all<cplx, 3, 5, 8, 2>);
MC_REGISTER(complexf_3, all<cplxf, 3, 3, 5, 2>);
MC_REGISTER(double_4, all<double, 4, 3, 4, 2>);
MC_REGISTER(complex_4, all<cplx, 4, 2, 4, 3>);
MC_REGISTER(double_5, all<double, 5, 2, 2, 3>);
MC_REGISTER_DEEP(deep_double_4, all<double, 4, 4, 5, 2>);
MC_REGISTER_DEEP(deep_complex_4, all<cplx, 4, 2, 7, 3>);
MC_REGISTER_DEEP(deep_double_5, all<double, 5, 2, 3, 3>);

// G * G^H for every lower triangular G
template<class T, int N, int NO>
void products(mc::Ctx& c)
{
	const int off = N * (N - 1) / 2;
	const int64_t m = mc::ipow(NO, off);
	int o[32];
	for (int64_t x = 0; x < (1 << N); ++x)
		for (int64_t y = 0; y < m; ++y)
		{
			if (!c.begin({x, y})) continue;
			mc::digits(y, NO, off, o);
			Ref<T> g(N, N);
			int k = 0;
			for (int i = 0; i < N; ++i)
			{
				g(i, i) = T(1 + (int)(x >> i & 1));
				for (int j = 0; j < i; ++j, ++k) g(i, j) = V<T>::v(o[k]);
			}
			NOTE("G = %s", g.text().c_str());
			three<T, N>(c, g.mul(adj_(g)));
			SparseMatrix<T> L((Dimension)N, (Dimension)N);
			LU::serial::cholesky(makeS(g.mul(adj_(g))), L);
			CK(diff(readM(L), g) <= 1e-9, "factor of G*G^H is %s instead of G = %s", readM(L).text().c_str(), g.text().c_str());
		}
}
MC_REGISTER(products_double_3, products<double, 3, 7>);
MC_REGISTER(products_complex_3, products<cplx, 3, 8>);
MC_REGISTER(products_double_4, products<double, 4, 4>);
MC_REGISTER(products_complex_4, products<cplx, 4, 3>);
MC_REGISTER(products_double_5, products<double, 5, 2>);
MC_REGISTER_DEEP(products_double_6, products<double, 6, 2>);

// Rows and columns of very different size: D*A*D has the factor D*L
template<class K, class T, int N> void unitCheck(mc::Ctx& c, const Ref<T>& a, int failing, long long minor, int kind)
{
	typedef typename K::M M;
	const bool single = eps_<T>() > 1e-10;
	const double ftol = 1000 * eps_<T>() * (1 + maxAbs(a));
	std::vector<double> t(N);
	for (int j = 0; j < N; ++j) t[j] = columnScale(kind, j, single);
	Ref<T> as = a;
	for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) as(i, j) = a(i, j) * T(t[i]) * T(t[j]);
	const M m = K::make(as);
	M L = K::blank();
	bool refused = false;
	try { LU::serial::cholesky(m, L); } catch (const NotPositiveDefiniteException&) { refused = true; }
	c.transition();
	if (failing) { CK(refused || minor == 0, "%s: %s is not positive definite but accepted with the factor %s", K::name(), as.text().c_str(), readM(L).text().c_str()); return; }
	CK(!refused, "%s: positive definite matrix %s is refused", K::name(), as.text().c_str());
	const Ref<T> l = readM(L), p = l.mul(adj_(l));
	for (int i = 0; i < N; ++i)
		for (int j = 0; j < N; ++j)
		{
			CK(i != j || (std::real(l(i, i)) > 0 && std::abs(std::imag(l(i, i))) <= ftol * t[i]), "%s: diagonal of the factor %s", K::name(), l.text().c_str());
			CK(j <= i || l(i, j) == T(0), "%s: factor %s is not lower triangular", K::name(), l.text().c_str());
			CK(mag_(p(i, j) - as(i, j)) <= ftol * t[i] * t[j], "%s: factor of %s is %s", K::name(), as.text().c_str(), l.text().c_str());
		}
	c.nontrivial();
}
template<class T, int N, int ND, int NO, int SCALE> void units(mc::Ctx& c)
{
	static const int dv[] = {4, 1, -1, 0, 2, 9, 3, -4};
	const int off = N * (N - 1) / 2;
	const int64_t n = mc::ipow(ND, N), m = mc::ipow(NO, off);
	int d[8], o[32];
	for (int64_t x = 0; x < n; ++x)
		for (int64_t y = 0; y < m; ++y)
			for (int kind = 0; kind < SCALES; ++kind)
			{
				if (!c.begin({x, y, kind})) continue;
				mc::digits(x, ND, N, d);
				mc::digits(y, NO, off, o);
				Ref<T> a(N, N);
				int k = 0, failing = 0;
				for (int i = 0; i < N; ++i)
				{
					a(i, i) = T(dv[d[i]] * SCALE);
					for (int j = 0; j < i; ++j, ++k) { a(i, j) = V<T>::v(o[k]); a(j, i) = NS::complex_conj(a(i, j)); }
				}
				long long minor = 0;
				for (k = 1; k <= N && !failing; ++k) { const GI e = exactDet(lead(a, k)); if (e.re <= 0) { failing = k; minor = e.re; } }
				NOTE("A = %s, scale %d", a.text().c_str(), kind);
				unitCheck<KS<T, N>, T, N>(c, a, failing, minor, kind);
				unitCheck<KD<T, N>, T, N>(c, a, failing, minor, kind);
				unitCheck<KF<T, N>, T, N>(c, a, failing, minor, kind);
			}
}
MC_REGISTER(units_double_2, units<double, 2, 6, 7, 1>);
MC_REGISTER(units_complex_2, units<cplx, 2, 6, 7, 1>);
MC_REGISTER(units_float_2, units<float, 2, 6, 7, 1>);
MC_REGISTER(units_double_3, units<double, 3, 3, 4, 1>);
MC_REGISTER(units_complex_3, units<cplx, 3, 3, 4, 2>);
MC_REGISTER(units_double_4, units<double, 4, 2, 3, 2>);

// Larger matrices: structured patterns with a dominant diagonal, one late entry of it negative for
// some of them, and products of bidiagonal and arrow shaped factors
template<class T, int N> void scale(mc::Ctx& c)
{
	auto run = [&](const Ref<T>& a, int failing)
	{
		NOTE("A = %s", a.text().c_str());
		check<KS<T, N>, T, N>(c, a, failing, -1);
		check<KD<T, N>, T, N>(c, a, failing, -1);
		check<KF<T, N>, T, N>(c, a, failing, -1);
	};
	for (int k = 0; k < PATTERNS; ++k)
		for (int sh = 0; sh < (N > 40 ? 1 : c.thorough ? 11 : 2); ++sh)
			for (int bad = -1; bad < N; ++bad)
			{
				if (N > 40 && ((k != 1 && k != 4 && k != 9 && k != 13) || (bad > 0 && bad != N - 1 && bad != N / 2))) continue;
				if (!c.thorough && bad > 0 && bad != N / 2 && bad < N - 2) continue;
				if (!c.begin({0, k, sh, bad})) continue;
				Ref<T> a(N, N);
				const Ref<T> p = patterned<T>(k, N, N, sh);
				for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) { a(i, j) = p(i, j); a(j, i) = NS::complex_conj(a(i, j)); }
				for (int i = 0; i < N; ++i) a(i, i) = T((8 * N + i) * (i == bad ? -1 : 1));
				run(a, bad + 1);
			}
	for (int k = 0; k < 6; ++k)
		for (int sh = 0; sh < (N > 40 ? 1 : c.thorough ? 11 : 2); ++sh)
		{
			if (!c.begin({1, k, sh})) continue;
			Ref<T> g(N, N);
			for (int i = 0; i < N; ++i)
				for (int j = 0; j <= i; ++j)
					if (i == j) g(i, j) = T(1 + (i + sh) % 3);
					else if (k == 0 ? i == j + 1 : k == 1 ? i == N - 1 : k == 2 ? j == 0 : k == 3 ? i - j == N / 2 : k == 4 ? i - j <= 2 : (i - j == 1 && i % 3)) g(i, j) = V<T>::v(1 + (i + j + sh) % 5);
			NOTE("G = %s", g.text().c_str());
			run(g.mul(adj_(g)), 0);
		}
}
MC_REGISTER(scale_double_8, scale<double, 8>);
MC_REGISTER(scale_double_12, scale<double, 12>);
MC_REGISTER(scale_double_20, scale<double, 20>);
MC_REGISTER(scale_complex_9, scale<cplx, 9>);
MC_REGISTER(scale_complex_17, scale<cplx, 17>);
MC_REGISTER(scale_double_34, scale<double, 34>);
MC_REGISTER(large_double_70, scale<double, 70>);
MC_REGISTER(large_complex_50, scale<cplx, 50>);
MC_REGISTER(large_double_140, scale<double, 140>);
MC_REGISTER(large_double_270, scale<double, 270>);

}
using namespace vf;

int main(int argc, char** argv)
{
	mc::Meta m;
	m.property = "C11";
	m.level = "exploration";
	m.rule = "a case is a Hermitian matrix, factorised in three representations and with outputs that held something; positive definite by exact leading minors; non-trivial: positive definite";
	m.assumptions = {"entries are small integers or Gaussian integers; comparison within 1000 units of rounding", "a singular semi-definite matrix may be accepted when rounding leaves a pivot of that size"};
	return mc::main_(argc, argv, m);
}
