// C25: quadrature on lines and triangles
#include "mc.h"
#include "quadrature/Quadrature.h"

namespace vf {	// names the library may use as well
using namespace NS;

static double fact(int n) { return n < 2 ? 1 : n * fact(n - 1); }
// Polynomials in u, v up to degree 5
struct Poly
{
	double a[6][6];
	Poly(double c = 0, double u = 0, double v = 0) { memset(a, 0, sizeof a); a[0][0] = c; a[1][0] = u; a[0][1] = v; }
	Poly operator*(const Poly& o) const
	{
		Poly r;
		for (int i = 0; i < 6; ++i) for (int j = 0; i + j < 6; ++j) for (int k = 0; i + k < 6; ++k) for (int l = 0; j + l < 6; ++l) r.a[i + k][j + l] += a[i][j] * o.a[k][l];
		return r;
	}
	double integral() const { double s = 0; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) s += a[i][j] * fact(i) * fact(j) / fact(i + j + 2); return s; }
	double bound() const { double s = 0; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) s += std::fabs(a[i][j]); return s; }
};
template<class T> double eps() { return std::max(1e-14, (double)(4 * mc::tolerance<T>())); }	// the tables have 15 digits

template<class T, int K, int O> void rule(mc::Ctx& c)
{
	const int degree = K == 1 ? 2 * O - 1 : O;
	const GaussLegendreQuadratureFactory<T, K, O> f;
	const Quadrature<GaussLegendreQuadratureFactory, T, K, O> q;
	const GaussLegendreQuadrature<T, K, O> q2;
	const auto& pt = f.getQuadraturePoints();
	const auto& w = f.getQuadratureWeights();
	const size_t n = pt.size();
	for (int a = 0; a <= degree; ++a) for (int b = 0; b <= (K == 1 ? 0 : degree - a); ++b)
	{
		if (!c.begin({K, O, a, b})) continue;
		NOTE("rule %d in %d dimension(s), monomial %d %d", O, K, a, b);
		c.nontrivial();
		c.transition();
		CK(n == w.size() && n > 0, "%d points, %d weights", (int)n, (int)w.size());
		double sum = 0;
		for (size_t i = 0; i < n; ++i)
		{
			sum += (double)w[i];
			double s = 0;
			for (int d = 0; d < K; ++d) { CK((double)pt[i][d] >= 0, "point %d is outside", (int)i); s += (double)pt[i][d]; }
			CK(s <= 1 + 1e-7, "point %d is outside", (int)i);
			for (size_t k = 0; k < i; ++k) { bool same = true; for (int d = 0; d < K; ++d) same = same && pt[i][d] == pt[k][d]; CK(!same, "points %d and %d are the same", (int)k, (int)i); }
		}
		CK(std::fabs(sum - 1 / fact(K)) <= 10 * eps<T>(), "the weights sum to %.17g", sum);
		const double exact = K == 1 ? 1.0 / (a + 1) : fact(a) * fact(b) / fact(a + b + 2);
		std::vector<FixedVector<T, K> > seen;
		const auto mono = [&](const FixedVector<T, K>& v) -> T { T r(1); for (int i = 0; i < a; ++i) r *= v[0]; for (int i = 0; i < b; ++i) r *= v[K - 1]; return r; };
		const double r1 = (double)q.eval(mono), r2 = (double)q2.eval(mono, (T)3), r3 = (double)q.eval_index([&](Index i, const FixedVector<T, K>& v) -> T
		{
			seen.push_back(v);
			CK(i < n, "index %d", (int)i);
			for (int d = 0; d < K; ++d) CK(v[d] == pt[i][d], "index %d belongs to another point", (int)i);
			return mono(v);
		});
		const double r4 = (double)q.eval_index([&](Index, const FixedVector<T, K>& v) -> T { return -mono(v); }, (T)-1);
		CK(seen.size() == n, "%d evaluations, %d points", (int)seen.size(), (int)n);
		CK(std::fabs(r1 - exact) <= 10 * eps<T>(), "integral %.17g, expected %.17g", r1, exact);
		CK(std::fabs(r2 - 3 - exact) <= 30 * eps<T>(), "integral with start value %.17g, expected %.17g", r2, exact + 3);
		CK(std::fabs(r3 - exact) <= 10 * eps<T>(), "integral %.17g, expected %.17g", r3, exact);
		CK(std::fabs(r4 + 1 + exact) <= 30 * eps<T>(), "integral with start value %.17g, expected %.17g", r4, -1 - exact);
	}
}
template<class T> void rules(mc::Ctx& c)
{
	rule<T, 1, 1>(c); rule<T, 1, 2>(c); rule<T, 1, 3>(c);
	rule<T, 2, 1>(c); rule<T, 2, 2>(c); rule<T, 2, 3>(c);
}
MC_REGISTER(reference, rules<double>);
MC_REGISTER(reference_float, rules<float>);
MC_REGISTER(reference_long_double, rules<long double>);

template<class T, int O> void images(mc::Ctx& c, int L)
{
	const GaussLegendreQuadrature<T, 2, O> q;
	const int n = 2 * L + 1, N = n * n;
	static const double place[][3] = {{0, 0, 1}, {3, -2, 1}, {-0.5, 7, 0.25}, {0, 0, 1.0 / 512}, {0, 0, 4096}, {0.1, -0.7, 0.3}, {0, 0, sizeof(T) == 8 ? 1e-9 : 1e-4}, {0, 0, sizeof(T) == 8 ? 1e40 : 1e4}};
	for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) for (int k = 0; k < N; ++k) for (int f = 0; f < (int)(sizeof place / sizeof *place); ++f)
	{
		const int px[3] = {i % n - L, j % n - L, k % n - L}, py[3] = {i / n - L, j / n - L, k / n - L};
		if ((px[1] - px[0]) * (py[2] - py[0]) == (px[2] - px[0]) * (py[1] - py[0])) continue;
		if (!c.begin({i, j, k, f})) continue;
		double x[3], y[3];
		for (int v = 0; v < 3; ++v) { x[v] = px[v] * place[f][2] + place[f][0]; y[v] = py[v] * place[f][2] + place[f][1]; }
		NOTE("triangle (%g,%g) (%g,%g) (%g,%g)", x[0], y[0], x[1], y[1], x[2], y[2]);
		c.nontrivial();
		c.transition();
		Triangle<T> t = {{(T)x[0], (T)y[0]}, {(T)x[1], (T)y[1]}, {(T)x[2], (T)y[2]}};
		t.prepare();
		const double det = std::fabs((x[1] - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (y[1] - y[0]));
		const Poly X(x[0], x[1] - x[0], x[2] - x[0]), Y(y[0], y[1] - y[0], y[2] - y[0]);
		for (int a = 0; a <= O; ++a) for (int b = 0; a + b <= O; ++b)
		{
			Poly p(1);
			for (int s = 0; s < a; ++s) p = p * X;
			for (int s = 0; s < b; ++s) p = p * Y;
			const double exact = det * p.integral();
			const double got = std::fabs((double)t.determinant()) * (double)q.eval([&](const FixedVector<T, 2>& l) -> T
			{
				const FixedVector<T, 2> g = t.toGlobal(l);
				T r(1);
				for (int s = 0; s < a; ++s) r *= g[0];
				for (int s = 0; s < b; ++s) r *= g[1];
				return r;
			});
			CK(std::fabs(got - exact) <= 100 * eps<T>() * det * p.bound(), "integral of x^%d y^%d is %.17g, expected %.17g", a, b, got, exact);
			const double got2 = (double)t.volume() / (double)t.unitVolume() * (double)q.eval_index([&](Index, const FixedVector<T, 2>& l) -> T
			{
				const FixedVector<T, 2> g = t.toGlobal(l);
				return (T)(std::pow((double)g[0], a) * std::pow((double)g[1], b));
			});
			CK(std::fabs(got2 - exact) <= 100 * eps<T>() * det * p.bound(), "integral of x^%d y^%d is %.17g, expected %.17g", a, b, got2, exact);
		}
	}
}
MC_SECTION(images_1) { images<double, 1>(c, c.thorough ? 3 : 2); }
MC_SECTION(images_2) { images<double, 2>(c, c.thorough ? 3 : 2); }
MC_SECTION(images_3) { images<double, 3>(c, c.thorough ? 3 : 2); }
MC_SECTION(images_2_float) { images<float, 2>(c, 1); }
MC_SECTION(images_3_float) { images<float, 3>(c, 1); }
// Complex integrands
MC_SECTION(complex_values)
{
	const GaussLegendreQuadrature<double, 2, 3> q;
	typedef std::complex<double> C;
	for (int a = 0; a <= 3; ++a) for (int b = 0; a + b <= 3; ++b)
	{
		if (!c.begin({a, b})) continue;
		const double e = fact(a) * fact(b) / fact(a + b + 2);
		const C r = q.eval([&](const FixedVector<double, 2>& v) -> C { return C(std::pow(v[0], a) * std::pow(v[1], b), -2 * std::pow(v[0], a) * std::pow(v[1], b)); });
		CK(std::abs(r - C(e, -2 * e)) <= 1e-13, "integral (%.17g,%.17g), expected (%.17g,%.17g)", r.real(), r.imag(), e, -2 * e);
	}
}

// Every polynomial with coefficients -1, 0, 1 up to the degree, in several units and with several start values, and every assignment of values -2..2 to the points
template<class T, int K, int O> void combinations(mc::Ctx& c)
{
	const int degree = K == 1 ? 2 * O - 1 : O;
	static const int unit[] = {0, -40, 40};
	const GaussLegendreQuadrature<T, K, O> q;
	const GaussLegendreQuadratureFactory<T, K, O> f;
	const std::vector<FixedVector<T, K> > pt = f.getQuadraturePoints();
	const std::vector<T> w = f.getQuadratureWeights();
	std::vector<std::pair<int, int> > m;
	for (int a = 0; a <= degree; ++a) for (int b = 0; b <= (K == 1 ? 0 : degree - a); ++b) m.push_back(std::make_pair(a, b));
	long n = 1, p = 1;
	for (size_t i = 0; i < m.size(); ++i) n *= 3;
	for (size_t i = 0; i < pt.size(); ++i) p *= 5;
	for (long z = 0; z < n; ++z) for (int u = 0; u < 3; ++u) for (int s = -1; s <= 1; ++s)
	{
		if (!c.begin({0, z, u, s})) continue;
		c.transition();
		const double e = std::ldexp(1.0, unit[u]);
		double exact = s * e, bound = 2 * e;
		std::vector<double> k;
		long y = z;
		for (size_t i = 0; i < m.size(); ++i, y /= 3)
		{
			k.push_back((y % 3 - 1) * e);
			exact += k[i] * (K == 1 ? 1.0 / (m[i].first + 1) : fact(m[i].first) * fact(m[i].second) / fact(m[i].first + m[i].second + 2));
			bound += std::fabs(k[i]);
		}
		if (z != n / 2) c.nontrivial();
		const auto g = [&](const FixedVector<T, K>& v) -> T
		{
			T r(0);
			for (size_t i = 0; i < m.size(); ++i) { T t = (T)k[i]; for (int j = 0; j < m[i].first; ++j) t *= v[0]; for (int j = 0; j < m[i].second; ++j) t *= v[K - 1]; r += t; }
			return r;
		};
		const double r1 = (double)q.eval(g, (T)(s * e)), r2 = (double)q.eval_index([&](Index, const FixedVector<T, K>& v) -> T { return g(v); }, (T)(s * e));
		CK(std::fabs(r1 - exact) <= 10 * eps<T>() * bound, "rule %d in %d dimension(s), polynomial %ld in units of %g with start value %g: %.17g, expected %.17g", O, K, z, e, s * e, r1, exact);
		CK(std::fabs(r2 - exact) <= 10 * eps<T>() * bound, "rule %d in %d dimension(s), polynomial %ld by index in units of %g with start value %g: %.17g, expected %.17g", O, K, z, e, s * e, r2, exact);
	}
	for (long z = 0; z < p; ++z) for (int u = 0; u < 3; ++u)
	{
		if (!c.begin({1, z, u})) continue;
		c.transition();
		const double e = std::ldexp(1.0, unit[u]);
		std::vector<T> x;
		long y = z;
		double exact = e, bound = e;
		for (size_t i = 0; i < pt.size(); ++i, y /= 5) { x.push_back((T)((y % 5 - 2) * e)); exact += (double)w[i] * (double)x[i]; bound += std::fabs((double)w[i] * (double)x[i]); }
		if (z != p / 2) c.nontrivial();
		const double r1 = (double)q.eval([&](const FixedVector<T, K>& v) -> T
		{
			for (size_t i = 0; i < pt.size(); ++i) { bool same = true; for (int d = 0; d < K; ++d) same = same && v[d] == pt[i][d]; if (same) return x[i]; }
			CK(false, "evaluated at another point");
			return T(0);
		}, (T)e);
		const double r2 = (double)q.eval_index([&](Index i, const FixedVector<T, K>&) -> T { return x.at(i); }, (T)e);
		CK(std::fabs(r1 - exact) <= 10 * eps<T>() * bound && std::fabs(r2 - exact) <= 10 * eps<T>() * bound, "rule %d in %d dimension(s), values %ld at the points in units of %g: %.17g, by index %.17g, expected %.17g", O, K, z, e, r1, r2, exact);
	}
}
template<class T> void combinations_of(mc::Ctx& c)
{
	combinations<T, 1, 1>(c); combinations<T, 1, 2>(c); combinations<T, 1, 3>(c);
	combinations<T, 2, 1>(c); combinations<T, 2, 2>(c); combinations<T, 2, 3>(c);
}
MC_REGISTER(combinations_double, combinations_of<double>);
MC_REGISTER(combinations_float, combinations_of<float>);
MC_REGISTER(combinations_long_double, combinations_of<long double>);

}
using namespace vf;

int main(int argc, char** argv)
{
	mc::Meta m;
	m.property = "C25";
	m.level = "exploration";
	m.rule = "a case is one rule with one monomial up to its degree on the reference element, or one lattice triangle (position, scale, orientation) with all monomials up to the degree, or one polynomial with coefficients -1, 0, 1 up to the degree, or one assignment of values -2..2 to the points, each with a unit and a start value";
	m.assumptions = {"degree of exactness: 2n-1 on lines with n points, 1, 2 and 3 on triangles", "tables with 15 digits: tolerance 1e-14 relative times the number of terms"};
	return mc::main_(argc, argv, m);
}
