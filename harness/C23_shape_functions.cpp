// C23: Lagrange shape functions
#include "mc.h"
#include "sf/PolyShapeFunction.h"

namespace vf {	// names the library may use as well
using namespace NS;

// value, first and second derivative along one coordinate
struct Jet
{
	double v, d, dd;
	Jet(double v_ = 0, double d_ = 0, double dd_ = 0) : v(v_), d(d_), dd(dd_) {}
};
static Jet operator+(Jet a, Jet b) { return Jet(a.v + b.v, a.d + b.d, a.dd + b.dd); }
static Jet operator-(Jet a, Jet b) { return Jet(a.v - b.v, a.d - b.d, a.dd - b.dd); }
static Jet operator*(Jet a, Jet b) { return Jet(a.v * b.v, a.d * b.v + a.v * b.d, a.dd * b.v + 2 * a.d * b.d + a.v * b.dd); }

// Nodes in units of 1/Order, as barycentric coordinates of the vertices 0..K, in the order of the functions
template<int K, int O> std::vector<std::array<int, 4> > nodes();
template<> std::vector<std::array<int, 4> > nodes<1, 1>() { return {{{1, 0, 0, 0}}, {{0, 1, 0, 0}}}; }
template<> std::vector<std::array<int, 4> > nodes<1, 2>() { return {{{2, 0, 0, 0}}, {{1, 1, 0, 0}}, {{0, 2, 0, 0}}}; }
template<> std::vector<std::array<int, 4> > nodes<2, 1>() { return {{{1, 0, 0, 0}}, {{0, 1, 0, 0}}, {{0, 0, 1, 0}}}; }
template<> std::vector<std::array<int, 4> > nodes<2, 2>() { return {{{2, 0, 0, 0}}, {{0, 2, 0, 0}}, {{0, 0, 2, 0}}, {{1, 1, 0, 0}}, {{0, 1, 1, 0}}, {{1, 0, 1, 0}}}; }
template<> std::vector<std::array<int, 4> > nodes<2, 3>() { return {{{3, 0, 0, 0}}, {{0, 3, 0, 0}}, {{0, 0, 3, 0}}, {{2, 1, 0, 0}}, {{1, 2, 0, 0}}, {{0, 2, 1, 0}}, {{0, 1, 2, 0}}, {{1, 0, 2, 0}}, {{2, 0, 1, 0}}, {{1, 1, 1, 0}}}; }
template<> std::vector<std::array<int, 4> > nodes<3, 1>() { return {{{1, 0, 0, 0}}, {{0, 1, 0, 0}}, {{0, 0, 1, 0}}, {{0, 0, 0, 1}}}; }
template<> std::vector<std::array<int, 4> > nodes<3, 2>() { return {{{2, 0, 0, 0}}, {{0, 2, 0, 0}}, {{0, 0, 2, 0}}, {{0, 0, 0, 2}}, {{1, 1, 0, 0}}, {{0, 1, 1, 0}}, {{1, 0, 1, 0}}, {{0, 1, 0, 1}}, {{1, 0, 0, 1}}, {{0, 0, 1, 1}}}; }

// The Lagrange function of node n: product over the vertices of L(n_i) where L(m) is the polynomial with zeros at 0..m-1 and one at m
static Jet lagrange(int K, int O, const std::array<int, 4>& n, const double* x, int dir)
{
	Jet lam[4];
	lam[0] = Jet(1);
	for (int i = 0; i < K; ++i) { lam[i + 1] = Jet(x[i], i == dir ? 1 : 0); lam[0] = lam[0] - lam[i + 1]; }
	Jet r(1);
	for (int i = 0; i <= K; ++i)
		for (int k = 0; k < n[i]; ++k)
			r = r * (Jet(O) * lam[i] - Jet(k)) * Jet(1.0 / (n[i] - k));
	return r;
}
template<class T, int K, int O> void point(mc::Ctx& c, const double* x, bool exact)
{
	static const std::vector<std::array<int, 4> > nd = nodes<K, O>();
	typedef PolyShapeFunction<T, K, O> SF;
	const SF sf{};
	const int D = (int)nd.size();
	CK((int)SF::DOF == D, "%d functions, the space has dimension %d", (int)SF::DOF, D);
	FixedVector<T, K> v;
	double big = 1;
	for (int i = 0; i < K; ++i) { v[i] = (T)x[i]; big = std::max(big, std::fabs(x[i])); }
	const double tol = exact ? 0 : 1000 * mc::tolerance<T>() * std::pow(big, O);
	double y[K];
	for (int i = 0; i < K; ++i) y[i] = (double)v[i];
	c.transition();
	c.nontrivial();
	double sum = 0, lin[K] = {}, dsum[K] = {};
	for (int f = 0; f < D; ++f)
	{
		const Jet e = lagrange(K, O, nd[f], y, -1);
		const double got = (double)sf.value((Index)f, v);
		CK(std::fabs(got - e.v) <= tol + 1e-13 * std::pow(big, O) * 100, "function %d is %.17g, expected %.17g", f, got, e.v);
		sum += got;
		const FixedVector<T, K> g = sf.gradient((Index)f, v), h = sf.gradient2((Index)f, v);
		for (int d = 0; d < K; ++d)
		{
			const Jet j = lagrange(K, O, nd[f], y, d);
			CK(std::fabs((double)g[d] - j.d) <= 10 * tol + 1e-12 * std::pow(big, O) * 100, "function %d has the derivative %.17g along %d, expected %.17g", f, (double)g[d], d, j.d);
			CK(std::fabs((double)h[d] - j.dd) <= 10 * tol + 1e-12 * std::pow(big, O) * 100, "function %d has the second derivative %.17g along %d, expected %.17g", f, (double)h[d], d, j.dd);
			lin[d] += got * nd[f][d + 1] / (double)O;
			dsum[d] += (double)g[d];
		}
	}
	CK(std::fabs(sum - 1) <= 10 * tol + 1e-10 * std::pow(big, O), "the functions sum to %.17g", sum);
	for (int d = 0; d < K; ++d)
	{
		CK(std::fabs(lin[d] - y[d]) <= 10 * tol + 1e-10 * std::pow(big, O), "coordinate %d is interpolated as %.17g", d, lin[d]);
		CK(std::fabs(dsum[d]) <= 30 * tol + 1e-10 * std::pow(big, O), "the derivatives sum to %.17g", dsum[d]);
		CK(v[d] == (T)x[d], "the point changed");
	}
	for (int f = 0; f < D; ++f)	// at a node
	{
		bool here = true;
		for (int d = 0; d < K; ++d) here = here && x[d] == nd[f][d + 1] / (double)O;
		if (here) for (int k = 0; k < D; ++k) CK(std::fabs((double)sf.value((Index)k, v) - (k == f)) <= (O == 3 ? 100 * mc::tolerance<T>() : 0), "function %d is %.17g at node %d", k, (double)sf.value((Index)k, v), f);
	}
}
// The weights of the monomials: with all weights one the functions are the plain ones, all results are linear in the weights
// (so the unit weights decide all), and the derivatives are those of the value with the same weights.
template<class T, int K, int O> void weights(mc::Ctx& c)
{
	typedef PolyShapeFunction<T, K, O> SF;
	const SF sf{};
	const int D = SF::DOF, n = c.thorough ? 9 : 5;
	typedef FixedVector<T, SF::DOF> W;
	int d[4];
	for (uint64_t x = 0; x < mc::ipow(n, K); ++x)	// points of a lattice with step 1/4: all results are exact
		for (int w = 0; w < 2 * D + 2; ++w)		// unit weights, all but one, all one, all different
			for (int f = 0; f < D; ++f)
			{
				if (!c.begin({3, (int64_t)x, w, f})) continue;
				mc::digits(x, n, K, d);
				FixedVector<T, K> v;
				for (int i = 0; i < K; ++i) v[i] = (T)(d[i] / 4.0 - 0.5);
				W one, a;
				for (int i = 0; i < D; ++i)
				{
					one[i] = 1;
					a[i] = w < D ? (i == w) : w < 2 * D ? (i != w - D) : w == 2 * D ? 1 : (i % 2 ? -1 : 1) * (i + 2);
				}
				if (c.verbose()) { for (int i = 0; i < K; ++i) c.note(" %g", (double)v[i]); c.note("; weights"); for (int i = 0; i < D; ++i) c.note(" %g", (double)a[i]); }
				c.transition();
				c.nontrivial();
				const double eps = 1000 * mc::tolerance<T>() * D * (D + 2);
				// with weights one
				CK(std::fabs((double)(sf.value(f, v, one) - sf.value(f, v))) <= eps, "function %d is %.17g, with weights one %.17g", f, (double)sf.value(f, v), (double)sf.value(f, v, one));
				const FixedVector<T, K> g = sf.gradient(f, v, a), h = sf.gradient2(f, v, a);
				const FixedVector<T, K> g1 = sf.gradient(f, v, one), h1 = sf.gradient2(f, v, one), g0 = sf.gradient(f, v), h0 = sf.gradient2(f, v);
				for (int k = 0; k < K; ++k)
				{
					CK(std::fabs((double)(g1[k] - g0[k])) <= eps && std::fabs((double)(h1[k] - h0[k])) <= eps, "derivatives %.17g and %.17g of function %d along %d, with weights one %.17g and %.17g", (double)g0[k], (double)h0[k], f, k, (double)g1[k], (double)h1[k]);
					// cubic along each direction: symmetric differences, extrapolated, are exact
					double y[5];
					for (int s = -2; s <= 2; ++s) { FixedVector<T, K> u = v; u[k] += (T)s; y[s + 2] = (double)sf.value(f, u, a); }
					const double e1 = (8 * (y[3] - y[1]) - (y[4] - y[0])) / 12, e2 = y[3] - 2 * y[2] + y[1];
					CK(std::fabs((double)g[k] - e1) <= 30 * eps, "the weighted function %d has the derivative %.17g along %d, expected %.17g", f, (double)g[k], k, e1);
					CK(std::fabs((double)h[k] - e2) <= 30 * eps, "the weighted function %d has the second derivative %.17g along %d, expected %.17g", f, (double)h[k], k, e2);
				}
				// in every unit
				for (int q = -20; q <= 20; q += 40)
				{
					const double unit = std::ldexp(1.0, q);
					W b;
					for (int i = 0; i < D; ++i) b[i] = a[i] * (T)unit;
					CK(std::fabs((double)sf.value(f, v, b) / unit - (double)sf.value(f, v, a)) <= eps, "the weighted function %d is %.17g, with weights in units of %g it is %.17g", f, (double)sf.value(f, v, a), unit, (double)sf.value(f, v, b));
					const FixedVector<T, K> gb = sf.gradient(f, v, b), hb = sf.gradient2(f, v, b);
					for (int k = 0; k < K; ++k)
						CK(std::fabs((double)gb[k] / unit - (double)g[k]) <= eps && std::fabs((double)hb[k] / unit - (double)h[k]) <= eps, "derivatives %.17g and %.17g of the weighted function %d along %d, with weights in units of %g they are %.17g and %.17g", (double)g[k], (double)h[k], f, k, unit, (double)gb[k], (double)hb[k]);
				}
				// linear in the weights
				double sv = 0, sg[K] = {}, sh[K] = {};
				for (int i = 0; i < D; ++i)
				{
					W u;
					for (int j = 0; j < D; ++j) u[j] = i == j;
					sv += (double)a[i] * (double)sf.value(f, v, u);
					const FixedVector<T, K> ug = sf.gradient(f, v, u), uh = sf.gradient2(f, v, u);
					for (int k = 0; k < K; ++k) sg[k] += (double)a[i] * (double)ug[k], sh[k] += (double)a[i] * (double)uh[k];
				}
				CK(std::fabs(sv - (double)sf.value(f, v, a)) <= eps, "the weighted function %d is %.17g, the sum of its parts %.17g", f, (double)sf.value(f, v, a), sv);
				for (int k = 0; k < K; ++k)
					CK(std::fabs(sg[k] - (double)g[k]) <= eps && std::fabs(sh[k] - (double)h[k]) <= eps, "derivatives %.17g and %.17g of the weighted function %d along %d, those of its parts sum to %.17g and %.17g", (double)g[k], (double)h[k], f, k, sg[k], sh[k]);
			}
}
// The lattice from -W to 1+W with steps of 1/S
template<class T, int K, int O> void lattice(mc::Ctx& c)
{
	const int S = c.thorough ? 24 : 12, W = K == 3 ? 1 : 2, n = S * (1 + 2 * W) + 1;
	int d[4];
	for (uint64_t x = 0; x < mc::ipow(n, K); ++x)
	{
		if (!c.begin({0, (int64_t)x})) continue;
		mc::digits(x, n, K, d);
		double p[K];
		for (int i = 0; i < K; ++i) p[i] = d[i] / (double)S - W;
		if (c.verbose()) for (int i = 0; i < K; ++i) c.note(" %g", p[i]);
		point<T, K, O>(c, p, false);
	}
	const auto nd = nodes<K, O>();
	for (size_t f = 0; f < nd.size(); ++f)	// the nodes as their doubles
	{
		if (!c.begin({1, (int64_t)f})) continue;
		double p[K];
		for (int i = 0; i < K; ++i) p[i] = nd[f][i + 1] / (double)O;
		NOTE("node %d", (int)f);
		point<T, K, O>(c, p, false);
	}
	static const double odd[] = {0.1, 0.7310585786, -0.333333333333, 1e-9, 57.3, -1000.25};
	for (uint64_t x = 0; x < mc::ipow(6, K); ++x)
	{
		if (!c.begin({2, (int64_t)x})) continue;
		mc::digits(x, 6, K, d);
		double p[K];
		for (int i = 0; i < K; ++i) p[i] = odd[d[i]];
		if (c.verbose()) for (int i = 0; i < K; ++i) c.note(" %g", p[i]);
		point<T, K, O>(c, p, false);
	}
}
MC_REGISTER(line_1, lattice<double, 1, 1>);
MC_REGISTER(line_2, lattice<double, 1, 2>);
MC_REGISTER(triangle_1, lattice<double, 2, 1>);
MC_REGISTER(triangle_2, lattice<double, 2, 2>);
MC_REGISTER(triangle_3, lattice<double, 2, 3>);
MC_REGISTER(tetrahedron_1, lattice<double, 3, 1>);
MC_REGISTER(tetrahedron_2, lattice<double, 3, 2>);
MC_REGISTER(line_1_float, lattice<float, 1, 1>);
MC_REGISTER(line_1_long_double, lattice<long double, 1, 1>);
MC_REGISTER(line_2_float, lattice<float, 1, 2>);
MC_REGISTER(line_2_long_double, lattice<long double, 1, 2>);
MC_REGISTER(triangle_1_float, lattice<float, 2, 1>);
MC_REGISTER(triangle_1_long_double, lattice<long double, 2, 1>);
MC_REGISTER(triangle_2_float, lattice<float, 2, 2>);
MC_REGISTER(triangle_2_long_double, lattice<long double, 2, 2>);
MC_REGISTER(triangle_3_float, lattice<float, 2, 3>);
MC_REGISTER(triangle_3_long_double, lattice<long double, 2, 3>);
MC_REGISTER(tetrahedron_1_float, lattice<float, 3, 1>);
MC_REGISTER(tetrahedron_1_long_double, lattice<long double, 3, 1>);
MC_REGISTER(tetrahedron_2_float, lattice<float, 3, 2>);
MC_REGISTER(tetrahedron_2_long_double, lattice<long double, 3, 2>);
MC_REGISTER(weights_line_1, weights<double, 1, 1>);
MC_REGISTER(weights_line_1_float, weights<float, 1, 1>);
MC_REGISTER(weights_line_2, weights<double, 1, 2>);
MC_REGISTER(weights_line_2_float, weights<float, 1, 2>);
MC_REGISTER(weights_triangle_1, weights<double, 2, 1>);
MC_REGISTER(weights_triangle_1_float, weights<float, 2, 1>);
MC_REGISTER(weights_triangle_2, weights<double, 2, 2>);
MC_REGISTER(weights_triangle_2_float, weights<float, 2, 2>);
MC_REGISTER(weights_triangle_3, weights<double, 2, 3>);
MC_REGISTER(weights_triangle_3_float, weights<float, 2, 3>);
MC_REGISTER(weights_tetrahedron_1, weights<double, 3, 1>);
MC_REGISTER(weights_tetrahedron_1_float, weights<float, 3, 1>);
MC_REGISTER(weights_tetrahedron_2, weights<double, 3, 2>);
MC_REGISTER(weights_tetrahedron_2_float, weights<float, 3, 2>);

}
using namespace vf;

int main(int argc, char** argv)
{
	mc::Meta m;
	m.property = "C23";
	m.level = "exploration";
	m.rule = "a case is one point (lattice over and around the reference element, all nodes, some odd points) at which all functions of one dimension and order are compared, with their first derivatives and pure second derivatives, to the product form of the Lagrange polynomials; or one function, point and vector of weights, at which the weighted function is compared to its parts and its derivatives to exact differences";
	m.assumptions = {"the lattice has more points per direction than the degree, so polynomials that agree on it are equal"};
	return mc::main_(argc, argv, m);
}
