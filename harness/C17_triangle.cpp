// C17: geometry of triangles
#include "mc.h"
#include "Simplex.h"

namespace vf {	// names the library may use as well
using namespace NS;

template<class T> struct Tri { T x[3], y[3]; };

// s: size of the lattice's unit, o: magnitude of the coordinates, in units
template<class T> void one(mc::Ctx& c, const int (&px)[3], const int (&py)[3], T s, int ox, int oy)
{
	const double eps = std::numeric_limits<T>::epsilon();
	const double mag = 10 + std::max(std::abs(ox), std::abs(oy));
	const double tol = 2000 * eps * mag;	// in units, or relative
	double x[3], y[3];
	for (int i = 0; i < 3; ++i) { x[i] = (double)(T)((px[i] + ox) * s); y[i] = (double)(T)((py[i] + oy) * s); }
	const double S = (double)s;
	const double det = (double)((px[1] - px[0]) * (py[2] - py[0]) - (px[2] - px[0]) * (py[1] - py[0])) * S * S;	// exact

	for (int way = 0; way < 3; ++way)
	{
		// made at once; a used triangle with other vertices; copy
		Triangle<T> t = {{(T)x[0], (T)y[0]}, {(T)x[1], (T)y[1]}, {(T)x[2], (T)y[2]}};
		if (way == 1)
		{
			Triangle<T> u = {{T(3), T(1)}, {T(-4), T(2)}, {T(1), T(-5)}};
			u.prepare();
			for (int i = 2; i >= 0; --i) { u[i][0] = (T)x[i]; u[i][1] = (T)y[i]; }
			u.prepare();
			t = u;
		}
		else t.prepare();
		if (way == 2) { const Triangle<T> w(t); Triangle<T> n; n = w; n.prepare(); n.prepare(); t = n; }
		const Triangle<T>& k = t;
		c.transition();
		CK(std::fabs((double)k.determinant() - det) <= tol * std::fabs(det), "determinant %.17g, expected %.17g", (double)k.determinant(), det);
		CK(std::fabs((double)k.volume() - std::fabs(det) / 2) <= tol * std::fabs(det), "area %.17g, expected %.17g", (double)k.volume(), std::fabs(det) / 2);
		CK(std::fabs((double)Triangle<T>::unitVolume() - 0.5) <= eps, "area of the reference triangle %.17g", (double)Triangle<T>::unitVolume());
		for (int i = 0; i < 3; ++i) CK((double)k[i][0] == x[i] && (double)k[i][1] == y[i], "vertex %d changed", i);
		// map
		for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j)
		{
			const double e = i ? y[j + 1] - y[0] : x[j + 1] - x[0];
			CK(std::fabs((double)k.matrix().at(i, j) - e) <= tol * S, "matrix entry (%d,%d) %.17g, expected %.17g", i, j, (double)k.matrix().at(i, j), e);
			double id = 0;
			for (int l = 0; l < 2; ++l) id += (double)k.inverseMatrix().at(i, l) * (double)k.matrix().at(l, j);
			CK(std::fabs(id - (i == j)) <= tol * 10, "inverse matrix times matrix has %.17g at (%d,%d)", id, i, j);
		}
		static const double loc[][2] = {{0, 0}, {1, 0}, {0, 1}, {0.5, 0}, {0.5, 0.5}, {0, 0.5}, {0.25, 0.25}, {0.125, 0.75}, {-1, 2}, {3, -0.5}, {2, 2}};
		for (auto& l : loc)
		{
			FixedVector<T, 2> v; v[0] = (T)l[0]; v[1] = (T)l[1];
			const FixedVector<T, 2> g = k.toGlobal(v), b = k.toLocal(g);
			const double gx = x[0] + l[0] * (x[1] - x[0]) + l[1] * (x[2] - x[0]), gy = y[0] + l[0] * (y[1] - y[0]) + l[1] * (y[2] - y[0]);
			CK(std::fabs((double)g[0] - gx) <= tol * S && std::fabs((double)g[1] - gy) <= tol * S, "local (%g,%g) is mapped to (%.17g,%.17g), expected (%.17g,%.17g)", l[0], l[1], (double)g[0], (double)g[1], gx, gy);
			CK(std::fabs((double)b[0] - l[0]) <= tol * 100 && std::fabs((double)b[1] - l[1]) <= tol * 100, "local (%g,%g) is mapped to (%.17g,%.17g) and back to (%.17g,%.17g)", l[0], l[1], (double)g[0], (double)g[1], (double)b[0], (double)b[1]);
			CK(v[0] == (T)l[0] && v[1] == (T)l[1], "argument changed");
		}
		// gradients of the barycentric coordinates: one at the own vertex, zero at the others
		double gx[3], gy[3];
		for (int i = 0; i < 3; ++i) { const FixedVector<T, 2> g = k.gradient(i); gx[i] = (double)g[0]; gy[i] = (double)g[1]; }
		CK(std::fabs(gx[0] + gx[1] + gx[2]) * S <= tol * 10 && std::fabs(gy[0] + gy[1] + gy[2]) * S <= tol * 10, "gradients sum to (%g,%g)", gx[0] + gx[1] + gx[2], gy[0] + gy[1] + gy[2]);
		for (int i = 0; i < 3; ++i)
			for (int j = 0; j < 3; ++j)
			{
				const int a = (i + 1) % 3;	// coordinate i is zero at vertex a
				const double d = gx[i] * (x[j] - x[a]) + gy[i] * (y[j] - y[a]);
				CK(std::fabs(d - (i == j)) <= tol * 10, "gradient %d is (%.17g,%.17g): coordinate %d changes by %.17g from vertex %d to vertex %d", i, gx[i], gy[i], i, d, a, j);
			}
		// circumcentre
		const FixedVector<T, 2> m = k.center();
		double len = 0;
		for (int i = 0; i < 3; ++i) { const int j = (i + 1) % 3; len = std::max(len, std::hypot(x[i] - x[j], y[i] - y[j])); }
		const double R = std::hypot(x[0] - x[1], y[0] - y[1]) * std::hypot(x[1] - x[2], y[1] - y[2]) * std::hypot(x[2] - x[0], y[2] - y[0]) / (2 * std::fabs(det));
		const double slack = tol * 10 * (R + S) + eps * 10 * mag * S;
		for (int i = 0; i < 3; ++i) CK(std::fabs(std::hypot((double)m[0] - x[i], (double)m[1] - y[i]) - R) <= slack, "circumcentre (%.17g,%.17g) has distance %.17g to vertex %d, circumradius %.17g", (double)m[0], (double)m[1], std::hypot((double)m[0] - x[i], (double)m[1] - y[i]), i, R);
		CK(std::fabs((double)k.outerRadius() - R) <= slack, "circumradius %.17g, expected %.17g", (double)k.outerRadius(), R);
		CK(std::fabs((double)k.diameter() - len) <= tol * len, "diameter %.17g, longest edge %.17g", (double)k.diameter(), len);
		// faces
		for (int i = 0; i < 3; ++i)
		{
			const int a = (i + 1) % 3, b = (i + 2) % 3;
			const FixedVector<T, 2> f = k.faceCenter(i), n = k.faceNormal(i);
			CK(std::fabs((double)f[0] - (x[a] + x[b]) / 2) <= tol * S && std::fabs((double)f[1] - (y[a] + y[b]) / 2) <= tol * S, "face %d has its centre at (%.17g,%.17g)", i, (double)f[0], (double)f[1]);
			const double nx = (double)n[0], ny = (double)n[1];
			CK(std::fabs(nx * nx + ny * ny - 1) <= 50 * eps, "normal of face %d is (%.17g,%.17g)", i, nx, ny);
			CK(std::fabs(nx * (x[b] - x[a]) + ny * (y[b] - y[a])) <= tol * S * 10, "normal (%.17g,%.17g) of face %d is not orthogonal", nx, ny, i);
			CK(nx * (x[a] - x[i]) + ny * (y[a] - y[i]) > 0, "normal (%.17g,%.17g) of face %d points to the inside", nx, ny, i);
		}
	}
}
template<class T, int L> void lattice(mc::Ctx& c, const std::vector<std::pair<T, int> >& frames)
{
	const int n = 2 * L + 1, N = n * n;
	for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) for (int d = 0; d < N; ++d)
	{
		const int px[3] = {a % n - L, b % n - L, d % n - L}, py[3] = {a / n - L, b / n - L, d / n - L};
		if ((px[1] - px[0]) * (py[2] - py[0]) == (px[2] - px[0]) * (py[1] - py[0])) continue;
		for (size_t f = 0; f < frames.size(); ++f)
		{
			if (!c.begin({a, b, d, (int64_t)f})) continue;
			NOTE("vertices (%d,%d) (%d,%d) (%d,%d) in units of %g, shifted by %d,%d", px[0], py[0], px[1], py[1], px[2], py[2], (double)frames[f].first, frames[f].second, -frames[f].second / 2);
			c.nontrivial();
			one<T>(c, px, py, frames[f].first, frames[f].second, -frames[f].second / 2);
		}
	}
}
MC_SECTION(lattice_2) { lattice<double, 2>(c, {{1.0, 0}, {1.0, 1000}, {1.0 / 1024, 0}, {4096.0, -7}, {1.0 / 1024, 500}}); }
MC_SECTION(lattice_2_float) { lattice<float, 2>(c, {{1.0f, 0}, {1.0f, 10}, {1.0f / 256, 0}, {128.0f, -7}}); }
MC_SECTION(lattice_3) { lattice<double, 3>(c, {{1.0, 0}}); }
MC_SECTION(lattice_2_odd_units) { lattice<double, 2>(c, {{0.1, 0}, {1.0 / 3, 0}, {1e-5, 0}, {1e6, 0}}); }
MC_SECTION(deep_lattice_4) { if (c.thorough) lattice<double, 4>(c, {{1.0, 0}, {1.0 / 64, 100}}); }
MC_SECTION(deep_lattice_3_float) { if (c.thorough) lattice<float, 3>(c, {{1.0f, 0}, {0.5f, 20}}); }
// thin triangles far from lattice shapes
MC_SECTION(thin)
{
	for (int w = 1; w <= 200; ++w) for (int h = 1; h <= 3; ++h) for (int o = 0; o <= w; o += (w + 4) / 5) for (int perm = 0; perm < 6; ++perm)
	{
		if (!c.begin({w, h, o, perm})) continue;
		static const int P[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}};
		const int X[3] = {0, w, o}, Y[3] = {0, 0, h};
		int px[3], py[3];
		for (int i = 0; i < 3; ++i) { px[i] = X[P[perm][i]]; py[i] = Y[P[perm][i]]; }
		NOTE("vertices (%d,%d) (%d,%d) (%d,%d)", px[0], py[0], px[1], py[1], px[2], py[2]);
		c.nontrivial();
		one<double>(c, px, py, 1.0, 200, 0);
	}
}

}
using namespace vf;

int main(int argc, char** argv)
{
	mc::Meta m;
	m.property = "C17";
	m.level = "exploration";
	m.rule = "a case is one non-degenerate triangle with vertices on a lattice (every ordered triple of lattice points), scaled and shifted; made directly, by changing the vertices of a used triangle, and as a copy";
	m.assumptions = {"K = 2, the only dimension the class supports", "rounding tolerance of a few thousand units in the last place of the largest coordinate"};
	return mc::main_(argc, argv, m);
}
