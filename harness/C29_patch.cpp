// C29: assembled systems of finite elements and their solutions
// BUILD: -O2 -DEXAMPLE="@REPO@/examples/poisson/fem.cpp" @REPO@/src/objloader/loader/MeshObjLoader.cpp
#include "mesh.h"
#include "mesh/HyperCube.h"
#include "sf/PolyShapeFunction.h"
#include "quadrature/Quadrature.h"
#include "matrix/SparseMatrix.h"
#include "matrix/DenseMatrix.h"
#include "matrix/MatrixOperations.h"
#include "matrix/MatrixOrder.h"
#include "Iterative.h"
#include "CG.h"
#include "LU.h"
#include <sys/stat.h>
#define main ns_example_main
#include EXAMPLE

namespace vf {	// names the library may use as well
using namespace NS;
#undef main

// Polynomials in two variables up to degree 5
struct Poly
{
	double a[6][6];
	Poly(double c = 0, double u = 0, double v = 0) { memset(a, 0, sizeof a); a[0][0] = c; a[1][0] = u; a[0][1] = v; }
	static Poly mono(int i, int j) { Poly r; r.a[i][j] = 1; return r; }
	Poly operator*(const Poly& o) const
	{
		Poly r;
		for (int i = 0; i < 6; ++i) for (int j = 0; i + j < 6; ++j) for (int k = 0; i + k < 6; ++k) for (int l = 0; j + l < 6; ++l) r.a[i + k][j + l] += a[i][j] * o.a[k][l];
		return r;
	}
	Poly operator+(const Poly& o) const { Poly r = *this; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) r.a[i][j] += o.a[i][j]; return r; }
	Poly d(int k) const { Poly r; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) if (k ? j : i) r.a[i - !k][j - k] += a[i][j] * (k ? j : i); return r; }
	double operator()(double x, double y) const { double s = 0, p = 1; for (int i = 0; i < 6; ++i, p *= x) { double q = p; for (int j = 0; j < 6; ++j, q *= y) s += a[i][j] * q; } return s; }
	// with x, y replaced by u, v
	Poly at(const Poly& u, const Poly& v) const
	{
		Poly r, p(1);
		for (int i = 0; i < 6; ++i, p = p * u) { Poly q = p; for (int j = 0; i + j < 6; ++j, q = q * v) if (a[i][j] != 0) r = r + q * Poly(a[i][j]); }
		return r;
	}
	// over the reference triangle
	double integral() const { static const double f[] = {1, 1, 2, 6, 24, 120, 720, 5040, 40320, 362880, 3628800, 39916800, 479001600}; double s = 0; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) s += a[i][j] * f[i] * f[j] / f[i + j + 2]; return s; }
	double bound() const { double s = 0; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) s += std::fabs(a[i][j]); return s; }
};
// over the triangles of the plan; *size: a bound of the absolute values
static double integral(const Plan& p, const Poly& f, double* size = nullptr)
{
	double s = 0;
	for (size_t t = 0; t < p.tris.size(); ++t)
	{
		const auto &a = p.pts[p.tris[t][0]], &b = p.pts[p.tris[t][1]], &d = p.pts[p.tris[t][2]];
		const Poly q = f.at(Poly(a[0], b[0] - a[0], d[0] - a[0]), Poly(a[1], b[1] - a[1], d[1] - a[1]));
		s += std::fabs(p.area2((int)t)) * q.integral();
		if (size) *size += std::fabs(p.area2((int)t)) * q.bound();
	}
	return s;
}
static std::vector<Poly> monomials(int degree) { std::vector<Poly> r; for (int i = 0; i <= degree; ++i) for (int j = 0; i + j <= degree; ++j) r.push_back(Poly::mono(i, j)); return r; }

template<class T> struct System
{
	SparseMatrix<T> M, K;
	std::vector<DynamicVector<T> > load;	// one for every polynomial
	size_t n;
	System(size_t n_, size_t k) : M((Dimension)n_, (Dimension)n_), K((Dimension)n_, (Dimension)n_), n(n_) { for (size_t i = 0; i < k; ++i) { load.push_back(DynamicVector<T>(n)); load.back().fill(T(0)); } }
};
// Assembly as a user would write it
template<class T, int O> void assemble(Mesh<T, 2>& m, System<T>& s, const std::vector<Poly>& f, bool transposed = true)
{
	typedef PolyShapeFunction<T, 2, O> SF;
	const SF sf;
	const GaussLegendreQuadrature<T, 2, O + 1> q;
	for (auto* e : m.elements())
	{
		const T det = std::abs(e->Element.determinant());
		FixedMatrix<T, 2, 2> g = e->Element.inverseMatrix();
		if (transposed) g = g.transpose();
		for (Index i = 0; i < SF::DOF; ++i)
		{
			const Index gi = e->DOFVertices[i]->GlobalIndex;
			for (Index j = 0; j < SF::DOF; ++j)
			{
				const Index gj = e->DOFVertices[j]->GlobalIndex;
				const T k = det * q.eval([&](const FixedVector<T, 2>& l) -> T { return g.mul(sf.gradient(i, l)).dot(g.mul(sf.gradient(j, l))); });
				const T w = det * q.eval([&](const FixedVector<T, 2>& l) -> T { return sf.value(i, l) * sf.value(j, l); });
				s.K.set(gi, gj, s.K.at(gi, gj) + k);
				s.M.set(gi, gj, s.M.at(gi, gj) + w);
			}
			for (size_t x = 0; x < f.size(); ++x)
				s.load[x].set(gi, s.load[x].at(gi) + det * q.eval([&](const FixedVector<T, 2>& l) -> T { const FixedVector<T, 2> p = e->Element.toGlobal(l); return sf.value(i, l) * (T)f[x]((double)p[0], (double)p[1]); }));
		}
	}
}
template<class T> double tol() { return sizeof(T) == 4 ? 2e-4 : 1e-10; }

enum { SparseLU, DenseLU, Cg, JacobiCg, IluCg, Sor, Cholesky, Reordered, Solvers };
static const char* const SOLVER[] = {"sparse LU", "dense LU", "CG", "Jacobi-preconditioned CG", "incomplete-LU-preconditioned CG", "SOR", "Cholesky", "reordered LU"};

template<class T> SparseMatrix<T> square(size_t n) { return SparseMatrix<T>((Dimension)n, (Dimension)n); }
// Solutions of A x = b[i] by one of the solvers
template<class T> std::vector<DynamicVector<T> > solve(int how, const SparseMatrix<T>& A, const std::vector<DynamicVector<T> >& b)
{
	const size_t n = A.rows();
	std::vector<DynamicVector<T> > r;
	const double eps = sizeof(T) == 4 ? 1e-6 : 1e-12;
	DynamicVector<T> zero(n);
	zero.fill(T(0));
	SparseMatrix<T> L = square<T>(n), U = square<T>(n), P = square<T>(n), C = square<T>(n);
	switch (how)
	{
	case SparseLU:
		LU::serial::doolittle(A, L, U, P);
		for (auto& v : b) r.push_back(LU::serial::solve_lu(L, U, P.mul(v)));
		break;
	case DenseLU:
	{
		DenseMatrix<T> D((Dimension)n, (Dimension)n), l((Dimension)n, (Dimension)n), u((Dimension)n, (Dimension)n), p((Dimension)n, (Dimension)n);
		for (Index i = 0; i < n; ++i) for (Index j = 0; j < n; ++j) D.set(i, j, A.at(i, j));
		LU::serial::doolittle(D, l, u, p);
		for (auto& v : b) r.push_back(LU::serial::solve_lu(l, u, p.mul(v)));
		break;
	}
	case Cg:
		for (auto& v : b) r.push_back(CG::serial::cg(A, v, zero, 20 * n, eps));
		break;
	case JacobiCg:
		CG::serial::jacobi(A, C);
		for (auto& v : b) r.push_back(CG::serial::pcg(A, v, C, zero, 20 * n, eps));
		break;
	case IluCg:
		LU::serial::ilu0(A, L, U);
		{
			SparseMatrix<T> l = square<T>(n), u = square<T>(n);
			LU::serial::ainv_lu(L, U, l, u);
			C = u.mul(l);
		}
		for (auto& v : b) r.push_back(CG::serial::pcg(A, v, C, zero, 20 * n, eps));
		break;
	case Sor:
		for (auto& v : b) r.push_back(Iterative::serial::sor(A, v, zero, 1.2, 20000, eps * 0.1));
		break;
	case Cholesky:
		LU::serial::cholesky(A, L);
		for (auto& v : b) r.push_back(LU::serial::solve_lu(L, L.transpose(), v));
		break;
	case Reordered:
	{
		const DynamicVector<Index> order = r_cuthill_mckee(A), back = inverse_permutation(order);
		const SparseMatrix<T> B = permutate(A, order);
		LU::serial::doolittle(B, L, U, P);
		for (auto& v : b) r.push_back(permutate(LU::serial::solve_lu(L, U, P.mul(permutate(v, order))), back));
		break;
	}
	}
	return r;
}

// The mesh has been made, its neighbours and boundary set up; p tells what it is
template<class T, int O> void patch(mc::Ctx& c, Mesh<T, 2>& m, const Plan& p, unsigned solvers)
{
	typedef PolyShapeFunction<T, 2, O> SF;
	m.prepare();
	m.validate();
	SF::prepareMesh(m);
	const size_t n = m.vertices().size();
	c.transition();
	if (n > (O == 1 ? 3 : 6)) c.nontrivial();
	const std::vector<Poly> mono = monomials(O);
	std::vector<Poly> f;
	for (auto& q : mono) f.push_back((q.d(0).d(0) + q.d(1).d(1)) * Poly(-1));
	System<T> s(n, f.size());
	assemble<T, O>(m, s, f);
	double ext = 1;
	for (auto& q : p.pts) ext = std::max(ext, std::max(std::fabs(q[0]), std::fabs(q[1])));
	const double size = ext * ext;

	// values of the polynomials at the nodes
	std::vector<std::vector<double> > at(mono.size());
	for (size_t k = 0; k < mono.size(); ++k) for (size_t i = 0; i < n; ++i) { CK(m.vertex(i)->GlobalIndex == i, "number of node %d", (int)i); at[k].push_back(mono[k]((double)m.vertex(i)->Vertex[0], (double)m.vertex(i)->Vertex[1])); }
	// interpolation within the elements: values and gradients
	const SF sf;
	static const double in[3][2] = {{0.25, 0.5}, {0, 0.75}, {0.125, 0.0625}};
	for (size_t t = 0; t < m.elements().size(); ++t)
	{
		const auto* e = m.element(t);
		for (auto& x : in)
		{
			const FixedVector<T, 2> l = vec<T>(x[0], x[1]), g = e->Element.toGlobal(l);
			// gradients by the chain rule: d/dx_a = sum_b J^-1(b,a) d/dl_b
			const auto inv = e->Element.inverseMatrix();
			double big = 0;
			for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) big = std::max(big, (double)std::fabs(inv.at(a, b)));
			for (size_t k = 0; k < mono.size(); ++k)
			{
				double v = 0, d[2] = {0, 0};
				for (Index i = 0; i < SF::DOF; ++i)
				{
					const double y = at[k][e->DOFVertices[i]->GlobalIndex];
					v += y * (double)sf.value(i, l);
					const FixedVector<T, 2> q = sf.gradient(i, l);
					for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) d[a] += y * (double)inv.at(b, a) * (double)q[b];
				}
				CK(std::fabs(v - mono[k]((double)g[0], (double)g[1])) <= 10 * tol<T>() * size, "element %d: the interpolated value at local (%g,%g) is %.12g, the polynomial %d has %.12g", (int)t, x[0], x[1], v, (int)k, mono[k]((double)g[0], (double)g[1]));
				for (int a = 0; a < 2; ++a) { const double w = mono[k].d(a)((double)g[0], (double)g[1]); CK(std::fabs(d[a] - w) <= 20 * tol<T>() * size * (1 + big), "element %d: the interpolated derivative %d at local (%g,%g) is %.12g, the polynomial %d has %.12g", (int)t, a, x[0], x[1], d[a], (int)k, w); }
			}
		}
	}

	// the matrices
	std::vector<std::vector<double> > K(n, std::vector<double>(n)), M = K;
	double big = 0, bigM = 0, sum = 0;
	for (Index i = 0; i < n; ++i) for (Index j = 0; j < n; ++j) { K[i][j] = (double)s.K.at(i, j); M[i][j] = (double)s.M.at(i, j); big = std::max(big, std::fabs(K[i][j])); bigM = std::max(bigM, std::fabs(M[i][j])); sum += M[i][j]; }
	for (size_t i = 0; i < n; ++i)
	{
		double row = 0;
		for (size_t j = 0; j < n; ++j)
		{
			row += K[i][j];
			CK(std::fabs(K[i][j] - K[j][i]) <= tol<T>() * big, "stiffness (%d,%d) is %.12g, transposed %.12g", (int)i, (int)j, K[i][j], K[j][i]);
			CK(std::fabs(M[i][j] - M[j][i]) <= tol<T>() * bigM, "mass (%d,%d) is %.12g, transposed %.12g", (int)i, (int)j, M[i][j], M[j][i]);
		}
		CK(std::fabs(row) <= 10 * tol<T>() * big, "row %d of the stiffness matrix sums to %.12g", (int)i, row);
		CK(K[i][i] > 0, "stiffness (%d,%d) is %.12g", (int)i, (int)i, K[i][i]);
	}
	const double area = integral(p, Poly(1));
	CK(std::fabs(sum - area) <= tol<T>() * area * n, "the mass entries sum to %.12g, the area is %.12g", sum, area);
	for (size_t a = 0; a < mono.size(); ++a)
	{
		double l = 0, sa = 0;
		for (size_t i = 0; i < n; ++i) l += (double)s.load[a].at(i);
		const double lw = integral(p, f[a], &sa);
		CK(std::fabs(l - lw) <= 10 * tol<T>() * (1 + sa), "the load of polynomial %d sums to %.12g, expected %.12g", (int)a, l, lw);
		for (size_t b = 0; b < mono.size(); ++b)
		{
			double k = 0, w = 0, sk = 0, sw = 0;
			for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { const double ab = at[a][i] * at[b][j]; k += K[i][j] * ab; w += M[i][j] * ab; sk += std::fabs(K[i][j] * ab); sw += std::fabs(M[i][j] * ab); }
			const double kw = integral(p, mono[a].d(0) * mono[b].d(0) + mono[a].d(1) * mono[b].d(1));
			CK(std::fabs(k - kw) <= 10 * tol<T>() * (1 + sk), "stiffness of polynomials %d and %d is %.12g, expected %.12g", (int)a, (int)b, k, kw);
			int deg = 0;
			for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) { if (mono[a].a[i][j] != 0) deg += i + j; if (mono[b].a[i][j] != 0) deg += i + j; }
			if (deg > O + 1) continue;	// the rule is not exact for it
			const double ww = integral(p, mono[a] * mono[b]);
			CK(std::fabs(w - ww) <= 10 * tol<T>() * (1 + sw), "mass of polynomials %d and %d is %.12g, expected %.12g", (int)a, (int)b, w, ww);
		}
	}

	// Poisson's equation with the polynomial on the boundary
	double mid = 0;
	for (size_t i = 0; i < n; ++i) mid += K[i][i] / n;
	SparseMatrix<T> A = s.K;
	for (size_t i = 0; i < n; ++i) if (m.vertex(i)->Flags & MVF_StrongBoundary)
	{
		for (size_t j = 0; j < n; ++j)
		{
			for (size_t k = 0; k < mono.size(); ++k) s.load[k].set(j, s.load[k].at(j) - s.K.at(j, i) * (T)at[k][i]);
			A.set(i, j, T(0));
			A.set(j, i, T(0));
		}
		A.set(i, i, (T)mid);
	}
	for (size_t i = 0; i < n; ++i) if (m.vertex(i)->Flags & MVF_StrongBoundary) for (size_t k = 0; k < mono.size(); ++k) s.load[k].set(i, (T)(mid * at[k][i]));
	for (int how = 0; how < Solvers; ++how)
	{
		if (!(solvers >> how & 1)) continue;
		const auto x = solve(how, A, s.load);
		c.transition();
		for (size_t k = 0; k < mono.size(); ++k) for (size_t i = 0; i < n; ++i)
			CK(std::fabs((double)x[k].at(i) - at[k][i]) <= (sizeof(T) == 4 ? 5e-2 : 1e-7) * size, "order %d, %s: the solution at node %d (%g,%g) is %.12g, the polynomial %d has %.12g", O, SOLVER[how], (int)i, (double)m.vertex(i)->Vertex[0], (double)m.vertex(i)->Vertex[1], (double)x[k].at(i), (int)k, at[k][i]);
	}
}
static const unsigned ALL = (1u << Solvers) - 1;
template<class T, int O> void planar(mc::Ctx& c, const Plan& p, unsigned solvers)
{
	Mesh<T, 2> m;
	build(p, m);
	m.setupNeighbors();
	m.setupBoundaries();
	patch<T, O>(c, m, p, solvers);
}
template<class T, int O> void planarAll(mc::Ctx& c, int64_t many)
{
	uint64_t k = 0;
	eachPlanar(c, many, [&](Plan& p) { planar<T, O>(c, p, k % 8 == 0 ? ALL : 1u << (k % Solvers)); ++k; });
}
// Every ordering up to six elements is followed for order 1, a part of them in the quick run for order 2
MC_SECTION(planar_1) { planarAll<double, 1>(c, c.thorough ? 2000 : 300); }
MC_SECTION(planar_2) { planarAll<double, 2>(c, c.thorough ? 2000 : 60); }
MC_SECTION(planar_float) { planarAll<float, 1>(c, 60); }

// Other units and places
template<class T, int O> void frames(mc::Ctx& c)
{
	static const Frame fr[] = {{1.0 / 256, 0, 0}, {64, 0, 0}, {1, 32, -16}, {0.1, 0, 0}, {1.0 / 3, 1, -1}, {-1, 0, 0}, {1e-4, 0, 0}};
	const std::vector<Plan> fam = family();
	for (size_t k = 0; k < fam.size(); ++k) for (size_t q = 0; q < sizeof fr / sizeof *fr; ++q) for (int y = 0; y < 6; ++y)
	{
		if (!c.begin({(int64_t)k, (int64_t)q, y})) continue;
		Plan p = framed<T>(fam[k], fr[q]);
		for (size_t t = 0; t < p.tris.size(); ++t) p.tris[t] = turned(p.tris[t], (int)(y + t) % 6);
		NOTE("%s", p.text().c_str());
		planar<T, O>(c, p, (1u << SparseLU) | (1u << (1 + (k + q + y) % (Solvers - 1))));
	}
}
MC_SECTION(frames_1) { frames<double, 1>(c); }
MC_SECTION(frames_2) { frames<double, 2>(c); }

// Quadrilaterals and fans with the points moved over a lattice
template<int O> void moved(mc::Ctx& c, int L)
{
	const int n = 2 * L + 1, N = n * n;
	for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) for (int y = 0; y < 6; ++y)
	{
		Plan p;
		p.pts = {{{-4, -4}}, {{4.0 + i % n - L, -4.0 + i / n - L}}, {{4, 4}}, {{-4, 4}}, {{(double)(j % n - L), (double)(j / n - L)}}};
		p.tris = {turned(Tri3{{0, 1, 4}}, y), turned(Tri3{{1, 2, 4}}, (y + i) % 6), turned(Tri3{{2, 3, 4}}, (y * 5 + j) % 6), turned(Tri3{{3, 0, 4}}, (y + i + j) % 6)};
		bool ok = true;
		const double sign[4] = {p.area2(0), p.area2(1), p.area2(2), p.area2(3)};
		double total = 0;
		for (double a : sign) { ok = ok && std::fabs(a) > 0.5; total += std::fabs(a); }
		// covered once
		const auto &a = p.pts[0], &b = p.pts[1], &d = p.pts[2], &e = p.pts[3];
		const double hull = std::fabs((b[0] - a[0]) * (d[1] - a[1]) - (d[0] - a[0]) * (b[1] - a[1])) + std::fabs((d[0] - a[0]) * (e[1] - a[1]) - (e[0] - a[0]) * (d[1] - a[1]));
		if (!ok || std::fabs(total - hull) > 1e-9) continue;
		if (!c.begin({i, j, y})) continue;
		NOTE("%s", p.text().c_str());
		planar<double, O>(c, p, ALL);
	}
}
MC_SECTION(moved_1) { moved<1>(c, c.thorough ? 3 : 2); }
MC_SECTION(moved_2) { moved<2>(c, c.thorough ? 3 : 2); }
// Generated grids
template<class T, int O> void grids(mc::Ctx& c, int N)
{
	static const double place[][4] = {{1, 1, 0, 0}, {3, 0.5, -1, 2}, {0.25, 2, 0, -3}};
	for (int x = 1; x <= N; ++x) for (int y = 1; y <= N; ++y) for (int q = 0; q < 3; ++q)
	{
		if (!c.begin({x, y, q})) continue;
		NOTE("%d x %d cells, order %d", x, y, O);
		FixedVector<Dimension, 2> cells;
		cells[0] = x; cells[1] = y;
		Mesh<T, 2> m = HyperCube<T, 2>::generate(cells, vec<T>(place[q][0], place[q][1]), vec<T>(place[q][2], place[q][3]));
		Plan p;
		for (auto* v : m.vertices()) p.pts.push_back({{(double)v->Vertex[0], (double)v->Vertex[1]}});
		for (auto* e : m.elements()) p.tris.push_back(Tri3{{(int)e->Vertices[0]->GlobalIndex, (int)e->Vertices[1]->GlobalIndex, (int)e->Vertices[2]->GlobalIndex}});
		// the domain itself
		const double area = integral(p, Poly(1));
		CK(std::fabs(area - place[q][0] * place[q][1]) <= tol<T>() * area, "the grid has the area %.12g", area);
		patch<T, O>(c, m, p, ALL);
	}
}
MC_SECTION(grid_1) { grids<double, 1>(c, c.thorough ? 8 : 5); }
MC_SECTION(grid_2) { grids<double, 2>(c, c.thorough ? 5 : 3); }
MC_SECTION(grid_float) { grids<float, 1>(c, 4); }

// The example program: the matrix it writes is that of the problem with zero on the boundary
template<int O> void example(mc::Ctx& c, const Plan& p)
{
	const char* dir = getenv("MC_TMP");
	if (chdir(dir ? dir : "/tmp")) c.fail("no scratch folder");
	const std::string sub = "example" + std::to_string(getpid());
	mkdir(sub.c_str(), 0700);
	if (chdir(sub.c_str())) c.fail("no scratch folder");
	{
		std::ofstream node("m.node"), ele("m.ele");
		node.precision(17);
		node << p.pts.size() << " 2 0 0\n";
		for (size_t k = 0; k < p.pts.size(); ++k) node << k << " " << p.pts[k][0] << " " << p.pts[k][1] << "\n";
		ele << p.tris.size() << " 3 0\n";
		for (size_t k = 0; k < p.tris.size(); ++k) ele << k << " " << p.tris[k][0] << " " << p.tris[k][1] << " " << p.tris[k][2] << "\n";
	}
	Mesh<double, 2> m = MeshTriangleLoader<double>::loadFile("m.node", "m.ele");
	m.setupBoundaries();
	std::ostringstream o;
	std::streambuf* old = std::cout.rdbuf(o.rdbuf());
	char order[2] = {(char)('0' + O), 0};
	char arg[6][8] = {"fem", "1", "", "2", "m.node", "m.ele"};
	char* argv[] = {arg[0], arg[1], order, arg[3], arg[4], arg[5], nullptr};
	const int rc = ns_example_main(6, argv);
	std::cout.rdbuf(old);
	CK(rc == 0, "the example ended with status %d: %s", rc, o.str().c_str());
	c.transition();
	m.prepare();
	PolyShapeFunction<double, 2, O>::prepareMesh(m);
	const size_t n = m.vertices().size();
	System<double> s(n, 0);
	assemble<double, O>(m, s, std::vector<Poly>());
	std::vector<double> A(n * n, 0);
	std::ifstream f("poisson_fem_A.dat");
	int i, j;
	double v, big = 0;
	while (f >> i >> j >> v) { CK(i >= 1 && j >= 1 && i <= (int)n && j <= (int)n, "the example wrote an entry (%d,%d)", i, j); A[(i - 1) * n + j - 1] = v; }
	for (size_t k = 0; k < n; ++k) big = std::max(big, s.K.at(k, k));
	// Recorded finding: the example leaves out the transposition of the inverse jacobian
	System<double> r(n, 0);
	assemble<double, O>(m, r, std::vector<Poly>(), false);
	std::string wrong, other;
	char text[256];
	for (size_t k = 0; k < n; ++k) for (size_t l = 0; l < n; ++l)
	{
		const bool b = (m.vertex(k)->Flags | m.vertex(l)->Flags) & MVF_StrongBoundary;
		const double v = A[k * n + l];
		if (b && k == l) { CK(v > 0, "the example's diagonal entry %d of the boundary is %g", (int)k, v); continue; }
		c.s->evals++;
		snprintf(text, sizeof text, "the example's matrix has %.12g at (%d,%d), expected %.12g", v, (int)k, (int)l, b ? 0 : s.K.at(k, l));
		if (!(std::fabs(v - (b ? 0 : s.K.at(k, l))) <= 1e-5 * big)) wrong = text;
		if (!(std::fabs(v - (b ? 0 : r.K.at(k, l))) <= 1e-5 * big)) other = text;
	}
	if (!wrong.empty() && other.empty()) mc::known(c, "example-transposition");
	else CK(wrong.empty(), "%s", wrong.c_str());
	f.close();
	for (const char* q : {"poisson_fem_A.dat", "poisson_fem_B.dat", "poisson_fem_data.dat", "poisson_fem_mesh.dat", "poisson_fem_ExactError.dat", "poisson_fem_PostError.dat", "poisson_fem.vtu", "m.node", "m.ele"}) unlink(q);
	if (chdir("..") || rmdir(sub.c_str())) c.fail("scratch folder");
}
MC_SECTION(example_program)
{
	const std::vector<Plan> fam = family();
	for (size_t k = 0; k < fam.size(); ++k) for (int y = 0; y < 7; ++y)
	{
		Plan p = fam[k];
		bool inner = false;
		for (char b : border(p)) inner = inner || !b;
		for (size_t t = 0; t < p.tris.size(); ++t) p.tris[t] = turned(fam[k].tris[t], y < 6 ? y : (int)(t * 5 % 6));
		if (!c.begin({(int64_t)k, y})) continue;
		NOTE("%s", p.text().c_str());
		if (inner) example<1>(c, p);
		if (p.tris.size() > 1) example<2>(c, p);
	}
}

}
using namespace vf;

int main(int argc, char** argv)
{
	return mc::main_(argc, argv, mc::Meta{"C29", "exploration",
		"a case is one mesh (shape, order of its elements, order of the vertices in each, placement of its points); for it the mass and stiffness matrices are assembled from the library's parts and compared with exact integrals for all monomials up to the element order, and the boundary value problems of all these monomials are solved and compared at every node",
		{"orders 1 and 2", "mass integrals up to the exactness of the rule, which is the element order plus one", "every mesh is solved by one solver at least, every eighth of the planar family and all others by all eight"}});
}
