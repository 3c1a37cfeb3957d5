// C22: grids of triangles on rectangles
#include "mesh.h"
#include "mesh/HyperCube.h"

namespace vf {	// names the library may use as well
using namespace NS;

template<class T> void grid(mc::Ctx& c, int nx, int ny, double sx, double sy, double ox, double oy)
{
	FixedVector<Dimension, 2> n;
	n[0] = (Dimension)nx; n[1] = (Dimension)ny;
	const FixedVector<T, 2> size = vec<T>(sx, sy), off = vec<T>(ox, oy);
	const Mesh<T, 2> m0 = HyperCube<T, 2>::generate(n, size, off);
	Mesh<T, 2> m(m0);
	c.transition();
	c.nontrivial();
	const double eps = mc::tolerance<T>(), tx = 20 * eps * (std::fabs(ox) + sx), ty = 20 * eps * (std::fabs(oy) + sy);
	CK(n[0] == (Dimension)nx && n[1] == (Dimension)ny && size[0] == (T)sx && off[1] == (T)oy, "an argument changed");
	CK((int)m.vertices().size() == (nx + 1) * (ny + 1), "%d vertices, expected %d", (int)m.vertices().size(), (nx + 1) * (ny + 1));
	CK((int)m.elements().size() == 2 * nx * ny, "%d elements, expected %d", (int)m.elements().size(), 2 * nx * ny);
	// every lattice point once
	std::vector<int> at((nx + 1) * (ny + 1), -1);	// lattice point -> vertex
	std::map<const MeshVertex<T, 2>*, int> place;
	Plan p;
	for (size_t i = 0; i < m.vertices().size(); ++i)
	{
		const auto* v = m.vertex(i);
		const double fx = ((double)v->Vertex[0] - ox) / sx * nx, fy = ((double)v->Vertex[1] - oy) / sy * ny;
		const int x = (int)std::floor(fx + 0.5), y = (int)std::floor(fy + 0.5);
		CK(x >= 0 && x <= nx && y >= 0 && y <= ny, "vertex %d at (%.17g,%.17g) is outside", (int)i, (double)v->Vertex[0], (double)v->Vertex[1]);
		CK(std::fabs((double)v->Vertex[0] - (ox + sx * x / nx)) <= tx && std::fabs((double)v->Vertex[1] - (oy + sy * y / ny)) <= ty, "vertex %d at (%.17g,%.17g) is not on the lattice", (int)i, (double)v->Vertex[0], (double)v->Vertex[1]);
		CK(at[y * (nx + 1) + x] < 0, "two vertices at lattice point (%d,%d)", x, y);
		at[y * (nx + 1) + x] = (int)i;
		place[v] = y * (nx + 1) + x;
		const bool border = x == 0 || x == nx || y == 0 || y == ny;
		CK(v->Flags == (border ? (unsigned)MVF_StrongBoundary : 0u), "vertex at lattice point (%d,%d) has flags %u", x, y, v->Flags);
		p.pts.push_back({{(double)v->Vertex[0], (double)v->Vertex[1]}});
	}
	// every cell has two elements with three of its corners each, the diagonal shared
	std::vector<std::vector<unsigned> > cell(nx * ny);
	for (size_t t = 0; t < m.elements().size(); ++t)
	{
		const auto* e = m.element(t);
		Tri3 w;
		int x0 = nx + 1, y0 = ny + 1;
		for (int i = 0; i < 3; ++i) { CK(place.count(e->Vertices[i]), "element %d, vertex %d", (int)t, i); const int q = place[e->Vertices[i]]; w[i] = at[q]; x0 = std::min(x0, q % (nx + 1)); y0 = std::min(y0, q / (nx + 1)); }
		p.tris.push_back(w);
		unsigned mask = 0;
		for (int i = 0; i < 3; ++i)
		{
			const int q = place[e->Vertices[i]], dx = q % (nx + 1) - x0, dy = q / (nx + 1) - y0;
			CK(dx <= 1 && dy <= 1, "element %d spans more than a cell", (int)t);
			mask |= 1u << (dy * 2 + dx);
		}
		CK(__builtin_popcount(mask) == 3, "element %d is no triangle of a cell", (int)t);
		cell[y0 * nx + x0].push_back(mask);
	}
	for (int i = 0; i < nx * ny; ++i) CK(cell[i].size() == 2 && (cell[i][0] ^ cell[i][1]) != 0 && (cell[i][0] | cell[i][1]) == 15 && ((cell[i][0] & cell[i][1]) == 6 || (cell[i][0] & cell[i][1]) == 9), "cell (%d,%d) has %d elements, which do not cover it once", i % nx, i / nx, (int)cell[i].size());
	sameParts(c, m, p);
	sameEdges(c, m, p);
	m.prepare();
	double sum = 0;
	for (size_t t = 1; t < m.elements().size(); ++t) CK(((double)m.element(t)->Element.determinant() > 0) == ((double)m.element(0)->Element.determinant() > 0), "element %d is oriented the other way", (int)t);
	for (size_t t = 0; t < m.elements().size(); ++t) { CK((double)m.element(t)->Element.volume() > 0, "area of element %d is %g", (int)t, (double)m.element(t)->Element.volume()); sum += (double)m.element(t)->Element.volume(); }
	const double area = sx * sy, slack = 100 * eps * (nx + ny + 1) * (area + (std::fabs(ox) + std::fabs(oy)) * (sx + sy) * (nx + ny));
	CK(std::fabs(sum - area) <= slack, "the areas add up to %.17g, expected %.17g", sum, area);
	if (sx / nx * sy / ny / 2 > 100 * eps) m.validate();
}
static const double EXT[][4] = {{1, 1, 0, 0}, {2, 1, 0, 0}, {1, 3, -1, 2}, {0.1, 7, 100, -3}, {0.3, 0.7, 0, 0}, {5, 0.25, -2.5, 0.125}, {1e-5, 3e-5, 0, 1e-4}, {1e6, 3e-4, -1e6, 0}, {1e9, 2e9, 5e9, -7e8}};
template<class T> void all(mc::Ctx& c)
{
	const int N = c.thorough ? 16 : 10;
	for (int nx = 1; nx <= N; ++nx) for (int ny = 1; ny <= N; ++ny) for (size_t e = 0; e < sizeof EXT / sizeof *EXT; ++e)
	{
		if (!c.begin({nx, ny, (int64_t)e})) continue;
		NOTE("%d x %d cells on %g x %g from (%g,%g)", nx, ny, EXT[e][0], EXT[e][1], EXT[e][2], EXT[e][3]);
		grid<T>(c, nx, ny, EXT[e][0], EXT[e][1], EXT[e][2], EXT[e][3]);
	}
}
MC_REGISTER(grids, all<double>);
MC_REGISTER(grids_float, all<float>);
MC_REGISTER(grids_long_double, all<long double>);
MC_SECTION(strips)
{
	const int N = c.thorough ? 1000 : 200;
	for (int n = 1; n <= N; n += n < 40 ? 1 : n < 200 ? 13 : 97) for (int k = 1; k <= 2; ++k) for (int d = 0; d < 2; ++d) for (size_t e = 0; e < sizeof EXT / sizeof *EXT; ++e)
	{
		if (!c.begin({n, k, d, (int64_t)e})) continue;
		NOTE("%d x %d cells", d ? n : k, d ? k : n);
		grid<double>(c, d ? n : k, d ? k : n, EXT[e][0], EXT[e][1], EXT[e][2], EXT[e][3]);
	}
}
// Beyond the ranges of 8 and 16 bits: vertices, elements, cells per row and rows
static const int LONG[][2] = {{1, 260}, {260, 1}, {254, 2}, {2, 255}, {255, 3}, {3, 256}, {257, 5}, {16, 17}, {130, 127}, {181, 182}, {256, 255}, {255, 256}, {257, 256}, {300, 220}, {1, 33000}, {33000, 1}, {1, 66000}, {66000, 1}};
template<class T> void large(mc::Ctx& c)
{
	const int E = c.thorough ? (int)(sizeof EXT / sizeof *EXT) : 1;
	for (size_t k = 0; k < sizeof LONG / sizeof *LONG; ++k) for (int e = 0; e < E; ++e)
	{
		if (!c.begin({(int64_t)k, e})) continue;
		const double x = LONG[k][0], y = LONG[k][1];
		NOTE("%g x %g cells on %g x %g from (%g,%g)", x, y, EXT[e][0] * x, EXT[e][1] * y, EXT[e][2], EXT[e][3]);
		grid<T>(c, LONG[k][0], LONG[k][1], EXT[e][0] * x, EXT[e][1] * y, EXT[e][2], EXT[e][3]);
	}
}
MC_REGISTER(large, large<double>);
MC_REGISTER(large_float, large<float>);

}
using namespace vf;

int main(int argc, char** argv)
{
	mc::Meta m;
	m.property = "C22";
	m.level = "exploration";
	m.rule = "a case is one pair of cell counts with one extent and position of the rectangle; vertices, cells, boundary marks, links and areas are compared with the lattice";
	m.assumptions = {"two dimensions, the only ones that are implemented", "positive extents"};
	return mc::main_(argc, argv, m);
}
