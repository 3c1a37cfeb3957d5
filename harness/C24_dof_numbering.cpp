// C24: numbering of the degrees of freedom
#include "mesh.h"
#include "sf/PolyShapeFunction.h"

namespace vf {	// names the library may use as well
using namespace NS;

template<class T, int O> void one(mc::Ctx& c, const Plan& p, bool marks)
{
	Mesh<T, 2> m;
	build(p, m);
	m.setupNeighbors();
	if (marks) m.setupBoundaries();
	c.transition();
	c.nontrivial();
	PolyShapeFunction<T, 2, O>::prepareMesh(m);
	const size_t V = p.pts.size();
	const auto edges = p.edges();
	const std::vector<char> b = border(p);
	CK(m.vertices().size() == V + (O == 2 ? edges.size() : 0), "%d nodes, expected %d", (int)m.vertices().size(), (int)(V + (O == 2 ? edges.size() : 0)));
	CK(m.elements().size() == p.tris.size(), "%d elements", (int)m.elements().size());
	for (size_t i = 0; i < m.vertices().size(); ++i)
	{
		const auto* v = m.vertex(i);
		CK(v->GlobalIndex == i, "node %d has the number %d", (int)i, (int)v->GlobalIndex);
		if (i >= V) continue;
		CK((double)v->Vertex[0] == p.pts[i][0] && (double)v->Vertex[1] == p.pts[i][1], "vertex %d is at (%g,%g)", (int)i, (double)v->Vertex[0], (double)v->Vertex[1]);
		CK(v->Flags == (marks && b[i] ? (unsigned)MVF_StrongBoundary : 0u), "vertex %d has flags %u", (int)i, v->Flags);
	}
	// the middle of an edge, as every element shows it
	std::map<std::pair<int, int>, const MeshVertex<T, 2>*> mid;
	std::map<const MeshVertex<T, 2>*, std::vector<int> > users;
	std::set<const MeshVertex<T, 2>*> used;
	for (size_t t = 0; t < p.tris.size(); ++t)
	{
		const auto* e = m.element(t);
		CK((int)e->DOFVertices.size() == (O == 1 ? 3 : 6), "element %d has %d nodes", (int)t, (int)e->DOFVertices.size());
		for (int i = 0; i < 3; ++i)
		{
			CK(e->Vertices[i] == m.vertex(p.tris[t][i]) && e->DOFVertices[i] == e->Vertices[i], "element %d: node %d is not the vertex", (int)t, i);
			used.insert(e->Vertices[i]);
		}
		if (O == 1) continue;
		static const int ends[3][2] = {{0, 1}, {1, 2}, {0, 2}};
		for (int k = 0; k < 3; ++k)
		{
			const int a = p.tris[t][ends[k][0]], d = p.tris[t][ends[k][1]];
			const auto* v = e->DOFVertices[3 + k];
			const double x = (p.pts[a][0] + p.pts[d][0]) / 2, y = (p.pts[a][1] + p.pts[d][1]) / 2;
			const double ulp = 4 * std::numeric_limits<T>::epsilon();	// the middle may be rounded
			CK(std::fabs((double)v->Vertex[0] - x) <= ulp * (std::fabs(p.pts[a][0]) + std::fabs(p.pts[d][0])) && std::fabs((double)v->Vertex[1] - y) <= ulp * (std::fabs(p.pts[a][1]) + std::fabs(p.pts[d][1])), "element %d: node %d is at (%g,%g), expected (%g,%g)", (int)t, 3 + k, (double)v->Vertex[0], (double)v->Vertex[1], x, y);
			CK(v->GlobalIndex >= V && v->GlobalIndex < m.vertices().size() && m.vertex(v->GlobalIndex) == v, "element %d: node %d has the number %d", (int)t, 3 + k, (int)v->GlobalIndex);
			const std::pair<int, int> key(std::min(a, d), std::max(a, d));
			if (!mid.count(key)) { CK(used.insert(v).second, "element %d: node %d belongs to another edge too", (int)t, 3 + k); mid[key] = v; }
			CK(mid[key] == v, "elements at the edge %d-%d have different nodes on it", key.first, key.second);
			users[v].push_back((int)t);
			const bool out = edges.at(key).size() == 1;
			CK(v->Flags == (unsigned)(MVF_Implicit | (out ? MVF_StrongBoundary : 0)), "node on the edge %d-%d has flags %u", key.first, key.second, v->Flags);
		}
	}
	for (auto& u : users)
	{
		CK(u.first->Elements.size() == u.second.size(), "node %d is connected to %d elements, expected %d", (int)u.first->GlobalIndex, (int)u.first->Elements.size(), (int)u.second.size());
		for (int t : u.second) CK(count_(u.first->Elements, [&](const MeshElement<T, 2>* e) { return e == m.element(t); }) == 1, "node %d is not connected to element %d", (int)u.first->GlobalIndex, t);
	}
	std::vector<int> degree(V, 0);
	for (auto& t : p.tris) for (int i = 0; i < 3; ++i) ++degree[t[i]];
	for (size_t i = 0; i < V; ++i) CK((int)m.vertex(i)->Elements.size() == degree[i], "vertex %d is connected to %d elements, expected %d", (int)i, (int)m.vertex(i)->Elements.size(), degree[i]);
	// nodes of edges
	CK(m.edges().size() == edges.size(), "%d edges, expected %d", (int)m.edges().size(), (int)edges.size());
	for (auto* e : m.edges())
	{
		const int a = (int)e->Vertices[0]->GlobalIndex, d = (int)e->Vertices[1]->GlobalIndex;
		const std::pair<int, int> key(std::min(a, d), std::max(a, d));
		CK(edges.count(key), "edge %d-%d", a, d);
		CK(e->DOFVertices.size() == (O == 1 ? 2 : 3), "edge %d-%d has %d nodes", a, d, (int)e->DOFVertices.size());
		CK((e->DOFVertices[0] == e->Vertices[0] && e->DOFVertices[1] == e->Vertices[1]) || (e->DOFVertices[0] == e->Vertices[1] && e->DOFVertices[1] == e->Vertices[0]), "edge %d-%d starts with other nodes", a, d);
		if (O == 2) CK(e->DOFVertices[2] == mid[key], "edge %d-%d has another node in its middle", a, d);
	}
	// consistent with the mesh's own rules, when no element is flat and every vertex is used
	bool fit = true;
	for (size_t t = 0; t < p.tris.size(); ++t) fit = fit && std::fabs(p.area2((int)t)) > 1e-3;	// not in small units
	for (size_t i = 0; i < V; ++i) fit = fit && !m.vertex(i)->Elements.empty();
	if (fit) { m.prepare(); m.validate(); }
}
template<class T> void both(mc::Ctx& c, const Plan& p, bool marks) { one<T, 1>(c, p, marks); one<T, 2>(c, p, marks); }

// Points whose middles are all different
static void general(Plan& p, int n)
{
	static const double q[6][2] = {{0, 0}, {8, 1}, {3, 7}, {-4, 5}, {1, -9}, {12, 13}};
	p.pts.clear();
	for (int i = 0; i < n; ++i) p.pts.push_back({{q[i][0], q[i][1]}});
}
template<class T, int N, int K> void ordered(mc::Ctx& c, bool all)
{
	eachOrdered<N, K>(c, all, [&](Plan& p, uint64_t k) { if (shared3(p)) return; general(p, N); NOTE("%s", p.text().c_str()); both<T>(c, p, k % 5 != 0); });
}
MC_SECTION(one_of_5) { ordered<double, 5, 1>(c, true); }
MC_SECTION(two_of_4) { ordered<double, 4, 2>(c, true); }
MC_SECTION(two_of_5) { ordered<double, 5, 2>(c, true); }
MC_SECTION(two_of_5_float) { ordered<float, 5, 2>(c, true); }
MC_SECTION(three_of_4) { ordered<double, 4, 3>(c, true); }
MC_SECTION(four_of_4) { ordered<double, 4, 4>(c, true); }
MC_SECTION(three_of_5) { ordered<double, 5, 3>(c, true); }
MC_SECTION(four_of_5) { ordered<double, 5, 4>(c, false); }
MC_SECTION(three_of_6) { ordered<double, 6, 3>(c, false); }
MC_SECTION(deep_four_of_5) { if (c.thorough) ordered<double, 5, 4>(c, true); }
MC_SECTION(deep_three_of_6) { if (c.thorough) ordered<double, 6, 3>(c, true); }
MC_SECTION(deep_four_of_6) { if (c.thorough) ordered<double, 6, 4>(c, false); }
MC_SECTION(planar) { eachPlanar(c, c.thorough ? 5000 : 500, [&](Plan& p) { both<double>(c, p, true); }); }
MC_SECTION(planar_float) { eachPlanar(c, 100, [&](Plan& p) { both<float>(c, p, true); }); }
// grids with many inner nodes
MC_SECTION(grids)
{
	const int N = c.thorough ? 9 : 6;
	for (int x = 1; x <= N; ++x) for (int y = 1; y <= N; ++y) for (int d = 0; d < 4; ++d)
	{
		if (!c.begin({x, y, d})) continue;
		NOTE("%d x %d cells, diagonals %d", x, y, d);
		Plan p;
		for (int j = 0; j <= y; ++j) for (int i = 0; i <= x; ++i) p.pts.push_back({{i * 0.5, j * 2.0}});
		for (int j = 0; j < y; ++j) for (int i = 0; i < x; ++i)
		{
			const int a = j * (x + 1) + i, b = a + 1, e = a + x + 1, f = e + 1;
			const bool up = d == 0 || (d == 2 && (i + j) % 2) || (d == 3 && i % 2);
			p.tris.push_back(turned(up ? Tri3{{a, b, f}} : Tri3{{a, b, e}}, (i + j * 3 + d) % 6));
			p.tris.push_back(turned(up ? Tri3{{a, f, e}} : Tri3{{b, f, e}}, (i * 5 + j + d) % 6));
		}
		both<double>(c, p, true);
	}
}

MC_SECTION(large) { eachLarge(c, c.thorough ? 1000 : 150, c.thorough ? 12 : 3, [&](Plan& p) { both<double>(c, p, true); }); }

// Other units and places
template<class T> void frames(mc::Ctx& c)
{
	const std::vector<Plan> fam = family();
	std::vector<Frame> fr(DYADIC, DYADIC + sizeof DYADIC / sizeof *DYADIC);
	fr.insert(fr.end(), ODD, ODD + sizeof ODD / sizeof *ODD);
	if (sizeof(T) == 8) { fr.push_back({std::ldexp(1, -400), 0, 0}); fr.push_back({std::ldexp(1, 400), 0, 0}); fr.push_back({1, 1e9, -1e12}); }
	for (size_t k = 0; k < fam.size(); ++k) for (size_t q = 0; q < fr.size(); ++q) for (int o = 0; o < 3; ++o) for (int y = 0; y < 6; ++y)
	{
		if (!c.begin({(int64_t)k, (int64_t)q, o, y})) continue;
		Plan p = framed<T>(fam[k], fr[q]);
		if (o == 1) std::reverse(p.tris.begin(), p.tris.end());
		if (o == 2) std::rotate(p.tris.begin(), p.tris.begin() + p.tris.size() / 2, p.tris.end());
		for (size_t t = 0; t < p.tris.size(); ++t) p.tris[t] = turned(p.tris[t], (int)(y + t * o) % 6);
		NOTE("%s", p.text().c_str());
		both<T>(c, p, y != 3);
	}
}
MC_REGISTER(frames_double, frames<double>);
MC_REGISTER(frames_float, frames<float>);
MC_REGISTER(frames_long_double, frames<long double>);
// Beyond 8 and 16 bits
MC_SECTION(big) { eachBig(c, c.thorough ? 1 << 30 : 70000, c.thorough ? 3 : 1, [&](Plan& p) { both<double>(c, p, true); }); }

}
using namespace vf;

int main(int argc, char** argv)
{
	mc::Meta m;
	m.property = "C24";
	m.level = "exploration";
	m.rule = "a case is one list of triangles (set, order, and order of the vertices in each), numbered for order 1 and 2; nodes, sharing, positions, marks and links are compared with those computed from the list as sets";
	m.assumptions = {"orders 1 and 2, the only ones whose numbering is implemented", "each mesh is numbered once"};
	return mc::main_(argc, argv, m);
}
