// Triangle complexes as plain data, and the meshes of the library made from them
#pragma once
#include "mc.h"
#include <array>
#include <memory>
#include "mesh/Mesh.h"

namespace vf {	// names the library may use as well
using namespace NS;

typedef std::array<int, 3> Tri3;

struct Plan	// what a mesh should be
{
	std::vector<std::array<double, 2> > pts;
	std::vector<Tri3> tris;
	double area2(int t) const
	{
		const auto &a = pts[tris[t][0]], &b = pts[tris[t][1]], &d = pts[tris[t][2]];
		return (b[0] - a[0]) * (d[1] - a[1]) - (d[0] - a[0]) * (b[1] - a[1]);
	}
	// edge -> elements
	std::map<std::pair<int, int>, std::vector<int> > edges() const
	{
		std::map<std::pair<int, int>, std::vector<int> > r;
		for (size_t t = 0; t < tris.size(); ++t)
			for (int i = 0; i < 3; ++i)
			{
				const int a = tris[t][(i + 1) % 3], b = tris[t][(i + 2) % 3];
				r[{std::min(a, b), std::max(a, b)}].push_back((int)t);
			}
		return r;
	}
	std::string text() const
	{
		std::string s = "vertices";
		for (auto& p : pts) { char b[64]; snprintf(b, sizeof b, " (%g,%g)", p[0], p[1]); s += b; }
		s += "; elements";
		for (auto& t : tris) s += " " + std::to_string(t[0]) + "-" + std::to_string(t[1]) + "-" + std::to_string(t[2]);
		return s;
	}
};
static const int ORIENT[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}};
inline Tri3 turned(const Tri3& t, int k) { return Tri3{{t[ORIENT[k][0]], t[ORIENT[k][1]], t[ORIENT[k][2]]}}; }

template<class T> NS::FixedVector<T, 2> vec(double x, double y) { NS::FixedVector<T, 2> v; v[0] = (T)x; v[1] = (T)y; return v; }

// Vertices and elements only
template<class T> void build(const Plan& p, NS::Mesh<T, 2>& m)
{
	for (auto& q : p.pts) m.addVertex(new NS::MeshVertex<T, 2>(vec<T>(q[0], q[1])));
	for (auto& t : p.tris)
	{
		auto* e = new NS::MeshElement<T, 2>();
		for (int i = 0; i < 3; ++i) e->Vertices[i] = m.vertex(t[i]);
		m.addElement(e);
	}
}

template<class E, class F> int count_(const E& list, F f) { int n = 0; for (auto& x : list) n += f(x); return n; }

// Vertices, elements and their links are those of the plan
template<class T> void sameParts(mc::Ctx& c, const NS::Mesh<T, 2>& m, const Plan& p)
{
	CK(m.vertices().size() == p.pts.size(), "%d vertices, expected %d", (int)m.vertices().size(), (int)p.pts.size());
	CK(m.elements().size() == p.tris.size(), "%d elements, expected %d", (int)m.elements().size(), (int)p.tris.size());
	std::vector<std::vector<const NS::MeshElement<T, 2>*> > at(p.pts.size());
	for (size_t t = 0; t < p.tris.size(); ++t)
		for (int i = 0; i < 3; ++i) at[p.tris[t][i]].push_back(m.element(t));
	for (size_t i = 0; i < p.pts.size(); ++i)
	{
		const auto* v = m.vertex(i);
		CK(v == m.vertices()[i] && v->GlobalIndex == i, "vertex %d has the index %d", (int)i, (int)v->GlobalIndex);
		CK((double)v->Vertex[0] == p.pts[i][0] && (double)v->Vertex[1] == p.pts[i][1], "vertex %d is at (%g,%g)", (int)i, (double)v->Vertex[0], (double)v->Vertex[1]);
		std::vector<const NS::MeshElement<T, 2>*> got(v->Elements.begin(), v->Elements.end());
		CK(got.size() == at[i].size(), "vertex %d is connected to %d elements, expected %d", (int)i, (int)got.size(), (int)at[i].size());
		std::sort(got.begin(), got.end());
		std::sort(at[i].begin(), at[i].end());
		CK(got == at[i], "vertex %d is connected to other elements", (int)i);
	}
	for (size_t t = 0; t < p.tris.size(); ++t)
		for (int i = 0; i < 3; ++i)
		{
			const auto* e = m.element(t);
			CK(e == m.elements()[t] && e->Vertices[i] == m.vertex(p.tris[t][i]), "element %d has another vertex %d", (int)t, i);
			CK((double)e->Element[i][0] == p.pts[p.tris[t][i]][0] && (double)e->Element[i][1] == p.pts[p.tris[t][i]][1], "element %d, corner %d is at (%g,%g)", (int)t, i, (double)e->Element[i][0], (double)e->Element[i][1]);
		}
}
// Edges and neighbours
template<class T> void sameEdges(mc::Ctx& c, const NS::Mesh<T, 2>& m, const Plan& p)
{
	const auto want = p.edges();
	CK(m.edges().size() == want.size(), "%d edges, expected %d", (int)m.edges().size(), (int)want.size());
	std::map<const NS::MeshElement<T, 2>*, int> id;
	for (size_t t = 0; t < p.tris.size(); ++t) id[m.element(t)] = (int)t;
	std::map<const NS::MeshVertex<T, 2>*, int> vid;
	for (size_t j = 0; j < p.pts.size(); ++j) vid[m.vertex(j)] = (int)j;
	std::set<const NS::MeshEdge<T, 2>*> listed;
	std::set<std::pair<int, int> > seen;
	for (size_t k = 0; k < m.edges().size(); ++k)
	{
		const auto* e = m.edge(k);
		CK(e == m.edges()[k], "edge %d", (int)k);
		CK(listed.insert(e).second, "edge %d is in the mesh twice", (int)k);
		int v[2] = {-1, -1};
		for (int i = 0; i < 2; ++i) if (vid.count(e->Vertices[i])) v[i] = vid[e->Vertices[i]];
		const std::pair<int, int> key(std::min(v[0], v[1]), std::max(v[0], v[1]));
		CK(want.count(key), "edge %d connects the vertices %d and %d", (int)k, v[0], v[1]);
		CK(seen.insert(key).second, "edge %d-%d exists twice", key.first, key.second);
		const auto& el = want.at(key);
		std::vector<int> got;
		CK(e->Elements[0], "edge %d-%d has no first element", key.first, key.second);
		for (int i = 0; i < 2; ++i) if (e->Elements[i]) { CK(id.count(e->Elements[i]), "edge %d-%d has an unknown element", key.first, key.second); got.push_back(id[e->Elements[i]]); }
		std::sort(got.begin(), got.end());
		CK(got == el, "edge %d-%d has %d elements (%d,%d), expected %d (%d,%d)", key.first, key.second, (int)got.size(), got.size() > 0 ? got[0] : -1, got.size() > 1 ? got[1] : -1, (int)el.size(), el[0], el.size() > 1 ? el[1] : -1);
	}
	for (size_t t = 0; t < p.tris.size(); ++t)
		for (int i = 0; i < 3; ++i)
		{
			const auto* n = m.element(t)->Neighbors[i];
			CK(n, "element %d has no edge opposite of vertex %d", (int)t, i);
			const auto *a = m.vertex(p.tris[t][(i + 1) % 3]), *b = m.vertex(p.tris[t][(i + 2) % 3]);
			CK((n->Vertices[0] == a && n->Vertices[1] == b) || (n->Vertices[0] == b && n->Vertices[1] == a), "element %d: the edge opposite of vertex %d has other vertices", (int)t, i);
			CK(n->Elements[0] == m.element(t) || n->Elements[1] == m.element(t), "element %d: the edge opposite of vertex %d does not know it", (int)t, i);
			CK(listed.count(n), "element %d: the edge opposite of vertex %d is not in the mesh", (int)t, i);
		}
}
inline std::vector<char> border(const Plan& p)
{
	std::vector<char> r(p.pts.size(), 0);
	for (auto& e : p.edges()) if (e.second.size() == 1) r[e.first.first] = r[e.first.second] = 1;
	return r;
}

// A family of conforming meshes: single elements, pairs, fans, strips, a hole, separate parts
inline std::vector<Plan> family()
{
	std::vector<Plan> r;
	Plan p;
	p.pts = {{{0, 0}}, {{1, 0}}, {{0, 1}}}; p.tris = {{{0, 1, 2}}}; r.push_back(p);
	p.pts = {{{-1, 2}}, {{3, 1}}, {{0.5, 4}}}; p.tris = {{{2, 1, 0}}}; r.push_back(p);
	p.pts = {{{0, 0}}, {{2, 0}}, {{2, 1}}, {{0, 1}}}; p.tris = {{{0, 1, 2}}, {{2, 3, 0}}}; r.push_back(p);
	p.pts = {{{0, 0}}, {{2, 0.5}}, {{1, 3}}, {{-1, 1}}}; p.tris = {{{0, 1, 3}}, {{1, 3, 2}}}; r.push_back(p);	// orientations differ
	p.pts = {{{0, 0}}, {{4, 0}}, {{1, 3}}, {{1.5, 1}}}; p.tris = {{{0, 1, 3}}, {{1, 2, 3}}, {{2, 0, 3}}}; r.push_back(p);	// inner vertex
	p.pts = {{{0, 0}}, {{1, 0}}, {{2, 0}}, {{0.5, 1}}, {{1.5, 1}}}; p.tris = {{{0, 1, 3}}, {{4, 3, 1}}, {{1, 2, 4}}}; r.push_back(p);	// strip
	p.pts = {{{0, 0}}, {{2, 0}}, {{2, 2}}, {{0, 2}}, {{1.25, 0.75}}}; p.tris = {{{0, 1, 4}}, {{1, 2, 4}}, {{4, 2, 3}}, {{0, 4, 3}}}; r.push_back(p);	// fan of four
	p.pts = {{{0, 0}}, {{1, 0}}, {{0, 1}}, {{5, 5}}, {{6, 5}}, {{5, 7}}}; p.tris = {{{0, 1, 2}}, {{3, 5, 4}}}; r.push_back(p);	// two parts
	p.pts = {{{0, 0}}, {{-1, 1}}, {{-1, -1}}, {{1, 1}}, {{1, -1}}}; p.tris = {{{0, 1, 2}}, {{0, 4, 3}}}; r.push_back(p);	// parts touch in a vertex
	p.pts.clear(); p.tris.clear();
	{	// ring with a hole
		const double o[4][2] = {{0, 0}, {3, 0}, {3, 3}, {0, 3}}, q[4][2] = {{1, 1}, {2, 1}, {2, 2}, {1, 2}};
		for (auto& x : o) p.pts.push_back({{x[0], x[1]}});
		for (auto& x : q) p.pts.push_back({{x[0], x[1]}});
		for (int i = 0; i < 4; ++i) { const int j = (i + 1) % 4; p.tris.push_back({{i, j, 4 + i}}); p.tris.push_back({{4 + j, j, 4 + i}}); }
		r.push_back(p);
	}
	p.pts.clear(); p.tris.clear();
	{	// grid 3 x 2
		for (int y = 0; y <= 2; ++y) for (int x = 0; x <= 3; ++x) p.pts.push_back({{x * 0.5, y * 1.5}});
		for (int y = 0; y < 2; ++y) for (int x = 0; x < 3; ++x) { const int a = y * 4 + x; p.tris.push_back({{a, a + 1, a + 5}}); p.tris.push_back({{a + 5, a + 4, a}}); }
		r.push_back(p);
	}
	p.pts.clear(); p.tris.clear();
	{	// fan of six
		static const double q[6][2] = {{2, 0}, {1, 2}, {-1, 2}, {-2, 0}, {-1, -2}, {1, -2}};
		for (auto& x : q) p.pts.push_back({{x[0], x[1]}});
		p.pts.push_back({{0.25, 0.125}});
		for (int i = 0; i < 6; ++i) p.tris.push_back(turned(Tri3{{i, (i + 1) % 6, 6}}, i));
		r.push_back(p);
	}
	return r;
}

// The same mesh in other units and at another place; coordinates as T holds them
struct Frame { double s, ox, oy; };
static const Frame DYADIC[] = {{1.0 / (1 << 20), 0, 0}, {1 << 20, 0, 0}, {1, 1024, -2048}, {-1, 0, 0}, {1.0 / 64, 3, 1}, {64, -1 << 14, 1 << 13}};
static const Frame ODD[] = {{0.1, 0, 0}, {1.0 / 3, 1, -1}, {1e-6, 0, 0}, {7e5, 0, 0}, {0.7, -12.3, 45.6}};
template<class T> Plan framed(const Plan& p, const Frame& f)
{
	Plan r = p;
	for (auto& q : r.pts) { q[0] = (double)(T)(q[0] * f.s + f.ox); q[1] = (double)(T)(q[1] * f.s + f.oy); }
	return r;
}

// Larger ones: grids with several diagonals, fans and rings of many elements, long strips, many parts
inline std::vector<Plan> largeFamily(int limit)
{
	std::vector<Plan> r;
	Plan p;
	auto add = [&] { if ((int)p.tris.size() <= limit) r.push_back(p); p.pts.clear(); p.tris.clear(); };
	static const int wh[][2] = {{3, 3}, {4, 4}, {7, 1}, {1, 9}, {6, 5}, {12, 2}, {10, 10}, {20, 3}};
	for (auto& g : wh) for (int d = 0; d < 4; ++d)
	{
		const int x = g[0], y = g[1];
		for (int j = 0; j <= y; ++j) for (int i = 0; i <= x; ++i) p.pts.push_back({{i * 0.5, j * 2.0}});
		for (int j = 0; j < y; ++j) for (int i = 0; i < x; ++i)
		{
			const int a = j * (x + 1) + i, b = a + 1, e = a + x + 1, f = e + 1;
			const bool up = d == 0 || (d == 2 && (i + j) % 2) || (d == 3 && i % 2);
			p.tris.push_back(turned(up ? Tri3{{a, b, f}} : Tri3{{a, b, e}}, (i + j * 3 + d) % 6));
			p.tris.push_back(turned(up ? Tri3{{a, f, e}} : Tri3{{b, f, e}}, (i * 5 + j + d) % 6));
		}
		add();
	}
	for (int n : {5, 7, 8, 9, 12, 16, 17, 33, 64})
		for (int open = 0; open < 2; ++open)	// fans around one vertex, open or closed
		{
			for (int i = 0; i < n + open; ++i) p.pts.push_back({{4 * std::cos(i * 6.283185307179586 / (n + open)), 4 * std::sin(i * 6.283185307179586 / (n + open))}});
			p.pts.push_back({{0.25, 0.125}});
			for (int i = 0; i < n; ++i) p.tris.push_back(turned(Tri3{{i, (i + 1) % (n + open), n + open}}, i % 6));
			add();
		}
	for (int n : {9, 24, 70})	// strips, and as many parts
		for (int parts = 0; parts < 2; ++parts)
		{
			for (int i = 0; i < n + 2; ++i) p.pts.push_back({{i * 0.5, i % 2 ? 1.0 : 0.25 * (i % 4)}});
			if (parts) for (int i = 0; i < n; ++i) { p.pts.push_back({{3.0 * i, 10}}); p.pts.push_back({{3.0 * i + 2, 11}}); p.pts.push_back({{3.0 * i + 1, 13}}); p.tris.push_back(turned(Tri3{{n + 2 + 3 * i, n + 3 + 3 * i, n + 4 + 3 * i}}, i % 6)); }
			for (int i = 0; i < n; ++i) p.tris.push_back(turned(Tri3{{i, i + 1, i + 2}}, (i * 5) % 6));
			add();
		}
	return r;
}
// Each of them with its elements in several orders
template<class F> void eachLarge(mc::Ctx& c, int limit, int orders, F f)
{
	const std::vector<Plan> fam = largeFamily(limit);
	for (size_t k = 0; k < fam.size(); ++k)
		for (int o = 0; o < orders; ++o)
		{
			if (!c.begin({(int64_t)k, o})) continue;
			Plan p = fam[k];
			const int n = (int)p.tris.size();
			int s = o < 2 ? 1 : o * 2 + 1;
			while (std::__gcd(s, n) != 1) ++s;
			for (int i = 0; i < n; ++i) p.tris[i] = turned(fam[k].tris[o == 1 ? n - 1 - i : (int)((int64_t)i * s % n)], o < 2 ? 0 : (o + i) % 6);
			NOTE("%s", p.text().c_str());
			f(p);
		}
}

// Meshes whose numbers of vertices, edges or elements, or of elements at a vertex, exceed 8 and 16 bits
enum { BIGS = 11 };
inline Plan big(int k)
{
	Plan p;
	static const int wh[][2] = {{16, 16}, {254, 1}, {1, 300}, {130, 127}, {182, 181}, {256, 256}, {1, 34000}};
	if (k < 7)
	{
		const int x = wh[k][0], y = wh[k][1];
		for (int j = 0; j <= y; ++j) for (int i = 0; i <= x; ++i) p.pts.push_back({{i * 0.5, j * 2.0}});
		for (int j = 0; j < y; ++j) for (int i = 0; i < x; ++i)
		{
			const int a = j * (x + 1) + i, b = a + 1, e = a + x + 1, f = e + 1;
			const bool up = (i * 3 + j) % 4 != 1;
			p.tris.push_back(turned(up ? Tri3{{a, b, f}} : Tri3{{a, b, e}}, (i + j * 3) % 6));
			p.tris.push_back(turned(up ? Tri3{{a, f, e}} : Tri3{{b, f, e}}, (i * 5 + j) % 6));
		}
	}
	else if (k < 9)	// a fan
	{
		const int n = k == 7 ? 300 : 2500;
		for (int i = 0; i < n; ++i) p.pts.push_back({{4096 * std::cos(i * 6.283185307179586 / n), 4096 * std::sin(i * 6.283185307179586 / n)}});
		p.pts.push_back({{0.25, 0.125}});
		for (int i = 0; i < n; ++i) p.tris.push_back(turned(Tri3{{i, (i + 1) % n, n}}, i % 6));
	}
	else	// separate elements
		for (int i = 0; i < (k == 9 ? 90 : 23000); ++i)
		{
			const double x = 3.0 * (i % 200), y = 4.0 * (i / 200);
			p.pts.push_back({{x, y}}); p.pts.push_back({{x + 2, y + 1}}); p.pts.push_back({{x + 1, y + 3}});
			p.tris.push_back(turned(Tri3{{3 * i, 3 * i + 1, 3 * i + 2}}, i % 6));
		}
	return p;
}
template<class F> void eachBig(mc::Ctx& c, int limit, int orders, F f)
{
	for (int k = 0; k < BIGS; ++k) for (int o = 0; o < orders; ++o)
	{
		const Plan q = big(k);
		const int n = (int)q.tris.size();
		if (n > limit || !c.begin({k, o})) continue;
		Plan p = q;
		int s = o < 2 ? 1 : o * 10 + 1;
		while (std::__gcd(s, n) != 1) ++s;
		for (int i = 0; i < n; ++i) p.tris[i] = q.tris[o == 1 ? n - 1 - i : (int)((int64_t)i * s % n)];
		NOTE("mesh %d of the large ones, %d vertices, %d elements", k, (int)p.pts.size(), n);
		f(p);
	}
}

inline bool shared3(const Plan& p) { for (auto& e : p.edges()) if (e.second.size() > 2) return true; return false; }
inline std::vector<Tri3> triples(int n)
{
	std::vector<Tri3> r;
	for (int a = 0; a < n; ++a) for (int b = a + 1; b < n; ++b) for (int d = b + 1; d < n; ++d) r.push_back(Tri3{{a, b, d}});
	return r;
}
// Every ordered choice of K different triangles on N vertices, turned in every way (or in eight ways)
template<int N, int K, class F> void eachOrdered(mc::Ctx& c, bool all, F f)
{
	const std::vector<Tri3> t = triples(N);
	const int M = (int)t.size();
	const uint64_t turns = all ? mc::ipow(6, K) : 8;
	Plan p;
	int pick[8], turn[8];
	for (uint64_t x = 0; x < mc::ipow(M, K); ++x)
	{
		mc::digits(x, M, K, pick);
		bool ok = true;
		for (int i = 0; i < K; ++i) for (int j = 0; j < i; ++j) ok = ok && pick[i] != pick[j];
		if (!ok) continue;
		for (uint64_t y = 0; y < turns; ++y)
		{
			if (!c.begin({(int64_t)x, (int64_t)y})) continue;
			if (all) mc::digits(y, 6, K, turn);
			else for (int i = 0; i < K; ++i) turn[i] = y < 6 ? (int)y : (int)((x / mc::ipow(7, i) + i * 5 + y) % 6);
			p.pts.clear();
			p.tris.clear();
			for (int i = 0; i < K; ++i) p.tris.push_back(turned(t[pick[i]], turn[i]));
			f(p, x + y);
		}
	}
}
// The planar family in every order (up to six elements) or `many` orders, every element turned in seven ways
template<class F> void eachPlanar(mc::Ctx& c, int64_t many, F f)
{
	const std::vector<Plan> fam = family();
	for (size_t k = 0; k < fam.size(); ++k)
	{
		const int n = (int)fam[k].tris.size();
		std::vector<int> ord(n);
		for (int i = 0; i < n; ++i) ord[i] = i;
		int64_t o = 0;
		do
		{
			++o;
			for (int y = 0; y < 7; ++y)
			{
				if (!c.begin({(int64_t)k, o, y})) continue;
				Plan p = fam[k];
				p.tris.clear();
				for (int i = 0; i < n; ++i) p.tris.push_back(turned(fam[k].tris[ord[i]], y < 6 ? y : (int)((o + i * 5) % 6)));
				NOTE("%s", p.text().c_str());
				f(p);
			}
			if (n > 6 && o >= many) break;
			if (n > 6) std::rotate(ord.begin() + (o % (n - 2)), ord.begin() + (o % (n - 2)) + 1, ord.end());
			else if (!std::next_permutation(ord.begin(), ord.end())) break;
		} while (true);
	}
}
}
