// C20: validation accepts well-formed meshes and reports every single corruption
#include "mesh.h"
#include "mesh/HyperCube.h"
#include "sf/PolyShapeFunction.h"

namespace vf {	// names the library may use as well
using namespace NS;

enum Err { OK_, INDEX, ISOLATED, CONNECTION, INCOMPLETE, VOLUME, NEIGHBOR, OTHER };
static const char* NAMES[] = {"no error", "InvalidVertexIndex", "IsolatedVertex", "MalformedVertexElementConnection", "IncompleteElement", "ZeroVolumeSimplex", "MalformedElementNeighborConnection", "another error"};
template<class T> Err check(const Mesh<T, 2>& m)
{
	try { m.validate(); }
	catch (const InvalidVertexIndexException&) { return INDEX; }
	catch (const IsolatedVertexException&) { return ISOLATED; }
	catch (const MalformedVertexElementConnectionException&) { return CONNECTION; }
	catch (const IncompleteElementException&) { return INCOMPLETE; }
	catch (const ZeroVolumeSimplexException&) { return VOLUME; }
	catch (const MalformedElementNeighborConnectionException&) { return NEIGHBOR; }
	catch (const MeshException&) { return OTHER; }
	return OK_;
}
// A mesh of the family, made ready; order 0: without degrees of freedom
template<class T> void ready(const Plan& p, int order, Mesh<T, 2>& m)
{
	build(p, m);
	m.setupNeighbors();
	m.setupBoundaries();
	if (order == 1) PolyShapeFunction<T, 2, 1>::prepareMesh(m);
	if (order == 2) PolyShapeFunction<T, 2, 2>::prepareMesh(m);
	m.prepare();
}

// One corruption: kind, place, value.  Returns false if there is none of these numbers; `any`: which error is open
struct Fault { int kind, i, j, k; };
template<class T> std::vector<Fault> faults(const Mesh<T, 2>& m)
{
	std::vector<Fault> r;
	const int V = (int)m.vertices().size(), E = (int)m.elements().size();
	for (int i = 0; i < V; ++i)
	{
		for (int k = 0; k <= V + 1; ++k) if (k != i) r.push_back({0, i, k, 0});	// index
		r.push_back({0, i, -1, 0});
		r.push_back({1, i, 0, 0});	// no elements
		for (int e = 0; e < E; ++e)
		{
			const auto* v = m.vertex(i);
			const auto* el = m.element(e);
			bool in = el->Vertices[0] == v || el->Vertices[1] == v || el->Vertices[2] == v;
			for (auto* d : el->DOFVertices) in = in || d == v;
			if (in) continue;
			r.push_back({2, i, e, 0});	// a foreign element is added
			r.push_back({2, i, e, 1});	// ... in front
			for (int q = 0; q < (int)v->Elements.size(); ++q) r.push_back({3, i, e, q});	// ... in place of another
		}
		for (int j = 0; j < i; ++j) r.push_back({4, i, j, 0});	// two vertices exchange their places
		bool corner = false;
		for (auto* e : m.elements()) for (int q = 0; q < 3; ++q) corner = corner || e->Vertices[q] == m.vertex(i);
		if (corner) for (int d = 0; d < (sizeof(T) == 8 ? 9 : 8); ++d) r.push_back({5, i, d, 0});	// vertex moved
	}
	r.push_back({6, 0, 0, 0});	// an extra vertex
	for (int e = 0; e < E; ++e)
		for (int j = 0; j < 3; ++j)
		{
			r.push_back({7, e, j, -1});	// missing vertex
			for (int k = 0; k < V; ++k) if (m.element(e)->Vertices[j] != m.vertex(k)) r.push_back({7, e, j, k});	// another vertex
			for (int d = 0; d < (sizeof(T) == 8 ? 9 : 8); ++d) r.push_back({8, e, j, d});	// corner of the geometry moved
			r.push_back({9, e, j, 0});	// missing edge
		}
	for (int e = 0; e < E; ++e) for (int j = 0; j < 3; ++j) { r.push_back({10, e, j, 0}); r.push_back({10, e, j, 1}); r.push_back({10, e, j, 2}); }	// element flattened
	return r;
}
static const double MOVE[9][2] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}, {1e-3, 0}, {0, -1e-3}, {100, 100}, {0.5, -0.25}, {0, 1e-6}};	// the last for double only
static double unit_ = 1;
// What the corruption should be reported as; OTHER: any mesh error
template<class T> Err inject(Mesh<T, 2>& m, const Fault& f, bool dof)
{
	switch (f.kind)
	{
	case 0: m.vertex(f.i)->GlobalIndex = (Index)f.j; return INDEX;
	case 1: m.vertex(f.i)->Elements.clear(); return ISOLATED;
	case 2: { auto& l = m.vertex(f.i)->Elements; l.insert(f.k ? l.begin() : l.end(), m.element(f.j)); return CONNECTION; }
	case 3: m.vertex(f.i)->Elements[f.k] = m.element(f.j); return CONNECTION;
	case 4: { auto *a = m.vertex(f.i), *b = m.vertex(f.j); m.setVertex(f.i, b); m.setVertex(f.j, a); return INDEX; }
	case 5: m.vertex(f.i)->Vertex[0] += (T)unit_ * (T)MOVE[f.j][0]; m.vertex(f.i)->Vertex[1] += (T)unit_ * (T)MOVE[f.j][1]; return INCOMPLETE;
	case 6: m.addVertex(new MeshVertex<T, 2>(vec<T>(9, 9))); return ISOLATED;
	case 7: m.element(f.i)->Vertices[f.j] = f.k < 0 ? nullptr : m.vertex(f.k); return dof ? INCOMPLETE : OTHER;
	case 8: m.element(f.i)->Element[f.j][0] += (T)unit_ * (T)MOVE[f.k][0]; m.element(f.i)->Element[f.j][1] += (T)unit_ * (T)MOVE[f.k][1]; return INCOMPLETE;
	case 9: m.element(f.i)->Neighbors[f.j] = nullptr; return NEIGHBOR;
	case 10:
	{
		// The corner j is put onto the line through the other two (k = 0: onto one of them, 1: between them, 2: outside); all is changed in step
		auto* e = m.element(f.i);
		const auto a = e->Vertices[(f.j + 1) % 3]->Vertex, b = e->Vertices[(f.j + 2) % 3]->Vertex;
		auto* v = e->Vertices[f.j];
		const T s = f.k == 0 ? (T)0 : f.k == 1 ? (T)0.5 : (T)2;
		for (int d = 0; d < 2; ++d) v->Vertex[d] = a[d] + (b[d] - a[d]) * s;
		for (auto* o : m.elements()) for (int q = 0; q < 3; ++q) if (o->Vertices[q] == v) o->Element[q] = v->Vertex;
		m.prepare();
		return VOLUME;
	}
	}
	return OTHER;
}

template<class T> void single(mc::Ctx& c, const std::vector<Plan>& fam, int thin, int frame = 0)
{
	for (size_t k = 0; k < fam.size(); ++k)
		for (int order = 0; order <= 2; ++order)
		{
			std::vector<Fault> all;
			{ Mesh<T, 2> m; ready(fam[k], order, m); all = faults(m); }
			// of many faults of a large mesh, some of each kind at each end of it
			const int64_t n = (int64_t)all.size();
			for (int64_t x = -1; x < n; x += thin > 1 && x > 40 && x < n - 40 ? 1 + (x * 7 + order) % thin : 1)
			{
				if (!c.begin({(int64_t)k, order, x, frame})) continue;
				Mesh<T, 2> m;
				ready(fam[k], order, m);
				NOTE("mesh %d, order %d; ", (int)k, order);
				const Err before = check(m);
				CK(before == OK_, "a well-formed mesh is refused: %s", NAMES[before]);
				if (x < 0) { c.nontrivial(); continue; }
				const Fault& f = all[x];
				if (f.kind == 5 || f.kind == 8)
				{
					// distances whose squares are below the machine epsilon count as zero
					const double *w = MOVE[f.kind == 5 ? f.j : f.k];
					if ((w[0] * w[0] + w[1] * w[1]) * unit_ * unit_ < 4 * std::numeric_limits<T>::epsilon()) continue;
				}
				NOTE("corruption %d at %d, %d, %d", f.kind, f.i, f.j, f.k);
				const Err want = inject(m, f, order > 0), got = check(m);
				c.fault();
				c.nontrivial();
				if (f.kind == 10)
				{
					// rounding may leave a little more area than the threshold
					double least = unit_ * unit_;
					for (auto* e : m.elements()) least = std::min(least, (double)e->Element.volume());
					CK(least < 1e-5 * unit_ * unit_, "a flat element has the area %g", least);
					if (least > std::numeric_limits<T>::epsilon()) continue;
				}
				CK(got != OK_, "corruption of kind %d is not reported, expected %s", f.kind, NAMES[want]);
				if (want != OTHER) CK(got == want, "corruption of kind %d is reported as %s, expected %s", f.kind, NAMES[got], NAMES[want]);
				CK(check(m) == got, "the report changes");
			}
		}
}
MC_SECTION(single_faults) { single<double>(c, family(), 1); }
MC_SECTION(single_faults_float) { single<float>(c, family(), 1); }
MC_SECTION(single_faults_large) { single<double>(c, largeFamily(c.thorough ? 80 : 40), c.thorough ? 3 : 11); }

// Other units and places
template<class T> void frames(mc::Ctx& c, std::vector<Frame> fr)
{
	for (auto& f : fr)
	{
		unit_ = std::fabs(f.s);
		std::vector<Plan> fam;
		for (auto& p : family()) fam.push_back(framed<T>(p, f));
		if (!c.thorough) fam.resize(5);
		single<T>(c, fam, c.thorough ? 1 : 3, (int)(&f - &fr[0]));
	}
	unit_ = 1;
}
MC_SECTION(frames_double) { frames<double>(c, {{1.0 / 1024, 0, 0}, {1 << 20, 0, 0}, {1, 1024, -2048}, {-1, 0, 0}, {0.1, 0, 0}, {1.0 / 3, 1, -1}, {7e5, 0, 0}, {0.7, -12.3, 45.6}}); }
MC_SECTION(frames_float) { frames<float>(c, {{1 << 12, 0, 0}, {1, 64, -32}, {-1, 0, 0}, {1.0 / 3, 0, 0}, {0.7, -3.3, 1.6}}); }

// Two corruptions at once: reported, as one or the other
MC_SECTION(double_faults)
{
	const std::vector<Plan> fam = family();
	const size_t upto = c.thorough ? 7 : 4;
	for (size_t k = 0; k < upto; ++k)
		for (int order = 0; order <= (c.thorough ? 2 : 0); ++order)
		{
			std::vector<Fault> all;
			{ Mesh<double, 2> m; ready(fam[k], order, m); all = faults(m); }
			for (size_t x = 0; x < all.size(); ++x)
				for (size_t y = 0; y < all.size(); ++y)
				{
					// the second one must not undo the first, nor follow a missing vertex
					if (all[x].kind == all[y].kind || all[x].kind == 10 || all[y].kind == 10) continue;
					const int a = all[x].kind, b = all[y].kind;
					if ((a == 5 && b == 8) || (a == 8 && b == 5) || (a == 5 && b == 7) || (a == 7 && b == 5) || (a == 7 && b == 8) || (a == 8 && b == 7)) continue;
					if (a == 1 && b == 3) continue;	// nothing to replace
					if ((a == 0 && b == 4) || (a == 4 && b == 0)) continue;
					if (!c.begin({(int64_t)k, order, (int64_t)x, (int64_t)y})) continue;
					Mesh<double, 2> m;
					ready(fam[k], order, m);
					const Err ea = inject(m, all[x], order > 0), eb = inject(m, all[y], order > 0), got = check(m);
					c.fault();
					NOTE("corruptions %d at %d,%d,%d and %d at %d,%d,%d", a, all[x].i, all[x].j, all[x].k, b, all[y].i, all[y].j, all[y].k);
					CK(got != OK_, "corruptions are not reported: %s and %s", NAMES[ea], NAMES[eb]);
				}
		}
}

// Every planar complex of up to three lattice triangles is accepted exactly if no triangle is flat and every vertex is used
MC_SECTION(lattice)
{
	static const double q[7][2] = {{0, 0}, {1, 0}, {2, 0}, {0, 1}, {1, 1}, {0, 2}, {-1, 3}};	// some of them on a line
	std::vector<Tri3> t;
	const int n = 7;
	for (int a = 0; a < n; ++a) for (int b = a + 1; b < n; ++b) for (int d = b + 1; d < n; ++d) t.push_back(Tri3{{a, b, d}});
	const int M = (int)t.size();
	for (int x = 0; x < M; ++x) for (int y = x; y < M; ++y) for (int turn = 0; turn < 6; ++turn) for (int extra = 0; extra < 2; ++extra)
	{
		if (!c.begin({x, y, turn, extra})) continue;
		Plan p;
		std::vector<int> use;
		std::vector<Tri3> raw;
		raw.push_back(turned(t[x], turn));
		if (y != x) raw.push_back(turned(t[y], (turn * 5 + 1) % 6));
		std::map<int, int> id;
		for (auto& r : raw) { Tri3 w; for (int i = 0; i < 3; ++i) { if (!id.count(r[i])) { const int k = (int)id.size(); id[r[i]] = k; p.pts.push_back({{q[r[i]][0], q[r[i]][1]}}); } w[i] = id[r[i]]; } p.tris.push_back(w); }
		if (extra) p.pts.push_back({{7, 7}});
		NOTE("%s", p.text().c_str());
		Mesh<double, 2> m;
		build(p, m);
		bool flat = false;
		for (size_t i = 0; i < p.tris.size(); ++i) flat = flat || p.area2((int)i) == 0;
		m.prepare();
		const Err want = extra ? ISOLATED : flat ? VOLUME : NEIGHBOR;
		CK(check(m) == want || (flat && check(m) == NEIGHBOR), "before the neighbours are set up: %s, expected %s", NAMES[check(m)], NAMES[want]);
		m.setupNeighbors();
		const Err w2 = extra ? ISOLATED : flat ? VOLUME : OK_;
		CK(check(m) == w2, "%s, expected %s", NAMES[check(m)], NAMES[w2]);
		c.nontrivial();
		c.fault();
	}
}
// A mesh without elements has isolated vertices; an empty one has nothing wrong
MC_SECTION(empty)
{
	for (int v = 0; v < 4; ++v)
	{
		if (!c.begin({v})) continue;
		Mesh<double, 2> m;
		for (int i = 0; i < v; ++i) m.addVertex(new MeshVertex<double, 2>(vec<double>(i, 0)));
		m.setupNeighbors();
		m.prepare();
		CK(check(m) == (v ? ISOLATED : OK_), "%s", NAMES[check(m)]);
		c.nontrivial();
	}
}
MC_SECTION(grid_counts)
{
	for (int x = 0; x <= 4; ++x) for (int y = 0; y <= 4; ++y)
	{
		if (!c.begin({x, y})) continue;
		NOTE("%d x %d", x, y);
		bool thrown = false;
		FixedVector<Dimension, 2> n;
		n[0] = (Dimension)x; n[1] = (Dimension)y;
		try { Mesh<double, 2> m = HyperCube<double, 2>::generate(n, vec<double>(1, 2), vec<double>(0, 0)); m.prepare(); CK(check(m) == OK_, "the grid is refused: %s", NAMES[check(m)]); }
		catch (const InvalidElementCountException&) { thrown = true; }
		CK(thrown == (x == 0 || y == 0), "an invalid number of elements was%s reported", thrown ? "" : " not");
		c.nontrivial();
		c.fault();
	}
}

}
using namespace vf;

int main(int argc, char** argv)
{
	mc::Meta m;
	m.property = "C20";
	m.level = "fault_enumeration";
	m.rule = "a case is one well-formed mesh with one corruption of an index, link, corner or coordinate (every place, every other value), or with two corruptions, or one complex of lattice triangles";
	m.assumptions = {"coordinates are corrupted by at least 1e-3 (double: 1e-6) of the unit of length", "corruptions that no rule of the property names (for example an element missing in a vertex's list that has others) are not made"};
	return mc::main_(argc, argv, m);
}
