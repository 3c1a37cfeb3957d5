// C21: mesh handles share, keep and release their contents
// BUILD: -fsanitize=address,undefined -fno-omit-frame-pointer
#include "mesh.h"
#include "sf/PolyShapeFunction.h"
#include <new>

// Every allocation made while a history runs has to be released when its last handle is gone
static long g_live = 0;
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); ++g_live; return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) --g_live; free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

namespace vf {	// names the library may use as well
using namespace NS;

typedef Mesh<double, 2> M;
typedef MeshVertex<double, 2> MV;
typedef MeshElement<double, 2> ME;

// Contents as the model sees them
struct Content
{
	int id = 0, patches = 0, stage = 0;	// patches of two elements; stage 1: neighbours, 2: boundary, 3: order 2 nodes
	bool operator==(const Content& o) const { return id == o.id && patches == o.patches && stage == o.stage; }
};
enum { NONE = -2, GONE = -1 };	// no handle; a moved-from handle
const int MAXP = 2;

// Which contents each handle refers to
struct Model
{
	int n;
	std::vector<int> at;	// handle -> content
	std::vector<Content> cont;
	int created = 0;
	explicit Model(int n_) : n(n_), at(n_, NONE) {}
	int fresh() { Content c; c.id = created++; cont.push_back(c); return (int)cont.size() - 1; }
	std::string key() const
	{
		std::string s;
		std::map<int, int> name;
		for (int h : at)
		{
			if (h < 0) { s += h == NONE ? "-" : "m"; continue; }
			if (!name.count(h)) { const int k = (int)name.size(); name[h] = k; s += "("; s += (char)('0' + cont[h].patches); s += (char)('a' + cont[h].stage); s += ")"; }
			s += (char)('A' + name[h]);
		}
		return s;
	}
};
struct Box { alignas(M) char mem[sizeof(M)]; M& operator*() { return *reinterpret_cast<M*>(mem); } };
static M makeMesh() { M m; return m; }
static M passOn(M m) { return m; }

struct World
{
	Model md;
	std::vector<Box> h;
	explicit World(int n) : md(n), h(n) {}
	M& m(int i) { return *h[i]; }

	static int ops(int n) { return n * 8 + n * n * 6; }
	static std::string name(int n, int op)
	{
		static const char* U[] = {"create", "destroy", "clear", "add two elements to", "set up neighbours of", "set up boundaries of", "number", "assign new mesh to"};
		static const char* B[] = {"copy", "move", "copy assign", "move assign", "swap", "pass by value"};
		if (op < n * 8) return std::string(U[op / n]) + " h" + std::to_string(op % n);
		op -= n * 8;
		return std::string(B[op / (n * n)]) + " h" + std::to_string(op / n % n) + " <- h" + std::to_string(op % n);
	}
	bool apply(int op)
	{
		const int n = md.n;
		std::vector<int>& at = md.at;
		if (op < n * 8)
		{
			const int i = op % n, k = op / n;
			const bool live = at[i] >= 0;
			switch (k)
			{
			case 0: if (at[i] != NONE) return false; new (&m(i)) M(); at[i] = md.fresh(); return true;
			case 1: if (at[i] == NONE) return false; m(i).~M(); at[i] = NONE; return true;
			case 2: if (!live) return false; m(i).clear(); md.cont[at[i]].patches = md.cont[at[i]].stage = 0; return true;
			case 3:
			{
				if (!live || md.cont[at[i]].stage || md.cont[at[i]].patches >= MAXP) return false;
				Content& c = md.cont[at[i]];
				Plan p = plan(c);
				++c.patches;
				Plan q = plan(c);
				if (c.id % 2) { m(i).reserveVertices(q.pts.size()); m(i).reserveElements(q.tris.size()); }
				for (size_t k = p.pts.size(); k < q.pts.size(); ++k) m(i).addVertex(new MV(vec<double>(q.pts[k][0], q.pts[k][1])));
				for (size_t k = p.tris.size(); k < q.tris.size(); ++k)
				{
					ME* e = new ME();
					for (int j = 0; j < 3; ++j) e->Vertices[j] = m(i).vertex(q.tris[k][j]);
					m(i).addElement(e);
				}
				return true;
			}
			case 4: if (!live || md.cont[at[i]].stage != 0 || !md.cont[at[i]].patches) return false; m(i).setupNeighbors(); md.cont[at[i]].stage = 1; return true;
			case 5: if (!live || md.cont[at[i]].stage != 1) return false; m(i).setupBoundaries(); m(i).prepare(); m(i).validate(); md.cont[at[i]].stage = 2; return true;
			case 6: if (!live || md.cont[at[i]].stage != 2) return false; PolyShapeFunction<double, 2, 2>::prepareMesh(m(i)); md.cont[at[i]].stage = 3; return true;
			case 7: if (at[i] == NONE) return false; m(i) = makeMesh(); at[i] = md.fresh(); return true;
			}
		}
		op -= n * 8;
		const int i = op / n % n, j = op % n, k = op / (n * n);
		if (at[j] == NONE) return false;
		switch (k)
		{
		case 0: if (at[i] != NONE) return false; new (&m(i)) M(m(j)); at[i] = at[j]; return true;
		case 1: if (at[i] != NONE) return false; new (&m(i)) M(std::move(m(j))); at[i] = at[j]; at[j] = GONE; return true;
		case 2: if (at[i] == NONE) return false; m(i) = m(j); at[i] = at[j]; return true;
		case 3: if (at[i] == NONE) return false; m(i) = std::move(m(j)); if (i != j) { at[i] = at[j]; at[j] = GONE; } return true;
		case 4: if (at[i] == NONE || i == j) return false; std::swap(m(i), m(j)); std::swap(at[i], at[j]); return true;
		case 5: if (at[i] == NONE) return false; m(i) = passOn(m(j)); at[i] = at[j]; return true;
		}
		return false;
	}
	// The mesh that contents stand for
	static Plan plan(const Content& c)
	{
		Plan p;
		for (int k = 0; k < c.patches; ++k)
		{
			const double x = c.id + 10 * k;
			const int b = 4 * k;
			p.pts.insert(p.pts.end(), {{{x, 0}}, {{x + 1, 0}}, {{x, 1}}, {{x + 1, 2}}});
			p.tris.push_back(Tri3{{b, b + 1, b + 2}});
			p.tris.push_back(Tri3{{b + 2, b + 1, b + 3}});
		}
		return p;
	}
	void verify(mc::Ctx& c)
	{
		for (int i = 0; i < md.n; ++i)
		{
			if (md.at[i] < 0) continue;
			const Content& w = md.cont[md.at[i]];
			Plan p = plan(w);
			const M& k = m(i);
			const size_t corners = p.pts.size(), extra = w.stage == 3 ? p.edges().size() : 0;
			CK(k.vertices().size() == corners + extra, "h%d shows %d vertices, expected %d", i, (int)k.vertices().size(), (int)(corners + extra));
			CK(k.elements().size() == p.tris.size(), "h%d shows %d elements, expected %d", i, (int)k.elements().size(), (int)p.tris.size());
			CK(k.edges().size() == (w.stage ? p.edges().size() : 0), "h%d shows %d edges", i, (int)k.edges().size());
			const std::vector<char> b = border(p);
			for (size_t v = 0; v < corners; ++v)
			{
				const MV* x = k.vertex(v);
				CK(x->Vertex[0] == p.pts[v][0] && x->Vertex[1] == p.pts[v][1] && x->GlobalIndex == v, "h%d: vertex %d is not the expected one", i, (int)v);
				CK((x->Flags & MVF_StrongBoundary) == (w.stage >= 2 && b[v] ? MVF_StrongBoundary : 0), "h%d: boundary mark of vertex %d", i, (int)v);
			}
			for (size_t t = 0; t < p.tris.size(); ++t)
				for (int q = 0; q < 3; ++q)
				{
					CK(k.element(t)->Vertices[q] == k.vertex(p.tris[t][q]), "h%d: element %d is not the expected one", i, (int)t);
					CK((k.element(t)->Neighbors[q] != nullptr) == (w.stage > 0), "h%d: neighbours of element %d", i, (int)t);
					if (w.stage) CK(k.element(t)->Neighbors[q]->Elements[0] == k.element(t) || k.element(t)->Neighbors[q]->Elements[1] == k.element(t), "h%d: edge of element %d", i, (int)t);
				}
			for (int j = 0; j < i; ++j)	// shared exactly when they should be
				if (md.at[j] >= 0) CK((&m(i).vertices() == &m(j).vertices()) == (md.at[i] == md.at[j]), "h%d and h%d: contents are%s shared", i, j, md.at[i] == md.at[j] ? " not" : "");
		}
	}
	void end() { for (int i = 0; i < md.n; ++i) if (md.at[i] != NONE) { m(i).~M(); md.at[i] = NONE; } }
};

// Runs a history from the start; false when the last operation is not possible
static bool run(mc::Ctx& c, int n, const std::vector<int64_t>& hist, char (&key)[64], bool backwards)
{
	long before = g_live, after;
	bool ok = true;
	{
		World w(n);
		for (size_t i = 0; i < hist.size() && ok; ++i)
		{
			ok = w.apply((int)hist[i]);
			if (!ok) break;
			NOTE("%s; ", World::name(n, (int)hist[i]).c_str());
			if (i + 1 == hist.size() || c.replay) w.verify(c);
		}
		snprintf(key, sizeof key, "%s", w.md.key().c_str());
		if (backwards) { for (int i = n - 1; i >= 0; --i) if (w.md.at[i] != NONE) { w.m(i).~M(); w.md.at[i] = NONE; } }
		else w.end();
	}
	after = g_live;
	CK(!ok || after == before, "%ld allocations are left after the last handle is gone", after - before);
	return ok;
}
// All reachable states of the model (closed), every operation from a history that leads to each; in addition all
// histories up to the depth `full`
static void search(mc::Ctx& c, int n, int full, size_t maxDepth)
{
	char key[64];
	if (c.replay) { if (c.begin(c.want)) run(c, n, c.want, key, false); return; }
	std::unordered_set<std::string> seen;
	std::vector<std::vector<int64_t> > cur, next;
	cur.push_back({});
	seen.insert(Model(n).key());
	c.state();
	for (size_t d = 1; !cur.empty() && d <= maxDepth; ++d)
	{
		next.clear();
		for (auto& hist : cur)
			for (int op = 0; op < World::ops(n); ++op)
			{
				std::vector<int64_t> x = hist;
				x.push_back(op);
				c.begin(x);
				char k[64];
				if (!run(c, n, x, k, op & 1)) continue;
				c.transition();
				c.trace();
				const bool fresh = seen.insert(k).second;
				if (fresh) c.state();
				if (fresh && d == maxDepth) c.s->cut = 1;
				if (fresh || (int)d < full) next.push_back(x);
			}
		cur.swap(next);
	}
}
MC_SECTION(two_handles) { search(c, 2, c.thorough ? 6 : 4, 40); }
MC_SECTION(three_handles) { search(c, 3, c.thorough ? 4 : 3, 40); }

// Copies and handles of meshes that could not be completed
MC_SECTION(refused)
{
	for (int k = 0; k < 8; ++k)
	{
		if (!c.begin({k})) continue;
		long before = g_live;
		{
			M m;
			for (int i = 0; i < 5; ++i) m.addVertex(new MV(vec<double>(i, i * i)));
			for (int i = 0; i < 3; ++i) { ME* e = new ME(); e->Vertices[0] = m.vertex(0); e->Vertices[1] = m.vertex(1); e->Vertices[2] = m.vertex(2 + i); m.addElement(e); }
			M copy(m);
			bool thrown = false;
			try { (k & 1 ? copy : m).setupNeighbors(); } catch (const TooManySharedFacesException&) { thrown = true; }
			CK(thrown, "shared faces");
			if (k & 2) m = M();
			if (k & 4) copy.clear();
		}
		CK(g_live == before, "%ld allocations are left", g_live - before);
	}
}

// Many handles of the same contents, given up in several orders; large contents
MC_SECTION(many_handles)
{
	static const int N[] = {1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 65535, 65536, 65537, 70000};
	for (int n : N) for (int how = 0; how < 4; ++how)
	{
		if (!c.begin({n, how})) continue;
		NOTE("%d handles given up in order %d", n, how);
		const long before = g_live;
		{
			Content w;
			w.patches = 2;
			const Plan p = World::plan(w);
			std::vector<std::unique_ptr<M> > h;
			h.emplace_back(new M());
			build(p, *h[0]);
			for (int i = 1; i < n; ++i)
			{
				if (how == 1) { h.emplace_back(new M()); *h[i] = *h[i - 1]; }
				else h.emplace_back(new M(*h[how == 2 ? i / 2 : 0]));
			}
			c.transition(n);
			while (!h.empty())
			{
				const size_t last = h.size() - 1;
				if (how == 3 && last) std::swap(h[last / 2], h[last]);
				if (how == 0 && last) std::swap(h[0], h[last]);
				h.pop_back();
				if (h.size() > 3 && (h.size() & 127) && n > 128) continue;
				for (auto& x : h)
				{
					CK(x->vertices().size() == p.pts.size() && x->elements().size() == p.tris.size() && &x->vertices() == &h[0]->vertices(), "contents with %d of %d handles left", (int)h.size(), n);
					CK(x->vertex(p.pts.size() - 1)->Vertex[0] == p.pts.back()[0] && x->element(1)->Vertices[0] == x->vertex(p.tris[1][0]), "contents with %d of %d handles left", (int)h.size(), n);
					if (h.size() > 64) break;
				}
			}
		}
		CK(g_live == before, "%ld allocations are left after the last of %d handles is gone", g_live - before, n);
	}
}
MC_SECTION(large_contents)
{
	eachLarge(c, 300, 1, [&](Plan& p)
	{
		for (int how = 0; how < 6; ++how)
		{
			const long before = g_live;
			{
				M m;
				build(p, m);
				if (how > 1) m.setupNeighbors();
				if (how > 2) { m.setupBoundaries(); PolyShapeFunction<double, 2, 2>::prepareMesh(m); }
				M copy(m), other;
				build(p, other);
				if (how == 1) m.clear();
				if (how == 4) { m = std::move(other); copy = m; }
				if (how == 5) { std::swap(copy, other); m = other; copy.clear(); }
				c.transition();
				if (how != 1) CK(m.elements().size() == p.tris.size(), "elements");
				if (how == 1) CK(copy.elements().empty() && copy.vertices().empty() && copy.edges().empty(), "cleared contents");
			}
			CK(g_live == before, "%ld allocations are left", g_live - before);
		}
	});
}

}
using namespace vf;

int main(int argc, char** argv)
{
	mc::Meta m;
	m.property = "C21";
	m.level = "model_checking";
	m.rule = "a state is which of the handles are alive, moved from, share which contents, and how far each contents is built; every operation is tried in every reachable state (by running a shortest history to it on fresh objects under AddressSanitizer, then destroying all handles and counting what was not released), and all histories up to a depth are run";
	m.assumptions = {"a handle that was moved from is only destroyed, assigned to, copied or moved", "contents hold up to two patches of two elements"};
	return mc::main_(argc, argv, m);
}
