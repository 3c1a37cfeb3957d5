// C19: neighbours, edges and boundaries
#include "mesh.h"

namespace vf {	// names the library may use as well
using namespace NS;

template<class T> void one(mc::Ctx& c, const Plan& p, bool tooMany)
{
	Mesh<T, 2> m;
	build(p, m);
	// some flags that have to survive
	for (size_t i = 0; i < p.pts.size(); i += 2) m.vertex(i)->Flags |= MVF_Implicit;
	sameParts(c, m, p);
	c.transition();
	bool thrown = false;
	try { m.setupNeighbors(); } catch (const TooManySharedFacesException&) { thrown = true; }
	CK(thrown == tooMany, "an edge shared by more than two elements was%s reported", thrown ? "" : " not");
	sameParts(c, m, p);
	if (thrown) return;
	c.nontrivial();
	sameEdges(c, m, p);
	for (size_t i = 0; i < p.pts.size(); ++i) CK(m.vertex(i)->Flags == (i % 2 ? 0u : (unsigned)MVF_Implicit), "flags of vertex %d", (int)i);
	const std::vector<char> b = border(p);
	for (int round = 0; round < 2; ++round)
	{
		m.setupBoundaries();
		sameEdges(c, m, p);
		for (size_t i = 0; i < p.pts.size(); ++i)
			CK(m.vertex(i)->Flags == ((i % 2 ? 0u : (unsigned)MVF_Implicit) | (b[i] ? (unsigned)MVF_StrongBoundary : 0u)), "vertex %d has flags %u and is%s on the boundary", (int)i, m.vertex(i)->Flags, b[i] ? "" : " not");
		m.setupNeighbors();	// nothing left to do
	}
	sameParts(c, m, p);
	m.prepare();
	for (size_t t = 0; t < p.tris.size(); ++t)
	{
		const double got = (double)m.element(t)->Element.determinant(), want = p.area2((int)t);
		const auto &a = p.pts[p.tris[t][0]], &b = p.pts[p.tris[t][1]], &d = p.pts[p.tris[t][2]];
		const double big = std::fabs(b[0] - a[0]) * std::fabs(d[1] - a[1]) + std::fabs(d[0] - a[0]) * std::fabs(b[1] - a[1]);
		CK(std::fabs(got - want) <= 16 * std::numeric_limits<T>::epsilon() * big, "element %d is not prepared: determinant %.17g, expected %.17g", (int)t, got, want);
	}
}

// Topology alone matters: place 0 has distinct points, place 1 pairs of vertices at the same point
static void place(Plan& p, int n, int how)
{
	p.pts.clear();
	for (int i = 0; i < n; ++i) { const int k = how ? i / 2 : i; p.pts.push_back({{(double)(k * k - 3 * k), (double)(2 * k + (k & 1))}}); }
}
// Every ordered choice of K different triangles on N vertices, turned in every way (or in some ways)
template<class T, int N, int K> void ordered(mc::Ctx& c, bool all)
{
	eachOrdered<N, K>(c, all, [&](Plan& p, uint64_t k) { place(p, N, (int)k & 1); NOTE("%s", p.text().c_str()); one<T>(c, p, shared3(p)); });
}
static void o51(mc::Ctx& c) { ordered<double, 5, 1>(c, true); }
static void o42(mc::Ctx& c) { ordered<double, 4, 2>(c, true); }
static void o43(mc::Ctx& c) { ordered<double, 4, 3>(c, true); }
static void o44(mc::Ctx& c) { ordered<double, 4, 4>(c, true); }
static void o52(mc::Ctx& c) { ordered<double, 5, 2>(c, true); }
static void o53(mc::Ctx& c) { ordered<double, 5, 3>(c, true); }
static void o53f(mc::Ctx& c) { ordered<float, 5, 3>(c, false); }
static void o54(mc::Ctx& c) { ordered<double, 5, 4>(c, false); }
static void o63(mc::Ctx& c) { ordered<double, 6, 3>(c, false); }
static void o64(mc::Ctx& c) { ordered<double, 6, 4>(c, false); }
static void o54a(mc::Ctx& c) { ordered<double, 5, 4>(c, true); }
static void o63a(mc::Ctx& c) { ordered<double, 6, 3>(c, true); }
MC_REGISTER(one_of_5, o51);
MC_REGISTER(two_of_4, o42);
MC_REGISTER(three_of_4, o43);
MC_REGISTER(four_of_4, o44);
MC_REGISTER(two_of_5, o52);
MC_REGISTER(three_of_5, o53);
MC_REGISTER(three_of_5_float, o53f);
MC_REGISTER(four_of_5, o54);
MC_REGISTER(three_of_6, o63);
MC_REGISTER_DEEP(deep_four_of_6, o64);
MC_REGISTER_DEEP(deep_four_of_5, o54a);
MC_REGISTER_DEEP(deep_three_of_6, o63a);

// Every set of triangles on N vertices, in a few orders
template<int N> void sets(mc::Ctx& c)
{
	const std::vector<Tri3> t = triples(N);
	const int M = (int)t.size();
	const int first = N == 6 && !c.thorough ? 3 : 0;	// one order only
	for (uint64_t x = 1; x < (1ull << M); ++x)
		for (int o = first; o < 4; ++o)
		{
			if (!c.begin({(int64_t)x, o})) continue;
			Plan p;
			place(p, N, o & 1);
			for (int i = 0; i < M; ++i) { const int k = o & 1 ? M - 1 - i : i; if (x >> k & 1) p.tris.push_back(turned(t[k], (k * o + o) % 6)); }
			if (o > 1) std::rotate(p.tris.begin(), p.tris.begin() + p.tris.size() / 2, p.tris.end());
			NOTE("%s", p.text().c_str());
			one<double>(c, p, shared3(p));
		}
}
MC_SECTION(sets_of_4) { sets<4>(c); }
MC_SECTION(sets_of_5) { sets<5>(c); }
MC_SECTION(sets_of_6) { sets<6>(c); }

// The planar family in every order (up to six elements) or many orders, every element turned in every way
MC_SECTION(planar)
{
	eachPlanar(c, 500, [&](Plan& p) { CK(!shared3(p), "the family is wrong"); one<double>(c, p, false); });
}

// Other units and places
template<class T> void frames(mc::Ctx& c)
{
	const std::vector<Plan> fam = family();
	std::vector<Frame> fr(DYADIC, DYADIC + sizeof DYADIC / sizeof *DYADIC);
	fr.insert(fr.end(), ODD, ODD + sizeof ODD / sizeof *ODD);
	if (sizeof(T) == 8) { fr.push_back({std::ldexp(1, -36), 0, 0}); fr.push_back({std::ldexp(1, 400), 0, 0}); fr.push_back({1, 1e9, -1e12}); }
	for (size_t k = 0; k < fam.size(); ++k) for (size_t q = 0; q < fr.size(); ++q) for (int o = 0; o < 3; ++o) for (int y = 0; y < 6; ++y)
	{
		if (!c.begin({(int64_t)k, (int64_t)q, o, y})) continue;
		Plan p = framed<T>(fam[k], fr[q]);
		if (o == 1) std::reverse(p.tris.begin(), p.tris.end());
		if (o == 2) std::rotate(p.tris.begin(), p.tris.begin() + p.tris.size() / 2, p.tris.end());
		for (size_t t = 0; t < p.tris.size(); ++t) p.tris[t] = turned(p.tris[t], (int)(y + t * o) % 6);
		NOTE("%s", p.text().c_str());
		one<T>(c, p, false);
	}
}
MC_REGISTER(frames_double, frames<double>);
MC_REGISTER(frames_float, frames<float>);

// Larger meshes; one more element at an inner edge is refused
MC_SECTION(large)
{
	eachLarge(c, c.thorough ? 1000 : 150, c.thorough ? 24 : 6, [&](Plan& p)
	{
		one<double>(c, p, false);
		int left = 3;
		for (auto& e : p.edges())
		{
			if (e.second.size() != 2 || --left < 0) continue;
			Plan q = p;
			q.pts.push_back({{-3, -7}});
			q.tris.insert(left == 1 ? q.tris.begin() : q.tris.end(), Tri3{{e.first.second, (int)p.pts.size(), e.first.first}});
			one<double>(c, q, true);
		}
	});
}
// Beyond 8 and 16 bits
MC_SECTION(big) { eachBig(c, c.thorough ? 1 << 30 : 70000, c.thorough ? 4 : 2, [&](Plan& p) { one<double>(c, p, false); }); }

}
using namespace vf;

int main(int argc, char** argv)
{
	mc::Meta m;
	m.property = "C19";
	m.level = "exploration";
	m.rule = "a case is one list of triangles (set, order, and order of the vertices in each) on up to seven vertices; edges, neighbours, boundary marks and links are compared with those computed from the list as sets";
	m.assumptions = {"elements have three different vertices, and no two elements have the same three"};
	return mc::main_(argc, argv, m);
}
