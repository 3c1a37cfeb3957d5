// C27: OBJ files load exactly or are rejected
// BUILD: -fsanitize=address -fno-omit-frame-pointer @REPO@/src/objloader/loader/MeshObjLoader.cpp
#include "mesh.h"
#include "loader/MeshObjLoader.h"
#include <new>
#include <sys/stat.h>

// Every allocation made by a load has to be released when its mesh is gone
static long g_live = 0;
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++g_live; return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) --g_live; free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

namespace vf {	// names the library may use as well
using namespace NS;

//---------------------------------------------------------------------------------------------
// What a file describes
enum Verdict
{
	ACCEPT,	// has to load as this mesh
	REJECT,	// has to be refused
	SOFT,	// may be refused, otherwise is this mesh
	SEAM,	// has to load with these elements; vertices may be split where other texture or normal indices are used
	OPEN	// the format does not tell; only memory safety and the release of everything is checked
};
struct Desc
{
	Verdict v = ACCEPT;
	std::vector<std::array<double, 3> > pts;	// all positions of the file
	std::vector<Tri3> tris;	// indices into them
};
static bool blank(char ch) { return ch == ' ' || ch == '\t'; }
static std::vector<std::string> words(const std::string& l)
{
	std::vector<std::string> r;
	for (size_t i = 0; i < l.size();)
	{
		if (blank(l[i])) { ++i; continue; }
		size_t b = i;
		while (i < l.size() && !blank(l[i])) ++i;
		r.push_back(l.substr(b, i - b));
	}
	return r;
}
static bool number(const std::string& t, double& v)
{
	size_t i = 0, d = 0;
	if (t[i] == '-' || t[i] == '+') ++i;
	while (i < t.size() && isdigit((unsigned char)t[i])) { ++i; ++d; }
	if (i < t.size() && t[i] == '.') { ++i; while (i < t.size() && isdigit((unsigned char)t[i])) { ++i; ++d; } }
	if (!d) return false;
	if (i < t.size() && (t[i] == 'e' || t[i] == 'E'))
	{
		++i;
		if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
		size_t x = i;
		while (i < t.size() && isdigit((unsigned char)t[i])) ++i;
		if (i == x || i - x > 2) return false;
	}
	v = strtod(t.c_str(), nullptr);
	return i == t.size() && std::fabs(v) < 1e30 && (v == 0 || std::fabs(v) > 1e-30);
}
// -?digits, at most nine digits count
static bool integer(const std::string& t, long long& v)
{
	size_t i = 0;
	bool neg = false;
	if (i < t.size() && t[i] == '-') { neg = true; ++i; }
	if (i == t.size()) return false;
	v = 0;
	for (; i < t.size(); ++i) { if (!isdigit((unsigned char)t[i])) return false; if (v < 1000000000000000ll) v = v * 10 + (t[i] - '0'); }
	if (neg) v = -v;
	return true;
}
static Desc describe(const std::string& s)
{
	Desc d;
	if (s.find('\0') != std::string::npos) { d.v = OPEN; return d; }
	struct Corner { long long v; std::string rest; };
	std::vector<std::vector<Corner> > group;
	std::map<long long, std::string> rest;
	bool open = false, soft = false, reject = false, seam = false, first = true, faces = false;
	std::vector<std::pair<long long, size_t> > later;
	auto flush = [&]()
	{
		for (auto& f : group)
		{
			for (auto& x : f)
			{
				if (x.v < 0 || x.v >= (long long)d.pts.size()) { reject = true; return; }
				if (first && rest.count(x.v) && rest[x.v] != x.rest) seam = true;
				if (first) rest[x.v] = x.rest;
			}
			if (f.size() < 3) { reject = true; return; }
			for (size_t i = 0; i < f.size(); ++i) for (size_t j = 0; j < i; ++j) if (f[i].v == f[j].v) open = true;
			if (first) for (size_t i = 2; i < f.size(); ++i) d.tris.push_back(Tri3{{(int)f[0].v, (int)f[i - 1].v, (int)f[i].v}});
		}
		if (!group.empty()) { first = false; faces = true; }
		group.clear();
	};
	for (size_t i = 0; i < s.size();)
	{
		size_t e = s.find_first_of("\r\n", i);
		if (e == std::string::npos) e = s.size();
		const std::string line = s.substr(i, e - i);
		i = e + (e + 1 < s.size() && s[e] == '\r' && s[e + 1] == '\n' ? 2 : 1);
		const std::vector<std::string> w = words(line);
		if (w.empty() || w[0][0] == '#') continue;
		const bool more = w.size() > 1 || blank(line.back());
		if (w[0] == "v")
		{
			if (!more) { soft = true; continue; }
			std::array<double, 3> p{{0, 0, 0}};
			if (w.size() < 4) open = true;
			for (int k = 0; k < 3 && !open; ++k) if (!number(w[k + 1], p[k])) open = true;
			d.pts.push_back(p);
		}
		else if (w[0] == "f")
		{
			if (!more) { soft = true; continue; }
			std::vector<Corner> f;
			for (size_t k = 1; k < w.size(); ++k)
			{
				std::string part[3];
				int n = 0;
				for (char ch : w[k]) { if (ch == '/') { if (++n > 2) break; } else part[n] += ch; }
				Corner x;
				long long o;
				if (n > 2 || !integer(part[0], x.v)) { open = true; break; }
				if ((n > 0 && !part[1].empty() && !integer(part[1], o)) || (n > 1 && !part[2].empty() && !integer(part[2], o))) { open = true; break; }
				if (w[k].back() == '/') open = true;
				x.rest = part[1] + "/" + part[2];
				if (x.v == 0 || x.v < -(long long)d.pts.size()) reject = true;
				else if (x.v < 0) { x.v += d.pts.size(); if (x.rest != "/") seam = true; }
				else { if (x.v > (long long)d.pts.size()) soft = true; --x.v; }
				f.push_back(x);
			}
			group.push_back(f);
		}
		else if (w[0] == "g" || w[0] == "o") { if (more) flush(); }
		else if (w[0] == "t") open = true;
		else if (w[0] == "mtllib") { if (!more) soft = true; }
		else if (w[0] != "vn" && w[0] != "vt" && w[0] != "vp" && w[0] != "s" && w[0] != "l" && w[0] != "p" && w[0] != "usemtl") soft = true;
	}
	flush();
	if (!faces) soft = true;
	std::set<Tri3> sets;
	for (Tri3 a : d.tris)
	{
		std::sort(a.begin(), a.end());
		if (!sets.insert(a).second) soft = true;
	}
	Plan p;
	p.tris = d.tris;
	if (!reject && shared3(p)) { if (seam) open = true; else reject = true; }
	d.v = open ? OPEN : reject ? REJECT : seam ? SEAM : soft ? SOFT : ACCEPT;
	if (d.v == SEAM && soft) d.v = OPEN;
	return d;
}

template<class T> static bool near(T got, double want) { const double d = std::fabs((double)got - want); return d <= 4e-7 * std::fabs(want) + 1e-30; }
template<class T> static void compare(mc::Ctx& c, const Mesh<T, 2>& m, const Desc& d, int X, int Y)
{
	CK(m.elements().size() == d.tris.size(), "%d elements, expected %d", (int)m.elements().size(), (int)d.tris.size());
	for (size_t t = 0; t < d.tris.size(); ++t)
		for (int i = 0; i < 3; ++i)
		{
			const auto& q = d.pts[d.tris[t][i]];
			const auto* v = m.element(t)->Vertices[i];
			CK(near(v->Vertex[0], q[X]) && near(v->Vertex[1], q[Y]), "element %d, corner %d is at (%g,%g), expected (%g,%g)", (int)t, i, (double)v->Vertex[0], (double)v->Vertex[1], q[X], q[Y]);
		}
	if (d.v == SEAM) return;
	// One vertex for every position that is used
	std::map<int, size_t> at;
	for (size_t t = 0; t < d.tris.size(); ++t)
		for (int i = 0; i < 3; ++i)
		{
			const int k = d.tris[t][i];
			const size_t g = m.element(t)->Vertices[i]->GlobalIndex;
			CK(g < m.vertices().size() && m.vertex(g) == m.element(t)->Vertices[i], "element %d: vertex %d is not in the mesh", (int)t, i);
			if (at.count(k)) CK(at[k] == g, "vertex %d of the file became the vertices %d and %d", k, (int)at[k], (int)g);
			at[k] = g;
		}
	CK(m.vertices().size() == at.size(), "%d vertices, expected %d", (int)m.vertices().size(), (int)at.size());
	Plan p;
	for (size_t i = 0; i < m.vertices().size(); ++i) p.pts.push_back({{(double)m.vertex(i)->Vertex[0], (double)m.vertex(i)->Vertex[1]}});
	for (auto& t : d.tris) p.tris.push_back(Tri3{{(int)at[t[0]], (int)at[t[1]], (int)at[t[2]]}});
	std::set<size_t> used;
	for (auto& x : at) used.insert(x.second);
	CK(used.size() == at.size(), "two vertices of the file became one");
	sameParts(c, m, p);
	sameEdges(c, m, p);
}
template<class T, int X, int Y> static void tryLoad(mc::Ctx& c, const std::string& s, const Desc& d, bool file)
{
	++c.s->evals;
	try
	{
		typedef MeshObjLoader<T, Y, X> L;
		Mesh<T, 2> m = file ? L::loadFile(s) : L::loadString(s);
		if (d.v == REJECT) c.fail("loaded as a mesh of %d vertices and %d elements instead of being rejected", (int)m.vertices().size(), (int)m.elements().size());
		if (d.v != OPEN) compare(c, m, d, X, Y);
	}
	catch (const NSException&)
	{
		if (d.v == ACCEPT || d.v == SEAM) c.fail("rejected a valid file");
	}
	catch (const std::length_error&) { if (d.v != OPEN) throw; }
	catch (const std::bad_alloc&) { if (d.v != OPEN) throw; }
}
template<class T, int X, int Y> static void load(mc::Ctx& c, const std::string& s)
{
	const Desc d = describe(s);
	static const char* N[] = {"a valid mesh", "to be rejected", "a valid mesh or to be rejected", "a mesh with seams", "open"};
	NOTE("%s\nis %s\n", s.c_str(), N[d.v]);
	if (d.v != OPEN) c.nontrivial();
	long before = g_live;
	tryLoad<T, X, Y>(c, s, d, false);
	if (g_live != before)
	{
		before = g_live;
		tryLoad<T, X, Y>(c, s, d, false);
		CK(g_live == before, "%ld allocations were not released", g_live - before);
	}
}

//---------------------------------------------------------------------------------------------
struct Layout
{
	int index = 0;	// 0 absolute, 1 relative to the face, 2 mixed
	int refs = 0;	// 0 v, 1 v/vt, 2 v//vn, 3 v/vt/vn
	int group = 0;	// 0 none, 1 named group, 2 object, group and material first, 3 a second object follows, 4 a group without faces in between
	int order = 0;	// 0 vertices first, 1 vertices before the face that uses them
	int style = 0, junk = 0;
	const char *sep = " ", *lead = "", *eol = "\n", *trail = "";
	bool last = true, quads = false, unused = false;
	std::string num(double x) const
	{
		static const char* F[] = {"%g", "%.7f", "%e", "+"};
		char b[64];
		if (style == 3)	// shortest: no digit before the point
		{
			snprintf(b, sizeof b, "%g", x);
			std::string s = b;
			if (s.compare(0, 2, "0.") == 0) s.erase(0, 1);
			else if (s.compare(0, 3, "-0.") == 0) s.erase(1, 1);
			return s;
		}
		snprintf(b, sizeof b, F[style], x);
		return b;
	}
	std::string text(const Plan& p) const
	{
		std::string s;
		auto line = [&](const std::vector<std::string>& w)
		{
			s += lead;
			for (size_t i = 0; i < w.size(); ++i) s += (i ? sep : "") + w[i];
			s += trail;
			s += eol;
		};
		if (junk & 1) { line({"#", "made", "by", "hand"}); s += eol; s += " "; s += eol; s += "\t "; s += eol; }
		if (group == 2) { line({"o", "thing"}); line({"g", "part", "other"}); line({"usemtl", "paint"}); }
		if (group == 1) line({"g", "part"});
		int n = 0;
		std::vector<int> id(p.pts.size(), 0);
		auto vertex = [&](size_t i)
		{
			if (unused && i % 2) { line({"v", "99", "98", "97"}); ++n; }
			std::vector<std::string> w{"v", num(p.pts[i][0]), num(p.pts[i][1]), num(i * 0.5)};
			if (junk & 2) w.push_back("1.0");
			line(w);
			id[i] = ++n;
			if (junk & 1) { line({"#", "v", "7", "7", "7"}); s += "  "; s += eol; }
		};
		if (order == 0) for (size_t i = 0; i < p.pts.size(); ++i) vertex(i);
		if (refs & 1) for (size_t i = 0; i < p.pts.size(); ++i) line({"vt", "0.5", num(i * 0.125)});
		if (refs & 2) for (size_t i = 0; i < p.pts.size(); ++i) line({"vn", "0", "0", "1"});
		if (junk & 2) line({"s", "off"});
		auto ref = [&](int i, size_t t)
		{
			if (!id[i]) vertex(i);
			(void)t;
			return i;
		};
		auto word = [&](int i, int turn)
		{
			const bool rel = index == 1 || (index == 2 && turn % 2);
			std::string r = std::to_string(rel ? id[i] - n - 1 : id[i]);
			if (refs) r += "/";
			if (refs & 1) r += std::to_string(i + 1);
			if (refs & 2) r += "/" + std::to_string(i + 1);
			return r;
		};
		size_t t = 0;
		int count = 0;
		while (t < p.tris.size())
		{
			std::vector<int> f(p.tris[t].begin(), p.tris[t].end());
			++t;
			// The next element continues the fan
			while (quads && t < p.tris.size())
			{
				const Tri3& q = p.tris[t];
				if (q[0] == f[0] && q[1] == f.back() && std::find(f.begin(), f.end(), q[2]) == f.end()) { f.push_back(q[2]); ++t; }
				else break;
			}
			for (int i : f) ref(i, t);
			std::vector<std::string> w{"f"};
			for (size_t i = 0; i < f.size(); ++i) w.push_back(word(f[i], count + (int)i));
			line(w);
			++count;
			if (group == 4 && count == 1) line({"usemtl", "other"});
		}
		if (group == 3) { line({"o", "second"}); line({"v", "5", "5", "5"}); line({"f", "1", "2", std::to_string(n + 1)}); }
		if (group == 4) { line({"g", "empty"}); line({"o", "x"}); }
		if (!last) s.resize(s.size() - strlen(eol));
		return s;
	}
};
// Fans, so that faces with four to eight vertices arise
static std::vector<Plan> plans()
{
	std::vector<Plan> r = family();
	for (int n = 4; n <= 8; ++n)
	{
		Plan p;
		for (int i = 0; i < n; ++i) p.pts.push_back({{std::floor(cos(i * 6.283185307 / n) * 64) / 8, std::floor(sin(i * 6.283185307 / n) * 64) / 8}});
		for (int i = 2; i < n; ++i) p.tris.push_back(Tri3{{0, i - 1, i}});
		r.push_back(p);
	}
	Plan p;	// two quads and a triangle
	p.pts = {{{0, 0}}, {{1, 0}}, {{2, 0}}, {{0, 1}}, {{1, 1}}, {{2, 1}}, {{3, 0.5}}};
	p.tris = {{{0, 1, 4}}, {{0, 4, 3}}, {{1, 2, 5}}, {{1, 5, 4}}, {{2, 6, 5}}};
	r.push_back(p);
	return r;
}
template<class T, int X, int Y> static void layouts(mc::Ctx& c)
{
	const std::vector<Plan> fam = plans();
	static const char *SEP[] = {" ", "\t", " \t "}, *EOL[] = {"\n", "\r\n", "\r"};
	const int total = 3 * 4 * 5 * 2 * 4 * 4 * 3 * 3 * 2 * 2 * 2 * 2 * 2;
	for (size_t k = 0; k < fam.size(); ++k)
		for (int x = 0; x < total; ++x)
		{
			int y = x;
			auto take = [&](int n) { int r = y % n; y /= n; return r; };
			Layout l;
			l.index = take(3); l.refs = take(4); l.group = take(5); l.quads = take(2); l.style = take(4); l.junk = take(4);
			l.sep = SEP[take(3)]; l.eol = EOL[take(3)]; l.order = take(2); l.last = take(2); l.unused = take(2); l.lead = take(2) ? "  " : ""; l.trail = take(2) ? " " : "";
			if ((x / 11 + k) % (c.thorough ? 127 : 997)) continue;
			if (l.index && l.refs) l.refs = 0;
			if (!c.begin({(int64_t)k, x})) continue;
			const std::string s = l.text(fam[k]);
			const Desc d = describe(s);
			// The reference reads what was written
			if (d.v != ACCEPT && !(d.v == SEAM)) c.fail("error of the check: layout is not valid: %s", s.c_str());
			if (d.tris.size() != fam[k].tris.size()) c.fail("error of the check: layout is not read back: %s", s.c_str());
			for (size_t t = 0; t < d.tris.size(); ++t) for (int i = 0; i < 3; ++i)
				if (!(std::fabs(d.pts[d.tris[t][i]][0] - fam[k].pts[fam[k].tris[t][i]][0]) < 1e-6)) c.fail("error of the check: layout is not read back: %s", s.c_str());
			load<T, X, Y>(c, s);
		}
}
MC_REGISTER(layouts_double, layouts<double, 0, 1>);
MC_REGISTER(layouts_float, layouts<float, 0, 1>);
MC_REGISTER(layouts_xz, layouts<double, 0, 2>);
MC_REGISTER(layouts_yx, layouts<double, 1, 0>);

static std::vector<Layout> some(bool all)
{
	std::vector<Layout> r(4);
	r[1].refs = 3; r[1].group = 2; r[1].eol = "\r\n"; r[1].quads = true;
	r[2].index = 2; r[2].order = 1; r[2].last = false; r[2].unused = true;
	r[3].refs = 2; r[3].junk = 3; r[3].group = 3; r[3].sep = "\t"; r[3].lead = " ";
	if (all)
	{
		r.push_back(r[1]); r[4].refs = 1; r[4].group = 4; r[4].last = false; r[4].eol = "\r";
		r.push_back(r[2]); r[5].index = 1; r[5].quads = true; r[5].trail = " "; r[5].group = 1;
	}
	return r;
}
template<class F> static void eachFile(mc::Ctx& c, std::initializer_list<int> quick, F f)
{
	const std::vector<Plan> fam = plans();
	const std::vector<Layout> lay = some(c.thorough);
	std::vector<int> ks(quick);
	if (c.thorough) { ks.clear(); for (size_t i = 0; i < fam.size(); ++i) ks.push_back((int)i); }
	for (int k : ks)
		for (size_t l = 0; l < lay.size(); ++l)
			f((int64_t)(k * 10 + l), lay[l].text(fam[k]));
}
typedef void (*Load)(mc::Ctx&, const std::string&);
static const Load LOAD = load<double, 0, 1>;

MC_SECTION(truncated)
{
	eachFile(c, {0, 2, 4, 7, 9, 12, 14, 17}, [&](int64_t id, const std::string& s)
	{
		for (size_t i = 0; i <= s.size(); ++i) if (c.begin({id, 0, (int64_t)i})) { c.fault(); LOAD(c, s.substr(0, i)); }
		for (size_t i = 0; i <= s.size(); ++i) if (c.begin({id, 1, (int64_t)i})) { c.fault(); LOAD(c, s.substr(i)); }
	});
}
static const char* TOK[] = {"", "0", "1", "2", "3", "4", "5", "9", "-1", "-2", "-3", "-5", "-9", "2147483647", "2147483648", "-2147483648", "4294967297", "-4294967295", "99999999999999999999", "1/", "1//", "1/1", "1/9", "1//9", "0/0/0",
	"2/1/1", "1/1/1/1", "/", "//1", "x", "1x", "1.5", ".5", "-.25", "1.", ".", "-", "1e", "1e2", "2.5e-1", "#", "nan", "1e400", "+1", "1 2", "1\n2", "f", "v", "g", "o", "t", "usemtl", "mtllib", "vn", "s", "l", "1\t", "\r"};
const int NTOK = sizeof TOK / sizeof *TOK;
struct Span { size_t b, n; };
static std::vector<Span> tokens(const std::string& s)
{
	std::vector<Span> r;
	for (size_t i = 0; i < s.size();)
	{
		if (isspace((unsigned char)s[i])) { ++i; continue; }
		size_t b = i;
		while (i < s.size() && !isspace((unsigned char)s[i])) ++i;
		r.push_back(Span{b, i - b});
	}
	return r;
}
static std::string with(std::string s, Span at, const std::string& t) { return s.replace(at.b, at.n, t); }
MC_SECTION(tokens_one)
{
	eachFile(c, {0, 2, 3, 4, 7, 9, 13, 17}, [&](int64_t id, const std::string& s)
	{
		const std::vector<Span> t = tokens(s);
		for (size_t i = 0; i < t.size(); ++i)
			for (int k = 0; k < NTOK; ++k)
				if (c.begin({id, (int64_t)i, k})) { c.fault(); LOAD(c, with(s, t[i], TOK[k])); }
	});
}
MC_SECTION(tokens_two)
{
	eachFile(c, {0}, [&](int64_t id, const std::string& s)
	{
		if (id >= 30) return;
		const std::vector<Span> t = tokens(s);
		for (size_t i = 0; i < t.size(); ++i)
			for (size_t j = 0; j < i; ++j)
				for (int a = 0; a < NTOK; ++a)
					for (int b = 0; b < NTOK; ++b)
					{
						if ((a + b * 3 + i + j) % (c.thorough ? 29 : 97)) continue;
						if (c.begin({id, (int64_t)i, (int64_t)j, a, b})) { c.fault(); LOAD(c, with(with(s, t[i], TOK[a]), t[j], TOK[b])); }
					}
	});
}
static void byteFaults(mc::Ctx& c, int kind)
{
	static const unsigned char B[] = {' ', '\n', '#', '-', '.', '/', '0', '1', '2', '9', 'e', 'f', 'g', 'o', 't', 'v', 'x', '\t', '\r', 0, 255, '+'};
	eachFile(c, {0, 2, 13}, [&](int64_t id, const std::string& s)
	{
		const int nb = c.thorough && id < 6 ? 256 : (int)sizeof B;
		for (size_t i = 0; i <= s.size(); ++i)
			for (int b = 0; b < (kind == 2 ? 1 : nb); ++b)
			{
				if (kind != 1 && i == s.size()) continue;
				if (!c.begin({id, (int64_t)i, b})) continue;
				c.fault();
				const char ch = (char)(nb == 256 ? b : B[b]);
				std::string x = s;
				if (kind == 0) x[i] = ch;
				else if (kind == 1) x.insert(i, 1, ch);
				else x.erase(i, 1);
				LOAD(c, x);
			}
	});
}
MC_REGISTER(bytes_replaced, [](mc::Ctx& c) { byteFaults(c, 0); });
MC_REGISTER(bytes_inserted, [](mc::Ctx& c) { byteFaults(c, 1); });
MC_REGISTER(bytes_removed, [](mc::Ctx& c) { byteFaults(c, 2); });

MC_SECTION(lines)
{
	std::string big(5000, 'n');
	const std::vector<std::string> extra = {"", "\n", "\r", "f 1 2\n", "f 1\n", "f\n", "f \n", "f 1 2 3\n", "f 1 1 1\n", "f 3 2 1\n", "f 1 2 99\n", "f -1 -2 -3\n", "f 0 1 2\n", "v 1 1 1\n", "v 1 1\n", "v\n", "v \n", "g\n", "g \n", "g a b c\n", "o\n", "o \n", "o a\n",
		"usemtl\n", "usemtl \n", "usemtl a\n", "mtllib \n", "mtllib none\n", "t\n", "t \n", "t a 1/1/1 1 2.5 x\n", "t a 1/0/0\n", "t a 1/1/1\n", "t a 3/0/0 1\n", "t a 0/3/0 1\n", "t a 0/0/3 x\n", "t a -1/0/0\n", "t a 0/0/-1\n", "t a 999999999/0/0\n", "t a\n", "t  a 1/1/1 1 2 3\n",
		"s 1\n", "vt 1 1\n", "vt 1\n", "vn 0 0 1\n", "vn\n", "vp 1\n", "l 1 2\n", "p 1\n", "# f 1 2 9\n", "xyz 1 2\n", "\t\n", "usemtl " + big + "\n", "o " + big + "\n", "g " + big + "\n", "t " + big + " 0/0/0\n", "mtllib " + big + "\n", "f 1 2 3 " + big + "\n", big + "\n", "f 1/1/1 2/2/2 3/3/3\n", "f 1//1 2//2 3//3\n", "newmtl a\n"};
	eachFile(c, {0, 2, 7, 17}, [&](int64_t id, const std::string& s)
	{
		std::vector<std::string> l;
		for (size_t i = 0; i < s.size();) { size_t q = s.find_first_of("\r\n", i); if (q == std::string::npos) q = s.size(); else if (s[q] == '\r' && q + 1 < s.size() && s[q + 1] == '\n') ++q; l.push_back(s.substr(i, q + 1 - i)); i = q + 1; }
		const int m = (int)l.size();
		auto run = [&](int64_t kind, int i, int j, const std::vector<std::string>& v)
		{
			if (!c.begin({id, kind, i, j})) return;
			c.fault();
			std::string x;
			for (auto& t : v) x += t;
			LOAD(c, x);
		};
		for (int i = 0; i < m; ++i)
		{
			std::vector<std::string> v = l;
			v.erase(v.begin() + i);
			run(0, i, 0, v);
			for (int j = 0; j <= m; ++j) { v = l; v.insert(v.begin() + j, l[i]); run(1, i, j, v); }
			for (int j = 0; j < i; ++j) { v = l; std::swap(v[i], v[j]); run(2, i, j, v); }
		}
		for (int i = 0; i <= m; ++i)
			for (size_t k = 0; k < extra.size(); ++k)
			{
				std::vector<std::string> v = l;
				v.insert(v.begin() + i, extra[k]);
				run(3, i, (int)k, v);
			}
		if (id == 0)
			for (size_t k = 0; k < extra.size(); ++k)
				for (size_t j = 0; j < extra.size(); ++j)
				{
					if (c.begin({id, 4, (int64_t)k, (int64_t)j})) LOAD(c, extra[k] + extra[j]);
					if (c.begin({id, 5, (int64_t)k, (int64_t)j})) LOAD(c, s + extra[k] + extra[j]);
				}
	});
}
// Corners with other texture or normal indices in other faces
MC_SECTION(seams)
{
	static const char* R[] = {"", "/1", "/2", "//1", "/1/1", "/1/2", "//9"};
	for (int x = 0; x < 7 * 7 * 7 * 7; ++x)
	{
		int d[4];
		mc::digits(x, 7, 4, d);
		if (!c.begin({x})) continue;
		std::string s = "v 0 0 0\nv 1 0 0\nv 0 1 0\nv 1 1 0\nvt 0 0\nvt 1 1\nvn 0 0 1\nvn 1 0 0\n";
		s += std::string("f 1") + R[d[0]] + " 2" + R[d[1]] + " 3\nf 4 3" + R[d[2]] + " 2" + R[d[3]] + "\n";
		LOAD(c, s);
	}
}
MC_SECTION(files)
{
	const char* t = getenv("MC_TMP");
	const std::string dir = std::string(t ? t : "/tmp") + "/c27." + std::to_string(getpid());
	mkdir(dir.c_str(), 0700);
	const std::string a = dir + "/a.obj";
	Desc no;
	no.v = REJECT;
	eachFile(c, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}, [&](int64_t id, const std::string& s)
	{
		{ std::ofstream o(a, std::ios::binary); o << s; }
		const Desc d = describe(s);
		auto run = [&](int k, const std::string& f, const Desc& w)
		{
			if (!c.begin({id, k})) return;
			const long before = g_live;
			tryLoad<double, 0, 1>(c, f, w, true);
			if (g_live == before) return;
			const long again = g_live;
			tryLoad<double, 0, 1>(c, f, w, true);
			CK(g_live == again, "%ld allocations were not released", g_live - again);
		};
		run(0, a, d);
		run(1, dir + "/none", no);
		run(2, "", no);
		run(3, a + "/none", no);
	});
	unlink(a.c_str());
	rmdir(dir.c_str());
}

// Materials make no difference, whether their library exists or not
MC_SECTION(materials)
{
	const char* t = getenv("MC_TMP");
	const std::string dir = std::string(t ? t : "/tmp") + "/c27m." + std::to_string(getpid());
	mkdir(dir.c_str(), 0700);
	const std::string lib = dir + "/a.mtl", a = dir + "/a.obj";
	{ std::ofstream o(lib); o << "newmtl red\nKa 1 0 0\nKd 1 0 0\nKs 0 0 0\nNs 10\nillum 2\nmap_Kd a.png\n\nnewmtl blue\nKd 0 0 1\nd 0.5\nTr 0.5\n"; }
	static const char* USE[] = {"", "usemtl red\n", "usemtl blue\n", "usemtl other\n", "o next\n", "g next\n", "usemtl red\ns 1\nusemtl blue\n"};
	const int U = sizeof USE / sizeof *USE;
	static const char* V = "v 0 0 0\nv 2 0 0\nv 0 2 0\nv 2 2 0\nv 4 2 1\n";
	static const char* F[] = {"f 1 2 3\n", "f 2 4 3\n", "f 2 5 4\n"};
	for (int lb = 0; lb < 4; ++lb)	// none, missing, first, after the vertices
		for (int x = 0; x < U * U * U * U; ++x)
			for (int file = 0; file < 2; ++file)
			{
				if (!c.begin({lb, x, file})) continue;
				int d[4];
				mc::digits(x, U, 4, d);
				std::string s;
				if (lb == 1) s += "mtllib " + dir + "/none.mtl\n";
				if (lb == 2) s += "mtllib " + lib + "\n";
				s += V;
				if (lb == 3) s += "mtllib " + lib + "\n";
				for (int i = 0; i < 3; ++i) s += std::string(USE[d[i]]) + F[i];
				s += USE[d[3]];
				const Desc e = describe(s);
				NOTE("%s\n", s.c_str());
				c.nontrivial();
				if (file) { std::ofstream o(a, std::ios::binary); o << s; }
				long before = g_live;
				tryLoad<double, 0, 1>(c, file ? a : s, e, file);
				if (g_live != before)
				{
					before = g_live;
					tryLoad<double, 0, 1>(c, file ? a : s, e, file);
					CK(g_live == before, "%ld allocations were not released", g_live - before);
				}
			}
	unlink(lib.c_str());
	unlink(a.c_str());
	rmdir(dir.c_str());
}

// Larger meshes; faces with many corners, long lines
MC_SECTION(large)
{
	eachLarge(c, c.thorough ? 120 : 70, c.thorough ? 6 : 2, [&](Plan& p) { for (Layout l : some(true)) LOAD(c, l.text(p)); });
}
// Beyond 8 and 16 bits
MC_SECTION(big)
{
	eachBig(c, c.thorough ? 1 << 30 : 70000, 1, [&](Plan& p)
	{
		Layout l;
		l.style = 1;
		for (l.index = 0; l.index < 3; ++l.index)
		{
			if (l.index && !c.thorough && p.tris.size() > 9000) break;
			load<double, 0, 1>(c, l.text(p));
			Plan q = p;	// the last element has a corner of its own
			q.pts.push_back(q.pts.back());
			q.tris.back()[1] = (int)p.pts.size();
			load<double, 0, 1>(c, l.text(q));
		}
	});
}
MC_SECTION(large_faces)
{
	for (int n = 3; n <= 80; ++n)
		for (int o = 0; o < (int)some(true).size(); ++o)
		{
			if (!c.begin({n, o})) continue;
			Plan p;
			for (int i = 0; i < n; ++i) p.pts.push_back({{(double)(i * 3 % n), (double)(i * i)}});
			for (int i = 2; i < n; ++i) p.tris.push_back(Tri3{{0, i - 1, i}});
			Layout l = some(true)[o];
			l.quads = true;
			if (n % 3 == 0) l.junk |= 1;
			LOAD(c, l.text(p));
			const std::string blanks(n * 50, ' ');
			l.sep = blanks.c_str();
			if (n < 20) LOAD(c, l.text(p));
		}
}

}
using namespace vf;

int main(int argc, char** argv)
{
	return mc::main_(argc, argv, mc::Meta{"C27", "fault_enumeration",
		"A case is one OBJ file: one of 18 meshes in a layout, whole or with one place truncated, replaced, inserted or removed (byte, token or line), or with two tokens replaced. It is non-trivial if the format says what the file describes.",
		{"numbers and references that are malformed, tag commands, and files with NUL bytes may be read in any way or rejected; unknown commands, forward references, repeated corners and files without faces may be rejected",
		 "vertices of a mesh may be numbered in any order; only the first object with faces is loaded",
		 "AddressSanitizer and a count of allocations detect invalid accesses and leaks"}});
}
