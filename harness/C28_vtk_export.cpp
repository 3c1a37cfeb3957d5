// C28: exported VTK files are well-formed and describe the mesh and its fields
#include "mesh.h"
#include "sf/PolyShapeFunction.h"
#include "export/VTKExporter.h"
#include "Vector.h"

namespace vf {	// names the library may use as well
using namespace NS;

//---------------------------------------------------------------------------------------------
// A strict reader of the part of XML that such files use
struct Node
{
	std::string name, text;
	std::map<std::string, std::string> attr;
	std::vector<Node> kids;
	const Node* kid(const std::string& n) const { for (auto& k : kids) if (k.name == n) return &k; return nullptr; }
	int count(const std::string& n) const { int x = 0; for (auto& k : kids) x += k.name == n; return x; }
	std::string get(const std::string& n) const { auto i = attr.find(n); return i == attr.end() ? "" : i->second; }
};
struct Xml
{
	mc::Ctx& c;
	const std::string& s;
	size_t i = 0;
	Xml(mc::Ctx& c_, const std::string& s_) : c(c_), s(s_) {}
	[[noreturn]] void bad(const char* what) { c.fail("not well-formed, %s at byte %d: ...%s", what, (int)i, s.substr(i > 30 ? i - 30 : 0, 60).c_str()); }
	static bool ws(char ch) { return ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r'; }
	static bool nameChar(char ch) { return isalnum((unsigned char)ch) || ch == '_' || ch == '-' || ch == '.' || ch == ':'; }
	void skip() { while (i < s.size() && ws(s[i])) ++i; }
	std::string name() { size_t b = i; while (i < s.size() && nameChar(s[i])) ++i; if (i == b || isdigit((unsigned char)s[b])) bad("no name"); return s.substr(b, i - b); }
	std::string chars(char end)	// up to `end`, references replaced
	{
		std::string r;
		while (i < s.size() && s[i] != end)
		{
			if (s[i] == '<') bad("'<' in text");
			if (s[i] == '&')
			{
				static const char *R[] = {"&amp;", "&lt;", "&gt;", "&quot;", "&apos;"};
				int k = 0;
				while (k < 5 && s.compare(i, strlen(R[k]), R[k])) ++k;
				if (k == 5)
				{
					int n = 0, v = 0;
					if (sscanf(s.c_str() + i, "&#%d;%n", &v, &n) == 1 && n > 0 && v > 0 && v < 128) { r += (char)v; i += n; continue; }
					n = 0;
					if (sscanf(s.c_str() + i, "&#x%x;%n", &v, &n) == 1 && n > 0 && v > 0 && v < 128) { r += (char)v; i += n; continue; }
					bad("unknown reference");
				}
				r += "&<>\"'"[k];
				i += strlen(R[k]);
				continue;
			}
			r += s[i++];
		}
		return r;
	}
	void attrs(Node& n)
	{
		while (true)
		{
			const size_t b = i;
			skip();
			if (i >= s.size()) bad("unexpected end");
			if (s[i] == '>' || s[i] == '/' || s[i] == '?') return;
			if (i == b) bad("no space in front of an attribute");
			const std::string a = name();
			skip();
			if (i >= s.size() || s[i] != '=') bad("no '='");
			++i;
			skip();
			if (i >= s.size() || (s[i] != '"' && s[i] != '\'')) bad("no quote");
			const char q = s[i++];
			const std::string v = chars(q);
			if (i >= s.size()) bad("no closing quote");
			++i;
			if (n.attr.count(a)) bad("attribute exists twice");
			n.attr[a] = v;
		}
	}
	Node element()
	{
		Node n;
		if (i >= s.size() || s[i] != '<') bad("no element");
		++i;
		n.name = name();
		attrs(n);
		if (s[i] == '/') { ++i; if (i >= s.size() || s[i] != '>') bad("no '>'"); ++i; return n; }
		if (s[i] != '>') bad("no '>'");
		++i;
		while (true)
		{
			n.text += chars('<');
			if (i + 1 >= s.size()) bad("element not closed");
			if (s.compare(i, 4, "<!--") == 0) { const size_t e = s.find("-->", i + 4); if (e == std::string::npos) bad("comment not closed"); i = e + 3; continue; }
			if (s[i + 1] == '/')
			{
				i += 2;
				if (name() != n.name) bad("closing tag of another element");
				skip();
				if (i >= s.size() || s[i] != '>') bad("no '>'");
				++i;
				return n;
			}
			n.kids.push_back(element());
		}
	}
	Node document()
	{
		if (s.compare(0, 5, "<?xml") == 0)
		{
			i = 5;
			Node n;
			attrs(n);
			if (n.get("version") != "1.0" || s.compare(i, 2, "?>")) bad("no XML declaration");
			i += 2;
		}
		skip();
		Node n = element();
		skip();
		if (i != s.size()) bad("text behind the document");
		return n;
	}
};

static std::vector<double> values(mc::Ctx& c, const Node& n)
{
	std::vector<double> r;
	const char* p = n.text.c_str();
	while (true)
	{
		while (Xml::ws(*p)) ++p;
		if (!*p) return r;
		char* e;
		const double v = strtod(p, &e);
		CK(e != p && (!*e || Xml::ws(*e)), "array %s holds something that is no number: %.20s", n.get("Name").c_str(), p);
		r.push_back(v);
		p = e;
	}
}
static bool about(double got, double want) { return std::fabs(got - want) <= 6e-6 * std::fabs(want) + 1e-37; }

struct Want { std::string name; std::vector<double> v; int comp; bool exact; };
static const Node* array(mc::Ctx& c, const Node& sec, const std::string& name)
{
	const Node* r = nullptr;
	for (auto& k : sec.kids) if (k.name == "DataArray" && k.get("Name") == name) { CK(!r, "array '%s' exists twice", name.c_str()); r = &k; }
	CK(r, "array '%s' is missing in %s", name.c_str(), sec.name.c_str());
	CK(r->get("format") == "ascii" && r->kids.empty(), "array '%s' is not plain text", name.c_str());
	return r;
}
static void same(mc::Ctx& c, const Node& n, const Want& w)
{
	const std::vector<double> v = values(c, n);
	CK(v.size() == w.v.size(), "array '%s' has %d values, expected %d", w.name.c_str(), (int)v.size(), (int)w.v.size());
	const std::string comp = n.get("NumberOfComponents");
	CK((comp.empty() ? 1 : atoi(comp.c_str())) == w.comp, "array '%s' has '%s' components, expected %d", w.name.c_str(), comp.c_str(), w.comp);
	const std::string type = n.get("type");
	CK(type == "Float32" || type == "Float64" || (w.exact && (type.compare(0, 3, "Int") == 0 || type.compare(0, 4, "UInt") == 0)), "array '%s' has the type '%s'", w.name.c_str(), type.c_str());
	for (size_t i = 0; i < v.size(); ++i)
		CK(w.exact ? v[i] == w.v[i] : about(v[i], w.v[i]), "array '%s', value %d is %.9g, expected %.9g", w.name.c_str(), (int)i, v[i], w.v[i]);
}
static void section(mc::Ctx& c, const Node& piece, const char* name, const std::vector<Want>& want)
{
	CK(piece.count(name) <= 1, "%d sections %s", piece.count(name), name);
	static const Node none;
	const Node* s = piece.kid(name);
	if (!s) { CK(want.empty(), "no section %s", name); return; }
	CK(s->kids.size() == want.size(), "%s has %d arrays, expected %d", name, (int)s->kids.size(), (int)want.size());
	for (auto& w : want) same(c, *array(c, *s, w.name), w);
	const std::string sc = s->get("Scalars");
	if (!sc.empty()) array(c, *s, sc);
}
template<class T> static void check(mc::Ctx& c, const std::string& s, const Mesh<T, 2>& m, const Plan& p, int order, const std::vector<Want>& pd, const std::vector<Want>& cd)
{
	const Node root = Xml(c, s).document();
	CK(root.name == "VTKFile" && root.get("type") == "UnstructuredGrid", "root element %s of type %s", root.name.c_str(), root.get("type").c_str());
	const Node* g = root.kid("UnstructuredGrid");
	CK(g && root.count("UnstructuredGrid") == 1 && g->count("Piece") == 1, "no single piece");
	const Node& piece = *g->kid("Piece");
	const auto edges = p.edges();
	const int V = (int)p.pts.size() + (order == 2 ? (int)edges.size() : 0), E = (int)p.tris.size(), N = order == 2 ? 6 : 3;
	CK(piece.get("NumberOfPoints") == std::to_string(V), "%s points, expected %d", piece.get("NumberOfPoints").c_str(), V);
	CK(piece.get("NumberOfCells") == std::to_string(E), "%s cells, expected %d", piece.get("NumberOfCells").c_str(), E);

	const Node* pts = piece.kid("Points");
	CK(pts && pts->kids.size() == 1 && pts->kids[0].name == "DataArray" && pts->kids[0].get("NumberOfComponents") == "3" && pts->kids[0].get("format") == "ascii", "no array of points");
	const std::vector<double> xyz = values(c, pts->kids[0]);
	CK((int)xyz.size() == 3 * V, "%d coordinates, expected %d", (int)xyz.size(), 3 * V);
	for (int i = 0; i < V; ++i)
	{
		const double x = (double)m.vertex(i)->Vertex[0], y = (double)m.vertex(i)->Vertex[1];
		if (i < (int)p.pts.size()) CK(x == (double)(T)p.pts[i][0] && y == (double)(T)p.pts[i][1], "vertex %d of the mesh was moved", i);
		CK(about(xyz[3 * i], x) && about(xyz[3 * i + 1], y) && xyz[3 * i + 2] == 0, "point %d is (%g,%g,%g), expected (%g,%g,0)", i, xyz[3 * i], xyz[3 * i + 1], xyz[3 * i + 2], x, y);
	}
	const Node* cells = piece.kid("Cells");
	CK(cells && cells->kids.size() == 3, "no three arrays of cells");
	const std::vector<double> con = values(c, *array(c, *cells, "connectivity"));
	CK((int)con.size() == E * N, "%d entries of connectivity, expected %d", (int)con.size(), E * N);
	std::map<std::pair<int, int>, int> mid;
	std::set<int> used;
	for (int e = 0; e < E; ++e)
	{
		int k[6];
		for (int i = 0; i < N; ++i)
		{
			k[i] = (int)con[e * N + i];
			CK(con[e * N + i] == k[i] && k[i] >= 0 && k[i] < V, "cell %d refers to point %g", e, con[e * N + i]);
		}
		for (int i = 0; i < 3; ++i) CK(k[i] == p.tris[e][i], "cell %d has the corner %d, expected %d", e, k[i], p.tris[e][i]);
		if (order != 2) continue;
		for (int i = 0; i < 3; ++i)
		{
			// point 3+i is in the middle of the corners i and i+1
			const int a = k[i], b = k[(i + 1) % 3], q = k[3 + i];
			CK(q >= (int)p.pts.size(), "cell %d has the corner %d on an edge", e, q);
			for (int d = 0; d < 2; ++d)
			{
				const double w = ((double)(T)p.pts[a][d] + (double)(T)p.pts[b][d]) / 2;
				CK(std::fabs(xyz[3 * q + d] - w) <= 1e-5 * (std::fabs(p.pts[a][d]) + std::fabs(p.pts[b][d])), "cell %d: point %d is not in the middle of its edge", e, 3 + i);
			}
			const std::pair<int, int> key(std::min(a, b), std::max(a, b));
			if (!mid.count(key)) { mid[key] = q; CK(used.insert(q).second, "point %d is on two edges", q); }
			CK(mid[key] == q, "the points on edge %d-%d differ", key.first, key.second);
		}
	}
	Want off{"offsets", {}, 1, true}, typ{"types", {}, 1, true};
	for (int e = 0; e < E; ++e) { off.v.push_back((e + 1) * N); typ.v.push_back(order == 2 ? 22 : 5); }
	same(c, *array(c, *cells, "offsets"), off);
	same(c, *array(c, *cells, "types"), typ);
	section(c, piece, "PointData", pd);
	section(c, piece, "CellData", cd);
}

//---------------------------------------------------------------------------------------------
static const char* NAMES[] = {"u", "Results", "ExactError", "a b", "x<y", "\"q\" & 'r'", "p>q", "Z"};
static const double VAL[] = {0, 1, -2.5, 0.1, 1e10, -3e-9, 12345.678, 7, -0.333333333, 99999.95, 1e-30, 42};
template<class F> static F field(int n, int seed)
{
	F f((Dimension)n);
	for (int i = 0; i < n; ++i) f.set(i, (typename F::value_type)VAL[(i * 5 + seed * 3 + i * i) % 12]);
	return f;
}
// Number and names of fields of points and cells
struct Fields { std::vector<int> p, q; };
static std::vector<Fields> selections()
{
	return {{{}, {}}, {{0}, {}}, {{}, {1}}, {{1, 2}, {0}}, {{3}, {3, 7}}, {{4, 5}, {6}}, {{0, 1, 2, 3, 7}, {0, 2}}, {{6}, {4, 5}}};
}
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
static std::string dir() { const char* t = getenv("MC_TMP"); return std::string(t ? t : "/tmp") + "/c28." + std::to_string(getpid()) + ".vtu"; }

template<class T, class VT> static void one(mc::Ctx& c, const Plan& p, int stage, int opt, const Fields& f, int seed)
{
	typedef DynamicVector<VT> F;
	// Prepared for an order, or with edges only, or not at all
	Mesh<T, 2> m;
	build(p, m);
	if (stage >= 1) m.setupNeighbors();
	if (stage >= 2) m.setupBoundaries();
	if (stage == 3) PolyShapeFunction<T, 2, 1>::prepareMesh(m);
	if (stage == 4) PolyShapeFunction<T, 2, 2>::prepareMesh(m);
	m.prepare();
	const int order = stage == 4 ? 2 : 1;
	const int V = (int)m.vertices().size(), E = (int)m.elements().size();
	std::vector<F> keep;
	keep.reserve(16);
	std::map<std::string, F*> pd, cd;
	std::vector<Want> wp, wc;
	for (int part = 0; part < 2; ++part)
		for (int k : part ? f.q : f.p)
		{
			keep.push_back(field<F>(part ? E : V, seed + k));
			(part ? cd : pd)[NAMES[k]] = &keep.back();
			Want w{NAMES[k], {}, 1, false};
			for (auto x : keep.back()) w.v.push_back((double)x);
			(part ? wc : wp).push_back(w);
		}
	const std::vector<char> b = border(p);
	if (opt & VOO_VertexBoundaryLabel)
	{
		Want w{"BoundaryLabel", {}, 1, true};
		for (int i = 0; i < V; ++i) w.v.push_back(m.vertex(i)->Flags & MVF_StrongBoundary ? 1 : 0);
		if (stage >= 2) for (size_t i = 0; i < p.pts.size(); ++i) CK(w.v[i] == (double)b[i], "vertex %d is marked wrongly", (int)i);
		wp.push_back(w);
	}
	if (opt & VOO_VertexImplicitLabel)
	{
		Want w{"ImplicitLabel", {}, 1, true};
		for (int i = 0; i < V; ++i) w.v.push_back(i >= (int)p.pts.size());
		wp.push_back(w);
	}
	Want det{"ElementDeterminant", {}, 1, false}, mat{"ElementMatrix", {}, 4, false}, gra{"ElementGradient", {}, 2, false};
	for (auto& t : p.tris)
	{
		double q[3][2];
		for (int i = 0; i < 3; ++i) for (int d = 0; d < 2; ++d) q[i][d] = (double)(T)p.pts[t[i]][d];
		const double a = q[1][0] - q[0][0], e = q[2][0] - q[0][0], g = q[1][1] - q[0][1], h = q[2][1] - q[0][1], D = a * h - e * g;
		det.v.push_back(D);
		mat.v.insert(mat.v.end(), {a, e, g, h});
		gra.v.insert(gra.v.end(), {(q[1][1] - q[2][1]) / D, (q[2][0] - q[1][0]) / D});
	}
	if (opt & VOO_ElementDeterminant) wc.push_back(det);
	if (opt & VOO_ElementMatrix) wc.push_back(mat);
	if (opt & VOO_ElementGradient) wc.push_back(gra);

	const std::string file = dir();
	VTKExporter<T, 2>::template write<F>(file, m, pd, cd, opt | (order == 2 ? VOO_IsQuadratic : 0));
	const std::string s = slurp(file);
	NOTE("%s\nexported with the options 0x%x:\n%s\n", p.text().c_str(), opt, s.c_str());
	check(c, s, m, p, order, wp, wc);
	// Again, over the first
	VTKExporter<T, 2>::template write<F>(file, m, pd, cd, opt | (order == 2 ? VOO_IsQuadratic : 0));
	CK(slurp(file) == s, "the second export of the same mesh differs");
	c.nontrivial();
}
static std::vector<Plan> plans()
{
	std::vector<Plan> r = family();
	Plan p;
	p.pts = {{{-1234.5, 0.001}}, {{98765.4, 3e-5}}, {{12.3456, 777.125}}, {{-0.1, -1e6}}};
	p.tris = {{{0, 1, 2}}, {{1, 0, 3}}};
	r.push_back(p);
	r.push_back(Plan());	// empty
	return r;
}
template<class T, class VT> static void sweep(mc::Ctx& c)
{
	const std::vector<Plan> fam = plans();
	const std::vector<Fields> sel = selections();
	for (size_t k = 0; k < fam.size(); ++k)
		for (int turn = 0; turn < 6; ++turn)
			for (int stage = 0; stage < 5; ++stage)
				for (int opt = 0; opt < 32; ++opt)
					for (size_t f = 0; f < sel.size(); ++f)
					{
						if (!c.thorough && (turn * 3 + stage + opt + f + k) % 6) continue;
						if (!c.begin({(int64_t)k, turn, stage, opt, (int64_t)f})) continue;
						Plan p = fam[k];
						for (size_t t = 0; t < p.tris.size(); ++t) p.tris[t] = turned(p.tris[t], (int)(turn + t * (turn % 3)) % 6);
						one<T, VT>(c, p, stage, opt, sel[f], (int)(k + turn));
					}
	unlink(dir().c_str());
}
MC_REGISTER(double_double, sweep<double, double>);
MC_REGISTER(double_float, sweep<double, float>);
MC_REGISTER(float_float, sweep<float, float>);
MC_REGISTER(double_int, [](mc::Ctx& c)
{
	// Integer values below a million are exact
	const std::vector<Plan> fam = plans();
	for (size_t k = 0; k < fam.size(); ++k)
		for (int stage = 0; stage < 5; ++stage)
			for (int f = 0; f < 8; ++f)
				if (c.begin({(int64_t)k, stage, f}))
				{
					Mesh<double, 2> m;
					build(fam[k], m);
					m.setupNeighbors();
					if (stage == 4) { m.setupBoundaries(); PolyShapeFunction<double, 2, 2>::prepareMesh(m); }
					DynamicVector<int> a((Dimension)m.vertices().size()), b((Dimension)m.elements().size());
					Want wa{"number", {}, 1, true}, wb{"part", {}, 1, true};
					for (size_t i = 0; i < a.size(); ++i) { a.set(i, (int)(i * 7919 * (f + 1) % 999983) - (f % 2) * 500000); wa.v.push_back(a.at(i)); }
					for (size_t i = 0; i < b.size(); ++i) { b.set(i, (int)i - f); wb.v.push_back(b.at(i)); }
					std::map<std::string, DynamicVector<int>*> pd, cd;
					pd["number"] = &a;
					cd["part"] = &b;
					VTKExporter<double, 2>::write<DynamicVector<int> >(dir(), m, pd, cd, stage == 4 ? VOO_IsQuadratic : 0);
					const std::string s = slurp(dir());
					NOTE("%s\n%s\n", fam[k].text().c_str(), s.c_str());
					check(c, s, m, fam[k], stage == 4 ? 2 : 1, {wa}, {wb});
					c.nontrivial();
				}
	unlink(dir().c_str());
});

MC_SECTION(large)
{
	const std::vector<Fields> sel = selections();
	int k = 0;
	eachLarge(c, c.thorough ? 300 : 130, c.thorough ? 6 : 2, [&](Plan& p)
	{
		for (int stage = 0; stage < 5; ++stage, ++k) one<double, double>(c, p, stage, (k * 11 + stage) % 32, sel[(k + stage * 3) % sel.size()], k % 97);
	});
	unlink(dir().c_str());
}
// Beyond 8 and 16 bits
MC_SECTION(big)
{
	const std::vector<Fields> sel = selections();
	int k = 0;
	eachBig(c, c.thorough ? 1 << 30 : 70000, 1, [&](Plan& p)
	{
		for (int stage = 3; stage < 5; ++stage, ++k) one<double, double>(c, p, stage, 31, sel[(k + stage * 3) % sel.size()], k % 97);
	});
	unlink(dir().c_str());
}

}
using namespace vf;

int main(int argc, char** argv)
{
	return mc::main_(argc, argv, mc::Meta{"C28", "exploration",
		"A case is a mesh (14, in 6 orientations), a stage of its preparation (as built, with edges, with boundary marks, numbered for order one or two), a set of options and a selection of fields; the exported file is parsed and compared in full. Every case is non-trivial.",
		{"numbers are written with six significant digits", "the quadratic option is given exactly for meshes numbered for order two", "fields have one value for each point or cell and different names"}});
}
