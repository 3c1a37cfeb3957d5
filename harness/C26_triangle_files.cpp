// C26: Triangle files load exactly or are rejected
// BUILD: -fsanitize=address,undefined -fno-omit-frame-pointer
#include "mesh.h"
#include "loader/MeshTriangleLoader.h"
#include <new>
#include <sys/stat.h>

// Every allocation made by a load has to be released when its mesh is gone
static long g_live = 0;
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++g_live; return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) --g_live; free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

namespace vf {	// names the library may use as well
using namespace NS;

//---------------------------------------------------------------------------------------------
// What the files describe
enum Verdict { ACCEPT, REJECT, OPEN };	// OPEN: the format does not tell; only memory safety and the release of everything is checked
typedef std::vector<std::string> Row;
static bool space(char ch) { return ch == ' ' || ch == '\t' || ch == '\r' || ch == '\v' || ch == '\f'; }
static std::vector<Row> rows(const std::string& s)
{
	std::vector<Row> r;
	size_t i = 0;
	while (i < s.size())
	{
		size_t e = s.find('\n', i);
		if (e == std::string::npos) e = s.size();
		Row row;
		size_t k = i;
		while (k < e && s[k] != '#')
		{
			if (space(s[k])) { ++k; continue; }
			size_t b = k;
			while (k < e && s[k] != '#' && !space(s[k])) ++k;
			row.push_back(s.substr(b, k - b));
		}
		if (!row.empty()) r.push_back(row);
		i = e + 1;
	}
	return r;
}
static bool allDigits(const std::string& t) { if (t.empty()) return false; for (char ch : t) if (ch < '0' || ch > '9') return false; return true; }
// Signs, hexadecimal numbers, infinities and values beyond the types are left open
static bool vague(const std::string& t)
{
	size_t i = 0;
	if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
	if (i && allDigits(t.substr(i))) return true;
	if (i < t.size() && strchr("iInN", t[i])) return true;
	return t.size() > i + 1 && t[i] == '0' && (t[i + 1] == 'x' || t[i + 1] == 'X');
}
static Verdict whole(const Row& r, size_t k, uint64_t& v)
{
	if (k >= r.size()) return REJECT;
	const std::string& t = r[k];
	if (!allDigits(t)) return vague(t) ? OPEN : REJECT;
	v = 0;
	for (char ch : t) v = v > 1000000000000ull ? v : v * 10 + (ch - '0');
	return ACCEPT;
}
static Verdict real(const Row& r, size_t k, double& v, bool single)
{
	if (k >= r.size()) return REJECT;
	const std::string& t = r[k];
	size_t i = 0, d = 0;
	if (t[0] == '+') return OPEN;
	if (t[0] == '-') ++i;
	while (i < t.size() && isdigit((unsigned char)t[i])) { ++i; ++d; }
	if (i < t.size() && t[i] == '.') { ++i; while (i < t.size() && isdigit((unsigned char)t[i])) { ++i; ++d; } }
	bool ok = d > 0;
	if (ok && i < t.size() && (t[i] == 'e' || t[i] == 'E'))
	{
		++i;
		if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
		size_t x = i;
		while (i < t.size() && isdigit((unsigned char)t[i])) ++i;
		ok = i > x;
	}
	if (!ok || i < t.size()) return vague(t) ? OPEN : REJECT;
	v = single ? (double)strtof(t.c_str(), nullptr) : strtod(t.c_str(), nullptr);
	if (std::isinf(v) || (v != 0 && std::fabs(v) < (single ? 1e-37 : 1e-300))) return OPEN;
	if (v == 0) for (char ch : t) { if (ch == 'e' || ch == 'E') break; if (ch > '0' && ch <= '9') return OPEN; }
	return ACCEPT;
}
// The first row has a positive count and the number two or three, the others are numbered from zero or one
struct Table { Verdict v; uint64_t base; std::vector<Row> rows; };
static Table table(const std::string& s, uint64_t second)
{
	Table t{REJECT, 0, rows(s)};
	if (t.rows.empty()) return t;
	uint64_t n = 0, d = 0;
	bool open = false;
	auto need = [&](Verdict v) { open = open || v == OPEN; return v != REJECT; };
	Verdict a = whole(t.rows[0], 0, n), b = whole(t.rows[0], 1, d);
	if (!need(a) || !need(b)) return t;
	if (b == ACCEPT && d != second) return t;
	if (a == ACCEPT && n != t.rows.size() - 1) return t;
	if (a == ACCEPT && n == 0) open = true;
	t.rows.erase(t.rows.begin());
	for (size_t i = 0; i < t.rows.size(); ++i)
	{
		uint64_t x = 0;
		const Verdict v = whole(t.rows[i], 0, x);
		if (!need(v)) return t;
		if (v != ACCEPT) continue;
		if (i == 0) t.base = x;
		if ((i == 0 && x > 1) || (!open && x != t.base + i)) return t;
	}
	t.v = open ? OPEN : ACCEPT;
	return t;
}
static Verdict describe(const std::string& node, const std::string& ele, bool single, Plan& p)
{
	p.pts.clear();
	p.tris.clear();
	const Table n = table(node, 2), e = table(ele, 3);
	if (n.v == REJECT || e.v == REJECT) return REJECT;
	bool open = n.v == OPEN || e.v == OPEN;
	for (auto& r : n.rows)
	{
		double x = 0, y = 0;
		const Verdict a = real(r, 1, x, single), b = real(r, 2, y, single);
		if (a == REJECT || b == REJECT) return REJECT;
		open = open || a == OPEN || b == OPEN;
		p.pts.push_back({{x, y}});
	}
	const bool mixed = n.base != e.base;
	std::set<Tri3> sets;
	for (auto& r : e.rows)
	{
		Tri3 t;
		for (int i = 0; i < 3; ++i)
		{
			uint64_t x = 0;
			const Verdict v = whole(r, 1 + i, x);
			if (v == REJECT) return REJECT;
			if (v == OPEN) { open = true; x = e.base; }
			if (!open && (x < e.base || x - e.base >= p.pts.size())) { if (!mixed) return REJECT; x = e.base; }
			t[i] = (int)(x - e.base);
		}
		if (t[0] == t[1] || t[1] == t[2] || t[0] == t[2]) open = true;
		Tri3 set = t;
		std::sort(set.begin(), set.end());
		if (!sets.insert(set).second) open = true;
		p.tris.push_back(t);
	}
	if (open || mixed) return OPEN;
	return shared3(p) ? REJECT : ACCEPT;
}

//---------------------------------------------------------------------------------------------
template<class T> static bool tryLoad(mc::Ctx& c, const std::string& node, const std::string& ele, Verdict v, const Plan& p, bool files)
{
	try
	{
		Mesh<T, 2> m = files ? MeshTriangleLoader<T>::loadFile(node, ele) : MeshTriangleLoader<T>::loadString(node, ele);
		if (v == REJECT) c.fail("loaded as a mesh of %d vertices and %d elements instead of being rejected", (int)m.vertices().size(), (int)m.elements().size());
		if (v == ACCEPT)
		{
			sameParts(c, m, p);
			sameEdges(c, m, p);
		}
		++c.s->evals;
		return true;
	}
	catch (const NSException&)
	{
		if (v == ACCEPT) c.fail("rejected a valid pair of files");
		++c.s->evals;
		return false;
	}
}
template<class T> static void load(mc::Ctx& c, const std::string& node, const std::string& ele)
{
	Plan p;
	const Verdict v = describe(node, ele, sizeof(T) == 4, p);
	static const char* N[] = {"a valid mesh", "to be rejected", "open"};
	NOTE(".node file:\n%s\n.ele file:\n%s\nis %s\n", node.c_str(), ele.c_str(), N[v]);
	if (v != OPEN) c.nontrivial();
	long before = g_live;
	tryLoad<T>(c, node, ele, v, p, false);
	if (g_live != before)
	{
		// Not what the runtime keeps after the first time
		before = g_live;
		tryLoad<T>(c, node, ele, v, p, false);
		CK(g_live == before, "%ld allocations were not released", g_live - before);
	}
}

//---------------------------------------------------------------------------------------------
struct Layout
{
	int base = 1, attr = 0, comment = 0, style = 0;
	const char *sep = " ", *lead = "", *eol = "\n";
	bool blank = false, last = true, marker = false;
	std::string num(double x) const
	{
		static const char* F[] = {"%g", "%.17g", "%e", "%.1f"};
		char b[64];
		snprintf(b, sizeof b, F[style], x);
		if (style == 3 && strtod(b, nullptr) != x) snprintf(b, sizeof b, "%g", x);
		return b;
	}
	std::string join(const std::vector<Row>& rows) const
	{
		std::string s;
		if (comment == 1) s += std::string("# made by hand") + eol;
		for (size_t i = 0; i < rows.size(); ++i)
		{
			if (blank && i % 2) s += i % 4 == 1 ? eol : std::string(" \t") + eol;
			if (comment == 1 && i % 3 == 1) s += std::string(lead) + "#1 2 3" + eol;
			s += lead;
			for (size_t k = 0; k < rows[i].size(); ++k) s += (k ? sep : "") + rows[i][k];
			if (comment == 2) s += i % 2 ? " # 7 8" : "#9";
			if (i + 1 < rows.size() || last) s += eol;
		}
		if (comment == 1 && last) s += "# end";
		return s;
	}
	std::string node(const Plan& p) const
	{
		std::vector<Row> r(1, Row{std::to_string(p.pts.size()), "2", std::to_string(attr), marker ? "1" : "0"});
		for (size_t i = 0; i < p.pts.size(); ++i)
		{
			Row x{std::to_string(i + base), num(p.pts[i][0]), num(p.pts[i][1])};
			for (int k = 0; k < attr; ++k) x.push_back(k ? "-2.5" : "17");
			if (marker) x.push_back(i % 2 ? "0" : "1");
			r.push_back(x);
		}
		return join(r);
	}
	std::string ele(const Plan& p) const
	{
		std::vector<Row> r(1, Row{std::to_string(p.tris.size()), "3", std::to_string(attr)});
		for (size_t i = 0; i < p.tris.size(); ++i)
		{
			Row x{std::to_string(i + base)};
			for (int k : p.tris[i]) x.push_back(std::to_string(k + base));
			for (int k = 0; k < attr; ++k) x.push_back(k ? "0.25" : "-3");
			r.push_back(x);
		}
		return join(r);
	}
};
template<class T> static void layouts(mc::Ctx& c)
{
	const std::vector<Plan> fam = family();
	static const char *SEP[] = {" ", "\t", "  \t "}, *LEAD[] = {"", "  ", "\t"}, *EOL[] = {"\n", "\r\n", " \n"};
	for (size_t k = 0; k < fam.size(); ++k)
		for (int x = 0; x < 2 * 3 * 3 * 3 * 3 * 2 * 3 * 2 * 4 * 2; ++x)
		{
			int y = x;
			auto take = [&](int n) { int r = y % n; y /= n; return r; };
			Layout l;
			l.base = take(2); l.sep = SEP[take(3)]; l.lead = LEAD[take(3)]; l.eol = EOL[take(3)]; l.comment = take(3);
			l.blank = take(2); l.attr = take(3); l.last = take(2); l.style = take(4); l.marker = take(2);
			if (!c.thorough && (x / 7 + k) % 6) continue;
			if (!c.begin({(int64_t)k, x})) continue;
			Plan q;
			const std::string n = l.node(fam[k]), e = l.ele(fam[k]);
			// The reference reads what was written
			if (describe(n, e, sizeof(T) == 4, q) != ACCEPT || q.tris != fam[k].tris || q.pts != fam[k].pts) c.fail("error of the check: layout is not read back");
			load<T>(c, n, e);
		}
}
MC_REGISTER(layouts_double, layouts<double>);
MC_REGISTER(layouts_float, layouts<float>);
MC_REGISTER(layouts_long_double, layouts<long double>);

static std::vector<Layout> some(bool all)
{
	std::vector<Layout> r(4);
	r[1].base = 0; r[1].last = false;
	r[2].comment = 2; r[2].sep = "\t"; r[2].eol = "\r\n"; r[2].attr = 1; r[2].marker = true;
	r[3].base = 0; r[3].comment = 1; r[3].blank = true; r[3].lead = " "; r[3].style = 2; r[3].attr = 2;
	if (all)
	{
		r.push_back(r[2]); r[4].base = 0; r[4].last = false;
		r.push_back(r[3]); r[5].base = 1; r[5].last = false; r[5].style = 1;
	}
	return r;
}
// Calls f for every pair of files to be corrupted
template<class F> static void eachPair(mc::Ctx& c, std::initializer_list<int> quick, F f)
{
	const std::vector<Plan> fam = family();
	const std::vector<Layout> lay = some(c.thorough);
	std::vector<int> ks(quick);
	if (c.thorough) { ks.clear(); for (size_t i = 0; i < fam.size(); ++i) ks.push_back((int)i); }
	for (int k : ks)
		for (size_t l = 0; l < lay.size(); ++l)
			f((int64_t)(k * 10 + l), lay[l].node(fam[k]), lay[l].ele(fam[k]));
}

MC_SECTION(truncated)
{
	eachPair(c, {0, 2, 4, 7, 9}, [&](int64_t id, const std::string& n, const std::string& e)
	{
		for (size_t i = 0; i <= n.size(); ++i) if (c.begin({id, 0, (int64_t)i})) { c.fault(); load<double>(c, n.substr(0, i), e); }
		for (size_t i = 0; i <= e.size(); ++i) if (c.begin({id, 1, (int64_t)i})) { c.fault(); load<double>(c, n, e.substr(0, i)); }
		// The beginning is missing
		for (size_t i = 0; i <= n.size(); ++i) if (c.begin({id, 2, (int64_t)i})) { c.fault(); load<double>(c, n.substr(i), e); }
		for (size_t i = 0; i <= e.size(); ++i) if (c.begin({id, 3, (int64_t)i})) { c.fault(); load<double>(c, n, e.substr(i)); }
	});
}
MC_SECTION(truncated_both)
{
	eachPair(c, {0, 2}, [&](int64_t id, const std::string& n, const std::string& e)
	{
		if (n.size() * e.size() > (c.thorough ? 20000u : 4000u)) return;
		for (size_t i = 0; i <= n.size(); ++i)
			for (size_t j = 0; j <= e.size(); ++j)
				if (c.begin({id, (int64_t)i, (int64_t)j})) { c.fault(); load<double>(c, n.substr(0, i), e.substr(0, j)); }
	});
}

static const char* TOK[] = {"", "0", "1", "2", "3", "4", "5", "6", "-1", "-2.5", "99", "4294967295", "4294967296", "4294967297", "18446744073709551615", "18446744073709551616", "99999999999999999999999",
	"1x", "x", "1.5", "1.", ".5", ".", "-", "--1", "1e", "1e2", "1e+", "1,5", "#", "nan", "inf", "1e400", "1e-400", "0x1", "+1", "007", "1 2", "1\n2", "\"1\"", "1#", "3e0", "-0"};
const int NTOK = sizeof TOK / sizeof *TOK;
struct Span { size_t b, n; };
static std::vector<Span> tokens(const std::string& s)
{
	std::vector<Span> r;
	for (size_t i = 0; i < s.size();)
	{
		if (isspace((unsigned char)s[i])) { ++i; continue; }
		size_t b = i;
		while (i < s.size() && !isspace((unsigned char)s[i])) ++i;
		r.push_back(Span{b, i - b});
	}
	return r;
}
static std::string with(std::string s, Span at, const std::string& t) { return s.replace(at.b, at.n, t); }
static void tokenFaults(mc::Ctx& c, int file)
{
	eachPair(c, {0, 2, 3, 4, 7, 8, 9}, [&](int64_t id, const std::string& n, const std::string& e)
	{
		const std::string& s = file ? e : n;
		const std::vector<Span> t = tokens(s);
		for (size_t i = 0; i < t.size(); ++i)
			for (int k = 0; k < NTOK; ++k)
			{
				if (!c.begin({id, (int64_t)i, k})) continue;
				c.fault();
				const std::string x = with(s, t[i], TOK[k]);
				if (k % 5 == 4) load<float>(c, file ? n : x, file ? x : e);
				else load<double>(c, file ? n : x, file ? x : e);
			}
	});
}
MC_REGISTER(tokens_node, [](mc::Ctx& c) { tokenFaults(c, 0); });
MC_REGISTER(tokens_ele, [](mc::Ctx& c) { tokenFaults(c, 1); });
// Two tokens at once, in one file or both
MC_SECTION(token_pairs)
{
	static const int PICK[] = {0, 1, 2, 3, 4, 5, 8, 11, 14, 15, 17, 18, 19, 29, 31, 37, 38};
	eachPair(c, {0}, [&](int64_t id, const std::string& n, const std::string& e)
	{
		if (id >= 30 || id % 10 > 1) return;
		const std::string s = n + "@" + e;
		std::vector<Span> t;
		for (auto x : tokens(n)) t.push_back(x);
		for (auto x : tokens(e)) t.push_back(Span{x.b + n.size() + 1, x.n});
		for (size_t i = 0; i < t.size(); ++i)
			for (size_t j = 0; j < i; ++j)
				for (int a : PICK)
					for (int b : PICK)
					{
						if (!c.thorough && (a + b * 3 + i + j) % 3) continue;
						if (!c.begin({id, (int64_t)i, (int64_t)j, a, b})) continue;
						c.fault();
						std::string x = with(with(s, t[i], TOK[a]), t[j], TOK[b]);
						const size_t at = x.find('@');
						load<double>(c, x.substr(0, at), x.substr(at + 1));
					}
	});
}

static void byteFaults(mc::Ctx& c, int file)
{
	static const unsigned char B[] = {' ', '\n', '#', '-', '.', '0', '1', '2', '9', 'e', 'x', '\t', '\r', 0, 255, '+', ',', 11};
	eachPair(c, {0, 2, 7}, [&](int64_t id, const std::string& n, const std::string& e)
	{
		const std::string& s = file ? e : n;
		const int nb = c.thorough && id < 30 ? 256 : (int)sizeof B;
		for (size_t i = 0; i <= s.size(); ++i)
			for (int kind = 0; kind < 3; ++kind)
				for (int b = 0; b < (kind == 2 ? 1 : nb); ++b)
				{
					if (kind != 1 && i == s.size()) continue;
					if (!c.begin({id, (int64_t)i, kind, b})) continue;
					c.fault();
					const char ch = (char)(nb == 256 ? b : B[b]);
					std::string x = s;
					if (kind == 0) x[i] = ch;
					else if (kind == 1) x.insert(i, 1, ch);
					else x.erase(i, 1);
					load<double>(c, file ? n : x, file ? x : e);
				}
	});
}
MC_REGISTER(bytes_node, [](mc::Ctx& c) { byteFaults(c, 0); });
MC_REGISTER(bytes_ele, [](mc::Ctx& c) { byteFaults(c, 1); });

MC_SECTION(lines)
{
	eachPair(c, {0, 2, 4, 5, 7, 9, 10}, [&](int64_t id, const std::string& n, const std::string& e)
	{
		for (int file = 0; file < 2; ++file)
		{
			const std::string& s = file ? e : n;
			std::vector<std::string> l;
			for (size_t i = 0; i < s.size();) { size_t q = s.find('\n', i); q = q == std::string::npos ? s.size() : q + 1; l.push_back(s.substr(i, q - i)); i = q; }
			const int m = (int)l.size();
			auto run = [&](int64_t kind, int i, int j, const std::vector<std::string>& v)
			{
				if (!c.begin({id, file, kind, i, j})) return;
				c.fault();
				std::string x;
				for (auto& t : v) x += t;
				load<double>(c, file ? n : x, file ? x : e);
			};
			for (int i = 0; i < m; ++i)
			{
				std::vector<std::string> v = l;
				v.erase(v.begin() + i);
				run(0, i, 0, v);
				for (int j = 0; j <= m; ++j) { v = l; v.insert(v.begin() + j, l[i]); run(1, i, j, v); }
				for (int j = 0; j < i; ++j) { v = l; std::swap(v[i], v[j]); run(2, i, j, v); }
				for (int j = 0; j < m; ++j) if (j != i) { v = l; v[i] = l[j]; run(3, i, j, v); }
			}
		}
		static const char* ODD[] = {"", " ", "\n", "#", "\n\n\n", "0", "0 2", "0 3", "1 2", "1 3", "3 2 0 0", "# 3 2\n", "2\n", "\r\n"};
		for (int k = 0; k < 14; ++k)
		{
			if (c.begin({id, 2, k})) load<double>(c, ODD[k], e);
			if (c.begin({id, 3, k})) load<double>(c, n, ODD[k]);
			for (int j = 0; j < 14; ++j) if (c.begin({id, 4, k, j})) load<double>(c, ODD[k], ODD[j]);
		}
		if (c.begin({id, 5})) load<double>(c, e, n);
		if (c.begin({id, 6})) load<double>(c, n, n);
		if (c.begin({id, 7})) load<double>(c, e, e);
	});
}

// Files: what is in them counts, missing ones are rejected
MC_SECTION(files)
{
	const char* t = getenv("MC_TMP");
	const std::string dir = std::string(t ? t : "/tmp") + "/c26." + std::to_string(getpid());
	mkdir(dir.c_str(), 0700);
	auto put = [](const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary); o << s; };
	const std::string a = dir + "/a.node", b = dir + "/a.ele", none = dir + "/none";
	eachPair(c, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, [&](int64_t id, const std::string& n, const std::string& e)
	{
		Plan p;
		put(a, n);
		put(b, e);
		const Verdict v = describe(n, e, false, p);
		auto run = [&](int k, const std::string& x, const std::string& y, Verdict w)
		{
			if (!c.begin({id, k})) return;
			const long before = g_live;
			tryLoad<double>(c, x, y, w, p, true);
			if (g_live == before) return;
			const long again = g_live;
			tryLoad<double>(c, x, y, w, p, true);
			CK(g_live == again, "%ld allocations were not released", g_live - again);
		};
		run(0, a, b, v);
		run(1, none, b, REJECT);
		run(2, a, none, REJECT);
		run(3, none, none, REJECT);
		run(4, "", "", REJECT);
		run(5, none + "/none", b, REJECT);
		put(a, n.substr(0, n.size() / 2));
		run(6, a, b, REJECT);
		put(a, "");
		run(7, a, b, REJECT);
		put(a, n);
		put(b, "");
		run(8, a, b, REJECT);
	});
	unlink(a.c_str());
	unlink(b.c_str());
	rmdir(dir.c_str());
}

// Larger meshes, many attributes, long comments and runs of blanks
MC_SECTION(large)
{
	const int orders = c.thorough ? 6 : 2;
	eachLarge(c, c.thorough ? 200 : 80, orders, [&](Plan& p)
	{
		for (Layout l : some(true))
		{
			load<double>(c, l.node(p), l.ele(p));
			if (p.tris.size() > 30) continue;
			l.attr = 25;
			load<float>(c, l.node(p), l.ele(p));
			const std::string blanks(3000, ' '), note = "#" + std::string(5000, '7') + "\n";
			l.sep = blanks.c_str();
			l.attr = 1;
			load<double>(c, note + l.node(p), note + note + l.ele(p));
			// one vertex or element too few or too many for the header
			Plan q = p, r = p;
			q.pts.pop_back();
			r.tris.pop_back();
			load<double>(c, l.node(q), l.ele(p));
			const std::string n = l.node(p), e = l.ele(p), hn = std::to_string(p.pts.size()), he = std::to_string(p.tris.size());
			for (const char* x : {"1", "0", "2"})
			{
				auto header = [&](const std::string& s, const std::string& h, size_t v) { std::string t = s; const size_t at = t.find(h + l.sep, l.comment == 1 ? t.find("hand") : 0); return at == std::string::npos ? t : t.replace(at, h.size(), std::to_string(v + atoi(x) - 1)); };
				load<double>(c, header(n, hn, p.pts.size()), e);
				load<double>(c, n, header(e, he, p.tris.size()));
			}
		}
	});
}
// Beyond 8 and 16 bits
MC_SECTION(big)
{
	eachBig(c, c.thorough ? 1 << 30 : 70000, 1, [&](Plan& p)
	{
		Layout l;
		for (l.base = 0; l.base < (c.thorough || p.tris.size() < 9000 ? 2 : 1); ++l.base)
		{
			l.style = 1;
			load<double>(c, l.node(p), l.ele(p));
			if (p.tris.size() < 9000) load<float>(c, l.node(p), l.ele(p));
			// the last index is one too large
			Plan q = p;
			q.tris.back()[1] = (int)p.pts.size();
			load<double>(c, l.node(p), l.ele(q));
			if (p.pts.size() >= 65536) { q.tris.back() = p.tris.back(); q.tris.back()[2] += 65536; if (q.tris.back()[2] >= (int)p.pts.size()) load<double>(c, l.node(p), l.ele(q)); }
		}
	});
}

}
using namespace vf;

int main(int argc, char** argv)
{
	return mc::main_(argc, argv, mc::Meta{"C26", "fault_enumeration",
		"A case is one pair of Triangle files: one of 12 meshes in a layout, whole or with one place truncated, replaced, inserted or removed (byte, token or line), or with two tokens replaced. It is non-trivial if the format says whether the pair is valid.",
		{"signs before whole numbers, hexadecimal numbers, infinities, out of range values, files with different bases, elements that repeat a vertex or another element, and files without rows may be accepted or rejected",
		 "AddressSanitizer and a count of allocations detect invalid accesses and leaks"}});
}
