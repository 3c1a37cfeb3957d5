// C02: iteration over sparse matrices and edits through iterators.
//
// Explicit-state search.  The model is a plain array; the expected walk is derived from it.
// Transitions: writes by position (they generate every pattern) and every edit through a standard,
// row or column iterator at every entry, and filtering loops that erase while walking.
// BUILD: -D_GLIBCXX_ASSERTIONS
#include "common.h"
#include "wide.h"

namespace vf {	// names the library may use as well
using namespace NS;

template<class T, int R, int C, int NV>
struct Sys
{
	struct State { SparseMatrix<T> m; Ref<T> r; };
	int variants() { return 1; }
	void init(int, State& s) { s.m = SparseMatrix<T>(R, C); s.r = Ref<T>(R, C); }

	typedef std::vector<int> Pos;	// linear positions of entries in order
	static Pos walk(const Ref<T>& r) { Pos p; for (int i = 0; i < R * C; ++i) if (r.a[i] != T(0)) p.push_back(i); return p; }
	static Pos rowWalk(const Ref<T>& r, int i) { Pos p; for (int j = 0; j < C; ++j) if (r(i, j) != T(0)) p.push_back(i * C + j); return p; }
	static Pos colWalk(const Ref<T>& r, int j) { Pos p; for (int i = 0; i < R; ++i) if (r(i, j) != T(0)) p.push_back(i * C + j); return p; }

	enum { WRITE = R * C * (NV + 1), PER = 2 + NV, STD = R * C * PER, ROW = R * C * PER, COL = R * C * PER, FILTER = 8 };
	int ops(const State&) { return WRITE + STD + ROW + COL + FILTER; }

	// The iterator returned by an edit stands at the expected place and goes on from there
	template<class It>
	static void continues(mc::Ctx& c, State& s, It it, const Pos& expect, const char* what)
	{
		size_t k = 0;
		const SparseMatrix<T>& cm = s.m;
		for (;; ++it, ++k)
		{
			const bool end = it == s.m.end();
			CK(end == (k == expect.size()), "%s: the returned iterator yields %d entries or more, expected %d; contents %s", what, (int)k, (int)expect.size(), s.r.text().c_str());
			CK(it.isValid() == !end, "%s: isValid is %d", what, (int)it.isValid());
			if (end) break;
			const int p = (int)(it.row() * C + it.column());
			CK((int)it.row() < R && (int)it.column() < C && p == expect[k], "%s: the iterator stands at (%d,%d), expected position %d; contents %s", what, (int)it.row(), (int)it.column(), expect[k], s.r.text().c_str());
			const It ci = it;
			CK(alike(T(*ci), s.r.a[p]) && alike(T(*it), s.r.a[p]), "%s: value at (%d,%d) is %s; contents %s", what, (int)it.row(), (int)it.column(), str(T(*ci)).c_str(), s.r.text().c_str());
		}
	}
	template<class It>
	bool edit(mc::Ctx& c, State& s, It it, const It& end, const Pos& path, int k, int act, const char* what)
	{
		for (int i = 0; i < k; ++i)
		{
			CK(it != end, "%s ends early", what);
			++it;
		}
		CK(it != end, "%s ends early", what);
		const int p = path[k];
		Pos all = walk(s.r);
		size_t at = std::find(all.begin(), all.end(), p) - all.begin();
		if (act == 0)
		{
			NOTE("erase entry %d of the %s\n", k, what);
			auto n = s.m.erase(it);
			s.r.a[p] = T(0);
			continues(c, s, n, Pos(all.begin() + at + 1, all.end()), "after erase");
		}
		else if (act == 1)
		{
			NOTE("set entry %d of the %s to zero\n", k, what);
			auto n = s.m.set(it, T(0));
			s.r.a[p] = T(0);
			continues(c, s, n, Pos(all.begin() + at + 1, all.end()), "after writing zero");
		}
		else
		{
			const T v = V<T>::v(act - 1);
			if (act % 2)
			{
				NOTE("*it = %s at entry %d of the %s\n", str(v).c_str(), k, what);
				*it = v;
				s.r.a[p] = v;
				CK((int)(it.row() * C + it.column()) == p, "the iterator moved on a write");
			}
			else
			{
				NOTE("set entry %d of the %s to %s\n", k, what, str(v).c_str());
				auto n = s.m.set(it, v);
				s.r.a[p] = v;
				continues(c, s, n, Pos(all.begin() + at, all.end()), "after overwriting");
			}
		}
		return true;
	}
	bool apply(mc::Ctx& c, State& s, int op)
	{
		if (op < WRITE)
		{
			const int p = op / (NV + 1);
			const T v = V<T>::v(op % (NV + 1));
			NOTE("set(%d, %d, %s)\n", p / C, p % C, str(v).c_str());
			s.m.set(p / C, p % C, v);
			s.r.a[p] = v;
			return true;
		}
		op -= WRITE;
		if (op < STD)
		{
			Pos w = walk(s.r);
			const int k = op / PER;
			if (k >= (int)w.size()) return false;
			return edit(c, s, s.m.begin(), s.m.end(), w, k, op % PER, "matrix walk");
		}
		op -= STD;
		if (op < ROW)
		{
			const int i = op / PER / C, k = op / PER % C;
			Pos w = rowWalk(s.r, i);
			if (k >= (int)w.size()) return false;
			NOTE("row %d: ", i);
			return edit(c, s, s.m.row_begin(i), s.m.row_end(i), w, k, op % PER, "row walk");
		}
		op -= ROW;
		if (op < COL)
		{
			const int j = op / PER / R, k = op / PER % R;
			Pos w = colWalk(s.r, j);
			if (k >= (int)w.size()) return false;
			NOTE("column %d: ", j);
			return edit(c, s, s.m.column_begin(j), s.m.column_end(j), w, k, op % PER, "column walk");
		}
		op -= COL;
		// erase while walking
		NOTE("filtering loop %d\n", op);
		auto pick = [&](int n, int i, int j, const T& v) -> bool
		{
			switch (op)
			{
			case 0: return true;
			case 1: return n % 2 == 0;
			case 2: return n % 2 == 1;
			case 3: return i % 2 == 0;
			case 4: return i % 2 == 1;
			case 5: return j == 0;
			case 6: return j == C - 1;
			default: return v == V<T>::v(1);
			}
		};
		Pos w = walk(s.r);
		int n = 0;
		for (auto it = s.m.begin(); it != s.m.end(); ++n)
		{
			if (n > R * C) c.fail("the loop does not end");
			const T v = *it;
			if (pick(n, (int)it.row(), (int)it.column(), v)) it = op % 2 ? s.m.set(it, T(0)) : s.m.erase(it);
			else ++it;
		}
		CK(n == (int)w.size(), "a loop that erases while walking saw %d of %d entries", n, (int)w.size());
		n = 0;
		for (int p : w) { if (pick(n, p / C, p % C, s.r.a[p])) s.r.a[p] = T(0); ++n; }
		return true;
	}

	template<class It, class M>
	static void walks(mc::Ctx& c, M& m, const Ref<T>& r, It it, const It& end, const Pos& w, const char* what)
	{
		const It from = it;
		CK((it == end) == w.empty(), "%s: begin equals end is %d; contents %s", what, (int)(it == end), r.text().c_str());
		for (size_t k = 0; k < w.size(); ++k)
		{
			CK(it != end && it.isValid(), "%s ends after %d of %d entries; contents %s", what, (int)k, (int)w.size(), r.text().c_str());
			CK((int)it.row() == w[k] / C && (int)it.column() == w[k] % C, "%s: entry %d is at (%d,%d), expected (%d,%d); contents %s", what, (int)k, (int)it.row(), (int)it.column(), w[k] / C, w[k] % C, r.text().c_str());
			CK(alike(T(*it), r.a[w[k]]), "%s: entry %d is %s; contents %s", what, (int)k, str(T(*it)).c_str(), r.text().c_str());
			if (k % 2) ++it;
			else
			{
				It old = it++;
				CK((int)old.row() == w[k] / C && (int)old.column() == w[k] % C, "%s: post-increment returns another position", what);
			}
		}
		CK(it == end && !(it != end) && !it.isValid(), "%s yields more than %d entries; contents %s", what, (int)w.size(), r.text().c_str());
		It past = it;
		++past;
		CK(past == end && it == past && !past.isValid(), "%s: the end can be passed; contents %s", what, r.text().c_str());
		const size_t few = std::min<size_t>(w.size(), 8);	// pairs of positions
		for (size_t k = 0; k < few; ++k)
		{
			It a = from;
			for (size_t l = 0; l < k; ++l) ++a;
			CK(a != end && !(a == end), "%s: entry %d equals the end; contents %s", what, (int)k, r.text().c_str());
			It b = from;
			for (size_t l = 0; l < few; ++l, ++b)
				CK((a == b) == (k == l) && (a != b) == (k != l), "%s: iterators at entries %d and %d compare wrongly; contents %s", what, (int)k, (int)l, r.text().c_str());
		}
	}
	void verify(mc::Ctx& c, State& s)
	{
		const SparseMatrix<T>& m = s.m;
		typedef typename SparseMatrix<T>::iterator I;
		typedef typename SparseMatrix<T>::row_iterator RI;
		typedef typename SparseMatrix<T>::column_iterator CI;
		Pos w = walk(s.r);
		walks<I>(c, s.m, s.r, s.m.begin(), s.m.end(), w, "walk");
		walks<I>(c, m, s.r, m.begin(), m.end(), w, "read-only walk");
		walks<I>(c, m, s.r, s.m.cbegin(), s.m.cend(), w, "cbegin walk");
		// edits at the end do nothing
		{
			const size_t before = s.m.filled_count();
			auto e = s.m.erase(s.m.end());
			CK(e == s.m.end() && !e.isValid() && s.m.filled_count() == before, "erasing at the end; contents %s", s.r.text().c_str());
			e = s.m.set(s.m.end(), V<T>::v(1));
			CK(e == s.m.end() && !e.isValid() && s.m.filled_count() == before, "setting at the end; contents %s", s.r.text().c_str());
		}
		int n = 0;
		for (auto v : m) { CK(n < (int)w.size() && alike(T(v), s.r.a[w[n]]), "range loop: entry %d is %s; contents %s", n, str(T(v)).c_str(), s.r.text().c_str()); ++n; }
		CK(n == (int)w.size(), "range loop yields %d entries", n);
		for (int i = 0; i < R; ++i)
		{
			w = rowWalk(s.r, i);
			walks<RI>(c, s.m, s.r, s.m.row_begin(i), s.m.row_end(i), w, "row walk");
			walks<RI>(c, m, s.r, m.row_begin(i), m.row_end(i), w, "read-only row walk");
			walks<RI>(c, m, s.r, m.row_cbegin(i), m.row_cend(i), w, "row_cbegin walk");
		}
		for (int j = 0; j < C; ++j)
		{
			w = colWalk(s.r, j);
			walks<CI>(c, s.m, s.r, s.m.column_begin(j), s.m.column_end(j), w, "column walk");
			walks<CI>(c, m, s.r, m.column_begin(j), m.column_end(j), w, "read-only column walk");
			walks<CI>(c, m, s.r, m.column_cbegin(j), m.column_cend(j), w, "column_cbegin walk");
		}
		// and random access still agrees
		for (int p = 0; p < R * C; ++p)
			CK(alike(m.linear_at(p), s.r.a[p]), "at(%d,%d) is %s; contents %s", p / C, p % C, str(m.linear_at(p)).c_str(), s.r.text().c_str());
		CK((int)m.filled_count() == s.r.filled(), "filled_count is %d; contents %s", (int)m.filled_count(), s.r.text().c_str());
	}
	void key(const State& s, std::string& k) { for (auto& x : s.r.a) { k += str((T)x); k += "|"; } }
};

template<class T, int R, int C, int NV, int DEPTH, int FULL, int TDEPTH>
void run(mc::Ctx& c)
{
	Sys<T, R, C, NV> s;
	mc::explore(c, s, c.thorough ? TDEPTH : DEPTH, FULL);
}
MC_REGISTER(double_2x2, run<double, 2, 2, 2, 12, 3, 12>);
MC_REGISTER(double_3x3, run<double, 3, 3, 1, 12, 2, 12>);
MC_REGISTER(double_3x3_2, run<double, 3, 3, 2, 4, 1, 12>);
MC_REGISTER(double_1x5, run<double, 1, 5, 2, 12, 2, 12>);
MC_REGISTER(double_5x1, run<double, 5, 1, 2, 12, 2, 12>);
MC_REGISTER(double_6x2, run<double, 6, 2, 1, 14, 1, 14>);
MC_REGISTER(double_2x6, run<double, 2, 6, 1, 14, 1, 14>);
MC_REGISTER(double_4x3, run<double, 4, 3, 1, 14, 1, 14>);
MC_REGISTER(complex_3x4, run<cplx, 3, 4, 1, 14, 1, 14>);
MC_REGISTER(int_3x2, run<int, 3, 2, 2, 12, 2, 12>);
MC_REGISTER(float_2x3, run<float, 2, 3, 2, 12, 2, 12>);
MC_REGISTER(long_double_3x2, run<long double, 3, 2, 1, 12, 2, 12>);
MC_REGISTER(complex_float_2x2, run<cplxf, 2, 2, 2, 12, 2, 12>);
MC_REGISTER(int64_1x4, run<int64_t, 1, 4, 2, 12, 2, 12>);
MC_REGISTER(double_5x3, run<double, 5, 3, 1, 5, 1, 17>);
MC_REGISTER(double_8x7, run<double, 8, 7, 1, 3, 1, 3>);
MC_REGISTER(double_12x3, run<double, 12, 3, 1, 3, 1, 4>);
// Values of other magnitudes, and special ones
MC_REGISTER(tiny_2x3, withUnit<run<double, 2, 3, 2, 12, 1, 12>, UNIT_TINY>);
MC_REGISTER(odd_3x2, withUnit<run<double, 3, 2, 2, 12, 1, 12>, UNIT_ODD>);
MC_REGISTER(special_2x2, withUnit<run<double, 2, 2, 6, 12, 1, 12>, UNIT_SPECIAL>);
MC_REGISTER(nan_2x2, withUnit<run<double, 2, 2, 3, 12, 1, 12>, UNIT_NAN>);
MC_REGISTER(nan_complex_1x3, withUnit<run<cplx, 1, 3, 3, 12, 1, 12>, UNIT_NAN>);
MC_REGISTER(special_complex_2x2, withUnit<run<cplx, 2, 2, 6, 12, 1, 12>, UNIT_SPECIAL>);

// Larger shapes: in every structured pattern every edit through an iterator
template<class T, int R, int C>
void scale(mc::Ctx& c)
{
	typedef Sys<T, R, C, 1> S;
	S sys;
	for (int k = 0; k < PATTERNS; ++k)
	{
		typename S::State base;
		base.r = patterned<T>(k, R, C);
		base.m = makeS(base.r);
		const int n = sys.ops(base);
		for (int op = 0; op < n; ++op)
		{
			if (op >= S::WRITE && op < n - S::FILTER && (op - S::WRITE) % 3 == 1 && !c.thorough) continue;
			if (!c.begin({k, op})) continue;
			NOTE("pattern %d of %dx%d, then ", k, R, C);
			typename S::State s = base;
			if (!sys.apply(c, s, op)) continue;
			sys.verify(c, s);
			c.state(); c.transition(); c.trace();
		}
	}
}
MC_REGISTER(scale_double_1x40, scale<double, 1, 40>);
MC_REGISTER(scale_double_40x1, scale<double, 40, 1>);
MC_REGISTER(scale_double_10x10, scale<double, 10, 10>);
MC_REGISTER(scale_double_3x20, scale<double, 3, 20>);
MC_REGISTER(scale_complex_20x3, scale<cplx, 20, 3>);
MC_REGISTER_DEEP(scale_double_16x16, scale<double, 16, 16>);
MC_REGISTER_DEEP(scale_double_2x70, scale<double, 2, 70>);
MC_REGISTER_DEEP(scale_double_70x2, scale<double, 70, 2>);
// All shapes: every walk, and a loop that erases
template<class T, int N> void shapes(mc::Ctx& c)
{
	for (int R = 1; R <= N; ++R) for (int C = 1; C <= N; ++C) for (int k = 1; k < PATTERNS; ++k)
	{
		if (k > 1 && !c.thorough && (R + 2 * C + k) % 5) continue;
		if (!c.begin({R, C, k})) continue;
		NOTE("pattern %d of %dx%d", k, R, C);
		Ref<T> r = patterned<T>(k, R, C);
		SparseMatrix<T> m = makeS(r);
		for (int round = 0; round < 3; ++round)
		{
			sameSparse(c, m, r, "matrix");
			const SparseMatrix<T>& cm = m;
			for (int i = 0; i < R; ++i)
			{
				auto it = cm.row_begin(i);
				for (int j = 0; j < C; ++j) if (r(i, j) != T(0)) { CK(it != cm.row_end(i) && (int)it.row() == i && (int)it.column() == j && *it == r(i, j), "row %d: the walk stands at (%d,%d), expected column %d", i, (int)it.row(), (int)it.column(), j); ++it; }
				CK(it == cm.row_end(i), "row %d: the walk does not end", i);
			}
			for (int j = 0; j < C; ++j)
			{
				auto it = cm.column_begin(j);
				for (int i = 0; i < R; ++i) if (r(i, j) != T(0)) { CK(it != cm.column_end(j) && (int)it.row() == i && (int)it.column() == j && *it == r(i, j), "column %d: the walk stands at (%d,%d), expected row %d", j, (int)it.row(), (int)it.column(), i); ++it; }
				CK(it == cm.column_end(j), "column %d: the walk does not end", j);
			}
			int n = 0;
			if (round == 0) for (auto it = m.begin(); it != m.end(); ++n)
			{
				const int i = (int)it.row(), j = (int)it.column();
				if (n % 3 == k % 3) { r(i, j) = T(0); it = m.erase(it); } else { *it = T(4); r(i, j) = T(4); ++it; }
				c.transition();
			}
			else if (round == 1) for (int i = 0; i < R; ++i) for (typename SparseMatrix<T>::iterator it = m.row_begin(i); it != m.row_end(i);)
			{
				CK((int)it.row() == i, "row %d: the walk stands in row %d", i, (int)it.row());
				r(i, (int)it.column()) = T(0);
				it = m.erase(it);
				c.transition();
				if (it == m.end() || (int)it.row() != i || ++n % 4 == 3) break;
			}
			c.state();
		}
		c.trace();
	}
}
MC_REGISTER(shapes_double, shapes<double, 18>);
MC_REGISTER(shapes_int, shapes<int, 9>);
// Indices and counts beyond 8 and 16 bits
template<class T, bool ALL, int FROM, int TO> void wideOnes(mc::Ctx& c)
{
	typedef typename SparseMatrix<T>::iterator I;
	for (int s = FROM; s < TO; ++s) for (int k = 0; k < WIDE_PATTERNS; ++k)
	{
		const int R = WIDE[s][0], C = WIDE[s][1];
		if (!ALL && !c.thorough && R + C > 1000) continue;
		if (!c.begin({s, k})) continue;
		const Wide<T> w = wide<T>(k, R, C, k, true);
		NOTE("pattern %d of %dx%d", k, R, C);
		SparseMatrix<T> m = wideS(w);
		sameWide(c, m, w, "matrix");
		// rows and columns
		std::map<int, std::vector<int> > col;
		for (auto& e : w.a) col[e.first.second].push_back(e.first.first);
		for (int i : edgesOf(R))
		{
			auto it = m.row_begin(i);
			for (auto e = w.a.lower_bound({i, 0}); e != w.a.end() && e->first.first == i; ++e, ++it)
				CK(it != m.row_end(i) && (int)it.row() == i && (int)it.column() == e->first.second && *it == e->second, "row %d: the walk stands at column %d, expected %d", i, (int)it.column(), e->first.second);
			CK(it == m.row_end(i) && !it.isValid(), "row %d: the walk does not end", i);
		}
		for (int j : edgesOf(C))
		{
			auto it = m.column_begin(j);
			for (int i : col[j]) { CK(it != m.column_end(j) && (int)it.row() == i && (int)it.column() == j && *it == w.at(i, j), "column %d: the walk stands at row %d, expected %d", j, (int)it.row(), i); ++it; }
			CK(it == m.column_end(j) && !it.isValid(), "column %d: the walk does not end", j);
		}
		c.state(); c.trace();
		// edits at the edges through each kind of iterator, then filtering loops
		if ((double)w.a.size() * R > 4e9) continue;
		Wide<T> x = w;
		for (int i : edgesOf(R))
		{
			int n = 0;
			for (I it = m.row_begin(i); it != m.row_end(i) && (int)it.row() == i && n < 400; ++n)
			{
				const int j = (int)it.column();
				auto next = x.a.upper_bound({i, j});
				if (n % 3 == 1 || n == 255 || n == 256)
				{
					it = m.erase(it);
					x.a.erase({i, j});
					CK((next == x.a.end() && it == m.end()) || (next != x.a.end() && (int)it.row() == next->first.first && (int)it.column() == next->first.second), "after an erasure in row %d at column %d the iterator stands at (%d,%d)", i, j, (int)it.row(), (int)it.column());
					if (next == x.a.end() || next->first.first != i) break;
				}
				else { *it = T(5); x.a[{i, j}] = T(5); ++it; }
				c.transition();
			}
		}
		sameWide(c, m, x, "matrix after edits of rows");
		int n = 0;
		if (x.a.size() < 8000) for (I it = m.begin(); it != m.end(); ++n)
		{
			const int i = (int)it.row(), j = (int)it.column();
			if ((i + j) % 2) { it = m.erase(it); x.a.erase({i, j}); } else ++it;
			c.transition();
		}
		sameWide(c, m, x, "matrix after a loop that erases");
	}
}
MC_REGISTER(wide_double, wideOnes<double, true, 0, 6>);
MC_REGISTER(tall_double, wideOnes<double, true, 6, 7>);
MC_REGISTER(large_double, wideOnes<double, true, 7, 9>);
MC_REGISTER(square_double, wideOnes<double, true, 9, WIDES>);
MC_REGISTER(wide_float, wideOnes<float, false, 0, WIDES>);

}
using namespace vf;

int main(int argc, char** argv)
{
	mc::Meta m;
	m.property = "C02";
	m.level = "model_checking";
	m.rule = "a state is the contents of the matrix; transitions are writes by position and every edit through a standard, row or column iterator at every entry, and loops that erase while walking; in every state every walk (matrix, each row, each column; modifiable and read-only) is compared entry by entry";
	m.assumptions = {"every history: matrices up to 12x3 and 8x7; single edits of 16 structured patterns: up to 10x10, 1x40, 40x1 (thorough 16x16, 2x70, 70x2)", "values of a small table"};
	return mc::main_(argc, argv, m);
}
