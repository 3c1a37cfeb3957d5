// C01: a sparse matrix is a map from positions to values after every history of writes.
//
// Explicit-state search over histories of set / linear_set / iterator-free erasure (writing zero)
// on the real SparseMatrix next to a plain array.  Shapes are explored until no new state appears,
// larger shapes up to a bounded number of writes.
// BUILD: -D_GLIBCXX_ASSERTIONS
#include "common.h"
#include "wide.h"

namespace vf {	// names the library may use as well
using namespace NS;

template<class T, int R, int C, int NV>
struct Sys
{
	struct State { SparseMatrix<T> m; Ref<T> r; };
	int variants() { return 2; }
	void init(int v, State& s)
	{
		s.m = v == 0 ? SparseMatrix<T>(R, C) : SparseMatrix<T>(R, C, 3);
		s.r = Ref<T>(R, C);
	}
	// op: position * (NV+1) + value;  odd values by linear index; then: an own entry, by reference, to a position
	enum { WRITE = R * C * (NV + 1), OWN = R * C <= 9 ? R * C * R * C : 0 };
	int ops(const State&) { return WRITE + OWN; }
	bool apply(mc::Ctx& c, State& s, int op)
	{
		if (op >= WRITE)
		{
			const int k = (op - WRITE) / (R * C), to = (op - WRITE) % (R * C);
			if (s.r.a[k] == T(0)) return false;
			NOTE("set(%d, %d, own entry %d,%d)\n", to / C, to % C, k / C, k % C);
			auto it = s.m.row_begin(k / C);
			while (it != s.m.row_end(k / C) && (int)it.column() != k % C) ++it;
			CK(it != s.m.row_end(k / C), "entry (%d,%d) is not found", k / C, k % C);
			T& own = *it;
			const T v = s.r.a[k];
			if (op % 2) s.m.linear_set(to, own); else s.m.set(to / C, to % C, own);
			s.r.a[to] = v;
			return true;
		}
		const int p = op / (NV + 1), k = op % (NV + 1), i = p / C, j = p % C;
		const T v = V<T>::v(k);
		if ((p + k) % 2)
		{
			NOTE("linear_set(%d, %s)\n", p, str(v).c_str());
			s.m.linear_set(p, v);
		}
		else
		{
			NOTE("set(%d, %d, %s)\n", i, j, str(v).c_str());
			s.m.set(i, j, v);
		}
		s.r(i, j) = v;
		return true;
	}
	void verify(mc::Ctx& c, State& s)
	{
		const SparseMatrix<T>& m = s.m;
		const Ref<T>& r = s.r;
		CK(m.rows() == R && m.columns() == C && m.size() == R * C, "shape is %dx%d", (int)m.rows(), (int)m.columns());
		int n = 0, rn[R] = {}, cn[C] = {};
		for (int i = 0; i < R; ++i)
			for (int j = 0; j < C; ++j)
			{
				const T e = r(i, j);
				const bool has = e != T(0);
				if (has) { ++n; ++rn[i]; ++cn[j]; }
				T got = V<T>::v(5);
				CK(alike(m.at(i, j), e), "at(%d,%d) is %s, last written %s; contents should be %s", i, j, str(m.at(i, j)).c_str(), str(e).c_str(), r.text().c_str());
				if (!alike(m.linear_at(i * C + j), e)) c.fail("linear_at(%d) is %s, last written %s", i * C + j, str(m.linear_at(i * C + j)).c_str(), str(e).c_str());
				if (m.has(i, j) != has) c.fail("has(%d,%d) is %d for %s", i, j, (int)m.has(i, j), r.text().c_str());
				if (m.has(i, j, got) != has || !alike(got, e)) c.fail("has(%d,%d,value) gives %s for %s", i, j, str(got).c_str(), r.text().c_str());
			}
		CK((int)m.filled_count() == n, "filled_count is %d for %s", (int)m.filled_count(), r.text().c_str());
		for (int i = 0; i < R; ++i) if ((int)m.row_filled_count(i) != rn[i]) c.fail("row_filled_count(%d) is %d for %s", i, (int)m.row_filled_count(i), r.text().c_str());
		for (int j = 0; j < C; ++j) if ((int)m.column_filled_count(j) != cn[j]) c.fail("column_filled_count(%d) is %d for %s", j, (int)m.column_filled_count(j), r.text().c_str());
		CK(m.empty() == (n == 0), "empty is %d for %s", (int)m.empty(), r.text().c_str());
		CK(m.has_zero() == (n != R * C), "has_zero is %d for %s", (int)m.has_zero(), r.text().c_str());
	}
	void key(const State& s, std::string& k)
	{
		for (auto& x : s.r.a) { T v = x; k.append((const char*)&v, sizeof v); }
	}
};

template<class T, int R, int C, int NV, int DEPTH, int FULL, int TDEPTH>
void run(mc::Ctx& c)
{
	Sys<T, R, C, NV> s;
	mc::explore(c, s, c.thorough ? TDEPTH : DEPTH, FULL);
}
MC_REGISTER(double_3x3, run<double, 3, 3, 2, 10, 2, 12>);
MC_REGISTER(double_2x2, run<double, 2, 2, 3, 8, 4, 12>);
MC_REGISTER(double_1x4, run<double, 1, 4, 3, 8, 3, 12>);
MC_REGISTER(double_4x1, run<double, 4, 1, 3, 8, 3, 12>);
MC_REGISTER(double_5x2, run<double, 5, 2, 1, 12, 2, 12>);
MC_REGISTER(double_2x5, run<double, 2, 5, 1, 12, 2, 12>);
MC_REGISTER(double_4x3, run<double, 4, 3, 1, 14, 2, 14>);
MC_REGISTER(int_2x3, run<int, 2, 3, 2, 8, 3, 12>);
MC_REGISTER(float_3x2, run<float, 3, 2, 2, 8, 3, 12>);
MC_REGISTER(complex_2x3, run<cplx, 2, 3, 2, 8, 3, 12>);
MC_REGISTER(double_5x3, run<double, 5, 3, 1, 16, 2, 16>);
MC_REGISTER(complex_3x5, run<cplx, 3, 5, 1, 16, 2, 16>);
MC_REGISTER(double_4x4, run<double, 4, 4, 1, 17, 1, 17>);
MC_REGISTER(double_8x7, run<double, 8, 7, 1, 3, 1, 4>);
MC_REGISTER(double_9x2, run<double, 9, 2, 1, 6, 1, 19>);
MC_REGISTER(complex_7x4, run<cplx, 7, 4, 1, 4, 1, 5>);
MC_REGISTER(double_3x4_3, run<double, 3, 4, 2, 5, 1, 13>);
// Values of other magnitudes, and special ones
MC_REGISTER(tiny_2x2, withUnit<run<double, 2, 2, 3, 8, 2, 12>, UNIT_TINY>);
MC_REGISTER(odd_2x2, withUnit<run<double, 2, 2, 3, 8, 2, 12>, UNIT_ODD>);
MC_REGISTER(huge_float_2x2, withUnit<run<float, 2, 2, 2, 8, 2, 12>, UNIT_HUGE>);
MC_REGISTER(tiny_complex_3x2, withUnit<run<cplx, 3, 2, 2, 8, 1, 12>, UNIT_TINY>);
MC_REGISTER(special_2x2, withUnit<run<double, 2, 2, 6, 8, 1, 12>, UNIT_SPECIAL>);
MC_REGISTER(special_float_1x3, withUnit<run<float, 1, 3, 11, 8, 1, 12>, UNIT_SPECIAL>);
MC_REGISTER(special_complex_3x1, withUnit<run<cplx, 3, 1, 11, 8, 1, 12>, UNIT_SPECIAL>);
MC_REGISTER(nan_2x2, withUnit<run<double, 2, 2, 3, 8, 2, 12>, UNIT_NAN>);
MC_REGISTER(nan_float_1x4, withUnit<run<float, 1, 4, 2, 8, 2, 12>, UNIT_NAN>);
MC_REGISTER(nan_complex_3x2, withUnit<run<cplx, 3, 2, 2, 8, 1, 12>, UNIT_NAN>);
MC_REGISTER(int64_2x2, withUnit<run<int64_t, 2, 2, 3, 8, 2, 12>, UNIT_HUGE>);
MC_REGISTER(uint8_2x3, run<uint8_t, 2, 3, 2, 8, 2, 12>);
MC_REGISTER(int16_3x2, run<int16_t, 3, 2, 2, 8, 2, 12>);

// Larger shapes: from every structured pattern every single write
template<class T, int R, int C>
void scale(mc::Ctx& c)
{
	typedef Sys<T, R, C, 2> S;
	S sys;
	for (int k = 0; k < PATTERNS; ++k)
	{
		typename S::State base;
		base.r = patterned<T>(k, R, C);
		base.m = makeS(base.r);
		for (int op = 0; op < R * C * 3; ++op)
		{
			if (R * C > 100 && !c.thorough && op % 3 == 2) continue;
			if (!c.begin({0, k, op})) continue;
			NOTE("pattern %d of %dx%d, then ", k, R, C);
			typename S::State s = base;
			sys.apply(c, s, op);
			sys.verify(c, s);
			c.state(); c.transition(); c.trace();
		}
	}
	// filled in steps of every width coprime to the size, and emptied in steps of another one
	for (int k = 1; k < R * C; ++k)
	{
		int a = k, b = R * C;
		while (b) { int t = a % b; a = b; b = t; }
		if (a != 1) continue;
		for (int l = 0; l < 3; ++l)
		{
			if (!c.begin({1, k, l})) continue;
			NOTE("%dx%d filled in steps of %d, emptied by rule %d", R, C, k, l);
			typename S::State s;
			sys.init(l % 2, s);
			int p = 0;
			for (int i = 0; i < R * C; ++i, p = (p + k) % (R * C)) { sys.apply(c, s, p * 3 + 1 + i % 2); if (i % 4 == 1 || c.thorough) sys.verify(c, s); }
			const int step = l == 0 ? 1 : l == 1 ? R * C - 1 : k;
			p = l == 2 ? R * C / 2 : 0;
			for (int i = 0; i < R * C; ++i, p = (p + step) % (R * C)) { sys.apply(c, s, p * 3); if (i % 4 == 1 || c.thorough) sys.verify(c, s); }
			sys.verify(c, s);
			// and used again
			sys.apply(c, s, k * 3 + 1);
			sys.apply(c, s, (R * C - 1) * 3 + 1);
			sys.apply(c, s, 1);
			sys.verify(c, s);
			c.state(); c.transition(2 * R * C); c.trace();
		}
	}
}
MC_REGISTER(scale_double_1x40, scale<double, 1, 40>);
MC_REGISTER(scale_double_40x1, scale<double, 40, 1>);
MC_REGISTER(scale_double_12x12, scale<double, 12, 12>);
MC_REGISTER(scale_double_3x24, scale<double, 3, 24>);
MC_REGISTER(scale_double_24x3, scale<double, 24, 3>);
MC_REGISTER(scale_complex_2x33, scale<cplx, 2, 33>);
MC_REGISTER(scale_float_33x2, scale<float, 33, 2>);
MC_REGISTER(scale_int_6x11, scale<int, 6, 11>);
MC_REGISTER(scale_double_2x70, scale<double, 2, 70>);
MC_REGISTER_DEEP(scale_double_20x20, scale<double, 20, 20>);
MC_REGISTER_DEEP(scale_double_2x140, scale<double, 2, 140>);
MC_REGISTER_DEEP(scale_double_140x2, scale<double, 140, 2>);

// All shapes: filled in some orders, written to and emptied
template<class T, int N> void shapes(mc::Ctx& c)
{
	for (int R = 1; R <= N; ++R) for (int C = 1; C <= N; ++C) for (int k = 0; k < 5; ++k)
	{
		const int n = R * C, step = k == 0 ? 1 : k == 1 ? n - 1 : k == 2 ? C : k == 3 ? 7 : n / 2 + 1;
		if (!c.begin({R, C, k})) continue;
		NOTE("%dx%d filled in steps of %d", R, C, step);
		SparseMatrix<T> m((Dimension)R, (Dimension)C);
		Ref<T> r(R, C);
		std::vector<int> order;
		std::vector<bool> seen(n, false);
		for (int i = 0, p = 0; i < n; ++i) { while (seen[p]) p = (p + 1) % n; seen[p] = true; order.push_back(p); p = (int)(((int64_t)p + step) % n); }
		for (int round = 0; round < 3; ++round)
		{
			for (int i = 0; i < n; ++i)
			{
				const int p = order[round == 1 ? n - 1 - i : i];
				const T v = round == 0 ? V<T>::v(1 + p % 11) : round == 1 ? V<T>::v((p + k) % 3) : T(0);
				if ((i + round) % 2) m.linear_set(p, v); else m.set(p / C, p % C, v);
				r.a[p] = v;
				if (i == n / 2) sameSparse(c, m, r, "matrix, half way");
				c.transition();
			}
			sameSparse(c, m, r, "matrix");
			for (int i = 0; i < R; ++i) { int q = 0; for (int j = 0; j < C; ++j) q += r(i, j) != T(0); CK((int)m.row_filled_count(i) == q, "row_filled_count(%d) is %d, expected %d", i, (int)m.row_filled_count(i), q); }
			for (int j = 0; j < C; ++j) { int q = 0; for (int i = 0; i < R; ++i) q += r(i, j) != T(0); CK((int)m.column_filled_count(j) == q, "column_filled_count(%d) is %d, expected %d", j, (int)m.column_filled_count(j), q); }
			for (int p = 0; p < n; ++p) CK(m.linear_at(p) == r.a[p], "linear_at(%d)", p);
			c.state();
		}
		c.trace();
	}
}
MC_REGISTER(shapes_double, shapes<double, 18>);
MC_REGISTER(shapes_complex, shapes<cplx, 10>);
// Every literal: initializer lists with rows of every length
MC_SECTION(literals)
{
	for (int a = 0; a < 27; ++a)
		for (int b = 0; b < 27; ++b)
			for (int la = 0; la <= 3; ++la)
				for (int lb = 0; lb <= 3; ++lb)
				{
					if (la == 0 && lb == 0) continue;
					if (!c.begin({a, b, la, lb})) continue;
					int da[3], db[3];
					mc::digits(a, 3, 3, da);
					mc::digits(b, 3, 3, db);
					double x[6];
					for (int i = 0; i < 3; ++i) { x[i] = V<double>::v(da[i]); x[3 + i] = V<double>::v(db[i]); }
					Ref<double> r(2, std::max(la, lb));
					for (int i = 0; i < la; ++i) r(0, i) = x[i];
					for (int i = 0; i < lb; ++i) r(1, i) = x[3 + i];
					NOTE("literal %s, rows of length %d and %d", r.text().c_str(), la, lb);
					typedef std::initializer_list<double> L;
					auto make = [&]() -> SparseMatrix<double>
					{
						#define ROWB(A) (lb == 0 ? SparseMatrix<double>({A, {}}) : lb == 1 ? SparseMatrix<double>({A, {x[3]}}) : lb == 2 ? SparseMatrix<double>({A, {x[3], x[4]}}) : SparseMatrix<double>({A, {x[3], x[4], x[5]}}))
						#define A0 L{}
						#define A1 L{x[0]}
						#define A2 L{x[0], x[1]}
						#define A3 L{x[0], x[1], x[2]}
						switch (la) { case 0: return ROWB(A0); case 1: return ROWB(A1); case 2: return ROWB(A2); default: return ROWB(A3); }
					};
					SparseMatrix<double> m = make();
					sameSparse(c, m, r, "matrix from a literal");
					c.state();
					c.transition();
					c.trace();
				}
}
// Indices and counts beyond 8 and 16 bits
template<class T, bool ALL, int FROM, int TO> void wideOnes(mc::Ctx& c)
{
	for (int s = FROM; s < TO; ++s) for (int k = 0; k < WIDE_PATTERNS; ++k) for (int o = 0; o < 3; ++o)
	{
		const int R = WIDE[s][0], C = WIDE[s][1];
		if (!ALL && !c.thorough && R + C > 1000) continue;
		if (o && R > 1000 && !c.thorough) continue;
		if (!c.begin({s, k, o})) continue;
		Wide<T> w = wide<T>(k, R, C, o, o == 0);
		if (o && (double)w.a.size() * (w.a.size() + R) > 2e8) continue;
		NOTE("pattern %d of %dx%d, written in order %d", k, R, C, o);
		SparseMatrix<T> m = wideS(w, o * 2 + (o > 1));	// ascending, every second, ...
		if (o == 1) m = wideS(w, 1);
		sameWide(c, m, w, "matrix");
		for (int i : edgesOf(R)) { int n = 0; for (auto e = w.a.lower_bound({i, 0}); e != w.a.end() && e->first.first == i; ++e) ++n; CK((int)m.row_filled_count(i) == n, "row_filled_count(%d) is %d, expected %d", i, (int)m.row_filled_count(i), n); }
		std::map<int, int> cn;
		for (auto& e : w.a) ++cn[e.first.second];
		for (int j : edgesOf(C)) CK((int)m.column_filled_count(j) == cn[j], "column_filled_count(%d) is %d, expected %d", j, (int)m.column_filled_count(j), cn[j]);
		c.state(); c.trace();
		// write, overwrite and remove at the edges, some by linear index
		int n = 0;
		for (int i : edgesOf(R)) for (int j : edgesOf(C))
		{
			if (R > 100 && C > 100 && (i * 3 + j) % 5) continue;
			const T v = V<T>::v(n % 4);
			if (n++ % 3 == 0) m.linear_set((size_t)i * C + j, v); else m.set(i, j, v);
			w.set(i, j, v);
			CK(m.at(i, j) == v && m.filled_count() == w.a.size(), "after writing %s at (%d,%d): %s, %d entries, expected %d", str(v).c_str(), i, j, str(m.at(i, j)).c_str(), (int)m.filled_count(), (int)w.a.size());
			c.transition();
		}
		sameWide(c, m, w, "matrix after writes");
		SparseMatrix<T> z(m);
		CK(z == m, "a copy differs");
		sameWide(c, z, w, "copy");
	}
}
MC_REGISTER(wide_double, wideOnes<double, true, 0, 6>);
MC_REGISTER(tall_double, wideOnes<double, true, 6, 7>);
MC_REGISTER(large_double, wideOnes<double, true, 7, 9>);
MC_REGISTER(square_double, wideOnes<double, true, 9, WIDES>);
MC_REGISTER(wide_complex, wideOnes<cplx, false, 0, WIDES>);

}
using namespace vf;

int main(int argc, char** argv)
{
	mc::Meta m;
	m.property = "C01";
	m.level = "model_checking";
	m.rule = "a state is the contents of the matrix, a transition one write by position or linear index; every state is checked through every read function; every new state is reached again by its history on a fresh matrix";
	m.assumptions = {"every history: matrices up to 8x7; single writes to 16 structured patterns and stepwise filling and emptying: up to 12x12, 2x70 and 40x1 (thorough 20x20, 2x140, 140x2)", "values of a small table", "deeper histories continue from one history per contents; up to the depth stated in the harness every history is followed"};
	return mc::main_(argc, argv, m);
}
