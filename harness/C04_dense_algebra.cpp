// C04: dense and fixed-size matrices are arrays: access, iterators, element-wise algebra
#include "algebra.h"
#include "wide.h"

namespace vf {	// names the library may use as well
using namespace NS;

typedef DenseMatrix<double> D;
typedef DenseMatrix<cplx> DC;
MC_REGISTER(chain_dense_2x2, chains<D, 2, 2, 3, 2, 4>);
MC_REGISTER(chain_dense_1x3, chains<D, 1, 3, 3, 3, 4>);
MC_REGISTER(chain_dense_3x2, chains<D, 3, 2, 2, 2, 3>);
MC_REGISTER(chain_dense_complex_2x3, chains<DC, 2, 3, 2, 2, 3>);
MC_REGISTER(chain_dense_int_2x2, chains<DenseMatrix<int>, 2, 2, 2, 3, 4>);
MC_REGISTER(chain_fixed_2x2, chains<FixedMatrix<double, 2, 2>, 2, 2, 3, 2, 4>);
MC_REGISTER(chain_fixed_2x3, chains<FixedMatrix<double, 2, 3>, 2, 3, 2, 2, 3>);
MC_REGISTER(chain_fixed_3x1, chains<FixedMatrix<double, 3, 1>, 3, 1, 3, 3, 4>);
MC_REGISTER(chain_fixed_complex_2x2, chains<FixedMatrix<cplx, 2, 2>, 2, 2, 2, 3, 4>);
MC_REGISTER(pairs_dense_2x2, pairs<D, 2, 2, 4, 0>);
MC_REGISTER(pairs_dense_complex_2x2, pairs<DC, 2, 2, 4, 0>);
MC_REGISTER(pairs_dense_3x3, pairs<D, 3, 3, 2, 1>);
MC_REGISTER(pairs_dense_1x5, pairs<D, 1, 5, 3, 0>);
MC_REGISTER(pairs_dense_5x1, pairs<DenseMatrix<float>, 5, 1, 3, 0>);
MC_REGISTER(pairs_dense_int_2x4, pairs<DenseMatrix<int>, 2, 4, 2, 1>);
MC_REGISTER(pairs_fixed_2x2, pairs<FixedMatrix<double, 2, 2>, 2, 2, 4, 0>);
MC_REGISTER(pairs_fixed_3x3, pairs<FixedMatrix<double, 3, 3>, 3, 3, 2, 1>);
MC_REGISTER(pairs_fixed_complex_2x3, pairs<FixedMatrix<cplx, 2, 3>, 2, 3, 3, 1>);
MC_REGISTER(pairs_fixed_float_4x2, pairs<FixedMatrix<float, 4, 2>, 4, 2, 2, 1>);
MC_REGISTER(scale_dense_1x40, scalePairs<D, 1, 40>);
MC_REGISTER(scale_dense_40x1, scalePairs<D, 40, 1>);
MC_REGISTER(scale_dense_complex_12x12, scalePairs<DC, 12, 12>);
MC_REGISTER(scale_dense_float_7x30, scalePairs<DenseMatrix<float>, 7, 30>);
MC_REGISTER(scale_dense_int_30x7, scalePairs<DenseMatrix<int>, 30, 7>);
MC_REGISTER(scale_fixed_9x9, scalePairs<FixedMatrix<double, 9, 9>, 9, 9>);
MC_REGISTER(scale_fixed_complex_5x12, scalePairs<FixedMatrix<cplx, 5, 12>, 5, 12>);
MC_REGISTER(scale_fixed_17x2, scalePairs<FixedMatrix<double, 17, 2>, 17, 2>);
// Values of other magnitudes
MC_REGISTER(extreme_double_2x2, extremes<D, 2, 2>);
MC_REGISTER(extreme_float_1x3, extremes<DenseMatrix<float>, 1, 3>);
MC_REGISTER(extreme_int_2x2, extremes<DenseMatrix<int>, 2, 2>);
MC_REGISTER(extreme_complex_2x1, extremes<DC, 2, 1>);
MC_REGISTER(extreme_fixed_2x2, extremes<FixedMatrix<double, 2, 2>, 2, 2>);
MC_REGISTER(extreme_fixed_int_1x3, extremes<FixedMatrix<int, 1, 3>, 1, 3>);
MC_REGISTER(extreme_fixed_complex_1x2, extremes<FixedMatrix<cplxf, 1, 2>, 1, 2>);
// Other value types
MC_REGISTER(extreme_long_double_2x1, extremes<DenseMatrix<long double>, 2, 1>);
MC_REGISTER(extreme_int64_1x2, extremes<DenseMatrix<int64_t>, 1, 2>);
MC_REGISTER(extreme_int16_2x2, extremes<DenseMatrix<int16_t>, 2, 2>);
MC_REGISTER(extreme_uint8_1x3, extremes<DenseMatrix<uint8_t>, 1, 3>);
MC_REGISTER(extreme_fixed_int64_2x1, extremes<FixedMatrix<int64_t, 2, 1>, 2, 1>);
MC_REGISTER(extreme_fixed_long_double_1x2, extremes<FixedMatrix<long double, 1, 2>, 1, 2>);
MC_REGISTER(pairs_long_double_2x2, withUnit<pairs<DenseMatrix<long double>, 2, 2, 3, 0>, UNIT_ODD>);
MC_REGISTER(pairs_int64_2x2, withUnit<pairs<DenseMatrix<int64_t>, 2, 2, 3, 0>, UNIT_HUGE>);
MC_REGISTER(pairs_fixed_int64_2x2, withUnit<pairs<FixedMatrix<int64_t, 2, 2>, 2, 2, 3, 0>, UNIT_HUGE>);
// All shapes
MC_REGISTER(shapes_double, shapePairs<D, 18>);
MC_REGISTER(shapes_complex, shapePairs<DC, 10>);
template<class T, int R, int C> void fixedPairs(mc::Ctx& c)
{
	typedef FixedMatrix<T, R, C> M;
	for (int k = 0; k < 4; ++k)
	{
		if (!c.begin({R, C, k})) continue;
		const Ref<T> ra = patterned<T>(k % 2 ? 13 : 1, R, C), rb = patterned<T>(k == 1 ? 1 : 7 + k, R, C, k);
		NOTE("A = %s, B = %s", ra.text().c_str(), rb.text().c_str());
		pairCase<M>(c, ra, rb, k == 0);
		c.nontrivial(); c.state(); c.transition(6); c.trace();
	}
}
template<class T, int N> struct FixedShapes { static void run(mc::Ctx& c)
{
	fixedPairs<T, N, N>(c);
	fixedPairs<T, 1, N>(c);
	fixedPairs<T, N, 1>(c);
	fixedPairs<T, N, 4>(c);
	fixedPairs<T, 3, N>(c);
	FixedShapes<T, N - 1>::run(c);
} };
template<class T> struct FixedShapes<T, 1> { static void run(mc::Ctx&) {} };
MC_REGISTER(shapes_fixed, [](mc::Ctx& c) { FixedShapes<double, 17>::run(c); });
MC_REGISTER(tiny_chain_2x2, withUnit<chains<D, 2, 2, 2, 3, 4>, UNIT_TINY>);
MC_REGISTER(odd_chain_fixed_1x3, withUnit<chains<FixedMatrix<double, 1, 3>, 1, 3, 2, 3, 4>, UNIT_ODD>);
MC_REGISTER(tiny_chain_complex_2x1, withUnit<chains<DC, 2, 1, 3, 3, 4>, UNIT_TINY>);
MC_REGISTER(tiny_pairs_2x2, withUnit<pairs<D, 2, 2, 3, 0>, UNIT_TINY>);
MC_REGISTER(odd_pairs_1x4, withUnit<pairs<D, 1, 4, 3, 0>, UNIT_ODD>);
MC_REGISTER(odd_pairs_fixed_2x2, withUnit<pairs<FixedMatrix<double, 2, 2>, 2, 2, 3, 0>, UNIT_ODD>);
MC_REGISTER(huge_pairs_complex_2x2, withUnit<pairs<DC, 2, 2, 3, 0>, UNIT_HUGE>);
MC_REGISTER(tiny_scale_fixed_6x7, withUnit<scalePairs<FixedMatrix<double, 6, 7>, 6, 7>, UNIT_TINY>);
MC_REGISTER(odd_scale_complex_7x6, withUnit<scalePairs<DC, 7, 6>, UNIT_ODD>);

// Histories of single writes through every door, with every way of reading after each
template<class M, int R, int C, int NV>
struct Access
{
	typedef typename M::value_type T;
	struct State { M m; Ref<T> r; };
	int variants() { return 1; }
	void init(int, State& s) { s.r = Ref<T>(R, C); s.m = Kind<M>::make(s.r); }
	int ops(const State&) { return R * C * (NV + 1) * 7 + R * C * 2; }
	bool apply(mc::Ctx& c, State& s, int op)
	{
		if (op >= R * C * (NV + 1) * 7)
		{
			op -= R * C * (NV + 1) * 7;
			const int p = op / 2;
			NOTE("erase by %s iterator at %d\n", op % 2 ? "column" : "standard", p);
			if (op % 2)
			{
				auto it = s.m.column_begin(p % C);
				for (int k = 0; k < p / C; ++k) ++it;
				auto n = s.m.erase(it);
				CK((int)(n.row() * C + n.column()) == p, "erase returns position (%d,%d)", (int)n.row(), (int)n.column());
			}
			else
			{
				auto it = s.m.begin();
				for (int k = 0; k < p; ++k) it++;
				auto n = s.m.erase(it);
				CK((int)(n.row() * C + n.column()) == p, "erase returns position (%d,%d)", (int)n.row(), (int)n.column());
			}
			s.r.a[p] = T(0);
			return true;
		}
		const int door = op % 7, k = op / 7 % (NV + 1), p = op / 7 / (NV + 1), i = p / C, j = p % C;
		const T v = V<T>::v(k);
		s.r.a[p] = v;
		switch (door)
		{
		case 0: NOTE("set(%d,%d,%s)\n", i, j, str(v).c_str()); s.m.set(i, j, v); break;
		case 1: NOTE("linear_set(%d,%s)\n", p, str(v).c_str()); s.m.linear_set(p, v); break;
		case 2: { NOTE("*iterator at %d = %s\n", p, str(v).c_str()); auto it = s.m.begin(); for (int q = 0; q < p; ++q) ++it; *it = v; break; }
		case 3: { NOTE("*row iterator at (%d,%d) = %s\n", i, j, str(v).c_str()); auto it = s.m.row_begin(i); for (int q = 0; q < j; ++q) ++it; *it = v; break; }
		case 4: { NOTE("*column iterator at (%d,%d) = %s\n", i, j, str(v).c_str()); auto it = s.m.column_begin(j); for (int q = 0; q < i; ++q) ++it; *it = v; break; }
		case 5: { NOTE("set(iterator at %d, %s)\n", p, str(v).c_str()); auto it = s.m.begin(); for (int q = 0; q < p; ++q) ++it; auto n = s.m.set(it, v); CK((int)(n.row() * C + n.column()) == p && alike(T(*n), v), "set by iterator returns another position"); break; }
		case 6: { NOTE("set(row iterator at (%d,%d), %s)\n", i, j, str(v).c_str()); auto it = s.m.row_begin(i); for (int q = 0; q < j; ++q) it++; auto n = s.m.set(it, v); CK((int)(n.row() * C + n.column()) == p, "set by row iterator returns another position"); break; }
		}
		return true;
	}
	template<class It>
	static void walk(mc::Ctx& c, const Ref<T>& r, It it, const It& end, int first, int step, int count, const char* what)
	{
		const It from = it;
		for (int k = 0; k < count; ++k)
		{
			const int p = first + k * step;
			CK(it != end && !(it == end) && it.isValid(), "%s ends after %d positions", what, k);
			CK((int)it.row() == p / C && (int)it.column() == p % C, "%s: place %d is (%d,%d)", what, k, (int)it.row(), (int)it.column());
			const It ci = it;
			CK(alike(T(*ci), r.a[p]) && alike(T(*it), r.a[p]), "%s: value at (%d,%d) is %s; contents %s", what, p / C, p % C, str(T(*ci)).c_str(), r.text().c_str());
			if (k % 2) ++it;
			else { It o = it++; CK((int)o.row() == p / C && (int)o.column() == p % C, "%s: post-increment returns another position", what); }
		}
		CK(it == end && !it.isValid(), "%s does not end after %d positions", what, count);
		It past = it;
		++past;
		CK(past == end && it == past && !past.isValid(), "%s: the end can be passed", what);
		const int few = std::min(count, 6);	// pairs of positions
		It a = from;
		for (int k = 0; k < few; ++k, ++a)
		{
			It b = from;
			for (int l = 0; l < few; ++l, ++b)
				CK((a == b) == (k == l) && (a != b) == (k != l), "%s: iterators at places %d and %d compare wrongly", what, k, l);
		}
	}
	void verify(mc::Ctx& c, State& s)
	{
		const M& m = s.m;
		const Ref<T>& r = s.r;
		typedef typename M::iterator I;
		typedef typename M::row_iterator RI;
		typedef typename M::column_iterator CI;
		CK(m.rows() == R && m.columns() == C && m.size() == R * C, "shape %dx%d", (int)m.rows(), (int)m.columns());
		for (int p = 0; p < R * C; ++p)
		{
			T v = V<T>::v(5);
			CK(alike(m.at(p / C, p % C), r.a[p]), "at(%d,%d) is %s; contents should be %s", p / C, p % C, str(m.at(p / C, p % C)).c_str(), r.text().c_str());
			CK(alike(m.linear_at(p), r.a[p]), "linear_at(%d) is %s; contents should be %s", p, str(m.linear_at(p)).c_str(), r.text().c_str());
			CK(m.has(p / C, p % C) == (r.a[p] != T(0)), "has(%d,%d); contents should be %s", p / C, p % C, r.text().c_str());
			CK(m.has(p / C, p % C, v) == (r.a[p] != T(0)) && alike(v, r.a[p]), "has(%d,%d,value); contents should be %s", p / C, p % C, r.text().c_str());
		}
		// edits at the end do nothing
		{
			auto e = s.m.erase(s.m.end());
			CK(e == s.m.end() && !e.isValid(), "erasing at the end yields a place");
			e = s.m.set(s.m.end(), V<T>::v(1));
			CK(e == s.m.end() && !e.isValid(), "setting at the end yields a place");
		}
		walk<I>(c, r, s.m.begin(), s.m.end(), 0, 1, R * C, "walk");
		walk<I>(c, r, m.begin(), m.end(), 0, 1, R * C, "read-only walk");
		walk<I>(c, r, m.cbegin(), m.cend(), 0, 1, R * C, "cbegin walk");
		for (int i = 0; i < R; ++i)
		{
			walk<RI>(c, r, s.m.row_begin(i), s.m.row_end(i), i * C, 1, C, "row walk");
			walk<RI>(c, r, m.row_begin(i), m.row_end(i), i * C, 1, C, "read-only row walk");
			walk<RI>(c, r, m.row_cbegin(i), m.row_cend(i), i * C, 1, C, "row_cbegin walk");
		}
		for (int j = 0; j < C; ++j)
		{
			walk<CI>(c, r, s.m.column_begin(j), s.m.column_end(j), j, C, R, "column walk");
			walk<CI>(c, r, m.column_begin(j), m.column_end(j), j, C, R, "read-only column walk");
			walk<CI>(c, r, m.column_cbegin(j), m.column_cend(j), j, C, R, "column_cbegin walk");
		}
		int n = 0;
		for (auto v : m) { CK(n < R * C && alike(v, r.a[n]), "range loop"); ++n; }
		CK(n == R * C, "range loop yields %d entries", n);
	}
	void key(const State& s, std::string& k) { for (auto& x : s.r.a) { T v = x; k.append((const char*)&v, sizeof v); } }
};
template<class M, int R, int C, int NV, int DEPTH, int FULL, int TDEPTH>
void access(mc::Ctx& c)
{
	Access<M, R, C, NV> s;
	mc::explore(c, s, c.thorough ? TDEPTH : DEPTH, FULL);
}
MC_REGISTER(access_dense_2x3, access<D, 2, 3, 2, 8, 2, 8>);
MC_REGISTER(access_dense_3x2, access<D, 3, 2, 2, 8, 2, 8>);
MC_REGISTER(access_dense_4x3, access<D, 4, 3, 1, 5, 1, 13>);
MC_REGISTER(access_dense_complex_1x4, access<DC, 1, 4, 2, 8, 2, 8>);
MC_REGISTER(access_dense_int_4x1, access<DenseMatrix<int>, 4, 1, 2, 8, 2, 8>);
MC_REGISTER(access_fixed_2x3, access<FixedMatrix<double, 2, 3>, 2, 3, 2, 8, 2, 8>);
MC_REGISTER(access_fixed_3x2, access<FixedMatrix<float, 3, 2>, 3, 2, 2, 8, 2, 8>);
MC_REGISTER(access_fixed_complex_2x5, access<FixedMatrix<cplx, 2, 5>, 2, 5, 1, 4, 1, 11>);
MC_REGISTER(access_special_1x3, withUnit<access<D, 1, 3, 6, 8, 1, 8>, UNIT_SPECIAL>);
MC_REGISTER(access_special_fixed_complex_2x1, withUnit<access<FixedMatrix<cplx, 2, 1>, 2, 1, 11, 8, 1, 8>, UNIT_SPECIAL>);
MC_REGISTER(access_nan_2x2, withUnit<access<D, 2, 2, 2, 8, 1, 8>, UNIT_NAN>);
MC_REGISTER(access_nan_fixed_complex_1x3, withUnit<access<FixedMatrix<cplx, 1, 3>, 1, 3, 2, 8, 1, 8>, UNIT_NAN>);
MC_REGISTER(access_odd_2x2, withUnit<access<D, 2, 2, 2, 8, 1, 8>, UNIT_ODD>);

// Literals with rows of every length, and the copying constructors
MC_SECTION(literals)
{
	for (int a = 0; a < 27; ++a)
		for (int la = 0; la <= 3; ++la)
			for (int lb = 0; lb <= 3; ++lb)
			{
				if (la == 0 && lb == 0) continue;
				if (!c.begin({a, la, lb})) continue;
				int da[3];
				mc::digits(a, 3, 3, da);
				double x[6];
				for (int i = 0; i < 3; ++i) { x[i] = V<double>::v(da[i]); x[3 + i] = V<double>::v(1 + da[2 - i]); }
				Ref<double> r(2, std::max(la, lb)), f(2, 3);
				for (int i = 0; i < la; ++i) r(0, i) = f(0, i) = x[i];
				for (int i = 0; i < lb; ++i) r(1, i) = f(1, i) = x[3 + i];
				NOTE("literal %s, rows of length %d and %d", r.text().c_str(), la, lb);
				typedef std::initializer_list<double> L;
				typedef FixedMatrix<double, 2, 3> F;
				#define ROWB(X, A) (lb == 0 ? X({A, {}}) : lb == 1 ? X({A, {x[3]}}) : lb == 2 ? X({A, {x[3], x[4]}}) : X({A, {x[3], x[4], x[5]}}))
				#define A0 L{}
				#define A1 L{x[0]}
				#define A2 L{x[0], x[1]}
				#define A3 L{x[0], x[1], x[2]}
				#define ALL(X) (la == 0 ? ROWB(X, A0) : la == 1 ? ROWB(X, A1) : la == 2 ? ROWB(X, A2) : ROWB(X, A3))
				D m = ALL(D);
				F g = ALL(F);
				sameDense(c, m, r, "dense matrix from a literal");
				sameDense(c, g, f, "fixed matrix from a literal");
				D m2(m);
				m.set(0, 0, 77);
				sameDense(c, m2, r, "copy after the source was changed");
				D m3(std::move(m2));
				sameDense(c, m3, r, "moved-to matrix");
				m2 = m3;
				sameDense(c, m2, r, "matrix assigned after a move");
				c.state();
				c.transition();
				c.trace();
			}
}
// Indices and counts beyond 8 and 16 bits
template<class M> M wideMake(const Wide<typename M::value_type>& w, M m) { for (auto& e : w.a) m.set(e.first.first, e.first.second, e.second); return m; }
template<class M> void wideCase(mc::Ctx& c, int R, int C, int k, int l, const M& zero)
{
	typedef typename M::value_type T;
	const Wide<T> x = wide<T>(k, R, C), y = wide<T>(l, R, C, k == l ? 0 : 1 + l);
	NOTE("patterns %d and %d of %dx%d", k, l, R, C);
	const M a = wideMake<M>(x, zero), b = wideMake<M>(y, zero);
	sameWideD(c, a, x, "A");
	sameWideD(c, a + b, x.ew(y, 0), "A + B");
	sameWideD(c, a - b, x.ew(y, 1), "A - B");
	sameWideD(c, a * b, x.ew(y, 2), "A * B");
	M z = a; z += b; sameWideD(c, z, x.ew(y, 0), "A += B");
	z = a; z -= b; sameWideD(c, z, x.ew(y, 1), "A -= B");
	z = a; z *= b; sameWideD(c, z, x.ew(y, 2), "A *= B");
	z = a; M q = b; z.swap(q); sameWideD(c, z, y, "swapped"); sameWideD(c, q, x, "swapped");
	CK((a == b) == (x.a == y.a) && (a != b) == (x.a != y.a), "A == B is %d", (int)(a == b));
	c.state(); c.transition(6); c.trace();
	if (l) return;
	sameWideD(c, a.transpose(), x.t(), "transpose");
	sameWideD(c, a.adjugate().conjugate(), x.t(), "conjugate of the adjugate");
	sameWideD(c, a * T(-2), x.times(T(-2)), "A * -2");
	sameWideD(c, -a, x.times(T(-1)), "-A");
	Wide<T> w = x;
	z = a;
	int n = 0;
	for (int i : edgesOf(R)) for (int j : edgesOf(C))
	{
		M d = a;
		if (n < 200) { d.linear_set((size_t)i * C + j, x.at(i, j) + T(1)); CK(d != a && !(a == d), "matrices that differ at (%d,%d) compare equal", i, j); }
		// writes through row and column iterators, the place of which is counted
		const T v = V<T>::v(1 + n++ % 5);
		if ((i + j) % 2)
		{
			auto it = z.row_begin(i);
			for (int s = 0; s < j; ++s) ++it;
			CK((int)it.row() == i && (int)it.column() == j, "row iterator stands at (%d,%d), expected (%d,%d)", (int)it.row(), (int)it.column(), i, j);
			if (j % 3) { auto r = z.set(it, v); CK((int)r.row() == i && (int)r.column() == j, "set returns another position"); w.set(i, j, v); }
			else { auto r = z.erase(it); CK((int)r.row() == i && (int)r.column() == j, "erase returns another position"); w.set(i, j, T(0)); }
		}
		else
		{
			auto it = z.column_begin(j);
			for (int s = 0; s < i; ++s) ++it;
			CK((int)it.row() == i && (int)it.column() == j, "column iterator stands at (%d,%d), expected (%d,%d)", (int)it.row(), (int)it.column(), i, j);
			*it = v;
			w.set(i, j, v);
		}
		c.transition();
	}
	sameWideD(c, z, w, "matrix after writes through iterators");
	for (int i : edgesOf(R)) { int s = 0; for (auto it = a.row_begin(i); it != a.row_end(i); ++it) ++s; CK(s == C, "row %d: %d steps", i, s); }
	for (int j : edgesOf(C)) { int s = 0; for (auto it = a.column_begin(j); it != a.column_end(j); ++it) ++s; CK(s == R, "column %d: %d steps", j, s); }
}
template<class T> void wideOnes(mc::Ctx& c)
{
	for (int s = 0; s + 1 < WIDES; ++s) for (int k = 0; k < WIDE_PATTERNS; ++k) for (int l = 0; l < WIDE_PATTERNS; ++l)
	{
		const int R = WIDE[s][0], C = WIDE[s][1];
		if (R * C > 1000 && !c.thorough && (l ? l != (k + 1) % WIDE_PATTERNS : k % 2)) continue;
		if (!c.begin({s, k, l})) continue;
		wideCase(c, R, C, k, l, DenseMatrix<T>((Dimension)R, (Dimension)C));
	}
}
MC_REGISTER(wide_dense, wideOnes<double>);
MC_REGISTER(wide_dense_complex, wideOnes<cplx>);
template<class T, int R, int C> void wideFixed(mc::Ctx& c)
{
	for (int k = 0; k < WIDE_PATTERNS; ++k) for (int l = 0; l < WIDE_PATTERNS; ++l)
		if (c.begin({k, l})) wideCase(c, R, C, k, l, FixedMatrix<T, R, C>());
}
MC_REGISTER(wide_fixed_1x300, wideFixed<double, 1, 300>);
MC_REGISTER(wide_fixed_300x1, wideFixed<double, 300, 1>);
MC_REGISTER(wide_fixed_260x3, wideFixed<float, 260, 3>);
MC_REGISTER(wide_fixed_257x258, [](mc::Ctx& c) { for (int k = 0; k < WIDE_PATTERNS; k += 5) if (c.begin({k})) wideCase(c, 257, 258, k, k ? 3 : 0, FixedMatrix<float, 257, 258>()); });

}
using namespace vf;

int main(int argc, char** argv)
{
	mc::Meta m;
	m.property = "C04";
	m.level = "model_checking";
	m.rule = "chains: states are pairs of matrices, transitions 30 operations incl. self operations; access: a state is the contents, transitions are writes and erasures through every door (position, linear index, standard, row and column iterator); pairs: every pair of operands with every operator";
	m.assumptions = {"small integer values, so that all results are exact"};
	return mc::main_(argc, argv, m);
}
