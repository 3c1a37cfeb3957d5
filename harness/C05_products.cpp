// C05: products of matrices and vectors
#include "common.h"
#include "wide.h"

namespace vf {	// names the library may use as well
using namespace NS;

// position dependent values, signs alternate; exact
// Units of the left and of the right operand
double right_ = 1;
struct Right { double u; Right() : u(unit()) { unit() = right_; } ~Right() { unit() = u; } };
template<void (*F)(mc::Ctx&), int A, int B> void withUnits(mc::Ctx& c) { unit() = A < 0 ? 1 : unitOf(A); right_ = B < 0 ? 1 : unitOf(B); F(c); }

template<class T> T pv(int i) { return V<T>::v(1 + (i * 5 + 2) % 9); }

template<class T> DynamicVector<T> dyn(const std::vector<T>& v) { DynamicVector<T> x(v.size()); for (size_t i = 0; i < v.size(); ++i) x.set(i, v[i]); return x; }
template<class T, Dimension N> FixedVector<T, N> fix(const std::vector<T>& v) { FixedVector<T, N> x; for (size_t i = 0; i < N; ++i) x.set(i, v[i]); return x; }
template<class T, class W> void sameVec(mc::Ctx& c, const W& v, const std::vector<T>& r, const char* what)
{
	CK(v.size() == r.size(), "%s: %d elements instead of %d", what, (int)v.size(), (int)r.size());
	for (size_t i = 0; i < r.size(); ++i) CK(v.at(i) == r[i], "%s: element %d is %s, expected %s", what, (int)i, str(v.at(i)).c_str(), str(r[i]).c_str());
}
template<class T> std::vector<T> mulv(const Ref<T>& a, const std::vector<T>& v) { std::vector<T> x(a.r, T(0)); for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.c; ++j) x[i] += a(i, j) * v[j]; return x; }

// every matrix against every matrix, every vector
template<class T, int R, int K, int C, int NA, int NB>
void exhaustive(mc::Ctx& c)
{
	const int na = R * K, nb = K * C;
	const int64_t A = mc::ipow(NA, na), B = mc::ipow(NB, nb);
	int da[32], db[32];
	// NA or NB of 2: all patterns with values given by the position
	for (int64_t x = 0; x < A; ++x)
	{
		mc::digits(x, NA, na, da);
		Ref<T> a(R, K);
		for (int i = 0; i < na; ++i) a.a[i] = NA == 2 ? (da[i] ? pv<T>(i) : T(0)) : V<T>::v(da[i]);
		const SparseMatrix<T> sa = makeS(a);
		const DenseMatrix<T> d = makeD(a);
		const FixedMatrix<T, R, K> f = makeF<FixedMatrix<T, R, K> >(a);
		for (int64_t y = 0; y < B; ++y)
		{
			if (!c.begin({x, y})) continue;
			mc::digits(y, NB, nb, db);
			Ref<T> b(K, C);
			{ Right u; for (int i = 0; i < nb; ++i) b.a[i] = NB == 2 ? (db[i] ? pv<T>(i + 3) : T(0)) : V<T>::v(db[i]); }
			const SparseMatrix<T> sb = makeS(b);
			const DenseMatrix<T> e = makeD(b);
			const FixedMatrix<T, K, C> g = makeF<FixedMatrix<T, K, C> >(b);
			const Ref<T> r = a.mul(b);
			NOTE("%s * %s", a.text().c_str(), b.text().c_str());
			sameSparse(c, sa.mul(sb), r, "sparse product");
			sameDense(c, d.mul(e), r, "dense product");
			sameDense(c, f.mul(g), r, "fixed-size product");
			c.state();
			c.transition(3);
			if (x && y) c.nontrivial();
			if (C == 1)
			{
				// vectors on the right
				std::vector<T> v(b.a.begin(), b.a.end());
				sameVec(c, sa.mul(dyn(v)), r.a, "sparse matrix times vector");
				sameVec(c, sa.mul(fix<T, K>(v)), r.a, "sparse matrix times fixed vector");
				sameVec(c, d.mul(dyn(v)), r.a, "dense matrix times vector");
				sameVec(c, d.mul(fix<T, K>(v)), r.a, "dense matrix times fixed vector");
				sameVec(c, f.mul(fix<T, K>(v)), r.a, "fixed-size matrix times vector");
				sameSparse(c, sa, a, "left operand afterwards");
			}
			if (R == 1)
			{
				// vectors on the left of B
				std::vector<T> v(a.a.begin(), a.a.end());
				sameVec(c, sb.mul_left(dyn(v)), r.a, "vector times sparse matrix");
				sameVec(c, sb.mul_left(fix<T, K>(v)), r.a, "fixed vector times sparse matrix");
				sameVec(c, e.mul_left(dyn(v)), r.a, "vector times dense matrix");
				sameVec(c, e.mul_left(fix<T, K>(v)), r.a, "fixed vector times dense matrix");
				sameVec(c, g.mul_left(fix<T, K>(v)), r.a, "vector times fixed-size matrix");
				sameSparse(c, sb, b, "right operand afterwards");
			}
			if (y == B - 1)
			{
				sameSparse(c, sa, a, "left operand afterwards");
				sameSparse(c, sb, b, "right operand afterwards");
				sameDense(c, d, a, "left operand afterwards");
				sameDense(c, e, b, "right operand afterwards");
			}
		}
	}
}
MC_REGISTER(double_2_2_2, exhaustive<double, 2, 2, 2, 4, 4>);
MC_REGISTER(complex_2_2_2, exhaustive<cplx, 2, 2, 2, 4, 4>);
MC_REGISTER(int_2_2_2, exhaustive<int, 2, 2, 2, 4, 3>);
MC_REGISTER(double_2_3_2, exhaustive<double, 2, 3, 2, 3, 2>);
MC_REGISTER(double_3_2_3, exhaustive<double, 3, 2, 3, 2, 3>);
MC_REGISTER(double_1_4_3, exhaustive<double, 1, 4, 3, 3, 2>);
MC_REGISTER(double_3_4_1, exhaustive<double, 3, 4, 1, 2, 3>);
MC_REGISTER(complex_1_3_2, exhaustive<cplx, 1, 3, 2, 4, 3>);
MC_REGISTER(complex_2_3_1, exhaustive<cplx, 2, 3, 1, 3, 4>);
MC_REGISTER(float_4_1_3, exhaustive<float, 4, 1, 3, 4, 3>);
MC_REGISTER(double_3_3_3, exhaustive<double, 3, 3, 3, 2, 2>);
MC_REGISTER(double_1_3_4, exhaustive<double, 1, 3, 4, 4, 2>);
MC_REGISTER(double_4_3_1, exhaustive<double, 4, 3, 1, 2, 4>);
MC_REGISTER(double_1_1_5, exhaustive<double, 1, 1, 5, 6, 3>);
MC_REGISTER(double_5_2_1, exhaustive<double, 5, 2, 1, 2, 4>);
// Values of other magnitudes
MC_REGISTER(tiny_2_2_2, withUnits<exhaustive<double, 2, 2, 2, 3, 3>, UNIT_TINY, UNIT_TINY>);
MC_REGISTER(odd_left_2_2_2, withUnits<exhaustive<double, 2, 2, 2, 3, 3>, UNIT_ODD, -1>);
MC_REGISTER(odd_right_2_2_2, withUnits<exhaustive<double, 2, 2, 2, 3, 3>, -1, UNIT_ODD>);
MC_REGISTER(tiny_2_3_1, withUnits<exhaustive<double, 2, 3, 1, 3, 3>, UNIT_TINY, UNIT_TINY>);
MC_REGISTER(odd_left_2_3_1, withUnits<exhaustive<double, 2, 3, 1, 3, 3>, UNIT_ODD, -1>);
MC_REGISTER(odd_right_complex_2_3_1, withUnits<exhaustive<cplx, 2, 3, 1, 2, 3>, -1, UNIT_ODD>);
MC_REGISTER(tiny_1_3_2, withUnits<exhaustive<double, 1, 3, 2, 3, 3>, UNIT_TINY, UNIT_TINY>);
MC_REGISTER(odd_left_1_3_2, withUnits<exhaustive<cplx, 1, 3, 2, 3, 2>, UNIT_ODD, -1>);
MC_REGISTER(odd_right_1_3_2, withUnits<exhaustive<double, 1, 3, 2, 3, 3>, -1, UNIT_ODD>);
MC_REGISTER(huge_tiny_2_3_1, withUnits<exhaustive<double, 2, 3, 1, 3, 3>, UNIT_HUGE, UNIT_TINY>);

// Sparse and dense products of larger shapes: every pair of patterns with at most two entries each,
// and full, triangular, banded ones; and the matrix times itself
MC_SECTION(larger)
{
	typedef double T;
	const int shapes[][3] = {{6, 5, 4}, {3, 7, 5}, {8, 2, 8}, {1, 9, 6}, {7, 7, 1}};
	for (int s = 0; s < 5; ++s)
	{
		const int R = shapes[s][0], K = shapes[s][1], C = shapes[s][2];
		auto patterns = [&](int r, int k)
		{
			std::vector<Ref<T> > p;
			Ref<T> z(r, k);
			p.push_back(z);
			for (int i = 0; i < r * k; ++i)
			{
				Ref<T> a = z;
				a.a[i] = pv<T>(i);
				p.push_back(a);
				for (int j = i + 1; j < r * k; j += c.thorough ? 1 : 7) { Ref<T> b = a; b.a[j] = pv<T>(j); p.push_back(b); }
			}
			for (int kind = 0; kind < 6; ++kind)
			{
				Ref<T> a = z;
				for (int i = 0; i < r; ++i)
					for (int j = 0; j < k; ++j)
						if (kind == 0 || (kind == 1 && j <= i) || (kind == 2 && j >= i) || (kind == 3 && std::abs(i - j) <= 1) || (kind == 4 && (i + j) % 2) || (kind == 5 && i % 3 == 1)) a(i, j) = pv<T>(i * k + j);
				p.push_back(a);
			}
			return p;
		};
		auto pa = patterns(R, K), pb = patterns(K, C);
		for (size_t x = 0; x < pa.size(); ++x)
		{
			const SparseMatrix<T> sa = makeS(pa[x]);
			const DenseMatrix<T> da = makeD(pa[x]);
			for (size_t y = 0; y < pb.size(); ++y)
			{
				if (!c.begin({s, (int64_t)x, (int64_t)y})) continue;
				NOTE("%s * %s", pa[x].text().c_str(), pb[y].text().c_str());
				const Ref<T> r = pa[x].mul(pb[y]);
				sameSparse(c, sa.mul(makeS(pb[y])), r, "sparse product");
				sameDense(c, da.mul(makeD(pb[y])), r, "dense product");
				if (x && y) c.nontrivial();
			}
			std::vector<T> v(K), w(R);
			for (int i = 0; i < K; ++i) v[i] = pv<T>(2 * i + 1);
			for (int i = 0; i < R; ++i) w[i] = pv<T>(3 * i);
			sameVec(c, sa.mul(dyn(v)), mulv(pa[x], v), "sparse matrix times vector");
			sameVec(c, da.mul(dyn(v)), mulv(pa[x], v), "dense matrix times vector");
			sameVec(c, sa.mul_left(dyn(w)), mulv(pa[x].t(), w), "vector times sparse matrix");
			sameVec(c, da.mul_left(dyn(w)), mulv(pa[x].t(), w), "vector times dense matrix");
		}
	}
	for (int n = 1; n <= 6; ++n)
	{
		if (!c.begin({100, n})) continue;
		Ref<T> a(n, n);
		for (int i = 0; i < n * n; ++i) a.a[i] = i % 4 == 3 ? 0 : pv<T>(i);
		SparseMatrix<T> s = makeS(a);
		DenseMatrix<T> d = makeD(a);
		sameSparse(c, s.mul(s), a.mul(a), "square of a sparse matrix");
		sameDense(c, d.mul(d), a.mul(a), "square of a dense matrix");
		s = s.mul(s);
		d = d.mul(d);
		sameSparse(c, s, a.mul(a), "A = A.mul(A)");
		sameDense(c, d, a.mul(a), "A = A.mul(A)");
		c.nontrivial();
	}
}

// Every pair of structured patterns of larger shapes
template<class T, int R, int K, int C>
void scale(mc::Ctx& c)
{
	for (int x = 0; x < PATTERNS; ++x)
		for (int y = 0; y < PATTERNS; ++y)
			for (int sh = 0; sh < (c.thorough ? 11 : 2); ++sh)
			{
				if (!c.begin({x, y, sh})) continue;
				const Ref<T> a = patterned<T>(x, R, K), b = patterned<T>(y, K, C, sh), r = a.mul(b);
				NOTE("%s * %s", a.text().c_str(), b.text().c_str());
				const SparseMatrix<T> sa = makeS(a), sb = makeS(b);
				const DenseMatrix<T> da = makeD(a), db = makeD(b);
				sameSparse(c, sa.mul(sb), r, "sparse product");
				sameDense(c, da.mul(db), r, "dense product");
				if (x && y) c.nontrivial();
				if (R == K && K == C)
				{
					sameSparse(c, sa.mul(sb).mul(sa), r.mul(a), "product of three sparse matrices");
					sameDense(c, da.mul(db).mul(da), r.mul(a), "product of three dense matrices");
				}
				if (sh) continue;
				// vectors with the pattern of a row of ones, zeros in between
				std::vector<T> v(K), w(R);
				for (int i = 0; i < K; ++i) v[i] = inPattern(y, K, K, i, K / 2) ? pv<T>(2 * i + 1) : T(0);
				for (int i = 0; i < R; ++i) w[i] = inPattern(y, R, R, i, R / 2) ? pv<T>(3 * i) : T(0);
				sameVec(c, sa.mul(dyn(v)), mulv(a, v), "sparse matrix times vector");
				sameVec(c, da.mul(dyn(v)), mulv(a, v), "dense matrix times vector");
				sameVec(c, sa.mul(fix<T, K>(v)), mulv(a, v), "sparse matrix times fixed vector");
				sameVec(c, sa.mul_left(dyn(w)), mulv(a.t(), w), "vector times sparse matrix");
				sameVec(c, da.mul_left(dyn(w)), mulv(a.t(), w), "vector times dense matrix");
				sameVec(c, da.mul_left(fix<T, R>(w)), mulv(a.t(), w), "fixed vector times dense matrix");
				const FixedMatrix<T, R, K> fa = makeF<FixedMatrix<T, R, K> >(a);
				const FixedMatrix<T, K, C> fb = makeF<FixedMatrix<T, K, C> >(b);
				sameDense(c, fa.mul(fb), r, "fixed-size product");
				sameVec(c, fa.mul(fix<T, K>(v)), mulv(a, v), "fixed-size matrix times vector");
				sameVec(c, fa.mul_left(fix<T, R>(w)), mulv(a.t(), w), "vector times fixed-size matrix");
			}
}
MC_REGISTER(scale_double_12_12_12, scale<double, 12, 12, 12>);
MC_REGISTER(scale_complex_9_9_9, scale<cplx, 9, 9, 9>);
MC_REGISTER(scale_double_1_40_3, scale<double, 1, 40, 3>);
MC_REGISTER(scale_double_3_40_1, scale<double, 3, 40, 1>);
MC_REGISTER(scale_complex_20_2_17, scale<cplx, 20, 2, 17>);
MC_REGISTER(scale_int_7_13_5, scale<int, 7, 13, 5>);
MC_REGISTER(scale_double_40_1_2, scale<double, 40, 1, 2>);
MC_REGISTER_DEEP(scale_double_20_20_20, scale<double, 20, 20, 20>);
// All shapes
template<class T, int N> void shapes(mc::Ctx& c)
{
	static const int P[][2] = {{1, 1}, {1, 13}, {13, 1}, {4, 7}};
	for (int R = 1; R <= N; ++R) for (int K = 1; K <= N; ++K) for (int C = 1; C <= N; ++C) for (int k = 0; k < 4; ++k)
	{
		if (k && !c.thorough && (R + K + C) % 3 != k - 1) continue;
		if (!c.begin({R, K, C, k})) continue;
		const Ref<T> a = patterned<T>(P[k][0], R, K), b = patterned<T>(P[k][1], K, C, k), r = a.mul(b);
		NOTE("%s * %s", a.text().c_str(), b.text().c_str());
		const SparseMatrix<T> sa = makeS(a), sb = makeS(b);
		const DenseMatrix<T> da = makeD(a), db = makeD(b);
		sameSparse(c, sa.mul(sb), r, "sparse product");
		sameDense(c, da.mul(db), r, "dense product");
		c.nontrivial();
		if (C > 1 && R > 1) continue;
		std::vector<T> v(K), w(K);
		for (int i = 0; i < K; ++i) { v[i] = b(i, 0); w[i] = a(0, i); }
		sameVec(c, sa.mul(dyn(v)), mulv(a, v), "sparse matrix times vector");
		sameVec(c, da.mul(dyn(v)), mulv(a, v), "dense matrix times vector");
		sameVec(c, sb.mul_left(dyn(w)), mulv(b.t(), w), "vector times sparse matrix");
		sameVec(c, db.mul_left(dyn(w)), mulv(b.t(), w), "vector times dense matrix");
	}
}
MC_REGISTER(shapes_double, shapes<double, 14>);
MC_REGISTER(shapes_complex, shapes<cplx, 6>);
MC_REGISTER_DEEP(deep_shapes_float, shapes<float, 20>);
template<int R, int K, int C> void fixedShape(mc::Ctx& c)
{
	typedef double T;
	for (int k = 0; k < 3; ++k)
	{
		if (!c.begin({R, K, C, k})) continue;
		const Ref<T> a = patterned<T>(k == 2 ? 13 : 1, R, K), b = patterned<T>(k == 1 ? 7 : 1, K, C, k);
		NOTE("%s * %s", a.text().c_str(), b.text().c_str());
		const FixedMatrix<T, R, K> f = makeF<FixedMatrix<T, R, K> >(a);
		sameDense(c, f.mul(makeF<FixedMatrix<T, K, C> >(b)), a.mul(b), "fixed-size product");
		std::vector<T> v(K), w(R);
		for (int i = 0; i < K; ++i) v[i] = b(i, 0);
		for (int i = 0; i < R; ++i) w[i] = V<T>::v(1 + (i * 7 + k) % 11);
		sameVec(c, f.mul(fix<T, K>(v)), mulv(a, v), "fixed-size matrix times vector");
		sameVec(c, f.mul_left(fix<T, R>(w)), mulv(a.t(), w), "vector times fixed-size matrix");
		sameVec(c, makeS(a).mul(fix<T, K>(v)), mulv(a, v), "sparse matrix times fixed vector");
		sameVec(c, makeD(a).mul(fix<T, K>(v)), mulv(a, v), "dense matrix times fixed vector");
		sameVec(c, makeS(a).mul_left(fix<T, R>(w)), mulv(a.t(), w), "fixed vector times sparse matrix");
		sameVec(c, makeD(a).mul_left(fix<T, R>(w)), mulv(a.t(), w), "fixed vector times dense matrix");
		c.nontrivial();
	}
}
template<int N> struct FixedShapes { static void run(mc::Ctx& c)
{
	fixedShape<N, N, N>(c);
	fixedShape<2, N, 3>(c);
	fixedShape<3, 2, N>(c);
	fixedShape<N, 3, 2>(c);
	FixedShapes<N - 1>::run(c);
} };
template<> struct FixedShapes<0> { static void run(mc::Ctx&) {} };
MC_REGISTER(shapes_fixed, [](mc::Ctx& c) { FixedShapes<17>::run(c); });
MC_REGISTER(large_fixed, [](mc::Ctx& c)
{
	fixedShape<34, 33, 35>(c); fixedShape<70, 70, 70>(c); fixedShape<3, 140, 2>(c); fixedShape<140, 2, 3>(c); fixedShape<2, 3, 140>(c); fixedShape<1, 270, 1>(c); fixedShape<270, 1, 2>(c); fixedShape<1, 2, 270>(c);
});
// Other value types, with values a double cannot hold
MC_REGISTER(int64_2_2_2, exhaustive<int64_t, 2, 2, 2, 3, 3>);
MC_REGISTER(int64_long_2_2_2, withUnits<exhaustive<int64_t, 2, 2, 2, 3, 3>, UNIT_HUGE, UNIT_HUGE>);
MC_REGISTER(int64_long_2_3_1, withUnits<exhaustive<int64_t, 2, 3, 1, 3, 3>, UNIT_HUGE, UNIT_HUGE>);
MC_REGISTER(int64_long_1_3_2, withUnits<exhaustive<int64_t, 1, 3, 2, 3, 3>, UNIT_HUGE, UNIT_HUGE>);
MC_REGISTER(long_double_2_2_2, withUnits<exhaustive<long double, 2, 2, 2, 3, 3>, UNIT_ODD, UNIT_ODD>);
MC_REGISTER(long_double_2_3_1, withUnits<exhaustive<long double, 2, 3, 1, 3, 3>, UNIT_ODD, UNIT_ODD>);
MC_REGISTER(long_double_1_3_2, withUnits<exhaustive<long double, 1, 3, 2, 3, 3>, UNIT_ODD, UNIT_ODD>);
// Indices and counts beyond 8 and 16 bits
template<class T, bool LARGE> void wideOnes(mc::Ctx& c)
{
	static const int S[][3] = {{1, 300, 1}, {300, 1, 270}, {270, 300, 2}, {3, 300, 260}, {257, 258, 259}, {1, 70000, 1}, {2, 70000, 3}, {66000, 2, 1}, {1, 2, 70000}, {70000, 3, 2}};
	for (int s = 0; s < (LARGE ? 10 : 5); ++s) for (int k = 0; k < WIDE_PATTERNS; ++k) for (int l = 0; l < WIDE_PATTERNS; ++l)
	{
		const int R = S[s][0], K = S[s][1], C = S[s][2];
		if (!c.thorough && l != k && l != (k + 1) % WIDE_PATTERNS && (l != 6 || s > 5)) continue;
		if (!c.begin({s, k, l})) continue;
		NOTE("patterns %d and %d of %dx%d and %dx%d", k, l, R, K, K, C);
		const Wide<T> x = wide<T>(k, R, K), y = wide<T>(l, K, C, 2);
		const bool heavy = (double)x.a.size() * C > 3e6 || (double)y.a.size() * R > 3e7;
		const SparseMatrix<T> a = wideS(x), b = wideS(y);
		if (!heavy)
		{
			const Wide<T> r = x.mul(y);
			sameWide(c, a.mul(b), r, "sparse product");
			if ((double)R * K * C < 3e6) sameWideD(c, wideD(x).mul(wideD(y)), r, "dense product");
		}
		std::vector<T> v(K), w(R);
		for (int i = 0; i < K; ++i) v[i] = V<T>::v((i * 7 + l) % 12);
		for (int i = 0; i < R; ++i) w[i] = V<T>::v((i * 5 + k) % 12);
		sameVec(c, a.mul(dyn(v)), x.mulv(v), "sparse matrix times vector");
		sameVec(c, a.mul_left(dyn(w)), x.t().mulv(w), "vector times sparse matrix");
		if ((int64_t)R * K < 300000)
		{
			const DenseMatrix<T> d = wideD(x);
			sameVec(c, d.mul(dyn(v)), x.mulv(v), "dense matrix times vector");
			sameVec(c, d.mul_left(dyn(w)), x.t().mulv(w), "vector times dense matrix");
		}
		c.nontrivial();
	}
}
MC_REGISTER(wide_double, wideOnes<double, true>);
MC_REGISTER(wide_complex, wideOnes<cplx, false>);

}
using namespace vf;

int main(int argc, char** argv)
{
	mc::Meta m;
	m.property = "C05";
	m.level = "exploration";
	m.rule = "a case is a pair of operands, each case is computed in every representation and compared exactly; non-trivial: neither operand is zero";
	m.assumptions = {"small integer values, so that all results are exact whatever the order of summation"};
	return mc::main_(argc, argv, m);
}
