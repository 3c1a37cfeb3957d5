// BUILD: -D_GLIBCXX_ASSERTIONS
// C03: element-wise algebra of sparse matrices
#include "algebra.h"
#include "wide.h"

namespace vf {	// names the library may use as well
using namespace NS;

typedef SparseMatrix<double> S;
typedef SparseMatrix<cplx> SC;
MC_REGISTER(chain_double_2x2, chains<S, 2, 2, 3, 2, 4>);
MC_REGISTER(chain_double_1x3, chains<S, 1, 3, 3, 3, 4>);
MC_REGISTER(chain_double_3x1, chains<S, 3, 1, 3, 3, 4>);
MC_REGISTER(chain_double_3x2, chains<S, 3, 2, 2, 2, 3>);
MC_REGISTER(chain_complex_2x2, chains<SC, 2, 2, 2, 3, 4>);
MC_REGISTER(chain_int_2x2, chains<SparseMatrix<int>, 2, 2, 2, 3, 4>);
MC_REGISTER(chain_float_2x3, chains<SparseMatrix<float>, 2, 3, 2, 2, 3>);
MC_REGISTER(pairs_double_2x2, pairs<S, 2, 2, 4, 0>);
MC_REGISTER(pairs_complex_2x2, pairs<SC, 2, 2, 4, 0>);
MC_REGISTER(pairs_double_3x3, pairs<S, 3, 3, 2, 1>);
MC_REGISTER(pairs_double_1x5, pairs<S, 1, 5, 3, 0>);
MC_REGISTER(pairs_double_5x1, pairs<S, 5, 1, 3, 0>);
MC_REGISTER(pairs_complex_4x2, pairs<SC, 4, 2, 2, 1>);
MC_REGISTER(pairs_int_2x4, pairs<SparseMatrix<int>, 2, 4, 2, 1>);
MC_REGISTER(pairs_float_3x2, pairs<SparseMatrix<float>, 3, 2, 3, 0>);
MC_REGISTER(scale_double_1x40, scalePairs<S, 1, 40>);
MC_REGISTER(scale_double_40x1, scalePairs<S, 40, 1>);
MC_REGISTER(scale_double_12x12, scalePairs<S, 12, 12>);
MC_REGISTER(scale_complex_20x3, scalePairs<SC, 20, 3>);
MC_REGISTER(scale_double_3x24, scalePairs<S, 3, 24>);
MC_REGISTER(scale_float_7x9, scalePairs<SparseMatrix<float>, 7, 9>);
MC_REGISTER(scale_int_9x7, scalePairs<SparseMatrix<int>, 9, 7>);
MC_REGISTER_DEEP(scale_double_20x20, scalePairs<S, 20, 20>);
// Values of other magnitudes
MC_REGISTER(extreme_double_2x2, extremes<S, 2, 2>);
MC_REGISTER(extreme_float_1x3, extremes<SparseMatrix<float>, 1, 3>);
MC_REGISTER(extreme_int_2x2, extremes<SparseMatrix<int>, 2, 2>);
MC_REGISTER(extreme_complex_2x1, extremes<SC, 2, 1>);
MC_REGISTER(tiny_chain_2x2, withUnit<chains<S, 2, 2, 2, 3, 4>, UNIT_TINY>);
MC_REGISTER(odd_chain_1x3, withUnit<chains<S, 1, 3, 2, 3, 4>, UNIT_ODD>);
MC_REGISTER(tiny_chain_complex_2x1, withUnit<chains<SC, 2, 1, 3, 3, 4>, UNIT_TINY>);
MC_REGISTER(tiny_pairs_2x2, withUnit<pairs<S, 2, 2, 3, 0>, UNIT_TINY>);
MC_REGISTER(odd_pairs_1x4, withUnit<pairs<S, 1, 4, 3, 0>, UNIT_ODD>);
MC_REGISTER(huge_pairs_complex_2x2, withUnit<pairs<SC, 2, 2, 3, 0>, UNIT_HUGE>);
MC_REGISTER(tiny_scale_6x7, withUnit<scalePairs<S, 6, 7>, UNIT_TINY>);
MC_REGISTER(odd_scale_7x6, withUnit<scalePairs<SC, 7, 6>, UNIT_ODD>);
// Other value types
MC_REGISTER(extreme_long_double_2x1, extremes<SparseMatrix<long double>, 2, 1>);
MC_REGISTER(extreme_int64_1x2, extremes<SparseMatrix<int64_t>, 1, 2>);
MC_REGISTER(extreme_int16_2x2, extremes<SparseMatrix<int16_t>, 2, 2>);
MC_REGISTER(extreme_uint8_1x3, extremes<SparseMatrix<uint8_t>, 1, 3>);
MC_REGISTER(pairs_long_double_2x2, withUnit<pairs<SparseMatrix<long double>, 2, 2, 3, 0>, UNIT_ODD>);
MC_REGISTER(pairs_int64_2x2, withUnit<pairs<SparseMatrix<int64_t>, 2, 2, 3, 0>, UNIT_HUGE>);
MC_REGISTER(chain_int64_1x3, chains<SparseMatrix<int64_t>, 1, 3, 2, 3, 4>);
// All shapes
MC_REGISTER(shapes_double, shapePairs<S, 18>);
MC_REGISTER(shapes_complex, shapePairs<SC, 10>);
// 10x4, at most three entries in each operand, through the chain of all operators
MC_SECTION(wide)
{
	typedef double T;
	const int R = 9, C = 4;
	std::vector<std::vector<int> > pat;
	pat.push_back({});
	for (int i = 0; i < R * C; i += 1) { pat.push_back({i}); for (int j = i + 1; j < R * C; j += c.thorough ? 1 : 5) pat.push_back({i, j}); }
	for (size_t x = 0; x < pat.size(); ++x)
		for (size_t y = 0; y < pat.size(); ++y)
		{
			if (!c.begin({(int64_t)x, (int64_t)y})) continue;
			Ref<T> ra(R, C), rb(R, C);
			for (int p : pat[x]) ra.a[p] = 1 + p % 3;
			for (int p : pat[y]) rb.a[p] = p % 2 ? -(1 + p % 3) : 2;
			NOTE("A = %s, B = %s", ra.text().c_str(), rb.text().c_str());
			S a = makeS(ra), b = makeS(rb);
			sameSparse(c, a + b, ew(ra, rb, 0), "A + B");
			sameSparse(c, a - b, ew(ra, rb, 1), "A - B");
			sameSparse(c, a * b, ew(ra, rb, 2), "A * B");
			CK((a == b) == (ra == rb), "A == B is %d", (int)(a == b));
			if (y < 3) sameSparse(c, a.transpose(), ra.t(), "transpose");
			c.state(); c.transition(3); c.trace();
		}
}
// Indices and counts beyond 8 and 16 bits
template<class T, bool ALL, int FROM, int TO> void wideOnes(mc::Ctx& c)
{
	for (int s = FROM; s < TO; ++s) for (int k = 0; k < WIDE_PATTERNS; ++k) for (int l = 0; l < WIDE_PATTERNS; ++l)
	{
		const int R = WIDE[s][0], C = WIDE[s][1];
		if (!ALL && !c.thorough && R + C > 400) continue;
		if ((R > 1000 || (R * C > 10000 && (k == 5 || l == 5))) && !c.thorough && l != k && l != (k + 1) % WIDE_PATTERNS && l) continue;
		if (!c.begin({s, k, l})) continue;
		const Wide<T> x = wide<T>(k, R, C), y = wide<T>(l, R, C, k == l ? 0 : 1 + l);
		NOTE("patterns %d and %d of %dx%d", k, l, R, C);
		const SparseMatrix<T> a = wideS(x), b = wideS(y);
		sameWide(c, a + b, x.ew(y, 0), "A + B");
		sameWide(c, a - b, x.ew(y, 1), "A - B");
		sameWide(c, a * b, x.ew(y, 2), "A * B");
		SparseMatrix<T> z = a; z += b; sameWide(c, z, x.ew(y, 0), "A += B");
		z = a; z -= b; sameWide(c, z, x.ew(y, 1), "A -= B");
		z = a; z *= b; sameWide(c, z, x.ew(y, 2), "A *= B");
		CK((a == b) == (x.a == y.a) && (a != b) == (x.a != y.a), "A == B is %d", (int)(a == b));
		c.state(); c.transition(6); c.trace();
		if (l) continue;
		sameWide(c, a.transpose(), x.t(), "transpose");
		sameWide(c, a.transpose().transpose(), x, "transpose of the transpose");
		sameWide(c, a.adjugate().conjugate(), x.t(), "conjugate of the adjugate");
		sameWide(c, a * T(-2), x.times(T(-2)), "A * -2");
		sameWide(c, -a, x.times(T(-1)), "-A");
		z = a; z *= T(0); sameWide(c, z, Wide<T>(R, C), "A *= 0");
		z = b; SparseMatrix<T> q = a; q.swap(z); sameWide(c, z, x, "swapped"); sameWide(c, q, y, "swapped");
		for (int i : edgesOf(R)) for (int j : edgesOf(C))
		{
			if (R > 100 && C > 100 && (i * 3 + j) % (R > 1000 && C > 1000 ? 41 : 7)) continue;
			if (x.a.size() > 10000 && (i + j) % 3) continue;
			z = a;
			z.set(i, j, x.at(i, j) + T(1));
			CK(z != a && !(a == z), "matrices that differ at (%d,%d) compare equal", i, j);
		}
	}
}
MC_REGISTER(wide_double, wideOnes<double, true, 0, 6>);
MC_REGISTER(tall_double, wideOnes<double, true, 6, 7>);
MC_REGISTER(large_double, wideOnes<double, true, 7, 9>);
MC_REGISTER(square_double, wideOnes<double, true, 9, WIDES>);
MC_REGISTER(wide_complex, wideOnes<cplx, false, 0, WIDES>);

}
using namespace vf;

int main(int argc, char** argv)
{
	mc::Meta m;
	m.property = "C03";
	m.level = "model_checking";
	m.rule = "chains: a state is a pair of matrices, transitions are 30 in-place and out-of-place operations incl. self operations, scalars that are elements of the operand, swap and assignment; pairs: every pair of operands with every operator";
	m.assumptions = {"small integer values, so that all results are exact; entries up to 2000 in absolute value", "all operand pairs: up to 3x3; pairs of 16 structured patterns: up to 12x12, 40x1 (thorough 20x20)"};
	return mc::main_(argc, argv, m);
}
