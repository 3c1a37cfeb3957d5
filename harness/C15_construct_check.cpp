// C15: matrix constructors and structural predicates
#include "common.h"
#include "matrix/MatrixConstructor.h"
#include "matrix/MatrixCheck.h"

namespace vf {	// names the library may use as well
using namespace NS;

// In the unit 0: values that differ from one or zero by rounding only
template<class R> R near_(int i) { static const R e = std::numeric_limits<R>::epsilon(), t[] = {0, 1, -1, 1 + e, -1 - e, e, 1 - e, -e}; return t[i]; }
template<class T> struct P { static T v(int i) { static const double t[] = {0, 1, -1, 0.5, 2, -0.5, -2}; return unit() == 0 ? near_<T>(i) : (T)(t[i] * unit()); } };
template<> struct P<int> { static int v(int i) { static const int t[] = {0, 1, -1, 2, -2, 3, 4}; return t[i]; } };
template<class R> struct P<std::complex<R> > { typedef std::complex<R> C; static C v(int i) { static const C t[] = {C(0), C(1), C(0, 1), C(0, -1), C(-1), C(0.5), C(0, 0.5), C(1, 1)}; return unit() == 0 ? i % 3 == 1 ? C(near_<R>(i)) : C(near_<R>(i / 3), near_<R>(i)) : t[i] * (R)unit(); } };

template<class T> Ref<T> conj_t(const Ref<T>& a) { Ref<T> x = a.t(); for (auto& v : x.a) v = NS::complex_conj(v); return x; }
template<class T> Ref<T> neg(const Ref<T>& a) { Ref<T> x = a; for (auto& v : x.a) v = -v; return x; }
template<class M, class T> void predicates(mc::Ctx& c, const M& m, const Ref<T>& a, const char* rep)
{
	const bool sq = a.r == a.c;
	const Ref<T> I = Ref<T>::eye(a.r);
	#define PRED(F, E) do { const bool e_ = sq && (E); CK(Check::F(m) == e_, "%s: " #F " of %s is %d", rep, a.text().c_str(), (int)!e_); } while (0)
	PRED(matrixIsOrthogonal, a.mul(a.t()) == I);
	PRED(matrixIsUnitary, a.mul(conj_t(a)) == I);
	PRED(matrixIsProjection, a.mul(a) == a);
	PRED(matrixIsSymmetric, a.t() == a);
	PRED(matrixIsHermitian, conj_t(a) == a);
	PRED(matrixIsSkewSymmetric, neg(a.t()) == a);
	PRED(matrixIsSkewHermitian, neg(conj_t(a)) == a);
	c.transition();
}
template<class T, int N, int NV> void squares(mc::Ctx& c)
{
	const int64_t n = mc::ipow(NV, N * N);
	int d[32];
	for (int64_t x = 0; x < n; ++x)
	{
		if (!c.begin({x})) continue;
		mc::digits(x, NV, N * N, d);
		Ref<T> a(N, N);
		for (int i = 0; i < N * N; ++i) a.a[i] = P<T>::v(d[i]);
		NOTE("A = %s", a.text().c_str());
		predicates(c, makeS(a), a, "sparse");
		predicates(c, makeD(a), a, "dense");
		predicates(c, makeF<FixedMatrix<T, N, N> >(a), a, "fixed-size");
		if (x) c.nontrivial();
	}
}
MC_REGISTER(pred_double_1, squares<double, 1, 7>);
MC_REGISTER(pred_complex_1, squares<cplx, 1, 8>);
MC_REGISTER(pred_double_2, squares<double, 2, 7>);
MC_REGISTER(pred_complex_2, squares<cplx, 2, 8>);
MC_REGISTER(pred_int_2, squares<int, 2, 7>);
MC_REGISTER(pred_double_3, squares<double, 3, 3>);
MC_REGISTER(pred_int_3, squares<int, 3, 3>);
MC_REGISTER(pred_complex_3, squares<cplx, 3, 3>);
MC_REGISTER(pred_double_4, squares<double, 4, 2>);
MC_REGISTER(pred_float_2, squares<float, 2, 5>);
MC_REGISTER(pred_long_double_2, squares<long double, 2, 5>);
MC_REGISTER(pred_complex_float_2, squares<cplxf, 2, 5>);
MC_REGISTER_DEEP(deep_pred_double_3, squares<double, 3, 5>);
MC_REGISTER_DEEP(deep_pred_complex_3, squares<cplx, 3, 5>);

MC_REGISTER(pred_double_2_tiny, withUnit<squares<double, 2, 7>, UNIT_TINY>);
MC_REGISTER(pred_double_2_odd, withUnit<squares<double, 2, 7>, UNIT_ODD>);
MC_REGISTER(pred_double_2_huge, withUnit<squares<double, 2, 7>, UNIT_HUGE>);
MC_REGISTER(pred_double_2_near, withUnit<squares<double, 2, 7>, UNIT_SPECIAL>);
MC_REGISTER(pred_float_2_near, withUnit<squares<float, 2, 7>, UNIT_SPECIAL>);
MC_REGISTER(pred_complex_2_tiny, withUnit<squares<cplx, 2, 8>, UNIT_TINY>);
MC_REGISTER(pred_complex_2_near, withUnit<squares<cplx, 2, 8>, UNIT_SPECIAL>);
MC_REGISTER(pred_double_3_tiny, withUnit<squares<double, 3, 3>, UNIT_TINY>);
MC_REGISTER(pred_double_3_near, withUnit<squares<double, 3, 3>, UNIT_SPECIAL>);

// Structured matrices of size 3 to 6 and every single change of them
template<class T, int FROM, int TO, int STEP> void structured(mc::Ctx& c)
{
	for (int n = FROM; n <= TO; n += STEP)
		for (int kind = 0; kind < 8; ++kind)
			for (int ch = -1; ch < n * n; ++ch)
				for (int v = 0; v < (ch < 0 ? 1 : 6); ++v)
				{
					if (n > 40 && ch >= 0 && (v != (ch + kind) % 6 || (ch >= n && ch < n * n - n && ch % (n + 2) && ch % (n * 3 + 1)) || (n > 60 && ch != n - 1 && ch % (7 * n + 3)))) continue;
					if (!c.begin({n, kind, ch, v})) continue;
					Ref<T> a(n, n);
					for (int i = 0; i < n; ++i)
						for (int j = 0; j < n; ++j)
						{
							const T w = V<T>::v(1 + (std::min(i, j) * 3 + std::max(i, j) * 2) % 8);
							switch (kind)
							{
							case 0: a(i, j) = j == (i + 1) % n ? P<T>::v(1 + i % 2) : T(0); break;	// orthogonal or unitary
							case 1: a(i, j) = w; break;	// symmetric
							case 2: a(i, j) = i == j ? T(0) : i < j ? w : -w; break;	// skew
							case 3: a(i, j) = i == j ? T(i) : i < j ? w : NS::complex_conj(w); break;	// Hermitian
							case 4: a(i, j) = i == j ? T(0) : i < j ? w : -NS::complex_conj(w); break;	// skew-Hermitian
							case 5: a(i, j) = i < 2 && j < 2 ? T(0.5) : i == j && i % 2 ? T(1) : T(0); break;	// projection
							case 6: a(i, j) = i == 0 && j < n ? T(j == 0 ? 1 : j) : T(0); break;	// projection
							default: a(i, j) = j == n - 1 - i ? T(1) : T(0);
							}
						}
					if (ch >= 0) { const T o = a.a[ch]; a.a[ch] = P<T>::v(v); if (a.a[ch] == o) continue; }
					NOTE("A = %s", a.text().c_str());
					predicates(c, makeS(a), a, "sparse");
					predicates(c, makeD(a), a, "dense");
					c.nontrivial();
				}
}
MC_REGISTER(structured_double, structured<double, 3, 6, 1>);
MC_REGISTER(structured_complex, structured<cplx, 3, 6, 1>);
MC_REGISTER(structured_double_tiny, withUnit<structured<double, 3, 5, 1>, UNIT_TINY>);
MC_REGISTER(structured_double_odd, withUnit<structured<double, 3, 5, 1>, UNIT_ODD>);
MC_REGISTER(structured_double_near, withUnit<structured<double, 3, 4, 1>, UNIT_SPECIAL>);
MC_REGISTER(structured_complex_tiny, withUnit<structured<cplx, 3, 4, 1>, UNIT_TINY>);
MC_REGISTER(structured_complex_odd, withUnit<structured<cplx, 3, 4, 1>, UNIT_ODD>);
MC_REGISTER(large_structured_double, structured<double, 8, 16, 4>);
MC_REGISTER(large_structured_complex, structured<cplx, 9, 9, 1>);
MC_REGISTER(large_structured_70, structured<double, 70, 70, 1>);
MC_REGISTER(large_structured_complex_41, structured<cplx, 41, 41, 1>);
MC_REGISTER_DEEP(deep_structured_140, structured<double, 140, 140, 1>);
MC_REGISTER_DEEP(deep_structured_double, structured<double, 20, 33, 13>);
MC_REGISTER_DEEP(deep_structured_complex, structured<cplx, 13, 20, 7>);

MC_SECTION(not_square)
{
	for (int r = 1; r <= 4; ++r)
		for (int k = 1; k <= 4; ++k)
			for (int f = 0; f < 4; ++f)
			{
				if (r == k || !c.begin({r, k, f})) continue;
				Ref<double> a(r, k);
				for (int i = 0; i < r * k; ++i) a.a[i] = f == 0 ? 0 : f == 1 ? (i / k == i % k) : f == 2 ? 1 : 0.5;
				predicates(c, makeS(a), a, "sparse");
				predicates(c, makeD(a), a, "dense");
			}
}

template<class T, bool LARGE> void constructors(mc::Ctx& c)
{
	typedef SparseMatrix<T> S;
	typedef DenseMatrix<T> D;
	for (int r = 1; r <= (LARGE ? 70 : 6); ++r)
		for (int k = 1; k <= (LARGE ? 70 : 6); ++k)
		{
			if (LARGE && ((r > 2 && r < 7) || (r > 9 && r < 16) || (r > 18 && r < 32) || (r > 33 && r < 70) || (k > 33 && k < 70) || (k > 2 && k < 7) || (k > 9 && k < 16) || (k > 18 && k < 32))) continue;
			if (!c.begin({r, k})) continue;
			NOTE("%dx%d", r, k);
			Ref<T> e(r, k);
			for (int i = 0; i < r && i < k; ++i) e(i, i) = T(1);
			sameSparse(c, Construct::eye<SparseMatrix, T>(r, k), e, "identity");
			sameDense(c, Construct::eye<DenseMatrix, T>(r, k), e, "identity");
			for (int f = 0; f < 5; ++f)
			{
				Ref<T> a(r, k);
				for (int i = 0; i < r * k; ++i) a.a[i] = f == 0 ? T(i + 1) : f == 1 ? V<T>::v(i % 9) : f == 2 ? (i % 3 ? T(0) : T(2)) : f == 3 ? (i % 4 == 1 ? T(0) : T(-i - 1)) : T(0);
				const S s = makeS(a);
				const D d = makeD(a);
				const DynamicVector<T> ds = Construct::diag<SparseMatrix, T>(s), dd = Construct::diag<DenseMatrix, T>(d);
				CK((int)ds.size() == std::min(r, k) && (int)dd.size() == std::min(r, k), "size of the diagonal");
				for (int i = 0; i < r && i < k; ++i) CK(ds.at(i) == a(i, i) && dd.at(i) == a(i, i), "element %d of the diagonal of %s", i, a.text().c_str());
				for (int o = LARGE ? -r - 1 : -8; o <= (LARGE ? k + 1 : 8); ++o)
				{
					if (LARGE && o % 4 > 1 && o % 7 && std::abs(o) < std::min(r, k) - 1) continue;
					if (LARGE && r + k > 80 && o && o % 32 && std::abs(o) < std::min(r, k) - 1) continue;
					Ref<T> l = a, u = a;
					for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) { if (j - i > o) l(i, j) = T(0); if (j - i < o) u(i, j) = T(0); }
					NOTE("; offset %d of %s", o, a.text().c_str());
					sameSparse(c, Construct::tril<SparseMatrix, T>(s, o), l, "lower part");
					sameDense(c, Construct::tril<DenseMatrix, T>(d, o), l, "lower part");
					sameSparse(c, Construct::triu<SparseMatrix, T>(s, o), u, "upper part");
					sameDense(c, Construct::triu<DenseMatrix, T>(d, o), u, "upper part");
					if (o == 0)
					{
						sameSparse(c, Construct::tril<SparseMatrix, T>(s), l, "lower part");
						sameDense(c, Construct::triu<DenseMatrix, T>(d), u, "upper part");
					}
				}
				c.nontrivial();
			}
		}
	if (LARGE)
		for (int n = 6; n <= 300; n += n < 40 ? 1 : n < 250 ? 15 : 5)
		{
			if (!c.begin({100 + n})) continue;
			DynamicVector<T> v(n);
			Ref<T> a(n, n);
			for (int i = 0; i < n; ++i) { a(i, i) = V<T>::v(i % 11); v.set(i, a(i, i)); }
			sameSparse(c, Construct::diag<SparseMatrix, T>(v), a, "diagonal matrix");
			sameDense(c, Construct::diag<DenseMatrix, T>(v), a, "diagonal matrix");
			c.nontrivial();
		}
	if (LARGE) return;
	// diagonal matrices of vectors
	int d[5];
	for (int n = 1; n <= 5; ++n)
		for (int64_t x = 0; x < (int64_t)mc::ipow(4, n); ++x)
		{
			if (!c.begin({100 + n, x})) continue;
			mc::digits(x, 4, n, d);
			DynamicVector<T> v(n);
			Ref<T> a(n, n);
			for (int i = 0; i < n; ++i) { a(i, i) = V<T>::v(d[i]); v.set(i, a(i, i)); }
			sameSparse(c, Construct::diag<SparseMatrix, T>(v), a, "diagonal matrix");
			sameDense(c, Construct::diag<DenseMatrix, T>(v), a, "diagonal matrix");
			if (n == 3)
			{
				FixedVector<T, 3> f;
				for (int i = 0; i < n; ++i) f.set(i, a(i, i));
				sameSparse(c, Construct::diag<SparseMatrix, T>(f), a, "diagonal matrix of a fixed vector");
				sameDense(c, Construct::diag<DenseMatrix, T>(f), a, "diagonal matrix of a fixed vector");
			}
			c.nontrivial();
		}
}
MC_REGISTER(construct_double, constructors<double, false>);
MC_REGISTER(large_double, constructors<double, true>);
MC_REGISTER(construct_complex, constructors<cplx, false>);
MC_REGISTER(large_complex, constructors<cplx, true>);
MC_REGISTER(construct_double_tiny, withUnit<constructors<double, false>, UNIT_TINY>);
MC_REGISTER(construct_complex_odd, withUnit<constructors<cplx, false>, UNIT_ODD>);
MC_REGISTER(construct_double_special, withUnit<constructors<double, false>, UNIT_SPECIAL>);
MC_REGISTER(construct_int, constructors<int, false>);
MC_REGISTER(large_int, constructors<int, true>);
MC_REGISTER(construct_float, constructors<float, false>);
MC_REGISTER(construct_long_double, constructors<long double, false>);

template<class T, int R, int C> void fixedEye(mc::Ctx& c)
{
	if (!c.begin({200, R, C})) return;
	Ref<T> e(R, C);
	for (int i = 0; i < R && i < C; ++i) e(i, i) = T(1);
	sameDense(c, Construct::eye<T, R, C>(), e, "identity");
	c.nontrivial();
}
MC_SECTION(fixed_identity)
{
	fixedEye<double, 1, 1>(c); fixedEye<double, 3, 3>(c); fixedEye<double, 2, 5>(c); fixedEye<double, 5, 2>(c); fixedEye<cplx, 4, 3>(c); fixedEye<int, 1, 6>(c); fixedEye<float, 6, 6>(c);
	fixedEye<double, 9, 9>(c); fixedEye<double, 7, 20>(c); fixedEye<double, 20, 7>(c); fixedEye<double, 13, 13>(c); fixedEye<cplx, 17, 18>(c); fixedEye<float, 34, 33>(c); fixedEye<int, 66, 70>(c);
	fixedEye<double, 70, 70>(c); fixedEye<double, 1, 140>(c); fixedEye<double, 140, 139>(c); fixedEye<double, 270, 270>(c);
}

template<class T> T fromBig(__int128 v) { return (T)(double)v; }
template<> int fromBig<int>(__int128 v) { return (int)v; }
template<class T> void hilberts(mc::Ctx& c, int max)
{
	for (int n = 1; n <= max; ++n)
	{
		if (!c.begin({n})) continue;
		NOTE("size %d", n);
		Ref<T> h(n, n);
		for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) h(i, j) = T(1.0 / (i + j + 1));
		auto sh = Construct::hilbert<SparseMatrix, T>(n);
		auto dh = Construct::hilbert<DenseMatrix, T>(n);
		CK((int)sh.rows() == n && (int)sh.columns() == n && (int)dh.rows() == n && (int)dh.columns() == n, "shape");
		for (int i = 0; i < n; ++i)
			for (int j = 0; j < n; ++j)
			{
				CK(std::abs(sh.at(i, j) - h(i, j)) <= 2e-7 * std::abs(h(i, j)) && std::abs(dh.at(i, j) - h(i, j)) <= 2e-7 * std::abs(h(i, j)), "Hilbert matrix, entry (%d,%d) is %s", i, j, str(sh.at(i, j)).c_str());
				if (sizeof(T) != 4) CK(std::abs(sh.at(i, j) - h(i, j)) <= 4e-16 && std::abs(dh.at(i, j) - h(i, j)) <= 4e-16, "Hilbert matrix, entry (%d,%d) is %s", i, j, str(sh.at(i, j)).c_str());
			}
		// the inverse by elimination in fractions p/q with q = lcm powers: use the integer identity sum_j H_ij X_jk = delta_ik
		auto si = Construct::inv_hilbert<SparseMatrix, T>(n);
		auto di = Construct::inv_hilbert<DenseMatrix, T>(n);
		CK((int)si.rows() == n && (int)si.columns() == n && (int)di.rows() == n && (int)di.columns() == n, "shape");
		__int128 l = 1;
		for (int i = 2; i < 2 * n; ++i) { __int128 a = l, b = i; while (b) { __int128 t = a % b; a = b; b = t; } l = l / a * i; }
		for (int i = 0; i < n; ++i)
			for (int k = 0; k < n; ++k)
			{
				CK(si.at(i, k) == di.at(i, k), "inverse of the Hilbert matrix: sparse and dense differ at (%d,%d)", i, k);
				__int128 s = 0;
				for (int j = 0; j < n; ++j) s += l / (i + j + 1) * (__int128)std::real(si.at(j, k));
				CK(std::imag(si.at(i, k)) == 0 && s == (i == k ? l : 0), "size %d: product of the Hilbert matrix and its inverse at (%d,%d) is not that of the identity; inverse entry %s", n, i, k, str(si.at(i, k)).c_str());
			}
		c.nontrivial();
	}
}
MC_SECTION(hilbert_double) { hilberts<double>(c, 11); }
MC_SECTION(hilbert_float) { hilberts<float>(c, 5); }
MC_SECTION(hilbert_complex) { hilberts<cplx>(c, 11); }

}
using namespace vf;

int main(int argc, char** argv)
{
	mc::Meta m;
	m.property = "C15";
	m.level = "exploration";
	m.rule = "a case is a matrix given to all seven predicates in three representations, or a shape and content given to the constructors; non-trivial: not the zero matrix";
	m.assumptions = {"the predicates compare exactly, so that matrices are used whose products are exact; inverse Hilbert matrices up to size 11, whose entries are exact in double"};
	return mc::main_(argc, argv, m);
}
