// C16: Cuthill-McKee ordering and permutations
#include "square.h"
#include "matrix/MatrixOrder.h"

namespace vf {	// names the library may use as well
using namespace NS;

typedef std::vector<int> IV;
static std::string text(const IV& v) { std::string s = "("; for (int x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + ")"; }
static IV toI(const DynamicVector<Index>& v) { IV r; for (size_t i = 0; i < v.size(); ++i) r.push_back((int)v.at(i)); return r; }

template<class T, int N> void order(mc::Ctx& c, const Ref<T>& a)
{
	const SparseMatrix<T> s = makeS(a);
	const IV R = toI(cuthill_mckee(s)), Q = toI(r_cuthill_mckee(s));
	c.transition(2);
	sameSparse(c, s, a, "matrix afterwards");
	CK((int)R.size() == N && (int)Q.size() == N, "order has %d elements", (int)R.size());
	std::vector<bool> seen(N, false), done(N, false);
	for (int i = 0; i < N; ++i) { CK(R[i] >= 0 && R[i] < N && !seen[R[i]], "order %s of %s is no permutation", text(R).c_str(), a.text().c_str()); seen[R[i]] = true; }
	for (int i = 0; i < N; ++i) CK(Q[i] == R[N - 1 - i], "reverse order %s, order %s", text(Q).c_str(), text(R).c_str());
	bool sym = true;
	IV deg(N, 0);
	for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { sym = sym && (a(i, j) != T(0)) == (a(j, i) != T(0)); deg[i] += a(i, j) != T(0); }
	if (!sym) return;
	c.nontrivial();
	int pos = 0;
	while (pos < N)
	{
		int low = 1000;
		for (int i = 0; i < N; ++i) if (!done[i]) low = std::min(low, deg[i]);
		CK(deg[R[pos]] == low, "order %s of %s: component starts at node %d of degree %d, lowest is %d", text(R).c_str(), a.text().c_str(), R[pos], deg[R[pos]], low);
		int head = pos;
		done[R[pos++]] = true;
		while (head < pos)
		{
			const int u = R[head++];
			int left = 0, last = 0;
			for (int j = 0; j < N; ++j) if (j != u && a(u, j) != T(0) && !done[j]) ++left;
			for (; left > 0; --left)
			{
				const int w = R[pos];
				CK(w != u && a(u, w) != T(0) && !done[w], "order %s of %s: node %d is listed while neighbours of %d are missing", text(R).c_str(), a.text().c_str(), w, u);
				CK(deg[w] >= last, "order %s of %s: neighbours of %d are not listed by ascending degree", text(R).c_str(), a.text().c_str(), u);
				last = deg[w];
				done[w] = true;
				++pos;
			}
		}
	}
}
template<class T, int N, bool DIAG> void symmetric(mc::Ctx& c)
{
	const int off = N * (N - 1) / 2;
	for (int64_t x = 0; x < (1 << off); ++x)
		for (int64_t y = 0; y < (DIAG ? 1 << N : 1); ++y)
		{
			if (!c.begin({x, y})) continue;
			Ref<T> a(N, N);
			int k = 0;
			for (int i = 0; i < N; ++i)
			{
				if (!DIAG || (y >> i & 1)) a(i, i) = V<T>::v(1 + i);
				for (int j = 0; j < i; ++j, ++k) if (x >> k & 1) { a(i, j) = V<T>::v(1 + k % 9); a(j, i) = V<T>::v(2 + k % 9); }
			}
			NOTE("%s", a.text().c_str());
			order<T, N>(c, a);
		}
}
template<class T, int N> void patterns(mc::Ctx& c) { eachPattern<T, N>(c, [&](const Ref<T>& a) { order<T, N>(c, a); }); }
MC_REGISTER(order_1, symmetric<double, 1, true>);
MC_REGISTER(order_2, patterns<double, 2>);
MC_REGISTER(order_3, patterns<cplx, 3>);
MC_REGISTER(order_4, patterns<double, 4>);
MC_REGISTER(order_5, symmetric<double, 5, true>);
MC_REGISTER(order_6, symmetric<double, 6, false>);
MC_REGISTER(order_float_4, symmetric<float, 4, true>);
MC_REGISTER(order_long_double_4, symmetric<long double, 4, true>);
MC_REGISTER(order_complex_float_3, patterns<cplxf, 3>);
MC_REGISTER_DEEP(deep_order_6, symmetric<double, 6, true>);
MC_REGISTER_DEEP(deep_order_7, symmetric<double, 7, false>);
MC_REGISTER_DEEP(deep_order_5, patterns<double, 5>);

template<class T, int N> void permute(mc::Ctx& c, const Ref<T>& a, const IV& p)
{
	const SparseMatrix<T> s = makeS(a);
	DynamicVector<Index> q(N);
	for (int i = 0; i < N; ++i) q.set(i, p[i]);
	Ref<T> e(N, N), pm(N, N);
	for (int i = 0; i < N; ++i) { pm(i, p[i]) = T(1); for (int j = 0; j < N; ++j) e(i, j) = a(p[i], p[j]); }
	const SparseMatrix<T> r = permutate(s, q), P = permutation_matrix<T>(q);
	c.transition(4);
	sameSparse(c, r, e, "permuted matrix");
	sameSparse(c, P, pm, "permutation matrix");
	const SparseMatrix<T> unit = Construct::eye<SparseMatrix, T>((Dimension)N, (Dimension)N);
	CK(P.mul(P.transpose()) == unit, "permutation matrix is not orthogonal");
	sameSparse(c, P.mul(s).mul(P.transpose()), e, "product with the permutation matrix");
	DynamicVector<T> x(N), b(N);
	for (int i = 0; i < N; ++i) x.set(i, V<T>::v(1 + i % 11));
	const DynamicVector<T> px = permutate(x, q), Px = P.mul(x);
	for (int i = 0; i < N; ++i) CK(px.at(i) == x.at(p[i]) && Px.at(i) == x.at(p[i]), "permuted vector, element %d", i);
	const DynamicVector<Index> inv = inverse_permutation(q);
	for (int i = 0; i < N; ++i) CK(inv.at(p[i]) == (Index)i && q.at(inv.at(i)) == (Index)i && q.at(i) == (Index)p[i], "inverse permutation, element %d", i);
	sameSparse(c, permutate(r, inv), a, "matrix permuted back");
	const DynamicVector<T> back = permutate(px, inv);
	for (int i = 0; i < N; ++i) CK(back.at(i) == x.at(i), "vector permuted back, element %d", i);
	sameSparse(c, s, a, "matrix afterwards");
	// the permuted system has the permuted solution
	if (vf::unit() != 1) return;
	if (N <= 7 ? exactDet(a).zero() : N <= 40 && std::abs(longDet(a)) < 1e-6) return;
	c.nontrivial();
	b = s.mul(x);
	SparseMatrix<T> L(N, N), U(N, N), Q(N, N);
	LU::serial::doolittle(r, L, U, Q);
	const DynamicVector<T> y = permutate(LU::serial::solve_lu(L, U, Q.mul(permutate(b, q))), inv);
	for (int i = 0; i < N; ++i) CK(mag_(y.at(i) - x.at(i)) <= 1e-8, "solution of the permuted system, element %d is %s instead of %s", i, str(y.at(i)).c_str(), str(x.at(i)).c_str());
}
template<class T, int N> void permutations(mc::Ctx& c)
{
	for (int kind = 0; kind < 6; ++kind)
	{
		Ref<T> a(N, N);
		for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j)
		{
			const bool on = kind == 0 ? true : kind == 1 ? i == j : kind == 2 ? i <= j : kind == 3 ? std::abs(i - j) <= 1 : kind == 4 ? (i * 2 + j) % 3 == 0 : i == 0;
			if (on) a(i, j) = V<T>::v(1 + (i * 7 + j * 3 + i * j) % 10);
		}
		IV p(N);
		for (int i = 0; i < N; ++i) p[i] = i;
		int64_t k = 0;
		do
		{
			++k;
			if (!c.begin({kind, k})) continue;
			NOTE("A = %s, p = %s", a.text().c_str(), text(p).c_str());
			permute<T, N>(c, a, p);
		} while (std::next_permutation(p.begin(), p.end()));
	}
}
MC_REGISTER(permute_1, permutations<double, 1>);
MC_REGISTER(permute_2, permutations<double, 2>);
MC_REGISTER(permute_3, permutations<cplx, 3>);
MC_REGISTER(permute_4, permutations<double, 4>);
MC_REGISTER(permute_5, permutations<double, 5>);
MC_REGISTER(permute_6, permutations<double, 6>);
MC_REGISTER_DEEP(deep_permute_7, permutations<double, 7>);
MC_REGISTER(order_4_tiny, withUnit<patterns<double, 4>, UNIT_TINY>);
MC_REGISTER(order_5_huge, withUnit<symmetric<double, 5, false>, UNIT_HUGE>);
MC_REGISTER(order_4_special, withUnit<patterns<double, 4>, UNIT_SPECIAL>);
MC_REGISTER(permute_4_tiny, withUnit<permutations<double, 4>, UNIT_TINY>);
MC_REGISTER(permute_4_odd, withUnit<permutations<cplx, 4>, UNIT_ODD>);
MC_REGISTER(permute_5_huge, withUnit<permutations<double, 5>, UNIT_HUGE>);
MC_SECTION(permute_all_3)
{
	eachFull<double, 3, 3>(c, [&](const Ref<double>& a)
	{
		IV p = {0, 1, 2};
		do permute<double, 3>(c, a, p); while (std::next_permutation(p.begin(), p.end()));
	});
}

// Larger graphs: paths, rings, stars, trees, grids, complete and bipartite ones, several
// components of them, structured patterns; their nodes numbered in several ways
static bool edge(int kind, int n, int i, int j)
{
	if (i > j) std::swap(i, j);
	const int h = n / 2;
	switch (kind)
	{
	case 0: return j == i + 1;
	case 1: return j == i + 1 || (i == 0 && j == n - 1);
	case 2: return i == 0;
	case 3: return (j - 1) / 2 == i;
	case 4: return (j == i + 1 && j % 3) || j == i + 3;
	case 5: return (j == i + 1 && j % 4) || j == i + 4;
	case 6: return i != j;
	case 7: return i < h && j >= h;
	case 8: return j == i + 1 && j != h;
	case 9: return (i < h && j < h) || (i >= h && j >= h && j == i + 1);
	case 10: return j == i + 1 && j % 3;
	case 11: return j - i <= 2;
	case 12: return i == h || j == h;
	case 13: return j == n - 1 || j == i + 1;
	case 14: return i % 4 == j % 4;
	case 15: return i == 0 || (i == h && j > h);
	default: return false;
	}
}
template<class T, int N> void large(mc::Ctx& c)
{
	for (int kind = 0; kind < 17 + PATTERNS; ++kind)
		for (int diag = 0; diag < 3; ++diag)
			for (int num = 0; num < (c.thorough && N <= 40 ? 2 * N : 6); ++num)
			{
				if (N > 40 && (kind >= 20 || (diag != num % 3))) continue;
				if (!c.begin({kind, diag, num})) continue;
				IV p(N);
				for (int i = 0; i < N; ++i) p[i] = num < N / 2 + 3 && num % 3 == 0 ? (i + num) % N : num % 3 == 1 ? (N - 1 - i + num) % N : (i * (num % 4 == 2 ? 2 : 1) + (i * (num % 4 == 2 ? 2 : 1) >= N && N % 2 == 0 && num % 4 == 2 ? 1 : 0) + num) % N;
				Ref<T> a(N, N);
				for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j)
				{
					if (i == j) { if (diag == 0 || (diag == 1 && i % 2)) a(p[i], p[i]) = T(2); }
					else if (kind < 17 ? edge(kind, N, i, j) : inPattern(kind - 17, N, N, i, j)) a(p[i], p[j]) = V<T>::v(1 + (i + 2 * j) % 9);
				}
				NOTE("%s", a.text().c_str());
				order<T, N>(c, a);
			}
}
MC_REGISTER(large_7, large<double, 7>);
MC_REGISTER(large_8, large<double, 8>);
MC_REGISTER(large_12, large<cplx, 12>);
MC_REGISTER(large_17, large<double, 17>);
MC_REGISTER(large_25, large<double, 25>);
MC_REGISTER(large_31, large<float, 31>);
MC_REGISTER(large_70, large<double, 70>);
MC_REGISTER(large_140, large<cplx, 140>);
MC_REGISTER(large_270, large<double, 270>);
MC_REGISTER_DEEP(deep_large_600, large<double, 600>);
template<class T, int N> void largePermutations(mc::Ctx& c)
{
	for (int k = 0; k < PATTERNS + 3; ++k)	// and, as many entries as rows: a diagonal, a circle; one entry beside the diagonal
		for (int s = 1; s < N; ++s)
			for (int o = 0; o < (c.thorough && N <= 40 ? N : 2); ++o)
			{
				if (N > 40 && ((k % 4 != 1 && k < PATTERNS) || (s > 2 && s != N / 2 + 3 && s < N - 2))) continue;
				int x = s, y = N;
				while (y) { int t = x % y; x = y; y = t; }
				if (x != 1 || !c.begin({k, s, o})) continue;
				Ref<T> a = k < PATTERNS ? patterned<T>(k, N, N, o) : Ref<T>(N, N);
				for (int i = 0; i < N; ++i) { if (k == PATTERNS + 1) a(i, (i + 1) % N) = T(1 + i); else a(i, i) = T(8 * N + i); }
				if (k == PATTERNS + 2) a(N - 2, 1) = T(3);
				IV p(N);
				for (int i = 0; i < N; ++i) p[i] = (i * s + o) % N;
				NOTE("A = %s, p = %s", a.text().c_str(), text(p).c_str());
				permute<T, N>(c, a, p);
			}
}
MC_REGISTER(permute_large_8, largePermutations<double, 8>);
MC_REGISTER(permute_large_13, largePermutations<double, 13>);
MC_REGISTER(permute_large_20, largePermutations<cplx, 20>);
MC_REGISTER(permute_large_70, largePermutations<double, 70>);
MC_REGISTER(permute_large_140, largePermutations<double, 140>);
MC_REGISTER_DEEP(permute_large_270, largePermutations<double, 270>);

}
using namespace vf;

int main(int argc, char** argv)
{
	mc::Meta m;
	m.property = "C16";
	m.level = "exploration";
	m.rule = "a case is a pattern (ordered) or a matrix with a permutation; the order is checked against the definition with any way of breaking ties; non-trivial: symmetric pattern, regular matrix";
	m.assumptions = {"the degree of a node is the number of filled entries in its row, as in the implementation; levels and degrees are checked for structurally symmetric matrices, for others that the order is a permutation"};
	return mc::main_(argc, argv, m);
}
