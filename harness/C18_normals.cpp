// C18: normals of K-1 vectors in K dimensions
#include "mc.h"
#include "Normal.h"

namespace vf {	// names the library may use as well
using namespace NS;

// minor of the vectors without coordinate `skip`, exact
template<int K> long long det(const long long (&m)[K][K], int n)
{
	if (n == 1) return m[0][0];
	long long r = 0;
	for (int k = 0; k < n; ++k)
	{
		long long s[K][K];
		for (int i = 1; i < n; ++i) for (int j = 0, p = 0; j < n; ++j) if (j != k) s[i - 1][p++] = m[i][j];
		r += (k % 2 ? -1 : 1) * m[0][k] * det<K>(s, n - 1);
	}
	return r;
}
template<class T, int K> void one(mc::Ctx& c, const int (&v)[K][K], T scale, T step = T(1))
{
	const double eps = mc::tolerance<T>();
	double e[K], len = 0;
	for (int i = 0; i < K; ++i)
	{
		long long m[K][K];
		for (int a = 0; a < K - 1; ++a) for (int j = 0, p = 0; j < K; ++j) if (j != i) m[a][p++] = v[a][j];
		e[i] = (double)((i % 2 ? -1 : 1) * det<K>(m, K - 1));
		len += e[i] * e[i];
	}
	if (len == 0) return;	// dependent
	c.nontrivial();
	c.transition();
	len = std::sqrt(len);
	std::array<FixedVector<T, K>, K - 1> a;
	double big = 0;
	for (int i = 0; i < K - 1; ++i) for (int j = 0; j < K; ++j) { a[i][j] = (T)v[i][j] * scale * (i % 2 ? step : T(1)); big = std::max(big, (double)std::abs(v[i][j])); }
	const FixedVector<T, K> n = Math::normal<T, K>(a);
	double mag = 0;
	for (int i = 0; i < K; ++i) mag += (double)n[i] * (double)n[i];
	CK(std::fabs(mag - 1) <= 100 * eps, "length of the normal %.17g", std::sqrt(mag));
	for (int i = 0; i < K - 1; ++i)
	{
		double d = 0;
		for (int j = 0; j < K; ++j) { d += (double)n[j] * v[i][j]; if (!(a[i][j] == (T)v[i][j] * scale * (i % 2 ? step : T(1)))) c.fail("argument changed"); }
		CK(std::fabs(d) <= 3000 * eps * big, "normal is not orthogonal to vector %d: product %.17g", i, d);
	}
	for (int i = 0; i < K; ++i) CK(std::fabs((double)n[i] - e[i] / len) <= 1000 * eps, "component %d of the normal is %.17g, of the cross product %.17g", i, (double)n[i], e[i] / len);
}
template<class T, int K, int L> void all(mc::Ctx& c)
{
	const int n = 2 * L + 1, cnt = K * (K - 1);
	static const double scales[] = {1, 64, 1.0 / 128};
	const uint64_t N = mc::ipow(n, cnt);
	const int S = N < 100000 ? 3 : 1;
	for (uint64_t x = 0; x < N; ++x)
		for (int s = 0; s < S; ++s)
		{
			if (!c.begin({(int64_t)x, s})) continue;
			int d[32], v[K][K] = {};
			mc::digits(x, n, cnt, d);
			for (int i = 0; i < cnt; ++i) v[i / K][i % K] = d[i] - L;
			if (c.verbose()) for (int i = 0; i < cnt; ++i) c.note("%s%d", i % K ? "," : " ", v[i / K][i % K]);
			one<T, K>(c, v, (T)scales[s]);
		}
}
MC_REGISTER(two, all<double, 2, 20>);
MC_REGISTER(two_float, all<float, 2, 9>);
MC_REGISTER(three, all<double, 3, 2>);
MC_REGISTER(three_float, all<float, 3, 2>);
MC_REGISTER(three_long_double, all<long double, 3, 2>);
MC_REGISTER(four, all<double, 4, 1>);
MC_REGISTER_DEEP(deep_three, all<double, 3, 4>);
MC_REGISTER_DEEP(deep_four_float, all<float, 4, 1>);
// Wider vectors in four dimensions: every triple from a table of vectors, in every order
template<class T> void table(mc::Ctx& c)
{
	static const int t[][4] = {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}, {3, -1, 2, 5}, {-2, 4, 1, 1}, {7, 0, 0, -3}, {0, 5, -6, 0}, {1, 1, 1, 1}, {2, -2, 2, -2}, {-1, 0, 4, 0}, {0, 0, 9, 2}, {5, 3, 0, 0}, {-8, 1, 0, 1}, {0, -1, -1, 6}};
	const int n = sizeof t / sizeof *t;
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) for (int s = 0; s < 8; ++s)
	{
		if (!c.begin({i, j, k, s})) continue;
		int v[4][4] = {};
		const int id[3] = {i, j, k};
		for (int r = 0; r < 3; ++r) for (int q = 0; q < 4; ++q) v[r][q] = (s >> r & 1 ? -1 : 1) * t[id[r]][q];
		NOTE("vectors %d %d %d of the table, signs %d", i, j, k, s);
		one<T, 4>(c, v, (T)1);
	}
}
MC_REGISTER(four_table, table<double>);
MC_REGISTER(four_table_float, table<float>);

// Vectors in other units, and each of its own length
template<class T> void units(mc::Ctx& c)
{
	static const T s[][2] = {{(T)std::ldexp(1, -20), 1}, {(T)std::ldexp(1, 20), 1}, {(T)0.1, 1}, {(T)1e5, 1}, {1, (T)std::ldexp(1, -12)}, {1, 1024}, {1000, (T)1e-4}, {(T)1e-3, 1}};
	const int L = 1, n = 3;
	for (size_t q = 0; q < sizeof s / sizeof *s; ++q)
	{
		for (uint64_t x = 0; x < mc::ipow(5, 2); ++x)
		{
			if (!c.begin({2, (int64_t)q, (int64_t)x})) continue;
			int d[4], v[2][2] = {};
			mc::digits(x, 5, 2, d);
			v[0][0] = d[0] - 2; v[0][1] = d[1] - 2;
			NOTE("(%d,%d) in units of %g", v[0][0], v[0][1], (double)s[q][0]);
			one<T, 2>(c, v, s[q][0], s[q][1]);
		}
		for (uint64_t x = 0; x < mc::ipow(5, 6); ++x)
		{
			if (!c.begin({3, (int64_t)q, (int64_t)x})) continue;
			int d[6], v[3][3] = {};
			mc::digits(x, 5, 6, d);
			for (int i = 0; i < 6; ++i) v[i / 3][i % 3] = d[i] - 2;
			NOTE("(%d,%d,%d) (%d,%d,%d) in units of %g and %g", v[0][0], v[0][1], v[0][2], v[1][0], v[1][1], v[1][2], (double)s[q][0], (double)(s[q][0] * s[q][1]));
			one<T, 3>(c, v, s[q][0], s[q][1]);
		}
		for (uint64_t x = 0; x < mc::ipow(n, 12); x += c.thorough ? 1 : 5)
		{
			if (!c.begin({4, (int64_t)q, (int64_t)x})) continue;
			int d[12], v[4][4] = {};
			mc::digits(x, n, 12, d);
			for (int i = 0; i < 12; ++i) v[i / 4][i % 4] = d[i] - L;
			NOTE("case %d in units of %g and %g", (int)x, (double)s[q][0], (double)(s[q][0] * s[q][1]));
			one<T, 4>(c, v, s[q][0], s[q][1]);
		}
	}
}
MC_REGISTER(units_double, units<double>);
MC_REGISTER(units_float, units<float>);

}
using namespace vf;

int main(int argc, char** argv)
{
	mc::Meta m;
	m.property = "C18";
	m.level = "exploration";
	m.rule = "a case is one ordered set of K-1 integer vectors in K dimensions, scaled; compared to the generalised cross product computed exactly; dependent vectors are skipped";
	m.assumptions = {"rounding tolerance of 1000 units in the last place"};
	return mc::main_(argc, argv, m);
}
