// Matrices and vectors with rows, columns and numbers of entries beyond the ranges of 8 and 16 bits
#pragma once
#include "common.h"

namespace vf {	// names the library may use as well
using namespace NS;

static const int WIDE[][2] = {{1, 300}, {300, 1}, {2, 260}, {260, 3}, {300, 290}, {1, 70000}, {70000, 1}, {3, 66000}, {66000, 2}, {70000, 70001}};
enum { WIDES = sizeof WIDE / sizeof *WIDE, WIDE_PATTERNS = 8 };
// Places around the powers of two that types are limited by
inline std::vector<int> edgesOf(int n)
{
	std::vector<int> r;
	for (int b : {0, 128, 256, 32768, 65536, n}) for (int d = -2; d < 2; ++d) if (b + d >= 0 && b + d < n) r.push_back(b + d);
	std::sort(r.begin(), r.end());
	r.erase(std::unique(r.begin(), r.end()), r.end());
	return r;
}
template<class T> struct Wide
{
	int r, c;
	typedef std::map<std::pair<int, int>, T> Map;
	Map a;	// the entries that are not zero
	Wide(int r_, int c_) : r(r_), c(c_) {}
	T at(int i, int j) const { auto f = a.find({i, j}); return f == a.end() ? T(0) : f->second; }
	void set(int i, int j, T v) { if (v == T(0)) a.erase({i, j}); else a[{i, j}] = v; }
	Wide t() const { Wide x(c, r); for (auto& e : a) x.a[{e.first.second, e.first.first}] = e.second; return x; }
	Wide ew(const Wide& o, int op) const
	{
		Wide x(r, c);
		for (const Wide* w : {this, &o}) for (auto& e : w->a)
		{
			const T p = at(e.first.first, e.first.second), q = o.at(e.first.first, e.first.second);
			x.set(e.first.first, e.first.second, op == 0 ? p + q : op == 1 ? p - q : p * q);
		}
		return x;
	}
	Wide mul(const Wide& o) const
	{
		Wide x(r, o.c);
		for (auto& e : a) for (auto f = o.a.lower_bound({e.first.second, 0}); f != o.a.end() && f->first.first == e.first.second; ++f)
			x.set(e.first.first, f->first.second, x.at(e.first.first, f->first.second) + e.second * f->second);
		return x;
	}
	std::vector<T> mulv(const std::vector<T>& v) const { std::vector<T> x(r, T(0)); for (auto& e : a) x[e.first.first] += e.second * v[e.first.second]; return x; }
	Wide times(T f) const { Wide x(r, c); for (auto& e : a) x.set(e.first.first, e.first.second, e.second * f); return x; }
};
template<class T> Wide<T> wide(int k, int R, int C, int shift = 0, bool full = false)
{
	Wide<T> w(R, C);
	auto put = [&](int i, int j) { if (i >= 0 && i < R && j >= 0 && j < C) w.a[{i, j}] = V<T>::v(1 + (i * 5 + (j % 11) * 3 + shift) % 11); };
	const std::vector<int> ei = edgesOf(R), ej = edgesOf(C);
	switch (k)
	{
	case 0: for (int i : ei) for (int j : ej) put(i, j); break;
	case 1: for (int i : {0, 255 + shift % 2, R - 1}) for (int j = 0; j < C; j += C < 1000 ? 1 : C / 300) put(i, j); break;
	case 2: for (int j : {0, 255 + shift % 2, C - 1}) for (int i = 0; i < R; i += R < 1000 ? 1 : R / 300) put(i, j); break;
	case 3: for (int i = 0; i < std::min(R, C); i += std::min(R, C) < 1000 ? 1 : std::min(R, C) / 300) put(i, i); break;
	case 4: put(R - 1, C - 1); break;
	case 5: if ((R < 1000 && C < 1000) || (full && (int64_t)R * C <= 100000 && R < C)) for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) put(i, j); else if (R < C) for (int i : ei) for (int j = i % 7; j < C; j += R < 10 ? 61 : 997) put(i, j); else for (int i : ei) put(i, (i * 7) % C); break;
	case 6: for (int i : ei) put(i, ej[(i + shift) % ej.size()]); for (int j : ej) put(ei[(j + shift) % ei.size()], j); break;
	default: break;
	}
	return w;
}
template<class T> NS::SparseMatrix<T> wideS(const Wide<T>& w, int order = 0)
{
	NS::SparseMatrix<T> m((NS::Dimension)w.r, (NS::Dimension)w.c);
	if (order == 0) for (auto& e : w.a) m.set(e.first.first, e.first.second, e.second);
	else if (order == 1) for (auto e = w.a.rbegin(); e != w.a.rend(); ++e) m.set(e->first.first, e->first.second, e->second);
	else	// in steps
	{
		std::vector<std::pair<std::pair<int, int>, T> > l(w.a.begin(), w.a.end());
		for (int s = 0; s < order; ++s) for (size_t i = s; i < l.size(); i += order) m.set(l[i].first.first, l[i].first.second, l[i].second);
	}
	return m;
}
template<class T> NS::DenseMatrix<T> wideD(const Wide<T>& w)
{
	NS::DenseMatrix<T> m((NS::Dimension)w.r, (NS::Dimension)w.c);
	for (auto& e : w.a) m.set(e.first.first, e.first.second, e.second);
	return m;
}
template<class T> void sameWide(mc::Ctx& c, const NS::SparseMatrix<T>& m, const Wide<T>& w, const char* what)
{
	CK((int)m.rows() == w.r && (int)m.columns() == w.c && m.size() == (size_t)w.r * (size_t)w.c, "%s: shape %dx%d, expected %dx%d", what, (int)m.rows(), (int)m.columns(), w.r, w.c);
	CK(m.filled_count() == w.a.size(), "%s: %d filled entries, expected %d", what, (int)m.filled_count(), (int)w.a.size());
	CK(m.empty() == w.a.empty() && m.has_zero() == (w.a.size() != m.size()), "%s: empty or has_zero is wrong", what);
	auto it = m.begin();
	size_t n = 0;
	for (auto& e : w.a)
	{
		CK(it != m.end() && it.isValid(), "%s: the walk ends after %d of %d entries", what, (int)n, (int)w.a.size());
		CK((int)it.row() == e.first.first && (int)it.column() == e.first.second && *it == e.second, "%s: step %d of the walk shows %s at (%d,%d), expected %s at (%d,%d)", what, (int)n, str(T(*it)).c_str(), (int)it.row(), (int)it.column(), str(e.second).c_str(), e.first.first, e.first.second);
		if (w.a.size() < 20000 || n % 64 == 0) CK(m.at(e.first.first, e.first.second) == e.second, "%s: at(%d,%d) is %s", what, e.first.first, e.first.second, str(m.at(e.first.first, e.first.second)).c_str());
		++it; ++n;
	}
	CK(it == m.end(), "%s: the walk does not end after %d entries", what, (int)n);
	for (int i : edgesOf(w.r)) for (int j : edgesOf(w.c))
	{
		const T v = w.at(i, j);
		CK(m.at(i, j) == v && m.has(i, j) == (v != T(0)), "%s: at(%d,%d) is %s, expected %s", what, i, j, str(m.at(i, j)).c_str(), str(v).c_str());
		CK(m.linear_at((size_t)i * w.c + j) == v, "%s: linear_at at (%d,%d) is %s, expected %s", what, i, j, str(m.linear_at((size_t)i * w.c + j)).c_str(), str(v).c_str());
	}
}
// The same for dense and fixed-size matrices
template<class M, class T> void sameWideD(mc::Ctx& c, const M& m, const Wide<T>& w, const char* what)
{
	CK((int)m.rows() == w.r && (int)m.columns() == w.c && m.size() == (size_t)w.r * (size_t)w.c, "%s: shape %dx%d, expected %dx%d", what, (int)m.rows(), (int)m.columns(), w.r, w.c);
	auto e = w.a.begin();
	auto it = m.begin();
	for (int i = 0; i < w.r; ++i) for (int j = 0; j < w.c; ++j, ++it)
	{
		T v(0);
		if (e != w.a.end() && e->first.first == i && e->first.second == j) { v = e->second; ++e; }
		CK(m.at(i, j) == v, "%s: at(%d,%d) is %s, expected %s", what, i, j, str(m.at(i, j)).c_str(), str(v).c_str());
		CK(it != m.end() && (int)it.row() == i && (int)it.column() == j && *it == v, "%s: the walk is wrong at (%d,%d)", what, i, j);
		CK(m.linear_at((size_t)i * w.c + j) == v && m.has(i, j) == (v != T(0)), "%s: linear_at or has at (%d,%d)", what, i, j);
	}
	CK(it == m.end(), "%s: the walk does not end", what);
}
}
