// C08: vector algebra, slicing, searching, iteration
#include "common.h"
#include "wide.h"
#include "extreme.h"

namespace vf {	// names the library may use as well
using namespace NS;

template<class T> using Vec = std::vector<T>;
template<class T, class W> void same(mc::Ctx& c, const W& v, const Vec<T>& r, const char* what)
{
	CK(v.size() == r.size(), "%s: %d elements instead of %d", what, (int)v.size(), (int)r.size());
	for (size_t i = 0; i < r.size(); ++i)
	{
		CK(v.at(i) == r[i], "%s: element %d is %s, expected %s", what, (int)i, str(v.at(i)).c_str(), str(r[i]).c_str());
		CK(v[i] == r[i] && v.linear_at(i) == r[i], "%s: element %d differs by the way of access", what, (int)i);
	}
	size_t k = 0;
	for (auto it = v.begin(); it != v.end(); ++it)
	{
		CK(k < r.size() && *it == r[k] && it.isValid(), "%s: iteration shows %s at step %d", what, str(*it).c_str(), (int)k);
		auto o = it;
		const auto p = o++;
		CK(*p == r[k] && p == it && o != it && (k + 1 < r.size() ? *o == r[k + 1] : o == v.end()), "%s: post-increment at step %d", what, (int)k);
		++k;
	}
	CK(!v.end().isValid() && v.begin().isValid() == !r.empty(), "%s: validity of the ends of the range", what);
	CK(k == r.size(), "%s: iteration shows %d elements", what, (int)k);
}
template<class W, class T> struct Make;
template<class T> struct Make<DynamicVector<T>, T> { static DynamicVector<T> m(const Vec<T>& v) { DynamicVector<T> x(v.size()); for (size_t i = 0; i < v.size(); ++i) x.set(i, v[i]); return x; } static const bool fixed = false; };
template<class T, size_t N> struct Make<Vector<T, std::array<T, N> >, T> { static Vector<T, std::array<T, N> > m(const Vec<T>& v) { Vector<T, std::array<T, N> > x; for (size_t i = 0; i < v.size(); ++i) x.set(i, v[i]); return x; } static const bool fixed = true; };
template<class T> std::string text(const Vec<T>& v) { std::string s = "("; for (auto& x : v) s += (s.size() > 1 ? "," : "") + str(x); return s + ")"; }

template<class T> Vec<T> ew(const Vec<T>& a, const Vec<T>& b, int op)
{
	Vec<T> r(a.size());
	for (size_t i = 0; i < a.size(); ++i) r[i] = op == 0 ? a[i] + b[i] : op == 1 ? a[i] - b[i] : op == 2 ? a[i] * b[i] : a[i] / b[i];
	return r;
}
template<class T> Vec<T> full(size_t n, T v) { return Vec<T>(n, v); }

// Divisors for which quotients are exact however they are computed
bool okDiv(double x) { int e; return x != 0 && std::abs(std::frexp(x, &e)) == 0.5; }
bool okDiv(float x) { return okDiv((double)x); }
bool okDiv(int x) { return x != 0; }
template<class R> bool okDiv(const std::complex<R>& x) { return okDiv((double)std::norm(x)); }
template<class T> bool okDivs(const Vec<T>& v) { for (auto& x : v) if (!okDiv(x)) return false; return true; }
bool small(double x) { return std::abs(x) <= 64 && x * 16 == std::floor(x * 16); }
template<class R> bool small(const std::complex<R>& x) { return small((double)x.real()) && small((double)x.imag()); }

// Histories of operations on a pair of vectors
template<class W, class T, int N>
struct Chain
{
	struct State { W a, b; Vec<T> ra, rb; };
	int variants() { return 4; }
	void init(int v, State& s)
	{
		for (int i = 0; i < N; ++i)
		{
			s.ra.push_back(V<T>::v(v == 0 ? 0 : v == 1 ? 1 + i : v == 2 ? 2 - i % 2 : 2 + i * 2));
			s.rb.push_back(V<T>::v(v == 0 ? 1 : v == 1 ? 2 : v == 2 ? 3 - i : 5 + i));
		}
		s.a = Make<W, T>::m(s.ra);
		s.b = Make<W, T>::m(s.rb);
	}
	int ops(const State&) { return 45; }
	bool apply(mc::Ctx& c, State& s, int op)
	{
		const T two(2), one(1);
		Vec<T> ra = s.ra, rb = s.rb, n;
		const T first = N ? ra[0] : T(0), last = N ? ra[N - 1] : T(0);
		static const char* names[] = {"a+=b", "a-=b", "a*=b", "a/=b", "a+=a", "a-=a", "a*=a", "a/=a", "a+=2", "a-=1", "a*=-1", "a/=2", "a+=a[0]", "a-=a[last]", "a*=a[0]", "a/=a[last]",
			"a=a+b", "a=b-a", "a=a*b", "a=b/a", "a=-a", "a=2+a", "a=1-a", "a=2*a", "a=1/a", "a=b", "swap(a,b)", "swap(a,a)", "reciprocal(a)", "fill(a,2)", "fill(a,a[last])", "a=a", "a=a+a[0]", "a=a-1", "a=a*2", "a=a/2",
			"a.set(last,1)", "a[0]=2", "a=a-a", "a=a[0]-a", "a=a[0]*a", "a=a/a[0]", "copy of a, changed", "a=(a+b)-(b-a)", "b+=a"};
		switch (op)
		{
		case 0: n = ew(ra, rb, 0); break;
		case 1: n = ew(ra, rb, 1); break;
		case 2: n = ew(ra, rb, 2); break;
		case 3: if (!okDivs(rb)) return false; n = ew(ra, rb, 3); break;
		case 4: n = ew(ra, ra, 0); break;
		case 5: n = ew(ra, ra, 1); break;
		case 6: n = ew(ra, ra, 2); break;
		case 7: if (!okDivs(ra)) return false; n = ew(ra, ra, 3); break;
		case 8: n = ew(ra, full(N, two), 0); break;
		case 9: n = ew(ra, full(N, one), 1); break;
		case 10: n = ew(ra, full(N, T(-1)), 2); break;
		case 11: n = ew(ra, full(N, two), 3); break;
		case 12: n = ew(ra, full(N, first), 0); break;
		case 13: n = ew(ra, full(N, last), 1); break;
		case 14: n = ew(ra, full(N, first), 2); break;
		case 15: if (!okDiv(last)) return false; n = ew(ra, full(N, last), 3); break;
		case 16: n = ew(ra, rb, 0); break;
		case 17: n = ew(rb, ra, 1); break;
		case 18: n = ew(ra, rb, 2); break;
		case 19: if (!okDivs(ra)) return false; n = ew(rb, ra, 3); break;
		case 20: n = ew(full(N, T(0)), ra, 1); break;
		case 21: n = ew(full(N, two), ra, 0); break;
		case 22: n = ew(full(N, one), ra, 1); break;
		case 23: n = ew(full(N, two), ra, 2); break;
		case 24: case 28: if (!okDivs(ra)) return false; n = ew(full(N, one), ra, 3); break;
		case 25: n = rb; break;
		case 26: n = rb; rb = ra; break;
		case 27: case 31: case 42: n = ra; break;
		case 29: n = full(N, two); break;
		case 30: n = full(N, last); break;
		case 32: n = ew(ra, full(N, first), 0); break;
		case 33: n = ew(ra, full(N, one), 1); break;
		case 34: n = ew(ra, full(N, two), 2); break;
		case 35: n = ew(ra, full(N, two), 3); break;
		case 36: n = ra; n[N - 1] = one; break;
		case 37: n = ra; n[0] = two; break;
		case 38: n = full(N, T(0)); break;
		case 39: n = ew(full(N, first), ra, 1); break;
		case 40: n = ew(full(N, first), ra, 2); break;
		case 41: if (!okDiv(first)) return false; n = ew(ra, full(N, first), 3); break;
		case 43: n = ew(ew(ra, rb, 0), ew(rb, ra, 1), 1); break;
		case 44: n = ra; rb = ew(rb, ra, 0); break;
		}
		for (auto& x : n) if (!small(x)) return false;
		for (auto& x : rb) if (!small(x)) return false;
		NOTE("%s; ", names[op]);
		W& a = s.a; W& b = s.b;
		const W& ca = a;
		W* res = &a;
		switch (op)
		{
		case 0: res = &(a += b); break;
		case 1: res = &(a -= b); break;
		case 2: res = &(a *= b); break;
		case 3: res = &(a /= b); break;
		case 4: res = &(a += a); break;
		case 5: res = &(a -= a); break;
		case 6: res = &(a *= a); break;
		case 7: res = &(a /= a); break;
		case 8: res = &(a += two); break;
		case 9: res = &(a -= one); break;
		case 10: res = &(a *= T(-1)); break;
		case 11: res = &(a /= two); break;
		case 12: res = &(a += a.at(0)); break;
		case 13: res = &(a -= ca[N - 1]); break;
		case 14: res = &(a *= a[0]); break;
		case 15: res = &(a /= a.at(N - 1)); break;
		case 16: a = a + b; break;
		case 17: a = b - a; break;
		case 18: a = a * b; break;
		case 19: a = b / a; break;
		case 20: a = -a; break;
		case 21: a = two + a; break;
		case 22: a = one - a; break;
		case 23: a = two * a; break;
		case 24: a = one / a; break;
		case 25: a = b; break;
		case 26: a.swap(b); break;
		case 27: a.swap(a); break;
		case 28: a.do_reciprocal(); break;
		case 29: a.fill(two); break;
		case 30: a.fill(a[N - 1]); break;
		case 31: a = ca; break;
		case 32: a = a + a.at(0); break;
		case 33: a = a - one; break;
		case 34: a = a * two; break;
		case 35: a = a / two; break;
		case 36: a.set(N - 1, one); break;
		case 37: a[0] = two; break;
		case 38: a = a - a; break;
		case 39: a = a.at(0) - a; break;
		case 40: a = a[0] * a; break;
		case 41: a = a / a[0]; break;
		case 42: { W x = a; x += two; x.set(0, V<T>::v(3)); x.swap(a); W y(a); a = x; y -= one; break; }
		case 43: a = (a + b) - (b - a); break;
		case 44: b += a; break;
		}
		CK(res == &a, "%s does not return its left operand", names[op]);
		s.ra = n;
		s.rb = rb;
		return true;
	}
	void verify(mc::Ctx& c, State& s)
	{
		same(c, s.a, s.ra, "a");
		same(c, s.b, s.rb, "b");
		CK((s.a == s.b) == (s.ra == s.rb), "a == b is %d", (int)(s.a == s.b));
		CK((s.a != s.b) == (s.ra != s.rb), "a != b is %d", (int)(s.a != s.b));
	}
	void key(const State& s, std::string& k)
	{
		for (auto v : {&s.ra, &s.rb}) k.append((const char*)v->data(), v->size() * sizeof(T));
		for (int i = 0; i < N; ++i) { T x = s.a.at(i), y = s.b.at(i); k.append((const char*)&x, sizeof x); k.append((const char*)&y, sizeof y); }
	}
};
template<class W, class T, int N, int D> void chain(mc::Ctx& c) { Chain<W, T, N> s; mc::explore(c, s, D + 1 + (c.thorough ? 1 : 0), 3); }
template<class T> using DV = DynamicVector<T>;
MC_REGISTER(chain_dyn_double_2, chain<DV<double>, double, 2, 4>);
MC_REGISTER(chain_fix_double_2, chain<FixedVector<double, 2>, double, 2, 4>);
MC_REGISTER(chain_dyn_int_3, chain<DV<int>, int, 3, 3>);
MC_REGISTER(chain_fix_int_2, chain<FixedVector<int, 2>, int, 2, 4>);
MC_REGISTER(chain_dyn_complex_2, chain<DV<cplx>, cplx, 2, 3>);
MC_REGISTER(chain_fix_complexf_3, chain<FixedVector<cplxf, 3>, cplxf, 3, 3>);
MC_REGISTER(chain_dyn_float_4, chain<DV<float>, float, 4, 3>);
MC_REGISTER(chain_dyn_double_1, chain<DV<double>, double, 1, 5>);
MC_REGISTER(chain_fix_double_3, chain<FixedVector<double, 3>, double, 3, 3>);

template<class T> bool near_(const T& a, const T& b, int n = 0) { typedef typename get_complex_internal<T>::type R; return std::abs(a - b) <= (8 + n) * std::numeric_limits<R>::epsilon() * (std::abs(b) + std::abs(a)); }
template<class W, class T> typename std::enable_if<!std::is_integral<T>::value>::type norms(mc::Ctx& c, const W& w, const Vec<T>& r)
{
	typedef typename get_complex_internal<T>::type R;
	R s = 0;
	for (auto& x : r) s += std::norm(x);
	CK(near_<T>(w.magSqr(), T(s), (int)r.size()), "squared magnitude %s, expected %s", str(w.magSqr()).c_str(), str(s).c_str());
	CK(near_<T>(w.mag(), T(std::sqrt(s)), (int)r.size()), "magnitude %s, expected %s", str(w.mag()).c_str(), str(std::sqrt(s)).c_str());
	if (s > 0)
	{
		const W n = w.normalized();
		CK(n.size() == r.size(), "normalised vector has %d elements", (int)n.size());
		for (size_t i = 0; i < r.size(); ++i) CK(near_<T>(n.at(i), r[i] / T(std::sqrt(s)), (int)r.size()), "element %d of the normalised vector is %s", (int)i, str(n.at(i)).c_str());
	}
}
template<class W, class T> typename std::enable_if<std::is_integral<T>::value>::type norms(mc::Ctx& c, const W& w, const Vec<T>& r)
{
	T s = 0;
	for (auto& x : r) s += x * x;
	CK(w.magSqr() == s, "squared magnitude %d, expected %d", (int)w.magSqr(), (int)s);
}

// every vector: slices, searches, norms, constructors
template<class W, class T, int N, int NV>
void single(mc::Ctx& c)
{
	const int64_t n = mc::ipow(NV, N);
	int d[16];
	for (int64_t x = 0; x < n; ++x)
	{
		if (!c.begin({x})) continue;
		mc::digits(x, NV, N, d);
		Vec<T> r(N);
		for (int i = 0; i < N; ++i) r[i] = V<T>::v(d[i]);
		NOTE("%s", text(r).c_str());
		const W w = Make<W, T>::m(r);
		same(c, w, r, "vector");
		norms(c, w, r);
		auto part = [&](int s, int e) { Vec<T> p(Make<W, T>::fixed ? N : e - s, T(0)); for (int i = s; i < e; ++i) p[i - s] = r[i]; return p; };
		for (int i = 0; i < N; ++i)
		{
			same(c, w.left(i), part(0, i + 1), "left");
			same(c, w.right(i), part(i, N), "right");
		}
		for (int s = 0; s <= N + 1; ++s)
			for (int e = s; e <= N + 2; ++e)
			{
				if (e > s) same(c, w.mid(s, e), part(std::min(s, N), std::min(e, N)), "mid");
				for (int v = 0; v < NV + 1; ++v)
				{
					bool h = false;
					for (int i = s; i < e && i < N; ++i) h = h || r[i] == V<T>::v(v);
					CK(w.has(s, e, V<T>::v(v)) == h, "has(%d,%d,%s) is %d", s, e, str(V<T>::v(v)).c_str(), (int)w.has(s, e, V<T>::v(v)));
				}
			}
		same(c, -w, ew(Vec<T>(N, T(0)), r, 1), "negation");
		same(c, w, r, "vector afterwards");
		if (x) c.nontrivial();
	}
}
MC_REGISTER(single_dyn_double_4, single<DV<double>, double, 4, 5>);
MC_REGISTER(single_fix_double_4, single<FixedVector<double, 4>, double, 4, 5>);
MC_REGISTER(single_dyn_complex_3, single<DV<cplx>, cplx, 3, 10>);
MC_REGISTER(single_fix_complex_3, single<FixedVector<cplx, 3>, cplx, 3, 8>);
MC_REGISTER(single_dyn_int_5, single<DV<int>, int, 5, 4>);
MC_REGISTER(single_fix_int_3, single<FixedVector<int, 3>, int, 3, 7>);
MC_REGISTER(single_dyn_float_6, single<DV<float>, float, 6, 3>);
MC_REGISTER(single_dyn_double_9, single<DV<double>, double, 9, 2>);
MC_REGISTER(single_fix_complexf_2, single<FixedVector<cplxf, 2>, cplxf, 2, 11>);
MC_REGISTER(single_dyn_double_1, single<DV<double>, double, 1, 11>);
MC_REGISTER(single_fix_float_1, single<FixedVector<float, 1>, float, 1, 11>);

inline bool near_q(int64_t, int64_t) { return false; }
inline bool near_q(int, int) { return false; }
inline bool near_q(long double a, long double b) { return near_(a, b); }
inline bool near_q(double a, double b) { return near_(a, b); }
inline bool near_q(float a, float b) { return near_(a, b); }
inline bool near_q(const cplx& a, const cplx& b) { return near_(a, b); }
inline bool near_q(const cplxf& a, const cplxf& b) { return near_(a, b); }
// every pair of vectors: the binary operators and the dot product; quotients may be rounded
template<class W, class T, int N, int NV>
void pairs(mc::Ctx& c)
{
	const int64_t n = mc::ipow(NV, N);
	int d[16];
	std::vector<Vec<T> > all;
	std::vector<W> ws;
	for (int64_t x = 0; x < n; ++x)
	{
		mc::digits(x, NV, N, d);
		Vec<T> r(N);
		for (int i = 0; i < N; ++i) r[i] = V<T>::v(d[i]);
		all.push_back(r);
		ws.push_back(Make<W, T>::m(r));
	}
	auto quot = [&](const W& q, const Vec<T>& a, const Vec<T>& b, const char* what)
	{
		CK(q.size() == a.size(), "%s: %d elements", what, (int)q.size());
		for (size_t i = 0; i < a.size(); ++i) CK(std::is_integral<T>::value ? q.at(i) == a[i] / b[i] : near_q(q.at(i), a[i] / b[i]), "%s: element %d is %s, expected %s", what, (int)i, str(q.at(i)).c_str(), str(a[i] / b[i]).c_str());
	};
	for (int64_t x = 0; x < n; ++x)
		for (int64_t y = 0; y < n; ++y)
		{
			if (!c.begin({x, y})) continue;
			const Vec<T>& a = all[x]; const Vec<T>& b = all[y];
			NOTE("%s, %s", text(a).c_str(), text(b).c_str());
			const W& v = ws[x]; const W& w = ws[y];
			same(c, v + w, ew(a, b, 0), "sum");
			same(c, v - w, ew(a, b, 1), "difference");
			same(c, v * w, ew(a, b, 2), "product");
			T dt(0);
			bool z = false;
			long double mg = 0;
			for (int i = 0; i < N; ++i) { dt += a[i] * b[i]; mg += std::abs(a[i] * b[i]); z = z || b[i] == T(0); }
			typedef typename get_complex_internal<T>::type R;
			CK(unit() == 1 ? v.dot(w) == dt : std::abs(v.dot(w) - dt) <= 8 * std::numeric_limits<R>::epsilon() * mg, "dot product %s, expected %s", str(v.dot(w)).c_str(), str(dt).c_str());
			CK((v == w) == (x == y) && (v != w) == (x != y), "comparison");
			if (!z)
			{
				quot(v / w, a, b, "quotient");
				W q = v;
				q /= w;
				quot(q, a, b, "quotient in place");
				q = w;
				q.do_reciprocal();
				quot(q, full(N, T(1)), b, "reciprocal");
			}
			if (y < NV)	// y is the scalar b[0]
			{
				same(c, v + b[0], ew(a, full(N, b[0]), 0), "sum with a scalar");
				same(c, b[0] + v, ew(a, full(N, b[0]), 0), "sum with a scalar");
				same(c, v - b[0], ew(a, full(N, b[0]), 1), "difference with a scalar");
				same(c, b[0] - v, ew(full(N, b[0]), a, 1), "scalar minus vector");
				same(c, v * b[0], ew(a, full(N, b[0]), 2), "product with a scalar");
				same(c, b[0] * v, ew(a, full(N, b[0]), 2), "product with a scalar");
				if (y) { quot(v / b[0], a, full(N, b[0]), "quotient by a scalar"); W q = v; q /= b[0]; quot(q, a, full(N, b[0]), "quotient by a scalar in place"); }
				bool za = false;
				for (auto& t : a) za = za || t == T(0);
				if (!za) quot(b[0] / v, full(N, b[0]), a, "scalar by vector");
			}
			if (x && y) c.nontrivial();
		}
}
MC_REGISTER(pairs_dyn_double_2, pairs<DV<double>, double, 2, 11>);
MC_REGISTER(pairs_fix_double_3, pairs<FixedVector<double, 3>, double, 3, 6>);
MC_REGISTER(pairs_dyn_complex_2, pairs<DV<cplx>, cplx, 2, 11>);
MC_REGISTER(pairs_fix_complex_2, pairs<FixedVector<cplx, 2>, cplx, 2, 11>);
MC_REGISTER(pairs_dyn_int_3, pairs<DV<int>, int, 3, 5>);
MC_REGISTER(pairs_fix_int_2, pairs<FixedVector<int, 2>, int, 2, 11>);
MC_REGISTER(pairs_dyn_float_4, pairs<DV<float>, float, 4, 4>);
MC_REGISTER(pairs_dyn_double_5, pairs<DV<double>, double, 5, 3>);
MC_REGISTER(pairs_dyn_complexf_3, pairs<DV<cplxf>, cplxf, 3, 5>);
// Other value types, with values a double cannot hold
MC_REGISTER(pairs_int64_2, withUnit<pairs<DV<int64_t>, int64_t, 2, 8>, UNIT_HUGE>);
MC_REGISTER(pairs_fix_int64_2, withUnit<pairs<FixedVector<int64_t, 2>, int64_t, 2, 8>, UNIT_HUGE>);
MC_REGISTER(pairs_long_double_2, withUnit<pairs<DV<long double>, long double, 2, 8>, UNIT_ODD>);
MC_REGISTER(single_int64_3, withUnit<single<DV<int64_t>, int64_t, 3, 6>, UNIT_HUGE>);
MC_REGISTER(single_long_double_3, withUnit<single<DV<long double>, long double, 3, 6>, UNIT_ODD>);
// Values of other magnitudes
MC_REGISTER(pairs_tiny_2, withUnit<pairs<DV<double>, double, 2, 8>, UNIT_TINY>);
MC_REGISTER(pairs_odd_fix_2, withUnit<pairs<FixedVector<double, 2>, double, 2, 8>, UNIT_ODD>);
MC_REGISTER(pairs_huge_3, withUnit<pairs<DV<double>, double, 3, 4>, UNIT_HUGE>);
MC_REGISTER(pairs_odd_complex_2, withUnit<pairs<DV<cplx>, cplx, 2, 7>, UNIT_ODD>);
MC_REGISTER(single_tiny_3, withUnit<single<DV<double>, double, 3, 5>, UNIT_TINY>);
MC_REGISTER(single_odd_fix_3, withUnit<single<FixedVector<double, 3>, double, 3, 5>, UNIT_ODD>);
MC_REGISTER(single_huge_complex_2, withUnit<single<DV<cplx>, cplx, 2, 8>, UNIT_HUGE>);
MC_REGISTER(single_tiny_fix_complex_2, withUnit<single<FixedVector<cplx, 2>, cplx, 2, 8>, UNIT_TINY>);

// Quotients by a scalar and of a scalar
template<class W, class T> void quotients(mc::Ctx& c, const W& v, const Vec<T>& a, T f)
{
	const W q = v / f, r = f / v;
	W z = v;
	z /= f;
	for (size_t i = 0; i < a.size(); ++i)
	{
		const T e = a[i] / f, g = f / a[i];
		CK(std::is_integral<T>::value ? q.at(i) == e && z.at(i) == e : near_q(q.at(i), e) && near_q(z.at(i), e), "quotient by %s: element %d is %s, in place %s, expected %s", str(f).c_str(), (int)i, str(q.at(i)).c_str(), str(z.at(i)).c_str(), str(e).c_str());
		CK(std::is_integral<T>::value ? r.at(i) == g : near_q(r.at(i), g), "quotient of %s: element %d is %s, expected %s", str(f).c_str(), (int)i, str(r.at(i)).c_str(), str(g).c_str());
	}
}

// Long vectors: every length up to 70 (thorough 140), one element that differs at every place
template<class W, class T> void longCase(mc::Ctx& c, int n)
{
		for (int p = 0; p < n; ++p)
		{
			if (!c.begin({n, p})) continue;
			Vec<T> a(n), b(n);
			for (int i = 0; i < n; ++i) { a[i] = V<T>::v(1 + (i * 5) % 11); b[i] = V<T>::v(1 + (i * 3 + 1) % 3); }
			b[p] = T(8);
			a[p] = T(64);
			NOTE("%s, %s", text(a).c_str(), text(b).c_str());
			const W v = Make<W, T>::m(a), w = Make<W, T>::m(b);
			same(c, v + w, ew(a, b, 0), "sum");
			same(c, v - w, ew(a, b, 1), "difference");
			same(c, v * w, ew(a, b, 2), "product");
			{
				const W q = v / w;
				for (int i = 0; i < n; ++i) CK(std::is_integral<T>::value ? q.at(i) == a[i] / b[i] : near_q(q.at(i), a[i] / b[i]), "quotient: element %d is %s, expected %s", i, str(q.at(i)).c_str(), str(a[i] / b[i]).c_str());
			}
			quotients(c, v, a, b[p]);
			same(c, v - a[p], ew(a, full(n, a[p]), 1), "difference with a scalar");
			same(c, a[p] + v, ew(a, full(n, a[p]), 0), "scalar plus vector");
			same(c, T(-2) * v, ew(a, full(n, T(-2)), 2), "scalar times vector");
			same(c, v + a[p], ew(a, full(n, a[p]), 0), "sum with a scalar");
			same(c, a[p] - v, ew(full(n, a[p]), a, 1), "scalar minus vector");
			same(c, v * T(-2), ew(a, full(n, T(-2)), 2), "product with a scalar");
			same(c, -v, ew(full(n, T(0)), a, 1), "negation");
			W z = v; z += z; same(c, z, ew(a, a, 0), "a += a");
			z = v; z -= z; same(c, z, full(n, T(0)), "a -= a");
			z = v; z *= z.at(p); same(c, z, ew(a, full(n, a[p]), 2), "a *= a[p]");
			z = v; z.fill(z[p]); same(c, z, full(n, a[p]), "fill");
			z = v; W y = w; z.swap(y); same(c, z, b, "swap"); same(c, y, a, "swap");
			T dt(0);
			for (int i = 0; i < n; ++i) dt += a[i] * b[i];
			CK(v.dot(w) == dt, "dot product %s, expected %s", str(v.dot(w)).c_str(), str(dt).c_str());
			norms(c, v, a);
			z = v;
			CK(z == v && !(z != v), "comparison of equal vectors");
			z.set(p, T(7));
			CK(!(z == v) && z != v, "comparison of vectors that differ at %d", p);
			auto part = [&](int s, int e) { Vec<T> r(a.begin() + s, a.begin() + e); if (Make<W, T>::fixed) r.resize(n, T(0)); return r; };
			same(c, v.left(p), part(0, p + 1), "left");
			same(c, v.right(p), part(p, n), "right");
			for (int e = p + 1; e <= n; e += 1 + (n - p) / 9) same(c, v.mid(p, e), part(p, e), "mid");
			for (int s = 0; s <= n; s += 1 + n / 9)
				for (int e = s; e <= n; e += 1 + n / 9)
					CK(v.has(s, e, T(64)) == (s <= p && p < e), "has(%d,%d,64) is %d", s, e, (int)v.has(s, e, T(64)));
			c.nontrivial();
		}
}
template<class T> void longOnes(mc::Ctx& c) { for (int n = 7; n <= (c.thorough ? 140 : 70); n += c.thorough || n < 20 ? 1 : 3) longCase<DV<T>, T>(c, n); }
template<class T, int N> struct LongFixed { static void run(mc::Ctx& c) { longCase<FixedVector<T, N>, T>(c, N); LongFixed<T, N - 1>::run(c); } };
template<class T> struct LongFixed<T, 4> { static void run(mc::Ctx&) {} };
MC_REGISTER(long_fixed_double, [](mc::Ctx& c) { LongFixed<double, 20>::run(c); longCase<FixedVector<double, 33>, double>(c, 33); longCase<FixedVector<double, 300>, double>(c, 300); });
MC_REGISTER(long_fixed_complex, [](mc::Ctx& c) { LongFixed<cplx, 9>::run(c); });
MC_REGISTER(long_int64, longOnes<int64_t>);
MC_REGISTER(long_long_double, longOnes<long double>);
MC_REGISTER(long_double, longOnes<double>);
MC_REGISTER(long_complex, longOnes<cplx>);
MC_REGISTER(long_int, longOnes<int>);
MC_REGISTER(long_float, longOnes<float>);

// Indices beyond 8 and 16 bits: one element that differs, at the edges of the ranges
template<class T> void wideOnes(mc::Ctx& c)
{
	typedef DV<T> W;
	for (int n : {255, 256, 257, 300, 32768, 32769, 65535, 65536, 65537, 70000})
		for (int p : edgesOf(n))
		{
			if (!c.begin({n, p})) continue;
			NOTE("%d elements, another one at %d", n, p);
			Vec<T> a(n), b(n);
			for (int i = 0; i < n; ++i) { a[i] = V<T>::v(1 + (i * 5) % 11); b[i] = V<T>::v(1 + (i * 3 + 1) % 3); }
			b[p] = T(8);
			a[p] = T(64);
			const W v = Make<W, T>::m(a), w = Make<W, T>::m(b);
			same(c, v + w, ew(a, b, 0), "sum");
			same(c, v - w, ew(a, b, 1), "difference");
			same(c, v * w, ew(a, b, 2), "product");
			same(c, v * T(-2), ew(a, full(n, T(-2)), 2), "product with a scalar");
			same(c, a[p] - v, ew(full(n, a[p]), a, 1), "scalar minus vector");
			same(c, v / T(2), ew(a, full(n, T(2)), 3), "quotient by a scalar");
			quotients(c, v, a, b[p]);
			same(c, v + a[p], ew(a, full(n, a[p]), 0), "sum with a scalar");
			same(c, v - a[p], ew(a, full(n, a[p]), 1), "difference with a scalar");
			same(c, a[p] + v, ew(a, full(n, a[p]), 0), "scalar plus vector");
			same(c, T(-2) * v, ew(a, full(n, T(-2)), 2), "scalar times vector");
			same(c, -v, ew(full(n, T(0)), a, 1), "negation");
			W z = v; z += w; same(c, z, ew(a, b, 0), "a += b");
			z = v; z -= w; same(c, z, ew(a, b, 1), "a -= b");
			z = v; z *= w; same(c, z, ew(a, b, 2), "a *= b");
			T dt(0);
			for (int i = 0; i < n; ++i) dt += a[i] * b[i];
			CK(v.dot(w) == dt, "dot product %s, expected %s", str(v.dot(w)).c_str(), str(dt).c_str());
			norms(c, v, a);
			z = v;
			CK(z == v && !(z != v), "comparison of equal vectors");
			z.set(p, T(7));
			CK(!(z == v) && z != v, "comparison of vectors that differ at %d", p);
			same(c, v.left(p), Vec<T>(a.begin(), a.begin() + p + 1), "left");
			same(c, v.right(p), Vec<T>(a.begin() + p, a.end()), "right");
			for (int e : edgesOf(n + 1)) { if (e > p) same(c, v.mid(p, e), Vec<T>(a.begin() + p, a.begin() + e), "mid"); }
			for (int s : edgesOf(n)) CK(v.has(s, n, T(64)) == (s <= p) && v.has(0, s, T(64)) == (p < s), "has() from or to %d", s);
			c.nontrivial();
		}
}
MC_REGISTER(wide_double, wideOnes<double>);
MC_REGISTER(wide_int, wideOnes<int>);

// Values of every magnitude, in all pairs: comparisons, sums and differences are those of the elements
template<class W, class T, int N> void extremes(mc::Ctx& c)
{
	const std::vector<T> x = Extreme<T>::all();
	for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < x.size(); ++j) for (int p = 0; p < N; ++p) for (int k = 0; k < 3; ++k)
	{
		if (!c.begin({(int64_t)i, (int64_t)j, p, k})) continue;
		Vec<T> a(N, T(0));
		if (k) for (auto& v : a) v = k == 1 ? T(3) : x[(i + j) % x.size()];
		Vec<T> b = a;
		a[p] = x[i];
		b[p] = x[j];
		NOTE("%s, %s", text(a).c_str(), text(b).c_str());
		const W v = Make<W, T>::m(a), w = Make<W, T>::m(b);
		const bool eq = x[i] == x[j];
		CK((v == w) == eq && (v != w) == !eq && (w == v) == eq, "a == b is %d, a != b is %d", (int)(v == w), (int)(v != w));
		for (size_t q = 0; q < x.size(); ++q) CK(v.has(0, N, x[q]) == (std::find(a.begin(), a.end(), x[q]) != a.end()), "has(%s)", str(x[q]).c_str());
		W z = v, y = w;
		z.swap(y);
		same(c, z, b, "swap");
		same(c, v.right(p), Make<W, T>::fixed ? [&] { Vec<T> r(N, T(0)); std::copy(a.begin() + p, a.end(), r.begin()); return r; }() : Vec<T>(a.begin() + p, a.end()), "right");
		const Vec<T> s = ew(a, b, 0), d = ew(a, b, 1);
		bool in = true;
		for (int q = 0; q < N; ++q) in = in && sumIn(a[q], b[q]) && usual(s[q]) && usual(d[q]);
		if (in)
		{
			same(c, v + w, s, "a + b");
			same(c, v - w, d, "a - b");
			z = v; z += w; same(c, z, s, "a += b");
			z = v; z -= w; same(c, z, d, "a -= b");
			if (k == 2 && N == 1) { same(c, v + x[j], s, "a + scalar"); same(c, x[i] - w, d, "scalar - b"); }
		}
		c.nontrivial();
	}
}
MC_REGISTER(extreme_double_3, extremes<DV<double>, double, 3>);
MC_REGISTER(extreme_fix_double_2, extremes<FixedVector<double, 2>, double, 2>);
MC_REGISTER(extreme_float_1, extremes<DV<float>, float, 1>);
MC_REGISTER(extreme_int_2, extremes<DV<int>, int, 2>);
MC_REGISTER(extreme_fix_int_1, extremes<FixedVector<int, 1>, int, 1>);
MC_REGISTER(extreme_long_double_2, extremes<DV<long double>, long double, 2>);
MC_REGISTER(extreme_int64_2, extremes<DV<int64_t>, int64_t, 2>);
MC_REGISTER(extreme_fix_int64_1, extremes<FixedVector<int64_t, 1>, int64_t, 1>);
MC_REGISTER(extreme_complex_2, extremes<DV<cplx>, cplx, 2>);
MC_REGISTER(extreme_fix_complexf_1, extremes<FixedVector<cplxf, 1>, cplxf, 1>);

// sizes: resizing, assignment between sizes, literals, swap between sizes
MC_SECTION(sizes)
{
	typedef double T;
	for (int n = 0; n <= 6; ++n)
		for (int m = 0; m <= 6; ++m)
		{
			if (!c.begin({n, m})) continue;
			Vec<T> a(n), b(m);
			for (int i = 0; i < n; ++i) a[i] = i + 1;
			for (int i = 0; i < m; ++i) b[i] = -i - 1;
			DV<T> v = Make<DV<T>, T>::m(a), w = Make<DV<T>, T>::m(b);
			v.swap(w);
			same(c, v, b, "swapped vectors of different sizes");
			same(c, w, a, "swapped vectors of different sizes");
			w = v;
			same(c, w, b, "assignment to a vector of another size");
			w.resize(n);
			Vec<T> r = b;
			r.resize(n);
			same(c, w, r, "resized vector");
			same(c, v, b, "source of the assignment");
			c.nontrivial();
		}
	if (!c.begin({100})) return;
	same(c, DV<T>({1, -2, 3}), Vec<T>({1, -2, 3}), "literal");
	same(c, FixedVector<T, 3>({1, -2, 3}), Vec<T>({1, -2, 3}), "literal");
	same(c, FixedVector<T, 4>({1, -2}), Vec<T>({1, -2, 0, 0}), "short literal");
	same(c, FixedVector<int, 3>(), Vec<int>({0, 0, 0}), "default fixed vector");
	same(c, DV<cplx>(3), Vec<cplx>(3, cplx(0)), "dynamic vector of a size");
}

}
using namespace vf;

int main(int argc, char** argv)
{
	mc::Meta m;
	m.property = "C08";
	m.level = "model_checking";
	m.rule = "a state is a pair of vectors, transitions are 45 operations including those where the operand is the vector itself or one of its elements; further sections enumerate all vectors and all pairs over a value table";
	m.assumptions = {"values are dyadic numbers up to 64 in the histories, so that all results are exact; quotients, magnitudes elsewhere are compared within 8 units of rounding"};
	return mc::main_(argc, argv, m);
}
