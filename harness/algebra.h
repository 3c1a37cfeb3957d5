// Element-wise algebra of matrices: exploration of chains of operations and exhaustive operand pairs.
// Used for sparse (C03) and for dense and fixed-size matrices (C04).
#pragma once
#include "common.h"
#include "extreme.h"

namespace vf {	// names the library may use as well
using namespace NS;

template<class M> struct Kind;
template<class T> struct Kind<SparseMatrix<T> >
{
	typedef SparseMatrix<T> M;
	static M make(const Ref<T>& r) { return makeS(r); }
	static void same(mc::Ctx& c, const M& m, const Ref<T>& r, const char* w) { sameSparse(c, m, r, w); }
	static bool equalThrows() { return false; }
};
template<class T> struct Kind<DenseMatrix<T> >
{
	typedef DenseMatrix<T> M;
	static M make(const Ref<T>& r) { return makeD(r); }
	static void same(mc::Ctx& c, const M& m, const Ref<T>& r, const char* w) { sameDense(c, m, r, w); }
	static bool equalThrows() { return true; }
};
template<class T, Dimension A, Dimension B> struct Kind<FixedMatrix<T, A, B> >
{
	typedef FixedMatrix<T, A, B> M;
	static M make(const Ref<T>& r) { return makeF<M>(r); }
	static void same(mc::Ctx& c, const M& m, const Ref<T>& r, const char* w) { sameDense(c, m, r, w); }
	static bool equalThrows() { return true; }
};

template<class M, class MT>
void sameT(mc::Ctx& c, const MT& m, const Ref<typename M::value_type>& r, const char* w) { Kind<MT>::same(c, m, r, w); }

template<class T> Ref<T> ew(const Ref<T>& a, const Ref<T>& b, int op)
{
	Ref<T> x(a.r, a.c);
	for (size_t i = 0; i < a.a.size(); ++i) x.a[i] = op == 0 ? T(a.a[i] + b.a[i]) : op == 1 ? T(a.a[i] - b.a[i]) : T(a.a[i] * b.a[i]);
	return x;
}
template<class T> Ref<T> sc(const Ref<T>& a, T f) { Ref<T> x = a; for (auto& v : x.a) v *= f; return x; }
template<class T> Ref<T> conjR(const Ref<T>& a) { Ref<T> x = a; for (auto& v : x.a) v = NS::complex_conj(v); return x; }
template<class T> bool small(const Ref<T>& a) { for (auto& v : a.a) if (std::abs(v) > 2000) return false; return true; }

// Chains.  R, C: shape;  INIT: number of values an initial entry can have
template<class M, int R, int C, int INIT>
struct Chain
{
	typedef typename M::value_type T;
	struct State { M a, b; Ref<T> ra, rb; };
	int variants() { return (int)std::min<uint64_t>(mc::ipow(INIT, 2 * R * C), 60000); }
	void init(int v, State& s)
	{
		s.ra = Ref<T>(R, C);
		s.rb = Ref<T>(R, C);
		for (int i = 0; i < 2 * R * C; ++i)
		{
			(i < R * C ? s.ra.a[i] : s.rb.a[i - R * C]) = V<T>::v(v % INIT);
			v /= INIT;
		}
		s.a = Kind<M>::make(s.ra);
		s.b = Kind<M>::make(s.rb);
	}
	int ops(const State&) { return 30; }
	template<class X> static auto square(X& x, int) -> decltype(x = x.transpose(), true) { x = x.transpose(); return true; }
	template<class X> static bool square(X&, long) { return false; }
	template<class X> static auto squareH(X& x, int) -> decltype(x = x.adjugate(), true) { x = x.adjugate(); return true; }
	template<class X> static bool squareH(X&, long) { return false; }
	bool apply(mc::Ctx& c, State& s, int op)
	{
		M &a = s.a, &b = s.b;
		Ref<T> &ra = s.ra, &rb = s.rb;
		Ref<T> ea = ra, eb = rb;
		#define STEP(N, WHAT, EXPECT, DO) case N: EXPECT; if (!small(ea) || !small(eb)) return false; NOTE("%s\n", WHAT); { DO; } break;
		T f(0);
		switch (op)
		{
		STEP(0, "A += B", ea = ew(ra, rb, 0), M& x = (a += b); CK(&x == &a, "A += B returns another object"))
		STEP(1, "A -= B", ea = ew(ra, rb, 1), M& x = (a -= b); CK(&x == &a, "A -= B returns another object"))
		STEP(2, "A *= B", ea = ew(ra, rb, 2), M& x = (a *= b); CK(&x == &a, "A *= B returns another object"))
		STEP(3, "A += A", ea = ew(ra, ra, 0), a += a)
		STEP(4, "A -= A", ea = ew(ra, ra, 1), a -= a)
		STEP(5, "A *= A", ea = ew(ra, ra, 2), a *= a)
		STEP(6, "A *= 2", ea = sc(ra, T(2)), a *= T(2))
		STEP(7, "A *= -1", ea = sc(ra, T(-1)), a *= T(-1))
		STEP(8, "A *= 0", ea = sc(ra, T(0)), a *= T(0))
		case 9: case 10:	// the scalar is an element of A
		{
			auto it = a.begin();
			if (it == a.end()) return false;
			if (op == 10) { auto n = it; for (++n; n != a.end(); ++n) it = n; }
			T& e = *it;
			f = e;
			ea = sc(ra, f);
			if (!small(ea)) return false;
			NOTE("A *= its own element %s\n", str(f).c_str());
			a *= e;
			break;
		}
		STEP(11, "A.swap(B)", (ea = rb, eb = ra), a.swap(b))
		STEP(12, "A.swap(A)", , a.swap(a))
		STEP(13, "A = B", ea = rb, a = b)
		STEP(14, "A = A", , a = *&a)
		STEP(15, "A = A + B", ea = ew(ra, rb, 0), a = a + b)
		STEP(16, "A = B - A", ea = ew(rb, ra, 1), a = b - a)
		STEP(17, "A = A * B", ea = ew(ra, rb, 2), a = a * b)
		STEP(18, "A = -A", ea = sc(ra, T(-1)), a = -a)
		STEP(19, "A = A * 2", ea = sc(ra, T(2)), a = a * T(2))
		STEP(20, "A = -2 * A", ea = sc(ra, T(-2)), a = T(-2) * a)
		STEP(21, "A = conj(A)", ea = conjR(ra), a = a.conjugate())
		STEP(22, "A = transpose(transpose(A))", , a = a.transpose().transpose())
		STEP(23, "A = adjugate(transpose(A))", ea = conjR(ra), a = a.transpose().adjugate())
		case 24: if (R != C) return false; NOTE("A = transpose(A)\n"); ea = ra.t(); if (!square(a, 0)) return false; break;
		case 25: if (R != C) return false; NOTE("A = adjugate(A)\n"); ea = conjR(ra.t()); if (!squareH(a, 0)) return false; break;
		STEP(26, "A.set(0, last, 1)", ea(0, C - 1) = T(1), a.set(0, C - 1, T(1)))
		STEP(27, "A.set(last, 0, 0)", ea(R - 1, 0) = T(0), a.set(R - 1, 0, T(0)))
		STEP(28, "A.set(last, last, -2)", ea(R - 1, C - 1) = T(-2), a.set(R - 1, C - 1, T(-2)))
		case 29:
		{
			auto it = a.begin();
			if (it == a.end()) return false;
			NOTE("A.erase(A.begin())\n");
			ea(it.row(), it.column()) = T(0);
			a.erase(it);
			break;
		}
		default: return false;
		}
		#undef STEP
		ra = ea;
		rb = eb;
		return true;
	}
	void verify(mc::Ctx& c, State& s)
	{
		Kind<M>::same(c, s.a, s.ra, "A");
		Kind<M>::same(c, s.b, s.rb, "B");
		const bool eq = s.ra == s.rb;
		CK((s.a == s.b) == eq && (s.a != s.b) == !eq && (s.b == s.a) == eq, "comparison of %s and %s yields %d", s.ra.text().c_str(), s.rb.text().c_str(), (int)(s.a == s.b));
		M copy(s.a);
		CK(copy == s.a && !(copy != s.a), "a copy differs from %s", s.ra.text().c_str());
	}
	void key(const State& s, std::string& k)
	{
		for (auto& x : s.ra.a) { T v = x; v += T(0); k.append((const char*)&v, sizeof v); }
		for (auto& x : s.rb.a) { T v = x; v += T(0); k.append((const char*)&v, sizeof v); }
	}
};

template<class M, int R, int C, int INIT, int DEPTH, int TDEPTH>
void chains(mc::Ctx& c)
{
	Chain<M, R, C, INIT> s;
	mc::explore(c, s, c.thorough ? TDEPTH : DEPTH, 1);
}

// A matrix that came out of an operation can be written to like any other
template<class M, class T> void reuse(mc::Ctx& c, M z, Ref<T> r, const char* what)
{
	for (int i = 0; i < r.r; ++i) { z.set(i, (i * 3) % r.c, T(4)); r(i, (i * 3) % r.c) = T(4); }
	z.set(0, r.c - 1, T(0)); r(0, r.c - 1) = T(0);
	Kind<M>::same(c, z, r, what);
	for (int i = r.r - 1; i >= 0; i -= 2) { z.set(i, r.c / 2, T(-5)); r(i, r.c / 2) = T(-5); }
	Kind<M>::same(c, z, r, what);
}
template<class M, class T> void pairCase(mc::Ctx& c, const Ref<T>& ra, const Ref<T>& rb, bool unary)
{
	const int n = ra.r * ra.c;
	const M a = Kind<M>::make(ra), b = Kind<M>::make(rb);
	Kind<M>::same(c, a + b, ew(ra, rb, 0), "A + B");
	Kind<M>::same(c, a - b, ew(ra, rb, 1), "A - B");
	Kind<M>::same(c, a * b, ew(ra, rb, 2), "A * B");
	M z = a; z += b; Kind<M>::same(c, z, ew(ra, rb, 0), "A += B");
	z = a; z -= b; Kind<M>::same(c, z, ew(ra, rb, 1), "A -= B");
	z = a; z *= b; Kind<M>::same(c, z, ew(ra, rb, 2), "A *= B");
	CK((a == b) == (ra == rb) && (a != b) != (ra == rb), "A == B is %d", (int)(a == b));
	if (unary)
	{
		sameT<M>(c, a.transpose(), ra.t(), "transpose");
		sameT<M>(c, a.conjugate(), conjR(ra), "conjugate");
		sameT<M>(c, a.adjugate(), conjR(ra.t()), "adjugate");
		Kind<M>::same(c, -a, sc(ra, T(-1)), "-A");
		for (int k = 0; k < 4; ++k)
		{
			const T f = V<T>::v(k);
			Kind<M>::same(c, a * f, sc(ra, f), "A * f");
			Kind<M>::same(c, f * a, sc(ra, f), "f * A");
		}
		// one entry differs
		for (int i = 0; i < n; ++i)
		{
			M d = a;
			d.linear_set(i, ra.a[i] + V<T>::v(1));
			CK(!(d == a) && d != a && !(a == d), "matrices that differ at linear position %d compare equal", i);
			typedef typename get_complex_internal<T>::type R;
			if (std::is_integral<R>::value) continue;
			// the smallest differences count as well
			d.linear_set(i, ra.a[i] == T(0) ? T(std::numeric_limits<R>::min()) : ra.a[i] * T(1 + 2 * std::numeric_limits<R>::epsilon()));
			CK(!(d == a) && d != a && !(a == d), "matrices that differ slightly at linear position %d compare equal", i);
		}
	}
	Kind<M>::same(c, a, ra, "A afterwards");
	Kind<M>::same(c, b, rb, "B afterwards");
	if (unary || z.rows() > 4)
	{
		z = a; z += b; reuse(c, z, ew(ra, rb, 0), "written to after A += B");
		z = a; z -= b; reuse(c, z, ew(ra, rb, 1), "written to after A -= B");
		z = a; z *= b; reuse(c, z, ew(ra, rb, 2), "written to after A *= B");
		z = a; z *= T(0); reuse(c, z, sc(ra, T(0)), "written to after A *= 0");
		z = a; z -= z; reuse(c, z, sc(ra, T(0)), "written to after A -= A");
		z = a; z.swap(z); reuse(c, z, ra, "written to after a swap with itself");
		auto t = a.transpose(); reuse(c, t, ra.t(), "written to after a transposition");
	}
}

// All pairs of operands: INIT values per entry (MODE 0), or every pair of 0/1 patterns where the
// values depend on the position and half of the common entries cancel (MODE 1)
template<class M, int R, int C, int INIT, int MODE>
void pairs(mc::Ctx& c)
{
	typedef typename M::value_type T;
	const int n = R * C;
	const int64_t all = (int64_t)mc::ipow(INIT, n);
	for (int64_t x = 0; x < all; ++x)
		for (int64_t y = 0; y < all; ++y)
		{
			if (!c.begin({x, y})) continue;
			Ref<T> ra(R, C), rb(R, C);
			int da[32], db[32];
			mc::digits(x, INIT, n, da);
			mc::digits(y, INIT, n, db);
			for (int i = 0; i < n; ++i)
			{
				if (MODE == 0) { ra.a[i] = V<T>::v(da[i]); rb.a[i] = V<T>::v(db[i]); }
				else
				{
					const T e = V<T>::v(1 + (i * 5) % 7);
					ra.a[i] = da[i] ? e : T(0);
					rb.a[i] = db[i] ? (i % 3 == 0 ? -e : i % 3 == 1 ? e : V<T>::v(2 + i % 4)) : T(0);
				}
			}
			NOTE("A = %s, B = %s", ra.text().c_str(), rb.text().c_str());
			pairCase<M>(c, ra, rb, y == 0);
			c.nontrivial();
			c.state();
			c.transition(6);
			c.trace();
		}
}

// Larger shapes: all pairs of structured patterns
template<class M, int R, int C>
void scalePairs(mc::Ctx& c)
{
	typedef typename M::value_type T;
	for (int x = 0; x < PATTERNS; ++x)
		for (int y = 0; y < PATTERNS; ++y)
			for (int sh = 0; sh < (c.thorough ? 11 : 3); ++sh)
			{
				if (!c.begin({x, y, sh})) continue;
				const Ref<T> ra = patterned<T>(x, R, C), rb = sh == 0 ? sc(patterned<T>(y, R, C), T(-1)) : patterned<T>(y, R, C, sh - 1);
				NOTE("A = %s, B = %s", ra.text().c_str(), rb.text().c_str());
				pairCase<M>(c, ra, rb, y == x || y == 0);
				c.nontrivial(); c.state(); c.transition(6); c.trace();
			}
}

// Values of every magnitude, in all pairs: comparisons, sums and differences are those of the entries
template<class M, int R, int C>
void extremes(mc::Ctx& c)
{
	typedef typename M::value_type T;
	const std::vector<T> x = Extreme<T>::all();
	for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < x.size(); ++j) for (int p = 0; p < R * C; ++p) for (int k = 0; k < 3; ++k)
	{
		if (!c.begin({(int64_t)i, (int64_t)j, p, k})) continue;
		Ref<T> ra(R, C);
		if (k) for (auto& v : ra.a) v = k == 1 ? T(3) : x[(i + j) % x.size()];
		Ref<T> rb = ra;
		ra.a[p] = x[i];
		rb.a[p] = x[j];
		NOTE("A = %s, B = %s", ra.text().c_str(), rb.text().c_str());
		const M a = Kind<M>::make(ra), b = Kind<M>::make(rb);
		const bool eq = x[i] == x[j];
		CK((a == b) == eq && (a != b) == !eq && (b == a) == eq, "A == B is %d, A != B is %d", (int)(a == b), (int)(a != b));
		Kind<M>::same(c, -a, sc(ra, T(-1)), "-A");
		Kind<M>::same(c, a.transpose().transpose(), ra, "transpose of the transpose");
		const Ref<T> s = ew(ra, rb, 0), d = ew(ra, rb, 1);
		bool in = true;
		for (int q = 0; q < R * C; ++q) in = in && sumIn(ra.a[q], rb.a[q]) && usual(s.a[q]) && usual(d.a[q]);
		if (in)
		{
			Kind<M>::same(c, a + b, s, "A + B");
			Kind<M>::same(c, a - b, d, "A - B");
			M z = a; z += b; Kind<M>::same(c, z, s, "A += B");
			z = a; z -= b; Kind<M>::same(c, z, d, "A -= B");
		}
		c.nontrivial(); c.state(); c.transition(); c.trace();
	}
}

// All shapes up to N x N, a few pairs of patterns each
template<class M, int N>
void shapePairs(mc::Ctx& c)
{
	typedef typename M::value_type T;
	static const int P[][2] = {{1, 1}, {1, 13}, {13, 4}, {7, 9}};
	for (int R = 1; R <= N; ++R)
		for (int C = 1; C <= N; ++C)
			for (int k = 0; k < 4; ++k)
			{
				if (!c.begin({R, C, k})) continue;
				const Ref<T> ra = patterned<T>(P[k][0], R, C), rb = patterned<T>(P[k][1], R, C, k);
				NOTE("A = %s, B = %s", ra.text().c_str(), rb.text().c_str());
				pairCase<M>(c, ra, rb, k == 0 ? R * C < 100 || (R + C) % 8 == 1 : k == 2 && R * C < 40);
				c.nontrivial(); c.state(); c.transition(6); c.trace();
			}
}
}
