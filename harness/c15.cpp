// C15: floating values: classification follows the IEEE encoding, comparison is a total order with NaN first, equality is reflexive.
#include "vf.h"

template <class T> struct F;
template <> struct F<double> {
	typedef DoubleValue V;
	typedef uint64_t U;
	enum { EXP = 11, MAN = 52 };
	static double of(uint64_t u) { return dblOf(u); }
	static const char* name() { return "Double"; }
	static double any(Rng& r) { return interestingD(r); }
	static bool same(double a, double b) { return sameD(a, b); }
	static double mod(double a, double b) { return ::fmod(a, b); }
};
template <> struct F<float> {
	typedef SingleValue V;
	typedef uint32_t U;
	enum { EXP = 8, MAN = 23 };
	static float of(uint32_t u) { return fltOf(u); }
	static const char* name() { return "Single"; }
	static float any(Rng& r) { return interestingF(r); }
	static bool same(float a, float b) { return sameF(a, b); }
	static float mod(float a, float b) { return ::fmodf(a, b); }
};
static int sgn(int v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }

template <class T> static void classify(Ctx& c, typename F<T>::U u) {
	typedef F<T> f;
	typedef typename f::V V;
	typedef typename f::U U;
	T v = f::of(u);
	U expMax = ((U)1 << f::EXP) - 1, e = (u >> f::MAN) & expMax, m = u & (((U)1 << f::MAN) - 1);
	bool neg = u >> (f::EXP + f::MAN);
	bool nan = e == expMax && m, inf = e == expMax && !m, sub = e == 0 && m, zero = e == 0 && !m, norm = e != 0 && e != expMax;
	bool ok = (bool)V::IsNaN(v) == nan && (bool)V::IsInfinity(v) == inf && (bool)V::IsFinite(v) == (!nan && !inf) && (bool)V::IsNormal(v) == norm && (bool)V::IsSubnormal(v) == sub &&
		(bool)V::IsPositiveInfinity(v) == (inf && !neg) && (bool)V::IsNegativeInfinity(v) == (inf && neg) && (nan || (bool)V::IsNegative(v) == neg);
	CHECK(ok, "classification", "%s bits %llx", f::name(), (unsigned long long)u);
	c.event(nan ? "NaNs" : inf ? "infinities" : sub ? "subnormals" : zero ? "zeros" : "normals");
	V box(v);
	CHECK(box.Equals(v), "value not equal to itself", "%s bits %llx", f::name(), (unsigned long long)u);
	CHECK(box.CompareTo(v) == 0, "value not equal to itself", "%s bits %llx CompareTo", f::name(), (unsigned long long)u);
}
template <class T> static int want(T a, T b) {
	if (a != a || b != b) return a != a && b != b ? 0 : a != a ? -1 : 1;
	return a < b ? -1 : a > b ? 1 : 0;
}
template <class T> static void laws(Ctx& c, T a, T b, T d) {
	typedef F<T> f;
	typedef typename f::V V;
	// the two boxes in either order of address
	static bool turn = false;
	turn = !turn;
	V box[2] = {V(turn ? a : b), V(turn ? b : a)};
	V &A = box[turn ? 0 : 1], &B = box[turn ? 1 : 0], D(d);
	int ab = sgn(A.CompareTo(b)), ba = sgn(B.CompareTo(a)), bd = sgn(B.CompareTo(d)), ad = sgn(A.CompareTo(d));
	CHECK(ab == want(a, b) && ab == -ba, "order", "%s %.17g %.17g: %d %d", f::name(), (double)a, (double)b, ab, ba);
	if (ab <= 0 && bd <= 0) CHECK(ad <= 0 && (ad < 0 || (ab == 0 && bd == 0)), "order not transitive", "%s %.17g %.17g %.17g", f::name(), (double)a, (double)b, (double)d);
	CHECK((bool)A.Equals(b) == (ab == 0) && (bool)A.Equals((Object*)&B) == (ab == 0) && (bool)B.Equals((Object*)&A) == (ab == 0), "equality disagrees with order", "%s %.17g %.17g", f::name(), (double)a, (double)b);
	CHECK(sgn(A.CompareTo((Object*)&B)) == ab && sgn(B.CompareTo((Object*)&A)) == ba, "boxed comparison differs", "%s %.17g %.17g", f::name(), (double)a, (double)b);
	T m = V::Modulus(a, b), w = f::mod(a, b);
	CHECK(f::same(m, w) || (m != m && w != w), "modulus", "%s %.17g %% %.17g gave %.17g expected %.17g", f::name(), (double)a, (double)b, (double)m, (double)w);
	c.event("triples ordered");
}
SECTION(Double, 8, 16) {
	Rng& r = c.rng;
	uint64_t n = c.n(800000, 60000000);
	for (uint64_t i = 0; i < n; i++) {
		uint64_t u = r.next();
		switch (r.below(4)) {
		case 0: u = bitsOf(interestingD(r)); break;
		case 1: u = (u & 0x800fffffffffffffULL) | (r.below(4) << 52) | (r.chance(1, 2) ? 0x7fc0000000000000ULL : 0); break;
		case 2: u &= ~(0xfffffffffffffULL >> r.below(52)); break;
		default: break;
		}
		c.bulk("Double bits", (int64_t)u);
		classify<double>(c, u);
		if (i % 4 == 0) laws<double>(c, r.chance(1, 40) ? 0.0 : dblOf(u), r.chance(1, 20) ? -0.0 : r.chance(1, 20) ? dblOf(u) : interestingD(r), r.chance(1, 3) ? dblOf(u) : interestingD(r));
	}
	c.begin(true, "Double constants");
	CHECK(DoubleValue::MaxValue == DBL_MAX && DoubleValue::MinValue == -DBL_MAX && bitsOf(DoubleValue::Epsilon) == 1 && DoubleValue::NaN != DoubleValue::NaN &&
		DoubleValue::PositiveInfinity == INFINITY && DoubleValue::NegativeInfinity == -INFINITY, "constants", "Double");
}
// every exponent, sign and boundary mantissa; strided sweep of all 2^32 single precision encodings (complete when thorough)
SECTION(Single, 8, 16) {
	Rng& r = c.rng;
	uint64_t step = c.thorough ? 7 : 1021;
	for (uint64_t u = c.shard * step; u < (1ULL << 32); u += step * c.shards) {
		c.bulk("Single bits", (int64_t)u);
		classify<float>(c, (uint32_t)u);
	}
	for (uint32_t e = 0; e < 512; e++)
		for (uint32_t m : {0u, 1u, 2u, 0x3fffffu, 0x400000u, 0x400001u, 0x7fffffu, 0x7ffffeu}) {
			uint32_t u = (e << 23) | m;
			if (!c.mine(e)) continue;
			c.bulk("Single boundary bits", u);
			classify<float>(c, u);
			CHECK(bitsOf(SingleValue::ToSingle(u)) == u || (SingleValue::ToSingle(u) != SingleValue::ToSingle(u)), "bit conversion", "%x", u);
			CHECK(SingleValue::ToUInt32(fltOf(u)) == u || fltOf(u) != fltOf(u), "bit conversion", "%x", u);
			laws<float>(c, fltOf(u), interestingF(r), interestingF(r));
		}
	uint64_t n = c.n(100000, 4000000);
	for (uint64_t i = 0; i < n; i++) {
		float a = interestingF(r), b = r.chance(1, 4) ? a : r.chance(1, 20) ? -a : interestingF(r), d = interestingF(r);
		c.begin(true, "Single %.9g %.9g %.9g", a, b, d);
		laws<float>(c, a, b, d);
	}
	for (int i = 0; i < 8; i++) {
		float a = i & 1 ? -0.0f : 0.0f, b = i & 2 ? -0.0f : 0.0f;
		c.begin(true, "Single zeros %d", i);
		laws<float>(c, a, b, 1.0f);
		laws<double>(c, a, b, 1.0);
		laws<float>(c, a, b, -0.0f);
	}
	c.begin(true, "Single constants");
	CHECK(SingleValue::MaxValue == FLT_MAX && SingleValue::MinValue == -FLT_MAX && bitsOf(SingleValue::Epsilon) == 1 && SingleValue::NaN != SingleValue::NaN &&
		SingleValue::PositiveInfinity == INFINITY && SingleValue::NegativeInfinity == -INFINITY, "constants", "Single");
}
