// C16: integer arithmetic helpers are exact over the whole range of their type or raise the specified error.
#include "vf.h"
#include <limits>

template <class T> static void minMax(Ctx& c, const char* name, T a, T b, T d) {
	T mn = Math::Min(a, b), mx = Math::Max(a, b);
	CHECK(mn == std::min(a, b) && mx == std::max(a, b), "Min/Max", "%s %s %s gave %s %s", name, dec(a).c_str(), dec(b).c_str(), dec(mn).c_str(), dec(mx).c_str());
	T got = 0;
	Ex e = run([&] { got = Math::Clamp(a, b, d); });
	if (b > d) CHECK(e == MINMAX, "clamp to an empty range", "%s %s in [%s,%s]: %s", name, dec(a).c_str(), dec(b).c_str(), dec(d).c_str(), exName(e));
	else CHECK(e == NOEX && got == std::min(std::max(a, b), d), "Clamp", "%s %s in [%s,%s] gave %s", name, dec(a).c_str(), dec(b).c_str(), dec(d).c_str(), dec(got).c_str());
	c.event(b > d ? "empty ranges refused" : "clamped");
}
template <class T> static void absSign(Ctx& c, const char* name, T v) {
	i128 w = v < 0 ? -(i128)v : (i128)v;
	double asD = 0;
	i128 exact = 0;
	Ex e = run([&] { auto g = Math::Abs(v); asD = (double)g; exact = (i128)g; });
	if (v == std::numeric_limits<T>::min()) {
		// no such magnitude in the type: overflow, or the magnitude itself in a wider result
		CHECK(e == OVERFLOWEX || (e == NOEX && asD == (double)w), "Abs of the smallest value", "%s gave %g (%s)", name, asD, exName(e));
	} else
		CHECK(e == NOEX && exact == w, "Abs", "%s %s gave %s", name, dec(v).c_str(), dec(exact).c_str());
	CHECK(Math::Sign(v) == (v > 0) - (v < 0), "Sign", "%s %s gave %d", name, dec(v).c_str(), (int)Math::Sign(v));
	c.event("signs and magnitudes");
}
template <class T> static void divRem(Ctx& c, const char* name, T a, T b) {
	T q = 0, rem = 0;
	Ex e = run([&] { q = Math::DivRem(a, b, rem); });
	if (b == 0) CHECK(e == DIV0, "division by zero", "%s: %s", name, exName(e));
	else if (b == -1 && a == std::numeric_limits<T>::min()) CHECK(e == OVERFLOWEX, "quotient beyond the type", "%s: %s", name, exName(e));
	else {
		CHECK(e == NOEX && (i128)q == (i128)a / b && (i128)rem == (i128)a % b, "DivRem", "%s %s / %s gave %s rem %s (%s)", name, dec(a).c_str(), dec(b).c_str(), dec(q).c_str(), dec(rem).c_str(), exName(e));
		c.event("divisions");
	}
}
template <class T> static void smallAll(Ctx& c, const char* name) {
	int lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
	for (int a = lo; a <= hi; a++) {
		if (!c.mine(a - lo)) continue;
		for (int b = lo; b <= hi; b++) {
			c.bulk(name, a, b);
			minMax<T>(c, name, (T)a, (T)b, (T)(a + b));
			minMax<T>(c, name, (T)(a ^ b), (T)std::min(a, b), (T)std::max(a, b));
			for (int k = 0; k < 4; k++) minMax<T>(c, name, (T)c.rng.next(), (T)std::min(a, b), (T)std::max(a, b));
		}
	}
}
SECTION(bytes, 4, 4) {
	smallAll<Byte>(c, "Byte");
	smallAll<SByte>(c, "SByte");
	for (int v = -128; v < 128; v++) { c.bulk("SByte", v); absSign<SByte>(c, "SByte", (SByte)v); }
}
SECTION(words, 4, 4) {
	for (int v = -32768; v < 32768; v++) {
		if (!c.mine(v + 32768)) continue;
		c.bulk("Int16", v);
		absSign<Int16>(c, "Int16", (Int16)v);
		for (int d : {-1, 0, 1}) {
			minMax<Int16>(c, "Int16", (Int16)v, (Int16)(v + d), 0);
			minMax<Int16>(c, "Int16", (Int16)v, 0, (Int16)(v + d));
			minMax<UInt16>(c, "UInt16", (UInt16)v, (UInt16)(v + d), 40000);
			minMax<UInt16>(c, "UInt16", (UInt16)v, 100, (UInt16)(v + d));
		}
	}
}
template <class T> static T pickNear(Rng& r, const std::vector<int64_t>& v) { return (T)((uint64_t)r.pick(v) + (uint64_t)r.range(-1, 1)); }
static void divide(Ctx& c, int64_t a, int64_t b) {
	Int64 q = 0;
	Ex e = run([&] { q = Math::Divide((Int64)a, (Int64)b); });
	if (b == 0) CHECK(e == DIV0, "division by zero", "Divide: %s", exName(e));
	else if (b == -1 && a == INT64_MIN) CHECK(e == OVERFLOWEX, "quotient beyond the type", "Divide: %s", exName(e));
	else CHECK(e == NOEX && q == a / b, "Divide", "%lld / %lld gave %lld", (long long)a, (long long)b, (long long)q);
}
// every pair of round numbers, one of them from a rotating part of all
SECTION(grid, 8, 16) {
	const std::vector<int64_t>& v = roundValues();
	size_t parts = c.thorough ? 8 : 80, first = c.rng.below(parts);
	for (size_t i = 0; i < v.size(); i++) {
		int64_t a = v[i];
		if (c.mine(i)) { c.bulk("round number", a); absSign<Int64>(c, "Int64", a); absSign<Int32>(c, "Int32", (int32_t)a); }
		for (size_t j = (first + i) % parts; j < v.size(); j += parts) {
			if (!c.mine(j / parts)) continue;
			int64_t b = v[j], d = (a >> 1) + (b >> 1);
			c.bulk("pair of round numbers", a, b);
			minMax<Int64>(c, "Int64", a, b, d);
			minMax<UInt64>(c, "UInt64", d, a, b);
			minMax<Int32>(c, "Int32", (int32_t)d, (int32_t)a, (int32_t)b);
			minMax<UInt32>(c, "UInt32", (uint32_t)a, (uint32_t)b, (uint32_t)d);
			divRem<Int64>(c, "Int64", a, b);
			divRem<Int32>(c, "Int32", (int32_t)a, (int32_t)b);
			divide(c, a, b);
			CHECK(Math::BigMul((int32_t)a, (int32_t)b) == (int64_t)(int32_t)a * (int32_t)b, "BigMul", "%d * %d", (int32_t)a, (int32_t)b);
			c.event("pairs of round numbers");
		}
	}
}
SECTION(random, 8, 16) {
	uint64_t n = c.n(400000, 10000000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		std::vector<int64_t> p{interesting64(r), interesting64(r), interesting64(r)};
		int64_t a = p[0], b = r.chance(1, 3) ? pickNear<int64_t>(r, p) : p[1], d = r.chance(1, 3) ? pickNear<int64_t>(r, p) : p[2];
		c.begin(true, "%lld %lld %lld", (long long)a, (long long)b, (long long)d);
		minMax<Int64>(c, "Int64", a, b, d);
		minMax<UInt64>(c, "UInt64", a, b, d);
		int32_t x = interesting32(r), y = r.chance(1, 3) ? x + (x < INT_MAX) : interesting32(r), z = interesting32(r);
		minMax<Int32>(c, "Int32", x, y, z);
		minMax<UInt32>(c, "UInt32", x, y, z);
		minMax<Int16>(c, "Int16", (Int16)a, (Int16)b, (Int16)d);
		minMax<UInt16>(c, "UInt16", (UInt16)a, (UInt16)b, (UInt16)d);
		absSign<Int64>(c, "Int64", a);
		absSign<Int32>(c, "Int32", x);
		divRem<Int64>(c, "Int64", a, b);
		divRem<Int32>(c, "Int32", x, y);
		if (r.chance(1, 20)) { divRem<Int64>(c, "Int64", a, 0); divRem<Int32>(c, "Int32", x, 0); divRem<Int64>(c, "Int64", INT64_MIN, -1); divRem<Int32>(c, "Int32", INT_MIN, -1); }
		CHECK(Math::BigMul(x, y) == (int64_t)x * y, "BigMul", "%d * %d", x, y);
		divide(c, a, b);
	}
}
