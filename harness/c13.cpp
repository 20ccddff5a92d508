// C13: boxed primitives: conversion is the unchecked numeric cast, comparison is numeric order, equality is same type and same value.
#include "vf.h"

static int sgn(int v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
static const char* kindName[] = {"Boolean", "Char", "SByte", "Byte", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Single", "Double"};
static const DataType kindType[] = {BooleanType, CharType, SByteType, ByteType, Int16Type, UInt16Type, Int32Type, UInt32Type, Int64Type, UInt64Type, SingleType, DoubleType};
enum { NKIND = 12 };

// A reference value: kind plus exact payload
struct Val {
	int k;
	i128 i;    // integer kinds
	double d;  // Single, Double
	bool num() const { return k >= 10; }
};
static i128 wrap(int k, int64_t v) {
	switch (k) {
	case 0: return v & 1;
	case 1: return (uint16_t)v;
	case 2: return (int8_t)v;
	case 3: return (uint8_t)v;
	case 4: return (int16_t)v;
	case 5: return (uint16_t)v;
	case 6: return (int32_t)v;
	case 7: return (uint32_t)v;
	case 8: return v;
	default: return (uint64_t)v;
	}
}
static Object* box(const Val& v) {
	switch (v.k) {
	case 0: return new BooleanValue((Boolean)(v.i != 0));
	case 1: return new CharValue((Char)v.i);
	case 2: return new SByteValue((SByte)v.i);
	case 3: return new ByteValue((Byte)v.i);
	case 4: return new Int16Value((Int16)v.i);
	case 5: return new UInt16Value((UInt16)v.i);
	case 6: return new Int32Value((Int32)v.i);
	case 7: return new UInt32Value((UInt32)v.i);
	case 8: return new Int64Value((Int64)v.i);
	case 9: return new UInt64Value((UInt64)v.i);
	case 10: return new SingleValue((Single)v.d);
	default: return new DoubleValue(v.d);
	}
}
static Val randVal(Rng& r, int k) {
	Val v{k, 0, 0};
	if (k == 10) v.d = interestingF(r);
	else if (k == 11) v.d = interestingD(r);
	else if (k >= 6 && r.chance(1, 4)) {
		// next to the middle between two neighbouring floating values, where rounding direction and double rounding show
		int top = (int)r.range(1, 63), prec = r.chance(1, 2) ? 24 : 53, cut = top + 1 - prec;
		uint64_t u = (1ULL << top) | (r.next() & ((1ULL << top) - 1));
		if (cut > 0) {
			uint64_t low = (1ULL << cut) - 1, half = 1ULL << (cut - 1);
			static const int near[] = {-2, -1, 0, 1, 2};
			uint64_t d = r.chance(1, 2) ? (uint64_t)(int64_t)near[r.below(5)] : (r.chance(1, 2) ? 1 : -1) * (1ULL << r.below(cut));
			u = (u & ~low) + (r.chance(1, 4) ? 0 : half) + d;
		}
		v.i = wrap(k, r.chance(1, 2) ? (int64_t)u : (int64_t)(0 - u));
	} else v.i = wrap(k, interesting64(r));
	return v;
}
static std::string show(const Val& v) {
	char b[80];
	if (v.num()) snprintf(b, sizeof b, "%s %.17g", kindName[v.k], v.d);
	else snprintf(b, sizeof b, "%s %s", kindName[v.k], dec(v.i).c_str());
	return b;
}
static int compareTo(Object* a, int k, const Val& b, Object* bo, bool typed) {
	switch (k) {
	case 0: return typed ? ((BooleanValue*)a)->CompareTo((Boolean)(b.i != 0)) : ((BooleanValue*)a)->CompareTo(bo);
	case 1: return typed ? ((CharValue*)a)->CompareTo((Char)b.i) : ((CharValue*)a)->CompareTo(bo);
	case 2: return typed ? ((SByteValue*)a)->CompareTo((SByte)b.i) : ((SByteValue*)a)->CompareTo(bo);
	case 3: return typed ? ((ByteValue*)a)->CompareTo((Byte)b.i) : ((ByteValue*)a)->CompareTo(bo);
	case 4: return typed ? ((Int16Value*)a)->CompareTo((Int16)b.i) : ((Int16Value*)a)->CompareTo(bo);
	case 5: return typed ? ((UInt16Value*)a)->CompareTo((UInt16)b.i) : ((UInt16Value*)a)->CompareTo(bo);
	case 6: return typed ? ((Int32Value*)a)->CompareTo((Int32)b.i) : ((Int32Value*)a)->CompareTo(bo);
	case 7: return typed ? ((UInt32Value*)a)->CompareTo((UInt32)b.i) : ((UInt32Value*)a)->CompareTo(bo);
	case 8: return typed ? ((Int64Value*)a)->CompareTo((Int64)b.i) : ((Int64Value*)a)->CompareTo(bo);
	case 9: return typed ? ((UInt64Value*)a)->CompareTo((UInt64)b.i) : ((UInt64Value*)a)->CompareTo(bo);
	case 10: return typed ? ((SingleValue*)a)->CompareTo((Single)b.d) : ((SingleValue*)a)->CompareTo(bo);
	default: return typed ? ((DoubleValue*)a)->CompareTo((Double)b.d) : ((DoubleValue*)a)->CompareTo(bo);
	}
}
static bool equalsTyped(Object* a, int k, const Val& b) {
	switch (k) {
	case 0: return ((BooleanValue*)a)->Equals((Boolean)(b.i != 0));
	case 1: return ((CharValue*)a)->Equals((Char)b.i);
	case 2: return ((SByteValue*)a)->Equals((SByte)b.i);
	case 3: return ((ByteValue*)a)->Equals((Byte)b.i);
	case 4: return ((Int16Value*)a)->Equals((Int16)b.i);
	case 5: return ((UInt16Value*)a)->Equals((UInt16)b.i);
	case 6: return ((Int32Value*)a)->Equals((Int32)b.i);
	case 7: return ((UInt32Value*)a)->Equals((UInt32)b.i);
	case 8: return ((Int64Value*)a)->Equals((Int64)b.i);
	case 9: return ((UInt64Value*)a)->Equals((UInt64)b.i);
	case 10: return ((SingleValue*)a)->Equals((Single)b.d);
	default: return ((DoubleValue*)a)->Equals((Double)b.d);
	}
}
static int order(const Val& a, const Val& b) {
	if (!a.num()) return a.i < b.i ? -1 : a.i > b.i ? 1 : 0;
	bool na = a.d != a.d, nb = b.d != b.d;
	if (na || nb) return na && nb ? 0 : na ? -1 : 1;
	return a.d < b.d ? -1 : a.d > b.d ? 1 : 0;
}

#define TOINT(T, get, lo, hi)                                                                                              \
	do {                                                                                                                   \
		T got = 0;                                                                                                         \
		if (v.num()) {                                                                                                     \
			double t = std::trunc(v.d);                                                                                    \
			if (!(t >= (double)(lo) && t < (double)(hi) + 1.0 && t - 0.0 <= (double)(hi))) break;                          \
			if ((long double)t > (long double)(hi)) break;                                                                 \
			Ex e = run([&] { got = o->get(); });                                                                           \
			CHECK(e == NOEX && got == (T)t, "boxed conversion", "%s " #get " gave %s (%s)", show(v).c_str(), dec(got).c_str(), exName(e)); \
		} else {                                                                                                           \
			Ex e = run([&] { got = o->get(); });                                                                           \
			CHECK(e == NOEX && got == (T)v.i, "boxed conversion", "%s " #get " gave %s (%s)", show(v).c_str(), dec(got).c_str(), exName(e)); \
		}                                                                                                                  \
		c.event("conversions");                                                                                            \
	} while (0)

static void conversions(Ctx& c, const Val& v, Object* o) {
	CHECK(o->GetRawDataType() == kindType[v.k], "boxed type", "%s is %d", show(v).c_str(), (int)o->GetRawDataType());
	TOINT(Int16, get_AsInt16, -32768, 32767);
	TOINT(UInt16, get_AsUInt16, 0, 65535);
	TOINT(Int32, get_AsInt32, INT32_MIN, INT32_MAX);
	TOINT(UInt32, get_AsUInt32, 0, UINT32_MAX);
	TOINT(Int64, get_AsInt64, INT64_MIN, INT64_MAX);
	TOINT(UInt64, get_AsUInt64, 0, UINT64_MAX);
	if (v.k < 10) {
		TOINT(Byte, get_AsByte, 0, 255);
		TOINT(SByte, get_AsSByte, -128, 127);
	}
	if (v.k > 1 && v.k < 10) {
		Char ch = 0;
		Ex e = run([&] { ch = o->get_AsChar(); });
		if (v.i >= 0 && v.i < 0x10000) CHECK(e == NOEX && ch == (Char)v.i, "boxed conversion", "%s get_AsChar (%s)", show(v).c_str(), exName(e));
	}
	if (v.k == 1) CHECK(o->get_AsChar() == (Char)v.i, "boxed conversion", "%s get_AsChar", show(v).c_str());
	if (v.k == 0) CHECK(o->get_AsBoolean() == (v.i != 0), "boxed conversion", "%s get_AsBoolean", show(v).c_str());
	if (v.k > 1 && v.k < 10) {
		bool b = false;
		Ex e = run([&] { b = o->get_AsBoolean(); });
		CHECK(e == NOEX && b == (v.i != 0), "boxed conversion", "%s get_AsBoolean (%s)", show(v).c_str(), exName(e));
	}
	if (v.k > 0) {
		Single s = 0, ws;
		Double d = 0, wd;
		if (v.num()) { ws = (Single)v.d; wd = v.d; }
		else if (v.i < 0) { ws = (Single)(int64_t)v.i; wd = (Double)(int64_t)v.i; }
		else { ws = (Single)(uint64_t)v.i; wd = (Double)(uint64_t)v.i; }
		Ex e = run([&] { s = o->get_AsSingle(); d = o->get_AsDouble(); });
		CHECK(e == NOEX && sameF(s, ws), "boxed conversion", "%s get_AsSingle gave %.9g (%s)", show(v).c_str(), s, exName(e));
		CHECK(e == NOEX && sameD(d, wd), "boxed conversion", "%s get_AsDouble gave %.17g (%s)", show(v).c_str(), d, exName(e));
		c.event("conversions", 2);
	}
	// pairs for which no conversion is offered raise InvalidCastException; where one is offered it is the cast
	if (v.num()) {
		int got[4] = {0, 0, 0, 0};
		Ex e[4] = {run([&] { got[0] = o->get_AsByte(); }), run([&] { got[1] = o->get_AsSByte(); }), run([&] { got[2] = (int)o->get_AsChar(); }), run([&] { got[3] = o->get_AsBoolean() ? 1 : 0; })};
		static const double lo[] = {0, -128, 0}, hi[] = {255, 127, 65535};
		double t = std::trunc(v.d);
		for (int q = 0; q < 4; q++) {
			if (e[q] == CAST) { c.event("conversions refused"); continue; }
			CHECK(e[q] == NOEX, "boxed conversion", "%s to small type %d: %s", show(v).c_str(), q, exName(e[q]));
			if (q < 3) CHECK(!(t >= lo[q] && t <= hi[q]) || got[q] == (int)t, "boxed conversion", "%s to small type %d gave %d", show(v).c_str(), q, got[q]);
			else CHECK(got[q] == (v.d != 0), "boxed conversion", "%s get_AsBoolean gave %d", show(v).c_str(), got[q]);
		}
	}
	if (v.k <= 1) {
		Single s = 0;
		Double d = 0;
		bool b = false;
		Ex e1 = run([&] { s = o->get_AsSingle(); }), e2 = run([&] { d = o->get_AsDouble(); }), e3 = run([&] { b = o->get_AsBoolean(); });
		CHECK(e1 == CAST || (e1 == NOEX && s == (Single)(int)v.i), "boxed conversion", "%s get_AsSingle (%s)", show(v).c_str(), exName(e1));
		CHECK(e2 == CAST || (e2 == NOEX && d == (Double)(int)v.i), "boxed conversion", "%s get_AsDouble (%s)", show(v).c_str(), exName(e2));
		CHECK(e3 == CAST || (e3 == NOEX && b == (v.i != 0)), "boxed conversion", "%s get_AsBoolean (%s)", show(v).c_str(), exName(e3));
	}
	CHECK(run([&] { o->get_AsDateTime(); }) == CAST && run([&] { o->get_AsTimeSpan(); }) == CAST, "impossible conversion accepted", "%s to a time", show(v).c_str());
}

static void pairOf(Ctx& c, const Val& a, const Val& b, Object* ao, Object* bo) {
	if (a.k == b.k) {
		int w = order(a, b);
		int t = 9, o = 9;
		Ex e1 = run([&] { t = compareTo(ao, a.k, b, bo, true); }), e2 = run([&] { o = compareTo(ao, a.k, b, bo, false); });
		CHECK(e1 == NOEX && sgn(t) == w, "comparison is not numeric order", "%s to %s gave %d", show(a).c_str(), show(b).c_str(), t);
		CHECK(e2 == NOEX && sgn(o) == w, "comparison is not numeric order", "boxed %s to %s gave %d", show(a).c_str(), show(b).c_str(), o);
		bool eq = w == 0;
		CHECK(equalsTyped(ao, a.k, b) == eq && (bool)ao->Equals(bo) == eq && (bool)Object::Equals(ao, bo) == eq, "equality is not value equality", "%s and %s", show(a).c_str(), show(b).c_str());
		c.event(eq ? "equal pairs" : "ordered pairs");
	} else {
		CHECK(!ao->Equals(bo) && !Object::Equals(ao, bo), "values of different types are equal", "%s and %s", show(a).c_str(), show(b).c_str());
		Ex e = run([&] { compareTo(ao, a.k, b, bo, false); });
		CHECK(e == ARG, "comparison with another type accepted", "%s and %s: %s", show(a).c_str(), show(b).c_str(), exName(e));
		c.event("mixed pairs");
	}
}

SECTION(enumerate, 4, 8) {
	// every Boolean, Byte, SByte; every 16 bit value for the conversions; all pairs of bytes
	for (int k : {0, 2, 3}) {
		int lo = k == 2 ? -128 : 0, hi = k == 0 ? 1 : k == 2 ? 127 : 255;
		for (int i = lo; i <= hi; i++) {
			if (!c.mine(i - lo)) continue;
			Val a{k, i, 0};
			Object* ao = box(a);
			conversions(c, a, ao);
			for (int j = lo; j <= hi; j++) {
				c.bulk("pair of small values", k, i, j);
				Val b{k, j, 0};
				Object* bo = box(b);
				pairOf(c, a, b, ao, bo);
				delete bo;
			}
			delete ao;
		}
	}
	for (int k : {1, 4, 5})
		for (int i = 0; i < 65536; i++) {
			if (!c.mine(i)) continue;
			c.bulk("16 bit value", k, i);
			Val a{k, wrap(k, i), 0}, b{k, wrap(k, i + 1), 0}, z{k, 0, 0};
			Object *ao = box(a), *bo = box(b), *zo = box(z);
			conversions(c, a, ao);
			pairOf(c, a, b, ao, bo);
			pairOf(c, b, a, bo, ao);
			pairOf(c, a, z, ao, zo);
			delete ao;
			delete bo;
			delete zo;
		}
}

// round numbers in every type, each against its neighbour in the list, its negative and its value in another type
SECTION(grid, 8, 8) {
	const std::vector<int64_t>& v = roundValues();
	for (size_t i = 0; i < v.size(); i++) {
		if (!c.mine(i)) continue;
		for (int k = 0; k < NKIND; k++) {
			c.bulk("round number of a type", k, v[i]);
			auto val = [&](int kk, int64_t x) { Val a{kk, 0, 0}; if (a.num()) a.d = kk == 10 ? (double)(float)(double)x : (double)x; else a.i = wrap(kk, x); return a; };
			Val a = val(k, v[i]), b = val(k, v[(i + 1) % v.size()]), z = val(k, (int64_t)(0 - (uint64_t)v[i])), o = val((k + 1 + i % (NKIND - 1)) % NKIND, v[i]);
			Object *ao = box(a), *bo = box(b), *zo = box(z), *oo = box(o);
			conversions(c, a, ao);
			pairOf(c, a, b, ao, bo);
			pairOf(c, a, z, ao, zo);
			pairOf(c, a, o, ao, oo);
			delete ao;
			delete bo;
			delete zo;
			delete oo;
			c.event("round numbers");
		}
	}
}
SECTION(random, 8, 16) {
	uint64_t n = c.n(240000, 6000000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		int k = (int)r.below(NKIND);
		Val a = randVal(r, k), b = randVal(r, r.chance(3, 4) ? k : (int)r.below(NKIND));
		if (a.k == b.k && r.chance(1, 3)) b = a;
		if (a.k == b.k && !a.num() && r.chance(1, 3)) b.i = wrap(a.k, (int64_t)((uint64_t)(int64_t)a.i + (uint64_t)r.range(-2, 2)));
		c.begin(true, "%s and %s", show(a).c_str(), show(b).c_str());
		Object *ao = box(a), *bo = box(b);
		conversions(c, a, ao);
		pairOf(c, a, b, ao, bo);
		pairOf(c, b, a, bo, ao);
		pairOf(c, a, a, ao, ao);
		CHECK(!ao->Equals((Object*)nullptr) && !Object::Equals(ao, nullptr) && !Object::Equals(nullptr, ao), "value equals null", "%s", show(a).c_str());
		int g = 0;
		Ex e = run([&] { g = compareTo(ao, a.k, a, nullptr, false); });
		CHECK(e == NOEX && g > 0, "every value is greater than null", "%s gave %d (%s)", show(a).c_str(), g, exName(e));
		String s(L"5");
		CHECK(!ao->Equals((Object*)&s) && run([&] { compareTo(ao, a.k, a, &s, false); }) == ARG, "comparison with another type accepted", "%s and a text", show(a).c_str());
		delete ao;
		delete bo;
	}
	Object o;
	String s(L"5");
	c.begin(true, "plain objects do not convert");
	for (Object* x : {(Object*)&o, (Object*)&s}) {
		CHECK(run([&] { x->get_AsBoolean(); }) == CAST && run([&] { x->get_AsChar(); }) == CAST && run([&] { x->get_AsByte(); }) == CAST && run([&] { x->get_AsSByte(); }) == CAST && run([&] { x->get_AsInt16(); }) == CAST &&
			run([&] { x->get_AsUInt16(); }) == CAST && run([&] { x->get_AsInt32(); }) == CAST && run([&] { x->get_AsUInt32(); }) == CAST && run([&] { x->get_AsInt64(); }) == CAST && run([&] { x->get_AsUInt64(); }) == CAST &&
			run([&] { x->get_AsSingle(); }) == CAST && run([&] { x->get_AsDouble(); }) == CAST && run([&] { x->get_AsDateTime(); }) == CAST && run([&] { x->get_AsTimeSpan(); }) == CAST, "impossible conversion accepted", "object");
		CHECK(x->Equals(x) && Object::Equals(x, x) && Object::Equals(nullptr, nullptr) && !x->Equals((Object*)nullptr), "identity", "object");
	}
	CHECK(!o.Equals((Object*)&s), "identity", "two objects");
}
