// C21: TimeSpan: components, totals, arithmetic and comparisons agree with exact 64-bit tick arithmetic; overflow is reported.
#include "vf.h"
#include "times.h"
static const i128 LO = INT64_MIN, HI = INT64_MAX;
static const int64_t UNIT[] = {864000000000LL, 36000000000LL, 600000000LL, 10000000LL, 10000LL};
static bool fits(i128 v) { return v >= LO && v <= HI; }
static int64_t freshSpan(Rng& r) {
	switch (r.below(7)) {
	case 6: { int64_t d = (int64_t)(r.next() >> r.range(1, 63)); return r.chance(1, 2) ? INT64_MAX - d : INT64_MIN + d; }
	case 0: return r.range(-5, 5) * UNIT[r.below(5)] + r.range(-1, 1);
	case 1: return (int64_t)((uint64_t)INT64_MAX + (uint64_t)r.range(-3, 4));
	case 2: return r.range(-10675199, 10675199) * UNIT[0] + r.range(-1, 1);
	case 3: return r.range(-1000000000, 1000000000) * (UNIT[r.range(1, 4)] / 1000);
	default: return interesting64(r);
	}
}
// often a relative of a recent one: a number of whole units apart, or equal in some narrower view
static int64_t anySpan(Rng& r) {
	Recent& last = r.times;
	if (last.any() && r.chance(1, 6)) {
		uint64_t t = last.pick(r);
		uint64_t u = (uint64_t)UNIT[r.below(5)];
		return (int64_t)last.note(r.chance(1, 2) ? relative64(r, t, 64) : t + (relative64(r, 0, 24)) * u);
	}
	return (int64_t)last.note((uint64_t)freshSpan(r));
}
static void expectSpan(Ctx& c, const char* key, Ex e, int64_t got, i128 want, Ex err = OVERFLOWEX) {
	if (fits(want)) { CHECK(e == NOEX && (i128)got == want, key, "got %lld (%s) expected %s", (long long)got, exName(e), dec(want).c_str()); c.event("results in range"); }
	else { CHECK(e == err, key, "%s value %lld, exact result %s", exName(e), (long long)got, dec(want).c_str()); c.event("overflows reported"); }
}
#define SPAN(expr) int64_t got = 0; Ex e = run([&] { got = (expr).value; })

static void parts(Ctx& c, int64_t t) {
	TimeSpan ts((Int64)t);
	TimeSpanValue v(ts);
	CHECK((int64_t)v.get_Ticks() == t && v.get_AsTimeSpan().value == t && v.GetRawDataType() == TimeSpanType, "ticks", "%lld", (long long)v.get_Ticks());
	CHECK(TimeSpanValue((UInt64)t).get_AsTimeSpan().value == t, "boxed ticks", "%lld", (long long)t);
	int64_t d = t / UNIT[0], h = t / UNIT[1] % 24, m = t / UNIT[2] % 60, s = t / UNIT[3] % 60, ms = t / UNIT[4] % 1000;
	CHECK(v.get_Days() == d && v.get_Hours() == h && v.get_Minutes() == m && v.get_Seconds() == s && v.get_Milliseconds() == ms, "components", "%d.%d:%d:%d.%d", v.get_Days(), v.get_Hours(),
		v.get_Minutes(), v.get_Seconds(), v.get_Milliseconds());
	// the components put the span back together (up to the sub-millisecond rest)
	CHECK((i128)v.get_Days() * UNIT[0] + (i128)v.get_Hours() * UNIT[1] + (i128)v.get_Minutes() * UNIT[2] + (i128)v.get_Seconds() * UNIT[3] + (i128)v.get_Milliseconds() * UNIT[4] + t % UNIT[4] == (i128)t,
		"components do not add up", "%lld", (long long)t);
	double got[] = {v.get_TotalDays(), v.get_TotalHours(), v.get_TotalMinutes(), v.get_TotalSeconds(), v.get_TotalMilliseconds()};
	for (int k = 0; k < 5; k++) {
		double want = (double)t / (double)UNIT[k];
		if (k == 4) want = std::min(922337203685477.0, std::max(-922337203685477.0, want));
		CHECK(std::fabs(got[k] - want) <= std::fabs(want) * 4.5e-16, "total", "unit %d: %.17g expected %.17g", k, got[k], want);
	}
	{ SPAN(v.Negate()); expectSpan(c, "Negate", e, got, -(i128)t); }
	{ SPAN(TimeSpanValue::op_UnaryNegation(ts)); expectSpan(c, "unary minus", e, got, -(i128)t); }
	{ SPAN(v.Duration()); expectSpan(c, "Duration", e, got, t < 0 ? -(i128)t : (i128)t); }
	CHECK(TimeSpanValue::op_UnaryPlus(ts).value == t && TimeSpanValue::FromTicks(t).value == t, "unary plus / FromTicks", "%lld", (long long)t);
	CHECK(v.get_Ticks() == t && ts.value == t, "operand changed", "%lld", (long long)v.get_Ticks());
}
SECTION(components, 2, 8) {
	uint64_t n = c.n(300000, 20000000);
	for (uint64_t i = 0; i < n; i++) {
		int64_t t = anySpan(c.rng);
		c.begin(true, "TimeSpan %lld", (long long)t);
		parts(c, t);
	}
	CHECK(TimeSpanValue::MaxValue.value == INT64_MAX && TimeSpanValue::MinValue.value == INT64_MIN && TimeSpanValue::Zero.value == 0 && TimeSpanValue::TicksPerDay == UNIT[0] && TimeSpanValue::TicksPerHour == UNIT[1] &&
		TimeSpanValue::TicksPerMinute == UNIT[2] && TimeSpanValue::TicksPerSecond == UNIT[3] && TimeSpanValue::TicksPerMillisecond == UNIT[4], "constants", "%d", 0);
}
SECTION(grid, 2, 4) {
	uint64_t k = 0;
	times::grid([&](int64_t t) {
		if (!c.mine(k++)) return;
		c.bulk("TimeSpan", t);
		parts(c, t);
		c.event("round numbers of units");
	});
}
SECTION(make, 2, 8) {
	uint64_t n = c.n(200000, 10000000);
	auto any = [&]() -> int32_t { switch (c.rng.below(5)) { case 0: return (int32_t)c.rng.range(-70, 70); case 1: return (int32_t)c.rng.range(-10675200, 10675200); case 2: return 0; default: return interesting32(c.rng); } };
	for (uint64_t i = 0; i < n; i++) {
		int32_t d = any(), h = any(), m = any(), s = any(), ms = any();
		if (c.rng.chance(1, 8)) { bool neg = c.rng.chance(1, 2); d = 10675199; h = 2; m = 48; s = 5; ms = (int)c.rng.range(470, 480); if (neg) { d = -d; h = -h; m = -m; s = -s; ms = -ms; } }
		c.begin(true, "TimeSpan(%d,%d,%d,%d,%d)", d, h, m, s, ms);
		i128 total = ((((i128)d * 24 + h) * 60 + m) * 60 + s) * 1000 + ms;
		{ SPAN(TimeSpan(d, h, m, s, ms)); expectSpan(c, "days..milliseconds", e, got, total * 10000, AOOR); }
		{ SPAN(TimeSpan(d, h, m, s)); expectSpan(c, "days..seconds", e, got, (total - ms) * 10000, AOOR); }
		{ SPAN(TimeSpan(h, m, s)); expectSpan(c, "hours..seconds", e, got, (((i128)h * 60 + m) * 60 + s) * 10000000, AOOR); }
	}
}
SECTION(pairs, 2, 8) {
	uint64_t n = c.n(150000, 10000000);
	for (uint64_t i = 0; i < n; i++) {
		int64_t a = anySpan(c.rng), b = c.rng.chance(1, 5) ? a : c.rng.chance(1, 4) ? (int64_t)((uint64_t)INT64_MAX - (uint64_t)a + (uint64_t)c.rng.range(-2, 2)) : anySpan(c.rng);
		c.begin(true, "TimeSpan %lld and %lld", (long long)a, (long long)b);
		TimeSpan x((Int64)a), y((Int64)b);
		TimeSpanValue v(x), w(y);
		{ SPAN(v.Add(y)); expectSpan(c, "Add", e, got, (i128)a + b); }
		{ SPAN(v.Subtract(y)); expectSpan(c, "Subtract", e, got, (i128)a - b); }
		{ SPAN(TimeSpanValue::op_Addition(x, y)); expectSpan(c, "op_Addition", e, got, (i128)a + b); }
		{ SPAN(TimeSpanValue::op_Subtraction(x, y)); expectSpan(c, "op_Subtraction", e, got, (i128)a - b); }
		int want = a < b ? -1 : a > b;
		CHECK(TimeSpanValue::Compare(x, y) == want && v.CompareTo(y) == want && v.CompareTo((Object*)&w) == want && w.CompareTo((Object*)&v) == -want, "compare", "%d", want);
		CHECK((bool)v.Equals(y) == (a == b) && (bool)v.Equals((Object*)&w) == (a == b) && (bool)w.Equals((Object*)&v) == (a == b) && (bool)TimeSpanValue::Equals(x, y) == (a == b), "equals", "%d", want);
		CHECK((bool)TimeSpanValue::op_Equality(x, y) == (a == b) && (bool)TimeSpanValue::op_Inequality(x, y) == (a != b) && (bool)TimeSpanValue::op_LessThan(x, y) == (a < b) &&
			(bool)TimeSpanValue::op_LessThanOrEqual(x, y) == (a <= b) && (bool)TimeSpanValue::op_GreaterThan(x, y) == (a > b) && (bool)TimeSpanValue::op_GreaterThanOrEqual(x, y) == (a >= b), "operators", "%d", want);
		if (b != 0 || true) {
			double q = v.Divide(y), q2 = TimeSpanValue::op_Division(x, y), w2 = b == 0 ? (a == 0 ? NAN : a > 0 ? INFINITY : -INFINITY) : (double)a / (double)b;
			CHECK(sameD(q, w2) && sameD(q2, w2), "ratio", "%.17g %.17g expected %.17g", q, q2, w2);
		}
		if (i % 16 == 0) {
			Int32 r = 0;
			Int64Value other((Int64)b);
			CHECK(v.CompareTo((Object*)nullptr) == 1 && run([&] { r = v.CompareTo((Object*)&other); }) == ARG && !v.Equals((Object*)nullptr) && !v.Equals((Object*)&other), "comparison with other types", "%d", r);
			c.event("type errors");
		}
		CHECK(v.get_Ticks() == a && x.value == a && y.value == b, "operand changed", "%lld", (long long)a);
	}
}
SECTION(scaled, 2, 8) {
	uint64_t n = c.n(150000, 10000000);
	for (uint64_t i = 0; i < n; i++) {
		int64_t a = anySpan(c.rng);
		double f;
		switch (c.rng.below(5)) {
		case 0: f = 9223372036854775807.0 / (double)(a ? a : 1) * (c.rng.chance(1, 2) ? 1 : -1); if (c.rng.chance(1, 2)) f = std::nextafter(f, c.rng.chance(1, 2) ? 0 : INFINITY); break;
		case 1: f = (double)c.rng.range(-20, 20) / 4; break;
		case 2: f = 9223372036854775807.0 / (double)UNIT[c.rng.below(5)] * (c.rng.chance(1, 2) ? 1 : -1); if (c.rng.chance(1, 2)) f = std::nextafter(f, c.rng.chance(1, 2) ? 0 : INFINITY); break;
		default: f = interestingD(c.rng);
		}
		c.begin(true, "TimeSpan %lld with factor %.17g", (long long)a, f);
		TimeSpan x((Int64)a);
		TimeSpanValue v(x);
		auto one = [&](const char* key, Ex e, int64_t got, double raw, bool round) {
			if (f != f) { CHECK(e == ARG, key, "NaN: %s", exName(e)); c.event("NaN refused"); return; }
			double t = round ? nearbyint(raw) : trunc(raw);
			if (t != t || t >= 9223372036854775808.0 || t < -9223372036854775808.0) { CHECK(e == OVERFLOWEX, key, "%s value %lld for %.17g", exName(e), (long long)got, t); c.event("overflows reported"); }
			else { CHECK(e == NOEX && got == (int64_t)t, key, "got %lld (%s) expected %lld", (long long)got, exName(e), (long long)t); c.event("results in range"); }
		};
		{ SPAN(v.Multiply(f)); one("Multiply", e, got, (double)a * f, true); }
		{ SPAN(TimeSpanValue::op_Multiply(x, (Double)f)); one("op_Multiply", e, got, (double)a * f, true); }
		{ SPAN(TimeSpanValue::op_Multiply((Double)f, x)); one("op_Multiply", e, got, (double)a * f, true); }
		double q = f == 0 ? (a == 0 ? NAN : (a > 0) != std::signbit(f) ? INFINITY : -INFINITY) : (double)a / f;
		{ SPAN(v.Divide((Double)f)); one("Divide", e, got, q, true); }
		{ SPAN(TimeSpanValue::op_Division(x, (Double)f)); one("op_Division", e, got, q, true); }
		{ SPAN(TimeSpanValue::FromDays(f)); one("FromDays", e, got, f * (double)UNIT[0], false); }
		{ SPAN(TimeSpanValue::FromHours(f)); one("FromHours", e, got, f * (double)UNIT[1], false); }
		{ SPAN(TimeSpanValue::FromMinutes(f)); one("FromMinutes", e, got, f * (double)UNIT[2], false); }
		{ SPAN(TimeSpanValue::FromSeconds(f)); one("FromSeconds", e, got, f * (double)UNIT[3], false); }
		{ SPAN(TimeSpanValue::FromMilliseconds(f)); one("FromMilliseconds", e, got, f * (double)UNIT[4], false); }
		CHECK(v.get_Ticks() == a && x.value == a, "operand changed", "%lld", (long long)a);
	}
}
// all operations of dates and spans in any order: the answers of this property do not depend on what was asked before
SECTION(sequences, 4, 8) { times::histories(c, times::SPANS, c.n(60000, 4000000)); }
