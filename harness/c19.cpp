// C19: DateTime arithmetic: adding and subtracting agree with exact tick arithmetic, refuse to leave the range, keep operands unchanged.
#include "vf.h"
#include "times.h"
static const int64_t TPD = 864000000000LL, MAXT = 3155378975999999999LL;
static bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static int dim(int y, int m) {
	static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
	return m == 2 && leap(y) ? 29 : d[m - 1];
}
static int64_t dayNo(int y, int m, int d) {  // days since 1/1/0001, by counting
	int64_t p = y - 1, n = p * 365 + p / 4 - p / 100 + p / 400;
	for (int k = 1; k < m; k++) n += dim(y, k);
	return n + d - 1;
}
static void civil(int64_t day, int& y, int& m, int& d) {
	y = (int)(day / 366) + 1;
	while (y < 9999 && dayNo(y + 1, 1, 1) <= day) y++;
	int64_t r = day - dayNo(y, 1, 1);
	for (m = 1; r >= dim(y, m); m++) r -= dim(y, m);
	d = (int)r + 1;
}
static int64_t freshTicks(Rng& r) {
	switch (r.below(7)) {
	case 0: return r.range(0, 5);
	case 1: return MAXT - r.range(0, 5);
	case 2: return (int64_t)r.below(MAXT / TPD + 1) * TPD + r.range(0, 1);
	case 3: { int y = (int)r.range(1, 9999), m = (int)r.range(1, 12); return dayNo(y, m, r.chance(1, 2) ? dim(y, m) : 1) * TPD + (int64_t)r.below(TPD); }
	case 4: { int y = (int)r.range(1, 2499) * 4; return dayNo(y, 2, dim(y, 2)) * TPD + (int64_t)r.below(TPD); }
	case 5: return std::min<int64_t>(MAXT, (int64_t)(r.next() >> r.range(2, 60)));
	default: return (int64_t)r.below(MAXT);
	}
}
// often a relative of a recent one: whole days, years or powers of two of days apart, the same day, the same time of day
static int64_t anyTicks(Rng& r) {
	Recent& last = r.times;
	if (last.any() && r.chance(1, 5)) {
		int64_t t = (int64_t)last.pick(r), day = t / TPD, tod = t % TPD;
		switch (r.below(4)) {
		case 0: t = day * TPD + (int64_t)r.below(TPD); break;
		case 1: t = (int64_t)relative64(r, (uint64_t)t, 62); break;
		default: day = (int64_t)relative64(r, (uint64_t)day, 22); t = day >= 0 && day <= MAXT / TPD ? day * TPD + (r.chance(1, 2) ? tod : (int64_t)r.below(TPD)) : -1;
		}
		if (t >= 0 && t <= MAXT) return (int64_t)last.note((uint64_t)t);
	}
	return (int64_t)last.note((uint64_t)freshTicks(r));
}
static bool inRange(i128 t) { return t >= 0 && t <= MAXT; }
#define RESULT(expr)                                   \
	uint64_t got = 0;                                   \
	Ex e = run([&] { got = (expr).value; })
static void expectTicks(Ctx& c, const char* key, Ex e, uint64_t got, i128 want) {
	if (inRange(want)) {
		CHECK(e == NOEX && (i128)got == want, key, "got %llu (%s) expected %s", (unsigned long long)got, exName(e), dec(want).c_str());
		c.event("results in range");
	} else {
		CHECK(e == AOOR, key, "left the range: %s value %llu, exact result %s", exName(e), (unsigned long long)got, dec(want).c_str());
		c.event("results refused");
	}
}

static void shifted(Ctx& c, int64_t t, int64_t d) {
	DateTime dt((UInt64)t);
	DateTimeValue v(dt);
	TimeSpan ts((Int64)d);
	{ RESULT(v.AddTicks(d)); expectTicks(c, "AddTicks", e, got, (i128)t + d); }
	{ RESULT(v.Add(ts)); expectTicks(c, "Add(TimeSpan)", e, got, (i128)t + d); }
	{ RESULT(v.Subtract(ts)); expectTicks(c, "Subtract(TimeSpan)", e, got, (i128)t - d); }
	{ RESULT(DateTimeValue::op_Addition(dt, ts)); expectTicks(c, "op_Addition", e, got, (i128)t + d); }
	{ RESULT(DateTimeValue::op_Subtraction(dt, ts)); expectTicks(c, "op_Subtraction", e, got, (i128)t - d); }
	CHECK((int64_t)v.get_Ticks() == t && (int64_t)dt.value == t && ts.value == d, "operand changed", "%lld", (long long)v.get_Ticks());
}
SECTION(ticks, 4, 8) {
	uint64_t n = c.n(150000, 20000000);
	for (uint64_t i = 0; i < n; i++) {
		int64_t t = anyTicks(c.rng);
		int64_t d = c.rng.chance(1, 3) ? anyTicks(c.rng) - t + c.rng.range(-2, 2) : interesting64(c.rng);
		if (c.rng.chance(1, 8)) d = MAXT - t + c.rng.range(-2, 2);
		if (c.rng.chance(1, 8)) d = -t + c.rng.range(-2, 2);
		c.begin(true, "DateTime %lld with ticks %lld", (long long)t, (long long)d);
		shifted(c, t, d);
	}
}
SECTION(compare, 2, 4) {
	uint64_t n = c.n(150000, 6000000);
	for (uint64_t i = 0; i < n; i++) {
		int64_t a = anyTicks(c.rng), b = c.rng.chance(1, 3) ? a : c.rng.chance(1, 3) ? std::min(MAXT, a + 1) : anyTicks(c.rng);
		c.begin(true, "DateTime %lld vs %lld", (long long)a, (long long)b);
		DateTime x((UInt64)a), y((UInt64)b);
		DateTimeValue v(x), w(y);
		int want = a < b ? -1 : a > b;
		CHECK(DateTimeValue::Compare(x, y) == want && v.CompareTo(y) == want && v.CompareTo((Object*)&w) == want && w.CompareTo((Object*)&v) == -want, "Compare", "%d %d", DateTimeValue::Compare(x, y), want);
		CHECK((bool)v.Equals(y) == (a == b) && (bool)v.Equals((Object*)&w) == (a == b) && (bool)w.Equals((Object*)&v) == (a == b) && (bool)DateTimeValue::Equals(x, y) == (a == b), "Equals", "%d", (int)v.Equals(y));
		CHECK((bool)DateTimeValue::op_Equality(x, y) == (a == b) && (bool)DateTimeValue::op_Inequality(x, y) == (a != b), "equality operators", "%d", want);
		CHECK((bool)DateTimeValue::op_LessThan(x, y) == (a < b) && (bool)DateTimeValue::op_LessThanOrEqual(x, y) == (a <= b) && (bool)DateTimeValue::op_GreaterThan(x, y) == (a > b) &&
			(bool)DateTimeValue::op_GreaterThanOrEqual(x, y) == (a >= b), "order operators", "%d", want);
		TimeSpan s = v.Subtract(y), s2 = DateTimeValue::op_Subtraction(x, y);
		CHECK(s.value == a - b && s2.value == a - b, "difference", "%lld expected %lld", (long long)s.value, (long long)(a - b));
		// a + (b - a) == b
		uint64_t back = 0;
		Ex e = run([&] { back = w.Add(s).value; });
		CHECK(e == NOEX && (int64_t)back == a, "difference added back", "%llu %s", (unsigned long long)back, exName(e));
		if (i % 16 == 0) {
			Int32 r = 0;
			Int64Value other((Int64)b);
			TimeSpanValue span((TimeSpan)(Int64)b);
			CHECK(v.CompareTo((Object*)nullptr) == 1, "compare with null", "%d", 0);
			CHECK(run([&] { r = v.CompareTo((Object*)&other); }) == ARG && run([&] { r = v.CompareTo((Object*)&span); }) == ARG, "compare with another type", "%d", r);
			CHECK(!v.Equals((Object*)nullptr) && !v.Equals((Object*)&other) && !v.Equals((Object*)&span), "equal to another type", "%d", 0);
			CHECK(v.GetRawDataType() == DateTimeType && (int64_t)v.get_AsDateTime().value == a, "boxed value", "%llu", (unsigned long long)v.get_AsDateTime().value);
			c.event("type errors");
		}
	}
}
static void monthsLater(Ctx& c, int64_t t, int y, int m, int d, int k) {
	DateTime dt((UInt64)t);
	DateTimeValue v(dt);
	auto want = [&](i128 months, bool& ok) -> i128 {
		i128 tot = (i128)(y - 1) * 12 + (m - 1) + months;
		ok = tot >= 0 && tot < 9999 * 12;
		if (!ok) return -1;
		int ny = (int)(tot / 12) + 1, nm = (int)(tot % 12) + 1, nd = std::min(d, dim(ny, nm));
		return (i128)dayNo(ny, nm, nd) * TPD + t % TPD;
	};
	bool ok;
	{ RESULT(v.AddMonths(k)); i128 w = want(k, ok); expectTicks(c, "AddMonths", e, got, k < -120000 || k > 120000 ? (i128)-1 : w); }
	{ int yrs = c.rng.chance(1, 3) ? k : k / 12; RESULT(v.AddYears(yrs)); i128 w = want((i128)yrs * 12, ok); expectTicks(c, "AddYears", e, got, yrs < -10000 || yrs > 10000 ? (i128)-1 : w); }
	CHECK((int64_t)v.get_Ticks() == t, "operand changed", "%lld", (long long)v.get_Ticks());
}
SECTION(months, 4, 8) {
	uint64_t n = c.n(120000, 10000000);
	for (uint64_t i = 0; i < n; i++) {
		int64_t t = anyTicks(c.rng);
		int y, m, d;
		civil(t / TPD, y, m, d);
		int k;
		switch (c.rng.below(6)) {
		case 0: k = (int)c.rng.range(-24, 24); break;
		case 1: k = (9999 - y) * 12 + (12 - m) + (int)c.rng.range(-1, 1); break;
		case 2: k = -((y - 1) * 12 + (m - 1)) + (int)c.rng.range(-1, 1); break;
		case 3: k = (int)(c.rng.chance(1, 2) ? 120000 : -120000) + (int)c.rng.range(-1, 1); break;
		case 4: k = interesting32(c.rng); break;
		default: k = (int)c.rng.range(-119999, 119999);
		}
		c.begin(true, "DateTime %lld (%d/%d/%d) with months/years %d", (long long)t, y, m, d, k);
		monthsLater(c, t, y, m, d, k);
	}
}
static const int64_t scale[] = {86400000, 3600000, 60000, 1000, 1};
static const char* names[] = {"AddDays", "AddHours", "AddMinutes", "AddSeconds", "AddMilliseconds"};
static void unitsLater(Ctx& c, int64_t t, int u, double x) {
	DateTime dt((UInt64)t);
	DateTimeValue v(dt);
	uint64_t got = 0, got2 = 0;
	Ex e = run([&] {
		switch (u) {
		case 0: got = v.AddDays(x).value; break;
		case 1: got = v.AddHours(x).value; break;
		case 2: got = v.AddMinutes(x).value; break;
		case 3: got = v.AddSeconds(x).value; break;
		default: got = v.AddMilliseconds(x).value;
		}
	});
	Ex e2 = run([&] { got2 = v.Add((Double)x, (Int32)scale[u]).value; });
	CHECK(e == e2 && got == got2, "scaled Add differs", "%llu %llu", (unsigned long long)got, (unsigned long long)got2);
	if (x != x) { CHECK(e == ARG, "NaN added", "%s", exName(e)); c.event("NaN refused"); return; }
	double ms = x * (double)scale[u] + (x >= 0 ? 0.5 : -0.5);
	if (ms <= -315537897600000.0 || ms >= 315537897600000.0) { CHECK(e == AOOR, "out of range amount", "%s", exName(e)); c.event("results refused"); return; }
	expectTicks(c, names[u], e, got, (i128)t + (i128)(int64_t)ms * 10000);
	CHECK((int64_t)v.get_Ticks() == t, "operand changed", "%lld", (long long)v.get_Ticks());
}
SECTION(fractions, 4, 8) {
	uint64_t n = c.n(120000, 10000000);
	for (uint64_t i = 0; i < n; i++) {
		int64_t t = anyTicks(c.rng);
		int u = (int)c.rng.below(5);
		double x;
		switch (c.rng.below(6)) {
		case 0: x = (double)(anyTicks(c.rng) - t) / 10000.0 / (double)scale[u]; break;
		case 1: x = (double)c.rng.range(-100000, 100000) / 8.0; break;
		case 2: x = (double)(c.rng.chance(1, 2) ? MAXT - t : -t) / 10000.0 / (double)scale[u]; break;
		case 3: x = 315537897600000.0 / (double)scale[u] * (c.rng.chance(1, 2) ? 1 : -1); if (c.rng.chance(1, 2)) x = std::nextafter(x, c.rng.chance(1, 2) ? 0.0 : x * 2); break;
		default: x = interestingD(c.rng);
		}
		c.begin(true, "DateTime %lld %s(%.17g)", (long long)t, names[u], x);
		unitsLater(c, t, u, x);
	}
}
// round amounts of every unit, and every month of the calendar with amounts in turn
SECTION(grid, 8, 8) {
	uint64_t k = 0;
	times::grid([&](int64_t d) {
		if (!c.mine(k++)) return;
		int64_t t = c.rng.chance(1, 2) ? freshTicks(c.rng) : d >= 0 && d <= MAXT ? MAXT - d : d < 0 && d >= -MAXT ? -d : (int64_t)c.rng.below(MAXT + 1);
		c.bulk("DateTime with round number of ticks", t, d);
		shifted(c, t, d);
		c.event("round amounts");
	});
	const std::vector<int64_t>& v = roundValues();
	static const double parts[] = {1, 2, 4, 8, 10, 1000, 3};
	for (size_t i = 0; i < v.size(); i++)
		for (int u = 0; u < 5; u++) {
			if (!c.mine(i + u)) continue;
			double x = (double)v[i] / parts[c.rng.below(7)];
			int64_t t = freshTicks(c.rng);
			double by = x * (double)scale[u] * 10000;
			if (std::fabs(by) < (double)MAXT && c.rng.chance(1, 2)) t = by < 0 ? (int64_t)-by : MAXT - (int64_t)by;
			if (t < 0 || t > MAXT) t = 0;
			c.bulk("DateTime with round number of units", t, u, (int64_t)bitsOf(x));
			unitsLater(c, t, u, x);
			c.event("round amounts");
		}
	for (int y = 1; y <= 9999; y++) {
		if (!c.mine(y)) continue;
		for (int m = 1; m <= 12; m++)
			for (int q = 0; q < (c.thorough ? 40 : 3); q++) {
				int d = q == 0 ? dim(y, m) : (int)c.rng.range(1, dim(y, m));
				int by = c.rng.chance(1, 2) ? (int)c.rng.range(-50, 50) : c.rng.chance(1, 2) ? 12 * (int)c.rng.range(-9999, 9999) : (int)c.rng.range(-y * 12 - 2, (10000 - y) * 12 + 2);
				int64_t t = dayNo(y, m, d) * TPD + (int64_t)c.rng.below(TPD);
				c.bulk("DateTime with months", t, by);
				monthsLater(c, t, y, m, d, by);
				c.event("months of the calendar");
			}
	}
}
// all operations of dates and spans in any order: the answers of this property do not depend on what was asked before
SECTION(sequences, 4, 8) { times::histories(c, times::DATES, c.n(60000, 4000000)); }
