// C18: the calendar: date and time parts <-> ticks is a bijection over the whole range, checked for every day from 1/1/0001 to 12/31/9999.
#include "vf.h"
#include "times.h"

static const int64_t TPD = 864000000000LL;
static bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static int dim(int y, int m) {
	static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
	return m == 2 && leap(y) ? 29 : d[m - 1];
}
// days before 1/1/y
static int64_t before(int y) {
	int64_t n = 0;
	static std::vector<int64_t>* memo = nullptr;
	if (!memo) {
		memo = new std::vector<int64_t>(10002);
		for (int k = 1; k <= 10000; k++) { (*memo)[k] = n; n += leap(k) ? 366 : 365; }
	}
	return (*memo)[y];
}

static void parts(Ctx& c, int64_t day, int y, int m, int d, int doy, int64_t tod) {
	int64_t t = day * TPD + tod;
	DateTime dt((UInt64)t);
	DateTimeValue v(dt);
	int h = (int)(tod / 36000000000LL), mi = (int)(tod / 600000000 % 60), s = (int)(tod / 10000000 % 60), ms = (int)(tod / 10000 % 1000);
	CHECK(v.get_Year() == y && v.get_Month() == m && v.get_Day() == d, "date of ticks", "%lld -> %d/%d/%d expected %d/%d/%d", (long long)t, v.get_Year(), v.get_Month(), v.get_Day(), y, m, d);
	CHECK(v.get_DayOfYear() == doy, "day of year", "%d/%d/%d -> %d expected %d", y, m, d, v.get_DayOfYear(), doy);
	CHECK((int)v.get_DayOfWeek() == (int)((day + 1) % 7), "day of week", "%d/%d/%d -> %d", y, m, d, (int)v.get_DayOfWeek());
	CHECK(v.get_Hour() == h && v.get_Minute() == mi && v.get_Second() == s && v.get_Millisecond() == ms, "time of ticks", "%lld -> %d:%d:%d.%d expected %d:%d:%d.%d",
		(long long)t, v.get_Hour(), v.get_Minute(), v.get_Second(), v.get_Millisecond(), h, mi, s, ms);
	CHECK((int64_t)v.get_Ticks() == t, "ticks", "%lld", (long long)v.get_Ticks());
	CHECK((int64_t)v.get_TimeOfDay().value == tod, "time of day", "%lld expected %lld", (long long)v.get_TimeOfDay().value, (long long)tod);
	CHECK((int64_t)v.get_Date().value == day * TPD, "date without time", "%llu", (unsigned long long)v.get_Date().value);
	Int32 gy = 0, gm = 0, gd = 0;
	v.GetDatePart(gy, gm, gd);
	CHECK(gy == y && gm == m && gd == d, "date parts together", "%d/%d/%d expected %d/%d/%d", gy, gm, gd, y, m, d);
	CHECK(v.GetDatePart(DatePartYear) == y && v.GetDatePart(DatePartMonth) == m && v.GetDatePart(DatePartDay) == d && v.GetDatePart(DatePartDayOfYear) == doy, "single date part", "%d/%d/%d", y, m, d);
	uint64_t made = 0, made2 = 0;
	Ex e = run([&] { made = DateTime(y, m, d).value; made2 = DateTime(y, m, d, h, mi, s, ms).value; });
	CHECK(e == NOEX, "valid date refused", "%d/%d/%d %d:%d:%d.%d: %s", y, m, d, h, mi, s, ms, exName(e));
	CHECK((int64_t)made == day * TPD, "ticks of date", "%d/%d/%d -> %llu", y, m, d, (unsigned long long)made);
	CHECK((int64_t)made2 == t - tod % 10000, "ticks of date and time", "%d/%d/%d %d:%d:%d.%d -> %llu", y, m, d, h, mi, s, ms, (unsigned long long)made2);
}

SECTION(days, 8, 8) {
	int rounds = c.thorough ? 12 : 1;
	static const int64_t edge[] = {0, 1, 9999, 10000, TPD / 2, TPD / 2 - 1, TPD - 1, TPD - 10000, 36000000000LL, 599999999, 600000000, 9999999, 10000000};
	for (int y = 1; y <= 9999; y++) {
		if (!c.mine(y)) continue;
		int64_t day = before(y);
		int doy = 0;
		for (int m = 1; m <= 12; m++)
			for (int d = 1; d <= dim(y, m); d++, day++) {
				doy++;
				for (int r = 0; r < rounds; r++) {
					int64_t tod = c.rng.chance(1, 4) ? edge[c.rng.below(13)] : (int64_t)c.rng.below(TPD);
					c.bulk("DateTime ticks", day * TPD + tod);
					parts(c, day, y, m, d, doy, tod);
				}
			}
		c.event("days enumerated", doy);
	}
}
// every millisecond of the day, every century kind
SECTION(times, 2, 8) {
	int step = c.thorough ? 1 : 37;
	static const int ys[] = {1, 4, 100, 400, 1600, 1900, 1970, 2000, 2023, 9999};
	for (int64_t msod = c.shard; msod < 86400000; msod += (int64_t)step * c.shards) {
		int y = ys[msod % 10], m = (int)(msod % 12) + 1, d = (int)(msod % dim(y, m)) + 1;
		int doy = d;
		for (int k = 1; k < m; k++) doy += dim(y, k);
		c.bulk("DateTime with millisecond of day", y, msod);
		parts(c, before(y) + doy - 1, y, m, d, doy, msod * 10000);
	}
}
SECTION(invalid, 2, 4) {
	// every month of every year, and the surroundings of the valid range
	if (c.shard == 0)
		for (int y = -3; y <= 10003; y++) {
			bool yok = y >= 1 && y <= 9999;
			c.bulk("IsLeapYear/DaysInMonth of year", y);
			Boolean lp = false;
			Ex e = run([&] { lp = DateTimeValue::IsLeapYear(y); });
			if (yok) CHECK(e == NOEX && (bool)lp == leap(y), "leap year", "%d: %d %s", y, (int)lp, exName(e));
			else CHECK(e == AOOR, "leap year out of range", "%d: %s", y, exName(e));
			for (int m = -1; m <= 14; m++) {
				Int32 n = 0;
				e = run([&] { n = DateTimeValue::DaysInMonth(y, m); });
				bool ok = yok && m >= 1 && m <= 12;
				if (ok) CHECK(e == NOEX && n == dim(y, m), "days in month", "%d/%d: %d %s", y, m, n, exName(e));
				else CHECK(e == AOOR, "days in month out of range", "%d/%d: %s", y, m, exName(e));
				int last = ok ? dim(y, m) : 31;
				for (int d : {-1, 0, 1, last, last + 1, 32}) {
					uint64_t v = 0;
					e = run([&] { v = DateTime(y, m, d).value; });
					bool good = ok && d >= 1 && d <= last;
					CHECK(good ? e == NOEX : e == AOOR, "date validity", "%d/%d/%d: %s", y, m, d, exName(e));
				}
			}
			c.event("years validated");
		}
	uint64_t n = c.n(60000, 3000000);
	for (uint64_t i = 0; i < n; i++) {
		auto pick = [&](int lo, int hi) { switch (c.rng.below(8)) { case 0: return lo - 1; case 1: return hi + 1; case 2: return lo; case 3: return hi; case 4: return c.rng.chance(1, 4) ? interesting32(c.rng) : lo; default: return (int)c.rng.range(lo, hi); } };
		int y = pick(1, 9999), m = pick(1, 12), d = pick(1, 31), h = pick(0, 23), mi = pick(0, 59), s = pick(0, 59), ms = pick(0, 999);
		c.begin(true, "DateTime(%d,%d,%d,%d,%d,%d,%d)", y, m, d, h, mi, s, ms);
		bool ok = y >= 1 && y <= 9999 && m >= 1 && m <= 12 && d >= 1 && d <= (y >= 1 && y <= 9999 && m >= 1 && m <= 12 ? dim(y, m) : 0) && h >= 0 && h < 24 && mi >= 0 && mi < 60 && s >= 0 && s < 60 && ms >= 0 && ms < 1000;
		uint64_t v = 0;
		Ex e = run([&] { v = DateTime(y, m, d, h, mi, s, ms).value; });
		if (ok) {
			int64_t day = before(y) + d - 1;
			for (int k = 1; k < m; k++) day += dim(y, k);
			uint64_t want = (uint64_t)day * TPD + (((int64_t)h * 60 + mi) * 60 + s) * 10000000LL + ms * 10000LL;
			CHECK(e == NOEX && v == want, "valid date and time", "got %llu expected %llu %s", (unsigned long long)v, (unsigned long long)want, exName(e));
			c.event("valid fields");
		} else {
			CHECK(e == AOOR, "invalid date or time accepted", "%s value %llu", exName(e), (unsigned long long)v);
			c.event("invalid fields");
		}
		uint64_t t = c.rng.chance(1, 3) ? (uint64_t)interesting64(c.rng) : 3155378975999999999ULL + (uint64_t)c.rng.range(-3, 3);
		e = run([&] { v = DateTime((UInt64)t).value; });
		if (t <= 3155378975999999999ULL) CHECK(e == NOEX && v == t, "ticks accepted", "%llu %s", (unsigned long long)t, exName(e));
		else CHECK(e == AOOR, "ticks out of range accepted", "%llu %s", (unsigned long long)t, exName(e));
	}
	CHECK(DateTimeValue::MinValue.value == 0 && DateTimeValue::MaxValue.value == 3155378975999999999ULL && DateTime().value == 0, "range constants", "%llu %llu",
		(unsigned long long)DateTimeValue::MinValue.value, (unsigned long long)DateTimeValue::MaxValue.value);
}
// Dates one after another that agree in part with earlier ones: whatever is remembered from one date must not colour another.
SECTION(history, 2, 4) {
	uint64_t n = c.n(60000, 3000000);
	Rng& r = c.rng;
	int y = 2000, m = 2, d = 29;
	for (uint64_t i = 0; i < n; i++) {
		static const int K[] = {1, 2, 3, 4, 7, 8, 10, 16, 28, 32, 64, 100, 128, 200, 256, 300, 400, 500, 512, 700, 800, 1000, 1024, 1200, 2000, 2048, 2800, 4000, 4096};
		int py = y;
		switch (r.below(6)) {
		case 0: case 1: y += (r.chance(1, 2) ? 1 : -1) * K[r.below(sizeof K / sizeof *K)] * (r.chance(1, 2) ? 1 : (int)r.range(1, 9)); break;
		case 2: y = (int)r.range(1, 99) * 100; break;
		case 3: if (r.chance(1, 3)) y = (int)r.range(1, 9999); break;
		case 4: y = (int)r.range(1, 2499) * 4; break;
		default: break;
		}
		if (y < 1 || y > 9999) y = ((y % 9999) + 9999) % 9999 + 1;
		switch (r.below(5)) {
		case 0: m = 2, d = r.chance(2, 3) ? 29 : 28; break;
		case 1: m = 3, d = 1; break;
		case 2: m = (int)r.range(1, 12); d = r.chance(1, 2) ? dim(y, m) : (int)r.range(1, 31); break;
		case 3: m = 12, d = 31; break;
		default: break;  // the same month and day as before
		}
		c.begin(y != py, "%d/%d/%d after year %d #%llu", y, m, d, py, (unsigned long long)i);
		bool ok = d <= dim(y, m);
		int doy = d;
		for (int k = 1; k < m; k++) doy += dim(y, k);
		if (r.chance(1, 3)) CHECK((bool)DateTimeValue::IsLeapYear(y) == leap(y), "leap year", "%d after %d", y, py);
		if (r.chance(1, 3)) CHECK(DateTimeValue::DaysInMonth(y, m) == dim(y, m), "days in month", "%d/%d: %d after %d", y, m, DateTimeValue::DaysInMonth(y, m), py);
		if (r.chance(1, 2) || !ok) {
			uint64_t v = 0;
			Ex e = r.chance(1, 2) ? run([&] { v = DateTime(y, m, d).value; }) : run([&] { v = DateTime(y, m, d, 0, 0, 0, 0).value; });
			if (ok) CHECK(e == NOEX && v == (uint64_t)(before(y) + doy - 1) * TPD, "ticks of date", "%d/%d/%d -> %llu (%s) after year %d", y, m, d, (unsigned long long)v, exName(e), py);
			else CHECK(e == AOOR, "date validity", "%d/%d/%d: %s after year %d", y, m, d, exName(e), py);
			c.event(ok ? "valid dates" : "invalid dates");
		}
		if (ok) {
			int64_t tod = r.chance(1, 2) ? 0 : (int64_t)r.below(TPD);
			DateTime dt((UInt64)((before(y) + doy - 1) * TPD + tod));
			DateTimeValue v(dt);
			switch (r.below(4)) {  // in an order that varies, or all together
			case 0: CHECK(v.get_Day() == d, "date of ticks", "day %d expected %d/%d/%d after year %d", v.get_Day(), y, m, d, py); break;
			case 1: CHECK(v.get_DayOfYear() == doy && v.get_Month() == m, "date of ticks", "day of year %d, month %d expected %d/%d/%d after year %d", v.get_DayOfYear(), v.get_Month(), y, m, d, py); break;
			case 2: CHECK(v.get_Month() == m && v.get_Year() == y, "date of ticks", "month %d, year %d expected %d/%d/%d after year %d", v.get_Month(), v.get_Year(), y, m, d, py); break;
			default: parts(c, before(y) + doy - 1, y, m, d, doy, tod);
			}
			c.event("dates taken apart");
		}
	}
}
// all operations of dates and spans in any order: the answers of this property do not depend on what was asked before
SECTION(sequences, 4, 8) { times::histories(c, times::PARTS, c.n(60000, 4000000)); }
