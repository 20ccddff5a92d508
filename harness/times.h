// Histories over a few dates and spans: every operation of both kinds in any order, on the same object or another, each answer held against
// exact arithmetic. What one operation leaves behind must not show in the next. Each check looks at the answers of its own property.
#pragma once
#include "vf.h"
namespace times {
enum Tag { PARTS, DATES, SPANS, TEXTS };  // C18, C19, C21, C22
static const int64_t DAY = 864000000000LL, LAST = 3155378975999999999LL;
static const int64_t TICKS[] = {864000000000LL, 36000000000LL, 600000000LL, 10000000LL, 10000LL};
inline bool leapYear(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
inline int daysOf(int y, int m) {
	static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
	return m == 2 && leapYear(y) ? 29 : d[m - 1];
}
inline int64_t dayOf(int y, int m, int d) {
	int64_t p = y - 1, n = p * 365 + p / 4 - p / 100 + p / 400;
	for (int k = 1; k < m; k++) n += daysOf(y, k);
	return n + d - 1;
}
struct Date {
	int y, m, d, doy, h, mi, s, ms;
	explicit Date(int64_t t) {
		int64_t day = t / DAY, tod = t % DAY;
		y = (int)(day / 366) + 1;
		while (y < 9999 && dayOf(y + 1, 1, 1) <= day) y++;
		int64_t r = day - dayOf(y, 1, 1);
		doy = (int)r + 1;
		for (m = 1; r >= daysOf(y, m); m++) r -= daysOf(y, m);
		d = (int)r + 1;
		h = (int)(tod / TICKS[1]); mi = (int)(tod / TICKS[2] % 60); s = (int)(tod / TICKS[3] % 60); ms = (int)(tod / TICKS[4] % 1000);
	}
};
inline W dateText(int64_t t) {
	Date x(t);
	char b[64];
	snprintf(b, sizeof b, "%d/%d/%d %d:%02d:%02d %s", x.m, x.d, x.y, x.h > 12 ? x.h - 12 : x.h, x.mi, x.s, x.h >= 12 ? "PM" : "AM");
	return wide(b);
}
inline W textOfSpan(int64_t t) {
	u128 u = t < 0 ? (u128)0 - (u128)(i128)t : (u128)t;
	uint64_t m = (uint64_t)u;
	char b[64];
	std::string r = t < 0 ? "-" : "";
	if (m / DAY) { snprintf(b, sizeof b, "%llu.", (unsigned long long)(m / DAY)); r += b; }
	m %= DAY;
	snprintf(b, sizeof b, "%02d:%02d:%02d", (int)(m / TICKS[1]), (int)(m / TICKS[2] % 60), (int)(m / TICKS[3] % 60));
	r += b;
	if (m % TICKS[3]) { snprintf(b, sizeof b, ".%07d", (int)(m % TICKS[3])); r += b; }
	return wide(r);
}
inline int64_t someDate(Rng& r, const int64_t* have, int n) {
	int64_t t;
	switch (n ? r.below(7) : 4 + r.below(3)) {
	case 0: return have[r.below(n)];
	case 1: t = have[r.below(n)] / DAY * DAY + (int64_t)r.below(DAY); break;
	case 2: t = have[r.below(n)] + r.range(-400, 400) * DAY; break;
	case 3: t = have[r.below(n)] + r.range(-2, 2) * TICKS[r.below(5)]; break;
	case 4: { int y = (int)r.range(1, 9999), m = (int)r.range(1, 12); t = dayOf(y, m, r.chance(1, 2) ? daysOf(y, m) : 1) * DAY + (int64_t)r.below(DAY); break; }
	default: t = (int64_t)r.below(LAST + 1);
	}
	return t < 0 ? 0 : t > LAST ? LAST : t;
}
// every round number of every unit: small multiples of powers of two and of ten, one below and one above, of both signs, exactly and a tick beside
template <class F>
void grid(F f) {
	std::set<int64_t> ks;
	for (int i = 0; i < 64; i++)
		for (int j = 1; j < 16; j += 2) ks.insert((int64_t)(((u128)j << i) > (u128)INT64_MAX ? 1 : (u128)j << i));
	int64_t p = 1;
	for (int i = 0; i < 18; i++, p *= 10)
		for (int j = 1; j < 10; j++) ks.insert(p * j > 0 ? p * j : 1);
	for (int j = 2; j < 1000; j++) ks.insert(j);
	static const int64_t UNIT[] = {1, 10000, 10000000, 600000000, 36000000000LL, 864000000000LL, 864000000000LL * 365, 864000000000LL * 366, 864000000000LL * 1461, 864000000000LL * 36524, 864000000000LL * 146097};
	std::set<int64_t> all;
	for (int64_t k : ks)
		for (int64_t u : UNIT)
			for (int d = -1; d <= 1; d++)
				for (int e = -1; e <= 1; e++)
					for (int s = -1; s <= 1; s += 2) {
						i128 v = ((i128)k + d) * u * s + e;
						if (v >= (i128)INT64_MIN && v <= (i128)INT64_MAX) all.insert((int64_t)v);
					}
	for (int64_t v : all) f(v);
}
inline int64_t someSpan(Rng& r) {
	switch (r.below(5)) {
	case 0: return r.range(-3, 3) * TICKS[r.below(5)] + r.range(-1, 1);
	case 1: return interesting64(r);
	case 2: return r.chance(1, 2) ? INT64_MAX - r.range(0, 3) : INT64_MIN + r.range(0, 3);
	case 3: return r.range(-1000, 1000) * DAY + (int64_t)r.below(DAY);
	default: return r.range(-86400000, 86400000) * 10000LL;
	}
}
inline void histories(Ctx& c, Tag mine, uint64_t n) {
	Rng& r = c.rng;
	enum { OBJ = 3 };
	uint64_t turns = 0;
	std::set<uint64_t> pairs;
	for (uint64_t i = 0; i < n; i++) {
		int64_t dt[OBJ], sp[OBJ];
		for (int k = 0; k < OBJ; k++) { dt[k] = someDate(r, dt, k); sp[k] = k && r.chance(1, 4) ? sp[r.below(k)] : someSpan(r); }
		c.begin(true, "dates %lld %lld %lld, spans %lld %lld %lld, operations of seed %llu", (long long)dt[0], (long long)dt[1], (long long)dt[2], (long long)sp[0], (long long)sp[1], (long long)sp[2],
			(unsigned long long)r.s);
		DateTimeValue *D[OBJ];
		TimeSpanValue *S[OBJ];
		DateTime x[OBJ];
		TimeSpan u[OBJ];
		for (int k = 0; k < OBJ; k++) { x[k] = DateTime((UInt64)dt[k]); u[k] = TimeSpan((Int64)sp[k]); D[k] = new DateTimeValue(x[k]); S[k] = new TimeSpanValue(u[k]); }
		int a = 0, before = -1, op = -1, ops = (int)r.range(20, 60);
		std::string trail;
		for (int o = 0; o < ops; o++) {
			if (r.chance(2, 5)) a = (int)r.below(OBJ);
			if (r.chance(1, 25)) {  // the object makes way for another, likely in the same place
				dt[a] = someDate(r, dt, OBJ); sp[a] = someSpan(r); x[a] = DateTime((UInt64)dt[a]); u[a] = TimeSpan((Int64)sp[a]);
				delete D[a]; delete S[a];
				D[a] = new DateTimeValue(x[a]); S[a] = new TimeSpanValue(u[a]);
			}
			int b = r.chance(1, 3) ? a : (int)r.below(OBJ);
			before = op;
			op = (int)r.below(60);
			turns++;
			pairs.insert((uint64_t)(before + 1) * 64 + op);
			{ char t[24]; snprintf(t, sizeof t, "%d(%d,%d) ", op, a, b); trail += t; if (trail.size() > 160) trail.erase(0, trail.find(' ') + 1); }
			DateTimeValue& d = *D[a];
			TimeSpanValue& s = *S[a];
			int64_t t = dt[a], t2 = dt[b], v = sp[a], v2 = sp[b];
			int cmp = t < t2 ? -1 : t > t2, scmp = v < v2 ? -1 : v > v2;
#define SEE(tag, cond, key) do { if (mine == tag && !(cond)) c.fail("in a history: " key, "operation %d on date %lld/%lld, span %lld/%lld after %s", op, (long long)t, (long long)t2, (long long)v, (long long)v2, trail.c_str()); } while (0)
#define TICKSOF(tag, expr, want, key) do { uint64_t g_ = 0; Ex e_ = run([&] { g_ = (uint64_t)(expr).value; }); i128 w_ = (want); if (w_ >= 0 && w_ <= LAST) SEE(tag, e_ == NOEX && (i128)g_ == w_, key); else SEE(tag, e_ == AOOR, key); } while (0)
#define SPANOF(expr, want, key) do { int64_t g_ = 0; Ex e_ = run([&] { g_ = (expr).value; }); i128 w_ = (want); if (w_ >= INT64_MIN && w_ <= INT64_MAX) SEE(SPANS, e_ == NOEX && (i128)g_ == w_, key); else SEE(SPANS, e_ == OVERFLOWEX, key); } while (0)
			switch (op) {
			case 0: SEE(PARTS, d.get_Year() == Date(t).y, "year"); break;
			case 1: SEE(PARTS, d.get_Month() == Date(t).m, "month"); break;
			case 2: SEE(PARTS, d.get_Day() == Date(t).d, "day"); break;
			case 3: SEE(PARTS, d.get_DayOfYear() == Date(t).doy, "day of year"); break;
			case 4: SEE(PARTS, (int)d.get_DayOfWeek() == (int)((t / DAY + 1) % 7), "day of week"); break;
			case 5: SEE(PARTS, d.get_Hour() == Date(t).h, "hour"); break;
			case 6: SEE(PARTS, d.get_Minute() == Date(t).mi, "minute"); break;
			case 7: SEE(PARTS, d.get_Second() == Date(t).s, "second"); break;
			case 8: SEE(PARTS, d.get_Millisecond() == Date(t).ms, "millisecond"); break;
			case 9: SEE(PARTS, (int64_t)d.get_Ticks() == t && (int64_t)d.get_AsDateTime().value == t, "ticks"); break;
			case 10: SEE(PARTS, (int64_t)d.get_TimeOfDay().value == t % DAY, "time of day"); break;
			case 11: SEE(PARTS, (int64_t)d.get_Date().value == t / DAY * DAY, "date"); break;
			case 12: { Int32 y = 0, m = 0, q = 0; d.GetDatePart(y, m, q); Date w(t); SEE(PARTS, y == w.y && m == w.m && q == w.d, "date parts together"); break; }
			case 13: { Date w(t); int k = (int)r.below(4); SEE(PARTS, k == 0 ? d.GetDatePart(DatePartYear) == w.y : k == 1 ? d.GetDatePart(DatePartMonth) == w.m : k == 2 ? d.GetDatePart(DatePartDay) == w.d : d.GetDatePart(DatePartDayOfYear) == w.doy, "date part"); break; }
			case 14: { Date w(t); int k = (int)r.range(1, 12); SEE(PARTS, (bool)DateTimeValue::IsLeapYear(w.y) == leapYear(w.y) && DateTimeValue::DaysInMonth(w.y, k) == daysOf(w.y, k), "month's length"); break; }
			case 15: { Date w(t); TICKSOF(PARTS, DateTime(w.y, w.m, w.d, w.h, w.mi, w.s, w.ms), t - t % 10000, "made from its parts"); break; }
			case 16: { Date w(t); TICKSOF(PARTS, DateTime(w.y, w.m, w.d), t - t % DAY, "made from its date"); break; }
			case 17: { Date w(t); bool bad = false; Ex e = run([&] { DateTime q(w.y, w.m, daysOf(w.y, w.m) + 1); bad = true; }); SEE(PARTS, e == AOOR && !bad, "the day behind a month's last"); break; }
			case 18: case 19: { int64_t k = r.chance(1, 2) ? v2 : (t2 - t) + r.range(-1, 1); TICKSOF(DATES, d.AddTicks(k), (i128)t + k, "AddTicks"); break; }
			case 20: TICKSOF(DATES, d.Add(u[b]), (i128)t + v2, "Add"); break;
			case 21: TICKSOF(DATES, d.Subtract(u[b]), (i128)t - v2, "Subtract"); break;
			case 22: TICKSOF(DATES, DateTimeValue::op_Addition(x[a], u[b]), (i128)t + v2, "op_Addition"); break;
			case 23: TICKSOF(DATES, DateTimeValue::op_Subtraction(x[a], u[b]), (i128)t - v2, "op_Subtraction"); break;
			case 24: SEE(DATES, d.Subtract(x[b]).value == t - t2 && DateTimeValue::op_Subtraction(x[a], x[b]).value == t - t2, "difference"); break;
			case 25: SEE(DATES, DateTimeValue::Compare(x[a], x[b]) == cmp && d.CompareTo(x[b]) == cmp, "Compare"); break;
			case 26: SEE(DATES, d.CompareTo((Object*)D[b]) == cmp, "CompareTo"); break;
			case 27: SEE(DATES, (bool)d.Equals(x[b]) == (cmp == 0) && (bool)d.Equals((Object*)D[b]) == (cmp == 0) && (bool)DateTimeValue::Equals(x[a], x[b]) == (cmp == 0), "Equals"); break;
			case 28: SEE(DATES, (bool)DateTimeValue::op_Equality(x[a], x[b]) == (cmp == 0) && (bool)DateTimeValue::op_Inequality(x[a], x[b]) == (cmp != 0) && (bool)DateTimeValue::op_LessThan(x[a], x[b]) == (cmp < 0) &&
				(bool)DateTimeValue::op_LessThanOrEqual(x[a], x[b]) == (cmp <= 0) && (bool)DateTimeValue::op_GreaterThan(x[a], x[b]) == (cmp > 0) && (bool)DateTimeValue::op_GreaterThanOrEqual(x[a], x[b]) == (cmp >= 0), "operators"); break;
			case 29: case 30: {
				int k = op == 29 ? (int)r.range(-30, 30) : (int)r.range(-300, 300) * 12;
				Date w(t);
				i128 tot = (i128)(w.y - 1) * 12 + (w.m - 1) + k;
				i128 want = -1;
				if (tot >= 0 && tot < 9999 * 12) { int ny = (int)(tot / 12) + 1, nm = (int)(tot % 12) + 1; want = (i128)dayOf(ny, nm, std::min(w.d, daysOf(ny, nm))) * DAY + t % DAY; }
				if (op == 29) TICKSOF(DATES, d.AddMonths(k), want, "AddMonths"); else TICKSOF(DATES, d.AddYears(k / 12), want, "AddYears");
				break;
			}
			case 31: case 32: {
				int k = (int)r.range(-1000, 1000), which = (int)r.below(5);
				i128 want = (i128)t + (i128)k * TICKS[which];
				if (which == 0) TICKSOF(DATES, d.AddDays(k), want, "AddDays");
				else if (which == 1) TICKSOF(DATES, d.AddHours(k), want, "AddHours");
				else if (which == 2) TICKSOF(DATES, d.AddMinutes(k), want, "AddMinutes");
				else if (which == 3) TICKSOF(DATES, d.AddSeconds(k), want, "AddSeconds");
				else TICKSOF(DATES, d.AddMilliseconds(k), want, "AddMilliseconds");
				break;
			}
			case 33: SEE(DATES, d.CompareTo((Object*)nullptr) == 1 && !d.Equals((Object*)nullptr) && !d.Equals((Object*)S[b]) && run([&] { d.CompareTo((Object*)S[b]); }) == ARG, "compared with something else"); break;
			case 34: case 35: {
				Char buf[64];
				Int32 len = d.FormatString(buf, 64);
				W want = dateText(t);
				SEE(TEXTS, len == (Int32)want.size() && W(buf) == want, "text of a date");
				break;
			}
			case 36: { String* q = d.ToString(); SEE(TEXTS, str(q) == dateText(t), "text of a date"); delete q; break; }
			case 37: case 38: {
				Char buf[64];
				Int32 len = s.FormatString(buf, 64);
				W want = textOfSpan(v);
				SEE(TEXTS, len == (Int32)want.size() && W(buf) == want, "text of a span");
				break;
			}
			case 39: { String* q = s.ToString(); SEE(TEXTS, str(q) == textOfSpan(v), "text of a span"); delete q; break; }
			case 40: { String* q = mkAt(r, (int)r.below(2), textOfSpan(v2)); int64_t g = 0; Ex e = run([&] { g = TimeSpanValue::Parse(q).value; }); SEE(TEXTS, e == NOEX && g == v2, "Parse"); drop(q); break; }
			case 41: { W w = textOfSpan(v2); bool bad = r.chance(1, 3); if (bad) w[r.below(w.size())] = L'x'; String* q = mkAt(r, (int)r.below(2), w); TimeSpan g((Int64)7); bool ok = TimeSpanValue::TryParse(q, g); SEE(TEXTS, ok == !bad && g.value == (bad ? 0 : v2), "TryParse"); drop(q); break; }
			case 42: SEE(SPANS, s.get_Days() == v / TICKS[0], "days"); break;
			case 43: SEE(SPANS, s.get_Hours() == v / TICKS[1] % 24, "hours"); break;
			case 44: SEE(SPANS, s.get_Minutes() == v / TICKS[2] % 60, "minutes"); break;
			case 45: SEE(SPANS, s.get_Seconds() == v / TICKS[3] % 60, "seconds"); break;
			case 46: SEE(SPANS, s.get_Milliseconds() == v / TICKS[4] % 1000, "milliseconds"); break;
			case 47: SEE(SPANS, (int64_t)s.get_Ticks() == v && s.get_AsTimeSpan().value == v, "ticks"); break;
			case 48: case 49: {
				int k = (int)r.below(5);
				double g = k == 0 ? s.get_TotalDays() : k == 1 ? s.get_TotalHours() : k == 2 ? s.get_TotalMinutes() : k == 3 ? s.get_TotalSeconds() : s.get_TotalMilliseconds(), want = (double)v / (double)TICKS[k];
				if (k == 4) want = std::min(922337203685477.0, std::max(-922337203685477.0, want));
				SEE(SPANS, std::fabs(g - want) <= std::fabs(want) * 4.5e-16, "total");
				break;
			}
			case 50: if (r.chance(1, 2)) SPANOF(s.Negate(), -(i128)v, "Negate"); else SPANOF(TimeSpanValue::op_UnaryNegation(u[a]), -(i128)v, "unary minus"); break;
			case 51: SPANOF(s.Duration(), v < 0 ? -(i128)v : (i128)v, "Duration"); break;
			case 52: if (r.chance(1, 2)) SPANOF(s.Add(u[b]), (i128)v + v2, "Add"); else SPANOF(TimeSpanValue::op_Addition(u[a], u[b]), (i128)v + v2, "op_Addition"); break;
			case 53: if (r.chance(1, 2)) SPANOF(s.Subtract(u[b]), (i128)v - v2, "Subtract"); else SPANOF(TimeSpanValue::op_Subtraction(u[a], u[b]), (i128)v - v2, "op_Subtraction"); break;
			case 54: SEE(SPANS, TimeSpanValue::Compare(u[a], u[b]) == scmp && s.CompareTo(u[b]) == scmp && s.CompareTo((Object*)S[b]) == scmp, "Compare"); break;
			case 55: SEE(SPANS, (bool)s.Equals(u[b]) == (scmp == 0) && (bool)s.Equals((Object*)S[b]) == (scmp == 0) && (bool)TimeSpanValue::Equals(u[a], u[b]) == (scmp == 0), "Equals"); break;
			case 56: SEE(SPANS, (bool)TimeSpanValue::op_Equality(u[a], u[b]) == (scmp == 0) && (bool)TimeSpanValue::op_Inequality(u[a], u[b]) == (scmp != 0) && (bool)TimeSpanValue::op_LessThan(u[a], u[b]) == (scmp < 0) &&
				(bool)TimeSpanValue::op_LessThanOrEqual(u[a], u[b]) == (scmp <= 0) && (bool)TimeSpanValue::op_GreaterThan(u[a], u[b]) == (scmp > 0) && (bool)TimeSpanValue::op_GreaterThanOrEqual(u[a], u[b]) == (scmp >= 0), "operators"); break;
			case 57: {
				double q = r.chance(1, 2) ? s.Divide(u[b]) : TimeSpanValue::op_Division(u[a], u[b]), w = v2 == 0 ? (v == 0 ? NAN : v > 0 ? INFINITY : -INFINITY) : (double)v / (double)v2;
				SEE(SPANS, sameD(q, w), "ratio");
				break;
			}
			case 58: {
				double f = (double)r.range(-20, 20) / 4, raw = nearbyint((double)v * f);
				int64_t g = 0;
				Ex e = run([&] { g = s.Multiply(f).value; });
				if (raw >= 9223372036854775808.0 || raw < -9223372036854775808.0) SEE(SPANS, e == OVERFLOWEX, "Multiply"); else SEE(SPANS, e == NOEX && g == (int64_t)raw, "Multiply");
				break;
			}
			default: {  // whatever the machine's zone makes of it: only what it leaves behind counts
				int k = (int)r.below(4);
				run([&] { if (k == 0) d.IsDaylightSavingTime(); else if (k == 1) d.ToLocalTime(); else if (k == 2) d.ToUniversalTime(); else d.ToLocalTime(true); });
			}
			}
			for (int k = 0; k < OBJ; k++) {
				if (mine == DATES && ((int64_t)D[k]->get_Ticks() != dt[k] || (int64_t)x[k].value != dt[k])) { c.fail("in a history: a date changed", "operation %d after %s", op, trail.c_str()); }
				if (mine == SPANS && ((int64_t)S[k]->get_AsTimeSpan().value != sp[k] || u[k].value != sp[k])) { c.fail("in a history: a span changed", "operation %d after %s", op, trail.c_str()); }
			}
		}
		for (int k = 0; k < OBJ; k++) { delete D[k]; delete S[k]; }
	}
	c.event("operations in histories", turns);
	c.event("pairs of successive operations (per shard)", pairs.size());
#undef SEE
#undef TICKSOF
#undef SPANOF
}
}
