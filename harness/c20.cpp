// C20: clock: Now/UtcNow/Today and local/universal conversion report the system clock in the configured time zone.
// The clock is interposed (and can advance on every read); the reference is the C library's own zone arithmetic.
#include "vf.h"
#include <sys/time.h>
#include <time.h>

static bool fake = false;
static int64_t fakeSec, fakeNsec, stepNs;
static uint64_t reads;
static void readClock(struct timespec* t) {
	t->tv_sec = fakeSec;
	t->tv_nsec = fakeNsec;
	reads++;
	int64_t ns = fakeNsec + stepNs;
	fakeSec += ns / 1000000000;
	fakeNsec = ns % 1000000000;
}
#include <sys/syscall.h>
extern "C" __attribute__((no_sanitize("address"))) int clock_gettime(clockid_t id, struct timespec* t) {
	if (fake && id == CLOCK_REALTIME) { readClock(t); return 0; }
	return (int)syscall(SYS_clock_gettime, id, t);
}
extern "C" time_t time(time_t* out) {
	struct timespec t;
	clock_gettime(CLOCK_REALTIME, &t);
	if (out) *out = t.tv_sec;
	return t.tv_sec;
}
extern "C" int gettimeofday(struct timeval* tv, void*) {
	struct timespec t;
	clock_gettime(CLOCK_REALTIME, &t);
	tv->tv_sec = t.tv_sec;
	tv->tv_usec = t.tv_nsec / 1000;
	return 0;
}
extern "C" int timespec_get(struct timespec* t, int base) {
	clock_gettime(CLOCK_REALTIME, t);
	return base;
}

static const int64_t TPS = 10000000LL, TPD = 864000000000LL, MAXT = 3155378975999999999LL, EPOCH = 62135596800LL;
static const char* zones[] = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "PST8PDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "<+0530>-5:30", "<+0545>-5:45", "<+14>-14", "<-12>12",
	"<+1245>-12:45<+1345>,M9.5.0/2:45,M4.1.0/3:45", "NST3:30NDT,M3.2.0,M11.1.0", "AEST-10AEDT,M10.1.0,M4.1.0/3", "<-0930>9:30", "<+0020>-0:20:30", "JST-9", "<-03>3<-02>,M3.5.0/-2,M10.5.0/-1"};
static const int NZ = sizeof zones / sizeof *zones;

static void setZone(const char* z) { setenv("TZ", z, 1); }
// seconds east of UTC at instant t, and whether daylight saving is in force, by the C library
static int64_t offsetAt(int64_t t, bool* dst = nullptr) {
	time_t tt = (time_t)t;
	struct tm tm;
	tzset();
	localtime_r(&tt, &tm);
	if (dst) *dst = tm.tm_isdst > 0;
	return tm.tm_gmtoff;
}
static int64_t anyInstant(Rng& r) {
	switch (r.below(6)) {
	case 0: return r.range(-10, 10);
	case 1: return (int64_t)r.range(-25000, 2900000) * 86400 + r.range(-2, 2);         // midnight UTC
	case 2: { struct tm tm; memset(&tm, 0, sizeof tm); tm.tm_year = (int)r.range(-1800, 8098); tm.tm_mon = 0; tm.tm_mday = 1; return (int64_t)timegm(&tm) + r.range(-15 * 3600, 15 * 3600); }  // around new year
	case 3: { struct tm tm; memset(&tm, 0, sizeof tm); tm.tm_year = (int)r.range(70, 200); tm.tm_mon = (int)r.below(12); tm.tm_mday = (int)r.range(1, 14); return (int64_t)timegm(&tm) + r.range(0, 86399); }
	case 4: return r.range(-EPOCH + 2 * 86400, 253402300799LL - 2 * 86400);
	default: return r.range(0, 4102444800LL);
	}
}

SECTION(fakeclock, 4, 8) {
	uint64_t n = c.n(40000, 2000000);
	for (uint64_t i = 0; i < n; i++) {
		const char* z = zones[c.rng.below(NZ)];
		int64_t t = anyInstant(c.rng), ns = c.rng.chance(1, 3) ? (c.rng.chance(1, 2) ? 999999999 : 0) : c.rng.range(0, 999999999);
		int64_t step = c.rng.chance(1, 2) ? 0 : c.rng.chance(1, 2) ? c.rng.range(1, 3000000) : c.rng.range(1, 2000000000);
		if (step && c.rng.chance(1, 2)) {  // about to cross a local midnight
			setZone(z);
			int64_t off = offsetAt(t), local = t + off;
			t = local - ((local % 86400) + 86400) % 86400 + 86399 - off;
			ns = 999999999 - c.rng.range(0, 1000000);
		}
		c.begin(true, "zone %s clock %lld.%09lld advancing %lld ns per read", z, (long long)t, (long long)ns, (long long)step);
		setZone(z);
		for (int what = 0; what < 3; what++) {
			fakeSec = t; fakeNsec = ns; stepNs = step; reads = 0;
			DateTime got;
			fake = true;
			Ex e = run([&] { got = what == 0 ? DateTimeValue::get_UtcNow() : what == 1 ? DateTimeValue::get_Now() : DateTimeValue::get_Today(); });
			fake = false;
			const char* key = what == 0 ? "UtcNow" : what == 1 ? "Now" : "Today";
			CHECK(e == NOEX, key, "%s", exName(e));
			if (e != NOEX) continue;
			CHECK(reads >= 1, "clock not read", "%s", key);
			// one of the instants the clock showed
			bool match = false;
			int64_t a = t, an = ns, want = 0;
			for (uint64_t k = 0; k < reads && !match; k++) {
				int64_t local = a + (what == 0 ? 0 : offsetAt(a)) + EPOCH;
				want = local * TPS + an / 1000000 * 10000;
				if (what == 2) want = local / 86400 * TPD;
				match = (int64_t)got.value == want || (what != 2 && (int64_t)got.value == local * TPS + an / 100);
				int64_t s = an + step;
				a += s / 1000000000;
				an = s % 1000000000;
			}
			CHECK(match, key, "gave %llu, the clock showed %lld over %llu reads", (unsigned long long)got.value, (long long)want, (unsigned long long)reads);
			c.event("clock readings");
		}
	}
	c.event("zones", NZ);
}
SECTION(convert, 4, 8) {
	uint64_t n = c.n(60000, 3000000);
	for (uint64_t i = 0; i < n; i++) {
		const char* z = zones[c.rng.below(NZ)];
		int64_t t = anyInstant(c.rng);
		uint64_t x = c.rng.chance(1, 4) ? (c.rng.chance(1, 2) ? c.rng.below(15 * 36000000000ULL) : MAXT - c.rng.below(15 * 36000000000ULL)) : c.rng.below(MAXT);
		if (c.rng.chance(1, 3)) { static const uint64_t unit[] = {10, 10000, 10000000, 600000000, 36000000000, 864000000000, 1 << 12, 1 << 16, 1 << 24, 1ULL << 32}; x -= x % unit[c.rng.below(10)]; }
		c.begin(true, "zone %s clock %lld converting %llu", z, (long long)t, (unsigned long long)x);
		setZone(z);
		int64_t off = offsetAt(t);
		DateTimeValue v((DateTime((UInt64)x)));
		fakeSec = t; fakeNsec = 0; stepNs = 0; reads = 0;
		uint64_t l = 0, u = 0, l2 = 0;
		fake = true;
		Ex e1 = run([&] { l = v.ToLocalTime().value; });
		Ex e2 = run([&] { u = v.ToUniversalTime().value; });
		Ex e3 = run([&] { l2 = v.ToLocalTime(true).value; });
		fake = false;
		i128 wl = (i128)x + (i128)off * TPS, wu = (i128)x - (i128)off * TPS;
		if (wl >= 0 && wl <= MAXT) { CHECK(e1 == NOEX && (i128)l == wl && e3 == NOEX && l2 == l, "ToLocalTime", "gave %llu expected %s (%s)", (unsigned long long)l, dec(wl).c_str(), exName(e1)); c.event("conversions"); }
		else { CHECK(e1 == AOOR && e3 == AOOR, "ToLocalTime out of range", "%s %llu", exName(e1), (unsigned long long)l); c.event("conversions refused"); }
		if (wu >= 0 && wu <= MAXT) { CHECK(e2 == NOEX && (i128)u == wu, "ToUniversalTime", "gave %llu expected %s (%s)", (unsigned long long)u, dec(wu).c_str(), exName(e2)); c.event("conversions"); }
		else { CHECK(e2 == AOOR, "ToUniversalTime out of range", "%s %llu", exName(e2), (unsigned long long)u); c.event("conversions refused"); }
		CHECK((uint64_t)v.get_Ticks() == x, "operand changed", "%lld", (long long)v.get_Ticks());
		if (e1 == NOEX) {
			uint64_t back = 0;
			DateTimeValue lv((DateTime((UInt64)l)));
			fake = true;
			Ex e = run([&] { back = lv.ToUniversalTime().value; });
			fake = false;
			CHECK(e == NOEX && back == x, "local and back", "%llu %s", (unsigned long long)back, exName(e));
		}
	}
}
SECTION(dst, 2, 8) {
	uint64_t n = c.n(60000, 3000000);
	for (uint64_t i = 0; i < n; i++) {
		const char* z = zones[c.rng.below(NZ)];
		setZone(z);
		int64_t t = anyInstant(c.rng);
		if (c.rng.chance(1, 2)) t = (int64_t)c.rng.range(0, 8000) * 31556952 - 50000000000LL + (int64_t)c.rng.below(31556952);
		if (t < -EPOCH + 3 * 86400 || t > 253402300799LL - 3 * 86400) t = c.rng.range(0, 4102444800LL);
		bool dst, d1, d2;
		int64_t off = offsetAt(t, &dst);
		offsetAt(t - 7500, &d1);
		offsetAt(t + 7500, &d2);
		if (dst != d1 || dst != d2) { c.event("skipped: near a switch"); continue; }  // the local time may be ambiguous
		int64_t ticks = (t + off + EPOCH) * TPS + (c.rng.chance(1, 2) ? c.rng.range(0, TPS - 1) : c.rng.chance(1, 2) ? 0 : c.rng.range(0, 999) * 10000);
		if (c.rng.chance(1, 4)) ticks -= ticks % (60 * TPS);
		c.begin(true, "zone %s local ticks %lld", z, (long long)ticks);
		DateTimeValue v((DateTime((UInt64)ticks)));
		bool got = v.IsDaylightSavingTime();
		CHECK(got == dst, "IsDaylightSavingTime", "%d expected %d", (int)got, (int)dst);
		c.event(dst ? "daylight saving instants" : "standard instants");
		CHECK((int64_t)v.get_Ticks() == ticks, "operand changed", "%lld", (long long)v.get_Ticks());
	}
}
// one zone, a clock that goes forward, back and across switches and midnights between calls: every answer belongs to the
// instant of its own call, whatever was asked before
SECTION(walk, 4, 8) {
	uint64_t n = c.n(2400, 100000);
	Rng& r = c.rng;
	for (uint64_t i = 0; i < n; i++) {
		const char* z = zones[r.below(NZ)];
		setZone(z);
		// around the switches of some year, if the zone has any
		int64_t y = (int64_t)r.range(0, 60) * 31556952, marks[3] = {y, y + (int64_t)r.below(31556952), y};
		int found = 0;
		for (int64_t d = 0; d < 366 && found < 2; d++)
			if (offsetAt(y + d * 86400) != offsetAt(y + (d + 1) * 86400)) {
				int64_t a = y + d * 86400, b = a + 86400;
				while (b - a > 1) { int64_t m = (a + b) / 2; (offsetAt(m) == offsetAt(a) ? a : b) = m; }
				marks[found++] = b;
			}
		int64_t t = marks[r.below(3)];
		std::string where;
		for (int k = 0; k < 40; k++) {
			switch (r.below(8)) {
			case 0: t = marks[r.below(3)] + r.range(-2, 2); break;
			case 1: t = marks[r.below(3)] + r.range(-4000, 4000); break;
			case 2: t = marks[r.below(3)] + r.range(-90000, 90000); break;
			case 3: t += r.range(-3, 3); break;
			case 4: t += r.range(-4000, 4000); break;
			case 5: t += 86400 * r.range(-2, 2); break;
			case 6: { int64_t off = offsetAt(t), local = t + off; t = local - ((local % 86400) + 86400) % 86400 + 86400 * r.range(0, 1) + r.range(-2, 1) - off; break; }
			default: break;
			}
			int what = (int)r.below(5);
			int64_t ms = r.chance(1, 2) ? 0 : r.range(0, 999), off = offsetAt(t), want = 0;
			uint64_t x = TPD * 20000 + r.below((uint64_t)TPD * 3000000);
			c.begin(true, "zone %s walk %llu step %d, call %d at %lld", z, (unsigned long long)i * c.shards + c.shard, k, what, (long long)t);
			fakeSec = t; fakeNsec = ms * 1000000; stepNs = 0; reads = 0;
			int64_t utc = (t + EPOCH) * TPS + ms * 10000, local = utc + off * TPS;
			uint64_t got = 0;
			DateTimeValue v((DateTime((UInt64)x)));
			fake = true;
			Ex e = run([&] {
				switch (what) {
				case 0: got = DateTimeValue::get_UtcNow().value; break;
				case 1: got = DateTimeValue::get_Now().value; break;
				case 2: got = DateTimeValue::get_Today().value; break;
				case 3: got = v.ToLocalTime().value; break;
				default: got = v.ToUniversalTime().value; break;
				}
			});
			fake = false;
			switch (what) {
			case 0: want = utc; break;
			case 1: want = local; break;
			case 2: want = local / TPD * TPD; break;
			case 3: want = (int64_t)x + off * TPS; break;
			default: want = (int64_t)x - off * TPS; break;
			}
			static const char* names[] = {"UtcNow on a walk", "Now on a walk", "Today on a walk", "ToLocalTime on a walk", "ToUniversalTime on a walk"};
			CHECK(e == NOEX && (int64_t)got == want, names[what], "gave %llu (%s) expected %lld", (unsigned long long)got, exName(e), (long long)want);
			c.event("walk readings");
			if (k && where != std::to_string(off)) c.event("offset changes met");
			where = std::to_string(off);
		}
	}
}
// the real clock: readings lie between two reads of the harness, and never run backwards
SECTION(realclock, 1, 2) {
	uint64_t n = c.n(20000, 300000);
	int64_t prev = 0;
	const char* z = zones[0];
	for (uint64_t i = 0; i < n; i++) {
		if (i % 100 == 0) { z = zones[c.rng.below(NZ)]; setZone(z); prev = 0; }
		struct timespec a, b;
		c.begin(true, "real clock in zone %s, reading %llu", z, (unsigned long long)i);
		clock_gettime(CLOCK_REALTIME, &a);
		DateTime u = DateTimeValue::get_UtcNow(), l = DateTimeValue::get_Now();
		clock_gettime(CLOCK_REALTIME, &b);
		int64_t lo = (a.tv_sec + EPOCH) * TPS + a.tv_nsec / 1000000 * 10000, hi = (b.tv_sec + EPOCH) * TPS + b.tv_nsec / 100;
		if (hi < lo) continue;  // the system clock was set back
		CHECK((int64_t)u.value >= lo && (int64_t)u.value <= hi, "UtcNow outside the real interval", "%llu not in [%lld, %lld]", (unsigned long long)u.value, (long long)lo, (long long)hi);
		int64_t oa = offsetAt(a.tv_sec) * TPS, ob = offsetAt(b.tv_sec) * TPS;
		CHECK((int64_t)l.value >= lo + oa && (int64_t)l.value <= hi + ob, "Now outside the real interval", "%llu", (unsigned long long)l.value);
		CHECK((int64_t)u.value >= prev || prev > lo, "UtcNow ran backwards", "%llu after %lld", (unsigned long long)u.value, (long long)prev);
		prev = (int64_t)u.value;
		c.event("real readings");
	}
}
