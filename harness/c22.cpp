// C22: text of TimeSpan and DateTime: formatting follows the documented grammar, parsing accepts exactly that grammar, and they are inverse.
#include "text.h"
#include "times.h"
static const int64_t TPD = 864000000000LL;
static W spanText(int64_t t) {
	u128 u = t < 0 ? (u128)0 - (u128)(i128)t : (u128)t;
	uint64_t m = (uint64_t)u;
	char b[64];
	std::string r = t < 0 ? "-" : "";
	if (m / TPD) { snprintf(b, sizeof b, "%llu.", (unsigned long long)(m / TPD)); r += b; }
	m %= TPD;
	snprintf(b, sizeof b, "%02d:%02d:%02d", (int)(m / 36000000000LL), (int)(m / 600000000 % 60), (int)(m / 10000000 % 60));
	r += b;
	if (m % 10000000) { snprintf(b, sizeof b, ".%07d", (int)(m % 10000000)); r += b; }
	return wide(r);
}
// [-]d | [-][d.]h:m[:s[.f{1,7}]] | [-]d:h:m:s[.f{1,7}]
static bool parseSpan(const W& w, int64_t& out) {
	size_t p = 0;
	bool neg = false;
	auto num = [&](u128& v) { size_t s = p; v = 0; while (p < w.size() && w[p] >= '0' && w[p] <= '9') { v = v * 10 + (w[p] - '0'); if (v > (u128)1e30) v = (u128)1e30; p++; } return p > s; };
	if (p < w.size() && w[p] == '-') { neg = true; p++; }
	std::vector<u128> f;
	bool dot = false;
	u128 v;
	if (!num(v)) return false;
	f.push_back(v);
	if (p < w.size() && w[p] == '.') { dot = true; p++; if (!num(v)) return false; f.push_back(v); }
	while (p < w.size() && w[p] == ':' && f.size() < 4) { p++; if (!num(v)) return false; f.push_back(v); }
	u128 frac = 0;
	bool full = dot ? f.size() == 4 : f.size() == 3 || f.size() == 4;
	if (p < w.size() && w[p] == '.') {
		if (!full || f.size() < 3) return false;
		p++;
		u128 place = 1000000;
		int k = 0;
		while (p < w.size() && w[p] >= '0' && w[p] <= '9') { if (++k > 7) return false; frac += place * (w[p] - '0'); place /= 10; p++; }
		if (k == 0) return false;
	}
	if (p != w.size()) return false;
	if (dot && f.size() < 3) return false;
	u128 d = 0, h = 0, m = 0, s = 0;
	size_t i = 0;
	if (dot || f.size() == 1 || f.size() == 4) d = f[i++];
	if (i < f.size()) h = f[i++];
	if (i < f.size()) m = f[i++];
	if (i < f.size()) s = f[i++];
	if (h > 23 || m > 59 || s > 59) return false;
	u128 t = d > 20000000 ? (u128)1 << 100 : d * (u128)TPD + h * 36000000000ULL + m * 600000000ULL + s * 10000000ULL + frac;
	u128 lim = (u128)INT64_MAX + (neg ? 1 : 0);
	if (t > lim) return false;
	out = neg ? (int64_t)(0 - (uint64_t)t) : (int64_t)t;
	return true;
}
static int64_t anySpan(Rng& r) {
	switch (r.below(6)) {
	case 0: return r.range(-3, 3) * TPD + r.range(-2, 2);
	case 1: return (int64_t)((uint64_t)INT64_MAX + (uint64_t)r.range(-3, 4));
	case 2: return r.range(-86400, 86400) * 10000000LL;
	case 3: return r.range(-86400000, 86400000) * 10000LL;
	case 4: return r.range(-1000000, 1000000) * TPD + r.range(0, 9) * (int64_t)pow(10, (double)r.range(0, 6));
	default: return interesting64(r);
	}
}
static void parseOne(Ctx& c, const W& w) {
	int64_t want = 0;
	bool ok = parseSpan(w, want);
	String* s = mkAt(c.rng, 0, w);
	static const Int64 prior[] = {12345, 0, -1, INT64_MAX, INT64_MIN, 864000000000LL};
	TimeSpan got(prior[c.rng.below(6)]);
	bool tp = false;
	Ex e0 = run([&] { tp = TimeSpanValue::TryParse(s, got); });
	CHECK(e0 == NOEX, "TryParse threw", "%s", exName(e0));
	int64_t pv = 0;
	Ex e = run([&] { pv = TimeSpanValue::Parse(s).value; });
	if (ok) {
		CHECK(tp && got.value == want, "TryParse", "%d %lld expected %lld", (int)tp, (long long)got.value, (long long)want);
		CHECK(e == NOEX && pv == want, "Parse", "%s %lld expected %lld", exName(e), (long long)pv, (long long)want);
		c.event("texts parsed");
	} else {
		CHECK(!tp, "malformed text accepted", "as %lld", (long long)got.value);
		CHECK(e == FORMAT || e == OVERFLOWEX, "malformed text parsed", "%s %lld", exName(e), (long long)pv);
		CHECK(got.value == 0, "result of a failed TryParse", "%lld", (long long)got.value);
		c.event("texts refused");
	}
	CHECK(str(s) == w, "source text changed", "\"%s\"", Q(str(s)));
	drop(s);
}
static void roundTrip(Ctx& c, int64_t t, bool toString) {
	TimeSpanValue v((TimeSpan)(Int64)t);
	W want = spanText(t);
	Char buf[64];
	Int32 len = v.FormatString(buf, 64);
	CHECK(len == (Int32)want.size() && W(buf) == want, "text", "\"%s\" expected \"%s\"", Q(W(buf)), Q(want));
	if (toString) {
		String* s = v.ToString();
		CHECK(str(s) == want, "ToString", "\"%s\"", Q(str(s)));
		delete s;
	}
	parseOne(c, want);
}
SECTION(spanroundtrip, 2, 8) {
	uint64_t n = c.n(150000, 8000000);
	for (uint64_t i = 0; i < n; i++) {
		int64_t t = anySpan(c.rng);
		c.begin(true, "TimeSpan %lld as text", (long long)t);
		roundTrip(c, t, i % 4 == 0);
	}
}
SECTION(spangrid, 4, 8) {
	uint64_t k = 0;
	times::grid([&](int64_t t) {
		if (!c.mine(k++)) return;
		c.bulk("TimeSpan as text", t);
		roundTrip(c, t, k % 4 == 0);
		c.event("round numbers of units");
	});
	// every second of a day on some day, and many whole days and fractions, of both signs
	for (int64_t s = c.shard; s < 86400; s += c.shards) {
		int64_t t = (c.rng.range(-3, 3) * TPD + (c.rng.chance(1, 2) ? s : -s) * 10000000) + (c.rng.chance(1, 4) ? c.rng.range(0, 9999999) : 0);
		c.bulk("TimeSpan as text", t);
		roundTrip(c, t, false);
	}
	int64_t step = (c.thorough ? 3 : 211) * c.shards;
	for (int64_t d = (int64_t)c.rng.below(step); d <= 10675199; d += step) {
		c.bulk("TimeSpan of whole days as text", d);
		roundTrip(c, d * TPD, false);
		if (d) roundTrip(c, -d * TPD, false);
		c.event("whole days");
	}
	for (int64_t f = (int64_t)c.rng.below(step); f < 10000000; f += step) {
		c.bulk("TimeSpan of a fraction of a second as text", f);
		roundTrip(c, f, false);
		c.event("fractions of a second");
	}
}
SECTION(spanparse, 2, 8) {
	uint64_t n = c.n(200000, 10000000);
	for (uint64_t i = 0; i < n; i++) {
		W w;
		if (c.rng.chance(1, 2)) {  // near-valid: build from fields
			auto field = [&](int max) { char b[32]; int64_t v = c.rng.chance(1, 6) ? max + c.rng.range(-1, 2) : (int64_t)c.rng.below(max + 1); snprintf(b, sizeof b, c.rng.chance(1, 2) ? "%lld" : c.rng.chance(1, 3) ? "%03lld" : "%02lld", (long long)v); return wide(b); };
			if (c.rng.chance(1, 3)) w += L'-';
			int k = (int)c.rng.range(1, 5);
			if (k == 4 && c.rng.chance(1, 2)) { w += field(10675199) + (c.rng.chance(1, 8) ? L":" : L".") + field(23) + L":" + field(59) + L":" + field(59); }
			else for (int j = 0; j < k; j++) { if (j) w += c.rng.chance(1, 12) ? L'.' : L':'; w += field(j == 0 ? (k == 1 || k == 4 ? 10675199 : 23) : j == 1 && k == 4 ? 23 : 59); }
			if (c.rng.chance(1, 2)) { w += L'.'; int f = (int)c.rng.range(0, 9); while (f--) w += (wchar_t)(L'0' + c.rng.below(10)); }
		} else if (c.rng.chance(1, 2)) {
			w = spanText(anySpan(c.rng));
		} else {
			static const wchar_t al[] = L"0123456789:.-::.. +x\x0661";
			int k = (int)c.rng.range(0, 14);
			while (k--) w += al[c.rng.below(21)];
		}
		if (c.rng.chance(1, 8) && !w.empty()) {  // a character that only looks right when narrowed
			size_t at = c.rng.below(w.size());
			w[at] = (wchar_t)((w[at] + (c.rng.chance(1, 2) ? 0x100 * c.rng.range(1, 0x10ff) : 0x10000 * c.rng.range(1, 16))) & 0x1fffff);
		} else if (c.rng.chance(1, 3) && !w.empty()) {
			static const wchar_t al[] = L"0199:.- +\tx,/;";
			size_t at = c.rng.below(w.size() + 1);
			switch (c.rng.below(3)) {
			case 0: w.insert(at, 1, al[c.rng.below(13)]); break;
			case 1: w.erase(std::min(at, w.size() - 1), 1); break;
			default: w[std::min(at, w.size() - 1)] = al[c.rng.below(13)];
			}
		}
		c.begin(w.size() > 1, "TimeSpan text \"%s\"", Q(w));
		parseOne(c, w);
	}
	TimeSpan r((Int64)(c.shard % 3 == 0 ? 0 : c.shard % 3 == 1 ? 12345 : INT64_MIN));
	c.begin(true, "TimeSpan text null");
	CHECK(!TimeSpanValue::TryParse(nullptr, r) && r.value == 0 && run([&] { TimeSpanValue::Parse(nullptr); }) == ANULL, "null text", "%lld", (long long)r.value);
}
// fields of many digits: leading zeros do not change a value, and nothing wraps
SECTION(spanlengths, 4, 8) {
	uint64_t n = c.n(4000, 200000);
	Rng& r = c.rng;
	for (uint64_t i = 0; i < n; i++) {
		int k = (int)r.range(1, 4);
		W w = r.chance(1, 3) ? L"-" : L"";
		auto field = [&](int max) {
			W z(r.chance(1, 3) ? bigSize(r, 40000) : r.below(3), L'0');
			int64_t v = r.chance(1, 6) ? max + r.range(-1, 1) : (int64_t)r.below(max + 1);
			if (r.chance(1, 12)) v += (r.chance(1, 2) ? (1LL << 32) : (1LL << 31)) * r.range(1, 4);  // equal to the field when wrapped
			W d = wide(std::to_string((long long)v));
			if (r.chance(1, 25)) d = wide(dec((((i128)1 << 64)) * r.range(1, 4) + v));
			if (r.chance(1, 25)) d += W(bigSize(r, 40000), L'0');
			return z + d;
		};
		if (k == 4) w += field(10675199) + (r.chance(1, 2) ? L"." : L":") + field(23) + L":" + field(59) + L":" + field(59);
		else for (int j = 0; j < k; j++) w += (j ? L":" : L"") + field(j == 0 ? (k == 1 ? 10675199 : 23) : 59);
		if (k > 2 && r.chance(1, 2)) { w += L'.'; int f = r.chance(1, 4) ? bigSize(r, 2000) : (int)r.range(0, 9); while (f--) w += (wchar_t)(L'0' + r.below(10)); }
		if (r.chance(1, 8)) w += W(bigSize(r, 2000), r.chance(1, 2) ? L'0' : L'x');
		c.begin(true, "TimeSpan text of %d characters, %d fields, seed %llu: %s", (int)w.size(), k, (unsigned long long)r.s, Q(w.substr(0, 200)));
		parseOne(c, w);
		c.event("long texts");
	}
}
SECTION(datetext, 2, 8) {
	uint64_t n = c.n(100000, 6000000);
	static const int dm[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
	for (uint64_t i = 0; i < n; i++) {
		int y = c.rng.chance(1, 4) ? (int)c.rng.range(1, 12) : (int)c.rng.range(1, 9999), m = (int)c.rng.range(1, 12);
		bool lp = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
		int d = (int)c.rng.range(1, m == 2 && lp ? 29 : dm[m - 1]), h = c.rng.chance(1, 3) ? (int)(c.rng.below(3) * 11.5) : (int)c.rng.below(24), mi = (int)c.rng.below(60), s = (int)c.rng.below(60), ms = (int)c.rng.below(1000);
		c.begin(true, "DateTime %d/%d/%d %d:%d:%d.%d as text", y, m, d, h, mi, s, ms);
		DateTime made(y, m, d, h, mi, s, ms);
		DateTimeValue v(DateTime((UInt64)(made.value + (c.rng.chance(1, 2) ? c.rng.below(10000) : 0))));  // any part of a millisecond
		char b[64];
		snprintf(b, sizeof b, "%d/%d/%d %d:%02d:%02d %s", m, d, y, h > 12 ? h - 12 : h, mi, s, h >= 12 ? "PM" : "AM");
		W want = wide(b);
		Char buf[64];
		Int32 len = v.FormatString(buf, 64);
		CHECK(len == (Int32)want.size() && W(buf) == want, "text", "\"%s\" expected \"%s\"", Q(W(buf)), b);
		if (i % 4 == 0) {
			String* t = v.ToString();
			CHECK(str(t) == want, "ToString", "\"%s\"", Q(str(t)));
			delete t;
			// through composite formatting and StringBuilder, among other arguments
			StringBuilder sb;
			sb.Append((Object*)&v);
			String* u = sb.ToString();
			CHECK(str(u) == want, "appended text", "\"%s\"", Q(str(u)));
			delete u;
		}
		c.event("dates formatted");
	}
}
// every day of the calendar, each at some time of day, and every second of the day
SECTION(everyday, 8, 8) {
	for (int y = 1; y <= 9999; y++) {
		if (!c.mine(y)) continue;
		int64_t day = times::dayOf(y, 1, 1);
		for (int m = 1; m <= 12; m++)
			for (int d = 1; d <= times::daysOf(y, m); d++, day++) {
				if (!c.thorough && !c.rng.chance(1, 4)) continue;
				int s = (int)c.rng.below(86400), h = s / 3600;
				c.bulk("DateTime as text", day, s);
				DateTimeValue v(DateTime((UInt64)(day * TPD + s * 10000000LL + (int64_t)c.rng.below(10000000))));
				char b[64];
				Char buf[64];
				int k = snprintf(b, sizeof b, "%d/%d/%d %d:%02d:%02d %s", m, d, y, h > 12 ? h - 12 : h, s / 60 % 60, s % 60, h >= 12 ? "PM" : "AM");
				Int32 len = v.FormatString(buf, 64);
				bool same = len == k && buf[k] == 0;
				for (int q = 0; same && q < k; q++) same = buf[q] == (Char)b[q];
				CHECK(same, "text", "\"%s\" expected \"%s\"", Q(W(buf)), b);
				c.event("days formatted");
			}
	}
}
// every character before, behind and inside a time span's text
SECTION(everychar, 4, 8) {
	everyChar(c, "TimeSpan text with the character", [&](wchar_t ch) {
		W x(1, ch);
		W t[] = {x + L"7", L"7" + x, L"1" + x + L"2", x, L"01:02" + x + L"03", x + L"1:02:03", L"1" + x + L"02:03", L"1:02:03" + x, L"1:02:03" + x + L"5", L"1" + x + L"02:03:04", L"-" + x + L"1:02", L"1:" + x + L"2", L"1:02:03.5" + x};
		for (int q = 0; q < 4; q++) parseOne(c, t[(ch + q * 3) % 13]);
	});
}
// all operations of dates and spans in any order: the answers of this property do not depend on what was asked before
SECTION(sequences, 4, 8) { times::histories(c, times::TEXTS, c.n(60000, 4000000)); }
