// C14: floating text: parsing accepts exactly decimal notation and gives the correctly rounded value; formatted finite values
// parse back to the value they show (six significant digits); TryParse agrees with Parse.
#include "text.h"
#include <limits>

template <class T> T reference(const std::string& s);
template <> double reference<double>(const std::string& s) { return strtod(s.c_str(), nullptr); }
template <> float reference<float>(const std::string& s) { return strtof(s.c_str(), nullptr); }
template <class T> bool same(T a, T b);
template <> bool same<double>(double a, double b) { return sameD(a, b); }
template <> bool same<float>(float a, float b) { return sameF(a, b); }

// decimal notation without the cases left open (infinities, NaN, group separators)
static bool decimal(const W& t, std::string& core) {
	size_t i = 0, n = t.size();
	auto ws = [&](wchar_t ch) { return ch == L' ' || (ch >= 9 && ch <= 13); };
	while (i < n && ws(t[i])) i++;
	core.clear();
	if (i < n && (t[i] == L'-' || t[i] == L'+')) core += (char)t[i++];
	size_t digits = 0;
	while (i < n && t[i] >= L'0' && t[i] <= L'9') { core += (char)t[i++]; digits++; }
	if (i < n && t[i] == L'.') {
		core += '.';
		i++;
		while (i < n && t[i] >= L'0' && t[i] <= L'9') { core += (char)t[i++]; digits++; }
	}
	if (!digits) return false;
	if (i < n && (t[i] == L'e' || t[i] == L'E')) {
		size_t j = i + 1;
		std::string ex = "e";
		if (j < n && (t[j] == L'-' || t[j] == L'+')) ex += (char)t[j++];
		size_t d0 = j;
		while (j < n && t[j] >= L'0' && t[j] <= L'9') ex += (char)t[j++];
		if (j == d0) return false;
		core += ex;
		i = j;
	}
	while (i < n && ws(t[i])) i++;
	return i == n;
}
template <class T, class V> struct FloatText {
	// text whose acceptance is not fixed: Parse and TryParse agree all the same; what is accepted is no finite number
	static void agree(Ctx& c, const char* name, const W& t, bool beyond, bool neg) {
		String* s = mkAt(c.rng, 0, t);
		T got = 77, tr = 77;
		Ex e = run([&] { got = V::Parse(s); });
		bool ok = false;
		Ex e2 = run([&] { ok = V::TryParse(s, tr); });
		CHECK(e2 == NOEX && ok == (e == NOEX), "TryParse verdict", "%s \"%s\" gave %d (%s), Parse %s", name, Q(t), ok, exName(e2), exName(e));
		if (ok) {
			CHECK(same<T>(got, tr), "TryParse value", "%s \"%s\" gave %.17g, Parse %.17g", name, Q(t), (double)tr, (double)got);
			CHECK(beyond ? std::isinf(got) && (got < 0) == neg : got != got || std::isinf(got), "Parse value", "%s \"%s\" gave %.17g", name, Q(t), (double)got);
		} else {
			CHECK(e == FORMAT || (beyond && e == OVERFLOWEX), "Parse error", "%s \"%s\": %s", name, Q(t), exName(e));
			CHECK(same<T>(tr, 0) && !std::signbit(tr), "TryParse result after failure", "%s \"%s\" left %.17g", name, Q(t), (double)tr);
		}
		CHECK(str(s) == t, "parsing changed its text", "%s", name);
		c.event("texts beyond the type and words: Parse and TryParse agree");
		drop(s);
	}
	static void parse(Ctx& c, const char* name, const W& t) {
		std::string core;
		bool good = decimal(t, core);
		// whether the end of a number may be padded with NUL characters is left open
		size_t stop = t.find_last_not_of(W(L" \t\r\n\v\f") + L'\0');
		if (stop != W::npos && t.find(L'\0', stop) != W::npos && decimal(t.substr(0, stop + 1), core)) { c.event("numbers padded with NUL left open"); return; }
		if (good && std::isinf(reference<T>(core))) { agree(c, name, t, true, core[0] == '-'); return; }
		String* s = mkAt(c.rng, 0, t);
		static const T prior[] = {(T)77, (T)-77, (T)0, (T)-0.0, (T)INFINITY, (T)-INFINITY, (T)NAN, std::numeric_limits<T>::max(), std::numeric_limits<T>::denorm_min()};
		T got = 77, tr = prior[c.rng.below(9)];
		Ex e = run([&] { got = V::Parse(s); });
		bool ok = false;
		Ex e2 = run([&] { ok = V::TryParse(s, tr); });
		CHECK(e2 == NOEX && ok == good, "TryParse verdict", "%s \"%s\" gave %d (%s)", name, Q(t), ok, exName(e2));
		if (good) {
			T want = reference<T>(core);
			CHECK(e == NOEX && same<T>(got, want), "Parse value", "%s \"%s\" gave %.17g (%s) expected %.17g", name, Q(t), (double)got, exName(e), (double)want);
			CHECK(same<T>(tr, want), "TryParse value", "%s \"%s\" gave %.17g expected %.17g", name, Q(t), (double)tr, (double)want);
			c.event("texts accepted");
		} else {
			CHECK(e == FORMAT, "Parse error", "%s \"%s\": %s %.17g", name, Q(t), exName(e), (double)got);
			CHECK(same<T>(tr, 0) && !std::signbit(tr), "TryParse result after failure", "%s \"%s\" left %.17g", name, Q(t), (double)tr);
			c.event("texts refused");
		}
		CHECK(str(s) == t, "parsing changed its text", "%s", name);
		drop(s);
	}
	static void format(Ctx& c, const char* name, T v) {
		V box(v);
		String* s = box.ToString();
		W t = str(s);
		Char b[64];
		int n = box.FormatString(b, 64);
		CHECK(n >= 0 && W(b, b + n) == t && b[n] == 0, "formatted text", "%s FormatString \"%s\"", name, Q(t));
		delete s;
		if (v != v || std::isinf(v)) {
			std::string junk;
			CHECK(!t.empty() && !decimal(t, junk), "text of a value that is no number looks like one", "%s \"%s\"", name, Q(t));
			if (std::isinf(v)) CHECK((t[0] == L'-') == (v < 0), "sign of infinity", "%s \"%s\"", name, Q(t));
			c.event("non-finite formatted");
			return;
		}
		std::string core;
		CHECK(decimal(t, core), "formatted text is not decimal notation", "%s %.17g gave \"%s\"", name, (double)v, Q(t));
		long double shown = strtold(core.c_str(), nullptr), err = fabsl(shown - (long double)v);
		CHECK(err <= fabsl((long double)v) * 5.01e-6L, "formatted text is not within six digits of the value", "%s %.17g gave \"%s\"", name, (double)v, Q(t));
		CHECK((t[0] == L'-') == (v < 0 || (v == 0 && std::signbit(v))), "sign of the formatted text", "%s %.17g gave \"%s\"", name, (double)v, Q(t));
		if (v == std::floor(v) && std::fabs(v) < 1e6) {
			char w[32];
			snprintf(w, sizeof w, "%.0f", (double)v);
			CHECK(t == wide(w), "small whole number not written out", "%s %.17g gave \"%s\"", name, (double)v, Q(t));
			c.event("whole numbers formatted");
		}
		T tr = 0;
		String* again = mk(t);
		CHECK(V::TryParse(again, tr) && same<T>(tr, reference<T>(core)), "formatted text does not parse back", "%s \"%s\" gave %.17g", name, Q(t), (double)tr);
		delete again;
		c.event("values formatted");
	}
	static W number(Rng& r) {
		W t;
		int form = (int)r.below(6);
		auto digits = [&](int n) { W d; while (n-- > 0) d += (wchar_t)(L'0' + r.below(10)); return d; };
		if (r.chance(1, 4)) t += r.chance(1, 2) ? L'-' : L'+';
		char b[400];
		switch (form) {
		case 0: { T v; do v = (T)interestingD(r); while (v != v || std::isinf(v)); snprintf(b, sizeof b, "%.*g", (int)r.range(1, 20), (double)v); t = wide(b); break; }
		case 1: t += digits((int)r.range(1, 25)) + L"." + digits((int)r.range(0, 25)); break;
		case 2: t += L"." + digits((int)r.range(1, 60)); break;
		case 3: t += digits((int)r.range(1, 120)); break;
		case 4: t += digits(1) + L"." + digits((int)r.range(0, 20)) + (r.chance(1, 2) ? L"e" : L"E") + (r.chance(1, 2) ? L"-" : r.chance(1, 2) ? L"+" : L"") + digits((int)r.range(1, 3)); break;
		default: t += W(r.below(5), L'0') + digits((int)r.range(1, 6)) + (r.chance(1, 2) ? L"." + digits((int)r.range(1, 6)) : L""); break;
		}
		return t;
	}
	static void random(Ctx& c, const char* name, uint64_t n) {
		Rng& r = c.rng;
		for (uint64_t i = 0; i < n; i++) {
			T v = (T)(sizeof(T) == 8 ? interestingD(r) : (double)interestingF(r));
			if (r.chance(1, 4)) v = (T)r.range(-1100000, 1100000);
			if (r.chance(1, 4)) v = (T)((double)r.range(-9999999, 9999999) * std::pow(10.0, (double)r.range(-20, 20)));
			if (r.chance(1, 2)) {
				c.begin(true, "%s value %.17g", name, (double)v);
				format(c, name, v);
			}
			W t = number(r);
			switch (r.below(13)) {
			case 12: t.insert(r.below(t.size() + 1), 1 + r.below(2), L'\0'); break;
			case 0: t = L" \t" + t; break;
			case 1: t += L"\r\n "; break;
			case 2: { static const wchar_t k[] = {L'e', L'E', L'.', L'-', L'+', L' ', L'5', L'g', L'_', L'/', L'$', 0x665}; size_t p = r.below(t.size() + 1); t.insert(p, 1, k[r.below(12)]); break; }
			case 3: t = t.substr(0, r.below(t.size() + 1)); break;
			case 4: t = smallText(r, 7, L"0159.eE-+ "); break;
			case 5: t = t + L" " + t; break;
			case 6: if (r.chance(1, 4)) t = W(oddLength(r), r.chance(1, 2) ? L' ' : L'\t') + t; else if (r.chance(1, 3)) t += W(oddLength(r), L' '); break;
			case 7: if (r.chance(1, 4)) { size_t p = r.below(t.size() + 1); t.insert(p, 1, (wchar_t)((r.chance(1, 2) ? L'0' + r.below(10) : t[r.below(t.size())]) + 0x100 * r.range(1, 0x200))); } break;
			default: break;
			}
			c.begin(!t.empty(), "%s text \"%s\"", name, Q(t));
			parse(c, name, t);
		}
		String* none = nullptr;
		T tr = 77;
		bool ok = true;
		c.begin(true, "%s null", name);
		CHECK(run([&] { V::Parse(none); }) == ANULL, "Parse of null", "%s", name);
		CHECK(run([&] { ok = V::TryParse(none, tr); }) == NOEX && !ok && tr == 0, "TryParse of null", "%s", name);
		for (const wchar_t* t : {L"", L" ", L".", L"-", L"+", L"e5", L"1e", L"1e+", L"1.2.3", L"--1", L"1-", L"abc", L"1a", L"- 1", L"1 2", L"-.", L".e1", L"1e5.5"}) {
			c.begin(true, "%s text \"%s\"", name, Q(W(t)));
			parse(c, name, t);
		}
	}
};
SECTION(Double, 8, 16) { FloatText<Double, DoubleValue>::random(c, "Double", c.n(120000, 4000000)); }
SECTION(Single, 8, 16) { FloatText<Single, SingleValue>::random(c, "Single", c.n(120000, 4000000)); }
// every whole number written out, and every short text over the number alphabet
SECTION(enumerate, 8, 8) {
	int top = c.thorough ? 999999 : 60000;
	for (int i = -top; i <= top; i++) {
		if (!c.mine(i + top)) continue;
		c.bulk("whole number", i);
		FloatText<Double, DoubleValue>::format(c, "Double", i);
		FloatText<Single, SingleValue>::format(c, "Single", i);
	}
	const wchar_t al[] = L"0 9.eE-+";
	int len = c.thorough ? 6 : 5;
	uint64_t total = 1;
	for (int i = 0; i < len; i++) total *= 8;
	for (uint64_t k = 0; k < total; k++) {
		if (!c.mine(k)) continue;
		W t;
		uint64_t q = k;
		for (int i = 0; i < len; i++, q /= 8) if (q % 8 != 1 || i % 2) t += al[q % 8];
		c.bulk("short text over 09.eE-+ and space", k);
		FloatText<Double, DoubleValue>::parse(c, "Double", t);
		if (k % 4 == 0) FloatText<Single, SingleValue>::parse(c, "Single", t);
	}
}

// long texts: mantissas whose last of many digits decides the rounding, long exponents, long blanks and zeros
template <class T> static W halfway(Rng& r, int extra) {
	// the exact decimal expansion of the middle between two neighbouring values
	T v;
	do v = (T)(sizeof(T) == 8 ? dblOf(r.next() & 0x7fffffffffffffffULL) : (double)fltOf((uint32_t)r.next() & 0x7fffffff)); while (v != v || std::isinf(v) || std::fabs((double)v) > 1e30 || std::fabs((double)v) < 1e-30);
	if (r.chance(1, 2)) v = (T)std::ldexp(1.0 + (double)r.below(1 << 20) / (1 << 20), (int)r.range(-20, 40));
	T up = std::nextafter(v, (T)INFINITY);
	long double mid = ((long double)v + (long double)up) / 2;  // exact: 64 bits of mantissa
	char b[400];
	snprintf(b, sizeof b, "%.*Lf", 230, mid);
	std::string s = b;
	if (s.find('.') != std::string::npos) { while (s.back() == '0') s.pop_back(); if (s.back() == '.') s += '0'; }
	switch (r.below(3)) {
	case 0: s += std::string(extra, '0') + "1"; break;      // just above
	case 1: s += std::string(extra, '0'); break;              // exactly half way
	default: {                                                // just below
		size_t p = s.size() - 1;
		while (s[p] == '0' || s[p] == '.') p--;
		s[p]--;
		s = s.substr(0, p + 1) + std::string(s.find('.') > p ? (s.find('.') - p - 1) : 0, '9') + (s.find('.') > p ? "." : "") + std::string(extra + 1, '9');
	}
	}
	return wide(s);
}
template <class T, class V> static void longOnes(Ctx& c, const char* name, uint64_t n) {
	Rng& r = c.rng;
	for (uint64_t i = 0; i < n; i++) {
		W t;
		int form = (int)r.below(7), size = r.chance(1, 4) ? bigSize(r) : bigSize(r, 2000);
		auto digits = [&](int k) { W d; while (k-- > 0) d += (wchar_t)(L'0' + r.below(10)); return d; };
		switch (form) {
		case 0: t = halfway<T>(r, size); break;
		case 1: t = W(size, L'0') + digits((int)r.range(1, 10)) + L"." + digits((int)r.range(0, 10)); break;
		case 2: t = digits((int)r.range(1, 10)) + L"." + digits(size); break;
		case 3: t = L"." + W(size, L'0') + digits(20) + L"e" + wide(std::to_string(size + (int)r.range(-10, 10))); break;
		case 4: t = digits(size + 1) + L"e-" + wide(std::to_string(size + (int)r.range(-10, 10))); break;
		case 5: t = digits(3) + L"." + digits(3) + (r.chance(1, 2) ? L"e-" : L"e") + W(size, L'0') + wide(std::to_string((int)r.range(0, 30))); break;
		default: t = (r.chance(1, 2) ? L"0e" : L"0.000e-") + digits((int)r.range(1, 40)); break;
		}
		if (r.chance(1, 3)) t = (r.chance(1, 2) ? L"-" : L"+") + t;
		if (r.chance(1, 3)) t = W(bigSize(r), r.chance(1, 2) ? L' ' : L'\t') + t;
		if (r.chance(1, 3)) t += W(bigSize(r), r.chance(1, 2) ? L' ' : L'\n');
		int spoil = (int)r.below(6);
		size_t p = r.chance(1, 2) ? t.size() - 1 : r.below(t.size());
		if (spoil == 0) t[p] = (wchar_t)((t[p] + (r.chance(1, 2) ? 0x100 * r.range(1, 0x10ff) : 0x10000 * r.range(1, 16))) & 0x1fffff);
		if (spoil == 1) t[p] = L"q-+e."[r.below(5)];
		c.begin(true, "%s text of %d characters, form %d, size %d, spoiled %d, seed %llu", name, (int)t.size(), form, size, spoil, (unsigned long long)r.s);
		FloatText<T, V>::parse(c, name, t);
		c.event("long texts");
	}
}
SECTION(lengths, 4, 8) {
	longOnes<Double, DoubleValue>(c, "Double", c.n(3000, 80000));
	longOnes<Single, SingleValue>(c, "Single", c.n(3000, 80000));
}
// hexadecimal and other notations of the C library are no decimal notation; numbers beyond the type and words for the special
// values get the same answer from Parse and TryParse
SECTION(notations, 4, 8) {
	uint64_t n = c.n(30000, 600000);
	for (uint64_t i = 0; i < n; i++) {
		Rng& r = c.rng;
		W t = r.chance(1, 3) ? r.chance(1, 2) ? L"-" : L"+" : L"";
		bool neg = t == L"-";
		int form = (int)r.below(5);
		if (form < 3) {
			t += r.chance(1, 3) ? L"0X" : L"0x";
			int k = (int)r.range(0, 20), point = (int)r.range(-1, 30);
			for (int q = 0; q < k; q++) { if (q == point) t += L'.'; t += L"0123456789abcdefABCDEF"[r.below(22)]; }
			if (r.chance(1, 3)) t += (r.chance(1, 2) ? L"p" : L"P") + wide(std::to_string((int)r.range(-200, 200)));
		} else if (form == 3) {
			static const wchar_t* words[] = {L"inf", L"INF", L"Infinity", L"infinity", L"nan", L"NAN", L"NaN", L"infinit", L"na", L"in", L"nans", L"infs", L"i", L"n"};
			t += words[r.below(14)];
		} else t += W(1, (wchar_t)(L'1' + r.below(9))) + W(r.below(4), L'0') + (r.chance(1, 2) ? L"." : L"") + L"e" + W(r.below(3), L'0') + wide(std::to_string((int)r.range(r.chance(1, 2) ? 30 : 300, r.chance(1, 4) ? 400000 : 1000)));
		if (r.chance(1, 3)) t = W(r.range(1, 3), L' ') + t;
		if (r.chance(1, 3)) t += W(r.range(1, 3), L'\t');
		c.begin(true, "notation \"%s\"", Q(t));
		if (form == 3) { FloatText<Double, DoubleValue>::agree(c, "Double", t, false, neg); FloatText<Single, SingleValue>::agree(c, "Single", t, false, neg); }
		else { FloatText<Double, DoubleValue>::parse(c, "Double", t); FloatText<Single, SingleValue>::parse(c, "Single", t); }
	}
}
// short texts in which one character only looks right when its upper bits are lost
SECTION(lookalikes, 4, 8) {
	uint64_t n = c.n(60000, 1500000);
	for (uint64_t i = 0; i < n; i++) {
		Rng& r = c.rng;
		W t = FloatText<Double, DoubleValue>::number(r);
		if (r.chance(1, 3)) t = L" " + t;
		if (r.chance(1, 3)) t += L"\t";
		size_t p = r.below(t.size());
		t[p] = (wchar_t)((t[p] + (r.chance(1, 2) ? 0x100 * r.range(1, 0x10ff) : 0x10000 * r.range(1, 16))) & 0x1fffff);
		c.begin(true, "lookalike text \"%s\"", Q(t));
		FloatText<Double, DoubleValue>::parse(c, "Double", t);
		FloatText<Single, SingleValue>::parse(c, "Single", t);
	}
}
// every character before, behind and inside a number
SECTION(everychar, 4, 8) {
	everyChar(c, "number with the character", [&](wchar_t ch) {
		W x(1, ch);
		W t[] = {x + L"7.5", L"7.5" + x, L"1" + x + L"25", L"1e2" + x, x + x + L"12", L" " + x + L"3", L"-" + x + L"3", L"45. " + x, x + L"45" + x, L"1.2" + x + L"5", L"1e" + x + L"5"};
		for (int q = 0; q < 3; q++) {
			const W& w = t[(ch + q * 4) % 11];
			if ((ch / 11 + q) % 2) FloatText<Double, DoubleValue>::parse(c, "Double", w);
			else FloatText<Single, SingleValue>::parse(c, "Single", w);
		}
	});
}
