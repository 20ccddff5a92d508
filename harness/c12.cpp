// C12: integer text: the formatted text is the exact decimal value, parsing accepts exactly [ws][sign]digits[ws] in range,
// gives the exact value, and TryParse agrees with Parse.
#include "text.h"

enum Kind { BAD, BIG, GOOD };
struct Want { Kind k; i128 v; };
static bool ws(wchar_t ch) { return ch == L' ' || (ch >= 9 && ch <= 13); }
static Want readInt(const W& t, i128 lo, i128 hi) {
	size_t i = 0, n = t.size();
	while (i < n && ws(t[i])) i++;
	bool neg = false;
	if (i < n && (t[i] == L'-' || t[i] == L'+')) neg = t[i++] == L'-';
	size_t d0 = i;
	i128 v = 0;
	for (; i < n && t[i] >= L'0' && t[i] <= L'9'; i++) { v = v * 10 + (t[i] - L'0'); if (v > ((i128)1 << 100)) v = (i128)1 << 100; }
	if (i == d0) return Want{BAD, 0};
	while (i < n && ws(t[i])) i++;
	if (i != n) return Want{BAD, 0};
	if (neg) v = -v;
	return v < lo || v > hi ? Want{BIG, v} : Want{GOOD, v};
}

template <class T, class V> struct IntText {
	static void parse(Ctx& c, const char* name, const W& t, i128 lo, i128 hi) {
		Want w = readInt(t, lo, hi);
		String* s = mkAt(c.rng, 0, t);
		static const T prior[] = {(T)77, (T)-1, V::MaxValue, V::MinValue, (T)0};
		T got = 0, tr = prior[c.rng.below(5)];
		Ex e = run([&] { got = V::Parse(s); });
		bool ok = false;
		Ex e2 = run([&] { ok = V::TryParse(s, tr); });
		CHECK(e2 == NOEX, "TryParse raised", "%s \"%s\": %s", name, Q(t), exName(e2));
		CHECK(ok == (w.k == GOOD), "TryParse verdict", "%s \"%s\" gave %d", name, Q(t), ok);
		if (w.k == GOOD) {
			CHECK(e == NOEX && (i128)got == w.v, "Parse value", "%s \"%s\" gave %s (%s)", name, Q(t), dec(got).c_str(), exName(e));
			CHECK((i128)tr == w.v, "TryParse value", "%s \"%s\" gave %s", name, Q(t), dec(tr).c_str());
			c.event("texts accepted");
		} else {
			CHECK(e == (w.k == BAD ? FORMAT : OVERFLOWEX), "Parse error", "%s \"%s\": %s", name, Q(t), exName(e));
			CHECK(tr == 0, "TryParse result after failure", "%s \"%s\" left %s", name, Q(t), dec(tr).c_str());
			c.event(w.k == BAD ? "malformed refused" : "out of range refused");
		}
		CHECK(str(s) == t, "parsing changed its text", "%s", name);
		drop(s);
	}
	static void format(Ctx& c, const char* name, T v, i128 lo, i128 hi) {
		W want = wide(dec(v));
		V box(v);
		String* s = box.ToString();
		CHECK(str(s) == want, "formatted text", "%s %s gave \"%s\"", name, Q(want), Q(str(s)));
		delete s;
		Char b[40];
		int n = box.FormatString(b, 40);
		CHECK(n == (int)want.size() && W(b, b + n) == want && b[n] == 0, "formatted text", "%s FormatString gave %d", name, n);
		parse(c, name, want, lo, hi);
		c.event("values formatted");
	}
	static void all(Ctx& c, const char* name, i128 lo, i128 hi) {
		CHECK((i128)V::MinValue == lo && (i128)V::MaxValue == hi, "range constants", "%s", name);
		for (i128 v = lo; v <= hi; v++) {
			if (!c.mine((uint64_t)(v - lo))) continue;
			c.bulk(name, (int64_t)v);
			format(c, name, (T)v, lo, hi);
		}
		// everything around the range, padded and signed
		for (i128 v = lo - 300; v <= hi + 300; v++) {
			if (v == lo + 300 && hi - lo > 1000) v = hi - 300;
			if (!c.mine((uint64_t)(v - lo + 300))) continue;
			c.bulk("around the range of the type", (int64_t)v);
			W d = wide(dec(v));
			W z = v < 0 ? L"-000" + d.substr(1) : L"+00" + d;
			parse(c, name, L" \t" + d + L"\r\n ", lo, hi);
			parse(c, name, z, lo, hi);
		}
	}
	static void random(Ctx& c, const char* name, uint64_t n, i128 lo, i128 hi) {
		Rng& r = c.rng;
		for (const wchar_t* z : {L"-0", L"+0", L" -000\t", L"--0", L"-+0", L"- 0", L"-", L"0-", L"-0-", L"-0 0", L"-00000000000000000000000000000000", L"-00000000000000000000000000000001"}) { c.begin(true, "%s \"%s\"", name, Q(W(z))); parse(c, name, z, lo, hi); }
		for (uint64_t i = 0; i < n; i++) {
			T v = (T)interesting64(r);
			if (r.chance(1, 2)) {
				c.begin(true, "%s value %s", name, dec(v).c_str());
				format(c, name, v, lo, hi);
			}
			i128 x;
			switch (r.below(5)) {
			case 0: x = lo + r.range(-20, 20); break;
			case 1: x = hi + r.range(-20, 20); break;
			case 2: x = (i128)(int64_t)r.next() * (int64_t)r.range(-40, 40); break;
			case 3: x = ((i128)1 << 64) * r.range(1, 12) + (i128)interesting64(r); break;  // wraps to a small value if not watched
			default: x = v;
			}
			W d = wide(dec(x)), t = d;
			switch (r.below(15)) {
			case 0: t = L" " + d; break;
			case 1: t = d + L"\t "; break;
			case 2: t = x < 0 ? d : L"+" + d; break;
			case 3: t = W(r.below(30), L'0') + (x < 0 ? d.substr(1) : d); break;
			case 4: { size_t p = r.below(d.size() + 1); t = d.substr(0, p) + (r.chance(1, 3) ? (wchar_t)(L'0' + r.below(10) + 0x100 * r.range(1, 0x200)) : anyChar(r)) + d.substr(p); break; }
			case 5: t = r.chance(1, 2) ? d + d : r.chance(1, 2) ? W(oddLength(r), r.chance(1, 2) ? L' ' : L'\t') + d : (x < 0 ? W(L"-") : W(L"+")) + W(oddLength(r), L'0') + (x < 0 ? d.substr(1) : d); break;
			case 6: t = smallText(r, 6, L" +-019.\x660"); break;
			case 7: t = d.substr(0, r.below(d.size() + 1)); break;
			case 8: t = L"- " + d; break;
			case 9: t = d + L" " + d; break;
			case 10: t = d + W(oddLength(r), L' '); break;
			case 12: {  // any of its characters, or a sign or space around it, replaced by one that only looks like it when narrowed
				static const wchar_t k[] = {L' ', L'+', L'-', L'\t', L'\r'};
				t = r.chance(1, 2) ? W(1, k[r.below(5)]) + d : r.chance(1, 2) ? d + W(1, k[r.below(5)]) : d;
				size_t p = r.chance(1, 2) ? (t[0] == d[0] ? r.below(t.size()) : 0) : t.size() - 1;
				t[p] = (wchar_t)((t[p] + (r.chance(1, 2) ? 0x100 * r.range(1, 0x10ff) : 0x10000 * r.range(1, 16))) & 0x1fffff);
				break;
			}
			case 11: { t = d; for (int k = oddLength(r); k > 0; k--) t += (wchar_t)(L'0' + r.below(10)); break; }
			default: break;
			}
			c.begin(!t.empty(), "%s text \"%s\"", name, Q(t));
			parse(c, name, t, lo, hi);
		}
		String* none = nullptr;
		T tr = 77;
		bool ok = true;
		c.begin(true, "%s null", name);
		CHECK(run([&] { V::Parse(none); }) == ANULL, "Parse of null", "%s", name);
		CHECK(run([&] { ok = V::TryParse(none, tr); }) == NOEX && !ok && tr == 0, "TryParse of null", "%s", name);
		parse(c, name, L"", lo, hi);
		CHECK((i128)V::MinValue == lo && (i128)V::MaxValue == hi, "range constants", "%s", name);
	}
};
SECTION(bytes, 2, 2) {
	IntText<Byte, ByteValue>::all(c, "Byte", 0, 255);
	IntText<SByte, SByteValue>::all(c, "SByte", -128, 127);
}
SECTION(words, 8, 8) {
	IntText<Int16, Int16Value>::all(c, "Int16", -32768, 32767);
	IntText<UInt16, UInt16Value>::all(c, "UInt16", 0, 65535);
}
SECTION(random, 8, 16) {
	uint64_t n = c.n(24000, 600000);
	const i128 one = 1;
	IntText<Byte, ByteValue>::random(c, "Byte", n / 4, 0, 255);
	IntText<SByte, SByteValue>::random(c, "SByte", n / 4, -128, 127);
	IntText<Int16, Int16Value>::random(c, "Int16", n / 4, -32768, 32767);
	IntText<UInt16, UInt16Value>::random(c, "UInt16", n / 4, 0, 65535);
	IntText<Int32, Int32Value>::random(c, "Int32", n, -(one << 31), (one << 31) - 1);
	IntText<UInt32, UInt32Value>::random(c, "UInt32", n, 0, (one << 32) - 1);
	IntText<Int64, Int64Value>::random(c, "Int64", n, -(one << 63), (one << 63) - 1);
	IntText<UInt64, UInt64Value>::random(c, "UInt64", n, 0, (one << 64) - 1);
}

// round numbers of every size, formatted, and parsed by every type
template <class T, class V> static void roundOnes(Ctx& c, const char* name, i128 lo, i128 hi) {
	const std::vector<int64_t>& v = roundValues();
	for (size_t i = 0; i < v.size(); i++) {
		if (!c.mine(i)) continue;
		c.bulk("round number", sizeof(T), lo < 0, v[i]);
		IntText<T, V>::format(c, name, (T)v[i], lo, hi);
		IntText<T, V>::parse(c, name, wide(dec((i128)v[i])), lo, hi);
		if (v[i] < 0) IntText<T, V>::parse(c, name, wide(dec((i128)(uint64_t)v[i])), lo, hi);
		c.event("round numbers");
	}
	i128 p = 1;  // and far beyond 64 bits
	for (int i = 0; i < 38; i++, p *= 10)
		for (int j = 1; j < 10; j++)
			for (int d = -1; d <= 1; d++) {
				if (!c.mine(i + j + d + 1) || (i == 37 && j > 1)) continue;
				c.bulk("round number as text", i, j, d);
				IntText<T, V>::parse(c, name, wide(dec(p * j + d)), lo, hi);
				IntText<T, V>::parse(c, name, wide(dec(-(p * j + d))), lo, hi);
			}
}
SECTION(grid, 8, 8) {
	const i128 one = 1;
	roundOnes<Byte, ByteValue>(c, "Byte", 0, 255);
	roundOnes<SByte, SByteValue>(c, "SByte", -128, 127);
	roundOnes<Int16, Int16Value>(c, "Int16", -32768, 32767);
	roundOnes<UInt16, UInt16Value>(c, "UInt16", 0, 65535);
	roundOnes<Int32, Int32Value>(c, "Int32", -(one << 31), (one << 31) - 1);
	roundOnes<UInt32, UInt32Value>(c, "UInt32", 0, (one << 32) - 1);
	roundOnes<Int64, Int64Value>(c, "Int64", -(one << 63), (one << 63) - 1);
	roundOnes<UInt64, UInt64Value>(c, "UInt64", 0, (one << 64) - 1);
}
// texts of up to many tens of thousands of characters: blanks and leading zeros do not count, everything else does
template <class T, class V> static void longOnes(Ctx& c, const char* name, uint64_t n, i128 lo, i128 hi) {
	Rng& r = c.rng;
	for (uint64_t i = 0; i < n; i++) {
		i128 x = r.chance(1, 3) ? lo + r.range(-2, 2) : r.chance(1, 2) ? hi + r.range(-2, 2) : (i128)(T)interesting64(r);
		W d = wide(dec(x < 0 ? -x : x)), sign = x < 0 ? L"-" : r.chance(1, 4) ? L"+" : L"";
		int a = r.chance(1, 2) ? bigSize(r) : 0, b = r.chance(1, 2) ? bigSize(r) : 0, z = r.chance(1, 2) ? bigSize(r) : 0;
		W t = W(a, r.chance(1, 2) ? L' ' : L'\n') + sign + W(z, L'0') + d + W(b, r.chance(1, 2) ? L' ' : L'\r');
		int spoil = (int)r.below(4);
		if (spoil == 0) t[r.below(t.size())] = r.chance(1, 2) ? L'x' : (wchar_t)(L'0' + 0x100 * r.range(1, 0x1000));
		if (spoil == 1) t += (wchar_t)(r.chance(1, 2) ? L'0' + r.below(10) : L'.');
		c.begin(true, "%s of %d characters: %d blanks, sign \"%s\", %d zeros, %s, %d blanks, spoiled %d, seed %llu", name, (int)t.size(), a, Q(sign), z, Q(d), b, spoil, (unsigned long long)r.s);
		IntText<T, V>::parse(c, name, t, lo, hi);
		c.event("long texts");
	}
}
SECTION(lengths, 4, 8) {
	uint64_t n = c.n(2400, 60000);
	const i128 one = 1;
	longOnes<Byte, ByteValue>(c, "Byte", n / 8, 0, 255);
	longOnes<SByte, SByteValue>(c, "SByte", n / 8, -128, 127);
	longOnes<Int16, Int16Value>(c, "Int16", n / 8, -32768, 32767);
	longOnes<UInt16, UInt16Value>(c, "UInt16", n / 8, 0, 65535);
	longOnes<Int32, Int32Value>(c, "Int32", n / 8, -(one << 31), (one << 31) - 1);
	longOnes<UInt32, UInt32Value>(c, "UInt32", n / 8, 0, (one << 32) - 1);
	longOnes<Int64, Int64Value>(c, "Int64", n / 8, -(one << 63), (one << 63) - 1);
	longOnes<UInt64, UInt64Value>(c, "UInt64", n / 8, 0, (one << 64) - 1);
}
// every character before, behind and inside a number
SECTION(everychar, 4, 8) {
	everyChar(c, "number with the character", [&](wchar_t ch) {
		W x(1, ch);
		W t[] = {x + L"7", L"7" + x, L"1" + x + L"2", x, x + x + L"12", L" " + x + L"3", L"-" + x + L"3", L"45 " + x, x + L"45" + x};
		for (int q = 0; q < 3; q++) {
			const W& w = t[(ch + q * 3) % 9];
			switch ((ch / 9 + q) % 4) {
			case 0: IntText<Int32, Int32Value>::parse(c, "Int32", w, INT32_MIN, INT32_MAX); IntText<Byte, ByteValue>::parse(c, "Byte", w, 0, 255); break;
			case 1: IntText<UInt64, UInt64Value>::parse(c, "UInt64", w, 0, UINT64_MAX); IntText<SByte, SByteValue>::parse(c, "SByte", w, -128, 127); break;
			case 2: IntText<Int64, Int64Value>::parse(c, "Int64", w, INT64_MIN, INT64_MAX); IntText<UInt16, UInt16Value>::parse(c, "UInt16", w, 0, 65535); break;
			default: IntText<UInt32, UInt32Value>::parse(c, "UInt32", w, 0, UINT32_MAX); IntText<Int16, Int16Value>::parse(c, "Int16", w, -32768, 32767); break;
			}
		}
	});
}
