// C23: Char: classification, case mapping, parsing, comparison. Every char value is enumerated.
#include "vf.h"
static bool lower(int v) { return v >= 'a' && v <= 'z'; }
static bool upper(int v) { return v >= 'A' && v <= 'Z'; }
static bool digit(int v) { return v >= '0' && v <= '9'; }
static bool alpha(int v) { return lower(v) || upper(v); }
static bool ctl(int v) { return v < 32 || v == 127; }
static bool space(int v) { return v == 32 || (v >= 9 && v <= 13); }
static bool punct(int v) { return v > 32 && v < 127 && !alpha(v) && !digit(v); }
struct Cls { const char* name; bool (*ref)(int); Boolean (*f)(Char); Boolean (*g)(String*, Int32); };
#define CLS(n, r) {#n, r, (Boolean(*)(Char)) &CharValue::n, (Boolean(*)(String*, Int32)) &CharValue::n}
static bool alnum(int v) { return alpha(v) || digit(v); }
static const Cls classes[] = {CLS(IsControl, ctl), CLS(IsDigit, digit), CLS(IsLetter, alpha), CLS(IsLetterOrDigit, alnum), CLS(IsLower, lower), CLS(IsNumber, digit), CLS(IsPunctuation, punct),
	CLS(IsSeparator, space), CLS(IsUpper, upper), CLS(IsWhiteSpace, space)};

SECTION(everychar, 4, 8) {
	int top = 0x10FFFF, ext = c.thorough ? 0x10FFFF : 0xFFFF;
	for (int v = c.shard; v <= top; v += c.shards) {
		if (v > ext && v % 31 > 7) continue;
		c.bulk("char", v);
		Char ch = (Char)v;
		Char one[2] = {ch, 0};
		String s(one, 0, v ? 1 : 0);
		bool use = v != 0;
		for (auto& k : classes) {
			bool got = k.f(ch);
			if (v < 128) CHECK(got == k.ref(v), k.name, "%d: %d", v, (int)got);
			if (use) {
				bool viaString = !got;
				Ex e = run([&] { viaString = k.g(&s, 0); });
				CHECK(e == NOEX && viaString == got, "indexed form differs", "%s %d: %s", k.name, v, exName(e));
			}
		}
		CHECK((bool)CharValue::IsLetterOrDigit(ch) == ((bool)CharValue::IsLetter(ch) || (bool)CharValue::IsDigit(ch)), "IsLetterOrDigit is letter or digit", "%d", v);
		CHECK(!(CharValue::IsUpper(ch) && CharValue::IsLower(ch)), "upper and lower", "%d", v);
		double num = CharValue::GetNumericValue(ch);
		CHECK(num == (digit(v) ? v - '0' : -1), "GetNumericValue", "%d: %g", v, num);
		int lo = CharValue::ToLower(ch), up = CharValue::ToUpper(ch);
		if (v < 128) CHECK(lo == (upper(v) ? v + 32 : v) && up == (lower(v) ? v - 32 : v), "case mapping", "%d -> %d %d", v, lo, up);
		CHECK(CharValue::ToLower(lo) == lo && CharValue::ToUpper(up) == up, "case mapping not idempotent", "%d -> %d %d", v, lo, up);
		if (use) {
			Char got = 1;
			CHECK(CharValue::Parse(&s) == ch && CharValue::TryParse(&s, got) && got == ch, "Parse", "%d -> %d", v, (int)got);
			Char buf[3] = {7, 7, 7};
			CharValue cv(ch);
			CHECK(cv.FormatString(buf, 2) == 1 && buf[0] == ch && buf[1] == 0 && buf[2] == 7, "FormatString", "%d", v);
			if (v % 5 == 0) {
				String *a = cv.ToString(), *b = CharValue::ToString(ch);
				CHECK(str(a) == W(1, ch) && str(b) == W(1, ch), "ToString", "%d", v);
				delete a;
				delete b;
			}
			CHECK(cv.get_AsChar() == ch && cv.get_AsInt32() == v && cv.get_AsUInt32() == (UInt32)v && cv.get_AsInt64() == v && cv.get_AsUInt64() == (UInt64)v && cv.get_AsUInt16() == (UInt16)v &&
				cv.get_AsByte() == (Byte)v && cv.get_AsDouble() == v && cv.get_AsSingle() == (float)v && cv.GetRawDataType() == CharType, "boxed conversions", "%d", v);
		}
	}
	CHECK(CharValue::MaxValue == 0xFFFF && CharValue::MinValue == 0, "constants", "%d", (int)CharValue::MaxValue);
}
SECTION(strings, 2, 4) {
	uint64_t n = c.n(30000, 3000000);
	for (uint64_t i = 0; i < n; i++) {
		int len = (int)c.rng.range(0, 8);
		W w;
		for (int k = 0; k < len; k++) w += (wchar_t)(c.rng.chance(4, 5) ? c.rng.range(1, 127) : c.rng.range(128, c.rng.chance(1, 2) ? 0x2FFF : 0xFFFF));
		int idx = c.rng.chance(1, 3) ? (c.rng.chance(1, 2) ? len : len + (int)c.rng.below(3)) : c.rng.chance(1, 6) ? interesting32(c.rng) : (int)c.rng.range(-2, len);
		c.begin(true, "char of \"%s\" at %d", Q(w), idx);
		String* s = mkAt(c.rng, 0, w);
		for (auto& k : classes) {
			bool got = false;
			Ex e = run([&] { got = k.g(s, idx); });
			if (idx >= 0 && idx < len) { CHECK(e == NOEX && got == (bool)k.f(w[idx]), k.name, "%s", exName(e)); c.event("characters classified"); }
			else { CHECK(idx >= len ? e == AOOR : (e == IOOR || e == AOOR), "index outside the string", "%s: %s", k.name, exName(e)); c.event("indices refused"); }
		}
		for (auto& k : classes) { Ex en = run([&] { k.g(nullptr, idx); }); CHECK(en == ANULL, "null string", "%s: %s", k.name, exName(en)); }
		Ex en = run([&] { CharValue::GetNumericValue((String*)nullptr, idx); });
		CHECK(en == ANULL, "null string", "GetNumericValue: %s", exName(en));
		double num = 0;
		Ex e = run([&] { num = CharValue::GetNumericValue(s, idx); });
		if (idx >= 0 && idx < len) CHECK(e == NOEX && num == (digit(w[idx]) ? w[idx] - '0' : -1), "GetNumericValue", "%g %s", num, exName(e));
		else CHECK(idx >= len ? e == AOOR : (e == IOOR || e == AOOR), "index outside the string", "GetNumericValue: %s", exName(e));
		Char r = 99;
		bool ok = CharValue::TryParse(s, r);
		Char p = 0;
		Ex pe = run([&] { p = CharValue::Parse(s); });
		if (len == 1) CHECK(ok && r == w[0] && pe == NOEX && p == w[0], "Parse of one character", "%d %s", (int)r, exName(pe));
		else CHECK(!ok && r == 0 && pe == FORMAT, "Parse of other lengths", "%d %d %s", (int)ok, (int)r, exName(pe));
		CHECK(str(s) == w, "text changed", "%s", Q(str(s)));
		drop(s);
	}
	c.begin(true, "char of null string");
	for (auto& k : classes) CHECK(run([&] { k.g(nullptr, 0); }) == ANULL, "null string", "%s", k.name);
	Char r = 9;
	CHECK(run([&] { CharValue::GetNumericValue((String*)nullptr, 0); }) == ANULL && run([&] { CharValue::Parse(nullptr); }) == ANULL && !CharValue::TryParse(nullptr, r) && r == 0, "null string", "%d", (int)r);
}
SECTION(compare, 1, 2) {
	uint64_t n = c.n(60000, 2000000);
	for (uint64_t i = 0; i < n; i++) {
		int a = c.rng.chance(1, 2) ? (int)c.rng.range(0, 127) : (int)c.rng.range(0, 0xFFFF), b = c.rng.chance(1, 4) ? a : c.rng.chance(1, 2) ? (int)c.rng.range(0, 127) : (int)c.rng.range(0, 0xFFFF);
		if (sizeof(Char) > 2 && c.rng.chance(1, 6)) { b = a + (int)c.rng.range(1, 16) * 0x10000; if (c.rng.chance(1, 2)) std::swap(a, b); }
		c.begin(true, "chars %d and %d", a, b);
		CharValue x((Char)a), y((Char)b);
		auto sg = [](int v) { return v < 0 ? -1 : v > 0; };
		int want = a < b ? -1 : a > b;
		CHECK(sg(x.CompareTo((Char)b)) == want && sg(x.CompareTo((Object*)&y)) == want && sg(y.CompareTo((Object*)&x)) == -want, "CompareTo", "%d", x.CompareTo((Char)b));
		CHECK((bool)x.Equals((Char)b) == (a == b) && (bool)x.Equals((Object*)&y) == (a == b) && (bool)y.Equals((Object*)&x) == (a == b), "Equals", "%d", (int)x.Equals((Char)b));
		Int32Value other(b);
		Int32 r = 0;
		CHECK(x.CompareTo((Object*)nullptr) == 1 && !x.Equals((Object*)nullptr) && !x.Equals((Object*)&other) && run([&] { r = x.CompareTo((Object*)&other); }) == ARG, "other types", "%d", r);
	}
}
// the forms with a string and an index, far into long strings
SECTION(longstrings, 2, 4) {
	uint64_t n = c.n(6, 200);
	for (uint64_t i = 0; i < n; i++) {
		Rng& r = c.rng;
		int len = r.chance(1, 2) ? (int)r.range(66000, 140000) : (int)r.range(300, 40000);
		W w;
		for (int k = 0; k < len; k++) w += (wchar_t)(r.chance(4, 5) ? r.range(1, 127) : r.range(128, r.chance(1, 2) ? 0x2FFF : 0xFFFF));
		c.begin(true, "string of %d characters", len);
		String* s = mk(w);
		static const int marks[] = {127, 128, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 16384, 32767, 32768, 65535, 65536, 65537, 131071, 131072};
		for (int q = 0; q < 3000; q++) {
			int idx = r.chance(1, 3) ? marks[r.below(19)] + (int)r.range(-1, 1) : r.chance(1, 20) ? len + (int)r.below(70000) : r.chance(1, 20) ? len - 1 - (int)r.below(3) : (int)r.below(len);
			auto& k = classes[r.below(sizeof classes / sizeof *classes)];
			bool got = false;
			double num = 0;
			Ex e = run([&] { got = k.g(s, idx); }), f = run([&] { num = CharValue::GetNumericValue(s, idx); });
			if (idx < len) {
				CHECK(e == NOEX && got == (bool)k.f(w[idx]), k.name, "at %d: %d %s", idx, (int)got, exName(e));
				CHECK(f == NOEX && num == (digit(w[idx]) ? w[idx] - '0' : -1), "GetNumericValue", "at %d: %g %s", idx, num, exName(f));
			} else CHECK(e == AOOR && f == AOOR, "index outside the string", "%s at %d: %s %s", k.name, idx, exName(e), exName(f));
			c.event("characters of long strings");
		}
		Char ch = 5;
		CHECK(run([&] { CharValue::Parse(s); }) == FORMAT && !CharValue::TryParse(s, ch) && ch == 0, "Parse of other lengths", "%d", (int)ch);
		CHECK(str(s) == w, "text changed", "long");
		delete s;
	}
}
