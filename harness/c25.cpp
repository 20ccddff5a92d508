// C25: formatting into a caller's buffer never writes outside it, whatever the size, and what it reports is what it wrote.
#include "text.h"
struct Obj { Object* o; W text; std::string d; };
static Obj make(Rng& r) {
	Obj x;
	char b[100];
	int64_t v = interesting64(r);
	std::string t;
	switch (r.below(21)) {
	case 0: { bool q = r.chance(1, 2); x.o = new BooleanValue(q); t = q ? "True" : "False"; x.d = "Boolean " + t; break; }
	case 1: { int q = (int)r.range(1, 255); x.o = new CharValue((Char)q); x.text = W(1, (wchar_t)q); x.d = "Char " + std::to_string(q); return x; }
	case 2: x.o = new SByteValue((SByte)v); t = std::to_string((int)(int8_t)v); x.d = "SByte " + t; break;
	case 3: x.o = new ByteValue((Byte)v); t = std::to_string((int)(uint8_t)v); x.d = "Byte " + t; break;
	case 4: x.o = new Int16Value((Int16)v); t = std::to_string((int)(int16_t)v); x.d = "Int16 " + t; break;
	case 5: x.o = new UInt16Value((UInt16)v); t = std::to_string((int)(uint16_t)v); x.d = "UInt16 " + t; break;
	case 6: x.o = new Int32Value((Int32)v); t = std::to_string((int32_t)v); x.d = "Int32 " + t; break;
	case 7: x.o = new UInt32Value((UInt32)v); t = std::to_string((uint32_t)v); x.d = "UInt32 " + t; break;
	case 8: x.o = new Int64Value((Int64)v); t = std::to_string(v); x.d = "Int64 " + t; break;
	case 9: x.o = new UInt64Value((UInt64)v); t = std::to_string((uint64_t)v); x.d = "UInt64 " + t; break;
	case 10: { float f = interestingF(r); if (f != f) f = 1; x.o = new SingleValue(f); snprintf(b, sizeof b, "%G", f); t = b; x.d = "Single " + t; break; }
	case 11: { double f = interestingD(r); if (f != f) f = 1; x.o = new DoubleValue(f); snprintf(b, sizeof b, "%G", f); t = b; x.d = "Double " + t; break; }
	case 12: {
		int y = (int)r.range(1, 9999), m = (int)r.range(1, 12), d = (int)r.range(1, 28), h = (int)r.below(24), mi = (int)r.below(60), s = (int)r.below(60);
		x.o = new DateTimeValue(DateTime(y, m, d, h, mi, s));
		snprintf(b, sizeof b, "%d/%d/%d %d:%02d:%02d %s", m, d, y, h > 12 ? h - 12 : h, mi, s, h >= 12 ? "PM" : "AM");
		t = b; x.d = "DateTime " + t; break;
	}
	case 13: {
		int64_t sec = r.range(-20000000, 20000000), f = r.chance(1, 2) ? 0 : r.range(1, 9999999) * (sec < 0 ? -1 : 1);
		int64_t tk = sec * 10000000 + f, a = tk < 0 ? -tk : tk;
		x.o = new TimeSpanValue((TimeSpan)(Int64)tk);
		int64_t d = a / 864000000000LL;
		std::string q = tk < 0 ? "-" : "";
		if (d) q += std::to_string(d) + ".";
		snprintf(b, sizeof b, "%02d:%02d:%02d", (int)(a / 36000000000LL % 24), (int)(a / 600000000 % 60), (int)(a / 10000000 % 60));
		q += b;
		if (a % 10000000) { snprintf(b, sizeof b, ".%07d", (int)(a % 10000000)); q += b; }
		t = q; x.d = "TimeSpan " + t; break;
	}
	case 14: { int n = (int)r.below(80); while (n--) t += (char)r.range(33, 126); x.o = mk(wide(t)); x.d = "String \"" + t + "\""; break; }
	case 15: {
		StringBuilder* sb = new StringBuilder();
		int n = (int)r.below(80);
		while (n--) t += (char)r.range(33, 126);
		W w = wide(t);
		sb->Append(w.c_str(), (Int32)w.size());
		x.o = sb; x.d = "StringBuilder \"" + t + "\""; break;
	}
	case 16: x.o = new Object(); t = "Object"; x.d = "Object"; break;
	case 17: { x.o = new Array(Int32Type, (Int32)r.below(9)); t = "Object"; x.d = "Array"; break; }
	case 18: { String* q = mk(L"abc"); x.o = new CharEnumerator(q); t = "Object"; x.d = "CharEnumerator"; break; }
	case 19: { x.o = new FormatException(); t = "Object"; x.d = "FormatException"; break; }
	default: x.o = new Exception(); t = "Object"; x.d = "Exception";
	}
	x.text = wide(t);
	return x;
}
static void into(Ctx& c, Obj& x, int size) {
	const wchar_t mark = 0x2603;
	wchar_t* buf = (wchar_t*)malloc((size ? size : 1) * sizeof(wchar_t));  // exactly this much: the sanitizer guards the end
	for (int i = 0; i < (size ? size : 1); i++) buf[i] = mark;
	Int32 n = -99;
	Ex e = run([&] { n = x.o->FormatString(buf, size); });
	int full = (int)x.text.size();
	if (size > full) {
		CHECK(e == NOEX && n == full && W(buf, full) == x.text && buf[full] == 0, "text that fits", "returned %d (%s) for %d characters", n, exName(e), full);
		for (int i = full + 1; i < size; i++) CHECK(buf[i] == mark, "written past the terminator", "position %d of %d", i, size);
		c.event("complete texts");
	} else if (e == NOEX && n >= 0) {
		CHECK(n < size, "reported more than fits", "%d in %d", n, size);
		if (n < size) CHECK(buf[n] == 0 && W(buf, n) == x.text.substr(0, n), "truncated text", "\"%s\" reported %d", Q(W(buf, wcsnlen(buf, size))), n);
		c.event("truncated texts");
	} else {
		CHECK(e == NOEX || isErr(e), "refusal", "%s", exName(e));
		if (size == 0) CHECK(buf[0] == mark, "written to an empty buffer", "%d", (int)buf[0]);
		c.event("refusals");
	}
	free(buf);
}
SECTION(buffers, 6, 8) {
	uint64_t n = c.n(30000, 1500000);
	for (uint64_t i = 0; i < n; i++) {
		Obj x = make(c.rng);
		int full = (int)x.text.size();
		for (int k = 0; k < 4; k++) {
			int size = c.rng.chance(1, 2) ? full + (int)c.rng.range(-2, 2) : c.rng.chance(1, 2) ? (int)c.rng.range(0, full) : (int)c.rng.range(0, 160);
			if (size < 0) size = 0;
			c.begin(true, "%s into a buffer of %d", x.d.c_str(), size);
			into(c, x, size);
		}
		delete x.o;
	}
}
// every size from 0 to a few past the text, for every kind of object
SECTION(allsizes, 2, 4) {
	uint64_t n = c.n(300, 20000);
	for (uint64_t i = 0; i < n; i++) {
		Obj x = make(c.rng);
		for (int size = 0; size <= (int)x.text.size() + 3; size++) {
			c.begin(true, "%s into a buffer of %d", x.d.c_str(), size);
			into(c, x, size);
		}
		delete x.o;
	}
}
// long texts: the buffer is just large enough, one short, or anything
SECTION(lengths, 4, 8) {
	uint64_t n = c.n(1200, 40000);
	for (uint64_t i = 0; i < n; i++) {
		Obj x;
		Rng& r = c.rng;
		x.text = longText(r, r.chance(1, 10) ? 200000 : 70000);
		bool b = r.chance(1, 2);
		if (b) { StringBuilder* sb = new StringBuilder(); sb->Append(x.text.c_str(), (Int32)x.text.size()); x.o = sb; }
		else x.o = mk(x.text);
		int full = (int)x.text.size();
		for (int k = 0; k < 4; k++) {
			int size = r.chance(1, 2) ? full + (int)r.range(-2, 2) : r.chance(1, 2) ? (int)r.range(0, full) : bigSize(r, 80000);
			if (size < 0) size = 0;
			c.begin(true, "%s of %d characters into a buffer of %d, seed %llu", b ? "StringBuilder" : "String", full, size, (unsigned long long)r.s);
			into(c, x, size);
		}
		// wrapped instead of copied
		if (!b && x.text.find(L'\0') == W::npos) {
			Obj y;
			y.text = x.text;
			y.o = new String((const Char*)x.text.c_str());
			c.begin(true, "wrapped String of %d characters into a buffer one longer", full);
			into(c, y, full + 1);
			into(c, y, full);
			delete y.o;
		}
		delete x.o;
	}
}
// every character alone and within a text, into every kind of small buffer
SECTION(everychar, 2, 8) {
	everyChar(c, "format the character", [&](wchar_t ch) {
		Obj x;
		x.text = ch % 3 ? L"ab" + W(1, ch) + W(ch % 4, L'z') + W(1, ch) : W(1, ch);
		StringBuilder* sb = nullptr;
		if (ch % 3 == 2) { sb = new StringBuilder(); sb->Append(x.text.c_str(), (Int32)x.text.size()); x.o = sb; }
		else if (ch % 3 == 1) x.o = mk(x.text);
		else x.o = new CharValue((Char)ch);
		int full = (int)x.text.size();
		into(c, x, full + 1);
		into(c, x, full);
		into(c, x, (int)c.rng.below(full + 4));
		delete x.o;
	});
}
