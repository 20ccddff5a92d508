// C24: Object protocol and Boolean: boxed conversions refuse what they cannot convert, equality is an equivalence, Boolean text round-trips.
#include "text.h"
#include <wctype.h>
struct Plain : public Object {};
struct Named : public Object {
	W w;
	virtual Int32 FormatString(Char* where, const Int32 whereSize) {
		Int32 n = std::min<Int32>((Int32)w.size(), whereSize - 1);
		for (Int32 i = 0; i < n; i++) where[i] = w[i];
		where[n] = 0;
		return n;
	}
};
struct Box { Object* o; DataType t; int64_t iv; double dv; bool num; };

static Object* make(Rng& r, int k, std::string& d) {
	char b[80];
	int64_t v = interesting64(r);
	switch (k) {
	case 0: { bool x = r.chance(1, 2); d = x ? "Boolean true" : "Boolean false"; return new BooleanValue(x); }
	case 1: { int x = (int)r.range(1, 300); snprintf(b, sizeof b, "Char %d", x); d = b; return new CharValue((Char)x); }
	case 2: snprintf(b, sizeof b, "SByte %d", (int)(int8_t)v); d = b; return new SByteValue((SByte)v);
	case 3: snprintf(b, sizeof b, "Byte %d", (int)(uint8_t)v); d = b; return new ByteValue((Byte)v);
	case 4: snprintf(b, sizeof b, "Int16 %d", (int)(int16_t)v); d = b; return new Int16Value((Int16)v);
	case 5: snprintf(b, sizeof b, "UInt16 %d", (int)(uint16_t)v); d = b; return new UInt16Value((UInt16)v);
	case 6: snprintf(b, sizeof b, "Int32 %d", (int)v); d = b; return new Int32Value((Int32)v);
	case 7: snprintf(b, sizeof b, "UInt32 %u", (unsigned)v); d = b; return new UInt32Value((UInt32)v);
	case 8: snprintf(b, sizeof b, "Int64 %lld", (long long)v); d = b; return new Int64Value((Int64)v);
	case 9: snprintf(b, sizeof b, "UInt64 %llu", (unsigned long long)v); d = b; return new UInt64Value((UInt64)v);
	case 10: { float x = (float)r.range(-1000, 1000) / 8; snprintf(b, sizeof b, "Single %g", x); d = b; return new SingleValue(x); }
	case 11: { double x = (double)r.range(-1000, 1000) / 8; snprintf(b, sizeof b, "Double %g", x); d = b; return new DoubleValue(x); }
	case 12: { uint64_t t = r.below(3155378976000000000ULL); snprintf(b, sizeof b, "DateTime %llu", (unsigned long long)t); d = b; return new DateTimeValue(DateTime((UInt64)t)); }
	case 13: snprintf(b, sizeof b, "TimeSpan %lld", (long long)v); d = b; return new TimeSpanValue((TimeSpan)(Int64)v);
	case 14: {
		W w = r.chance(1, 8) ? anyText(r, 12) : r.chance(1, 2) ? nulText(r, 3, L"ab\x1") : smallText(r, 5, L"abc");
		char h[24];
		snprintf(h, sizeof h, "\" #%08llx", (unsigned long long)(hashBytes(w.data(), w.size() * sizeof(wchar_t)) >> 8));
		d = "String \"" + std::string(Q(w)) + h;
		return mk(w);
	}
	case 15: d = "Object"; return new Plain();
	case 16: { Named* n = new Named(); int k2 = (int)r.below(140); while (k2--) n->w += (wchar_t)r.range(32, 126); d = "object of text " + std::to_string(n->w.size()); return n; }
	default: d = "null"; return nullptr;
	}
}
// objects of every kind that all show the same small value or character
static Object* twin(int v, int k, std::string& d) {
	char b[80];
	switch (k) {
	case 0: d = v ? "Boolean true" : "Boolean false"; return new BooleanValue(v != 0);
	case 1: snprintf(b, sizeof b, "Char %d", v); d = b; return new CharValue((Char)v);
	case 2: snprintf(b, sizeof b, "SByte %d", v); d = b; return new SByteValue((SByte)v);
	case 3: snprintf(b, sizeof b, "Byte %d", v); d = b; return new ByteValue((Byte)v);
	case 4: snprintf(b, sizeof b, "Int16 %d", v); d = b; return new Int16Value((Int16)v);
	case 5: snprintf(b, sizeof b, "UInt16 %d", v); d = b; return new UInt16Value((UInt16)v);
	case 6: snprintf(b, sizeof b, "Int32 %d", v); d = b; return new Int32Value((Int32)v);
	case 7: snprintf(b, sizeof b, "UInt32 %u", (unsigned)v); d = b; return new UInt32Value((UInt32)v);
	case 8: snprintf(b, sizeof b, "Int64 %d", v); d = b; return new Int64Value((Int64)v);
	case 9: snprintf(b, sizeof b, "UInt64 %d", v); d = b; return new UInt64Value((UInt64)v);
	case 10: snprintf(b, sizeof b, "Single %d", v); d = b; return new SingleValue((Single)v);
	case 11: snprintf(b, sizeof b, "Double %d", v); d = b; return new DoubleValue((Double)v);
	case 12: snprintf(b, sizeof b, "DateTime %d", v); d = b; return new DateTimeValue(DateTime((UInt64)v));
	case 13: snprintf(b, sizeof b, "TimeSpan %d", v); d = b; return new TimeSpanValue((TimeSpan)(Int64)v);
	case 14: snprintf(b, sizeof b, "%d", v); d = std::string("String \"") + b + "\""; return mk(wide(b));
	case 15: snprintf(b, sizeof b, "%c", v < 33 ? '0' + v % 10 : v); d = std::string("String \"") + b + "\""; return mk(wide(b));
	case 16: d = v ? "String \"True\"" : "String \"False\""; return mk(v ? L"True" : L"False");
	case 17: d = "String \"\""; return mk(L"");
	case 18: { Named* n = new Named(); snprintf(b, sizeof b, "%d", v); n->w = wide(b); d = "object"; return n; }
	default: d = "null"; return nullptr;
	}
}
static const DataType types[] = {BooleanType, CharType, SByteType, ByteType, Int16Type, UInt16Type, Int32Type, UInt32Type, Int64Type, UInt64Type, SingleType, DoubleType, DateTimeType, TimeSpanType, StringType, ObjectType, ObjectType};

SECTION(equality, 2, 8) {
	uint64_t n = c.n(60000, 4000000);
	for (uint64_t i = 0; i < n; i++) {
		std::string d[3];
		Object* o[3];
		Rng r0(c.rng.next());
		int k0 = (int)c.rng.below(18);
		uint64_t seed = c.rng.next();
		bool twins = c.rng.chance(1, 3);
		int tv = (int)(c.rng.chance(1, 2) ? c.rng.range(0, 9) : c.rng.chance(1, 2) ? c.rng.range(48, 57) : c.rng.range(97, 122));
		for (int k = 0; k < 3; k++) {
			if (twins) { o[k] = twin(tv, (int)c.rng.below(20), d[k]); continue; }
			if (c.rng.chance(1, 2)) { Rng r(seed); o[k] = make(r, k0, d[k]); }
			else if (k && c.rng.chance(1, 4)) { o[k] = o[0]; d[k] = "the same object as the first"; }
			else { Rng r(c.rng.next()); o[k] = make(r, c.rng.chance(1, 2) ? k0 : (int)c.rng.below(18), d[k]); }
		}
		c.begin(true, "equality of %s, %s, %s", d[0].c_str(), d[1].c_str(), d[2].c_str());
		bool eq[3][3];
		Ex e = run([&] { for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) eq[a][b] = Object::Equals(o[a], o[b]); });
		CHECK(e == NOEX, "Equals threw", "%s", exName(e));
		if (e != NOEX) continue;
		for (int a = 0; a < 3; a++) {
			CHECK(eq[a][a], "not equal to itself", "%s", d[a].c_str());
			for (int b = 0; b < 3; b++) {
				CHECK(eq[a][b] == eq[b][a], "equality not symmetric", "%s / %s", d[a].c_str(), d[b].c_str());
				for (int k = 0; k < 3; k++) CHECK(!(eq[a][b] && eq[b][k]) || eq[a][k], "equality not transitive", "%s / %s / %s", d[a].c_str(), d[b].c_str(), d[k].c_str());
				if (o[a] && o[b]) {
					bool m = false;
					Ex e2 = run([&] { m = o[a]->Equals(o[b]); });
					CHECK(e2 == NOEX && m == eq[a][b], "static and member Equals differ", "%s / %s", d[a].c_str(), d[b].c_str());
					bool values = o[a]->GetRawDataType() != ObjectType && o[a]->GetRawDataType() == o[b]->GetRawDataType();
					if (o[a] == o[b]) CHECK(eq[a][b], "identity", "%s", d[a].c_str());
					else if (!values) CHECK(!eq[a][b], "different types or objects equal", "%s / %s", d[a].c_str(), d[b].c_str());
					else { CHECK(eq[a][b] == (d[a] == d[b]) || d[a][0] == 't' || d[b][0] == 't', "value equality", "%s / %s", d[a].c_str(), d[b].c_str()); c.event("same-type pairs"); }
				} else
					CHECK(eq[a][b] == (o[a] == o[b]), "null equality", "%s / %s", d[a].c_str(), d[b].c_str());
			}
		}
		for (int k = 0; k < 3; k++) { bool dup = false; for (int j = 0; j < k; j++) dup |= o[j] == o[k]; if (!dup) delete o[k]; }
	}
}
// every boxed type against every unboxing accessor: the permitted conversions give the value, the others InvalidCast
SECTION(accessors, 2, 8) {
	uint64_t n = c.n(40000, 2000000);
	for (uint64_t i = 0; i < n; i++) {
		std::string d;
		int k = (int)c.rng.below(17);
		Object* o = make(c.rng, k, d);
		c.begin(true, "accessors of %s", d.c_str());
		CHECK(o->GetRawDataType() == types[k], "raw type", "%d", (int)o->GetRawDataType());
		CHECK((bool)Object::IsPrimitiveType(o->GetRawDataType()) == (k < 14), "IsPrimitiveType", "%d", (int)o->GetRawDataType());
		Ex e;
		DateTime dt;
		TimeSpan ts;
		e = run([&] { dt = o->get_AsDateTime(); });
		CHECK((e == NOEX) == (k == 12) && (e == NOEX || e == CAST), "get_AsDateTime", "%s", exName(e));
		e = run([&] { ts = o->get_AsTimeSpan(); });
		CHECK((e == NOEX) == (k == 13) && (e == NOEX || e == CAST), "get_AsTimeSpan", "%s", exName(e));
		if (k >= 12) {
			int bad = 0;
			bad += run([&] { o->get_AsBoolean(); }) != CAST;
			bad += run([&] { o->get_AsChar(); }) != CAST;
			bad += run([&] { o->get_AsByte(); }) != CAST;
			bad += run([&] { o->get_AsSByte(); }) != CAST;
			bad += run([&] { o->get_AsInt16(); }) != CAST;
			bad += run([&] { o->get_AsUInt16(); }) != CAST;
			bad += run([&] { o->get_AsInt32(); }) != CAST;
			bad += run([&] { o->get_AsUInt32(); }) != CAST;
			bad += run([&] { o->get_AsInt64(); }) != CAST;
			bad += run([&] { o->get_AsUInt64(); }) != CAST;
			bad += run([&] { o->get_AsSingle(); }) != CAST;
			bad += run([&] { o->get_AsDouble(); }) != CAST;
			CHECK(bad == 0, "conversion of a non-number", "%d accessors did not refuse", bad);
			c.event("conversions refused", 12);
		} else if (k == 0) {
			int v = o->get_AsBoolean() ? 1 : 0;
			CHECK(o->get_AsByte() == v && o->get_AsSByte() == v && o->get_AsInt16() == v && o->get_AsUInt16() == v && o->get_AsInt32() == v && o->get_AsUInt32() == (UInt32)v && o->get_AsInt64() == v &&
				o->get_AsUInt64() == (UInt64)v, "Boolean as integer", "%d", v);
			c.event("conversions", 8);
		} else if (k >= 2 && k <= 9) {
			int64_t v = k == 9 ? (int64_t)o->get_AsUInt64() : o->get_AsInt64();
			CHECK(o->get_AsByte() == (Byte)v && o->get_AsSByte() == (SByte)v && o->get_AsInt16() == (Int16)v && o->get_AsUInt16() == (UInt16)v && o->get_AsInt32() == (Int32)v &&
				o->get_AsUInt32() == (UInt32)v && o->get_AsInt64() == v && o->get_AsUInt64() == (UInt64)v, "integer conversions", "%lld", (long long)v);
			c.event("conversions", 8);
		}
		// text of the object, by every route
		Char buf[200];
		Int32 len = o->FormatString(buf, 200);
		W t(buf, len);
		if (t.size() < 128) {
			String* s = o->ToString();
			CHECK(s != nullptr && str(s) == t, "ToString and FormatString differ", "\"%s\" \"%s\"", Q(str(s)), Q(t));
			if (s != o) delete s;
		}
		if (k == 15) CHECK(t == L"Object", "default text", "%s", Q(t));
		delete o;
	}
}
SECTION(booleans, 1, 4) {
	uint64_t n = c.n(60000, 2000000);
	for (uint64_t i = 0; i < n; i++) {
		W w = c.rng.chance(1, 2) ? L"true" : L"false";
		for (auto& ch : w) if (c.rng.chance(1, 2)) ch = towupper(ch);
		if (c.rng.chance(1, 2)) {
			size_t at = c.rng.below(w.size() + 1);
			static const wchar_t al[] = L"truefalsTRUE0x";
			switch (c.rng.below(5)) {
			case 3: if (at < w.size()) w[at] = (wchar_t)(w[at] + 0x100 * c.rng.range(1, 0x200)); break;
			case 4: { W v = w; for (int k = (int)c.rng.range(1, 300); k > 0; k--) w += c.rng.chance(1, 2) ? v : W(1, al[c.rng.below(14)]); break; }
			case 0: w.insert(at, 1, al[c.rng.below(14)]); break;
			case 1: if (at < w.size()) w.erase(at, 1 + c.rng.below(5)); break;
			default: if (at < w.size()) w[at] = al[c.rng.below(14)];
			}
		}
		W lowc = w;
		for (auto& ch : lowc) ch = towlower(ch);
		c.begin(true, "Boolean text \"%s\"", Q(w));
		String* s = mkAt(c.rng, 0, w);
		Boolean v = false;
		Ex e = run([&] { v = BooleanValue::Parse(s); });
		if (lowc == L"true" || lowc == L"false") { CHECK(e == NOEX && (bool)v == (lowc == L"true"), "Parse", "%d %s", (int)v, exName(e)); c.event("texts parsed"); }
		else { CHECK(e == FORMAT, "malformed text accepted", "%d %s", (int)v, exName(e)); c.event("texts refused"); }
		drop(s);
		bool a = c.rng.chance(1, 2), b = c.rng.chance(1, 2);
		BooleanValue x(a), y(b);
		String* t = x.ToString();
		CHECK(str(t) == (a ? L"True" : L"False"), "text", "%s", Q(str(t)));
		CHECK((bool)BooleanValue::Parse(t) == a, "text does not round-trip", "%s", Q(str(t)));
		delete t;
		CHECK(x.CompareTo(b) == (a == b ? 0 : a ? 1 : -1) && x.CompareTo((Object*)&y) == (a == b ? 0 : a ? 1 : -1) && y.CompareTo((Object*)&x) == (a == b ? 0 : a ? -1 : 1) && x.CompareTo((Object*)nullptr) == 1, "CompareTo", "%d %d", (int)a, (int)b);
		CHECK((bool)x.Equals(b) == (a == b) && (bool)x.Equals((Object*)&y) == (a == b) && (bool)y.Equals((Object*)&x) == (a == b), "Equals", "%d %d", (int)a, (int)b);
		Int32Value other(1);
		CHECK(run([&] { x.CompareTo((Object*)&other); }) == ARG && !x.Equals((Object*)&other), "other types", "%d", (int)a);
		CHECK(str(BooleanValue::TrueString) == L"True" && str(BooleanValue::FalseString) == L"False", "constants", "%d", 0);
	}
	c.begin(true, "Boolean text null");
	Ex e = run([&] { BooleanValue::Parse(nullptr); });
	CHECK(e == ARG || e == ANULL, "null text", "%s", exName(e));
}
// every character in, before and behind the words
SECTION(everychar, 1, 4) {
	everyChar(c, "Boolean text with the character", [&](wchar_t ch) {
		for (int q = 0; q < 4; q++) {
			W w = q & 1 ? L"true" : L"False";
			if (q < 2) w[(ch / 2) % w.size()] = ch;
			else if (ch & 1) w += ch;
			else w = W(1, ch) + w;
			W l = w;
			for (auto& z : l) z = towlower(z);
			String* s = mkAt(c.rng, 0, w);
			Boolean v = false;
			Ex e = run([&] { v = BooleanValue::Parse(s); });
			if (l == L"true" || l == L"false") CHECK(e == NOEX && (bool)v == (l == L"true"), "Parse", "\"%s\": %d %s", Q(w), (int)v, exName(e));
			else CHECK(e == FORMAT, "malformed text accepted", "\"%s\": %d %s", Q(w), (int)v, exName(e));
			drop(s);
		}
	});
}
