// C03: boxed element access is faithful for every type, and arrays over caller memory are live views that never own it.
#include "arrays.h"
#include "text.h"

SECTION(boxed, 8, 8) {
	std::vector<Object*> objs;
	std::vector<String*> strs;
	for (int i = 0; i < 8; i++) { objs.push_back(new Int32Value(i)); strs.push_back(mk(W(i % 4, L'x'))); }
	uint64_t n = c.n(12000, 300000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		ArrModel m;
		int rank = (int)r.range(1, 3);
		if (r.chance(1, 60)) m.shape(kTypes[h % kTypeCount].t, rank, rank == 1 ? 1 + bigSize(r, 2000) : (int)r.range(1, 40), (int)r.range(1, rank == 2 ? 40 : 12), (int)r.range(1, 12));
		else m.shape(kTypes[h % kTypeCount].t, rank, (int)r.range(1, 6), (int)r.range(1, 5), (int)r.range(1, 4));
		m.make();
		m.fill(r, objs, strs);
		m.push();
		for (int o = 0; o < 6; o++) {
			int f = (int)r.below(m.total());
			int ix[3] = {f, -1, -1};
			if (rank == 2) { ix[0] = f / m.d[1]; ix[1] = f % m.d[1]; }
			if (rank == 3) { ix[0] = f / (m.d[1] * m.d[2]); ix[1] = f / m.d[2] % m.d[1]; ix[2] = f % m.d[2]; }
			bool viaArray = r.chance(1, 2), set = r.chance(1, 2);
			unsigned char v[16], w[16];
			if (set) {
				do randomElement(r, m.t, v, objs, strs);
				while ((m.t == ObjectType || m.t == StringType) && *(void**)v == nullptr);
				c.begin(true, "SetValue %s element %d of %d%s bytes %02x%02x%02x%02x%02x%02x%02x%02x", typeInfo(m.t).name, f, m.total(), viaArray ? " by index array" : "", v[0], v[1], v[2], v[3], v[4], v[5],
					v[6], v[7]);
				Object* b = box(m.t, v);
				Ex e = run([&] {
					if (viaArray) m.a->SetValue(b, indexes(rank, ix));
					else m.a->SetValue(b, ix[0], ix[1], ix[2]);
				});
				CHECK(e == NOEX, "SetValue refused", "%s", exName(e));
				// float NaN payloads may be quieted
				if (sameElem(m.t, (unsigned char*)m.real(f), v)) memcpy(v, m.real(f), m.esize());
				memcpy(m.at(f), v, m.esize());
				c.event("boxed writes");
				int d = m.diff();
				CHECK(d == -1, "SetValue stored the wrong value or place", "element %d", d);
			} else {
				c.begin(true, "GetValue %s element %d of %d%s", typeInfo(m.t).name, f, m.total(), viaArray ? " by index array" : "");
				Object* b = nullptr;
				Ex e = run([&] { b = viaArray ? m.a->GetValue(indexes(rank, ix)) : m.a->GetValue(ix[0], ix[1], ix[2]); });
				CHECK(e == NOEX, "GetValue refused", "%s", exName(e));
				if (e == NOEX && (b || m.t == ObjectType || m.t == StringType)) {
					bool tok = unbox(m.t, b, w);
					CHECK(tok, "GetValue returned the wrong type", "%d", (int)b->GetRawDataType());
					CHECK(sameElem(m.t, w, m.at(f)), "GetValue returned the wrong value", "element %d", f);
				} else {
					CHECK(false, "GetValue returned nothing", "element %d", f);
				}
				c.event("boxed reads");
			}
		}
		if (m.diff() != -1) c.fail("boxed access changed another element", "element %d", m.diff());
		delete m.a;
	}
	c.begin(true, "boxed access misuse");
	Array a(Int32Type, 2, 2);
	Int32Value one(1);
	Array* ix1 = indexes(1, (const int[]){0});
	Array* ix3 = indexes(3, (const int[]){0, 0, 0});
	Array* ixBad = indexes(2, (const int[]){0, 2});
	Array* ixNeg = indexes(2, (const int[]){-1, 0});
	Array* ix4 = indexes(4, (const int[]){0, 0, 0, 0});
	Array* none = nullptr;
	Array bytes(ByteType, 2);
	CHECK(isErr(run([&] { a.GetValue(ix1); })) && isErr(run([&] { a.GetValue(ix3); })) && isErr(run([&] { a.GetValue(ix4); })), "index count mismatch accepted", "GetValue");
	CHECK(isErr(run([&] { a.SetValue(&one, ix1); })) && isErr(run([&] { a.SetValue(&one, ix3); })) && isErr(run([&] { a.SetValue(&one, ix4); })), "index count mismatch accepted", "SetValue");
	CHECK(isErr(run([&] { a.GetValue(ixBad); })) && isErr(run([&] { a.SetValue(&one, ixBad); })) && isErr(run([&] { a.GetValue(ixNeg); })) && isErr(run([&] { a.SetValue(&one, ixNeg); })), "index outside the array accepted", "index array");
	CHECK(isErr(run([&] { a.GetValue(none); })) && isErr(run([&] { a.SetValue(&one, none); })), "null index array accepted", "GetValue/SetValue");
	CHECK(isErr(run([&] { a.GetValue(&bytes); })) && isErr(run([&] { a.SetValue(&one, &bytes); })), "index array of another type accepted", "GetValue/SetValue");
	Array* ix0 = new Array(Int32Type, 0);
	CHECK(isErr(run([&] { a.GetValue(ix0); })) && isErr(run([&] { a.SetValue(&one, ix0); })), "index count mismatch accepted", "no index at all");
	for (int i = 0; i < 4; i++) CHECK(*(Int32*)a.Address(i / 2, i % 2) == 0, "refused boxed access changed an element", "%d", i);
}

// what a box of one kind stores into an array of another: integers keep the low bits, numbers become the nearest number, floating
// values inside the element's range lose their fraction, Booleans take "not zero"; pairs without a conversion are refused
struct Src { DataType t; i128 i; double d; bool fl; std::string text; };
static Src anySource(Rng& r, DataType dst) {
	static const DataType k[] = {BooleanType, CharType, SByteType, ByteType, Int16Type, UInt16Type, Int32Type, UInt32Type, Int64Type, UInt64Type, SingleType, DoubleType};
	Src s;
	s.t = k[r.below(12)];
	s.fl = s.t == SingleType || s.t == DoubleType;
	int64_t v = interesting64(r);
	switch (s.t) {
	case BooleanType: s.i = v & 1; break;
	case CharType: s.i = (uint16_t)v; break;
	case SByteType: s.i = (int8_t)v; break;
	case ByteType: s.i = (uint8_t)v; break;
	case Int16Type: s.i = (int16_t)v; break;
	case UInt16Type: s.i = (uint16_t)v; break;
	case Int32Type: s.i = (int32_t)v; break;
	case UInt32Type: s.i = (uint32_t)v; break;
	case Int64Type: s.i = v; break;
	default: s.i = (uint64_t)v; break;
	}
	if (s.fl) {
		// spread over the whole range of the element, ends included
		double lo = -1e19, hi = 1e19;
		switch (dst) {
		case SByteType: lo = -129; hi = 128; break;
		case ByteType: lo = -1; hi = 256; break;
		case Int16Type: lo = -32769; hi = 32768; break;
		case CharType: case UInt16Type: lo = -1; hi = 65536; break;
		case Int32Type: lo = -2147483649.0; hi = 2147483648.0; break;
		case UInt32Type: lo = -1; hi = 4294967296.0; break;
		case Int64Type: lo = -9223372036854775808.0; hi = 9223372036854775808.0; break;
		case UInt64Type: lo = -1; hi = 18446744073709551616.0; break;
		default: break;
		}
		double f = (double)(r.next() >> 11) / 9007199254740992.0;
		switch (r.below(5)) {
		case 0: s.d = lo + (hi - lo) * f; break;
		case 1: s.d = hi - (double)r.below(5000) / 8; break;
		case 2: s.d = lo + (double)r.below(5000) / 8; break;
		case 3: s.d = std::ldexp(1 + f, (int)r.range(-3, 64)); break;
		default: s.d = interestingD(r); break;
		}
		if (s.t == SingleType) s.d = (float)s.d;
	}
	char b[100];
	if (s.fl) snprintf(b, sizeof b, "%s %.17g", typeInfo(s.t).name, s.d);
	else snprintf(b, sizeof b, "%s %s", typeInfo(s.t).name, dec(s.i).c_str());
	s.text = b;
	return s;
}
static Object* boxOf(const Src& s) {
	switch (s.t) {
	case BooleanType: return new BooleanValue((Boolean)(s.i != 0));
	case CharType: return new CharValue((Char)s.i);
	case SByteType: return new SByteValue((SByte)s.i);
	case ByteType: return new ByteValue((Byte)s.i);
	case Int16Type: return new Int16Value((Int16)s.i);
	case UInt16Type: return new UInt16Value((UInt16)s.i);
	case Int32Type: return new Int32Value((Int32)s.i);
	case UInt32Type: return new UInt32Value((UInt32)s.i);
	case Int64Type: return new Int64Value((Int64)s.i);
	case UInt64Type: return new UInt64Value((UInt64)s.i);
	case SingleType: return new SingleValue((Single)s.d);
	default: return new DoubleValue(s.d);
	}
}
// 0: not fixed (out of range), 1: must be stored as want, 2: may be refused, else stored as want
static int expected(const Src& s, DataType dst, unsigned char* want) {
	memset(want, 0, 8);
	if (dst == SingleType || dst == DoubleType) {
		double d = s.fl ? s.d : s.i < 0 ? (double)(int64_t)s.i : (double)(uint64_t)s.i;
		float f = s.fl ? (float)s.d : s.i < 0 ? (float)(int64_t)s.i : (float)(uint64_t)s.i;
		if (dst == SingleType) memcpy(want, &f, 4);
		else memcpy(want, &d, 8);
		return s.t == BooleanType ? 2 : 1;
	}
	if (dst == BooleanType) {
		Boolean b = s.fl ? s.d != 0 : s.i != 0;
		memcpy(want, &b, sizeof b);
		return s.fl || s.t == CharType ? 2 : 1;
	}
	uint64_t bits;
	if (s.fl) {
		double lo = dst == SByteType ? -128 : dst == Int16Type ? -32768 : dst == Int32Type ? -2147483648.0 : dst == Int64Type ? -9223372036854775808.0 : 0;
		double over = dst == SByteType ? 128 : dst == ByteType ? 256 : dst == Int16Type ? 32768 : dst == UInt16Type || dst == CharType ? 65536 : dst == Int32Type ? 2147483648.0 : dst == UInt32Type ? 4294967296.0 :
			dst == Int64Type ? 9223372036854775808.0 : 18446744073709551616.0;
		double t = std::trunc(s.d);
		if (!(t >= lo && t < over)) return 0;
		bits = t < 0 ? (uint64_t)(int64_t)t : (uint64_t)t;
	} else {
		bits = (uint64_t)s.i;
		if (dst == CharType && !(s.i >= 0 && s.i < 65536)) return 0;
	}
	memcpy(want, &bits, typeInfo(dst).size);
	return dst == CharType && (s.fl || s.t == BooleanType) ? 2 : 1;
}
SECTION(conversions, 4, 8) {
	uint64_t n = c.n(160000, 2400000);
	static const DataType all[] = {BooleanType, CharType, SByteType, ByteType, Int16Type, UInt16Type, Int32Type, UInt32Type, Int64Type, UInt64Type, SingleType, DoubleType, DateTimeType, TimeSpanType};
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		DataType t = all[r.below(14)];
		Src s = anySource(r, t);
		unsigned char want[8];
		c.begin(true, "store boxed %s into %s", s.text.c_str(), typeInfo(t).name);
		int rule = t == DateTimeType || t == TimeSpanType ? 3 : expected(s, t, want);
		if (rule == 0) continue;
		Object* b = boxOf(s);
		Array a(t, 3);
		int es = typeInfo(t).size;
		unsigned char old[8] = {0};
		if (t != BooleanType && t != CharType && r.chance(1, 2)) memset(old, 0x11, sizeof old);
		for (int i = 0; i < 3; i++) memcpy(a.Address(i), old, es);
		Ex e = run([&] { a.SetValue(b, 1); });
		if (rule == 1) CHECK(e == NOEX, "SetValue refused", "%s", exName(e));
		else if (rule == 2) CHECK(e == NOEX || e == CAST, "SetValue refused otherwise than by InvalidCast", "%s", exName(e));
		else CHECK(e == CAST, "a number stored as a time", "%s", exName(e));
		if (e == NOEX && rule != 3) CHECK(sameElem(t, (unsigned char*)a.Address(1), want), "SetValue stored the wrong value or place", "converted value differs");
		else CHECK(!memcmp(a.Address(1), old, es), "refused boxed access changed an element", "element 1");
		CHECK(!memcmp(a.Address(0), old, es) && !memcmp(a.Address(2), old, es), "boxed access changed another element", "neighbour");
		c.event(rule == 3 || e != NOEX ? "conversions refused" : "conversions stored");
		delete b;
	}
	for (DataType t : all) {
		c.begin(true, "store null and a String into %s", typeInfo(t).name);
		Array a(t, 1);
		CHECK(isErr(run([&] { a.SetValue(nullptr, 0); })), "null stored into a value array", "%s", typeInfo(t).name);
		String s(L"x");
		CHECK(isErr(run([&] { a.SetValue(&s, 0); })), "text stored into a value array", "%s", typeInfo(t).name);
		static const unsigned char zero[8] = {0};
		CHECK(!memcmp(a.Address(0), zero, typeInfo(t).size), "refused boxed access changed an element", "%s", typeInfo(t).name);
	}
}

// what is no text is not stored among texts, where it would be used as one
SECTION(texts, 1, 2) {
	std::vector<Object*> no = {new Int32Value(1), new BooleanValue(true), new CharValue(L'x'), new DoubleValue(1.5), new SingleValue(1.5f), new ByteValue(1), new SByteValue(1), new Int16Value(1), new UInt16Value(1), new UInt32Value(1), new Int64Value(1), new UInt64Value(1),
		new DateTimeValue(DateTime(2020, 1, 1)), new TimeSpanValue(TimeSpan(1)), new Object(), new Array(ByteType, 2), new StringBuilder(), new Exception()};
	uint64_t n = c.n(4000, 100000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		int len = (int)r.range(1, 6), rank = (int)r.range(1, 2), at = (int)r.below(len), ix[2] = {at, (int)r.below(2)};
		Array* a = rank == 1 ? new Array(StringType, len) : new Array(StringType, len, 2);
		std::vector<String*> want(len * rank);
		for (int i = 0; i < len * rank; i++) { want[i] = r.chance(1, 3) ? nullptr : mk(smallText(r, 4)); *(String**)(rank == 1 ? a->Address(i) : a->Address(i / 2, i % 2)) = want[i]; }
		size_t w = r.below(no.size());
		bool list = r.chance(1, 2);
		c.begin(true, "store a box of kind %zu among %d texts%s", w, len * rank, list ? " by index array" : "");
		Array* by = indexes(rank, ix);
		Ex e = run([&] { if (list) a->SetValue(no[w], by); else a->SetValue(no[w], ix[0], rank > 1 ? ix[1] : -1); });
		CHECK(isErr(e), "a box that is no text was stored among texts", "kind %zu: %s", w, exName(e));
		for (int i = 0; i < len * rank; i++) CHECK(*(String**)(rank == 1 ? a->Address(i) : a->Address(i / 2, i % 2)) == want[i], "refused boxed access changed an element", "%d", i);
		c.event("boxes refused among texts");
		String* t = mk(L"t");
		e = run([&] { a->SetValue(t, by); });
		CHECK(e == NOEX && a->GetValue(ix[0], rank > 1 ? ix[1] : -1) == t, "SetValue refused", "text: %s", exName(e));
		delete by;
		delete a;
		delete t;
		for (auto* q : want) delete q;
	}
}

// arrays over caller memory: live in both directions, never resized, never freed, never outside
SECTION(external, 4, 8) {
	std::vector<Object*> objs;
	std::vector<String*> strs;
	objs.push_back(new Int32Value(1));
	strs.push_back(mk(L"s"));
	uint64_t n = c.n(4000, 100000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		ArrModel m;
		int rank = (int)r.range(1, 3);
		bool big = r.chance(1, 40);
		if (big) m.shape(kTypes[r.below(kTypeCount)].t, rank, rank == 1 ? 1 + bigSize(r, 5000) : (int)r.range(1, 70), (int)r.range(1, rank == 2 ? 70 : 16), (int)r.range(1, 16));
		else m.shape(kTypes[r.below(kTypeCount)].t, rank, (int)r.range(1, 6), (int)r.range(1, 4), (int)r.range(1, 4));
		size_t bytes = m.bytes.size();
		bool stack = !big && r.chance(1, 2);
		unsigned char local[6 * 4 * 4 * 8 + 64];
		memset(local, 0xA5, sizeof local);
		unsigned char* mem = stack ? local + 32 : (unsigned char*)malloc(bytes);
		m.fill(r, objs, strs);
		memcpy(mem, m.bytes.data(), bytes);
		c.begin(true, "array %s rank %d over %zu bytes of %s memory", typeInfo(m.t).name, rank, bytes, stack ? "stack" : "heap");
		m.a = rank == 1 ? new Array(mem, m.t, m.d[0]) : rank == 2 ? new Array(mem, m.t, m.d[0], m.d[1]) : new Array(mem, m.t, m.d[0], m.d[1], m.d[2]);
		CHECK(m.real(0) == mem, "external memory not used in place", "copied");
		CHECK(m.diff() == -1, "external memory contents changed", "on construction");
		int f = (int)r.below(m.total());
		randomElement(r, m.t, m.at(f), objs, strs);
		memcpy(mem + (size_t)f * m.esize(), m.at(f), m.esize());
		CHECK(m.diff() == -1, "array does not see writes to its memory", "element %d", f);
		f = (int)r.below(m.total());
		randomElement(r, m.t, m.at(f), objs, strs);
		memcpy(m.real(f), m.at(f), m.esize());
		CHECK(!memcmp(mem, m.bytes.data(), bytes), "memory does not see writes to its array", "element %d", f);
		std::vector<unsigned char> init(bytes);
		for (int g = 0; g < m.total(); g++) randomElement(r, m.t, init.data() + (size_t)g * m.esize(), objs, strs);
		Array* back = m.a->Initialize(init.data());
		m.bytes = init;
		CHECK(back == m.a && m.diff() == -1 && !memcmp(mem, init.data(), bytes), "Initialize did not fill the array", "bytes differ");
		delete m.a;
		CHECK(!memcmp(mem, m.bytes.data(), bytes), "destroying the array changed caller memory", "bytes differ");
		mem[0] ^= 1;  // still owned by the caller: use and release it
		if (stack) {
			for (int g = 0; g < 32; g++) CHECK(local[g] == 0xA5 && local[32 + bytes + g] == 0xA5, "wrote outside the caller's memory", "guard byte %d", g);
		} else {
			free(mem);
		}
		c.event("external arrays");
	}
}

// boxed access at indexes up to 2^31-2 of arrays over caller memory
SECTION(giant, 6, 8) {
	std::vector<Object*> objs;
	std::vector<String*> strs;
	for (int i = 0; i < 8; i++) { objs.push_back(new Int32Value(i)); strs.push_back(mk(W(i % 4, L'x'))); }
	uint64_t n = c.n(1600, 50000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		int rank = (int)r.range(1, 3), d[3];
		giantShape(r, rank, d);
		Giant g;
		if (!g.make(kTypes[r.below(kTypeCount)].t, rank, d[0], d[1], d[2])) { c.event("address space refused"); continue; }
		int es = g.esize();
		for (int o = 0; o < 16; o++) {
			int64_t i = giantIndex(r, d[0]), j = rank > 1 ? giantIndex(r, d[1]) : -1, k = rank > 2 ? giantIndex(r, d[2]) : -1, f = g.flat(i, j, k);
			int ix[3] = {(int)i, (int)j, (int)k};
			unsigned char v[16], w[16];
			do randomElement(r, g.t, v, objs, strs);
			while ((g.t == ObjectType || g.t == StringType) && *(void**)v == nullptr);
			bool viaArray = r.chance(1, 2);
			c.begin(true, "boxed access to giant %s[%d,%d,%d] at (%d,%d,%d)%s", typeInfo(g.t).name, d[0], d[1], d[2], ix[0], ix[1], ix[2], viaArray ? " by index array" : "");
			int64_t lo = std::max<int64_t>(0, f - 2), hi = std::min(g.total(), f + 3);
			std::vector<unsigned char> img(g.at(lo), g.at(hi));
			Object* b = box(g.t, v);
			Ex e = run([&] { if (viaArray) g.a->SetValue(b, indexes(rank, ix)); else g.a->SetValue(b, ix[0], ix[1], ix[2]); });
			CHECK(e == NOEX && sameElem(g.t, g.at(f), v), "SetValue stored the wrong value or place", "(%d,%d,%d): %s", ix[0], ix[1], ix[2], exName(e));
			memcpy(img.data() + (f - lo) * es, g.at(f), es);
			CHECK(!memcmp(img.data(), g.at(lo), img.size()), "SetValue stored the wrong value or place", "a neighbour of (%d,%d,%d)", ix[0], ix[1], ix[2]);
			Object* got = nullptr;
			Ex e2 = run([&] { got = viaArray ? g.a->GetValue(indexes(rank, ix)) : g.a->GetValue(ix[0], ix[1], ix[2]); });
			CHECK(e2 == NOEX && got && unbox(g.t, got, w) && sameElem(g.t, w, g.at(f)), "GetValue returned the wrong value", "(%d,%d,%d): %s", ix[0], ix[1], ix[2], exName(e2));
			c.event("boxed accesses far out", 2);
		}
	}
}

// any operations in any order over a few arrays
SECTION(sequences, 4, 8) {
	arrays::histories(c, arrays::BOXES, c.n(6000, 200000));
}
