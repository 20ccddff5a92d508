// C05: BitConverter maps values to bytes and back without loss, at any offset, and never reads outside the array.
#include "arrays.h"

#if defined(__SSE2__) || !(defined(__i386__))
static const bool exactNaN = true;
#else
static const bool exactNaN = false;
#endif
static std::vector<Byte> content(Array* a) {
	std::vector<Byte> r;
	for (int i = 0; i < a->get_Length(); i++) r.push_back(*(Byte*)a->Address(i));
	return r;
}
// little-endian reference encoding
static std::vector<Byte> le(uint64_t v, int n) {
	std::vector<Byte> r;
	for (int i = 0; i < n; i++) r.push_back((Byte)(v >> (8 * i)));
	return r;
}
static uint64_t fromLe(const std::vector<Byte>& b, int at, int n) {
	uint64_t v = 0;
	for (int i = 0; i < n; i++) v |= (uint64_t)b[at + i] << (8 * i);
	return v;
}
static void same(Ctx& c, const char* what, Array* a, uint64_t v, int n) {
	CHECK(a != nullptr && a->GetElementType() == ByteType && a->get_Rank() == 1, "GetBytes result is not a byte array", "%s", what);
	CHECK(content(a) == le(v, n), "GetBytes gives the wrong bytes", "%s of %llx: %d bytes", what, (unsigned long long)v, a->get_Length());
	delete a;
}

SECTION(getbytes, 4, 8) {
	CHECK(BitConverter::IsLittleEndian, "endianness misreported", "IsLittleEndian");
	for (int v = -32768; v < 65536; v++) {
		if (!c.mine((uint64_t)(v + 32768))) continue;
		c.bulk("GetBytes 16-bit", v);
		if (v < 32768) same(c, "Int16", BitConverter::GetBytes((Int16)v), (uint16_t)v, 2);
		if (v >= 0) {
			same(c, "UInt16", BitConverter::GetBytes((UInt16)v), (uint16_t)v, 2);
			same(c, "Char", BitConverter::GetBytes((Char)v), (uint16_t)v, 2);
		}
	}
	uint64_t n = c.n(20000, 1000000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		int64_t v = interesting64(r);
		double d = interestingD(r);
		float f = interestingF(r);
		if (r.chance(1, 10)) {
			// NaNs of every kind: either sign, quiet and signalling, with and without a payload
			d = dblOf(0x7FF0000000000000ull | (r.next() & 0x800FFFFFFFFFFFFFull) | (r.chance(1, 2) ? 1 : 0x8000000000000ull));
			uint32_t b = 0x7F800000u | ((uint32_t)r.next() & 0x807FFFFFu) | (r.chance(1, 2) ? 1u : 0x400000u);
			memcpy(&f, &b, 4);
			if (r.chance(1, 2)) v = (int64_t)bitsOf(d);
		}
		c.begin(true, "GetBytes of %lld / %a / %a", (long long)v, d, f);
		same(c, "Int32", BitConverter::GetBytes((Int32)v), (uint32_t)v, 4);
		same(c, "UInt32", BitConverter::GetBytes((UInt32)v), (uint32_t)v, 4);
		same(c, "Int64", BitConverter::GetBytes((Int64)v), (uint64_t)v, 8);
		same(c, "UInt64", BitConverter::GetBytes((UInt64)v), (uint64_t)v, 8);
		// passing a value leaves the bits of a NaN alone everywhere but in x87 code
		if (d == d || exactNaN) same(c, "Double", BitConverter::GetBytes(d), bitsOf(d), 8);
		if (f == f || exactNaN) same(c, "Single", BitConverter::GetBytes(f), bitsOf(f), 4);
		same(c, "Boolean", BitConverter::GetBytes((Boolean)(v & 1)), v & 1, 1);
		CHECK(BitConverter::DoubleToInt64Bits(dblOf(bitsOf(d))) == (Int64)bitsOf(d), "Double bits", "%a", d);
		CHECK(bitsOf(BitConverter::Int64BitsToDouble(v)) == (uint64_t)v || (!exactNaN && (d != d || dblOf((uint64_t)v) != dblOf((uint64_t)v))), "Double bits", "%llx", (unsigned long long)v);
		c.event("values encoded", 8);
	}
}

template <class T, class F> static void decode(Ctx& c, const char* what, const std::vector<Byte>& b, Array* a, int at, F f, int n) {
	T got = T();
	Ex e = run([&] { got = f(a, at); });
	bool ok = at >= 0 && (int64_t)at + n <= (int64_t)b.size();
	if (!ok) {
		CHECK(isErr(e), "value read from outside the array", "%s at %d of %d bytes: %s", what, at, (int)b.size(), exName(e));
		c.event("bad offsets refused");
		return;
	}
	uint64_t want = fromLe(b, at, n);
	T w;
	memcpy(&w, &want, sizeof(T) < 8 ? sizeof(T) : 8);
	CHECK(e == NOEX && (memcmp(&w, &got, sizeof(T)) == 0 || (!exactNaN && got != got && w != w)), "wrong value decoded", "%s at %d: %s", what, at, exName(e));
	c.event("values decoded");
}

SECTION(decode, 4, 8) {
	uint64_t n = c.n(16000, 800000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		bool big = r.chance(1, 40);
		int len = big ? bigSize(r) : (int)r.range(0, 20);
		Array* a = new Array(ByteType, len);
		std::vector<Byte> b;
		for (int i = 0; i < len; i++) {
			Byte v = r.chance(1, 3) ? (Byte)(r.chance(1, 2) ? 0 : 255) : (Byte)r.next();
			b.push_back(v);
			*(Byte*)a->Address(i) = v;
		}
		int at = r.chance(1, 6) ? interesting32(r) : (int)r.range(-2, len + 2);
		if (r.chance(1, 6)) {
			// the bytes of a NaN there, quiet or signalling
			int w = r.chance(1, 2) ? 4 : 8;
			if (at >= 0 && at <= len - w) {
				uint64_t q = w == 4 ? 0x7F800000u | (r.next() & 0x807FFFFFu) | (r.chance(1, 2) ? 1 : 0x400000) : 0x7FF0000000000000ull | (r.next() & 0x800FFFFFFFFFFFFFull) | 1;
				if (w == 4 && r.chance(1, 2)) q &= ~0x400000ull, q |= 1;
				if (w == 8 && r.chance(1, 2)) q &= ~0x8000000000000ull;
				for (int i = 0; i < w; i++) *(Byte*)a->Address(at + i) = b[at + i] = (Byte)(q >> (8 * i));
				c.event("NaNs decoded");
			}
		}
		c.begin(len > 0, "decode at %d of %d bytes #%llu", at, len, (unsigned long long)(r.s & 0xffffff));
		decode<Int16>(c, "Int16", b, a, at, [](Array* x, int i) { return BitConverter::ToInt16(x, i); }, 2);
		decode<UInt16>(c, "UInt16", b, a, at, [](Array* x, int i) { return BitConverter::ToUInt16(x, i); }, 2);
		decode<Char>(c, "Char", b, a, at, [](Array* x, int i) { return BitConverter::ToChar(x, i); }, 2);
		decode<Int32>(c, "Int32", b, a, at, [](Array* x, int i) { return BitConverter::ToInt32(x, i); }, 4);
		decode<UInt32>(c, "UInt32", b, a, at, [](Array* x, int i) { return BitConverter::ToUInt32(x, i); }, 4);
		decode<Int64>(c, "Int64", b, a, at, [](Array* x, int i) { return BitConverter::ToInt64(x, i); }, 8);
		decode<UInt64>(c, "UInt64", b, a, at, [](Array* x, int i) { return BitConverter::ToUInt64(x, i); }, 8);
		decode<Single>(c, "Single", b, a, at, [](Array* x, int i) { return BitConverter::ToSingle(x, i); }, 4);
		decode<Double>(c, "Double", b, a, at, [](Array* x, int i) { return BitConverter::ToDouble(x, i); }, 8);
		bool got = false;
		Ex e = run([&] { got = BitConverter::ToBoolean(a, at); });
		if (at >= 0 && at < len) CHECK(e == NOEX && got == (b[at] != 0), "wrong value decoded", "Boolean at %d", at);
		else CHECK(isErr(e), "value read from outside the array", "Boolean at %d of %d", at, len);
		for (int o = 0; big && o < 60; o++) {
			int i = r.chance(1, 3) ? len - (int)r.range(-2, 12) : r.chance(1, 2) ? bigSize(r, len + 1) : (int)r.range(0, len);
			decode<Int16>(c, "Int16", b, a, i, [](Array* x, int i) { return BitConverter::ToInt16(x, i); }, 2);
			decode<UInt16>(c, "UInt16", b, a, i, [](Array* x, int i) { return BitConverter::ToUInt16(x, i); }, 2);
			decode<Char>(c, "Char", b, a, i, [](Array* x, int i) { return BitConverter::ToChar(x, i); }, 2);
			decode<Int32>(c, "Int32", b, a, i, [](Array* x, int i) { return BitConverter::ToInt32(x, i); }, 4);
			decode<UInt32>(c, "UInt32", b, a, i, [](Array* x, int i) { return BitConverter::ToUInt32(x, i); }, 4);
			decode<Int64>(c, "Int64", b, a, i, [](Array* x, int i) { return BitConverter::ToInt64(x, i); }, 8);
			decode<UInt64>(c, "UInt64", b, a, i, [](Array* x, int i) { return BitConverter::ToUInt64(x, i); }, 8);
			decode<Single>(c, "Single", b, a, i, [](Array* x, int i) { return BitConverter::ToSingle(x, i); }, 4);
			decode<Double>(c, "Double", b, a, i, [](Array* x, int i) { return BitConverter::ToDouble(x, i); }, 8);
			bool flag = false;
			Ex eb = run([&] { flag = BitConverter::ToBoolean(a, i); });
			if (i >= 0 && i < len) CHECK(eb == NOEX && flag == (b[i] != 0), "wrong value decoded", "Boolean at %d", i);
			else CHECK(isErr(eb), "value read from outside the array", "Boolean at %d of %d", i, len);
		}
		CHECK(content(a) == b, "decoding changed the array", "at %d", at);
		Array* no = nullptr;
		Ex x[] = {run([&] { BitConverter::ToBoolean(no, at); }), run([&] { BitConverter::ToChar(no, at); }), run([&] { BitConverter::ToInt16(no, at); }), run([&] { BitConverter::ToUInt16(no, at); }), run([&] { BitConverter::ToInt32(no, at); }),
			run([&] { BitConverter::ToUInt32(no, at); }), run([&] { BitConverter::ToInt64(no, at); }), run([&] { BitConverter::ToUInt64(no, at); }), run([&] { BitConverter::ToSingle(no, at); }), run([&] { BitConverter::ToDouble(no, at); }),
			run([&] { BitConverter::ToString(no, at); }), run([&] { BitConverter::ToString(no, at, 1); })};
		for (size_t q = 0; q < sizeof x / sizeof *x; q++) CHECK(isErr(x[q]), "null array accepted", "form %d at %d: %s", (int)q, at, exName(x[q]));
		delete a;
	}
	Array* none = nullptr;
	c.begin(true, "decode from null");
	CHECK(isErr(run([&] { BitConverter::ToBoolean(none, 0); })) && isErr(run([&] { BitConverter::ToChar(none, 0); })) && isErr(run([&] { BitConverter::ToInt16(none, 0); })) &&
		isErr(run([&] { BitConverter::ToUInt16(none, 0); })) && isErr(run([&] { BitConverter::ToInt32(none, 0); })) && isErr(run([&] { BitConverter::ToUInt32(none, 0); })) &&
		isErr(run([&] { BitConverter::ToInt64(none, 0); })) && isErr(run([&] { BitConverter::ToUInt64(none, 0); })) && isErr(run([&] { BitConverter::ToSingle(none, 0); })) &&
		isErr(run([&] { BitConverter::ToDouble(none, 0); })) && isErr(run([&] { BitConverter::ToString(none); })), "null array accepted", "decode");
}

SECTION(hex, 4, 8) {
	static const wchar_t* digits = L"0123456789ABCDEF";
	uint64_t n = c.n(12000, 300000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		int len = r.chance(1, 60) ? bigSize(r) : r.chance(1, 10) ? (int)r.range(0, 400) : midSize(r, 12);
		Array* a = new Array(ByteType, len);
		W all;
		std::vector<Byte> b;
		for (int i = 0; i < len; i++) { Byte v = (Byte)(h < 256 && i == 0 ? h : r.next()); *(Byte*)a->Address(i) = v; b.push_back(v); }
		int form = (int)r.below(3);
		int s = form == 0 ? 0 : r.chance(1, 5) ? interesting32(r) : (int)r.range(-1, len + 1);
		int k = form == 2 ? (r.chance(1, 5) ? interesting32(r) : (int)r.range(-1, len + 1)) : len - std::max(0, std::min(s, len));
		if (form == 2 && r.chance(2, 3)) { s = inside(r, len); k = inside(r, len - s); }
		if (form == 2 && k == -1) k = 0;
		c.begin(len > 0, "ToString(%d bytes, %d, %d) form %d first %d", len, s, k, form, len ? b[0] : -1);
		String* got = nullptr;
		Ex e = run([&] { got = form == 0 ? BitConverter::ToString(a) : form == 1 ? BitConverter::ToString(a, s) : BitConverter::ToString(a, s, k); });
		bool ok = s >= 0 && k >= 0 && (int64_t)s + k <= len;
		bool edge = (ok && s == len && len > 0) || (len == 0 && s == 0);  // nothing to read: an error or an empty text
		if (edge) {
			CHECK(isErr(e) || (e == NOEX && str(got) == L""), "hex text of an empty range", "%s", exName(e));
		} else if (ok) {
			W want;
			for (int i = s; i < s + k; i++) {
				if (i > s) want += L'-';
				want += digits[b[i] >> 4];
				want += digits[b[i] & 15];
			}
			CHECK(e == NOEX && str(got) == want, "wrong hex text", "got \"%s\" (%s)", got ? Q(str(got)) : "", exName(e));
			c.event("hex texts");
		} else {
			CHECK(isErr(e), "hex text of a range outside the array", "%s", exName(e));
			c.event("bad ranges refused");
		}
		CHECK(content(a) == b, "hex text changed the array", "%d bytes", len);
		delete a;
	}
}

// bytes anywhere in an array of up to 2^31-1 of them
SECTION(giant, 4, 8) {
	static const wchar_t* digits = L"0123456789ABCDEF";
	uint64_t n = c.n(1600, 60000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		int len = r.chance(1, 2) ? INT_MAX - (int)r.range(0, 9) : (int)r.range(1000, INT_MAX);
		Giant g;
		if (!g.make(ByteType, 1, len)) { c.event("address space refused"); continue; }
		for (int o = 0; o < 12; o++) {
			int64_t at = giantIndex(r, len), lo = std::max<int64_t>(0, at - 4), hi = std::min<int64_t>(len, at + 40);
			for (int64_t q = lo; q < hi; q++) g.mem[q] = (char)r.next();
			std::vector<Byte> b(g.mem + lo, g.mem + hi);
			c.begin(true, "decode at %lld of %d bytes #%llu", (long long)at, len, (unsigned long long)(r.s & 0xffffff));
			auto one = [&](const char* what, int k, std::function<uint64_t(Array*, int)> f) {
				uint64_t got = 0;
				Ex e = run([&] { got = f(g.a, (int)at); });
				if (at + k > len) { CHECK(isErr(e), "value read from outside the array", "%s at %lld of %d bytes: %s", what, (long long)at, len, exName(e)); return; }
				CHECK(e == NOEX && got == fromLe(b, (int)(at - lo), k), "wrong value decoded", "%s at %lld: %s", what, (long long)at, exName(e));
				c.event("values decoded");
			};
			one("Int16", 2, [](Array* x, int i) { return (uint64_t)(uint16_t)BitConverter::ToInt16(x, i); });
			one("UInt16", 2, [](Array* x, int i) { return (uint64_t)BitConverter::ToUInt16(x, i); });
			one("Char", 2, [](Array* x, int i) { return (uint64_t)BitConverter::ToChar(x, i); });
			one("Int32", 4, [](Array* x, int i) { return (uint64_t)(uint32_t)BitConverter::ToInt32(x, i); });
			one("UInt32", 4, [](Array* x, int i) { return (uint64_t)BitConverter::ToUInt32(x, i); });
			one("Int64", 8, [](Array* x, int i) { return (uint64_t)BitConverter::ToInt64(x, i); });
			one("UInt64", 8, [](Array* x, int i) { return (uint64_t)BitConverter::ToUInt64(x, i); });
			one("Boolean", 1, [&](Array* x, int i) { return (uint64_t)(BitConverter::ToBoolean(x, i) == (b[i - lo] != 0) ? b[i - lo] : b[i - lo] + 1); });
			int64_t k = r.range(1, hi - at);
			W want;
			for (int64_t i = at; i < at + k; i++) {
				if (i > at) want += L'-';
				want += digits[b[i - lo] >> 4];
				want += digits[b[i - lo] & 15];
			}
			String* t = nullptr;
			Ex e = run([&] { t = at + k == len && r.chance(1, 2) ? BitConverter::ToString(g.a, (Int32)at) : BitConverter::ToString(g.a, (Int32)at, (Int32)k); });
			CHECK(e == NOEX && t && str(t) == want, "wrong hex text", "%lld bytes at %lld (%s)", (long long)k, (long long)at, exName(e));
			int64_t past = std::min<int64_t>(INT_MAX, len - at + r.range(1, 9));
			if (past > len - at) { Ex e2 = run([&] { BitConverter::ToString(g.a, (Int32)at, (Int32)past); }); CHECK(isErr(e2), "hex text of a range outside the array", "%lld + %lld of %d: %s", (long long)at, (long long)past, len, exName(e2)); }
			// three characters a byte: a text longer than Int32 cannot exist
			int64_t many = r.chance(1, 3) ? 715827883 : r.range(715827883, INT_MAX);
			if (at + many <= len) {
				Ex e3 = run([&] { BitConverter::ToString(g.a, (Int32)at, (Int32)many); });
				CHECK(isErr(e3), "hex text longer than a text can be", "%lld bytes: %s", (long long)many, exName(e3));
				c.event("texts too long refused");
			}
		}
	}
}

// any operations in any order over a few arrays
SECTION(sequences, 4, 8) {
	arrays::histories(c, arrays::BITS, c.n(6000, 200000));
}
