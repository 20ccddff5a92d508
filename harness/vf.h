// Shared harness support: case tracking, deterministic randomness, exception capture and reporting.
// Only the library's public headers are used; nothing here depends on private members or globals.
#pragma once
#include <DotnetTypes.h>
#include <cmath>
#include <cfloat>
#include <climits>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cwchar>
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sanitizer/asan_interface.h>
#include <new>
#include <unistd.h>

using namespace DotnetLibrary;
using std::ptrdiff_t;
typedef __int128 i128;
typedef unsigned __int128 u128;
typedef std::wstring W;

namespace vf {

// ---------------------------------------------------------------- shared progress page
struct Page {
	volatile uint64_t progress;
	char desc[8000];
};
extern Page* page;

struct Rng;
struct Recent {  // the last few values handed out
	uint64_t v[6];
	unsigned n = 0;
	bool any() const { return n > 0; }
	uint64_t pick(Rng& r) const;
	uint64_t note(uint64_t x) { return v[n++ % 6] = x; }
};
struct Rng {
	uint64_t s;
	Recent ints, words, doubles, singles, times;
	explicit Rng(uint64_t seed) : s(seed) {}
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int64_t range(int64_t lo, int64_t hi) {  // inclusive
		uint64_t span = (uint64_t)hi - (uint64_t)lo + 1;
		return span == 0 ? (int64_t)next() : (int64_t)((uint64_t)lo + next() % span);
	}
	bool chance(int num, int den) { return (int)below(den) < num; }
	template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

inline uint64_t Recent::pick(Rng& r) const { return v[r.below(n < 6 ? n : 6)]; }

inline uint64_t mix(uint64_t h, uint64_t v) {
	h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
	h *= 0xFF51AFD7ED558CCDULL;
	return h ^ (h >> 32);
}
inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
	const unsigned char* b = (const unsigned char*)p;
	for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ULL;
	return h;
}

struct Ctx {
	const char* section;
	bool thorough;
	int shard, shards;
	Rng rng;
	uint64_t evals = 0, distinctBulk = 0, fails = 0;
	std::unordered_set<uint64_t> seen;
	std::map<std::string, uint64_t> events;
	std::map<std::string, int> failCount;
	std::vector<std::string> samples;
	uint64_t nextSample = 1;
	FILE* out;

	Ctx(const char* sec, bool th, int sh, int shs, uint64_t seed, FILE* o)
		: section(sec), thorough(th), shard(sh), shards(shs), rng(seed), out(o) {}

	// quick / thorough amount, already divided over the shards
	uint64_t n(uint64_t quick, uint64_t thor) const {
		static const uint64_t scale = getenv("VF_SCALE") ? (uint64_t)atoi(getenv("VF_SCALE")) : 1;
		uint64_t t = thorough ? std::max(thor, quick * scale) : quick * scale;
		return t / shards + (((uint64_t)shard < t % shards) ? 1 : 0);
	}
	bool mine(uint64_t i) const { return (int)(i % shards) == shard; }

	// Start a case described by text; the text is the replayable input.
	void begin(bool nontrivial, const char* fmt, ...) __attribute__((format(printf, 3, 4))) {
		va_list ap;
		va_start(ap, fmt);
		int len = vsnprintf(page->desc, sizeof page->desc, fmt, ap);
		va_end(ap);
		if (len < 0) len = 0;
		if (len >= (int)sizeof page->desc) len = sizeof page->desc - 1;
		page->progress++;
		evals++;
		if (nontrivial && seen.size() < 3000000)
			seen.insert(hashBytes(page->desc, len));
		if (evals == nextSample) {
			if (samples.size() < 8) samples.push_back(std::string(page->desc, std::min(len, 400)));
			nextSample = nextSample * 7 + 3;
		}
	}
	// Cheap case start for enumerations: cases are distinct by construction.
	void bulk(const char* what, int64_t a, int64_t b = 0, int64_t c = 0) {
		struct Raw { const char* w; int64_t a, b, c; } r = {what, a, b, c};
		page->desc[0] = 1;  // marker: raw
		memcpy(page->desc + 8, &r, sizeof r);
		strncpy(page->desc + 8 + sizeof r, what, 200);
		page->progress++;
		evals++;
		distinctBulk++;
		if (evals == nextSample) {
			if (samples.size() < 8) samples.push_back(rawText());
			nextSample = nextSample * 7 + 3;
		}
	}
	std::string rawText() const {
		int64_t v[3];
		memcpy(v, page->desc + 16, sizeof v);
		char b[400];
		snprintf(b, sizeof b, "%s(%lld, %lld, %lld)", page->desc + 8 + 32, (long long)v[0], (long long)v[1], (long long)v[2]);
		return b;
	}
	std::string descText() const { return page->desc[0] == 1 ? rawText() : std::string(page->desc); }
	void event(const char* name, uint64_t k = 1) { events[name] += k; }

	// Record a violation; key names the broken guarantee, detail the observation.
	void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4))) {
		fails++;
		int& k = failCount[key];
		if (k++ >= 5) return;
		char d[2000];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(d, sizeof d, fmt, ap);
		va_end(ap);
		fprintf(out, "V\t%s\t%s\t%s\n", clean(key).c_str(), clean(descText()).c_str(), clean(d).c_str());
		fflush(out);
	}
	static std::string clean(const std::string& s) {
		std::string r;
		for (unsigned char ch : s) {
			if (ch == '\t' || ch == '\n' || ch == '\r') r += ' ';
			else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); r += b; }
			else r += (char)ch;
		}
		return r;
	}
};

struct Section {
	const char* name;
	int quickShards, thoroughShards;
	void (*fn)(Ctx&);
};
std::vector<Section>& sections();
struct Reg {
	Reg(const char* n, int q, int t, void (*f)(Ctx&)) { sections().push_back(Section{n, q, t, f}); }
};
#define SECTION(name, q, t)                                   \
	static void sec_##name(vf::Ctx& c);                        \
	static vf::Reg reg_##name(#name, q, t, sec_##name);        \
	static void sec_##name(vf::Ctx& c)

#define CHECK(cond, key, ...)                                 \
	do {                                                       \
		if (!(cond)) c.fail(key, __VA_ARGS__);                 \
	} while (0)

// ---------------------------------------------------------------- exceptions
enum Ex { NOEX, IOOR, ANULL, RANK, AOOR, ARG, NOTIMPL, CAST, INVOP, FORMAT, OVERFLOWEX, MINMAX, ARITH, DIV0, PLAINEX, FOREIGN };
inline const char* exName(Ex e) {
	static const char* n[] = {"no exception", "IndexOutOfRange", "ArgumentNull", "Rank", "ArgumentOutOfRange", "Argument", "NotImplemented",
		"InvalidCast", "InvalidOperation", "Format", "Overflow", "MinMax", "Arithmetic", "DivideByZero", "Exception(other)", "foreign exception"};
	return n[e];
}
inline std::vector<Exception*>*& raisedLog() { static thread_local std::vector<Exception*>* l = nullptr; return l; }  // where wanted, everything raised is kept here
inline Ex classify(Exception* e) {
	if (e == nullptr) return FOREIGN;
	if (raisedLog()) raisedLog()->push_back(e);
	if (dynamic_cast<IndexOutOfRangeException*>(e)) return IOOR;
	if (dynamic_cast<ArgumentNullException*>(e)) return ANULL;
	if (dynamic_cast<RankException*>(e)) return RANK;
	if (dynamic_cast<ArgumentOutOfRangeException*>(e)) return AOOR;
	if (dynamic_cast<ArgumentException*>(e)) return ARG;
	if (dynamic_cast<NotImplementedException*>(e)) return NOTIMPL;
	if (dynamic_cast<InvalidCastException*>(e)) return CAST;
	if (dynamic_cast<InvalidOperationException*>(e)) return INVOP;
	if (dynamic_cast<FormatException*>(e)) return FORMAT;
	if (dynamic_cast<OverflowException*>(e)) return OVERFLOWEX;
	if (dynamic_cast<ThrowMinMaxException*>(e)) return MINMAX;
	if (dynamic_cast<DivideByZeroException*>(e)) return DIV0;
	if (dynamic_cast<ArithmeticException*>(e)) return ARITH;
	return PLAINEX;
}
template <class F> Ex run(F f) {
	try {
		f();
		return NOEX;
	} catch (Exception* e) {
		return classify(e);
	} catch (...) {
		return FOREIGN;
	}
}
// any of the library's own exceptions
inline bool isErr(Ex e) { return e != NOEX && e != FOREIGN; }

// ---------------------------------------------------------------- text helpers
inline W str(String* s) {
	W r;
	if (s == nullptr) return L"<null>";
	Int32 n = s->get_Length();
	for (Int32 i = 0; i < n; i++) r += s->get_Chars(i);
	return r;
}
// A string with the given text. Most have their own copy of the characters; some wrap characters of the caller (the one-argument constructor),
// which lie in a block of exactly their size that stays.
inline bool& wrapSome() { static thread_local bool on = true; return on; }
inline String* mk(const W& w) {
	static thread_local unsigned made = 0;
	static thread_local size_t bytes = 0;
	if (wrapSome() && ++made % 4 == 0 && w.size() <= 600 && bytes < 200000000 && w.find(L'\0') == W::npos) {
		size_t k = (w.size() + 1) * sizeof(wchar_t);
		wchar_t* mem = (wchar_t*)malloc(k);
		memcpy(mem, w.c_str(), k);
		bytes += k + 64;
		return new String((const Char*)mem);
	}
	return new String(w.c_str(), 0, (Int32)w.size());
}
// A string at one of a few fixed places, both the object and its characters: other texts lay there before and will later.
// Whatever is remembered by address meets another text. Behind the text the place is out of bounds.
struct Places {
	enum { COUNT = 6, ROOM = 4096 };
	alignas(16) char object[COUNT][(sizeof(String) + 15) / 16 * 16];
	wchar_t* mem[COUNT] = {};
};
inline Places& places() { static thread_local Places p; return p; }
inline bool placed(const String* s) { uintptr_t at = (uintptr_t)s, base = (uintptr_t)places().object; return at >= base && at < base + sizeof places().object; }
inline String* mkAt(Rng& r, int place, const W& w, unsigned in = 2) {
	if (!r.chance(1, in) || w.size() + 1 > Places::ROOM || w.find(L'\0') != W::npos) return mk(w);
	Places& p = places();
	const size_t all = Places::ROOM * sizeof(wchar_t), used = (w.size() + 1) * sizeof(wchar_t);
	if (!p.mem[place]) p.mem[place] = (wchar_t*)malloc(all);
	ASAN_UNPOISON_MEMORY_REGION(p.mem[place], all);
	memcpy(p.mem[place], w.c_str(), used);
	ASAN_POISON_MEMORY_REGION((char*)p.mem[place] + used, all - used);
	return new (p.object[place]) String((const Char*)p.mem[place]);
}
inline void drop(String* s) { if (!placed(s)) delete s; }
// the same text but for one character: another one, one fewer, one more, two swapped
inline W altered(Rng& r, const W& w) {
	W t = w;
	size_t at = t.empty() ? 0 : r.chance(1, 3) ? r.below(std::min<size_t>(3, t.size())) : r.below(t.size());
	switch (r.below(t.empty() ? 1 : 5)) {
	case 0: t.insert(at, 1, t.empty() ? L'a' : t[r.below(t.size())]); break;
	case 1: t.erase(at, 1); break;
	case 2: std::swap(t[at], t[r.below(t.size())]); break;
	case 3: t[at] = t[r.below(t.size())]; break;
	default: t[at] = (wchar_t)(t[at] == 1 ? 2 : r.chance(1, 2) ? t[at] - 1 : t[at] ^ 0x20 ? t[at] ^ 0x20 : L'a');
	}
	return t;
}
inline std::string u8(const W& w) {
	std::string r;
	for (wchar_t ch : w) {
		if (ch >= 32 && ch < 127 && ch != '\\' && ch != '"') r += (char)ch;
		else { char b[16]; snprintf(b, sizeof b, "\\u%x", (unsigned)ch); r += b; }
		if (r.size() > 1500) { r += "..."; break; }
	}
	return r;
}
#define Q(w) vf::u8(w).c_str()

inline uint64_t bitsOf(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
inline uint32_t bitsOf(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }
inline double dblOf(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
inline float fltOf(uint32_t u) { float d; memcpy(&d, &u, 4); return d; }
inline bool sameD(double a, double b) { return (a != a && b != b) || bitsOf(a) == bitsOf(b); }
inline bool sameF(float a, float b) { return (a != a && b != b) || bitsOf(a) == bitsOf(b); }

inline std::string dec(i128 v) {
	bool neg = v < 0;
	u128 u = neg ? (u128)0 - (u128)v : (u128)v;
	std::string r;
	do { r.insert(r.begin(), (char)('0' + (int)(u % 10))); u /= 10; } while (u);
	if (neg) r.insert(r.begin(), '-');
	return r;
}
inline W wide(const std::string& s) { return W(s.begin(), s.end()); }

// lengths concentrated around internal buffer sizes as well as small ones
inline int oddLength(Rng& r) {
	static const int k[] = {0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 126, 127, 128, 129, 130, 255, 256, 257, 300, 511, 512, 513, 1000};
	return r.chance(1, 2) ? (int)r.range(0, 12) : r.chance(1, 3) ? (int)r.range(0, 140) : k[r.below(sizeof k / sizeof *k)];
}
// mostly up to the usual size, sometimes beyond
inline int midSize(Rng& r, int usual) { return r.chance(3, 4) ? (int)r.range(0, usual) : r.chance(1, 2) ? (int)r.range(usual, 70) : oddLength(r); }

// A value that agrees with an earlier one in some narrower view of it: the same residue, the same low or high bits, the same bits in another order.
// Whatever remembers earlier work by less than its whole input confuses the two.
inline uint64_t relative64(Rng& r, uint64_t x, int bits) {
	static const uint64_t M[] = {3, 5, 7, 10, 12, 24, 30, 31, 60, 64, 97, 100, 101, 127, 128, 251, 255, 256, 257, 365, 366, 400, 509, 512, 1000, 1009, 1021, 1024, 1031, 1461, 3600, 4096, 4099, 8191, 10000, 36524, 65521, 65535,
		65536, 65537, 86400, 146097, 1000003, 4294967291ULL, 4294967295ULL};
	uint64_t j = r.chance(1, 2) ? 1 : r.range(1, 100);
	switch (r.below(7)) {
	case 0: case 1: { uint64_t d = j << r.below(bits); return r.chance(1, 2) ? x + d : x - d; }
	case 2: case 3: { uint64_t d = j * M[r.below(sizeof M / sizeof *M)]; return r.chance(1, 2) ? x + d : x - d; }
	case 4: return 0 - x;
	case 5: return x ^ (r.next() << r.below(bits));
	default: { int h = bits / 2; return r.chance(1, 2) ? (x >> h) | (x << h) : x; }
	}
}
// boundary-heavy integers
inline int64_t fresh64(Rng& r) {
	switch (r.below(9)) {
	case 7: {  // at any distance, on a logarithmic scale, from a limit, a power of two or a power of ten
		uint64_t p = 0;
		switch (r.below(4)) { case 0: p = INT64_MAX; break; case 1: p = (uint64_t)INT64_MIN; break; case 2: p = 1ULL << r.below(64); break; default: p = 1; for (int k = (int)r.below(20); k > 0; k--) p *= 10; }
		uint64_t d = r.next() >> r.range(1, 63);
		if (r.chance(1, 3)) p = 0 - p;
		return (int64_t)(r.chance(1, 2) ? p + d : p - d);
	}
	case 0: return r.range(-3, 3);
	case 1: { int s = (int)r.below(64); return (int64_t)((1ULL << s) + (uint64_t)r.range(-2, 2)); }
	case 2: { int s = (int)r.below(64); return (int64_t)(0 - (1ULL << s) + (uint64_t)r.range(-2, 2)); }
	case 3: return (int64_t)(r.next() >> r.below(64));
	case 4: return (int64_t)(0 - (r.next() >> r.below(64)));
	case 5: return r.range(-200, 200);
	case 6: { uint64_t p = 1; int k = (int)r.below(20); while (k--) p *= 10; return (int64_t)(p + (uint64_t)r.range(-2, 2)); }
	default: return (int64_t)r.next();
	}
}
// Round numbers: small multiples of powers of two and ten, repeated digits, one or two digits among zeros, with their neighbours and negatives.
inline const std::vector<int64_t>& roundValues() {
	static std::vector<int64_t>* all = nullptr;
	if (all) return *all;
	std::set<uint64_t> k;
	auto put = [&](u128 v) { if (v < ((u128)1 << 64) + 2) for (int d = -1; d <= 1; d++) { uint64_t u = (uint64_t)v + (uint64_t)d; k.insert(u); k.insert(0 - u); } };
	for (int i = 0; i < 65; i++)
		for (int j = 1; j < 32; j += 2) put((u128)j << i);
	u128 p = 1, rep = 0;
	for (int i = 0; i < 20; i++, p *= 10) {
		rep = rep * 10 + 1;
		u128 q = 1;
		for (int j = 1; j < 10; j++) { put(p * j); put(rep * j); }
		for (int h = 0; h < i; h++, q *= 10) { put(p + q); put(p * 9 + q * 9); put(p - q); put(p * 5 + q); put(p + 5 * q); }
	}
	all = new std::vector<int64_t>;
	for (uint64_t v : k) all->push_back((int64_t)v);
	return *all;
}
inline int64_t interesting64(Rng& r) {
	Recent& last = r.ints;
	return (int64_t)last.note(last.any() && r.chance(1, 10) ? relative64(r, last.pick(r), 64) : (uint64_t)fresh64(r));
}
inline int32_t fresh32(Rng& r) {
	switch (r.below(5)) {
	case 3: {
		uint32_t p = r.chance(1, 2) ? (uint32_t)INT_MAX : 1u << r.below(32), d = (uint32_t)r.next() >> r.range(1, 31);
		return (int32_t)(r.chance(1, 2) ? p + d : p - d);
	}
	case 0: return (int32_t)r.range(-3, 3);
	case 1: { int s = (int)r.below(32); return (int32_t)((1u << s) + (uint32_t)r.range(-2, 2)); }
	case 2: { int s = (int)r.below(32); return (int32_t)(0u - (1u << s) + (uint32_t)r.range(-2, 2)); }
	default: return (int32_t)r.next();
	}
}
inline int32_t interesting32(Rng& r) {
	Recent& last = r.words;
	return (int32_t)last.note(last.any() && r.chance(1, 10) ? relative64(r, last.pick(r), 32) : (uint64_t)fresh32(r));
}
inline double freshD(Rng& r) {
	static const double k[] = {0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 0.49999999999999994, 1e-300, 1e300, 5e-324, -5e-324,
		DBL_MAX, -DBL_MAX, DBL_MIN, -DBL_MIN, INFINITY, -INFINITY, NAN, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 4294967295.0,
		9007199254740992.0, 9007199254740993.0, 4503599627370495.5, 9223372036854775808.0, -9223372036854775808.0, 3.14159265358979, 100.0, 1e15, 1e16};
	switch (r.below(6)) {
	case 0: return k[r.below(sizeof k / sizeof *k)];
	case 1: return dblOf(r.next());
	case 2: return (double)r.range(-1000, 1000) / 4.0;
	case 3: return (double)interesting64(r);
	case 4: { double d = k[r.below(sizeof k / sizeof *k)]; uint64_t u = bitsOf(d); return dblOf(u + (uint64_t)r.range(-2, 2)); }
	default: return (double)r.range(-1000000000, 1000000000) / (double)r.range(1, 1000000);
	}
}
inline double interestingD(Rng& r) {
	Recent& last = r.doubles;
	if (last.any() && r.chance(1, 10)) {
		double x = dblOf(last.pick(r));
		switch (r.below(6)) {
		case 0: x = -x; break;
		case 1: x = (double)(float)x; break;                        // the same in single precision
		case 2: x = std::fabs(x) < 1e300 ? std::trunc(x) + 0.5 : x; break;  // the same whole part
		case 3: x = x * 2; break;
		default: x = dblOf(relative64(r, bitsOf(x), 64));
		}
		return dblOf(last.note(bitsOf(x)));
	}
	return dblOf(last.note(bitsOf(freshD(r))));
}
inline float freshF(Rng& r) {
	static const float k[] = {0.0f, -0.0f, 1.0f, -1.0f, 0.5f, -0.5f, 1.5f, -1.5f, 2.5f, -2.5f, 1e-30f, 1e30f, 1e-45f, -1e-45f, FLT_MAX, -FLT_MAX, FLT_MIN,
		-FLT_MIN, INFINITY, -INFINITY, NAN, 2147483648.0f, -2147483648.0f, 16777216.0f, 16777217.0f, 8388607.5f, 9223372036854775808.0f, 3.14159f, 100.0f};
	switch (r.below(5)) {
	case 0: return k[r.below(sizeof k / sizeof *k)];
	case 1: return fltOf((uint32_t)r.next());
	case 2: return (float)r.range(-1000, 1000) / 4.0f;
	case 3: { float d = k[r.below(sizeof k / sizeof *k)]; return fltOf(bitsOf(d) + (uint32_t)r.range(-2, 2)); }
	default: return (float)r.range(-1000000, 1000000) / (float)r.range(1, 10000);
	}
}
inline float interestingF(Rng& r) {
	Recent& last = r.singles;
	if (last.any() && r.chance(1, 10)) {
		float x = fltOf((uint32_t)last.pick(r));
		switch (r.below(5)) {
		case 0: x = -x; break;
		case 1: x = std::fabs(x) < 1e30f ? std::trunc(x) + 0.5f : x; break;
		case 2: x = x * 2; break;
		default: x = fltOf((uint32_t)relative64(r, bitsOf(x), 32));
		}
		return fltOf((uint32_t)last.note(bitsOf(x)));
	}
	return fltOf((uint32_t)last.note(bitsOf(freshF(r))));
}
// an index or amount from [0,len]: often at or beside a multiple of a power of two, or at the end
inline int inside(Rng& r, int len) {
	if (len <= 0) return 0;
	if (len >= 8 && r.chance(1, 5)) {
		int step = 8 << r.below(6);
		if (len >= step) return std::min(len, step * (int)r.range(1, len / step) + (r.chance(1, 2) ? 0 : (int)r.range(-1, 1)));
	}
	if (r.chance(1, 12)) return len - (int)r.range(0, 1);
	return (int)r.range(0, len);
}
// element and character counts around the sizes at which narrow counters, internal buffers and block moves change behaviour
inline int bigSize(Rng& r, int max = 70000) {
	static const int k[] = {25, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300, 383, 384, 511, 512, 513, 640, 767, 768, 999, 1000, 1023, 1024, 1025, 1500,
		2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16383, 16384, 16385, 20000, 32766, 32767, 32768, 32769, 40000, 65534, 65535, 65536, 65537, 70000};
	if (max < k[0]) return (int)r.range(0, max < 0 ? 0 : max);
	int n = sizeof k / sizeof *k;
	while (k[n - 1] > max) n--;
	if (r.chance(1, 3)) return (int)r.range(0, max);
	// small ones more often than huge ones
	int i = (int)std::min(r.below(n), r.below(n));
	return std::min(max, k[i] + (r.chance(1, 4) ? (int)r.range(-3, 3) : 0));
}
}  // namespace vf
using namespace vf;
