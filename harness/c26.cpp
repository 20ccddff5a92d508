// C26: target memory pool. Histories of setup / allocate / delete run in forked children (the pool replaces operator new
// for the whole process); the monitor keeps its own log in static memory and reports through shared memory.
#include "vf.h"
#include <sys/wait.h>
#include <PlatformSupport.h>

static const size_t POOL = 32767;
struct Report { char key[80]; char text[400]; char doing[200]; uint64_t allocs, refused, cycles, bytes, deletes; int failed; };
static Report* rep;
static uint64_t rs;
static uint64_t rnd() { uint64_t z = (rs += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static uint64_t rb(uint64_t n) { return rnd() % n; }
struct Block { unsigned char* p; size_t n; unsigned char pat; };
static Block blocks[40000];
static int nb;
static void bad(const char* key, const char* fmt, ...) {
	if (rep->failed++) return;
	snprintf(rep->key, sizeof rep->key, "%s", key);
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(rep->text, sizeof rep->text, fmt, ap);
	va_end(ap);
}
static size_t pickSize(bool pool) {
	switch (rb(10)) {
	case 0: return rb(9);
	case 1: return rb(4096);
	case 2: return pool ? rb(40000) : rb(20000);
	case 3: return 8 * rb(40);
	case 4: return 8 * rb(40) + 7;
	case 5: return pool && rb(6) == 0 ? POOL - rb(20) : rb(64);
	default: return 1 + rb(200);
	}
}
static void verifyAll(const char* when) {
	for (int i = 0; i < nb; i++)
		for (size_t k = 0; k < blocks[i].n; k++)
			if (blocks[i].p[k] != blocks[i].pat) { bad("live memory changed", "%s: block %d of %zu bytes, byte %zu", when, i, blocks[i].n, k); return; }
}
// checks one allocation against every block handed out since the last setup
static void record(void* v, size_t n) {
	unsigned char* p = (unsigned char*)v;
	rep->allocs++;
	rep->bytes += n;
	if ((uintptr_t)p % alignof(max_align_t)) bad("misaligned", "%p for %zu bytes", v, n);
	for (size_t k = 0; k < n; k++)
		if (p[k]) { bad("memory not zero", "byte %zu of %zu", k, n); break; }
	for (int i = 0; i < nb; i++)
		if (n && blocks[i].n && p < blocks[i].p + blocks[i].n && blocks[i].p < p + n) { bad("blocks overlap", "%zu bytes overlap block %d of %zu bytes", n, i, blocks[i].n); return; }
	if (nb < 40000) {
		unsigned char pat = (unsigned char)(1 + rb(255));
		memset(p, pat, n);
		blocks[nb].p = p; blocks[nb].n = n; blocks[nb].pat = pat;
		nb++;
	}
}
static void child(int mode, int cycles, int ops) {
	unsigned char *lo = nullptr, *hi = nullptr;
	if (mode == 0) {  // before any setup: the heap
		for (int i = 0; i < ops; i++) {
			size_t n = pickSize(false);
			snprintf(rep->doing, sizeof rep->doing, "heap allocation %d of %zu bytes", i, n);
			void* p = rb(2) ? ::operator new(n) : ::operator new[](n);
			if (!p) { bad("allocation failed", "%zu bytes from the heap", n); return; }
			record(p, n);
			if (nb && rb(3) == 0) {
				int k = (int)rb(nb);
				for (size_t q = 0; q < blocks[k].n; q++) if (blocks[k].p[q] != blocks[k].pat) { bad("live memory changed", "before delete"); break; }
				if (rb(2)) ::operator delete(blocks[k].p); else ::operator delete[](blocks[k].p);
				rep->deletes++;
				blocks[k] = blocks[--nb];
			}
		}
		verifyAll("at the end");
		return;
	}
	for (int cy = 0; cy < cycles; cy++) {
		snprintf(rep->doing, sizeof rep->doing, "setup %d", cy);
		PlatformSetup();
		nb = 0;
		size_t usedMax = 0, usedMin = 0;  // with and without rounding to the alignment
		rep->cycles++;
		for (int i = 0; i < ops; i++) {
			size_t n = pickSize(true);
			if (rb(40) == 0) { static const size_t huge[] = {SIZE_MAX, SIZE_MAX - 7, (size_t)1 << 32, ((size_t)1 << 32) + 8, ((size_t)1 << 32) - 1, ((size_t)1 << 32) - 7, 0x80000000u, 32767, 32768, 32760, 32761}; n = huge[rb(11)]; }
			if (mode == 2 && rb(2)) n = rb(30);
			snprintf(rep->doing, sizeof rep->doing, "cycle %d allocation %d of %zu bytes with %zu in use", cy, i, n, usedMax);
			void* p = my_operator_new_replacement(n);
			if (p == nullptr) {
				rep->refused++;
				if (n <= POOL && usedMax + (n + 15) / 16 * 16 <= POOL) bad("allocation refused although it fits", "%zu bytes with %zu of %zu in use", n, usedMax, POOL);
				continue;
			}
			if (n > POOL || usedMin + n > POOL) { bad("more memory handed out than there is", "%zu bytes with %zu of %zu in use", n, usedMin, POOL); return; }
			usedMax += (n + 15) / 16 * 16;
			usedMin += n;
			record(p, n);
			unsigned char* b = (unsigned char*)p;
			if (!lo || b < lo) lo = b;
			if (b + n > hi) hi = b + n;
			if ((size_t)(hi - lo) > POOL) bad("outside the pool", "blocks span %zu bytes", (size_t)(hi - lo));
			if (rb(4) == 0 && nb) { my_operator_delete_replacement(blocks[rb(nb)].p); rep->deletes++; }
			if (rb(50) == 0) { my_operator_delete_replacement(nullptr); rep->deletes++; }
		}
		verifyAll("at the end of a cycle");
		if (mode == 3) {  // library objects live in the pool as well
			PlatformSetup();
			nb = 0;
			static String* kept[64];
			static Char text[64][24];
			int k = 0;
			for (; k < 40; k++) {
				int n = 1 + (int)rb(20);
				for (int q = 0; q < n; q++) text[k][q] = (Char)('a' + rb(26));
				text[k][n] = 0;
				kept[k] = new String(text[k], 0, n);
				if (rb(3) == 0) { String* t = new String(text[k], 0, n); delete t; }
				if (rb(3) == 0) { StringBuilder* sb = new StringBuilder(); sb->Append(text[k], n); Int32 len = sb->get_Length(); if (len != n) bad("builder in the pool", "%d", len); delete sb; }
				rep->allocs += 2;
			}
			for (int q = 0; q < k; q++)
				if (wcscmp(kept[q]->get_Buffer(), text[q])) bad("live object changed", "string %d", q);
		}
	}
}
// tens of thousands of setups, allocations, refusals and deletions: nothing may wear out
static void endurance(uint64_t setups, uint64_t zeros, uint64_t refusals, uint64_t deletes) {
	auto zero = [&](unsigned char* p, size_t n) { for (size_t k = 0; k < n; k++) if (p[k]) { bad("memory not zero", "byte %zu of %zu", k, n); return; } };
	for (uint64_t cy = 0; cy <= setups; cy++) {
		snprintf(rep->doing, sizeof rep->doing, "setup %llu", (unsigned long long)cy);
		PlatformSetup();
		rep->cycles++;
		size_t n1 = rb(8) ? 1 + rb(200) : 1 + rb(16000), n2 = 1 + rb(200);
		unsigned char *a = (unsigned char*)my_operator_new_replacement(n1), *b = (unsigned char*)my_operator_new_replacement(n2);
		rep->allocs += 2;
		if (!a || !b) { bad("allocation refused although it fits", "%zu and %zu bytes after setup %llu", n1, n2, (unsigned long long)cy); return; }
		if ((uintptr_t)a % alignof(max_align_t) || (uintptr_t)b % alignof(max_align_t)) bad("misaligned", "%p %p", (void*)a, (void*)b);
		zero(a, n1);
		zero(b, n2);
		memset(a, 0x11, n1);
		memset(b, 0x22, n2);
		for (size_t k = 0; k < n1; k++) if (a[k] != 0x11) { bad("blocks overlap", "%zu and %zu bytes", n1, n2); return; }
		rep->bytes += n1 + n2;
		if (rb(2)) { my_operator_delete_replacement(b); rep->deletes++; }
	}
	PlatformSetup();
	unsigned char* first = (unsigned char*)my_operator_new_replacement(100);
	if (!first) { bad("allocation refused although it fits", "the first after %llu setups", (unsigned long long)setups); return; }
	memset(first, 0x33, 100);
	for (uint64_t i = 0; i < zeros; i++) {  // requests of nothing use at most the pool's granularity, refused at worst
		snprintf(rep->doing, sizeof rep->doing, "empty allocation %llu", (unsigned long long)i);
		my_operator_new_replacement(0);
		rep->allocs++;
	}
	PlatformSetup();
	size_t used = 0;
	for (uint64_t i = 0; i < refusals; i++) {
		snprintf(rep->doing, sizeof rep->doing, "refusal %llu", (unsigned long long)i);
		size_t n = POOL + 1 + rb(100000);
		if (my_operator_new_replacement(n)) { bad("more memory handed out than there is", "%zu bytes", n); return; }
		rep->refused++;
		if (i % 1000 == 0 && used + 16 <= POOL) {
			unsigned char* p = (unsigned char*)my_operator_new_replacement(16);
			if (!p) { bad("allocation refused although it fits", "16 bytes after %llu refusals with %zu in use", (unsigned long long)i, used); return; }
			zero(p, 16);
			memset(p, 0x44, 16);
			used += 16;
			rep->allocs++;
		}
	}
	for (uint64_t i = 0; i < deletes; i++) {
		snprintf(rep->doing, sizeof rep->doing, "deletion %llu", (unsigned long long)i);
		my_operator_delete_replacement(rb(3) ? (void*)first : nullptr);
		rep->deletes++;
		if (i % 1000 == 0 && used + 16 <= POOL) {
			unsigned char* p = (unsigned char*)my_operator_new_replacement(16);
			if (!p) { bad("allocation refused although it fits", "16 bytes after %llu deletions with %zu in use", (unsigned long long)i, used); return; }
			zero(p, 16);
			memset(p, 0x55, 16);
			used += 16;
			rep->allocs++;
		}
	}
}
// more than 2^32 bytes and 2^17 setups: no total kept over setups may matter
static void volume() {
	uint64_t total = 0, want = (1ULL << 32) + (1ULL << 28), cy = 0;
	auto zero = [&](unsigned char* p, size_t n) { static const unsigned char none[POOL + 1] = {}; if (memcmp(p, none, n)) bad("memory not zero", "%zu bytes after %llu bytes in all", n, (unsigned long long)total); };
	unsigned char* base = nullptr;
	while (total < want && !rep->failed) {
		PlatformSetup();
		rep->cycles++;
		cy++;
		size_t left = POOL, n;
		unsigned char* end = nullptr;
		while (left > 64 && !rep->failed) {
			n = rb(3) ? left - 31 - rb(16) : 1 + rb(left - 31);
			if (rb(2) && n > 4000) n = 4000 + rb(n - 3999);
			snprintf(rep->doing, sizeof rep->doing, "setup %llu, %zu bytes with %zu left, %llu bytes handed out in all", (unsigned long long)cy, n, left, (unsigned long long)total);
			unsigned char* p = (unsigned char*)my_operator_new_replacement(n);
			rep->allocs++;
			if (!p) { if (n + 16 <= left) bad("allocation refused although it fits", "%zu bytes with %zu left", n, left); break; }
			if ((uintptr_t)p % alignof(max_align_t)) bad("misaligned", "%p", (void*)p);
			if (!base || p < base) base = p;
			if (end && p < end) bad("blocks overlap", "%zu bytes", n);
			if ((size_t)(p + n - base) > POOL) bad("outside the pool", "%zu bytes behind the first", (size_t)(p - base));
			zero(p, n);
			memset(p, 0x77, n);
			end = p + n;
			size_t r = (n + 15) / 16 * 16;
			total += r;
			left = left > r ? left - r : 0;
		}
	}
	rep->bytes += total;
}
static void history(Ctx& c, int mode, int cycles, int ops, uint64_t seed) {
	static const char* names[] = {"heap", "pool", "pool of small blocks", "pool with library objects", "endurance", "volume"};
	c.begin(true, "%s: %d cycles of %d allocations, seed %llu", names[mode], cycles, ops, (unsigned long long)seed);
	memset(rep, 0, sizeof *rep);
	fflush(nullptr);
	pid_t p = fork();
	if (p == 0) {
		rs = seed;
		if (mode == 4) endurance(65536 + rb(10000), 65536 + rb(10000), 65536 + rb(10000), 65536 + rb(10000));
		else if (mode == 5) volume();
		else child(mode, cycles, ops);
		_exit(rep->failed ? 3 : 0);
	}
	int st = 0;
	if (p < 0 || waitpid(p, &st, 0) != p) _exit(2);
	if (rep->failed) c.fail(rep->key, "%s (%s)", rep->text, rep->doing);
	else CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "died", "status %x during %s", st, rep->doing);
	c.event("allocations", rep->allocs);
	c.event("allocations refused", rep->refused);
	c.event("setup cycles", rep->cycles);
	c.event("deletes", rep->deletes);
	c.event("bytes verified", rep->bytes);
}
#define HISTORY(name, mode, q, t, qn, tn, cycles, ops)                                       \
	SECTION(name, q, t) {                                                                     \
		rep = (Report*)mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); \
		uint64_t n = c.n(qn, tn);                                                             \
		for (uint64_t i = 0; i < n; i++) { int cy = 1 + (int)c.rng.below(cycles), op = 1 + (int)c.rng.below(ops); history(c, mode, cy, op, c.rng.next()); } \
	}
HISTORY(heap, 0, 1, 4, 150, 6000, 1, 400)
HISTORY(pool, 1, 2, 8, 400, 20000, 8, 400)
HISTORY(small, 2, 2, 8, 200, 10000, 4, 2500)
HISTORY(objects, 3, 2, 4, 200, 10000, 4, 60)
HISTORY(endurance, 4, 2, 4, 2, 40, 1, 1)
HISTORY(volume, 5, 1, 4, 1, 8, 1, 1)
