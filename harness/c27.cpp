// C27: running translated code on the target: Run recycles memory every time, delivers messages in order, reports an
// uncaught exception's message exactly once, and exposes platform data live. Runs happen in forked children.
#include "vf.h"
#include <cmath>
#include <sys/wait.h>
#include <PlatformSupport.h>
#include <DotNetLibrarySupport.h>
using namespace DotnetLibrarySupport;
extern Double doubleData __attribute__((weak));  // the platform's own number, when it is to be had under this name

struct Report { char key[80]; char text[600]; char doing[200]; uint64_t runs, sends, thrown, allocs, cells; int failed; };
static Report* rep;
static void bad(const char* key, const char* fmt, ...) {
	if (rep->failed++) return;
	snprintf(rep->key, sizeof rep->key, "%s", key);
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(rep->text, sizeof rep->text, fmt, ap);
	va_end(ap);
}
static char expected[1 << 26];
static size_t nexp;
static void expectLine(const Char* t) {
	while (*t && nexp < sizeof expected - 2) expected[nexp++] = (char)*t++;
	expected[nexp++] = '\n';
}
static const wchar_t* messages[] = {L"Index out of range", L"Arguement is null", L"Rank exception", L"Arguement out of range", L"Bad Arguement", L"Functionality not implemented", L"Invalid Cast", L"Invalid Operation",
	L"Bad Format", L"Overflow", L"Overflow", L"Overflow", L"Divide by Zero"};
static Int32 cells[4];     // what the platform array must hold
static Double* number = &doubleData;
static Double held = 5.5;  // what the platform number must hold
static bool started = false;

struct Program : public DataAccess {
	uint64_t seed;
	int ops;
	int chatty = 0;     // send one message this many times and end
	Program(uint64_t s, int o) : seed(s), ops(o) {}
	virtual void RunCode();
};
static Char buf[600];
static void literal(uint64_t& s, int n) {
	for (int i = 0; i < n; i++) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; buf[i] = (Char)(32 + (s >> 33) % 95); }
	buf[n] = 0;
}
static uint64_t rr(uint64_t& s, uint64_t n) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (s >> 33) % n; }
void Program::RunCode() {
	uint64_t s = seed;
	char num[40];
	if (chatty) {
		String* m = new String(L"tick");
		for (int i = 0; i < chatty; i++) { Send(m); expectLine(L"tick"); rep->sends++; }
		if (rr(s, 2)) { expectLine(L"Overflow"); rep->thrown++; throw new OverflowException(); }
		return;
	}
	int budget = 50000;  // characters of long messages in one run
	for (int i = 0; i < ops; i++) {
		if (rr(s, 60) == 0) {  // a message of any length, over static memory
			static const int k[] = {127, 128, 255, 256, 511, 512, 1000, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, 16384, 32767, 32768, 40000};
			static Char wide[40010];
			int n = k[rr(s, 19)] + (int)rr(s, 3) - 1;
			for (int q = 0; q < n; q++) wide[q] = (Char)(33 + (q * 7 + n) % 90);
			wide[n] = 0;
			budget -= n;
			if (budget >= 0) {
				expectLine(wide);
				if (rr(s, 3)) {
					Send(new String(wide));
					rep->sends++;
				} else {
					rep->thrown++;
					throw new Exception(new String(wide));
				}
			}
			continue;
		}
		switch (rr(s, 12)) {
		case 0: {  // a plain message
			literal(s, (int)rr(s, 60));
			String* m = new String(buf, 0, (Int32)wcslen(buf));
			expectLine(buf);
			Send(m);
			rep->sends++;
			break;
		}
		case 1: {  // a message built from pieces
			int v = (int)rr(s, 100000) - 50000;
			StringBuilder* sb = new StringBuilder();
			sb->Append(L"v=", 2);
			sb->Append((Int32)v);
			snprintf(num, sizeof num, "v=%d", v);
			Char w[40];
			for (int k = 0; (w[k] = (Char)num[k]) != 0; k++);
			expectLine(w);
			Send(sb->ToString());
			rep->sends++;
			break;
		}
		case 2: {  // the platform array is live
			Array* a = get_ArrayData();
			if (a == nullptr || a->get_Length() != 4 || a->get_Rank() != 1) { bad("platform array shape", "%d", a ? a->get_Length() : -1); return; }
			for (int k = 0; k < 4; k++) {
				Int32 v = *(Int32*)a->Address(k);
				if (v != cells[k]) bad("platform array contents", "cell %d is %d expected %d", k, v, cells[k]);
				rep->cells++;
			}
			int k = (int)rr(s, 4), v = (int)rr(s, 1000000);
			*(Int32*)a->Address(k) = v;
			cells[k] = v;
			Array* b = get_ArrayData();
			if (*(Int32*)b->Address(k) != v) bad("platform array not live", "cell %d", k);
			break;
		}
		case 3:
			if (number == nullptr) {
				if (get_DoubleData() != 5.5) bad("platform double", "%g", get_DoubleData());
				break;
			}
			for (int k = 0; k < 2; k++) {
				Double got = get_DoubleData();
				if (memcmp(&got, &held, sizeof got)) bad("platform double not live", "%g expected %g", got, held);
				static const Double values[] = {5.5, 0.0, -0.0, 1e-310, NAN, INFINITY, -INFINITY, -5.5, 5.5000000000000009, 1e308, 123456789.25};
				held = rr(s, 3) ? values[rr(s, 11)] : (Double)(int)rr(s, 100000) / 8;
				*number = held;
				rep->cells++;
			}
			break;
		case 4: case 5: case 6: case 7: {  // memory: zeroed, and kept until the run ends
			int n = 1 + (int)rr(s, 40);
			Array* a = new Array(Int32Type, n);
			for (int k = 0; k < n; k++) if (*(Int32*)a->Address(k) != 0) bad("array not zero", "cell %d of %d in run %llu", k, n, (unsigned long long)rep->runs);
			for (int k = 0; k < n; k++) *(Int32*)a->Address(k) = k * 7 + n;
			Array* b = new Array(Int32Type, n);
			for (int k = 0; k < n; k++) { if (*(Int32*)b->Address(k) != 0) bad("array not zero", "second array"); *(Int32*)b->Address(k) = -1; }
			for (int k = 0; k < n; k++) if (*(Int32*)a->Address(k) != k * 7 + n) bad("array changed", "cell %d of %d", k, n);
			rep->allocs += 2;
			break;
		}
		case 8:  // an exception that is handled
			try {
				Array* a = new Array(Int32Type, 2);
				a->Address(5);
				bad("index accepted", "%d", 5);
			} catch (Exception* e) {
				if (e->get_Message() == nullptr) bad("no message", "%d", 0);
			}
			break;
		case 9: {  // sometimes the run ends here
			if (rr(s, 4)) break;
			rep->thrown++;
			int k = (int)rr(s, 16);
			if (k < 13) expectLine(messages[k]);
			switch (k) {
			case 0: throw new IndexOutOfRangeException();
			case 1: throw new ArgumentNullException();
			case 2: throw new RankException();
			case 3: throw new ArgumentOutOfRangeException();
			case 4: throw new ArgumentException();
			case 5: throw new NotImplementedException();
			case 6: throw new InvalidCastException();
			case 7: throw new InvalidOperationException();
			case 8: throw new FormatException();
			case 9: throw new OverflowException();
			case 10: throw new ThrowMinMaxException();
			case 11: throw new ArithmeticException();
			case 12: throw new DivideByZeroException();
			case 13: throw new Exception();   // no message: nothing is sent
			case 14: {
				literal(s, (int)rr(s, 40));
				expectLine(buf);
				throw new Exception(new String(buf, 0, (Int32)wcslen(buf)));
			}
			default:
				literal(s, (int)rr(s, 40));
				expectLine(buf);
				throw new Exception(new String(buf, 0, (Int32)wcslen(buf)), new OverflowException());
			}
		}
		case 10: {  // an exception raised inside the library
			if (rr(s, 6)) break;
			rep->thrown++;
			expectLine(messages[8]);
			String* t = new String(L"12x");
			Int32Value::Parse(t);
			bad("malformed number accepted", "%d", 0);
			return;
		}
		default: {
			Char w[24];
			int n = (int)rr(s, 20);
			for (int k = 0; k < n; k++) w[k] = (Char)('a' + rr(s, 26));
			w[n] = 0;
			String* t = new String(w, 0, n);
			String* u = t->ToUpper();
			if (u->get_Length() != n) bad("string in the pool", "%d", u->get_Length());
			rep->allocs += 2;
		}
		}
	}
}
static void child(uint64_t seed, int runs, int ops, bool repeat, const char* capture) {
	fflush(stdout);
	int fd = open(capture, O_RDWR | O_CREAT | O_TRUNC, 0600);
	if (fd < 0 || dup2(fd, 1) < 0) _exit(9);
	static char pbuf[sizeof(Program) + 16] __attribute__((aligned(16)));
	for (int k = 0; k < 4; k++) cells[k] = k + 1;
	size_t first = 0, prev = 0;
	for (int r = 0; r < runs; r++) {
		snprintf(rep->doing, sizeof rep->doing, "run %d", r);
		if (r) ops = repeat ? ops : ops;
		Program* p = new (pbuf) Program(repeat ? seed : seed + (uint64_t)r * 977, ops);
		prev = nexp;
		if (ops == -1) p->chatty = 65000 + (int)(seed % 2000);
		try {
			p->Run();
		} catch (...) {
			bad("an exception left Run", "%d", r);
		}
		rep->runs++;
		if (r == 0) first = nexp;
		else if (repeat && (nexp - prev != first || memcmp(expected, expected + prev, first))) bad("harness", "repeat differs");
	}
	fflush(stdout);
	off_t n = lseek(fd, 0, SEEK_END);
	static char got[sizeof expected];
	lseek(fd, 0, SEEK_SET);
	size_t have = 0;
	while (have < sizeof got) { ssize_t k = read(fd, got + have, sizeof got - have); if (k <= 0) break; have += k; }
	if (have != nexp || memcmp(got, expected, nexp)) {
		size_t d = 0;
		while (d < have && d < nexp && got[d] == expected[d]) d++;
		size_t from = d > 40 ? d - 40 : 0;
		char a[100], b[100];
		snprintf(a, sizeof a, "%.*s", (int)std::min<size_t>(80, have - std::min(have, from)), got + from);
		snprintf(b, sizeof b, "%.*s", (int)std::min<size_t>(80, nexp - std::min(nexp, from)), expected + from);
		bad("messages delivered", "%zu bytes expected %zu, first difference at %zu: got <%s> expected <%s>", have, nexp, d, a, b);
	}
	(void)n;
}
static void history(Ctx& c, uint64_t seed, int runs, int ops, bool repeat) {
	static std::string* path = nullptr;
	if (!path) { char b[100]; snprintf(b, sizeof b, "capture.%d", (int)getpid()); path = new std::string(b); }
	c.begin(true, "%d runs of %d operations%s, seed %llu", runs, ops, repeat ? " (the same program)" : "", (unsigned long long)seed);
	memset(rep, 0, sizeof *rep);
	fflush(nullptr);
	pid_t p = fork();
	if (p == 0) {
		child(seed, runs, ops, repeat, path->c_str());
		_exit(rep->failed ? 3 : 0);
	}
	int st = 0;
	if (p < 0 || waitpid(p, &st, 0) != p) _exit(2);
	unlink(path->c_str());
	if (rep->failed) c.fail(rep->key, "%s (%s)", rep->text, rep->doing);
	else CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "died", "status %x during %s", st, rep->doing);
	c.event("runs", rep->runs);
	c.event("messages sent", rep->sends);
	c.event("runs ended by an exception", rep->thrown);
	c.event("allocations", rep->allocs);
	c.event("platform cells compared", rep->cells);
}
static void start() { rep = (Report*)mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
SECTION(programs, 4, 8) {
	start();
	uint64_t n = c.n(1200, 60000);
	for (uint64_t i = 0; i < n; i++) history(c, c.rng.next(), 1 + (int)c.rng.below(12), (int)c.rng.below(45), c.rng.chance(1, 4));
}
// many runs in one process: what one run leaves behind must never limit the next
SECTION(recycle, 4, 8) {
	start();
	uint64_t n = c.n(60, 2000);
	for (uint64_t i = 0; i < n; i++) history(c, c.rng.next(), 60 + (int)c.rng.below(200), 20 + (int)c.rng.below(25), c.rng.chance(1, 2));
}
// more runs, and more messages in one run, than a 16 bit counter can tell apart
SECTION(endurance, 4, 8) {
	start();
	uint64_t n = c.n(4, 60);
	for (uint64_t i = 0; i < n; i++) {
		history(c, c.rng.next(), 65000 + (int)c.rng.below(3000), 2, false);
		history(c, c.rng.next(), 3, -1, false);
	}
}
