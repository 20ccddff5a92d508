// C28: refused operations: every refusal is one of the library's exceptions, carries its message, and has changed nothing.
#include "world.h"

static const struct { Ex e; const wchar_t* text; } kText[] = {{IOOR, L"Index out of range"}, {ANULL, L"Arguement is null"}, {RANK, L"Rank exception"}, {AOOR, L"Arguement out of range"}, {ARG, L"Bad Arguement"},
	{NOTIMPL, L"Functionality not implemented"}, {CAST, L"Invalid Cast"}, {INVOP, L"Invalid Operation"}, {FORMAT, L"Bad Format"}, {OVERFLOWEX, L"Overflow"}, {MINMAX, L"Overflow"}, {ARITH, L"Overflow"}, {DIV0, L"Divide by Zero"}};
static void contract(Ctx& c, Exception* e, Ex kind) {
	String* m = e->get_Message();
	CHECK(m != nullptr, "exception without a message", "%s", exName(kind));
	if (m) {
		bool found = false;
		for (auto& k : kText) if (k.e == kind) { found = true; CHECK(str(m) == k.text, "message of the exception", "%s: \"%s\"", exName(kind), Q(str(m))); }
		CHECK(found, "exception of no documented class", "%s", exName(kind));
		CHECK(e->get_Message() == m, "message not stable", "%s", exName(kind));
	}
	CHECK(e->get_InnerException() == nullptr && e->GetBaseException() == e, "inner exception of a simple exception", "%s", exName(kind));
	CHECK(e->GetRawDataType() == ObjectType && dynamic_cast<Object*>(e) != nullptr, "exception is not an object", "%s", exName(kind));
}
SECTION(histories, 8, 8) {
	uint64_t n = c.n(5000, 160000);
	for (uint64_t i = 0; i < n; i++) {
		World w;
		uint64_t seed = c.rng.next();
		Rng r(seed);
		w.build(r);
		std::string done;
		std::vector<std::string> before = w.snap();
		for (int k = 0; k < 30; k++) {
			Rng peek = r;
			c.begin(true, "history %llu step %d%s", (unsigned long long)seed, k, done.c_str());
			Step st = step(w, r);
			std::vector<std::string> after = w.snap();
			done = " after " + st.name;
			if (st.ex != NOEX) {
				CHECK(isErr(st.ex), "a foreign exception", "%s", st.name.c_str());
				if (st.thrown) contract(c, st.thrown, st.ex);
				for (size_t q = 0; q < after.size(); q++)
					CHECK(after[q] == before[q], "a refused operation changed something", "%s refused with %s changed item %d", st.name.c_str(), exName(st.ex), (int)q);
				c.event("refused operations");
				c.event(exName(st.ex));
			} else
				c.event("operations");
			before.swap(after);
		}
	}
}
// constructing and chaining exceptions
SECTION(chains, 1, 2) {
	uint64_t n = c.n(20000, 500000);
	for (uint64_t i = 0; i < n; i++) {
		int depth = c.rng.chance(1, 400) ? bigSize(c.rng, 3000) : (int)c.rng.range(0, 12);
		c.begin(true, "chain of %d exceptions, case %llu", depth, (unsigned long long)(i * 64 + c.shard));
		Exception* base;
		String* given = nullptr;
		W cause;
		int kind = (int)c.rng.below(15);
		switch (kind) {
		case 0: base = new IndexOutOfRangeException(); break;
		case 1: base = new ArgumentNullException(); break;
		case 2: base = new RankException(); break;
		case 3: base = new ArgumentOutOfRangeException(); break;
		case 4: base = new ArgumentException(); break;
		case 5: base = new NotImplementedException(); break;
		case 6: base = new InvalidCastException(); break;
		case 7: base = new InvalidOperationException(); break;
		case 8: base = new FormatException(); break;
		case 9: base = new OverflowException(); break;
		case 10: base = new ThrowMinMaxException(); break;
		case 11: base = new ArithmeticException(); break;
		case 12: base = new DivideByZeroException(); break;
		case 13: base = new Exception(); break;
		default: cause = c.rng.chance(1, 6) ? W() : c.rng.chance(1, 300) ? longText(c.rng) : smallText(c.rng, 10);
			base = new Exception(given = mk(cause));
		}
		if (kind < 13) contract(c, base, classify(base));
		else {
			CHECK(base->get_Message() == given && (!given || str(given) == cause), "message of a plain exception", "%d", kind);
			CHECK(base->get_InnerException() == nullptr && base->GetBaseException() == base, "inner exception of a plain exception", "%d", kind);
		}
		Exception* e = base;
		std::vector<Exception*> chain(1, base);
		for (int k = 0; k < depth; k++) {
			W text = c.rng.chance(1, 8) ? W() : c.rng.chance(1, 300) ? longText(c.rng) : smallText(c.rng, 10);
			String* m = c.rng.chance(1, 5) ? nullptr : mk(text);
			e = new Exception(m, e);
			CHECK(e->get_Message() == m && (!m || str(m) == text) && e->get_InnerException() == chain.back(), "message or inner exception", "level %d", k);
			chain.push_back(e);
		}
		for (size_t k = 0; k < chain.size(); k += 1 + chain.size() / 50) CHECK(chain[k]->GetBaseException() == base, "base exception", "level %d of %d", (int)k, depth);
		Exception* got = nullptr;
		try { throw e; } catch (Exception* x) { got = x; }
		CHECK(got == e, "exception changed in flight", "%d", depth);
		for (Exception* x : chain) delete x;
		c.event("chains");
	}
}
// what a refused operation was to fill in stays as it was: remainders and the caller's buffers
SECTION(outputs, 2, 4) {
	uint64_t n = c.n(60000, 2000000);
	for (uint64_t i = 0; i < n; i++) {
		Rng& r = c.rng;
		Int32 a = r.chance(1, 3) ? INT_MIN : interesting32(r), b = r.chance(1, 2) ? 0 : r.chance(1, 2) ? -1 : interesting32(r), was32 = interesting32(r), rem32 = was32;
		Int64 x = r.chance(1, 3) ? INT64_MIN : (Int64)interesting64(r), y = r.chance(1, 2) ? 0 : r.chance(1, 2) ? -1 : (Int64)interesting64(r), was64 = (Int64)interesting64(r), rem64 = was64;
		c.begin(true, "remainders of %d by %d and %lld by %lld, before %d and %lld", a, b, (long long)x, (long long)y, was32, (long long)was64);
		Ex e = run([&] { Math::DivRem(a, b, rem32); });
		if (e != NOEX) { CHECK(isErr(e) && rem32 == was32, "a refused operation changed something", "remainder %d was %d, %s", rem32, was32, exName(e)); c.event("refused divisions"); }
		e = run([&] { Math::DivRem(x, y, rem64); });
		if (e != NOEX) { CHECK(isErr(e) && rem64 == was64, "a refused operation changed something", "remainder %lld was %lld, %s", (long long)rem64, (long long)was64, exName(e)); c.event("refused divisions"); }
		// formatting into a buffer that is too short
		Object* o;
		W w = text(r);
		switch (r.below(9)) {
		case 0: o = mk(w); break;
		case 1: { StringBuilder* sb = new StringBuilder(); sb->Append(w.c_str(), (Int32)w.size()); o = sb; break; }
		case 2: o = new TimeSpanValue(TimeSpan((Int64)interesting64(r))); break;
		case 3: o = new DateTimeValue(DateTime((UInt64)r.below(3155378975999999999ULL))); break;
		case 4: o = new BooleanValue(r.chance(1, 2)); break;
		case 5: o = new CharValue((Char)r.range(33, 126)); break;
		case 6: o = new Object(); break;
		case 7: o = new ArgumentException(); break;
		default: o = new Array(Int32Type, 3); break;
		}
		Char buf[64], before[64];
		for (int k = 0; k < 64; k++) before[k] = buf[k] = (Char)(L'A' + k % 26);
		int size = (int)r.range(0, 40);
		c.begin(true, "text of an object of type %d \"%s\" into %d characters", (int)o->GetRawDataType(), Q(w.substr(0, 50)), size);
		e = run([&] { o->FormatString(buf, size); });
		if (e != NOEX) {
			CHECK(isErr(e) && memcmp(buf, before, sizeof buf) == 0, "a refused operation changed something", "the buffer of a refused text, %s", exName(e));
			c.event("refused texts");
		} else
			c.event("texts");
		delete o;
	}
}
