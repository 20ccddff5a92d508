// C11: an enumerator yields every character of its string once, in order, and only between the first and last position.
#include "texts.h"

struct En {
	CharEnumerator* e;
	int which;   // string
	int at;      // -1 before, len after
};
SECTION(histories, 8, 8) {
	uint64_t n = c.n(16000, 400000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		Watch w;
		std::vector<W> t;
		std::vector<String*> s;
		int ns = (int)r.range(1, 3);
		for (int i = 0; i < ns; i++) { t.push_back(r.chance(1, 5) ? W() : r.chance(1, 150) ? longText(r) : text(r)); s.push_back(w.add(t[i])); }
		std::vector<En> es;
		std::string log;
		c.begin(false, "enumerate");
		W seen;
		auto note = [&](const char* f, int a) { if (log.size() > 6000) return; char b[40]; snprintf(b, sizeof b, "%s%d ", f, a); log += b; };
		int steps = (int)r.range(5, 120);
		for (auto& x : t) log += std::string("\"") + Q(x) + "\" ";
		for (int i = 0; i < steps; i++) {
			if (es.empty() || (es.size() < 4 && r.chance(1, 12))) {
				int k = (int)r.below(ns);
				es.push_back(En{r.chance(1, 2) ? s[k]->GetEnumerator() : new CharEnumerator(s[k]), k, -1});
				note("new", k);
				CHECK(isErr(run([&] { es.back().e->get_Current(); })), "current character before the first move", "new enumerator");
				continue;
			}
			int q = (int)r.below(es.size());
			En& x = es[q];
			int len = (int)t[x.which].size();
			if (r.chance(1, 25)) {
				note("reset", q);
				x.e->Reset();
				x.at = -1;
				c.event("resets");
			} else if (r.chance(2, 3)) {
				note("move", q);
				bool got = x.e->MoveNext();
				x.at = std::min(x.at + 1, len);
				CHECK(got == (x.at < len), "MoveNext", "enumerator %d at %d of %d gave %d after %s", q, x.at, len, got, log.c_str());
				c.event(got ? "moves" : "ends");
			}
			Char ch = 0;
			Ex e = run([&] { ch = x.e->get_Current(); });
			if (x.at >= 0 && x.at < len) {
				CHECK(e == NOEX && ch == t[x.which][x.at], "wrong current character", "enumerator %d at %d: U+%x (%s) after %s", q, x.at, (unsigned)ch, exName(e), log.c_str());
				c.event("characters read");
			} else
				CHECK(e == INVOP, "current character outside the string", "enumerator %d at %d of %d: %s after %s", q, x.at, len, exName(e), log.c_str());
		}
		c.evals--;
		c.begin(true, "enumerate %s", log.c_str());
		// a full walk spells the string
		int k = (int)r.below(ns);
		CharEnumerator* f = s[k]->GetEnumerator();
		while (f->MoveNext()) { seen += f->get_Current(); if (seen.size() > t[k].size() + 2) break; }
		CHECK(seen == t[k], "walk does not spell the string", "\"%s\" gave \"%s\"", Q(t[k]), Q(seen));
		CHECK(!f->MoveNext(), "moved past the end", "again");
		f->Reset();
		CHECK((bool)f->MoveNext() == !t[k].empty(), "reset does not start over", "after the end");
		if (!t[k].empty()) CHECK(f->get_Current() == t[k][0], "reset does not start over", "first character");
		delete f;
		CHECK(w.changed() < 0, "enumeration changed its string", "text");
		for (auto& x : es) delete x.e;
		for (auto* x : s) delete x;
	}
}
// patience: tens of thousands of moves past the end, of resets, of refused and repeated reads, at every position of longer strings
SECTION(patience, 4, 4) {
	uint64_t n = c.n(60, 3000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		int len = r.chance(1, 6) ? 0 : r.chance(1, 4) ? 1 : r.chance(1, 3) ? (int)r.range(200, 70000) : (int)r.range(2, 40);
		W t;
		for (int i = 0; i < len; i++) t += (wchar_t)(r.chance(1, 9) ? r.range(128, 0xFFFF) : r.range(32, 126));
		Watch w;
		String* s = w.add(t);
		CharEnumerator* e = r.chance(1, 2) ? s->GetEnumerator() : new CharEnumerator(s);
		int past = r.chance(1, 2) ? (int)r.range(1, 1500) : (int)r.range(65530, 70000), resets = r.chance(1, 3) ? (int)r.range(60000, 70000) : (int)r.range(1, 600), reads = r.chance(1, 3) ? (int)r.range(65530, 70000) : (int)r.range(1, 600), how = (int)r.below(3);
		c.begin(true, "%d characters, %d moves past the end (%s), %d resets, %d reads in one place", len, past, how == 0 ? "reading" : how == 1 ? "not reading" : "reading at times", resets, reads);
		int at = -1;
		auto look = [&](const char* when) {
			Char ch = 0;
			Ex x = run([&] { ch = e->get_Current(); });
			if (at >= 0 && at < len) CHECK(x == NOEX && ch == t[at], "wrong current character", "%s at %d: U+%x (%s)", when, at, (unsigned)ch, exName(x));
			else CHECK(x == INVOP, "current character outside the string", "%s at %d: %s", when, at, exName(x));
		};
		auto move = [&](const char* when) {
			bool got = e->MoveNext();
			at = std::min(at + 1, len);
			CHECK(got == (at < len), "MoveNext", "%s at %d: %d", when, at, (int)got);
		};
		for (int round = 0; round < 2; round++) {
			for (int i = 0; i < (len < 5000 ? 3 : 1); i++) look("before the first move");
			int stay = len ? (int)r.below(len) : 0;
			for (int i = 0; i <= len; i++) {
				move("walk");
				if (i < 300 || i % 64 < 2 || i + 3 > len) look("walk");
				if (i == stay) for (int k = 0; k < (at < len ? reads : std::min(reads, 300)); k++) look("in one place");
			}
			for (int i = 0; i < past && c.fails < 50; i++) {
				move("past the end");
				if (how == 0 ? i < 2000 || i % 4096 < 2 : how == 2 && (i % 61 == 0)) look("past the end");
			}
			look("past the end");
			if (round == 0) {
				for (int i = 0; i < resets; i++) { e->Reset(); at = -1; if (r.chance(1, 3)) move("after a reset"); if (i % 7 == 0 && (at >= 0 && at < len)) look("after a reset"); }
				e->Reset();
				at = -1;
			}
		}
		c.event("moves past the end", 2 * past);
		c.event("resets", resets + 1);
		CHECK(w.changed() < 0, "enumeration changed its string", "text");
		delete e;
		delete s;
	}
}
// all operations of strings in any order: the answers of this property do not depend on what was asked before
SECTION(sequences, 4, 8) { texts::histories(c, texts::WALK, c.n(60000, 4000000)); }
