// C07: searches return exactly the first/last position inside the requested range, or -1; bad ranges are refused.
#include "texts.h"

static int findFirst(const W& w, const W& v, int s, int k) {  // match wholly inside [s, s+k)
	for (int i = s; i + (int)v.size() <= s + k; i++)
		if (w.compare(i, v.size(), v) == 0) return i;
	return -1;
}
static int findLast(const W& w, const W& v, int s, int k) {  // match wholly inside (s-k, s]
	for (int i = s + 1 - (int)v.size(); i > s - k; i--)
		if (i >= 0 && w.compare(i, v.size(), v) == 0) return i;
	return -1;
}
static void verdict(Ctx& c, const char* what, Ex e, int got, bool ok, int want) {
	if (ok) {
		CHECK(e == NOEX && got == want, "wrong position", "%s gave %d (%s) expected %d", what, got, exName(e), want);
		c.event(want >= 0 ? "found" : "not found");
	} else {
		CHECK(isErr(e), "search range outside the string accepted", "%s gave %d", what, got);
		c.event("bad ranges refused");
	}
}

static void one(Ctx& c, const W& w, const W& v, wchar_t ch, int s, int k) {
	static std::map<W, String*> memo;
	auto in = [&](const W& x) -> String* {
		if (c.rng.chance(1, 2)) return mkAt(c.rng, &x == &w ? 0 : 1, x, 1);
		if (x.size() > 200) return mk(x); if (memo.size() > 5000) memo.clear(); String*& m = memo[x]; if (!m) m = mk(x);
		return m;
	};
	String* a = in(w);
	String* b = in(v);
	int len = (int)w.size(), got = -99;
	W cs(1, ch);
	Ex e;
	// whole string
	e = run([&] { got = a->IndexOf(b); }); verdict(c, "IndexOf(text)", e, got, true, findFirst(w, v, 0, len));
	e = run([&] { got = a->IndexOf((Char)ch); }); verdict(c, "IndexOf(char)", e, got, true, findFirst(w, cs, 0, len));
	e = run([&] { got = a->LastIndexOf((Char)ch); }); verdict(c, "LastIndexOf(char)", e, got, true, findLast(w, cs, len - 1, len));
	if (!v.empty()) { e = run([&] { got = a->LastIndexOf(b); }); verdict(c, "LastIndexOf(text)", e, got, true, findLast(w, v, len - 1, len)); }
	// from a start
	bool sOk = s >= 0 && s <= len;
	int rest = sOk ? len - s : 0;
	e = run([&] { got = a->IndexOf(b, s); }); verdict(c, "IndexOf(text,start)", e, got, sOk, sOk ? findFirst(w, v, s, rest) : 0);
	e = run([&] { got = a->IndexOf((Char)ch, s); }); verdict(c, "IndexOf(char,start)", e, got, sOk, sOk ? findFirst(w, cs, s, rest) : 0);
	// start and count
	bool rOk = inRange(s, k, len);
	e = run([&] { got = a->IndexOf(b, s, k); }); verdict(c, "IndexOf(text,start,count)", e, got, rOk, rOk ? findFirst(w, v, s, k) : 0);
	e = run([&] { got = a->IndexOf((Char)ch, s, k); }); verdict(c, "IndexOf(char,start,count)", e, got, rOk, rOk ? findFirst(w, cs, s, k) : 0);
	// backwards; -1 arguments mean "default" so negative ones are left out
	if (len > 0 && s >= 0) {
		bool bOk = s < len;
		e = run([&] { got = a->LastIndexOf((Char)ch, s); }); verdict(c, "LastIndexOf(char,start)", e, got, bOk, bOk ? findLast(w, cs, s, s + 1) : 0);
		if (!v.empty()) { e = run([&] { got = a->LastIndexOf(b, s); }); verdict(c, "LastIndexOf(text,start)", e, got, bOk, bOk ? findLast(w, v, s, s + 1) : 0); }
		if (k >= 0) {
			bool kOk = bOk && (int64_t)k <= (int64_t)s + 1;
			e = run([&] { got = a->LastIndexOf((Char)ch, s, k); }); verdict(c, "LastIndexOf(char,start,count)", e, got, kOk, kOk ? findLast(w, cs, s, k) : 0);
			if (!v.empty()) { e = run([&] { got = a->LastIndexOf(b, s, k); }); verdict(c, "LastIndexOf(text,start,count)", e, got, kOk, kOk ? findLast(w, v, s, k) : 0); }
		}
	}
	// predicates
	CHECK(a->Contains(b) == (findFirst(w, v, 0, len) >= 0), "Contains", "Contains = %d", (int)a->Contains(b));
	bool st = v.size() <= w.size() && w.compare(0, v.size(), v) == 0, en = v.size() <= w.size() && w.compare(w.size() - v.size(), v.size(), v) == 0;
	CHECK(a->StartsWith(b) == st, "StartsWith", "StartsWith = %d", (int)a->StartsWith(b));
	CHECK(a->EndsWith(b) == en, "EndsWith", "EndsWith = %d", (int)a->EndsWith(b));
	CHECK(a->EndsWith((Char)ch) == (len > 0 && w[len - 1] == ch), "EndsWith", "EndsWith(char)");
	if (w.size() > 200) drop(a);
	if (v.size() > 200 && b != a) drop(b);
}

// all pairs of short texts over two letters, all ranges in and around
SECTION(enumerate, 8, 8) {
	int top = c.thorough ? 6 : 5, vtop = 3;
	uint64_t idx = 0;
	for (int n = 0; n <= top; n++)
		for (int bits = 0; bits < (1 << n); bits++) {
			W w;
			for (int i = 0; i < n; i++) w += (bits >> i) & 1 ? L'b' : L'a';
			for (int m = 0; m <= vtop; m++)
				for (int vb = 0; vb < (1 << m); vb++) {
					if (!c.mine(idx++)) continue;
					W v;
					for (int i = 0; i < m; i++) v += (vb >> i) & 1 ? L'b' : L'a';
					for (int s = -1; s <= n + 1; s++)
						for (int k = -1; k <= n + 1; k++) {
							c.bulk("search over two letters", n * 1000 + bits, m * 1000 + vb, s * 100 + k);
							one(c, w, v, (s + k) & 1 ? L'b' : L'a', s, k);
						}
				}
		}
}

SECTION(random, 8, 8) {
	uint64_t n = c.n(16000, 400000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		bool big = r.chance(1, 60);
		W w = big ? longText(r) : r.chance(1, 3) ? text(r) : r.chance(1, 4) ? nulText(r, 30, L"ab\x1") : smallText(r, 30, r.chance(1, 2) ? L"ab" : L"abc");
		W v;
		int len = (int)w.size();
		switch (r.below(4)) {
		case 0: v = smallText(r, 5, L"ab"); break;
		case 1: v = len ? w.substr(r.below(len), r.below(8)) : L""; break;
		case 2: { int t = (int)r.below(6); v = len > t ? w.substr(len - t) : w; if (r.chance(1, 2)) v += L'a'; break; }
		default: v = w + (r.chance(1, 2) ? L"" : L"b");
		}
		if (big && len && r.chance(1, 2)) v = w.substr(r.below(len), bigSize(r, len));  // a long needle
		if (big && !v.empty() && r.chance(1, 3)) v[v.size() - 1]++;                    // that fails at its very end
		wchar_t ch = len && r.chance(2, 3) ? w[r.below(len)] : anyChar(r);
		int s = r.chance(2, 3) ? inside(r, len) : pos(r, len);
		int k = r.chance(2, 3) ? inside(r, std::max(0, len - std::max(0, std::min(s, len)))) : pos(r, len);
		c.begin(len > 0, "search \"%s\" for \"%s\"/U+%x start %d count %d", Q(w), Q(v), (unsigned)ch, s, k);
		one(c, w, v, ch, s, k);
		if (!big && r.chance(1, 3)) for (int again = 0; again < 4; again++) {  // the same searches over a text that changed a little
			W& t = r.chance(3, 4) ? w : v;
			t = altered(r, t);
			c.begin(!w.empty(), "search again \"%s\" for \"%s\"/U+%x start %d count %d", Q(w), Q(v), (unsigned)ch, s, k);
			one(c, w, v, ch, s, k);
			c.event("searches repeated over changed text");
		}
		if (r.chance(1, 4)) {
			String *a = mk(w), *none = nullptr;
			Array* na = nullptr;
			Ex n[] = {run([&] { a->IndexOf(none); }), run([&] { a->IndexOf(none, s); }), run([&] { a->IndexOf(none, s, k); }), run([&] { a->LastIndexOf(none); }), run([&] { a->Contains(none); }), run([&] { a->StartsWith(none); }),
				run([&] { a->EndsWith(none); }), run([&] { a->IndexOfAny(na); }), run([&] { a->IndexOfAny(na, s); }), run([&] { a->IndexOfAny(na, s, k); }), run([&] { a->LastIndexOfAny(na); }), run([&] { a->LastIndexOfAny(na, s); })};
			for (size_t q = 0; q < sizeof n / sizeof *n; q++) CHECK(isErr(n[q]), "search for null accepted", "form %d: %s", (int)q, exName(n[q]));
			c.event("searches for null refused");
			delete a;
		}
	}
}

SECTION(any, 4, 8) {
	uint64_t n = c.n(12000, 300000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		W w = smallText(r, 14, L"abcde"), set = smallText(r, 4, L"cdefg");
		if (r.chance(1, 12)) {  // many wanted characters, few of them (if any) in the text
			int sk = r.chance(1, 8) ? bigSize(r, 2000) : (int)r.range(5, 140);
			set.clear();
			for (int i = 0; i < sk; i++) set += (wchar_t)(r.chance(1, 2) ? 0x100 + i : r.range(0x80, 0x3000));
			if (r.chance(2, 3) && sk) set[r.chance(1, 2) ? sk - 1 : r.below(sk)] = L"abcdefg"[r.below(7)];
			if (r.chance(1, 2) && sk) { int k = (int)r.range(1, 3); while (k--) w += set[r.below(sk)]; }
		}
		bool huge = r.chance(1, 300);
		if (huge) {  // more wanted characters than a short number counts
			static const int k[] = {32767, 32768, 32769, 40000, 65535, 65536, 65537};
			int sk = k[r.below(7)];
			set.clear();
			for (int i = 0; i < sk; i++) set += (wchar_t)(0x4000 + i);
			if (r.chance(2, 3)) set[r.chance(1, 2) ? sk - 1 : r.below(sk)] = L"abcdefg"[r.below(7)];
		}
		else if (r.chance(1, 40)) { W pre = longText(r, r.chance(1, 4) ? 70000 : 20000); w = r.chance(1, 2) ? pre + w : w + pre; }
		// characters that coincide with a wanted one once narrowed must not match
		if (r.chance(1, 6)) for (auto& q : w) if (r.chance(1, 2)) q += r.chance(1, 2) ? 0x10000 : 0x100;
		String* a = mkAt(r, 2, w);
		Array* arr = charArray(set);
		int len = (int)w.size(), got = -99;
		int s = r.chance(2, 3) ? inside(r, len) : pos(r, len), k = r.chance(2, 3) ? inside(r, std::max(0, len - std::max(0, std::min(s, len)))) : pos(r, len);
		c.begin(len > 0 && set.size(), "search \"%s\" for any of \"%s\" start %d count %d", Q(w), Q(set), s, k);
		auto first = [&](int s0, int k0) { for (int i = s0; i < s0 + k0; i++) if (set.find(w[i]) != W::npos) return i; return -1; };
		auto last = [&](int s0, int k0) { for (int i = s0; i > s0 - k0; i--) if (set.find(w[i]) != W::npos) return i; return -1; };
		Ex e = run([&] { got = a->IndexOfAny(arr); }); verdict(c, "IndexOfAny", e, got, true, first(0, len));
		e = run([&] { got = a->IndexOfAny(arr, s); }); verdict(c, "IndexOfAny(start)", e, got, s >= 0 && s <= len, s >= 0 && s <= len ? first(s, len - s) : 0);
		e = run([&] { got = a->IndexOfAny(arr, s, k); }); verdict(c, "IndexOfAny(start,count)", e, got, inRange(s, k, len), inRange(s, k, len) ? first(s, k) : 0);
		e = run([&] { got = a->LastIndexOfAny(arr); }); verdict(c, "LastIndexOfAny", e, got, true, last(len - 1, len));
		if (len && s >= 0) {
			e = run([&] { got = a->LastIndexOfAny(arr, s); }); verdict(c, "LastIndexOfAny(start)", e, got, s < len, s < len ? last(s, s + 1) : 0);
			if (k >= 0) {
				bool ok = s < len && (int64_t)k <= (int64_t)s + 1;
				e = run([&] { got = a->LastIndexOfAny(arr, s, k); }); verdict(c, "LastIndexOfAny(start,count)", e, got, ok, ok ? last(s, k) : 0);
			}
		}
		delete arr;
		drop(a);
	}
	String s(L"abc");
	String* none = nullptr;
	Array* na = nullptr;
	Array ints(Int32Type, 2);
	c.begin(true, "search for null");
	CHECK(isErr(run([&] { s.IndexOf(none); })) && isErr(run([&] { s.IndexOf(none, 0); })) && isErr(run([&] { s.IndexOf(none, 0, 1); })) && isErr(run([&] { s.LastIndexOf(none); })) && isErr(run([&] { s.Contains(none); })) &&
		isErr(run([&] { s.StartsWith(none); })) && isErr(run([&] { s.EndsWith(none); })), "null text accepted", "search");
	CHECK(isErr(run([&] { s.IndexOfAny(na); })) && isErr(run([&] { s.LastIndexOfAny(na); })) && isErr(run([&] { s.IndexOfAny(&ints); })) && isErr(run([&] { s.LastIndexOfAny(&ints); })), "bad character set accepted", "search");
}

// every character: found where it is, and nothing else taken for it
SECTION(everychar, 4, 8) {
	everyChar(c, "search for the character", [&](wchar_t ch) {
		wchar_t o[] = {(wchar_t)(ch ^ 0x100), (wchar_t)(ch ^ 0x20), (wchar_t)(ch + 0x10000), (wchar_t)(ch ^ 0x8000), (wchar_t)(ch + 1)};
		wchar_t other = o[c.rng.below(5)];
		if (!other) other = L'q';
		W w = L"x";
		w += other; w += ch; w += L'y'; w += other; w += ch;
		int s = (int)c.rng.below(6), k = (int)c.rng.below(7 - s);
		one(c, w, W(1, ch), ch, s, k);
		w.pop_back();
		W u = w + L"z";
		one(c, u, W(1, ch) + L"y", L'z', s, k);
		if (ch % 4 == 0) {
			W none = L"x" + W(2, other) + L"y";
			one(c, none, W(1, ch), ch, (int)c.rng.below(5), 1);
		}
		String* a = mk(u);
		Array* set = charArray(W(1, ch));
		CHECK(a->IndexOfAny(set) == 2 - (L'x' == ch ? 2 : 0) && a->LastIndexOfAny(set) == (ch == L'z' ? 5 : ch == L'y' ? 3 : 2), "wrong position", "U+%x in \"%s\": %d, %d", (unsigned)ch, Q(u), (int)a->IndexOfAny(set), (int)a->LastIndexOfAny(set));
		delete set;
		delete a;
	});
}
// all operations of strings in any order: the answers of this property do not depend on what was asked before
SECTION(sequences, 4, 8) { texts::histories(c, texts::SEARCH, c.n(60000, 4000000)); }
