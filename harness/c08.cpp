// C08: comparison is a consistent total order, equality is content equality, range comparison looks only inside the range.
#include "texts.h"

static int sgn(int v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
static int lex(const W& a, const W& b) {
	for (size_t i = 0; i < a.size() && i < b.size(); i++)
		if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
	return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1;
}
static wchar_t low(wchar_t ch) { return ch >= L'A' && ch <= L'Z' ? (wchar_t)(ch + 32) : ch; }
static W fold(const W& w) { W r; for (wchar_t ch : w) r += low(ch); return r; }
static bool plain(const W& w) { for (wchar_t ch : w) if (!((ch >= L'a' && ch <= L'z') || (ch >= L'0' && ch <= L'9'))) return false; return true; }
// code points the C locale may not change the case of, plus ASCII
static W cmpText(Rng& r) {
	if (r.chance(1, 120)) return longText(r);
	switch (r.below(5)) {
	case 0: return smallText(r, 5, L"aAbB");
	case 1: return smallText(r, 8, L"aAzZ09_[`~ ");
	case 2: { W w = text(r); return w; }
	case 3: return nulText(r, 6, L"aA\x1");
	default: { W w(r.range(0, 40), L'x'); return w + smallText(r, 4, L"aA"); }
	}
}
static W vary(Rng& r, const W& w) {
	W v = w;
	switch (r.below(6)) {
	case 0: return v;
	case 1: for (auto& ch : v) if (r.chance(1, 2)) { if (ch >= L'a' && ch <= L'z') ch -= 32; else if (ch >= L'A' && ch <= L'Z') ch += 32; } return v;
	case 2: return v + anyChar(r);
	case 3: if (!v.empty()) v[r.below(v.size())] = anyChar(r); return v;
	case 4: return v.substr(0, r.range(0, (int64_t)v.size()));
	default: return cmpText(r);
	}
}

static void pair(Ctx& c, const W& x, const W& y, String* a, String* b) {
	int got = String::CompareOrdinal(a, b);
	CHECK(sgn(got) == lex(x, y), "ordinal comparison is not code point order", "CompareOrdinal = %d, code point order %d", got, lex(x, y));
	int back = String::CompareOrdinal(b, a);
	CHECK(sgn(got) == -sgn(back), "comparison not antisymmetric", "ordinal %d and %d", got, back);
	int ic = String::Compare(a, b, true), icb = String::Compare(b, a, true);
	CHECK(sgn(ic) == lex(fold(x), fold(y)), "case-insensitive comparison", "Compare(ignoreCase) = %d expected %d", ic, lex(fold(x), fold(y)));
	CHECK(sgn(ic) == -sgn(icb), "comparison not antisymmetric", "ignoreCase %d and %d", ic, icb);
	int cs = String::Compare(a, b), csb = String::Compare(b, a), ct = a->CompareTo(b), co = a->CompareTo((Object*)b);
	CHECK(sgn(cs) == -sgn(csb), "comparison not antisymmetric", "Compare %d and %d", cs, csb);
	CHECK((cs == 0) == (x == y), "comparison is zero for unequal texts or non-zero for equal ones", "Compare = %d", cs);
	CHECK(sgn(ct) == sgn(cs) && sgn(co) == sgn(cs), "CompareTo disagrees with Compare", "CompareTo %d %d, Compare %d", ct, co, cs);
	if (plain(x) && plain(y)) CHECK(sgn(cs) == lex(x, y), "order of plain texts", "Compare = %d expected %d", cs, lex(x, y));
	bool eq = x == y;
	CHECK((bool)a->Equals(b) == eq && (bool)a->Equals((Object*)b) == eq && (bool)String::Equals(a, b) == eq && (bool)String::Equals((Object*)a, b) == eq &&
		(bool)String::Equals(a, (Object*)b) == eq, "equality is not content equality", "texts %s", eq ? "equal" : "differ");
	CHECK((bool)String::op_Inequality(a, b) == !eq, "inequality operator", "texts %s", eq ? "equal" : "differ");
	c.event(eq ? "equal pairs" : "unequal pairs");
	if (!eq && fold(x) == fold(y)) {
		c.event("pairs differing only in case");
		// the first difference decides: lower case sorts first
		size_t i = 0;
		while (x[i] == y[i]) i++;
		CHECK(sgn(cs) == (x[i] > y[i] ? -1 : 1), "lower case must sort before upper case", "Compare = %d", cs);
	}
}

SECTION(enumerate, 8, 8) {
	std::vector<W> all;
	const wchar_t al[] = {L'a', L'A', L'b', L'B', L'1'};
	int top = c.thorough ? 4 : 3;
	std::function<void(W)> gen = [&](W w) { all.push_back(w); if ((int)w.size() < top) for (wchar_t ch : al) gen(w + ch); };
	gen(L"");
	std::vector<String*> s;
	for (auto& w : all) s.push_back(mk(w));
	for (size_t i = 0; i < all.size(); i++) {
		if (!c.mine(i)) continue;
		for (size_t j = 0; j < all.size(); j++) {
			c.bulk("compare short texts", i, j);
			pair(c, all[i], all[j], s[i], s[j]);
		}
	}
	c.event("strings enumerated", all.size());
}

SECTION(random, 8, 8) {
	uint64_t n = c.n(60000, 1500000);
	int again = 0, i1 = 0, i2 = 0, k = 0;
	W x, y, z;
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		bool repeat = again > 0;
		if (repeat) {  // the same comparisons of texts that changed a little
			again--;
			W& t = r.chance(1, 2) ? x : r.chance(2, 3) ? y : z;
			t = altered(r, t);
		} else {
			x = cmpText(r); y = vary(r, x); z = vary(r, y);
			if (r.chance(1, 8)) again = (int)r.range(1, 6);
		}
		c.begin(!x.empty() && !y.empty(), "compare%s \"%s\" \"%s\" \"%s\"", repeat ? " again" : "", Q(x), Q(y), Q(z));
		if (repeat) c.event("comparisons repeated over changed text");
		String *a = mkAt(r, 0, x, repeat || again ? 1 : 2), *b = mkAt(r, 1, y, repeat || again ? 1 : 2), *d = mkAt(r, 2, z);
		pair(c, x, y, a, b);
		pair(c, y, z, b, d);
		int ab = sgn(String::Compare(a, b)), bd = sgn(String::Compare(b, d)), ad = sgn(String::Compare(a, d));
		if (ab == bd) CHECK(ad == ab, "comparison not transitive", "a?b %d b?c %d a?c %d", ab, bd, ad);
		else if (ab == 0) CHECK(ad == bd, "comparison not transitive", "a?b 0 b?c %d a?c %d", bd, ad);
		c.event("triples ordered");
		CHECK(sgn(String::Compare(a, a)) == 0 && (bool)a->Equals(a), "text not equal to itself", "reflexivity");
		// ranges: only the requested part may matter
		if (!repeat || r.chance(1, 3)) {
			i1 = r.chance(2, 3) ? (int)r.range(0, x.size()) : pos(r, (int)x.size()); i2 = r.chance(2, 3) ? (int)r.range(0, y.size()) : pos(r, (int)y.size());
			k = r.chance(2, 3) ? (int)r.range(0, 6) : pos(r, (int)x.size());
		}
		if (x.size() > 100 && r.chance(1, 2)) { i1 = (int)r.range(0, 30); i2 = r.chance(1, 2) ? i1 : (int)r.range(0, 30); k = (int)x.size() - (int)r.range(-3, 60); }
		if (r.chance(1, 3) && !x.empty()) {  // the length ends at, just before or just behind the first difference
			size_t at = 0;
			while (at < x.size() && at < y.size() && x[at] == y[at]) at++;
			i1 = i2 = r.chance(1, 2) ? 0 : (int)r.range(0, at);
			k = std::max(0, (int)at - i1 + (int)r.range(-1, 2));
		}
		bool ok = i1 >= 0 && i2 >= 0 && k >= 0 && i1 <= (int)x.size() && i2 <= (int)y.size();
		int o = 7, ci = 7, cs = 7;
		Ex e1 = run([&] { o = String::CompareOrdinal(a, i1, b, i2, k); });
		Ex e2 = run([&] { ci = String::Compare(a, i1, b, i2, k, true); });
		Ex e3 = run([&] { cs = String::Compare(a, i1, b, i2, k); });
		if (ok) {
			W p = x.substr(i1, k), q = y.substr(i2, k);
			CHECK(e1 == NOEX && sgn(o) == lex(p, q), "range comparison", "CompareOrdinal(%d,%d,%d) = %d (%s) expected %d", i1, i2, k, o, exName(e1), lex(p, q));
			CHECK(e2 == NOEX && sgn(ci) == lex(fold(p), fold(q)), "range comparison", "Compare(%d,%d,%d,ignoreCase) = %d (%s)", i1, i2, k, ci, exName(e2));
			String *ps = mk(p), *qs = mk(q);
			CHECK(e3 == NOEX && sgn(cs) == sgn(String::Compare(ps, qs)), "range comparison", "Compare(%d,%d,%d) = %d (%s), the parts compare %d", i1, i2, k, cs, exName(e3), (int)String::Compare(ps, qs));
			delete ps;
			delete qs;
			c.event("ranges compared");
		} else {
			CHECK(isErr(e1) && isErr(e2) && isErr(e3), "comparison range outside the string accepted", "(%d,%d,%d): %s %s %s", i1, i2, k, exName(e1), exName(e2), exName(e3));
			c.event("bad ranges refused");
		}
		String* none = nullptr;
		int nk = (int)r.range(1, 600);
		CHECK(String::Compare(none, a) < 0 && String::Compare(a, none, r.chance(1, 2)) > 0 && String::CompareOrdinal(none, a) < 0 && String::CompareOrdinal(a, none) > 0 && a->CompareTo(none) > 0, "null must sort before every text", "Compare");
		CHECK(!a->Equals(none) && !a->Equals((Object*)none) && !String::Equals(a, none) && !String::Equals(none, a) && String::op_Inequality(a, none), "null equality", "Equals");
		if (ok) CHECK(String::Compare(none, i1, a, i1, nk) < 0 && String::Compare(a, i1, none, i1, nk, true) > 0 && String::CompareOrdinal(a, i1, none, i1, nk) > 0 && String::CompareOrdinal(none, i1, a, i1, nk) < 0, "null must sort before every text", "ranges at %d, %d", i1, nk);
		drop(a);
		drop(b);
		drop(d);
	}
	String s(L"abc"), em(L"");
	String* none = nullptr;
	Object* no = nullptr;
	Int32Value box(3);
	c.begin(true, "compare with null");
	CHECK(String::Compare(none, none) == 0 && String::Compare(none, &s) < 0 && String::Compare(&s, none) > 0 && String::Compare(none, &em) < 0 && String::Compare(&em, none, true) > 0, "null must sort before every text", "Compare");
	CHECK(String::CompareOrdinal(none, none) == 0 && String::CompareOrdinal(none, &em) < 0 && String::CompareOrdinal(&em, none) > 0, "null must sort before every text", "CompareOrdinal");
	CHECK(String::Compare(none, 0, &s, 0, 2) < 0 && String::Compare(&s, 0, none, 0, 2, true) > 0 && String::CompareOrdinal(none, 0, none, 0, 2) == 0, "null must sort before every text", "ranges");
	CHECK(s.CompareTo(none) > 0 && s.CompareTo(no) > 0 && em.CompareTo(none) > 0, "null must sort before every text", "CompareTo");
	CHECK(!s.Equals(none) && !s.Equals(no) && !em.Equals(none) && !String::Equals(&s, none) && !String::Equals(none, &em) && String::Equals(none, none) && String::op_Inequality(none, &em) && !String::op_Inequality(none, none), "null equality", "Equals");
	CHECK(String::Equals(none, no) && String::Equals(no, none) && !String::Equals(&s, no) && !String::Equals(no, &em) && !String::Equals(none, (Object*)&s) && !String::Equals((Object*)&em, none), "null equality", "Equals of a text and an object");
	CHECK(!s.Equals(&box) && isErr(run([&] { s.CompareTo((Object*)&box); })), "comparison with another type", "Int32");
	String three(L"3");
	CHECK(!three.Equals((Object*)&box), "comparison with another type", "text 3 equals boxed 3");
}

// every character against its neighbours and look-alikes
SECTION(everychar, 4, 8) {
	everyChar(c, "compare the character", [&](wchar_t ch) {
		wchar_t o[] = {(wchar_t)(ch ^ 0x100), (wchar_t)(ch ^ 0x20), (wchar_t)(ch + 0x10000), (wchar_t)(ch ^ 0x8000), (wchar_t)(ch + 1), fold(W(1, ch))[0], (wchar_t)(ch ^ 0x10), anyChar(c.rng)};
		for (int q = 0; q < 3; q++) {
			wchar_t other = o[c.rng.below(8)];
			if (!other) other = L'q';
			W x(1, ch), y(1, other);
			if (q) { x = L"a" + x + L"b"; y = L"a" + y + L"b"; }
			String *a = mk(x), *b = mk(y);
			pair(c, x, y, a, b);
			int at = q ? 1 : 0;
			CHECK(sgn(String::CompareOrdinal(a, at, b, at, 1)) == lex(W(1, ch), W(1, other)), "range comparison", "U+%x and U+%x", (unsigned)ch, (unsigned)other);
			delete a;
			delete b;
		}
	});
}
// all operations of strings in any order: the answers of this property do not depend on what was asked before
SECTION(sequences, 4, 8) { texts::histories(c, texts::ORDER, c.n(60000, 4000000)); }
