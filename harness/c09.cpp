// C09: transformations return exactly the specified new text, refuse bad arguments, and leave every source as it was.
#include "texts.h"

static const wchar_t kWhite[] = {9, 10, 11, 12, 13, 0x20, 0xA0, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2009, 0x200A, 0x200B, 0x3000, 0xFEFF, 0};
static W trim(const W& w, const W& set, bool st, bool en) {
	size_t a = 0, b = w.size();
	while (st && a < b && set.find(w[a]) != W::npos) a++;
	while (en && b > a && set.find(w[b - 1]) != W::npos) b--;
	return w.substr(a, b - a);
}
static W replaceAll(const W& w, const W& f, const W& t) {
	W r;
	for (size_t i = 0; i < w.size();)
		if (w.compare(i, f.size(), f) == 0) { r += t; i += f.size(); }
		else r += w[i++];
	return r;
}
static W low(W w) { for (auto& ch : w) if (ch >= L'A' && ch <= L'Z') ch += 32; return w; }
static W up(W w) { for (auto& ch : w) if (ch >= L'a' && ch <= L'z') ch -= 32; return w; }

static void expect(Ctx& c, Watch& w, const char* what, bool ok, const W& want, const std::function<String*()>& f) {
	String* s = nullptr;
	Ex e = run([&] { s = f(); });
	if (!ok) {
		CHECK(isErr(e), "bad argument accepted", "%s gave %s", what, s ? Q(str(s)) : exName(e));
		c.event("refused");
		return;
	}
	CHECK(e == NOEX && s != nullptr, "valid call refused", "%s raised %s", what, exName(e));
	if (e != NOEX || !s) return;
	W got = str(s);
	CHECK(got == want, "wrong text", "%s gave \"%s\" expected \"%s\"", what, Q(got), Q(want));
	CHECK(s->get_Buffer()[s->get_Length()] == 0, "result not terminated", "%s", what);
	w.keep(s);
	c.event("texts produced");
}

static void edits(Ctx& c, Rng& r, const W& x, const W& y, const W& z) {
	Watch w;
	String *a = w.add(x, &r, 0), *b = w.add(y, &r, 1), *d = w.add(z, &r, 2), *own[] = {a, b, d};
	if (x == y && r.chance(1, 2)) b = a;  // the same object in two roles
	if (x == z && r.chance(1, 2)) d = a;
	else if (y == z && r.chance(1, 2)) d = b;
	int len = (int)x.size();
	int i = r.chance(2, 3) ? inside(r, len) : pos(r, len);
	int k = r.chance(2, 3) ? (int)r.range(0, std::max(0, len - std::max(0, std::min(i, len)))) : pos(r, len);
	wchar_t ch = anyChar(r), old = len && r.chance(2, 3) ? x[r.below(len)] : ch;
	char what[200];
#define NAME(...) (snprintf(what, sizeof what, __VA_ARGS__), what)
	bool at = i >= 0 && i <= len;
	expect(c, w, NAME("Substring(%d)", i), at, at ? x.substr(i) : W(), [&] { return a->Substring(i); });
	expect(c, w, NAME("Remove(%d)", i), at, at ? x.substr(0, i) : W(), [&] { return a->Remove(i); });
	if (k >= 0) {
		bool rg = inRange(i, k, len);
		expect(c, w, NAME("Substring(%d,%d)", i, k), rg, rg ? x.substr(i, k) : W(), [&] { return a->Substring(i, k); });
		W cut = x;
		if (rg) cut.erase(i, k);
		expect(c, w, NAME("Remove(%d,%d)", i, k), rg, cut, [&] { return a->Remove(i, k); });
		Array* arr = nullptr;
		Ex e = run([&] { arr = a->ToCharArray(i, k); });
		if (rg) {
			bool same = e == NOEX && arr && arr->GetElementType() == CharType && arr->get_Rank() == 1 && arr->get_Length() == k;
			for (int j = 0; same && j < k; j++) same = *(Char*)arr->Address(j) == x[i + j];
			CHECK(same, "wrong character array", "ToCharArray(%d,%d): %s", i, k, exName(e));
			if (arr && k) *(Char*)arr->Address(0) = L'!';  // must be a copy
			delete arr;
		} else
			CHECK(isErr(e), "bad argument accepted", "ToCharArray(%d,%d)", i, k);
		// copy into a larger character array: only the target range changes
		int dl = k > 12 && k < 200000 && r.chance(1, 2) ? k + (int)r.range(-2, 5) : (int)r.range(0, 12), at2 = r.chance(2, 3) ? (int)r.range(0, dl) : pos(r, dl);
		Array* dst = new Array(CharType, dl);
		for (int j = 0; j < dl; j++) *(Char*)dst->Address(j) = (Char)(0x500 + j);
		bool cOk = rg && inRange(at2, k, dl);
		e = run([&] { a->CopyTo(i, dst, at2, k); });
		CHECK(cOk ? e == NOEX : isErr(e), cOk ? "valid call refused" : "bad argument accepted", "CopyTo(%d, [%d], %d, %d): %s", i, dl, at2, k, exName(e));
		for (int j = 0; j < dl; j++) {
			Char g = *(Char*)dst->Address(j), wnt = cOk && j >= at2 && j < at2 + k ? x[i + j - at2] : (Char)(0x500 + j);
			CHECK(g == wnt, "CopyTo wrote the wrong elements", "CopyTo(%d, [%d], %d, %d): element %d is %d expected %d", i, dl, at2, k, j, (int)g, (int)wnt);
		}
		delete dst;
	}
	W ins = x;
	if (at) ins.insert(i, y);
	expect(c, w, NAME("Insert(%d)", i), at, ins, [&] { return a->Insert(i, b); });
	if (r.chance(1, 4)) {
		String* none = nullptr;
		Array *na = nullptr, ints(Int32Type, 4), two(CharType, 2, 3);
		Ex n[] = {run([&] { a->Insert(i, none); }), run([&] { a->Replace(none, d); }), run([&] { a->CopyTo(i, na, 0, k); }), run([&] { a->CopyTo(i, &ints, 0, k); }), run([&] { a->CopyTo(0, na, i, k); }), run([&] { a->CopyTo(0, &ints, i, k); }),
			run([&] { a->CopyTo(0, &two, 0, k); }), run([&] { a->CopyTo(i, &two, 0, k); }), run([&] { a->Trim(&ints); }), run([&] { a->TrimStart(&ints); }), run([&] { a->TrimEnd(&ints); }), run([&] { a->Trim(&two); }), run([&] { a->TrimStart(&two); }), run([&] { a->TrimEnd(&two); })};
		for (size_t q = 0; q < sizeof n / sizeof *n; q++) CHECK(isErr(n[q]), "bad argument accepted", "form %d with %d, %d: %s", (int)q, i, k, exName(n[q]));
	}
	W rep = x;
	for (auto& q : rep) if (q == old) q = ch;
	expect(c, w, "Replace(char)", true, rep, [&] { return a->Replace((Char)old, (Char)ch); });
	expect(c, w, "Replace(text)", !y.empty(), y.empty() ? W() : replaceAll(x, y, z), [&] { return a->Replace(b, d); });
	if (!y.empty()) expect(c, w, "Replace(text,null)", true, replaceAll(x, y, W()), [&] { return a->Replace(b, (String*)nullptr); });
	int width = r.chance(1, 60) ? bigSize(r, 140000) : r.chance(1, 2) ? len + (int)r.range(-3, 6) : r.chance(1, 2) ? oddLength(r) : (int)r.range(-5, 3);
	W pad(width > len ? width - len : 0, ch);
	expect(c, w, NAME("PadLeft(%d)", width), width >= 0, pad + x, [&] { return a->PadLeft(width, (Char)ch); });
	expect(c, w, NAME("PadRight(%d)", width), width >= 0, x + pad, [&] { return a->PadRight(width, (Char)ch); });
	for (auto& q : pad) q = L' ';
	expect(c, w, "PadLeft(default)", width >= 0, pad + x, [&] { return a->PadLeft(width); });
	expect(c, w, "PadRight(default)", width >= 0, x + pad, [&] { return a->PadRight(width); });
	expect(c, w, "Trim", true, trim(x, kWhite, true, true), [&] { return a->Trim(); });
	Array* set = charArray(z);
	W eff = z.empty() ? W(kWhite) : z;
	expect(c, w, "Trim(set)", true, trim(x, eff, true, true), [&] { return a->Trim(set); });
	expect(c, w, "TrimStart(set)", true, trim(x, eff, true, false), [&] { return a->TrimStart(set); });
	expect(c, w, "TrimEnd(set)", true, trim(x, eff, false, true), [&] { return a->TrimEnd(set); });
	for (size_t j = 0; j < z.size(); j++) CHECK(*(Char*)set->Address((Int32)j) == z[j], "trim changed its character set", "Trim");
	delete set;
	expect(c, w, "TrimStart(null)", true, trim(x, kWhite, true, false), [&] { return a->TrimStart(nullptr); });
	expect(c, w, "TrimEnd(null)", true, trim(x, kWhite, false, true), [&] { return a->TrimEnd(nullptr); });
	expect(c, w, "ToLower", true, low(x), [&] { return a->ToLower(); });
	expect(c, w, "ToUpper", true, up(x), [&] { return a->ToUpper(); });
	expect(c, w, "ToLowerInvariant", true, low(x), [&] { return a->ToLowerInvariant(); });
	expect(c, w, "ToUpperInvariant", true, up(x), [&] { return a->ToUpperInvariant(); });
	expect(c, w, "Copy", true, x, [&] { return String::Copy(a); });
	expect(c, w, "ToString", true, x, [&] { return a->ToString(); });
	CHECK((bool)String::IsNullOrEmpty(a) == x.empty(), "IsNullOrEmpty", "wrong answer");
	CHECK((bool)String::IsNullOrWhiteSpace(a) == trim(x, kWhite, true, false).empty(), "IsNullOrWhiteSpace", "wrong answer");
	int bad = w.changed();
	CHECK(bad < 0, "text changed after it was made", "string %d", bad);
	c.event("strings watched", w.items.size());
	for (size_t j = 3; j < w.items.size(); j++) {  // results: release the ones that are new objects
		String* s = w.items[j].s;
		bool dup = s == String::Empty;
		for (size_t q = 0; q < j; q++) if (w.items[q].s == s) dup = true;
		if (!dup) w.items[j].w.clear(); else w.items[j].s = nullptr;
	}
	for (size_t j = 3; j < w.items.size(); j++) if (w.items[j].s) delete w.items[j].s;
	for (auto* s : own) drop(s);
}

SECTION(random, 8, 16) {
	uint64_t n = c.n(40000, 600000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		W x = text(r), y, z;
		switch (r.below(4)) {
		case 0: y = smallText(r, 3); break;
		case 1: y = x.empty() ? L"a" : x.substr(r.below(x.size()), 1 + r.below(3)); break;
		case 2: y = text(r); break;
		default: y = W(1 + r.below(2), L'a');
		}
		switch (r.below(3)) {
		case 0: z = smallText(r, 3); break;
		case 1: z = x.empty() ? L"" : W(1, x[r.below(x.size())]) + x[0] + x[x.size() - 1]; break;
		default: z = smallText(r, 140, L"bc");
		}
		if (r.chance(1, 100)) {
			x = longText(r);
			if (r.chance(1, 3)) y = longText(r, 5000);
			if (r.chance(1, 3) && !x.empty()) { y = x.substr(r.below(x.size()), bigSize(r, 300)); if (y.empty()) y = L"a"; }
			if (r.chance(1, 3)) z = longText(r, 300);
			if (x.size() > 5000 && z.size() > 20) z.resize(20);
		}
		if (r.chance(1, 30)) {  // a large set of characters to trim, the ones that matter anywhere in it
			W set;
			int k = (int)r.range(5, 200);
			for (int i = 0; i < k; i++) set += (wchar_t)(0x400 + i);
			W core = x.substr(0, 20);
			z = set;
			if (!core.empty()) { z[r.below(k)] = core[0]; z[r.chance(1, 2) ? k - 1 : r.below(k)] = core[core.size() - 1]; }
			x = set.substr(r.below(k), 1 + r.below(40)) + x + set.substr(r.below(k), 1 + r.below(40));
		}
		if (r.chance(1, 12)) {  // a middling set
			int k = r.chance(1, 2) ? (int)r.range(8, 40) : std::max(1, oddLength(r));
			z = L"";
			for (int i = 0; i < k; i++) z += r.chance(1, 3) ? (wchar_t)kWhite[r.below(21)] : anyChar(r);
			if (!x.empty()) { z[r.chance(1, 2) ? k - 1 : r.below(k)] = x[0]; z[r.chance(1, 2) ? k - 1 : r.below(k)] = x[x.size() - 1]; }
		}
		if (r.chance(1, 40)) { int q = (int)r.below(4); if (q != 1) y = x; if (q) z = q == 1 ? y : x; if (x.size() > 200 && !z.empty()) z = z.substr(0, 200); }
		if (r.chance(1, 60)) { W ws; int k = bigSize(r, 3000); while (k--) ws += kWhite[r.below(21)]; x = r.chance(1, 2) ? ws + x : x + ws; }
		if (r.chance(1, 6)) { W ws; int k = (int)r.range(1, 4); while (k--) ws += kWhite[r.below(21)]; x = ws + x + ws; }
		c.begin(!x.empty(), "edit \"%s\" with \"%s\" and \"%s\"", Q(x), Q(y), Q(z));
		Rng same = r;
		edits(c, r, x, y, z);
		if (x.size() < 200 && r.chance(1, 6)) for (int again = 0; again < 3; again++) {  // the same edits of a text that changed a little
			W& t = again == 1 ? y : x;
			t = altered(r, t);
			c.begin(!x.empty(), "edit again \"%s\" with \"%s\" and \"%s\"", Q(x), Q(y), Q(z));
			Rng copy = same;
			edits(c, copy, x, y, z);
			c.event("edits repeated over changed text");
		}
	}
}

// every code point of the BMP (and some beyond) as the whole text: trimming, white space and case
SECTION(codepoints, 4, 8) {
	W white(kWhite);
	for (int cp = 1; cp < 0x11000; cp++) {
		if (!c.mine(cp)) continue;
		if (!c.thorough && cp > 0x3100 && cp < 0xFE00 && cp % 16) continue;
		c.bulk("code point alone", cp);
		W x(1, (wchar_t)cp);
		String* a = mk(x);
		bool ws = white.find((wchar_t)cp) != W::npos;
		String *t = a->Trim(), *l = a->ToLower(), *u = a->ToUpper();
		CHECK(t->get_Length() == (ws ? 0 : 1), "Trim", "U+%x trimmed to length %d", cp, (int)t->get_Length());
		CHECK((bool)String::IsNullOrWhiteSpace(a) == ws, "IsNullOrWhiteSpace", "U+%x", cp);
		CHECK(str(l) == low(x) && str(u) == up(x), "case conversion", "U+%x became U+%x / U+%x", cp, (int)str(l)[0], (int)str(u)[0]);
		if (ws) c.event("white space characters");
		delete t;
		delete l;
		delete u;
		delete a;
	}
}

SECTION(joins, 8, 8) {
	uint64_t n = c.n(20000, 400000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		Watch w;
		int cnt = r.chance(1, 40) ? bigSize(r, r.chance(1, 8) ? 40000 : 1500) : r.chance(1, 6) ? (int)r.range(10, 70) : r.chance(1, 12) ? oddLength(r) : (int)r.range(0, 9);
		bool longOne = cnt < 10 && r.chance(1, 60);
		bool objs = r.chance(1, 2);
		int repeat = r.chance(1, 2) ? 2 : 12;  // the same object more than once
		std::vector<Object*> items;
		std::vector<W> texts;
		for (int i = 0; i < cnt; i++) {
			if (i && r.chance(1, repeat)) { int q = r.chance(1, 2) ? 0 : (int)r.below(i); items.push_back(items[q]); texts.push_back(texts[q]); }
			else if (r.chance(1, 6)) { items.push_back(nullptr); texts.push_back(L""); }
			else if (objs && r.chance(1, 4)) { int32_t v = interesting32(r); items.push_back(new Int32Value(v)); texts.push_back(wide(dec(v))); }
			else if (objs && r.chance(1, 8)) { bool v = r.chance(1, 2); items.push_back(new BooleanValue(v)); texts.push_back(v ? L"True" : L"False"); }
			else if (objs && r.chance(1, 8)) { wchar_t v = anyChar(r); items.push_back(new CharValue((Char)v)); texts.push_back(W(1, v)); }
			else if (objs && r.chance(1, 8)) {  // other boxes show what their own ToString says, which the checks of those types decide
				Object* o;
				uint64_t bits = (uint64_t)interesting64(r);
				switch (r.below(9)) {
				case 0: o = new ByteValue((Byte)bits); break;
				case 1: o = new SByteValue((SByte)bits); break;
				case 2: o = new Int16Value((Int16)bits); break;
				case 3: o = new UInt16Value((UInt16)bits); break;
				case 4: o = new UInt32Value((UInt32)bits); break;
				case 5: o = new UInt64Value((UInt64)bits); break;
				case 6: o = new Int64Value((Int64)bits); break;
				case 7: o = new DoubleValue(freshD(r)); break;
				default: o = new SingleValue((float)freshD(r)); break;
				}
				String* shown = o->ToString();
				items.push_back(o);
				texts.push_back(str(shown));
				delete shown;
			}
			else if (objs && r.chance(1, 8)) { W t = text(r); if (cnt > 10) t.resize(std::min<size_t>(t.size(), 3)); StringBuilder* sb = new StringBuilder(); for (wchar_t ch : t) sb->Append((Char)ch); items.push_back(sb); texts.push_back(t); }
			else { W t = longOne ? longText(r) : cnt < 10 && r.chance(1, 4) ? text(r) : smallText(r, 4); items.push_back(w.add(t)); texts.push_back(t); }
		}
		Array* arr = new Array(objs ? ObjectType : StringType, cnt);
		for (int i = 0; i < cnt; i++) *(Object**)arr->Address(i) = items[i];
		W sep = cnt < 10 && r.chance(1, 5) ? text(r) : smallText(r, 2, L",;");
		if (cnt < 10 && r.chance(1, 80)) sep = longText(r, 20000);
		bool nullSep = r.chance(1, 10);
		String* s = w.add(sep);
		int st = r.chance(2, 3) ? (int)r.range(0, cnt) : pos(r, cnt), k = r.chance(2, 3) ? (int)r.range(0, std::max(0, cnt - std::max(0, std::min(st, cnt)))) : pos(r, cnt);
		W all;
		for (auto& t : texts) if (all.size() < 1500) all += t + L"|";
		c.begin(cnt > 0, "join %s of \"%s\" with \"%s\"%s, range %d %d", objs ? "objects" : "strings", Q(all), Q(sep), nullSep ? " (null)" : "", st, k);
		auto join = [&](const W& sp, int a, int m) { W o; for (int i = a; i < a + m; i++) { if (i > a) o += sp; o += texts[i]; } return o; };
		W sp = nullSep ? W() : sep;
		String* sArg = nullSep ? nullptr : s;
		if (!nullSep && !objs && cnt && items[0] && cnt < 10 && r.chance(1, 6)) { sArg = (String*)items[0]; sp = texts[0]; }  // the separator is one of the texts
		expect(c, w, "Join(text)", true, join(sp, 0, cnt), [&] { return String::Join(sArg, arr); });
		wchar_t ch = anyChar(r);
		expect(c, w, "Join(char)", true, join(W(1, ch), 0, cnt), [&] { return String::Join((Char)ch, arr); });
		if (cnt > 0) {
			bool sOk = st >= 0 && st <= cnt, rg = inRange(st, k, cnt);
			expect(c, w, "Join(text,start)", sOk, sOk ? join(sp, st, cnt - st) : W(), [&] { return String::Join(sArg, arr, st); });
			if (k >= 0) {
				expect(c, w, "Join(text,start,count)", rg, rg ? join(sp, st, k) : W(), [&] { return String::Join(sArg, arr, st, k); });
				expect(c, w, "Join(char,start,count)", rg, rg ? join(W(1, ch), st, k) : W(), [&] { return String::Join((Char)ch, arr, st, k); });
			}
		}
		expect(c, w, "Concat(array)", true, join(W(), 0, cnt), [&] { return String::Concat(arr); });
		auto g = [&](int i) { return i < cnt ? items[i] : nullptr; };
		int m = std::min(cnt, 7);
		expect(c, w, "Concat(7)", true, join(W(), 0, m), [&] { return String::Concat(g(0), g(1), g(2), g(3), g(4), g(5), g(6)); });
		if (cnt >= 3) expect(c, w, "Concat(3)", true, join(W(), 0, 3), [&] { return String::Concat(g(0), g(1), g(2)); });
		if (cnt >= 4) expect(c, w, "Concat(4)", true, join(W(), 0, 4), [&] { return String::Concat(g(0), g(1), g(2), g(3)); });
		if (cnt >= 5) expect(c, w, "Concat(5)", true, join(W(), 0, 5), [&] { return String::Concat(g(0), g(1), g(2), g(3), g(4)); });
		if (cnt >= 6) expect(c, w, "Concat(6)", true, join(W(), 0, 6), [&] { return String::Concat(g(0), g(1), g(2), g(3), g(4), g(5)); });
		if (cnt >= 2) expect(c, w, "Concat(2)", true, join(W(), 0, 2), [&] { return String::Concat(g(0), g(1)); });
		for (int i = 0; i < cnt; i++) CHECK(*(Object**)arr->Address(i) == items[i], "join changed its array", "element %d", i);
		int bad = w.changed();
		CHECK(bad < 0, "text changed after it was made", "string %d", bad);
		c.event("strings watched", w.items.size());
		delete arr;
	}
	String s(L"abc");
	String* none = nullptr;
	Array* na = nullptr;
	Array ints(Int32Type, 2), two(StringType, 2, 2);
	c.begin(true, "transform with null");
	CHECK(isErr(run([&] { s.Insert(0, none); })) && isErr(run([&] { s.Replace(none, &s); })) && isErr(run([&] { String::Copy(none); })), "null text accepted", "edits");
	CHECK(isErr(run([&] { String::Concat(na); })) && isErr(run([&] { String::Join(&s, na); })) && isErr(run([&] { String::Join((Char)L',', na); })) && isErr(run([&] { s.CopyTo(0, na, 0, 1); })), "null array accepted", "edits");
	CHECK(isErr(run([&] { String::Concat(&ints); })) && isErr(run([&] { String::Join(&s, &ints); })) && isErr(run([&] { String::Join((Char)L',', &ints); })) && isErr(run([&] { s.CopyTo(0, &ints, 0, 1); })) && isErr(run([&] { s.Trim(&ints); })) &&
		isErr(run([&] { s.TrimStart(&ints); })) && isErr(run([&] { s.TrimEnd(&ints); })), "array of the wrong type accepted", "edits");
	CHECK(isErr(run([&] { String::Concat(&two); })) && isErr(run([&] { String::Join(&s, &two); })), "multi-dimensional array accepted", "edits");
	CHECK(String::IsNullOrEmpty(nullptr) && String::IsNullOrWhiteSpace(nullptr), "null is null or empty", "null");
}
// many equal texts: every count in turn, so that any size of the result or number of parts that is special is met
SECTION(uniform, 4, 8) {
	uint64_t idx = 0;
	int top = c.thorough ? 2600 : 530;
	std::vector<int> counts;
	for (int i = 0; i <= top; i++) counts.push_back(i);
	for (int p = 1024; p <= 16384; p *= 2) for (int d = -1; d <= 1; d++) counts.push_back(p + d);
	static const wchar_t* kItems[] = {nullptr, L"", L"a", L"bc", L"def"};
	static const wchar_t* kSeps[] = {nullptr, L"", L",", L"; "};
	for (int cnt : counts)
		for (auto it : kItems) {
			if (!c.mine(idx++)) continue;
			Watch w;
			W text = it ? it : L"";
			Object* o = it ? w.add(text) : nullptr;
			Array arr(StringType, cnt);
			for (int i = 0; i < cnt; i++) *(Object**)arr.Address(i) = o;
			auto join = [&](const W& sp, int m) { W r; for (int i = 0; i < m; i++) { if (i) r += sp; r += text; } return r; };
			c.begin(true, "%d times \"%s\"", cnt, Q(text));
			for (auto sep : kSeps) {
				String* s = sep ? w.add(sep) : nullptr;
				expect(c, w, "Join(text)", true, join(sep ? sep : L"", cnt), [&] { return String::Join(s, &arr); });
			}
			expect(c, w, "Join(char)", true, join(L"+", cnt), [&] { return String::Join((Char)L'+', &arr); });
			int k = cnt / 3;
			if (cnt) expect(c, w, "Join(char,start,count)", true, join(L"+", k), [&] { return String::Join((Char)L'+', &arr, cnt - k, k); });
			expect(c, w, "Concat(array)", true, join(W(), cnt), [&] { return String::Concat(&arr); });
			// the text made of them, changed back
			String* whole = w.add(join(L"+", cnt));
			String *plus = w.add(L"+"), *none = w.add(L""), *more = w.add(L"<>");
			W packed = join(W(), cnt), wide = join(L"<>", cnt);
			expect(c, w, "Replace", true, packed, [&] { return whole->Replace(plus, none); });
			expect(c, w, "Replace", true, wide, [&] { return whole->Replace(plus, more); });
			expect(c, w, "Replace(char)", true, join(L"-", cnt), [&] { return whole->Replace((Char)L'+', (Char)L'-'); });
			int bad = w.changed();
			CHECK(bad < 0, "text changed after it was made", "string %d", bad);
			c.event("uniform lists");
		}
}
// all operations of strings in any order: the answers of this property do not depend on what was asked before
SECTION(sequences, 4, 8) { texts::histories(c, texts::MAKE, c.n(60000, 4000000)); }
