// C10: any history of builder operations gives the text a plain sequence model gives; failures leave the builder as it was;
// length <= capacity <= maximum capacity always.
#include "text.h"

struct Model {
	StringBuilder* sb;
	W w;
	int64_t maxCap;
};

static W formatted(ValueType& v) {
	Char b[200];
	Int32 n = v.FormatString(b, 200);
	return W(b, b + n);
}

static bool state(Ctx& c, const Model& m, const char* op) {
	StringBuilder* sb = m.sb;
	int len = sb->get_Length(), cap = sb->get_Capacity(), mx = sb->get_MaxCapacity();
	bool good = true;
	if (len != (int)m.w.size()) { c.fail("wrong length", "after %s: %d expected %d", op, len, (int)m.w.size()); good = false; }
	if (!(len <= cap && cap <= mx)) { c.fail("length <= capacity <= maximum broken", "after %s: %d %d %d", op, len, cap, mx); good = false; }
	if (mx != m.maxCap) { c.fail("maximum capacity changed", "after %s: %d", op, mx); good = false; }
	if (!good) return false;
	Char* b = sb->get_Buffer();
	for (int i = 0; i < len; i++)
		if (b[i] != m.w[i]) { c.fail("wrong text", "after %s: \"%s\" expected \"%s\"", op, Q(W(b, b + len)), Q(m.w)); return false; }
	c.event("states compared");
	return true;
}

struct Hist {
	std::vector<std::string> ops;
	std::string text() const {
		std::string s;
		for (auto& o : ops) s += o + "; ";
		return s.size() > 7000 ? "..." + s.substr(s.size() - 7000) : s;
	}
};

static bool gLarge = false;  // long texts and large sizes
static int someLength(Rng& r) { return gLarge && r.chance(1, 3) ? bigSize(r) : oddLength(r); }
static W piece(Rng& r) {
	if (gLarge && r.chance(1, 3)) return longText(r);
	switch (r.below(6)) {
	case 0: return W();
	case 1: return text(r);
	case 2: return W(oddLength(r), (wchar_t)(L'p' + r.below(3)));
	default: return smallText(r, 6);
	}
}

static bool step(Ctx& c, Rng& r, Model& m, Hist& hist, Watch& watch) {
	StringBuilder* sb = m.sb;
	const int len = (int)m.w.size();
	char d[1200];
	d[0] = 0;
	W want = m.w;
	bool ok = true;          // must succeed with `want`; otherwise must be refused and change nothing
	bool either = false;     // outcome of refusal is not fixed, the text is
	Ex e = NOEX;
	StringBuilder* back = sb;
	int op = (int)r.below(30);
	if (gLarge && len > 2000 && r.chance(1, 15)) op = 24;
	auto cut = [&](const W& x) { return std::string(Q(x)).substr(0, 200); };
	auto insAt = [&](int at, const W& t) { ok = at >= 0 && at <= len; if (ok) want.insert(at, t); };
	switch (op) {
	case 0: case 1: {
		W p = piece(r);
		snprintf(d, sizeof d, "Append(\"%s\")", cut(p).c_str());
		want += p;
		String* s = watch.add(p);
		e = run([&] { back = sb->Append(s); });
		break;
	}
	case 2: {
		W p = piece(r);
		int s0 = pos(r, (int)p.size()), k = r.chance(1, 4) ? pos(r, (int)p.size()) : inside(r, (int)p.size());
		if (k < 0) k = 0;
		snprintf(d, sizeof d, "Append(\"%s\",%d,%d)", cut(p).c_str(), s0, k);
		ok = inRange(s0, k, p.size());
		if (ok) want += p.substr(s0, k);
		String* s = watch.add(p);
		e = run([&] { back = sb->Append(s, s0, k); });
		break;
	}
	case 3: {
		W p = piece(r);
		snprintf(d, sizeof d, "Append(chars \"%s\")", cut(p).c_str());
		want += p;
		wchar_t* src = (wchar_t*)malloc(p.size() * sizeof(wchar_t) + 1);
		memcpy(src, p.data(), p.size() * sizeof(wchar_t));
		e = run([&] { back = sb->Append((const Char*)src, (Int32)p.size()); });
		free(src);
		break;
	}
	case 4: {
		W p = piece(r);
		int at = pos(r, len);
		if (at == -1) at = -2;
		snprintf(d, sizeof d, "Append(chars \"%s\",at %d)", cut(p).c_str(), at);
		insAt(at, p);
		e = run([&] { back = sb->Append((const Char*)p.c_str(), (Int32)p.size(), at); });
		break;
	}
	case 5: {
		W p = piece(r);
		Array* a = charArray(p);
		int s0 = inside(r, (int)p.size() + 1), k = r.chance(1, 4) ? (int)r.range(0, p.size() + 2) : inside(r, (int)p.size());
		if (r.chance(1, 3)) { s0 = -1; k = -1; }
		snprintf(d, sizeof d, "Append(array \"%s\",%d,%d)", cut(p).c_str(), s0, k);
		ok = s0 < 0 || k == 0 || inRange(s0, k, p.size());
		if (s0 < 0) want += p; else if (ok && k) want += p.substr(s0, k);
		if (k == 0 && s0 > (int)p.size()) either = true;
		e = run([&] { back = s0 < 0 ? sb->Append(a) : sb->Append(a, s0, k); });
		for (size_t i = 0; i < p.size(); i++) CHECK(*(Char*)a->Address((Int32)i) == p[i], "append changed its source", "array");
		delete a;
		break;
	}
	case 6: {
		wchar_t ch = anyChar(r);
		int k = r.chance(1, 8) ? -(int)r.range(1, 9) : someLength(r);
		snprintf(d, sizeof d, "Append(U+%x,%d)", (unsigned)ch, k);
		ok = k >= 0;
		if (ok) want += W(k, ch);
		e = run([&] { back = sb->Append((Char)ch, k); });
		break;
	}
	case 7: case 8: case 9: {  // values
		int64_t v = interesting64(r);
		int kind = (int)r.below(12), at = pos(r, len);
		bool ins = r.chance(1, 2);
		W t;
		switch (kind) {
		case 0: t = (v & 1) ? L"True" : L"False"; e = run([&] { back = ins ? sb->Insert(at, (Boolean)(v & 1)) : sb->Append((Boolean)(v & 1)); }); break;
		case 1: t = wide(dec((Byte)v)); e = run([&] { back = ins ? sb->Insert(at, (Byte)v) : sb->Append((Byte)v); }); break;
		case 2: { Char ch = anyChar(r); t = W(1, ch); e = run([&] { back = ins ? sb->Insert(at, ch) : sb->Append(ch); }); break; }
		case 3: t = wide(dec((Int16)v)); e = run([&] { back = ins ? sb->Insert(at, (Int16)v) : sb->Append((Int16)v); }); break;
		case 4: t = wide(dec((Int32)v)); e = run([&] { back = ins ? sb->Insert(at, (Int32)v) : sb->Append((Int32)v); }); break;
		case 5: t = wide(dec(v)); e = run([&] { back = ins ? sb->Insert(at, (Int64)v) : sb->Append((Int64)v); }); break;
		case 6: t = wide(dec((SByte)v)); e = run([&] { back = ins ? sb->Insert(at, (SByte)v) : sb->Append((SByte)v); }); break;
		case 7: t = wide(dec((UInt16)v)); e = run([&] { back = ins ? sb->Insert(at, (UInt16)v) : sb->Append((UInt16)v); }); break;
		case 8: t = wide(dec((UInt32)v)); e = run([&] { back = ins ? sb->Insert(at, (UInt32)v) : sb->Append((UInt32)v); }); break;
		case 9: t = wide(dec((UInt64)v)); e = run([&] { back = ins ? sb->Insert(at, (UInt64)v) : sb->Append((UInt64)v); }); break;
		case 10: { Double x = interestingD(r); DoubleValue dv(x); t = formatted(dv); e = run([&] { back = ins ? sb->Insert(at, x) : sb->Append(x); }); break; }
		default: { Single x = interestingF(r); SingleValue dv(x); t = formatted(dv); e = run([&] { back = ins ? sb->Insert(at, x) : sb->Append(x); }); break; }
		}
		if (ins) insAt(at, t); else want += t;
		snprintf(d, sizeof d, "%s(value kind %d \"%s\" at %d)", ins ? "Insert" : "Append", kind, cut(t).c_str(), at);
		break;
	}
	case 10: {
		Object* o = nullptr;
		W t;
		StringBuilder* tmp = nullptr;
		switch (r.below(6)) {
		case 4: o = sb; t = m.w; c.event("builder given itself"); break;
		case 5: t = piece(r); o = tmp = new StringBuilder(watch.add(t)); break;
		case 0: t = piece(r); o = watch.add(t); break;
		case 1: { int v = interesting32(r); o = new Int32Value(v); t = wide(dec(v)); break; }
		case 2: { o = new BooleanValue(true); t = L"True"; break; }
		default: break;
		}
		bool ins = r.chance(1, 2);
		int at = pos(r, len);
		snprintf(d, sizeof d, "%s(object \"%s\" at %d)", ins ? "Insert" : "Append", cut(t).c_str(), at);
		if (ins) insAt(at, t); else want += t;
		e = run([&] { back = ins ? sb->Insert(at, o) : sb->Append(o); });
		delete tmp;
		break;
	}
	case 11: case 12: {
		W p = piece(r);
		int at = pos(r, len), k = r.chance(1, 6) ? -(int)r.range(1, 4) : (int)r.range(0, 5);
		if (gLarge && p.size() < 20 && r.chance(1, 4)) k = bigSize(r, 5000);
		if (r.chance(1, 2)) k = 1;
		snprintf(d, sizeof d, "Insert(%d,\"%s\",%d)", at, cut(p).c_str(), k);
		ok = at >= 0 && at <= len && k >= 0;
		W t;
		for (int i = 0; i < k; i++) t += p;
		if (ok) want.insert(at, t);
		String* s = watch.add(p);
		e = run([&] { back = k == 1 ? sb->Insert(at, s) : sb->Insert(at, s, k); });
		break;
	}
	case 13: {
		W p = piece(r);
		Array* a = charArray(p);
		int at = pos(r, len), s0 = inside(r, (int)p.size() + 1), k = r.chance(1, 4) ? (int)r.range(0, p.size() + 2) : inside(r, (int)p.size());
		if (r.chance(1, 3)) { s0 = -1; k = -1; }
		snprintf(d, sizeof d, "Insert(%d,array \"%s\",%d,%d)", at, cut(p).c_str(), s0, k);
		W t = s0 < 0 ? p : inRange(s0, k, p.size()) ? p.substr(s0, k) : W();
		bool argOk = s0 < 0 || inRange(s0, k, p.size());
		ok = argOk && at >= 0 && at <= len;
		if (!ok && t.empty()) either = true;  // nothing to insert
		if (ok) want.insert(at, t);
		e = run([&] { back = s0 < 0 ? sb->Insert(at, a) : sb->Insert(at, a, s0, k); });
		delete a;
		break;
	}
	case 14: case 15: case 16: {
		int s0 = pos(r, len), k = r.chance(1, 4) ? pos(r, len) : inside(r, std::max(0, len - std::max(0, std::min(s0, len))));
		snprintf(d, sizeof d, "Remove(%d,%d)", s0, k);
		ok = inRange(s0, k, len);
		if (ok) want.erase(s0, k);
		e = run([&] { back = sb->Remove(s0, k); });
		break;
	}
	case 17: {
		wchar_t a = len ? m.w[r.below(len)] : L'a', b = anyChar(r);
		bool ranged = r.chance(1, 2);
		int s0 = pos(r, len), k = r.chance(1, 4) ? pos(r, len) : inside(r, std::max(0, len - std::max(0, std::min(s0, len))));
		snprintf(d, sizeof d, "Replace(U+%x,U+%x%s %d,%d)", (unsigned)a, (unsigned)b, ranged ? "," : " all", s0, k);
		ok = !ranged || inRange(s0, k, len);
		if (!ranged) { s0 = 0; k = len; }
		if (ok) for (int i = s0; i < s0 + k; i++) if (want[i] == a) want[i] = b;
		e = run([&] { back = ranged ? sb->Replace((Char)a, (Char)b, s0, k) : sb->Replace((Char)a, (Char)b); });
		break;
	}
	case 18: case 19: case 20: {
		W f = r.chance(1, 12) ? W() : len && r.chance(1, 2) ? m.w.substr(r.below(len), 1 + r.below(3)) : smallText(r, 3);
		if (gLarge && len && r.chance(1, 4)) f = m.w.substr(r.below(len), bigSize(r, 3000));
		if (f.size() > 1 && r.chance(1, 3)) { int q = (int)r.below(f.size()); f[q] = (wchar_t)(f[q] ^ 1); }  // nearly there
		else if (m.w.find(L'\0') < m.w.size() && r.chance(1, 2)) {  // around a NUL, there or nearly so
			size_t p0 = m.w.find(L'\0', r.below(len));
			if (p0 == W::npos) p0 = m.w.find(L'\0');
			size_t b0 = p0 - std::min<size_t>(p0, r.below(4));
			f = m.w.substr(b0, p0 - b0 + 1 + r.below(4));
			if (r.chance(1, 2)) f.back() = (wchar_t)(f.back() ^ 1);
		}
		W t = r.chance(1, 6) ? piece(r) : smallText(r, 4, L"abc");
		bool ranged = r.chance(1, 2), null = r.chance(1, 10);
		if (null) t.clear();
		if (gLarge && t.size() > 30 && f.size() < 4) t.resize(30);  // keep the result within reach
		int s0 = r.chance(2, 3) ? inside(r, len) : pos(r, len), k = r.chance(1, 4) ? pos(r, len) : inside(r, std::max(0, len - std::max(0, std::min(s0, len))));
		snprintf(d, sizeof d, "Replace(\"%s\",%s\"%s\"%s %d,%d)", cut(f).c_str(), null ? "null" : "", cut(t).c_str(), ranged ? "," : " all", s0, k);
		ok = !f.empty() && (!ranged || inRange(s0, k, len));
		if (!ranged) { s0 = 0; k = len; }
		if (ok) {
			W out = m.w.substr(0, s0);
			int i = s0;
			while (i < s0 + k) {
				if (i + (int)f.size() <= s0 + k && m.w.compare(i, f.size(), f) == 0) { out += t; i += (int)f.size(); c.event("substring replacements"); }
				else out += m.w[i++];
			}
			want = out + m.w.substr(s0 + k);
		}
		String *fs = watch.add(f), *ts = null ? nullptr : watch.add(t);
		e = run([&] { back = ranged ? sb->Replace(fs, ts, s0, k) : sb->Replace(fs, ts); });
		break;
	}
	case 21: {
		int nl = r.chance(1, 2) ? pos(r, len) : someLength(r);
		if (nl > (gLarge ? 200000 : 5000) && m.maxCap > 5000) nl = gLarge ? 200000 : 5000;
		snprintf(d, sizeof d, "Length=%d", nl);
		ok = nl >= 0;
		if (ok && nl <= m.maxCap) want.resize(nl, L'\0');
		else ok = false;
		e = run([&] { sb->set_Length(nl); });
		break;
	}
	case 22: {
		int cp = r.chance(1, 2) ? len + (int)r.range(-3, 300) : someLength(r);
		if (r.chance(1, 8)) cp = -(int)r.range(1, 5);
		int before = sb->get_Capacity();
		snprintf(d, sizeof d, "Capacity=%d", cp);
		ok = cp >= len && cp <= m.maxCap;
		if (ok && cp < before) either = true;  // giving memory back may be refused
		e = run([&] { sb->set_Capacity(cp); });
		if (ok && e == NOEX) CHECK(sb->get_Capacity() >= cp, "capacity smaller than asked for", "%d asked %d", sb->get_Capacity(), cp);
		if (e != NOEX) CHECK(sb->get_Capacity() == before, "capacity changed by a refused request", "%d was %d", sb->get_Capacity(), before);
		break;
	}
	case 23: {
		int cp = r.chance(1, 2) ? len + (int)r.range(-3, 300) : someLength(r), got = 0, before = sb->get_Capacity();
		if (r.chance(1, 8)) cp = -(int)r.range(1, 5);
		snprintf(d, sizeof d, "EnsureCapacity(%d)", cp);
		ok = cp >= 0 && cp <= m.maxCap;
		e = run([&] { got = sb->EnsureCapacity(cp); });
		if (ok && e == NOEX) CHECK(got >= cp && got == sb->get_Capacity() && got >= before, "capacity smaller than asked for", "%d asked %d had %d", got, cp, before);
		break;
	}
	case 24: {
		snprintf(d, sizeof d, "Clear()");
		if (r.chance(1, 2)) { snprintf(d, sizeof d, "AppendLine()"); want += L"\r\n"; e = run([&] { back = sb->AppendLine(); }); }
		else { want.clear(); e = run([&] { back = sb->Clear(); }); }
		break;
	}
	case 25: {
		W p = piece(r);
		bool null = r.chance(1, 6);
		snprintf(d, sizeof d, "AppendLine(%s)", null ? "null" : cut(p).c_str());
		if (!null) want += p;
		want += L"\r\n";
		String* s = null ? nullptr : watch.add(p);
		e = run([&] { back = sb->AppendLine(s); });
		break;
	}
	case 26: {
		int i = pos(r, len);
		wchar_t ch = anyChar(r);
		snprintf(d, sizeof d, "[%d]=U+%x", i, (unsigned)ch);
		ok = inRange(i, 1, len);
		if (ok) want[i] = ch;
		e = run([&] { sb->set_Chars(i, (Char)ch); });
		Char got = 0;
		Ex g = run([&] { got = sb->get_Chars(i); });
		if (ok) CHECK(g == NOEX && got == ch, "wrong character at index", "[%d]", i);
		else CHECK(g == IOOR && e == IOOR, "index outside the builder accepted", "[%d] of %d: %s %s", i, len, exName(g), exName(e));
		break;
	}
	case 27: {  // operands that are no operands
		String *none = nullptr, em(L"", 0, 0), *some = watch.add(smallText(r, 40));
		Array *na = nullptr, ints(Int32Type, 4), two(CharType, 2, 3);
		Object* no = nullptr;
		int i = pos(r, len), in = inside(r, len), k = r.chance(1, 2) ? (int)r.range(-2, 9) : pos(r, len);
		if (!k) k = 1;  // nothing of a wrong array is not pinned down
		snprintf(d, sizeof d, "null and wrong operands at %d/%d, count %d", i, in, k);
		Ex n[] = {run([&] { sb->Insert(i, &ints); }), run([&] { sb->Insert(i, &two); }), run([&] { sb->Insert(i, &ints, 0, k); }), run([&] { sb->Append(&ints); }), run([&] { sb->Append(&two); }), run([&] { sb->Append(&ints, 0, 1); }),
			run([&] { sb->Replace(none, some); }), run([&] { sb->Replace(&em, some); }), run([&] { sb->Replace(none, some, i, k); }), run([&] { sb->Replace(&em, some, i, k); }), run([&] { sb->Replace(none, none); })};
		for (size_t q = 0; q < sizeof n / sizeof *n; q++) CHECK(isErr(n[q]), "bad operand accepted", "form %d at %d, %d: %s", (int)q, i, k, exName(n[q]));
		e = run([&] { sb->Append(none); sb->Append(na); sb->Append(no); sb->Insert(in, none); sb->Insert(in, na); sb->Insert(in, no); sb->Append(&em); sb->Insert(in, &em); });
		c.event("bad operands refused");
		break;
	}
	case 28: {  // reading
		int s0 = pos(r, len), k = r.chance(1, 4) ? pos(r, len) : inside(r, std::max(0, len - std::max(0, std::min(s0, len))));
		snprintf(d, sizeof d, "ToString(%d,%d)", s0, k);
		String* s = nullptr;
		ok = inRange(s0, k, len);
		e = run([&] { s = sb->ToString(s0, k); });
		if (ok && e == NOEX) CHECK(s && str(s) == m.w.substr(s0, k), "wrong text", "ToString(%d,%d) gave \"%s\"", s0, k, Q(str(s)));
		if (s) { watch.keep(s); c.event("snapshots taken"); }
		break;
	}
	default: {
		snprintf(d, sizeof d, "ToString()");
		String* s = nullptr;
		e = run([&] { s = sb->ToString(); });
		if (e == NOEX) CHECK(s && str(s) == m.w, "wrong text", "ToString gave \"%s\" expected \"%s\"", Q(str(s)), Q(m.w));
		if (s) { watch.keep(s); c.event("snapshots taken"); }
		int size = len + (int)r.range(-3, 3);
		if (size > 0) {
			Char* b = (Char*)malloc(size * sizeof(Char));
			int got = -1;
			Ex g = run([&] { got = sb->FormatString(b, size); });
			if (size > len) CHECK(g == NOEX && got == len && W(b, b + len) == m.w && b[len] == 0, "wrong text", "FormatString(%d) gave %d %s", size, got, exName(g));
			else CHECK(isErr(g), "text placed in a buffer too small for it", "FormatString(%d) of %d", size, len);
			free(b);
		}
		break;
	}
	}
	if (ok && (int64_t)want.size() > m.maxCap) {
		ok = false;
		c.event("maximum capacity hits");
	}
	hist.ops.push_back(d);
	memcpy(page->desc, "builder history: ", 17);
	std::string t = hist.text();
	memcpy(page->desc + 17, t.c_str(), t.size() + 1);
	if (either) {
		CHECK(e == NOEX || isErr(e), "foreign exception", "%s", d);
		if (e == NOEX && ok) m.w = want;
	} else if (ok) {
		CHECK(e == NOEX, "valid operation refused", "%s raised %s", d, exName(e));
		CHECK(back == sb, "operation does not return its builder", "%s", d);
		m.w = want;
	} else {
		CHECK(isErr(e), "bad operation accepted", "%s", d);
		c.event("refused operations");
	}
	c.event("operations");
	return state(c, m, d);
}

static void history(Ctx& c, int steps, bool small) {
	Rng& r = c.rng;
	Hist hist;
	Watch watch;
	Model a{nullptr, L"", INT_MAX}, b{nullptr, L"", INT_MAX};
	c.begin(true, "builder history %llx", (unsigned long long)r.s);
	for (Model* m : {&a, &b}) {
		char d[200];
		int form = small ? 2 : (int)r.below(5);
		int cap = someLength(r), mx = r.chance(1, 2) ? someLength(r) : INT_MAX;
		if (small) mx = (int)r.range(1, 300);
		if (gLarge && !small && r.chance(1, 3)) { form = 2; mx = bigSize(r) + (r.chance(1, 2) ? bigSize(r) : 0); if (mx < 1) mx = 1; cap = (int)r.range(0, mx); }
		W init = piece(r);
		Ex e = NOEX;
		StringBuilder* sb = nullptr;
		bool ok = true;
		if (form == 0) { snprintf(d, sizeof d, "new()"); e = run([&] { sb = new StringBuilder(); }); }
		else if (form == 1) { if (r.chance(1, 8)) cap = -cap; ok = cap >= 0; snprintf(d, sizeof d, "new(%d)", cap); e = run([&] { sb = new StringBuilder(cap); }); }
		else if (form == 2) {
			if (small && r.chance(2, 3)) cap = (int)r.range(0, mx);
			ok = cap >= 0 && cap <= mx && mx >= 1;
			snprintf(d, sizeof d, "new(%d,%d)", cap, mx);
			e = run([&] { sb = new StringBuilder(cap, mx); });
			m->maxCap = mx;
		} else if (form == 3) {
			snprintf(d, sizeof d, "new(\"%s\",%d)", std::string(Q(init)).substr(0, 100).c_str(), cap);
			e = run([&] { sb = new StringBuilder(watch.add(init), cap); });
			m->w = init;
		} else {
			int s0 = pos(r, (int)init.size()), k = r.chance(1, 4) ? pos(r, (int)init.size()) : inside(r, (int)init.size());
			snprintf(d, sizeof d, "new(\"%s\",%d,%d,%d)", std::string(Q(init)).substr(0, 100).c_str(), s0, k, cap);
			ok = inRange(s0, k, init.size());
			e = run([&] { sb = new StringBuilder(watch.add(init), s0, k, cap); });
			if (ok) m->w = init.substr(s0, k);
		}
		hist.ops.push_back(d);
		std::string t = hist.text();
		snprintf(page->desc, sizeof page->desc, "builder history: %s", t.c_str());
		if (ok) {
			CHECK(e == NOEX && sb, "valid construction refused", "%s raised %s", d, exName(e));
			if (sb && (form == 1 || form == 2 || form == 3 || form == 4)) CHECK(sb->get_Capacity() >= cap, "capacity smaller than asked for", "%s has %d", d, sb->get_Capacity());
		} else
			CHECK(isErr(e), "bad construction accepted", "%s", d);
		if (!sb) { m->w.clear(); m->maxCap = INT_MAX; sb = new StringBuilder(); }
		m->sb = sb;
		if (!state(c, *m, d)) return;
	}
	for (int i = 0; i < steps; i++) {
		bool first = r.chance(2, 3);
		hist.ops.push_back(first ? "A:" : "B:");
		if (!step(c, r, first ? a : b, hist, watch)) return;
		if (!state(c, first ? b : a, "an operation on another builder")) return;
		bool same = a.w == b.w;
		if (!same) CHECK(!a.sb->Equals(b.sb), "builders with different text are equal", "Equals");
		if (r.chance(1, 4)) {
			int ch = watch.changed();
			CHECK(ch < 0, "string changed by builder operations", "string %d", ch);
			if (ch >= 0) return;
		}
		size_t most = gLarge ? 400000 : 6000;
		if (a.w.size() > most || b.w.size() > most) break;
	}
	// a builder replaying the same text with the same capacities is equal
	StringBuilder *x = new StringBuilder(500), *y = new StringBuilder(500);
	W t = a.w.substr(0, 400);
	x->Append((const Char*)t.c_str(), (Int32)t.size());
	for (wchar_t ch : t) y->Append((Char)ch);
	CHECK(x->Equals(y) && y->Equals(x), "builders with the same text and capacities differ", "Equals");
	if (!t.empty()) { y->set_Chars((Int32)t.size() - 1, (Char)(t[t.size() - 1] + 1)); CHECK(!x->Equals(y), "builders with different text are equal", "Equals"); }
	CHECK(!x->Equals((StringBuilder*)nullptr), "builder equals null", "Equals");
	delete x;
	delete y;
	int ch = watch.changed();
	CHECK(ch < 0, "string changed by builder operations", "string %d", ch);
	c.event("strings watched", watch.items.size());
	delete a.sb;
	delete b.sb;
	ch = watch.changed();
	CHECK(ch < 0, "string changed by builder operations", "destruction of the builder: string %d", ch);
	for (auto& it : watch.items) if (it.s != String::Empty) delete it.s;
}

SECTION(history, 8, 16) {
	uint64_t n = c.n(2400, 40000);
	for (uint64_t h = 0; h < n; h++) history(c, (int)c.rng.range(5, 60), false);
}
// builders with a small maximum capacity: the limit is hit constantly
SECTION(limited, 8, 16) {
	uint64_t n = c.n(2400, 40000);
	for (uint64_t h = 0; h < n; h++) history(c, (int)c.rng.range(5, 40), true);
	StringBuilder sb;
	String s(L"abc"), em(L"");
	String* none = nullptr;
	Array ints(Int32Type, 3), two(CharType, 2, 2);
	Array* na = nullptr;
	Object* no = nullptr;
	c.begin(true, "builder with null or wrong arrays");
	CHECK(run([&] { sb.Append(none); sb.Append(na); sb.Append(no); sb.Insert(0, none); sb.Insert(0, na); sb.Insert(0, no); }) == NOEX && sb.get_Length() == 0, "null operand changed the builder", "length %d", sb.get_Length());
	CHECK(isErr(run([&] { sb.Append(&ints); })) && isErr(run([&] { sb.Append(&two); })) && isErr(run([&] { sb.Insert(0, &ints); })) && isErr(run([&] { sb.Insert(0, &two); })) && sb.get_Length() == 0, "wrong array accepted", "Append/Insert");
	sb.Append(&s);
	CHECK(isErr(run([&] { sb.Replace(none, &s); })) && isErr(run([&] { sb.Replace(&em, &s); })) && str(sb.ToString()) == L"abc", "empty search text accepted", "Replace");
}

SECTION(large, 8, 16) {
	gLarge = true;
	uint64_t n = c.n(400, 8000);
	for (uint64_t h = 0; h < n; h++) history(c, (int)c.rng.range(5, 40), false);
	// replacements whose result would be longer than Int32 allows are refused and change nothing
	Rng& r = c.rng;
	n = c.n(48, 800);
	for (uint64_t h = 0; h < n; h++) {
		int have = (int)r.range(33000, 70000), fl = (int)r.range(1, 3);
		int64_t many = have / fl, need = (INT_MAX / many) + fl + (int)r.range(1, 40000);
		if (r.chance(1, 3)) need = ((int64_t)1 << 32) / many + fl + r.range(0, 2);
		bool ranged = r.chance(1, 2);
		W w(have, L'a'), f(fl, L'a'), t((size_t)need, L'b');
		c.begin(true, "replace %d x %d characters by %lld each%s", (int)many, fl, (long long)need, ranged ? " in a range" : "");
		String *ws = mk(w), *fs = mk(f), *ts = mk(t);
		StringBuilder sb(ws);
		Ex e = run([&] { if (ranged) sb.Replace(fs, ts, 0, have); else sb.Replace(fs, ts); });
		CHECK(isErr(e), "text longer than Int32 allows accepted", "%s", exName(e));
		CHECK(sb.get_Length() == have && W(sb.get_Buffer(), sb.get_Buffer() + sb.get_Length()) == w && sb.get_Length() <= sb.get_Capacity(), "refused operation changed the builder", "length %d", sb.get_Length());
		c.event("impossible lengths refused");
		Ex e2 = NOEX;
		int many32 = INT_MAX / (int)need + 1 + (int)r.range(0, 100);
		e2 = run([&] { sb.Insert(have, ts, many32); });
		CHECK(isErr(e2), "text longer than Int32 allows accepted", "Insert of %d x %lld: %s", many32, (long long)need, exName(e2));
		CHECK(sb.get_Length() == have && W(sb.get_Buffer(), sb.get_Buffer() + sb.get_Length()) == w, "refused operation changed the builder", "length %d", sb.get_Length());
		delete ws;
		delete fs;
		delete ts;
	}
}

// many repetitions at once, and builders that differ by a special number of characters
SECTION(counts, 4, 8) {
	static const int kMany[] = {0, 1, 2, 15, 16, 17, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 16384, 32766, 32767, 32768, 32769, 40000, 65535, 65536, 65537};
	static const int kMore[] = {1, 2, 127, 128, 255, 256, 257, 512, 1024, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 196608};
	static const int kBase[] = {0, 1, 5, 16, 255, 300, 32768, 65536};
	uint64_t idx = 0;
	for (int many : kMany)
		for (int len = 1; len <= 2; len++) {
			if (!c.mine(idx++)) continue;
			if (len == 2 && many > 20000 && !c.thorough) continue;
			c.begin(many > 0, "insert %d times a text of %d characters", many, len);
			W unit = len == 1 ? L"x" : L"yz", w = L"ab";
			String* t = mk(unit);
			StringBuilder sb;
			sb.Append(w.c_str(), 2);
			W all;
			for (int i = 0; i < many; i++) all += unit;
			Ex e = run([&] { sb.Insert(1, t, many); });
			CHECK(e == NOEX && W(sb.get_Buffer(), sb.get_Buffer() + sb.get_Length()) == L"a" + all + L"b", "wrong text in the builder", "Insert of %d times: %s, length %d", many, exName(e), sb.get_Length());
			StringBuilder ap;
			e = run([&] { ap.Append((Char)L'q', many); });
			CHECK(e == NOEX && W(ap.get_Buffer(), ap.get_Buffer() + ap.get_Length()) == W(many, L'q'), "wrong text in the builder", "Append of %d characters: %s, length %d", many, exName(e), ap.get_Length());
			delete t;
			c.event("repetitions", (uint64_t)many);
		}
	for (int base : kBase)
		for (int more : kMore) {
			if (!c.mine(idx++)) continue;
			c.begin(true, "builders of %d and %d characters", base, base + more);
			StringBuilder a(300000), b(300000), same(300000);
			for (int i = 0; i < base; i++) { Char ch = (Char)(L'a' + i % 26); a.Append(ch); b.Append(ch); same.Append(ch); }
			b.Append((Char)L'+', more);
			bool e1 = true, e2 = true, e3 = false;
			Ex e = run([&] { e1 = a.Equals(&b); e2 = b.Equals(&a); e3 = a.Equals(&same); });
			CHECK(e == NOEX && !e1 && !e2, "builders with different text are equal", "Equals: %d %d %s", (int)e1, (int)e2, exName(e));
			CHECK(e == NOEX && e3, "builders with the same text and capacities differ", "Equals: %s", exName(e));
			c.event("builders compared");
		}
}
// every character through every way into a builder
SECTION(everychar, 4, 8) {
	everyChar(c, "build with the character", [&](wchar_t ch) {
		StringBuilder sb;
		W w = L"ab";
		auto same = [&](const char* op) { String* s = sb.ToString(); CHECK(str(s) == w && sb.get_Length() == (Int32)w.size(), "wrong text", "%s of U+%x gave \"%s\" expected \"%s\"", op, (unsigned)ch, Q(str(s)), Q(w)); delete s; };
		sb.Append(L"ab", 2);
		sb.Append((Char)ch); w += ch; same("Append");
		int k = (int)c.rng.below(20);
		sb.Append((Char)ch, k); w += W(k, ch); same("Append repeated");
		sb.Insert(1, (Char)ch); w.insert(1, 1, ch); same("Insert");
		Array* arr = charArray(W(2, ch));
		sb.Append(arr); w += W(2, ch); same("Append array");
		sb.Insert(0, arr); w = W(2, ch) + w; same("Insert array");
		String* t = mk(L"-" + W(1, ch));
		sb.Append(t); w += L"-"; w += ch; same("Append text");
		sb.Insert(2, t); w.insert(2, L"-" + W(1, ch)); same("Insert text");
		sb.set_Chars(1, (Char)(ch ^ 0x100 ? ch ^ 0x100 : 7)); w[1] = (wchar_t)(ch ^ 0x100 ? ch ^ 0x100 : 7); same("set_Chars");
		CHECK(sb.get_Chars(0) == ch && sb.get_Chars(1) == w[1], "wrong character", "U+%x", (unsigned)ch);
		wchar_t to = anyChar(c.rng);
		int s = (int)c.rng.below(w.size()), n = (int)c.rng.below(w.size() - s + 1);
		for (int i = s; i < s + n; i++) if (w[i] == ch) w[i] = to;
		sb.Replace((Char)ch, (Char)to, s, n); same("Replace in a range");
		sb.Replace(t, (String*)nullptr);
		for (size_t p = 0; (p = w.find(str(t), p)) != W::npos;) w.erase(p, 2);
		same("Replace text");
		for (auto& q : w) if (q == L'a') q = ch;
		sb.Replace(L'a', (Char)ch); same("Replace by it");
		delete arr;
		delete t;
	});
}
