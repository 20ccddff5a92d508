// Random text and argument generators for the string and string builder checks.
#pragma once
#include "vf.h"

// few distinct characters so that matches, overlaps and near misses are frequent
inline W smallText(Rng& r, int maxLen, const wchar_t* alphabet = L"ab") {
	int n = (int)r.range(0, maxLen), k = (int)wcslen(alphabet);
	W w;
	for (int i = 0; i < n; i++) w += alphabet[r.below(k)];
	return w;
}
inline wchar_t anyChar(Rng& r) {
	static const wchar_t odd[] = {L' ', L'\t', L'\n', 0xA0, 0x2000, 0x200A, 0x200B, 0x3000, 0xFEFF, 0x7f, 0x80, 0xff, 0x100, 0x4e2d, 0xffff, 0x1F600, 0x10ffff, 1, 0, 0, L'%', L'-', L'0'};
	switch (r.below(16)) {
	case 0: case 1: case 2: case 3: return odd[r.below(sizeof odd / sizeof *odd)];
	case 4: case 5: case 6: return (wchar_t)r.range(0x4e00, 0x9fff);
	case 7: return (wchar_t)(r.range(32, 126) + (r.chance(1, 4) ? 0x10000 * (int)r.range(1, 15) : 0x100 * (int)r.range(1, 0x20)));  // an ASCII character once narrowed
	default: return (wchar_t)r.range(32, 126);
	}
}
inline W anyText(Rng& r, int maxLen) {
	int n = (int)r.range(0, maxLen);
	W w;
	for (int i = 0; i < n; i++) w += anyChar(r);
	return w;
}
// the character U+0001 of the alphabet becomes NUL, a character like any other
inline W nulText(Rng& r, int maxLen, const wchar_t* alphabet) {
	W w = smallText(r, maxLen, alphabet);
	for (auto& ch : w) if (ch == 1) ch = 0;
	return w;
}
inline W text(Rng& r) {
	switch (r.below(6)) {
	case 4: return nulText(r, 9, L"aA\x1");
	case 0: return anyText(r, 20);
	case 1: { W w; int n = oddLength(r); while ((int)w.size() < n) w += (wchar_t)(L'a' + r.below(3)); return w; }
	case 2: return smallText(r, 12, L"aAbB");
	case 3: return smallText(r, 10, L" \ta\x3000");
	default: return smallText(r, 12);
	}
}
// texts of up to max characters: one letter, few letters or anything, sometimes with a different beginning, middle or end
inline W longText(Rng& r, int max = 70000) {
	int n = bigSize(r, max);
	W w(n, L'a');
	switch (r.below(4)) {
	case 0: break;
	case 1: for (auto& ch : w) ch = (wchar_t)(L'a' + r.below(3)); break;
	case 2: for (int i = 0; i < n; i++) w[i] = (wchar_t)(L'a' + i % 26); break;
	default: for (auto& ch : w) ch = anyChar(r);
	}
	for (int k = (int)r.below(4); n && k > 0; k--) w[r.chance(1, 3) ? n - 1 : r.chance(1, 2) ? r.below(n) : 0] = anyChar(r);
	return w;
}
// an index argument: usually inside [0,len], sometimes just outside, sometimes extreme
inline int pos(Rng& r, int len) {
	switch (r.below(8)) {
	case 0: return interesting32(r);
	case 1: return len + (int)r.range(-1, 2);
	case 2: return (int)r.range(-2, 1);
	default: return inside(r, len);
	}
}
inline bool inRange(int64_t s, int64_t n, int64_t len) { return s >= 0 && n >= 0 && s + n <= len; }
inline Array* charArray(const W& w) {
	Array* a = new Array(CharType, (Int32)w.size());
	for (size_t i = 0; i < w.size(); i++) *(Char*)a->Address((Int32)i) = w[i];
	return a;
}
// Strings whose characters must not change while watched.
struct Watch {
	struct Item { String* s; W w; };
	std::vector<Item> items;
	String* add(const W& w, Rng* r = nullptr, int place = 0) {
		String* s = r ? mkAt(*r, place, w) : mk(w);
		items.push_back(Item{s, w});
		return s;
	}
	// a result handed out by the library: remember what it said
	String* keep(String* s) {
		if (s) items.push_back(Item{s, str(s)});
		return s;
	}
	int changed() const {
		for (size_t i = 0; i < items.size(); i++) {
			String* s = items[i].s;
			const W& w = items[i].w;
			if (s->get_Length() != (Int32)w.size()) return (int)i;
			if (wmemcmp(s->get_Buffer(), w.data(), w.size())) return (int)i;
			if (s->get_Buffer()[w.size()] != 0) return (int)i;
		}
		return -1;
	}
};

// every character: all of the first 65536, and of the others all (thorough) or a sample that starts where the seed says
template <class F> static void everyChar(Ctx& c, const char* what, F f) {
	int step = c.thorough ? 1 : 61;
	for (int cp = 0; cp < 0x110000; cp += cp < 0x10000 ? 1 : step) {
		if (!c.mine((uint64_t)(cp < 0x10000 ? cp : cp / step))) continue;
		int at = cp < 0x10000 ? cp : std::min(0x10ffff, cp + (int)c.rng.below(step));
		c.bulk(what, at);
		f((wchar_t)at);
	}
	c.event("characters tried");
}
