// Histories over a few strings and enumerators: every kind of operation in any order, on the same string or another, each answer held against
// a plain model. What one operation leaves behind must not show in the next. Each check looks at the answers of its own property.
#pragma once
#include "text.h"
namespace texts {
enum Tag { CHARS, SEARCH, ORDER, MAKE, WALK };  // C06, C07, C08, C09, C11
static const W kBlank = {9, 10, 11, 12, 13, 0x20, 0xA0, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2009, 0x200A, 0x200B, 0x3000, 0xFEFF};
inline int sign(int v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
inline int order(const W& a, const W& b) { return a < b ? -1 : a > b; }
inline W lower(W w) { for (auto& ch : w) if (ch >= L'A' && ch <= L'Z') ch += 32; return w; }
inline W upper(W w) { for (auto& ch : w) if (ch >= L'a' && ch <= L'z') ch -= 32; return w; }
inline W trimmed(const W& w, const W& set, bool st, bool en) {
	size_t a = 0, b = w.size();
	while (st && a < b && set.find(w[a]) != W::npos) a++;
	while (en && b > a && set.find(w[b - 1]) != W::npos) b--;
	return w.substr(a, b - a);
}
inline int first(const W& w, const W& v, int s, int k) { for (int i = s; i + (int)v.size() <= s + k; i++) if (w.compare(i, v.size(), v) == 0) return i; return -1; }
inline int last(const W& w, const W& v, int s, int k) { for (int i = s + 1 - (int)v.size(); i > s - k; i--) if (i >= 0 && w.compare(i, v.size(), v) == 0) return i; return -1; }
inline W someText(Rng& r, const W* have, int n) {
	switch (r.below(n ? 7 : 3)) {
	case 0: return smallText(r, 10, L"aAbB ");
	case 1: return smallText(r, 6, L"ab");
	case 2: return text(r);
	case 3: return have[r.below(n)];
	case 4: { W w = have[r.below(n)]; return r.chance(1, 2) ? lower(w) : upper(w); }
	case 5: { const W& w = have[r.below(n)]; int s = (int)r.below(w.size() + 1); return w.substr(s, r.below(5)); }
	default: return altered(r, have[r.below(n)]);
	}
}
inline void histories(Ctx& c, Tag mine, uint64_t n) {
	Rng& r = c.rng;
	enum { OBJ = 4 };
	uint64_t turns = 0;
	std::set<uint64_t> pairs;
	for (uint64_t i = 0; i < n; i++) {
		W w[OBJ];
		String* s[OBJ];
		struct { CharEnumerator* e; int at; } en[OBJ];
		for (int k = 0; k < OBJ; k++) { w[k] = someText(r, w, k); s[k] = mkAt(r, k, w[k], 4); en[k] = {s[k]->GetEnumerator(), -1}; }
		c.begin(true, "\"%s\" \"%s\" \"%s\" \"%s\", operations of seed %llu", Q(w[0]), Q(w[1]), Q(w[2]), Q(w[3]), (unsigned long long)r.s);
		int a = 0, op = -1, ops = (int)r.range(20, 60);
		std::string trail;
		for (int o = 0; o < ops; o++) {
			if (r.chance(2, 5)) a = (int)r.below(OBJ);
			if (r.chance(1, 25)) {  // the string makes way for another, likely in the same place
				delete en[a].e;
				drop(s[a]);
				w[a] = someText(r, w, OBJ); s[a] = mkAt(r, a, w[a], 4);
				en[a] = {s[a]->GetEnumerator(), -1};
			}
			int b = r.chance(1, 4) ? a : (int)r.below(OBJ), d = (int)r.below(OBJ), prev = op;
			op = (int)r.below(62);
			turns++;
			pairs.insert((uint64_t)(prev + 1) * 64 + op);
			String *x = s[a], *y = s[b], *z = s[d];
			const W &p = w[a], &q = w[b], &t = w[d];
			int len = (int)p.size(), at = inside(r, len), cnt = inside(r, len - at), back = len ? inside(r, len - 1) : 0, bc = inside(r, len ? back + 1 : 0);
			wchar_t ch = len && r.chance(2, 3) ? p[r.below(len)] : r.chance(1, 2) ? L'a' : anyChar(r);
			W cs(1, ch);
			{ char m[48]; snprintf(m, sizeof m, "%d(%d,%d;%d,%d) ", op, a, b, at, cnt); trail += m; if (trail.size() > 200) trail.erase(0, trail.find(' ') + 1); }
#define SEE(tag, cond, key) do { if (mine == tag && !(cond)) c.fail("in a history: " key, "operation %d on \"%s\" with \"%s\", \"%s\", U+%x after %s", op, Q(p), Q(q), Q(t), (unsigned)ch, trail.c_str()); } while (0)
#define POS(expr, want, key) do { int g_ = -99; Ex e_ = run([&] { g_ = (int)(expr); }); SEE(SEARCH, e_ == NOEX && g_ == (int)(want), key); } while (0)
#define CMP(expr, want, key) do { int g_ = -99; Ex e_ = run([&] { g_ = sign((int)(expr)); }); SEE(ORDER, e_ == NOEX && g_ == (int)(want), key); } while (0)
#define TEXT(expr, want, key) do { String* g_ = nullptr; Ex e_ = run([&] { g_ = (expr); }); SEE(MAKE, e_ == NOEX && g_ && str(g_) == (want), key); bool own_ = g_ == String::Empty; for (auto* k_ : s) own_ = own_ || g_ == k_; if (g_ && !own_) delete g_; } while (0)
#define REFUSED(tag, expr, key) do { Ex e_ = run([&] { expr; }); SEE(tag, isErr(e_), key); } while (0)
			switch (op) {
			case 0: case 1: { int k = (int)r.range(-1, len); Char g = 0; Ex e = run([&] { g = x->get_Chars(k); }); SEE(CHARS, k >= 0 && k < len ? e == NOEX && g == p[k] : e == IOOR, "character"); break; }
			case 2: SEE(CHARS, x->get_Length() == len && x->get_Buffer()[len] == 0 && !wmemcmp(x->get_Buffer(), p.data(), len), "length and characters"); break;
			case 3: { int k = (int)r.below(8); String made((Char)ch, k); SEE(CHARS, str(&made) == W(k, ch), "repeated character"); break; }
			case 4: if (p.find(L'\0') == W::npos) { String made(p.c_str(), at, cnt); SEE(CHARS, str(&made) == p.substr(at, cnt), "string of characters"); break; }
			case 5: { Array* arr = charArray(p); String made(arr), part(arr, at, cnt); delete arr; SEE(CHARS, str(&made) == p && str(&part) == p.substr(at, cnt), "string of an array"); break; }
			case 6: POS(x->IndexOf(y), first(p, q, 0, len), "IndexOf"); break;
			case 7: POS(x->IndexOf(y, at), first(p, q, at, len - at), "IndexOf from"); break;
			case 8: POS(x->IndexOf(y, at, cnt), first(p, q, at, cnt), "IndexOf in a range"); break;
			case 9: POS(x->IndexOf((Char)ch), first(p, cs, 0, len), "IndexOf a character"); break;
			case 10: POS(x->IndexOf((Char)ch, at), first(p, cs, at, len - at), "IndexOf a character from"); break;
			case 11: POS(x->IndexOf((Char)ch, at, cnt), first(p, cs, at, cnt), "IndexOf a character in a range"); break;
			case 12: POS(x->LastIndexOf((Char)ch), last(p, cs, len - 1, len), "LastIndexOf a character"); break;
			case 13: if (len) POS(x->LastIndexOf((Char)ch, back), last(p, cs, back, back + 1), "LastIndexOf a character from"); break;
			case 14: if (len) POS(x->LastIndexOf((Char)ch, back, bc), last(p, cs, back, bc), "LastIndexOf a character in a range"); break;
			case 15: if (!q.empty()) POS(x->LastIndexOf(y), last(p, q, len - 1, len), "LastIndexOf"); break;
			case 16: if (!q.empty() && len) POS(x->LastIndexOf(y, back), last(p, q, back, back + 1), "LastIndexOf from"); break;
			case 17: if (!q.empty() && len) POS(x->LastIndexOf(y, back, bc), last(p, q, back, bc), "LastIndexOf in a range"); break;
			case 18: POS(x->Contains(y), first(p, q, 0, len) >= 0, "Contains"); break;
			case 19: POS(x->StartsWith(y), q.size() <= p.size() && p.compare(0, q.size(), q) == 0, "StartsWith"); break;
			case 20: POS(x->EndsWith(y), q.size() <= p.size() && p.compare(p.size() - q.size(), q.size(), q) == 0, "EndsWith"); break;
			case 21: POS(x->EndsWith((Char)ch), len && p[len - 1] == ch, "EndsWith a character"); break;
			case 22: case 23: {
				Array* arr = charArray(q);
				int f = -1, l = -1;
				if (op == 22) { for (int k = at + cnt - 1; k >= at; k--) if (q.find(p[k]) != W::npos) f = k; POS(x->IndexOfAny(arr, at, cnt), f, "IndexOfAny in a range"); }
				else { for (int k = 0; k < len; k++) if (q.find(p[k]) != W::npos) { if (f < 0) f = k; l = k; } if (r.chance(1, 2)) POS(x->IndexOfAny(arr), f, "IndexOfAny"); else POS(x->LastIndexOfAny(arr), l, "LastIndexOfAny"); }
				delete arr;
				break;
			}
			case 24: if (len) { Array* arr = charArray(q); int l = -1; for (int k = back; k > back - bc; k--) if (q.find(p[k]) != W::npos) { l = k; break; } POS(x->LastIndexOfAny(arr, back, bc), l, "LastIndexOfAny in a range"); delete arr; } break;
			case 25: REFUSED(SEARCH, x->IndexOf(y, len + 1), "start behind the string accepted"); break;
			case 26: CMP(String::CompareOrdinal(x, y), order(p, q), "CompareOrdinal"); break;
			case 27: CMP(String::Compare(x, y, true), order(lower(p), lower(q)), "Compare without case"); break;
			case 28: case 29: {
				int g = 0, g2 = 0;
				Ex e = run([&] { g = sign(op == 28 ? String::Compare(x, y) : x->CompareTo(y)); g2 = sign(op == 28 ? y->CompareTo((Object*)x) : String::Compare(y, x, false)); });
				SEE(ORDER, e == NOEX && g == -g2 && (g == 0) == (p == q), "Compare");
				break;
			}
			case 30: { int i2 = inside(r, (int)q.size()), k = (int)r.below(6); CMP(String::CompareOrdinal(x, at, y, i2, k), order(p.substr(at, k), q.substr(i2, k)), "CompareOrdinal of ranges"); break; }
			case 31: { int i2 = inside(r, (int)q.size()), k = (int)r.below(6); CMP(String::Compare(x, at, y, i2, k, true), order(lower(p.substr(at, k)), lower(q.substr(i2, k))), "Compare of ranges without case"); break; }
			case 32: SEE(ORDER, (bool)x->Equals(y) == (p == q), "Equals"); break;
			case 33: SEE(ORDER, (bool)x->Equals((Object*)y) == (p == q) && (bool)String::Equals(x, y) == (p == q), "Equals"); break;
			case 34: SEE(ORDER, (bool)String::op_Inequality(x, y) == (p != q) && !x->Equals((String*)nullptr), "inequality"); break;
			case 35: TEXT(x->Substring(at), p.substr(at), "Substring"); break;
			case 36: TEXT(x->Substring(at, cnt), p.substr(at, cnt), "Substring"); break;
			case 37: TEXT(x->Remove(at), p.substr(0, at), "Remove"); break;
			case 38: { W g = p; g.erase(at, cnt); TEXT(x->Remove(at, cnt), g, "Remove"); break; }
			case 39: { W g = p; g.insert(at, q); TEXT(x->Insert(at, y), g, "Insert"); break; }
			case 40: { W g = p; for (auto& k : g) if (k == ch) k = L'#'; TEXT(x->Replace((Char)ch, (Char)L'#'), g, "Replace a character"); break; }
			case 41: if (!q.empty()) { W g; for (size_t k = 0; k < p.size();) if (p.compare(k, q.size(), q) == 0) { g += t; k += q.size(); } else g += p[k++]; TEXT(x->Replace(y, z), g, "Replace"); } break;
			case 42: { int k = len + (int)r.range(-3, 6); if (k >= 0) TEXT(x->PadLeft(k, (Char)ch), W(std::max(0, k - len), ch) + p, "PadLeft"); break; }
			case 43: { int k = len + (int)r.range(-3, 6); if (k >= 0) TEXT(x->PadRight(k, (Char)ch), p + W(std::max(0, k - len), ch), "PadRight"); break; }
			case 44: { int k = std::max(0, len + (int)r.range(-3, 6)); W gap(std::max(0, k - len), L' '); if (r.chance(1, 2)) TEXT(x->PadRight(k), p + gap, "PadRight"); else TEXT(x->PadLeft(k), gap + p, "PadLeft"); break; }
			case 45: TEXT(x->Trim(), trimmed(p, kBlank, true, true), "Trim"); break;
			case 46: case 47: case 48: {
				Array* set = charArray(q);
				W eff = q.empty() ? kBlank : q;
				if (op == 46) TEXT(x->Trim(set), trimmed(p, eff, true, true), "Trim of a set");
				else if (op == 47) TEXT(x->TrimStart(set), trimmed(p, eff, true, false), "TrimStart");
				else TEXT(x->TrimEnd(set), trimmed(p, eff, false, true), "TrimEnd");
				delete set;
				break;
			}
			case 49: TEXT(r.chance(1, 2) ? x->ToLower() : x->ToLowerInvariant(), lower(p), "ToLower"); break;
			case 50: TEXT(r.chance(1, 2) ? x->ToUpper() : x->ToUpperInvariant(), upper(p), "ToUpper"); break;
			case 51: if (r.chance(1, 2)) TEXT(String::Concat(x, y), p + q, "Concat"); else TEXT(String::Concat(x, y, z), p + q + t, "Concat"); break;
			case 52: {
				Array* arr = new Array(StringType, 3);
				String* in[] = {x, y, z};
				for (int k = 0; k < 3; k++) *(Object**)arr->Address(k) = in[k];
				if (r.chance(1, 2)) TEXT(String::Join(y, arr), p + q + q + q + t, "Join"); else TEXT(String::Join((Char)ch, arr), p + cs + q + cs + t, "Join");
				if (r.chance(1, 2)) TEXT(String::Concat(arr), p + q + t, "Concat of an array");
				delete arr;
				break;
			}
			case 53: TEXT(r.chance(1, 2) ? String::Copy(x) : x->ToString(), p, "Copy"); break;
			case 54: {
				Array* arr = nullptr;
				bool all = r.chance(1, 2);
				Ex e = run([&] { arr = all ? x->ToCharArray() : x->ToCharArray(at, cnt); });
				W want = all ? p : p.substr(at, cnt);
				bool same = e == NOEX && arr && arr->get_Length() == (Int32)want.size();
				for (size_t k = 0; same && k < want.size(); k++) same = *(Char*)arr->Address((Int32)k) == want[k];
				SEE(MAKE, same, "ToCharArray");
				delete arr;
				break;
			}
			case 55: {
				Array* arr = charArray(W(len + 2, L'!'));
				int to = (int)r.range(0, len + 2 - cnt);
				Ex e = run([&] { x->CopyTo(at, arr, to, cnt); });
				bool same = e == NOEX;
				for (int k = 0; same && k < len + 2; k++) same = *(Char*)arr->Address(k) == (k >= to && k < to + cnt ? p[at + k - to] : L'!');
				SEE(MAKE, same, "CopyTo");
				delete arr;
				break;
			}
			case 56: SEE(MAKE, (bool)String::IsNullOrEmpty(x) == p.empty() && (bool)String::IsNullOrWhiteSpace(x) == trimmed(p, kBlank, true, false).empty(), "IsNullOr"); break;
			case 57: REFUSED(MAKE, x->Substring(at, len - at + 1), "range behind the string accepted"); break;
			case 58: case 59: { bool g = en[a].e->MoveNext(); en[a].at = std::min(en[a].at + 1, len); SEE(WALK, g == (en[a].at < len), "MoveNext"); break; }
			case 60: { Char g = 0; Ex e = run([&] { g = en[a].e->get_Current(); }); int k = en[a].at; SEE(WALK, k >= 0 && k < len ? e == NOEX && g == p[k] : e == INVOP, "current character"); break; }
			default: if (r.chance(1, 4)) { en[a].e->Reset(); en[a].at = -1; } else { delete en[a].e; en[a] = {x->GetEnumerator(), -1}; }
			}
			if (mine == CHARS) for (int k = 0; k < OBJ; k++) if (s[k]->get_Length() != (Int32)w[k].size() || wmemcmp(s[k]->get_Buffer(), w[k].c_str(), w[k].size() + 1)) { c.fail("in a history: a string changed", "operation %d changed \"%s\" after %s", op, Q(w[k]), trail.c_str()); o = ops; break; }
			if (mine == CHARS && (String::Empty->get_Length() != 0 || String::Empty->get_Buffer()[0] != 0)) c.fail("in a history: a string changed", "operation %d changed the empty string", op);
		}
		for (int k = 0; k < OBJ; k++) { delete en[k].e; drop(s[k]); }
	}
	c.event("operations in histories", turns);
	c.event("pairs of successive operations (per shard)", pairs.size());
#undef SEE
#undef POS
#undef CMP
#undef TEXT
#undef REFUSED
}
}
