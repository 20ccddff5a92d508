// C06: strings are immutable values: constructed exactly, terminated, bounds-checked, and never changed by any operation.
#include "texts.h"

SECTION(construct, 4, 8) {
	uint64_t n = c.n(24000, 600000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		bool big = r.chance(1, 60);
		W w = big ? longText(r) : text(r);
		int len = (int)w.size(), form = (int)r.below(6);
		int s = r.chance(1, 2) ? inside(r, len) : pos(r, len), k = r.chance(1, 2) ? 0 : pos(r, len);
		if (inRange(s, 0, len) && r.chance(1, 2)) k = inside(r, len - s);
		wchar_t ch = anyChar(r);
		c.begin(len > 0 || form == 5, "construct form %d from \"%s\" start %d length %d char %x", form, Q(w), s, k, (unsigned)ch);
		String* got = nullptr;
		W want;
		bool ok = true;
		Ex e = NOEX;
		if (form <= 2) { w = w.c_str(); len = (int)w.size(); }  // a buffer without a size ends at its first NUL
		wchar_t* src = (wchar_t*)malloc((w.size() + 1) * sizeof(wchar_t));
		memcpy(src, w.c_str(), (w.size() + 1) * sizeof(wchar_t));
		Array* arr = charArray(w);
		if (form == 0) { e = run([&] { got = new String(src); }); want = w; }
		else if (form == 1) { e = run([&] { got = new String(src, s); }); ok = inRange(s, 0, len); if (ok) want = w.substr(s); }
		else if (form == 2) {
			// the length of an unsized buffer is the caller's promise: only lengths that fit are meaningful
			if (inRange(s, 0, len)) { k = inside(r, len - s); want = w.substr(s, k); } else { ok = false; k = 0; }
			e = run([&] { got = new String(src, s, k); });
		}
		else if (form == 3) { e = run([&] { got = new String(arr); }); want = w; }
		else if (form == 4) {
			if (k < 0) k = 0;
			if (s < 0) s = 0;
			e = run([&] { got = new String(arr, s, k); });
			ok = inRange(s, k, len);
			if (ok) want = w.substr(s, k);
			if (!ok && k == 0) { want = L""; ok = (e == NOEX); }  // nothing asked for: either answer
		}
		else { k = r.chance(1, 4) ? -(int)r.range(1, 5) : big ? bigSize(r, 140000) : oddLength(r); ok = k >= 0; if (ok) want = W(k, ch); e = run([&] { got = new String((Char)ch, k); }); }
		if (ok) {
			CHECK(e == NOEX && got != nullptr, "valid construction refused", "%s", exName(e));
			if (got) {
				CHECK(got->get_Length() == (Int32)want.size(), "wrong length", "%d expected %d", got->get_Length(), (int)want.size());
				CHECK(str(got) == want, "wrong characters", "got \"%s\" expected \"%s\"", Q(str(got)), Q(want));
				CHECK(got->get_Buffer()[want.size()] == 0, "not terminated", "length %d", (int)want.size());
				// everything but the wrapping constructor has its own copy
				if (form != 0) {
					for (size_t i = 0; i < w.size(); i++) { src[i] = L'#'; *(Char*)arr->Address((Int32)i) = L'#'; }
					CHECK(str(got) == want, "string changed with the memory it was made from", "form %d", form);
				}
				for (int q = 0; q < 6; q++) {
					int i = pos(r, (int)want.size());
					Char x = 0;
					Ex g = run([&] { x = got->get_Chars(i); });
					if (inRange(i, 1, (int64_t)want.size())) CHECK(g == NOEX && x == want[i], "wrong character at index", "[%d]", i);
					else CHECK(g == IOOR, "index outside the string accepted", "[%d] of %d: %s", i, (int)want.size(), exName(g));
				}
			}
			c.event("strings built");
		} else {
			CHECK(isErr(e), "invalid construction accepted", "%s", exName(e));
			c.event("bad constructions refused");
		}
		delete got;
		delete arr;
		free(src);
	}
	c.begin(true, "construct from null");
	Array* none = nullptr;
	String* s = nullptr;
	CHECK(run([&] { s = new String(none); }) == NOEX && s && s->get_Length() == 0 && s->get_Buffer()[0] == 0, "string of no array is not empty", "null array");
	Char* nobody = nullptr;
	String* t = nullptr;
	CHECK(run([&] { t = new String((const Char*)nobody); }) == NOEX && t && t->get_Length() == 0 && t->get_Buffer() && t->get_Buffer()[0] == 0, "string of no characters is not empty", "null pointer");
	CHECK(isErr(run([&] { new String((const Char*)nobody, 0, 3); })), "string of no characters of a given number", "null pointer");
	delete t;
	Array ints(Int32Type, 4);
	CHECK(isErr(run([&] { new String(&ints); })), "string of a non-character array", "Int32 array");
	CHECK(String::Empty && String::Empty->get_Length() == 0, "Empty is not empty", "Empty");
	CHECK(String::IsNullOrEmpty(nullptr) && String::IsNullOrEmpty(String::Empty), "IsNullOrEmpty", "null/empty");
}

// Long mixed histories: results feed back as operands; every string ever seen keeps its value.
SECTION(immutable, 8, 8) {
	uint64_t n = c.n(600, 12000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		Watch w;
		for (int i = 0; i < 4; i++) w.add(text(r));
		uint64_t trace = 0;
		int ops = (int)r.range(10, 50);
		c.begin(true, "history %llu shard %d of %d operations, first \"%s\"", (unsigned long long)h, c.shard, ops, Q(w.items[0].w));
		Array* seps = charArray(L"a \t");
		for (int o = 0; o < ops; o++) {
			auto any = [&]() -> String* { return w.items[r.below(w.items.size())].s; };
			String* a = any();
			String* b = any();
			String* d = any();
			int len = a->get_Length();
			if (len > 2000) { a = w.items[0].s; len = a->get_Length(); }
			if (b->get_Length() > 2000) b = w.items[0].s;
			int p = inside(r, len), k = inside(r, len - p), op = (int)r.below(30);
			trace = mix(trace, op);
			String* res = nullptr;
			run([&] {
				switch (op) {
				case 0: res = a->Substring(p, k); break;
				case 1: res = a->Substring(p); break;
				case 2: res = a->Insert(p, b); break;
				case 3: res = a->Remove(p, k); break;
				case 4: res = a->Remove(p); break;
				case 5: res = a->Replace(L'a', L'b'); break;
				case 6: if (b->get_Length() && d->get_Length() < 50 && len < 300) res = a->Replace(b, d); break;
				case 7: res = a->PadLeft(len + (int)r.range(-2, 10), L'*'); break;
				case 8: res = a->PadRight(len + (int)r.range(-2, 10)); break;
				case 9: res = a->ToUpper(); break;
				case 10: res = a->ToLower(); break;
				case 11: res = a->Trim(); break;
				case 12: res = a->TrimStart(seps); break;
				case 13: res = a->TrimEnd(seps); break;
				case 14: res = a->Trim(seps); break;
				case 15: res = String::Concat(a, b); break;
				case 16: res = String::Concat(a, b, d); break;
				case 17: res = String::Copy(a); break;
				case 18: {
					Array* arr = new Array(StringType, 3);
					*(Object**)arr->Address(0) = a;
					*(Object**)arr->Address(1) = b;
					*(Object**)arr->Address(2) = d;
					res = r.chance(1, 2) ? String::Join(b, arr) : String::Join((Char)L',', arr);
					break;
				}
				case 19: res = a->ToString(); break;
				case 20: a->IndexOf(b); a->LastIndexOf(b); a->Contains(b); break;
				case 21: a->StartsWith(b); a->EndsWith(b); a->EndsWith(L'a'); break;
				case 22: String::Compare(a, b, true); String::CompareOrdinal(a, b); a->Equals(b); break;
				case 23: {
					Array* arr = a->ToCharArray();
					for (int i = 0; i < arr->get_Length(); i++) *(Char*)arr->Address(i) = L'!';
					break;
				}
				case 24: {
					Array dst(CharType, len + 3);
					a->CopyTo(0, &dst, 2, len);
					for (int i = 0; i < len; i++) *(Char*)dst.Address(i) = L'!';
					break;
				}
				case 25: {
					StringBuilder sb(a);
					sb.Append(b);
					sb.Insert(0, d);
					if (b->get_Length()) sb.Replace(L'a', L'z');
					res = sb.ToString();
					sb.Clear();
					sb.Append(L'!', 40);
					break;
				}
				case 26: {
					StringBuilder* sb = new StringBuilder(a, 0, len, 1);
					for (int i = 0; i < sb->get_Length(); i++) sb->set_Chars(i, L'?');
					sb->Append(b);
					res = sb->ToString();
					delete sb;
					break;
				}
				case 27: {
					CharEnumerator* en = a->GetEnumerator();
					while (en->MoveNext()) en->get_Current();
					break;
				}
				case 28: { Int32 v; double dd; Int32Value::TryParse(a, v); DoubleValue::TryParse(a, dd); break; }
				default: { Char buf[64]; memset(buf, 0, sizeof buf); a->FormatString(buf, 64); break; }
				}
			});
			c.event("string operations");
			w.keep(res);
			int ch = w.changed();
			if (ch >= 0) { c.fail("an operation changed an existing string", "operation %d changed string %d (was \"%s\")", op, ch, Q(w.items[ch].w)); break; }
			if (w.items.size() > 60) w.items.erase(w.items.begin() + 4, w.items.begin() + 20);
		}
		c.event("distinct strings watched", w.items.size());
		CHECK(String::Empty->get_Length() == 0 && String::Empty->get_Buffer()[0] == 0, "Empty is not empty", "after history");
	}
}

// The source wraps caller memory; whatever an operation returned must stand on its own after that memory is changed and released.
SECTION(detached, 8, 8) {
	uint64_t n = c.n(6000, 100000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		W w = r.chance(1, 3) ? longText(r) : text(r), v = r.chance(1, 10) ? longText(r, 3000) : smallText(r, 4);
		w = w.c_str();  // a buffer without a size ends at its first NUL
		int len = (int)w.size(), p = inside(r, len), k = inside(r, len - p), op = (int)r.below(27);
		if (r.chance(1, 4)) p = std::min(len, (int)r.range(0, 8));
		k = std::min(k, len - p);
		wchar_t* mem = (wchar_t*)malloc((len + 1) * sizeof(wchar_t));
		memcpy(mem, w.c_str(), (len + 1) * sizeof(wchar_t));
		String *a = new String(mem), *b = mk(v), *sep = mk(L", ");
		StringBuilder* sb = nullptr;
		Array* ch = nullptr;
		Array* list = new Array(StringType, 2);
		*(Object**)list->Address(0) = a;
		*(Object**)list->Address(1) = b;
		std::vector<String*> res;
		W want;
		bool known = true;
		c.begin(len > 0, "operation %d on %d wrapped characters \"%s\", position %d count %d, other \"%s\"", op, len, Q(w.substr(0, 60)), p, k, Q(v.substr(0, 60)));
		Ex e = run([&] {
			switch (op) {
			case 0: res.push_back(a->Substring(p)); want = w.substr(p); break;
			case 1: res.push_back(a->Substring(p, k)); want = w.substr(p, k); break;
			case 2: res.push_back(a->Insert(p, b)); want = W(w).insert(p, v); break;
			case 3: res.push_back(a->Remove(p)); want = w.substr(0, p); break;
			case 4: res.push_back(a->Remove(p, k)); want = W(w).erase(p, k); break;
			case 5: res.push_back(a->Replace(L'a', L'b')); want = w; for (auto& q : want) if (q == L'a') q = L'b'; break;
			case 6: res.push_back(a->Replace(sep, b)); known = false; break;
			case 7: res.push_back(a->PadLeft(len + 3, L'*')); want = L"***" + w; break;
			case 8: res.push_back(a->PadRight(len + 3, L'*')); want = w + L"***"; break;
			case 9: res.push_back(a->PadLeft(len)); res.push_back(a->PadRight(len)); want = w; break;
			case 10: res.push_back(a->ToUpper()); known = false; break;
			case 11: res.push_back(a->ToLower()); known = false; break;
			case 12: res.push_back(a->Trim()); known = false; break;
			case 13: ch = charArray(L"abc"); res.push_back(a->Trim(ch)); known = false; break;
			case 14: ch = charArray(L"abc"); res.push_back(a->TrimEnd(ch)); known = false; break;
			case 15: ch = charArray(L"abc"); res.push_back(a->TrimStart(ch)); known = false; break;
			case 16: res.push_back(String::Concat(a, b)); want = w + v; break;
			case 17: res.push_back(String::Concat(b, a)); want = v + w; break;
			case 18: res.push_back(String::Concat(a, nullptr)); want = w; break;
			case 19: res.push_back(String::Concat(list)); want = w + v; break;
			case 20: res.push_back(String::Join(sep, list)); want = w + L", " + v; break;
			case 21: res.push_back(String::Join(sep, list, 0, 1)); want = w; break;
			case 22: res.push_back(String::Copy(a)); want = w; break;
			case 23: sb = new StringBuilder(a); want = w; break;
			case 24: sb = new StringBuilder(a, p, k, 5); want = w.substr(p, k); break;
			case 25: sb = new StringBuilder(); sb->Append(a); sb->Insert(0, a); want = w + w; break;
			default: ch = a->ToCharArray(p, k); want = w.substr(p, k); break;
			}
		});
		CHECK(e == NOEX, "valid construction refused", "%s", exName(e));
		std::vector<W> was;
		for (auto* s : res) was.push_back(s ? str(s) : L"<none>");
		for (int i = 0; i < len; i++) mem[i] = L'#';
		free(mem);
		for (size_t i = 0; i < res.size(); i++) {
			if (res[i] == nullptr || res[i] == a) continue;  // the wrapping string itself is a view of the caller's memory
			W now = str(res[i]);
			CHECK(now == was[i], "result changed with the memory of its source", "now \"%s\"", Q(now.substr(0, 80)));
			if (known) CHECK(now == want, "wrong characters", "got \"%s\" expected \"%s\"", Q(now.substr(0, 80)), Q(want.substr(0, 80)));
			CHECK(res[i]->get_Buffer()[now.size()] == 0, "not terminated", "length %d", (int)now.size());
			c.event("results outlived their source");
		}
		if (sb) {
			W now(sb->get_Buffer(), sb->get_Buffer() + sb->get_Length());
			CHECK(now == want, "result changed with the memory of its source", "builder now \"%s\"", Q(now.substr(0, 80)));
			String* s = sb->ToString();
			delete sb;
			CHECK(str(s) == want, "result changed with the memory of its source", "builder's text now \"%s\"", Q(str(s).substr(0, 80)));
			delete s;
			c.event("results outlived their source");
		}
		if (op == 26) {
			bool same = ch && ch->get_Length() == (int)want.size();
			for (int i = 0; same && i < (int)want.size(); i++) same = *(Char*)ch->Address(i) == want[i];
			CHECK(same, "result changed with the memory of its source", "character array");
			c.event("results outlived their source");
		}
		// a result outlives the source object as well, and deleting it leaves the other sources alone
		for (size_t i = 0; i < res.size(); i++) if (res[i] == a) res[i] = nullptr;
		delete a;
		for (size_t i = 0; i < res.size(); i++)
			if (res[i]) CHECK(str(res[i]) == was[i], "result changed when its source was deleted", "operation %d", op);
		for (size_t i = 0; i < res.size(); i++) {
			bool dup = res[i] == nullptr || res[i] == b || res[i] == sep || res[i] == String::Empty;
			for (size_t q = 0; q < i; q++) if (res[q] == res[i]) dup = true;
			if (!dup) delete res[i];
		}
		CHECK(str(b) == v && str(sep) == L", ", "an operation changed an existing string", "operation %d", op);
		CHECK(String::Empty->get_Length() == 0, "Empty is not empty", "operation %d", op);
		delete b;
		delete sep;
		delete ch;
		delete list;
	}
}

// strings of one repeated character, and of many, well beyond a million characters
SECTION(vast, 4, 4) {
	uint64_t n = c.n(16, 200);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		static const int marks[] = {65536, 131072, 262144, 524288, 1048576, 2097152};
		int len = r.chance(2, 3) ? marks[r.below(6)] + (int)r.range(-2, 40) : (int)r.range(70000, 2500000);
		wchar_t ch = r.chance(1, 3) ? (wchar_t)r.range(1, 127) : r.chance(1, 2) ? (wchar_t)r.range(128, 0xFFFF) : anyChar(r);
		int form = (int)r.below(5), off = (int)r.range(0, 3);
		c.begin(true, "%d characters like U+%x, form %d from %d", len, (unsigned)ch, form, off);
		std::vector<wchar_t> mem(len + off + 1);
		for (int i = 0; i < len + off; i++) mem[i] = form == 0 ? ch : (wchar_t)(1 + (uint32_t)(i * 2654435761u) % 0xFFFF);
		String *s = nullptr, *t = nullptr;
		Array* a = nullptr;
		Ex e = run([&] {
			if (form == 0) s = new String((Char)ch, len);
			else if (form == 1) s = new String(mem.data(), off, len);
			else if (form == 2) s = new String(mem.data(), off);
			else if (form == 3) { a = new Array(mem.data(), CharType, len + off); s = new String(a, off, len); }
			else { t = new String(mem.data()); s = t->Substring(off, off ? len : len - 1); }
		});
		int want = form == 4 && !off ? len - 1 : len;
		bool ok = e == NOEX && s && s->get_Length() == want;
		CHECK(ok, "valid construction refused", "%s length %d", exName(e), s ? s->get_Length() : -1);
		const wchar_t* from = mem.data() + (form == 0 ? 0 : off);
		if (ok) {
			CHECK(wmemcmp(s->get_Buffer(), from, want) == 0, "wrong characters", "%d characters", want);
			CHECK(s->get_Buffer()[want] == 0, "not terminated", "length %d", want);
			for (int q = 0; q < 200; q++) {
				int i = r.chance(1, 2) ? (int)r.below(want) : (marks[r.below(6)] + (int)r.range(-2, 2)) % want;
				Char g = 0;
				Ex x = run([&] { g = s->get_Chars(i); });
				CHECK(x == NOEX && g == from[i], "wrong character at index", "[%d] of %d is U+%x", i, want, (unsigned)g);
			}
			CHECK(run([&] { s->get_Chars(want); }) == IOOR && run([&] { s->get_Chars(-1); }) == IOOR && run([&] { s->get_Chars(INT_MAX); }) == IOOR, "index outside the string accepted", "of %d", want);
			std::vector<wchar_t> was(from, from + want);
			for (auto& q : mem) q = L'#';
			CHECK(wmemcmp(s->get_Buffer(), was.data(), want) == 0, "string changed with the memory it was made from", "form %d", form);
			c.event("characters of vast strings", want);
		}
		delete s;
		delete t;
		delete a;
	}
}

// every character, alone and among others, through every way to make a string and to read it
SECTION(everychar, 4, 8) {
	everyChar(c, "string of the character", [&](wchar_t ch) {
		int k = 1 + ch % 5;
		String* a = new String((Char)ch, k);
		CHECK(str(a) == W(k, ch), "wrong characters", "%d times U+%x gave \"%s\"", k, (unsigned)ch, Q(str(a)));
		W w = L"x";
		w += ch; w += (wchar_t)(ch ^ 0x100 ? ch ^ 0x100 : 5); w += ch;
		String* b = mk(w);
		Array* arr = charArray(w);
		String* d = new String(arr, 1, 3);
		CHECK(str(b) == w && str(d) == w.substr(1), "wrong characters", "\"%s\" gave \"%s\" and \"%s\"", Q(w), Q(str(b)), Q(str(d)));
		CHECK(b->get_Chars(1) == ch && b->get_Chars(2) == w[2] && b->get_Chars(3) == ch && *b->Address(3) == ch, "wrong character at index", "\"%s\"", Q(w));
		String *s = b->Substring(1, 2), *q = String::Copy(b);
		CHECK(str(s) == w.substr(1, 2) && str(q) == w, "wrong characters", "part of \"%s\" is \"%s\", copy \"%s\"", Q(w), Q(str(s)), Q(str(q)));
		delete a; delete b; delete arr; delete d; delete s; delete q;
	});
}
// all operations of strings in any order: the answers of this property do not depend on what was asked before
SECTION(sequences, 4, 8) { texts::histories(c, texts::CHARS, c.n(60000, 4000000)); }
