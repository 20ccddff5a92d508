// C29: storage: every object releases exactly what it allocated, when it is destroyed; operations leave no garbage behind
// other than the results they hand out. Observed with the sanitizer's allocation hooks.
#include "calls.h"
#include <sanitizer/allocator_interface.h>

static bool watching = false;
static const int SLOTS = 1 << 16;
static const void* slot[SLOTS];
static int touched[SLOTS], touchedCount;
static int64_t liveCount, hookAllocs, hookFrees, strayFrees, overflow;
static int home(const volatile void* p) { uint64_t h = (uint64_t)(uintptr_t)p * 0x9E3779B97F4A7C15ULL; return (int)(h >> 48); }
static void onMalloc(const volatile void* p, size_t) {
	if (!watching || !p) return;
	hookAllocs++;
	if (touchedCount > SLOTS / 2) { overflow++; return; }
	int i = home(p);
	while (slot[i] && slot[i] != (void*)1) i = (i + 1) % SLOTS;
	if (!slot[i]) touched[touchedCount++] = i;
	slot[i] = (const void*)p;
	liveCount++;
}
static void onFree(const volatile void* p) {
	if (!watching || !p) return;
	hookFrees++;
	int i = home(p);
	while (slot[i] && slot[i] != p) i = (i + 1) % SLOTS;
	if (slot[i]) { slot[i] = (const void*)1; liveCount--; }
	else strayFrees++;
}
static void start() {
	wrapSome() = false;  // no blocks of the harness while counting
	static bool installed = false;
	if (!installed) { __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); installed = true; }
	while (touchedCount) slot[touched[--touchedCount]] = nullptr;
	liveCount = strayFrees = overflow = 0;
	watching = true;
}
static int64_t stop() { watching = false; return liveCount; }
// characters of one kind: few letters, printable, any, blanks
static const Char* chars(Rng& r, Char* buf, int n, int kind = 0) {
	for (int i = 0; i < n; i++) buf[i] = kind == 0 ? (Char)(L'a' + r.below(4)) : kind == 1 ? (Char)r.range(32, 126) : kind == 2 ? (Char)anyChar(r) : (Char)L" \ta\x3000 \xA0"[r.below(6)];
	buf[n] = 0;
	return buf;
}

// strings: each operation's result belongs to the caller; nothing else stays
SECTION(strings, 4, 8) {
	uint64_t n = c.n(60000, 3000000);
	static Char b1[70100], b2[1100];
	for (uint64_t i = 0; i < n; i++) {
		Rng& r0 = c.rng;
		int l1 = r0.chance(1, 40) ? bigSize(r0) : oddLength(r0), l2 = r0.chance(1, 30) ? bigSize(r0, 1000) : (int)r0.range(1, r0.chance(1, 4) ? 12 : 3), op = (int)r0.below(36), p = (int)r0.range(0, l1), q = (int)r0.range(0, l1 - p);
		int kind = (int)r0.below(4), made = (int)r0.below(5), more = r0.chance(1, 30) ? bigSize(r0) : r0.chance(1, 2) ? oddLength(r0) : (int)r0.below(40);
		if (l2 < 1) l2 = 1;
		chars(r0, b1, l1, kind);
		if (made == 1) for (int k = 0; k < l1; k++) if (!b1[k]) b1[k] = L'n';  // a buffer without a size ends at its first NUL
		if (made == 3) for (int k = 1; k < l1; k++) b1[k] = b1[0];
		bool part = l1 && r0.chance(1, 2);
		if (part) { if (l2 > l1) l2 = l1; int at = (int)r0.below(l1 - l2 + 1); memcpy(b2, b1 + at, l2 * sizeof(Char)); b2[l2] = 0; } else chars(r0, b2, l2, kind);
		Char ch = r0.chance(1, 2) ? b2[r0.below(l2)] : (Char)anyChar(r0);
		c.begin(true, "string of %d characters of kind %d made in way %d, operation %d, arguments %d %d %d %x, other of %d \"%s\"", l1, kind, made, op, p, q, more, (unsigned)ch, l2, Q(W(b2).substr(0, 12)));
		start();
		Array* src = nullptr;
		String* s;
		switch (made) {
		case 1: s = new String((const Char*)b1); break;
		case 2: src = new Array(CharType, l1); for (int k = 0; k < l1; k++) *(Char*)src->Address(k) = b1[k]; s = new String(src); break;
		case 3: s = new String(b1[0], l1); break;
		default: s = new String(b1, 0, l1);
		}
		String* t = new String(b2, 0, l2);
		Array* any = new Array(CharType, l2);
		for (int k = 0; k < l2; k++) *(Char*)any->Address(k) = b2[k];
		Array* list = new Array(StringType, 3);
		String* r = nullptr;
		Array* a = nullptr;
		CharEnumerator* en = nullptr;
		Ex e = run([&] {
			switch (op) {
			case 0: r = s->Substring(p, q); break;
			case 1: r = s->Insert(p, t); break;
			case 2: r = s->Remove(p, q); break;
			case 3: r = s->Replace(b2[0], ch); break;
			case 4: r = s->Replace(t, t); break;
			case 5: r = s->ToUpper(); break;
			case 6: r = s->ToLower(); break;
			case 7: r = s->Trim(); break;
			case 8: r = s->PadLeft(p + 5); break;
			case 9: r = s->PadRight(l1 + more, ch); break;
			case 10: a = s->ToCharArray(p, q); break;
			case 11: r = String::Concat(s, t); break;
			case 12: s->IndexOf(t); s->LastIndexOf(b2[0]); s->Contains(t); break;
			case 13: s->StartsWith(t); s->EndsWith(t); s->Equals(t); break;
			case 14: String::Compare(s, t, true); s->CompareTo(t); String::CompareOrdinal(s, t); break;
			case 15: r = String::Copy(s); break;
			case 16: en = s->GetEnumerator(); while (en->MoveNext()) en->get_Current(); break;
			case 17: r = new String(ch, more); break;
			case 18: r = String::Concat(s, t, s, t); break;
			case 19: r = s->Trim(any); break;
			case 20: r = s->TrimStart(any); break;
			case 21: r = s->TrimEnd(any); break;
			case 22: s->IndexOfAny(any); s->LastIndexOfAny(any); s->LastIndexOf(t); s->IndexOf(t, p); break;
			case 23: *(String**)list->Address(0) = s; *(String**)list->Address(1) = t; *(String**)list->Address(2) = nullptr; r = String::Join(t, list); break;
			case 24: *(String**)list->Address(0) = s; *(String**)list->Address(1) = t; *(String**)list->Address(2) = s; r = String::Concat(list); break;
			case 25: *(String**)list->Address(0) = t; *(String**)list->Address(1) = s; *(String**)list->Address(2) = s; r = String::Join(L'-', list, 1, 2); break;
			case 26: r = s->Remove(p); break;
			case 27: r = s->Substring(p); break;
			case 28: r = new String(any); break;
			case 29: { String big(L'y', 40); r = s->Replace(t, &big); break; }
			case 30: r = s->Replace(t, (String*)nullptr); break;
			case 31: r = s->PadLeft(l1 + more, ch); break;
			case 32: r = s->PadRight(l1 + more); break;
			case 33: { String x(ch, more % 300); r = s->Replace(t, &x); break; }
			case 34: { String x(ch, more); r = s->Insert(p, &x); break; }
			default: String::IsNullOrEmpty(s); String::IsNullOrWhiteSpace(s); s->ToString(); s->Equals((Object*)t); String::op_Inequality(s, t); break;
			}
		});
		bool same = r == s || r == t || r == String::Empty;
		if (r && !same) delete r;
		if (a) delete a;
		delete any;
		delete list;
		if (en) delete en;
		delete s;
		if (src) delete src;
		delete t;
		int64_t left = stop();
		CHECK(e == NOEX, "operation refused", "%s", exName(e));
		CHECK(left == 0 && overflow == 0, "storage left behind", "%lld blocks after operation %d", (long long)left, op);
		CHECK(strayFrees == 0, "released storage it did not allocate", "%lld blocks", (long long)strayFrees);
		c.event("objects released", 3);
	}
}
// a wrapped string must not release the caller's characters, and must keep using them
SECTION(wrapped, 1, 2) {
	uint64_t n = c.n(20000, 500000);
	for (uint64_t i = 0; i < n; i++) {
		int len = oddLength(c.rng);
		c.begin(true, "wrapped characters %d, case %llu", len, (unsigned long long)i);
		Char* mem = (Char*)malloc((len + 1) * sizeof(Char));
		chars(c.rng, mem, len);
		W was(mem, len);
		start();
		String* s = new String((const Char*)mem);
		bool shares = s->get_Buffer() == mem && !s->IsAllocated();
		int got = s->get_Length();
		delete s;
		int64_t left = stop();
		CHECK(got == len && shares, "wrapping", "%d of %d", got, len);
		CHECK(left == 0 && strayFrees == 0, "storage of a wrapped string", "%lld left, %lld stray", (long long)left, (long long)strayFrees);
		CHECK(W(mem, len) == was, "the caller's characters changed", "%d", len);
		free(mem);
	}
}
SECTION(builders, 4, 8) {
	uint64_t n = c.n(40000, 2000000);
	static Char b1[70100], b2[8];
	for (uint64_t i = 0; i < n; i++) {
		uint64_t seed = c.rng.next();
		int steps = (int)c.rng.range(1, 12), kind = (int)c.rng.below(4);
		Rng r(seed);
		int l2 = (int)r.range(1, 4);
		chars(r, b2, l2);
		c.begin(true, "builder history %llu: %d steps, constructor %d", (unsigned long long)seed, steps, kind);
		int lastOp = -1;
		start();
		String* t = new String(b2, 0, l2);
		StringBuilder* sb = kind == 0 ? new StringBuilder() : kind == 1 ? new StringBuilder((Int32)r.range(1, 600)) : kind == 2 ? new StringBuilder(t) : new StringBuilder(t, 0, l2, 16);
		Ex e = run([&] {
			for (int k = 0; k < steps; k++) {
				int len = sb->get_Length(), op = lastOp = (int)r.below(22);
				switch (op) {
				case 0: { int m = r.chance(1, 30) ? bigSize(r) : oddLength(r); chars(r, b1, m); sb->Append(b1, m); break; }
				case 1: sb->Append(t); break;
				case 2: sb->Append((Int32)r.next()); break;
				case 3: sb->Append((Double)1.25); break;
				case 4: sb->Append(true); break;
				case 5: sb->Append(L'q', (Int32)r.below(300)); break;
				case 6: sb->Append((Object*)t); break;
				case 7: sb->Insert((Int32)r.below(len + 1), t, (Int32)r.below(60)); break;
				case 8: sb->Insert((Int32)r.below(len + 1), (Int32)r.next()); break;
				case 9: { int p = (int)r.below(len + 1); sb->Remove(p, (int)r.below(len - p + 1)); break; }
				case 10: sb->Replace(t, t); break;
				case 11: sb->Replace(b2[0], L'z'); break;
				case 12: sb->set_Length(r.chance(1, 20) ? bigSize(r) : (Int32)r.below(900)); for (int q = len; q < sb->get_Length(); q++) sb->set_Chars(q, L'.'); break;
				case 13: sb->EnsureCapacity(r.chance(1, 20) ? bigSize(r, 300000) : (Int32)r.below(1500)); break;
				case 14: sb->Clear(); break;
				case 15: { String* x = sb->ToString(); delete x; break; }
				case 16: { int p = (int)r.below(len + 1); String* x = sb->ToString(p, (int)r.below(len - p + 1)); delete x; break; }
				case 17: sb->AppendLine(t); break;
				case 18: sb->Insert((Int32)r.below(len + 1), (Double)2.5); break;
				case 19: sb->Insert((Int32)r.below(len + 1), L'k'); sb->Append((Single)0.5f); break;  // boxed values: who owns their ToString() result is not stated
				case 20: { String* x = new String(b2, 0, 1); String* y = new String(L'w', (Int32)r.below(9)); sb->Replace(x, y); delete x; delete y; break; }
				default: { int cap = sb->get_Capacity() + (int)r.below(700);  // shrinking an enlarged builder is refused by design
					 sb->set_Capacity(cap); break; }
				}
				if (sb->get_Length() > 100000) sb->Clear();
			}
		});
		delete sb;
		delete t;
		int64_t left = stop();
		CHECK(e == NOEX, "operation refused", "%s in operation %d", exName(e), lastOp);
		CHECK(left == 0 && overflow == 0, "storage left behind", "%lld blocks, last operation %d", (long long)left, lastOp);
		CHECK(strayFrees == 0, "released storage it did not allocate", "%lld", (long long)strayFrees);
		c.event("builder steps", steps);
	}
}
SECTION(arrays, 4, 8) {
	uint64_t n = c.n(60000, 3000000);
	static unsigned char external[4096];
	for (uint64_t i = 0; i < n; i++) {
		static const DataType ts[] = {BooleanType, CharType, SByteType, ByteType, Int16Type, UInt16Type, Int32Type, UInt32Type, Int64Type, UInt64Type, SingleType, DoubleType, DateTimeType, TimeSpanType, ObjectType, StringType};
		DataType ty = ts[c.rng.below(16)];
		int rank = (int)c.rng.range(1, 3), d = (int)c.rng.range(1, 8), op = (int)c.rng.below(12);
		bool ext = c.rng.chance(1, 3);
		if (!ext && c.rng.chance(1, 25)) d = rank == 1 ? bigSize(c.rng) : rank == 2 ? bigSize(c.rng, 300) : bigSize(c.rng, 50);
		if (d < 1) d = 1;
		c.begin(true, "array of type %d rank %d size %d%s, operation %d", (int)ty, rank, d, ext ? " over external memory" : "", op);
		memset(external, 0, sizeof external);
		start();
		Array* a = ext ? new Array(external, ty, d, rank > 1 ? d : -1, rank > 2 ? d : -1) : new Array(ty, d, rank > 1 ? d : -1, rank > 2 ? d : -1);
		Array* b = new Array(ty, d);
		Object* o = nullptr;
		Array* x = nullptr;
		String* s = nullptr;
		Ex e = run([&] {
			switch (op) {
			case 0: if (rank == 1) Array::Copy(a, b, d); break;
			case 1: Array::Clear(b, 0, d); break;
			case 2: if (ty < DecimalType && ty > ObjectType) { o = rank == 1 ? a->GetValue(d - 1) : rank == 2 ? a->GetValue(0, d - 1) : a->GetValue(0, 0, d - 1); } break;
			case 3: if (ty == Int32Type && rank == 1) { Int32Value v(5); a->SetValue(&v, 0); } break;
			case 4: if (rank == 1) a->CopyTo(b, 0); break;
			case 5: a->get_Length(); a->get_Rank(); a->GetLength(0); a->GetUpperBound(0); break;
			case 6: x = BitConverter::GetBytes((Int64)d); s = BitConverter::ToString(x); break;
			case 7: if (ty == ByteType && rank == 1) { Buffer::BlockCopy(a, 0, b, 0, d); Buffer::SetByte(a, 0, 9); } break;
			case 8: if (ty < DecimalType && ty > ObjectType) { Array ix(Int32Type, rank); for (int k = 0; k < rank; k++) *(Int32*)ix.Address(k) = d - 1; o = a->GetValue(&ix); a->SetValue(o, &ix); } break;
			case 9: if (rank == 1) { Array y(ty, d), z(ObjectType, d); Array::Copy(&y, 0, &y, d / 2, d - d / 2); Array::Copy(&z, &z, d); } break;
			case 10: if (rank == 1 && ty == ObjectType) { Array y(Int32Type, d); Array::ConstrainedCopy(a, 0, b, 0, d); } break;
			default: if (ty == ObjectType && rank == 1) { Int32Value v(77); Array::IndexOf(a, &v); } break;
			}
		});
		if (o) delete o;
		if (x) delete x;
		if (s) delete s;
		delete a;
		delete b;
		int64_t left = stop();
		CHECK(e == NOEX, "operation refused", "%s", exName(e));
		CHECK(left == 0, "storage left behind", "%lld blocks", (long long)left);
		CHECK(strayFrees == 0, "released storage it did not allocate", "%lld", (long long)strayFrees);
		c.event("arrays released", 2);
	}
}
SECTION(values, 1, 4) {
	uint64_t n = c.n(40000, 2000000);
	for (uint64_t i = 0; i < n; i++) {
		int64_t v = interesting64(c.rng);
		c.begin(true, "boxes and text of %lld", (long long)v);
		start();
		Object* o[] = {new Int64Value((Int64)v), new Int32Value((Int32)v), new ByteValue((Byte)v), new UInt64Value((UInt64)v), new DoubleValue((double)v), new BooleanValue(v & 1), new CharValue((Char)((v & 63) + 32)),
			new TimeSpanValue((TimeSpan)(Int64)v), new DateTimeValue(DateTime((UInt64)(v & 0xFFFFFFFFFFFFFFULL)))};
		for (Object* x : o) {
			String* s = x->ToString();
			Object::Equals(x, o[0]);
			delete s;
		}
		String* t = o[0]->ToString();
		Int64 back = 0;
		Int64Value::TryParse(t, back);
		TimeSpan ts;
		TimeSpanValue::TryParse(t, ts);
		DoubleValue::Parse(t);
		delete t;
		for (Object* x : o) delete x;
		int64_t left = stop();
		CHECK(left == 0 && strayFrees == 0, "storage left behind", "%lld blocks", (long long)left);
		CHECK(back == v, "text", "%lld", (long long)back);
		c.event("boxes released", 9);
	}
}

// a piece of work that releases all it was given leaves nothing but the exceptions it raised
SECTION(work, 4, 8) {
	uint64_t n = c.n(40000, 3000000);
	std::vector<Exception*> log;
	log.reserve(4096);
	for (uint64_t i = 0; i < n; i++) {
		int kind = (int)c.rng.below(CALLS);
		uint64_t seed = c.rng.next();
		c.begin(true, "work \"%s\" with seed %llu", callName(kind), (unsigned long long)seed);
		log.clear();
		raisedLog() = &log;
		start();
		call(kind, seed);
		int64_t left = stop();
		raisedLog() = nullptr;
		for (Exception* x : log) {
			const void* m = x->get_Message();
			for (int k = 0; k < touchedCount; k++) if (slot[touched[k]] == (const void*)x || slot[touched[k]] == m) left--;
		}
		CHECK(left == 0 && overflow == 0, "storage left behind by a piece of work", "%lld blocks after %d exceptions", (long long)left, (int)log.size());
		CHECK(strayFrees == 0, "released storage it did not allocate", "%lld", (long long)strayFrees);
		for (Exception* x : log) delete x;
		c.event("pieces of work");
	}
}

// an operation that refuses leaves the exception it raised, and nothing else
SECTION(refusals, 4, 8) {
	uint64_t n = c.n(120000, 4000000);
	static Char b1[1100];
	for (uint64_t i = 0; i < n; i++) {
		Rng& r = c.rng;
		int l1 = oddLength(r), op = (int)r.below(44), bad = r.chance(1, 2) ? -1 - (int)r.below(5) : l1 + 1 + (int)r.below(2000000000);
		chars(r, b1, l1);
		c.begin(true, "refused operation %d on %d characters with %d, seed %llu", op, l1, bad, (unsigned long long)r.s);
		start();
		String* s = new String(b1, 0, l1);
		Array* a = new Array(Int32Type, 4);
		Array* b = new Array(Int32Type, 2, 3);
		Array* bytes = new Array(ByteType, 5);
		Array* chs = new Array(CharType, 3);
		StringBuilder* sb = new StringBuilder(l1 + 1, l1 + 2);
		sb->Append(s);
		Object* o = new Int32Value(5);
		Exception* raised = nullptr;
		bool foreign = false, quiet = false;
		try {
			switch (op) {
			case 0: { Array x(Int32Type, -2); break; }
			case 1: { Array* x = new Array(Int32Type, 3, -5); delete x; break; }
			case 2: { String* x = new String(chs, bad); delete x; break; }
			case 3: { String* x = new String(chs, 1, 9); delete x; break; }
			case 4: { StringBuilder* x = new StringBuilder(s, bad, 2, 16); delete x; break; }
			case 5: { StringBuilder* x = new StringBuilder(10, 5); delete x; break; }
			case 6: { String* x = new String(L'a', -2); delete x; break; }
			case 7: delete s->Substring(bad, 1); break;
			case 8: delete s->Insert(bad, s); break;
			case 9: delete s->Insert(0, nullptr); break;
			case 10: delete s->Remove(bad, 1); break;
			case 11: delete s->Replace((String*)nullptr, s); break;
			case 12: delete s->PadLeft(-1 - (int)r.below(9)); break;
			case 13: delete s->PadRight(-1 - (int)r.below(9)); break;
			case 14: delete s->ToCharArray(bad, 1); break;
			case 15: s->CopyTo(bad, chs, 0, 1); break;
			case 16: delete String::Join(s, a); break;
			case 17: delete String::Concat(b); break;
			case 18: s->IndexOf(s, bad); break;
			case 19: s->get_Chars(bad); break;
			case 20: s->CompareTo(o); break;
			case 21: sb->Append(L'x', 5); break;
			case 22: sb->Insert(bad, s); break;
			case 23: sb->Insert(0, L"wxyz"[r.below(4)]); sb->Insert(0, 123456); break;
			case 24: sb->Remove(bad, 1); break;
			case 25: sb->Replace(nullptr, s); break;
			case 26: sb->set_Length(bad); break;
			case 27: sb->set_Capacity(bad); break;
			case 28: delete sb->ToString(bad, 1); break;
			case 29: sb->Append((Double)123.5); break;
			case 30: sb->Append(true); sb->Append(true); sb->Append(L"abc", 3); break;
			case 31: a->SetValue(s, 0); break;
			case 32: a->SetValue(o, 9); break;
			case 33: delete a->GetValue(7); break;
			case 34: delete b->GetValue(bytes); break;
			case 35: Array::Copy(a, 0, b, 0, 99); break;
			case 36: Array::ConstrainedCopy(a, 0, bytes, 0, 2); break;
			case 37: delete BitConverter::ToString(bytes, 3, 9); break;
			case 38: BitConverter::ToInt64(bytes, 1); break;
			case 39: Int32Value::Parse(s); break;
			case 40: DoubleValue::Parse(s); break;
			case 41: TimeSpanValue::Parse(s); break;
			case 42: BooleanValue::Parse(s); break;
			default: {
				quiet = true;  // these say no without raising
				Int32 v; Int64 w; Byte y; Double d; Single f; TimeSpan ts; Char ch;
				Int32Value::TryParse(s, v); Int64Value::TryParse(s, w); ByteValue::TryParse(s, y); DoubleValue::TryParse(s, d); SingleValue::TryParse(s, f); TimeSpanValue::TryParse(s, ts); CharValue::TryParse(s, ch);
				break;
			}
			}
		} catch (Exception* e) { raised = e; } catch (...) { foreign = true; }
		delete s; delete a; delete b; delete bytes; delete chs; delete sb; delete o;
		int64_t left = stop();
		CHECK(!foreign, "a foreign exception", "operation %d", op);
		if (raised) {
			String* m = raised->get_Message();
			for (int k = 0; k < touchedCount; k++) if (slot[touched[k]] == (const void*)raised || slot[touched[k]] == (const void*)m) left--;
			c.event("refusals");
		} else
			c.event(quiet ? "silent refusals" : "not refused");
		CHECK(left == 0 && overflow == 0, "storage left behind by a refusal", "%lld blocks after operation %d", (long long)left, op);
		CHECK(strayFrees == 0, "released storage it did not allocate", "%lld", (long long)strayFrees);
		if (raised) { String* m = raised->get_Message(); delete raised; (void)m; }
	}
}
