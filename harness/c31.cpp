// C31: independent work in several threads at once: no thread disturbs another, nothing is shared without synchronisation.
// Built with ThreadSanitizer. What each thread must observe is what the same work gives alone.
#include "world.h"
#include "calls.h"
#include <atomic>
#include <thread>
#include <time.h>

static inline uint64_t now() { return __builtin_ia32_rdtsc(); }
struct Span { uint64_t from, to; int thread, kind; };

// Runs f(thread) in so many threads, which start together. The relaxed counter orders nothing between them.
template <class F> static void together(int threads, F f) {
	std::atomic<int> ready(0);
	std::vector<std::thread> all;
	for (int k = 0; k < threads; k++)
		all.push_back(std::thread([&, k] {
			ready.fetch_add(1, std::memory_order_relaxed);
			for (int spin = 0; ready.load(std::memory_order_relaxed) < threads && spin < 20000; spin++) if (spin % 8 == 7) sched_yield();
			f(k);
		}));
	for (auto& t : all) t.join();
}
// what the schedule was like: pairs of pieces of work of different threads that overlapped in time, and its order
struct Schedules {
	std::unordered_set<uint64_t> orders;
	void observe(Ctx& c, std::vector<std::vector<Span>>& spans) {
		std::vector<Span> all;
		for (auto& v : spans) all.insert(all.end(), v.begin(), v.end());
		std::sort(all.begin(), all.end(), [](const Span& a, const Span& b) { return a.from < b.from; });
		uint64_t h = 1, pairs = 0, same = 0;
		for (size_t i = 0; i < all.size(); i++) {
			h = mix(h, (uint64_t)all[i].thread);
			for (size_t k = i + 1; k < all.size() && all[k].from < all[i].to; k++)
				if (all[k].thread != all[i].thread) { pairs++; same += all[k].kind == all[i].kind; }
		}
		c.event("overlapping pairs of operations in different threads", pairs);
		c.event("of these, of the same kind", same);
		if (orders.insert(h).second) c.event("distinct schedules");
	}
};

SECTION(calls, 4, 8) {
	uint64_t rounds = c.n(2000, 60000);
	Schedules sch;
	for (uint64_t q = 0; q < rounds; q++) {
		Rng& r = c.rng;
		int threads = (int)r.range(2, 4), len = (int)r.range(8, 40), mode = (int)r.below(4);
		bool before = r.chance(1, 2);  // what the work gives alone is found before or after
		std::vector<std::vector<std::pair<int, uint64_t>>> list(threads);
		std::vector<std::pair<int, uint64_t>> one;
		int kind = (int)((q * c.shards + c.shard) % CALLS);
		for (int i = 0; i < len; i++) one.push_back(std::make_pair(mode == 0 ? kind : (int)r.below(CALLS), r.next()));
		for (int k = 0; k < threads; k++) {
			list[k] = one;
			if (mode == 1) for (int i = len - 1; i > 0; i--) std::swap(list[k][i], list[k][r.below(i + 1)]);  // the same calls in other orders
			else if (mode != 3 || r.chance(1, 2)) for (auto& x : list[k]) x.second = r.next();                  // calls of the same kinds on other values
			if (mode == 2) for (auto& x : list[k]) x.first = (int)r.below(CALLS);
		}
		c.begin(true, "%d threads of %d calls, mode %d, kind %s, case %llu", threads, len, mode, callName(kind), (unsigned long long)(q * c.shards + c.shard));
		std::vector<std::vector<uint64_t>> alone(threads), got(threads);
		std::vector<std::vector<Span>> spans(threads);
		auto reference = [&] { for (int k = 0; k < threads; k++) for (auto& x : list[k]) alone[k].push_back(call(x.first, x.second)); };
		if (before) reference();
		together(threads, [&](int k) {
			for (auto& x : list[k]) {
				Span s = {now(), 0, k, x.first};
				got[k].push_back(call(x.first, x.second));
				s.to = now();
				spans[k].push_back(s);
			}
		});
		if (!before) reference();
		for (int k = 0; k < threads; k++)
			for (int i = 0; i < len; i++) CHECK(got[k][i] == alone[k][i], "a call gave another result while other threads worked", "%s (%llu) in thread %d of %d", callName(list[k][i].first), (unsigned long long)list[k][i].second, k, threads);
		c.event("calls compared", (uint64_t)threads * len);
		sch.observe(c, spans);
	}
}

// histories over worlds of their own
SECTION(worlds, 3, 8) {
	uint64_t rounds = c.n(5000, 60000);
	Schedules sch;
	for (uint64_t q = 0; q < rounds; q++) {
		Rng& r = c.rng;
		int threads = (int)r.range(2, 4), steps = 30;
		bool alike = r.chance(1, 3), before = r.chance(1, 2);
		std::vector<uint64_t> seeds;
		for (int k = 0; k < threads; k++) seeds.push_back(alike && k ? seeds[0] : r.next());
		c.begin(true, "%d threads with histories%s, first %llu", threads, alike ? " alike" : "", (unsigned long long)seeds[0]);
		struct Seen { std::vector<uint64_t> steps; std::vector<std::string> names; uint64_t end = 0; };
		std::vector<Seen> alone(threads), got(threads);
		std::vector<std::vector<Span>> spans(threads);
		auto history = [&](int k, Seen& s, std::vector<Span>* sp) {
			World w;
			Rng rr(seeds[k]);
			w.build(rr);
			for (int i = 0; i < steps; i++) {
				Span x = {now(), 0, k, 0};
				Step st = step(w, rr);
				x.to = now();
				x.kind = (int)hashBytes(st.name.data(), std::min<size_t>(8, st.name.size()));
				if (sp) sp->push_back(x);
				s.steps.push_back(mix(st.trace, (uint64_t)st.ex));
				s.names.push_back(st.name);
			}
			std::vector<std::string> im = w.snap();
			for (size_t i = 0; i < im.size(); i++) if (i != 3) s.end = hashBytes(im[i].data(), im[i].size(), mix(s.end, i));
		};
		auto reference = [&] { for (int k = 0; k < threads; k++) history(k, alone[k], nullptr); };
		if (before) reference();
		together(threads, [&](int k) { history(k, got[k], &spans[k]); });
		if (!before) reference();
		for (int k = 0; k < threads; k++) {
			for (int i = 0; i < steps; i++)
				if (got[k].steps[i] != alone[k].steps[i]) { CHECK(false, "a step gave another result while other threads worked", "history %llu step %d %s", (unsigned long long)seeds[k], i, got[k].names[i].c_str()); break; }
			CHECK(got[k].end == alone[k].end, "objects of a thread ended in another state while other threads worked", "history %llu", (unsigned long long)seeds[k]);
		}
		c.event("steps compared", (uint64_t)threads * steps);
		sch.observe(c, spans);
	}
}

// objects that no thread changes, read by all of them
namespace ro {
struct Shared {
	std::vector<String*> s;
	std::vector<Object*> boxes;
	Array *ints, *bytes, *strings, *objects, *chars, *doubles, *few, *index, *grid;
	StringBuilder* sb;
	Shared(Rng& r) {
		for (int i = 0; i < 6; i++) s.push_back(mk(i == 5 && r.chance(1, 30) ? longText(r) : text(r)));
		s.push_back(mk(wide(dec(interesting32(r)))));
		s.push_back(mk(wide(dec(interesting64(r)))));
		boxes.push_back(new Int32Value(interesting32(r)));
		boxes.push_back(new Int64Value((Int64)interesting64(r)));
		boxes.push_back(new UInt64Value((UInt64)interesting64(r)));
		boxes.push_back(new ByteValue((Byte)r.next()));
		boxes.push_back(new DoubleValue(interestingD(r)));
		boxes.push_back(new SingleValue((Single)r.range(-999, 999) / 8));
		boxes.push_back(new BooleanValue(r.chance(1, 2)));
		boxes.push_back(new CharValue((Char)r.range(33, 126)));
		boxes.push_back(new DateTimeValue(DateTime((UInt64)r.below(3155378975999999999ULL))));
		boxes.push_back(new TimeSpanValue(TimeSpan((Int64)interesting64(r))));
		int n = (int)r.range(4, 40);
		ints = new Array(Int32Type, n);
		bytes = new Array(ByteType, n * 8);
		doubles = new Array(DoubleType, n);
		chars = new Array(CharType, n);
		few = new Array(CharType, (Int32)r.range(1, 7));
		for (int i = 0; i < few->get_Length(); i++) *(Char*)few->Address(i) = L" abcdxyz,"[r.below(9)];
		grid = new Array(Int16Type, 3, 4);
		for (int i = 0; i < 12; i++) *(Int16*)grid->Address(i / 4, i % 4) = (Int16)r.next();
		index = new Array(Int32Type, 2);
		*(Int32*)index->Address(0) = (Int32)r.below(3);
		*(Int32*)index->Address(1) = (Int32)r.below(4);
		strings = new Array(StringType, 6);
		objects = new Array(ObjectType, (Int32)boxes.size());
		for (int i = 0; i < n; i++) { *(Int32*)ints->Address(i) = interesting32(r); *(Double*)doubles->Address(i) = interestingD(r); *(Char*)chars->Address(i) = (Char)r.range(33, 126); }
		for (int i = 0; i < n * 8; i++) *(Byte*)bytes->Address(i) = (Byte)r.next();
		for (int i = 0; i < 6; i++) *(String**)strings->Address(i) = r.chance(1, 6) ? nullptr : s[i];
		for (size_t i = 0; i < boxes.size(); i++) *(Object**)objects->Address((Int32)i) = boxes[i];
		sb = new StringBuilder(s[r.below(6)]);
		if (r.chance(1, 2)) sb->Append(s[5]);
	}
	~Shared() {
		for (auto* x : s) delete x;
		for (auto* x : boxes) delete x;
		delete ints; delete bytes; delete strings; delete objects; delete chars; delete doubles; delete sb; delete few; delete index; delete grid;
	}
};
enum { READS = 21 };
static uint64_t read(Shared& sh, int kind, uint64_t seed) {
	Rng r(seed);
	Trace t;
	String *a = sh.s[r.below(sh.s.size())], *b = sh.s[r.below(sh.s.size())];
	Object *x = sh.boxes[r.below(sh.boxes.size())], *y = sh.boxes[r.below(sh.boxes.size())];
	int la = a->get_Length(), at = (int)r.range(-1, la + 1), cnt = (int)r.range(0, la + 1), n = sh.ints->get_Length(), i = (int)r.range(-1, n);
	switch (kind) {
	case 0: t.go([&] { t.u((uint64_t)a->get_Chars(at)); }); t.s(a); break;
	case 1: t.go([&] { t.u((uint64_t)a->IndexOf(b)); t.u((uint64_t)(bool)a->Contains(b)); t.u((uint64_t)a->LastIndexOf((Char)L'a')); t.u((uint64_t)a->IndexOfAny(sh.chars)); }); break;
	case 2: t.go([&] { t.u((uint64_t)a->IndexOf(b, at, cnt)); }); t.go([&] { t.u((uint64_t)(bool)a->StartsWith(b)); t.u((uint64_t)(bool)a->EndsWith(b)); }); break;
	case 3: t.go([&] { t.u((uint64_t)String::Compare(a, b)); t.u((uint64_t)String::Compare(a, b, true)); t.u((uint64_t)String::CompareOrdinal(a, b)); t.u((uint64_t)(bool)a->Equals(b)); t.u((uint64_t)a->CompareTo(b)); }); break;
	case 4: t.go([&] { t.take(a->Substring(at, cnt), a, b); }); t.go([&] { t.take(a->Insert(at, b), a, b); }); t.go([&] { t.take(a->Remove(at, cnt), a, b); }); break;
	case 5: t.go([&] { t.take(a->ToUpper(), a, b); t.take(a->ToLower(), a, b); t.take(a->Trim(), a, b); t.take(a->Replace((Char)L'a', (Char)L'b'), a, b); t.take(a->PadLeft(la + 4), a, b); }); break;
	case 6: t.go([&] { t.take(String::Concat(a, b), a, b); t.take(String::Join(b, sh.strings), a, b); t.take(String::Concat(sh.strings), a, b); }); break;
	case 7: { CharEnumerator* e = a->GetEnumerator(); while (e->MoveNext()) t.u((uint64_t)e->get_Current()); delete e; break; }
	case 8: t.go([&] { String* z = x->ToString(); t.take(z); }); t.go([&] { t.u((uint64_t)(bool)Object::Equals(x, y)); t.u((uint64_t)(bool)x->Equals(y)); }); break;
	case 9: t.go([&] { t.u((uint64_t)x->get_AsInt32()); t.u((uint64_t)x->get_AsInt64()); t.u((uint64_t)(bool)x->get_AsBoolean()); }); break;
	case 10: t.go([&] { Object* o = sh.ints->GetValue(i); t.u((uint64_t)o->get_AsInt32()); delete o; }); t.go([&] { t.u((uint64_t)Array::IndexOf(sh.objects, x)); }); break;
	case 11: t.go([&] { Array to(Int32Type, n); Array::Copy(sh.ints, 0, &to, 0, n); sh.ints->CopyTo(&to, 0); Buffer::BlockCopy(sh.bytes, 0, &to, 0, n * 4); for (int k = 0; k < n; k++) t.u((uint64_t) * (Int32*)to.Address(k)); }); break;
	case 12: t.go([&] { t.u((uint64_t)BitConverter::ToInt64(sh.bytes, i)); t.u((uint64_t)BitConverter::ToInt16(sh.bytes, i)); t.d(BitConverter::ToDouble(sh.bytes, i)); t.take(BitConverter::ToString(sh.bytes), a, b); }); t.go([&] { t.u((uint64_t)Buffer::GetByte(sh.doubles, i)); }); break;
	case 13: t.go([&] { t.take(sh.sb->ToString(), a, b); t.u((uint64_t)sh.sb->get_Chars((Int32)r.below(5))); StringBuilder own; own.Append(a); own.Append(x); own.Insert(0, b); if ((int64_t)own.get_Length() * la < 4000000) own.Replace(b, a); t.take(own.ToString(), a, b); }); break;
	case 14: t.go([&] { t.u((uint64_t)Int64Value::Parse(a)); }); t.go([&] { Double d = 0; t.u((uint64_t)(bool)DoubleValue::TryParse(a, d)); t.d(d); }); t.go([&] { TimeSpan ts; t.u((uint64_t)(bool)TimeSpanValue::TryParse(a, ts)); t.u((uint64_t)ts.value); }); break;
	case 19: {
		#define TRY(T, V) t.go([&] { T v = 0; t.u((uint64_t)(bool)V::TryParse(a, v)); t.u((uint64_t)v); }); t.go([&] { t.u((uint64_t)V::Parse(a)); });
		TRY(Byte, ByteValue) TRY(SByte, SByteValue) TRY(Int16, Int16Value) TRY(UInt16, UInt16Value) TRY(Int32, Int32Value) TRY(UInt32, UInt32Value) TRY(Int64, Int64Value) TRY(UInt64, UInt64Value)
		#undef TRY
		t.go([&] { Single d = 0; t.u((uint64_t)(bool)SingleValue::TryParse(a, d)); t.d(d); });
		t.go([&] { t.u((uint64_t)(bool)BooleanValue::Parse(a)); });
		t.go([&] { Char v = 0; t.u((uint64_t)(bool)CharValue::TryParse(a, v)); t.u((uint64_t)v); });
		break;
	}
	case 15: t.go([&] { t.take(a->Trim(sh.few), a, b); t.take(a->TrimStart(sh.few), a, b); t.take(a->TrimEnd(sh.few), a, b); t.u((uint64_t)a->IndexOfAny(sh.few)); t.u((uint64_t)a->LastIndexOfAny(sh.few)); }); break;
	case 16: t.go([&] { Array* z = a->ToCharArray(at, cnt); t.u((uint64_t)z->get_Length()); delete z; }); t.go([&] { Array to(CharType, 30); a->CopyTo(at, &to, 0, cnt % 30); for (int k = 0; k < 30; k++) t.u((uint64_t) * (Char*)to.Address(k)); }); t.go([&] { String z(sh.few); t.s(&z); String q(sh.chars, 1, 2); t.s(&q); }); break;
	case 17: t.go([&] { t.u((uint64_t)(bool)String::IsNullOrEmpty(a)); t.u((uint64_t)(bool)String::IsNullOrWhiteSpace(a)); t.u((uint64_t)(bool)String::op_Inequality(a, b)); t.take(String::Copy(a), a, b); t.take(a->ToString(), a, b); StringBuilder z(a); z.Append(sh.few); z.Insert(0, sh.few); t.take(z.ToString(), a, b); }); t.go([&] { t.take(String::Join(L';', sh.objects)); t.take(String::Concat(sh.objects)); }); break;
	case 18: t.go([&] { Object* o = sh.grid->GetValue(sh.index); t.u((uint64_t)o->get_AsInt32()); delete o; t.u((uint64_t)sh.grid->GetLength(1)); t.u((uint64_t)sh.grid->GetUpperBound(0)); Array own(Int16Type, 3, 4); Array::Copy(sh.grid, 0, &own, 0, 12); own.SetValue(x, sh.index); }); t.go([&] { Array own(Int16Type, 3, 4); own.Initialize(sh.grid->Address(0, 0)); t.u((uint64_t) * (Int16*)own.Address(2, 3)); }); t.go([&] { Array own(CharType, 20); Buffer::BlockCopy(sh.few, 0, &own, 4, 4); t.u((uint64_t) * (Char*)own.Address(1)); }); break;
	default: {
		DateTimeValue* d = dynamic_cast<DateTimeValue*>(sh.boxes[8]);
		TimeSpanValue* p = dynamic_cast<TimeSpanValue*>(sh.boxes[9]);
		t.go([&] { t.u((uint64_t)d->get_Year()); t.u((uint64_t)d->get_DayOfYear()); t.u((uint64_t)d->AddMonths(at).value); t.u((uint64_t)d->AddDays(1.5 * at).value); });
		t.go([&] { t.u((uint64_t)p->get_Days()); t.d(p->get_TotalHours()); t.u((uint64_t)p->Duration().value); });
		Char buf[80];
		t.go([&] { t.u((uint64_t)d->FormatString(buf, 80)); t.h = hashBytes(buf, wcslen(buf) * sizeof(Char), t.h); });
		t.go([&] { Char cb[1100]; t.u((uint64_t)a->FormatString(cb, 1100)); });
		t.u((uint64_t)TimeSpanValue::MaxValue.value); t.u((uint64_t)DateTimeValue::MaxValue.value); t.u((uint64_t)Int32Value::MaxValue); t.s(String::Empty); t.s(BooleanValue::TrueString);
	}
	}
	return t.h;
}
}  // namespace ro
SECTION(readers, 3, 8) {
	using namespace ro;
	uint64_t rounds = c.n(2500, 80000);
	Schedules sch;
	for (uint64_t q = 0; q < rounds; q++) {
		Rng& r = c.rng;
		Shared sh(r);
		int threads = (int)r.range(2, 4), len = (int)r.range(20, 60);
		bool before = r.chance(1, 2), alike = r.chance(1, 2);
		int kind = (int)((q * c.shards + c.shard) % READS);
		std::vector<std::vector<std::pair<int, uint64_t>>> list(threads);
		for (int k = 0; k < threads; k++) for (int i = 0; i < len; i++) list[k].push_back(std::make_pair(alike ? kind : (int)r.below(READS), r.next()));
		c.begin(true, "%d threads reading shared objects, %d reads each of kind %d, seed %llu", threads, len, alike ? kind : -1, (unsigned long long)r.s);
		std::vector<std::vector<uint64_t>> alone(threads), got(threads);
		std::vector<std::vector<Span>> spans(threads);
		auto reference = [&] { for (int k = 0; k < threads; k++) for (auto& x : list[k]) alone[k].push_back(read(sh, x.first, x.second)); };
		if (before) reference();
		together(threads, [&](int k) {
			for (auto& x : list[k]) {
				Span s = {now(), 0, k, x.first};
				got[k].push_back(read(sh, x.first, x.second));
				s.to = now();
				spans[k].push_back(s);
			}
		});
		if (!before) reference();
		for (int k = 0; k < threads; k++)
			for (int i = 0; i < len; i++) CHECK(got[k][i] == alone[k][i], "a read gave another result while other threads read", "kind %d in thread %d of %d", list[k][i].first, k, threads);
		c.event("reads compared", (uint64_t)threads * len);
		sch.observe(c, spans);
	}
}

// clock and zone: conversions in one thread are not mixed up with those of another
SECTION(zones, 2, 4) {
	static const struct { const char* tz; int minutes; } kZones[] = {{"AAA-5:30", 330}, {"BBB8", -480}, {"CCC-14", 840}, {"DDD12", -720}, {"UTC0", 0}};
	uint64_t rounds = c.n(4000, 40000);
	Schedules sch;
	for (uint64_t q = 0; q < rounds; q++) {
		Rng& r = c.rng;
		auto& z = kZones[r.below(5)];
		setenv("TZ", z.tz, 1);  // while there is one thread
		tzset();
		int threads = (int)r.range(2, 4), len = (int)r.range(50, 200), late[4] = {}, wrong[4] = {};
		c.begin(true, "%d threads converting %d times in zone %s, seed %llu", threads, len, z.tz, (unsigned long long)r.s);
		uint64_t seed = r.next(), t0 = DateTimeValue::get_UtcNow().value;
		int64_t off = (int64_t)z.minutes * 600000000;
		std::vector<std::vector<Span>> spans(threads);
		together(threads, [&](int k) {
			Rng rr(mix(seed, (uint64_t)k));
			for (int i = 0; i < len; i++) {
				Span s = {now(), 0, k, (int)rr.below(5)};
				uint64_t v = 630000000000000000ULL + rr.below(1000000000000000ULL);
				DateTimeValue d((DateTime((UInt64)v)));
				switch (s.kind) {
				case 0: wrong[k] += (int64_t)d.ToLocalTime().value != (int64_t)v + off; break;
				case 1: wrong[k] += (int64_t)d.ToUniversalTime().value != (int64_t)v - off; break;
				case 2: { uint64_t u = DateTimeValue::get_UtcNow().value; late[k] += u + 36000000000ULL < t0 || u > t0 + 36000000000ULL; break; }
				case 3: { uint64_t u = (uint64_t)((int64_t)DateTimeValue::get_Now().value - off); late[k] += u + 36000000000ULL < t0 || u > t0 + 36000000000ULL; break; }
				default: { uint64_t u = DateTimeValue::get_Today().value; late[k] += u % 864000000000ULL != 0 || (int64_t)u > (int64_t)t0 + off + 36000000000LL || (int64_t)u < (int64_t)t0 + off - 864000000000LL; break; }
				}
				s.to = now();
				spans[k].push_back(s);
			}
		});
		for (int k = 0; k < threads; k++) {
			CHECK(wrong[k] == 0, "zone conversion wrong while other threads worked", "%d of %d in thread %d", wrong[k], len, k);
			CHECK(late[k] == 0, "clock reading wrong while other threads worked", "%d of %d in thread %d", late[k], len, k);
		}
		c.event("readings and conversions", (uint64_t)threads * len);
		sch.observe(c, spans);
	}
}
