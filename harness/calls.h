// Self-contained calls over the whole API: each builds its own operands from a seed, runs a short piece of work and returns a
// hash of everything it observed. Nothing may depend on what ran before, so the hash is a function of (kind, seed).
#pragma once
#include "text.h"
#include <algorithm>

struct Trace {
	uint64_t h = 1;
	void u(uint64_t v) { h = mix(h, v); }
	void d(double v) { u(v != v ? 1 : bitsOf(v)); }
	void s(String* v) {
		if (!v) { u(77); return; }
		u((uint64_t)v->get_Length());
		h = hashBytes(v->get_Buffer(), (size_t)v->get_Length() * sizeof(Char), h);
	}
	void take(String* v, String* a = nullptr, String* b = nullptr) {  // observe a result and release it
		s(v);
		if (v && v != a && v != b && v != String::Empty) delete v;
	}
	template <class F> void go(F f) { u((uint64_t)run(f)); }
};
enum { CALLS = 30 };
inline const char* callName(int k) {
	static const char* n[CALLS] = {"Math rounding", "Math elementary", "Math bits", "Math integers", "integer text", "floating text", "TimeSpan arithmetic", "TimeSpan text", "DateTime parts", "DateTime arithmetic", "DateTime text",
		"characters", "string searches", "string transformations", "string comparisons", "builder", "arrays", "bytes", "boxes", "enumerators", "Boolean and Char text", "array conversion copies",
		"joins and trims", "builder with values", "arrays of several dimensions", "values into buffers", "comparisons of boxes", "dates compared", "exceptions", "wrapped and converted strings"};
	return n[k];
}
inline W callText(Rng& r) { return r.chance(1, 12) ? W(bigSize(r, 1500), L'q') + smallText(r, 4) : text(r); }

inline uint64_t call(int kind, uint64_t seed) {
	Rng r(mix(seed, (uint64_t)kind));
	Trace t;
	switch (kind) {
	case 0:
		for (int i = 0; i < 12; i++) {
			double v = r.chance(1, 3) ? (double)r.range(-1000000000, 1000000000) / std::pow(10.0, (double)r.range(0, 12)) : r.chance(1, 2) ? (double)r.range(-1000000000000000, 1000000000000000) / std::pow(10.0, (double)r.range(8, 17)) : interestingD(r);
			int dg = (int)r.range(-1, 16), m = (int)r.range(0, 4);
			// one of them at a time: two calls with the same argument could undo each other's traces
			if (r.chance(1, 6)) t.go([&] { t.d(Math::Round(v)); });
			else if (r.chance(1, 6)) t.go([&] { t.d(Math::Round(v, dg)); });
			else if (r.chance(1, 6)) t.go([&] { t.d(Math::Floor(v)); t.d(Math::Ceiling(v)); t.d(Math::Truncate(v)); });
			else t.go([&] { t.d(Math::Round(v, dg, (MidpointRounding)m)); });
		}
		break;
	case 1: {
		double v = interestingD(r), w = interestingD(r);
		t.go([&] { t.d(Math::Sin(v)); t.d(Math::Cos(v)); t.d(Math::Tan(v)); t.d(Math::Asin(v)); t.d(Math::Acos(v)); t.d(Math::Atan(v)); t.d(Math::Atan2(v, w)); t.d(Math::Sinh(v)); t.d(Math::Cosh(v)); t.d(Math::Tanh(v)); });
		t.go([&] { t.d(Math::Asinh(v)); t.d(Math::Acosh(v)); t.d(Math::Atanh(v)); t.d(Math::Exp(v)); t.d(Math::Log(v)); t.d(Math::Log(v, w)); t.d(Math::Log10(v)); t.d(Math::Log2(v)); t.d(Math::Pow(v, w)); t.d(Math::Cbrt(v)); t.d(Math::Sqrt(v)); });
		break;
	}
	case 2: {
		double v = interestingD(r), w = interestingD(r), x = interestingD(r);
		int n = interesting32(r);
		t.go([&] { t.d(Math::BitIncrement(v)); t.d(Math::BitDecrement(v)); t.d(Math::CopySign(v, w)); t.d(Math::ScaleB(v, n)); t.u((uint64_t)Math::ILogB(v)); t.d(Math::IEEERemainder(v, w)); t.d(Math::FusedMultiplyAdd(v, w, x)); });
		t.go([&] { t.d(Math::Max(v, w)); t.d(Math::Min(v, w)); t.d(Math::MaxMagnitude(v, w)); t.d(Math::MinMagnitude(v, w)); t.d(Math::Abs(v)); t.d(Math::Clamp(v, w, x)); });
		t.go([&] { t.u((uint64_t)Math::Sign(v)); });
		break;
	}
	case 3: {
		Int32 a = interesting32(r), b = interesting32(r), q = 5;
		Int64 c = interesting64(r), d = interesting64(r), p = 5;
		t.go([&] { t.u((uint64_t)Math::Abs(a)); });
		t.go([&] { t.u((uint64_t)Math::Abs(c)); });
		t.go([&] { t.u((uint64_t)Math::DivRem(a, b, q)); t.u((uint64_t)q); });
		t.go([&] { t.u((uint64_t)Math::DivRem(c, d, p)); t.u((uint64_t)p); });
		t.go([&] { t.u((uint64_t)Math::BigMul(a, b)); t.u((uint64_t)Math::Max(c, d)); t.u((uint64_t)Math::Min(a, b)); t.u((uint64_t)Math::Sign(c)); });
		t.go([&] { t.u((uint64_t)Math::Clamp(a, b, (Int32)5)); });
		t.go([&] { t.u((uint64_t)Math::Divide(c, d)); });
		break;
	}
	case 4: {
		Int64 v = interesting64(r);
		Object* o[] = {new Int64Value(v), new UInt64Value((UInt64)v), new Int32Value((Int32)v), new UInt32Value((UInt32)v), new Int16Value((Int16)v), new UInt16Value((UInt16)v), new ByteValue((Byte)v), new SByteValue((SByte)v)};
		for (Object* x : o) { String* s = x->ToString(); t.take(s); delete x; }
		W w = wide(dec(v));
		if (r.chance(1, 3)) w.insert(r.below(w.size() + 1), 1, anyChar(r));
		String* s = mk(w);
		t.go([&] { t.u((uint64_t)Int64Value::Parse(s)); });
		t.go([&] { t.u((uint64_t)UInt64Value::Parse(s)); });
		t.go([&] { t.u((uint64_t)Int32Value::Parse(s)); });
		t.go([&] { t.u((uint64_t)UInt32Value::Parse(s)); });
		t.go([&] { t.u((uint64_t)Int16Value::Parse(s)); });
		t.go([&] { t.u((uint64_t)UInt16Value::Parse(s)); });
		t.go([&] { t.u((uint64_t)ByteValue::Parse(s)); });
		t.go([&] { t.u((uint64_t)SByteValue::Parse(s)); });
		delete s;
		break;
	}
	case 5: {
		double v = interestingD(r);
		DoubleValue dv(v);
		SingleValue sv((Single)v);
		t.take(dv.ToString());
		t.take(sv.ToString());
		char b[400];
		snprintf(b, sizeof b, "%.*g", (int)r.range(1, 20), std::isfinite(v) ? v : 1.5);
		W w = wide(b);
		if (r.chance(1, 3)) w.insert(r.below(w.size() + 1), 1, anyChar(r));
		String* s = mk(w);
		t.go([&] { t.d(DoubleValue::Parse(s)); });
		Single x = 3;
		t.go([&] { t.u((uint64_t)(bool)SingleValue::TryParse(s, x)); t.d(x); });
		delete s;
		break;
	}
	case 6: {
		TimeSpanValue a((TimeSpan)(Int64)interesting64(r));
		TimeSpan b((Int64)interesting64(r));
		double f = interestingD(r);
		t.go([&] { t.u((uint64_t)a.Add(b).value); });
		t.go([&] { t.u((uint64_t)a.Subtract(b).value); });
		t.go([&] { t.u((uint64_t)a.Multiply(f).value); });
		t.go([&] { t.u((uint64_t)a.Divide(f).value); });
		t.go([&] { t.u((uint64_t)a.Negate().value); });
		t.go([&] { t.u((uint64_t)a.Duration().value); });
		t.go([&] { t.u((uint64_t)a.get_Days()); t.u((uint64_t)a.get_Hours()); t.u((uint64_t)a.get_Minutes()); t.u((uint64_t)a.get_Seconds()); t.u((uint64_t)a.get_Milliseconds()); t.d(a.get_TotalDays()); t.d(a.get_TotalHours()); });
		t.go([&] { t.u((uint64_t)TimeSpanValue::FromDays(f).value); });
		t.go([&] { t.u((uint64_t)TimeSpanValue::FromMilliseconds(f).value); });
		break;
	}
	case 7: {
		TimeSpanValue a((TimeSpan)(Int64)interesting64(r));
		String* s = a.ToString();
		t.s(s);
		t.go([&] { t.u((uint64_t)TimeSpanValue::Parse(s).value); });
		W w = str(s);
		delete s;
		w.insert(r.below(w.size() + 1), 1, L"0:.-9 "[r.below(6)]);
		s = mk(w);
		t.go([&] { t.u((uint64_t)TimeSpanValue::Parse(s).value); });
		delete s;
		break;
	}
	case 8: {
		DateTimeValue d(DateTime((UInt64)(r.next() % 3155378976000000000ULL)));
		t.go([&] { t.u((uint64_t)d.get_Year()); t.u((uint64_t)d.get_Month()); t.u((uint64_t)d.get_Day()); t.u((uint64_t)d.get_Hour()); t.u((uint64_t)d.get_Minute()); t.u((uint64_t)d.get_Second()); t.u((uint64_t)d.get_Millisecond()); t.u((uint64_t)d.get_DayOfYear()); t.u((uint64_t)d.get_DayOfWeek()); });
		int y = (int)r.range(0, 10001), m = (int)r.range(0, 14), q = (int)r.range(0, 33);
		t.go([&] { t.u((uint64_t)DateTime(y, m, q).value); });
		t.go([&] { t.u((uint64_t)(bool)DateTimeValue::IsLeapYear(y)); });
		t.go([&] { t.u((uint64_t)DateTimeValue::DaysInMonth(y, m)); });
		break;
	}
	case 9: {
		DateTimeValue d(DateTime((UInt64)(r.next() % 3155378976000000000ULL)));
		int n = r.chance(1, 2) ? interesting32(r) : (int)r.range(-3000, 3000);
		double f = r.chance(1, 2) ? interestingD(r) : (double)r.range(-100000, 100000) / 7;
		TimeSpan ts((Int64)interesting64(r));
		t.go([&] { t.u((uint64_t)d.AddMonths(n).value); });
		t.go([&] { t.u((uint64_t)d.AddYears(n).value); });
		t.go([&] { t.u((uint64_t)d.AddDays(f).value); });
		t.go([&] { t.u((uint64_t)d.AddMilliseconds(f).value); });
		t.go([&] { t.u((uint64_t)d.Add(ts).value); });
		t.go([&] { t.u((uint64_t)d.Subtract(ts).value); });
		break;
	}
	case 10: {
		DateTimeValue d(DateTime((UInt64)(r.next() % 3155378976000000000ULL)));
		t.go([&] { t.take(d.ToString()); });
		break;
	}
	case 11: {
		Char ch = r.chance(1, 2) ? anyChar(r) : (Char)r.below(65536);
		if (ch > 0xffff) ch = 0x41;
		t.go([&] {
			t.u((uint64_t)(bool)CharValue::IsLetter(ch) | (uint64_t)(bool)CharValue::IsDigit(ch) << 1 | (uint64_t)(bool)CharValue::IsWhiteSpace(ch) << 2 | (uint64_t)(bool)CharValue::IsUpper(ch) << 3 | (uint64_t)(bool)CharValue::IsLower(ch) << 4 |
				(uint64_t)(bool)CharValue::IsPunctuation(ch) << 5 | (uint64_t)(bool)CharValue::IsControl(ch) << 6 | (uint64_t)(bool)CharValue::IsSeparator(ch) << 7 | (uint64_t)(bool)CharValue::IsNumber(ch) << 8);
			t.u((uint64_t)CharValue::ToUpper(ch));
			t.u((uint64_t)CharValue::ToLower(ch));
			t.d(CharValue::GetNumericValue(ch));
			t.take(CharValue::ToString(ch));
		});
		break;
	}
	case 12: {
		W w = callText(r), q = r.chance(1, 2) && !w.empty() ? w.substr(r.below(w.size()), 1 + r.below(4)) : smallText(r, 3);
		String *s = mk(w), *p = mk(q);
		Array* any = charArray(smallText(r, 4, L"abcxyz "));
		int at = pos(r, (int)w.size()), n = pos(r, (int)w.size());
		Char ch = w.empty() ? L'a' : w[r.below(w.size())];
		t.go([&] { t.u((uint64_t)s->IndexOf(p)); });
		t.go([&] { t.u((uint64_t)s->LastIndexOf(ch)); });
		t.go([&] { t.u((uint64_t)s->IndexOf(ch, at, n)); });
		t.go([&] { t.u((uint64_t)s->IndexOfAny(any)); });
		t.go([&] { t.u((uint64_t)s->LastIndexOfAny(any)); });
		t.go([&] { t.u((uint64_t)(bool)s->Contains(p) | (uint64_t)(bool)s->StartsWith(p) << 1 | (uint64_t)(bool)s->EndsWith(p) << 2); });
		delete s; delete p; delete any;
		break;
	}
	case 13: {
		W w = callText(r), q = smallText(r, 3), z = smallText(r, 5);
		String *s = mk(w), *p = mk(q), *x = mk(z);
		int at = pos(r, (int)w.size()), n = pos(r, (int)w.size());
		if (n < 0) n = 0;
		t.go([&] { t.take(s->Substring(at, n), s); });
		t.go([&] { t.take(s->Insert(at, x), s, x); });
		t.go([&] { t.take(s->Remove(at, n), s); });
		t.go([&] { t.take(s->Replace(p, x), s, x); });
		t.go([&] { t.take(s->PadLeft((int)w.size() + 5), s); });
		t.go([&] { t.take(s->PadRight((int)w.size() + 7, L'.'), s); });
		t.go([&] { t.take(s->Trim(), s); });
		t.go([&] { t.take(s->ToUpper(), s); });
		t.go([&] { t.take(s->ToLower(), s); });
		t.go([&] { t.take(String::Concat((Object*)s, (Object*)p, (Object*)x), s, p); });
		delete s; delete p; delete x;
		break;
	}
	case 14: {
		W w = callText(r), q = r.chance(1, 2) ? w : callText(r);
		if (!q.empty() && r.chance(1, 2)) q[r.below(q.size())] ^= 32;
		if (q.find(L'\0') != W::npos) q = L"x";
		String *s = mk(w), *p = mk(q);
		auto sg = [](int v) { return (uint64_t)(v < 0 ? 1 : v > 0 ? 2 : 3); };
		int at = pos(r, (int)w.size()), bt = pos(r, (int)q.size()), n = pos(r, (int)w.size());
		t.go([&] { t.u(sg(String::Compare(s, p))); t.u(sg(String::Compare(s, p, true))); t.u(sg(String::CompareOrdinal(s, p))); t.u(sg(s->CompareTo(p))); t.u((uint64_t)(bool)s->Equals(p)); });
		t.go([&] { t.u(sg(String::Compare(s, at, p, bt, n, r.chance(1, 2)))); });
		delete s; delete p;
		break;
	}
	case 15: {
		StringBuilder b;
		for (int i = (int)r.range(1, 25); i > 0; i--) {
			W w = callText(r);
			String* s = mk(w);
			int at = r.chance(1, 3) ? pos(r, b.get_Length()) : (int)r.range(0, b.get_Length()), n = (int)r.range(0, b.get_Length() - std::min(std::max(at, 0), b.get_Length()));
			switch (r.below(7)) {
			case 0: t.go([&] { b.Append(s); }); break;
			case 1: t.go([&] { b.Insert(at, s); }); break;
			case 2: t.go([&] { b.Remove(at, n); }); break;
			case 3: t.go([&] { b.Append((Int32)r.range(-99999, 99999)); }); break;
			case 4: t.go([&] { b.Append((Double)r.range(-99999, 99999) / 8); }); break;
			case 5: t.go([&] { b.Replace(L'a', L'b'); }); break;
			default: t.go([&] { b.Append(L'x', (Int32)r.range(0, 300)); }); break;
			}
			delete s;
		}
		t.take(b.ToString());
		break;
	}
	case 16: {
		int n = r.chance(1, 10) ? bigSize(r, 3000) : (int)r.range(0, 30);
		Array a(Int32Type, n), b(Int32Type, n);
		for (int i = 0; i < n; i++) *(Int32*)a.Address(i) = interesting32(r);
		int at = pos(r, n), to = pos(r, n), k = pos(r, n);
		t.go([&] { Array::Copy(&a, at, &b, to, k); });
		t.go([&] { Array::Copy(&b, 0, &a, 0, n / 2); });
		t.go([&] { Array::Clear(&a, to, k / 2); });
		for (int i = 0; i < n; i++) { t.u((uint64_t)*(Int32*)a.Address(i)); t.u((uint64_t)*(Int32*)b.Address(i)); }
		break;
	}
	case 17: {
		Int64 v = interesting64(r);
		double d = interestingD(r);
		Array *x = BitConverter::GetBytes(v), *y = BitConverter::GetBytes(d);
		t.go([&] { t.take(BitConverter::ToString(x)); t.u((uint64_t)BitConverter::ToInt64(x, 0)); t.u((uint64_t)BitConverter::ToInt32(x, 2)); t.d(BitConverter::ToDouble(y, 0)); });
		t.go([&] { Buffer::BlockCopy(x, 1, y, 0, (int)r.range(0, 9)); });
		t.go([&] { for (int i = 0; i < 8; i++) t.u((uint64_t)Buffer::GetByte(y, i)); });
		delete x; delete y;
		break;
	}
	case 18: {
		Int64 v = interesting64(r);
		Object* o[] = {new Int64Value(v), new UInt32Value((UInt32)v), new Int16Value((Int16)v), new CharValue((Char)(v & 0xffff)), new BooleanValue(v & 1), new DoubleValue((Double)(v % 100000) / 4)};
		for (Object* x : o) {
			t.go([&] { t.u((uint64_t)x->get_AsInt64()); });
			t.go([&] { t.u((uint64_t)x->get_AsInt32()); });
			t.go([&] { t.d(x->get_AsDouble()); });
			t.go([&] { t.take(x->ToString()); });
			for (Object* y : o) t.u((uint64_t)(bool)Object::Equals(x, y));
		}
		for (Object* x : o) delete x;
		break;
	}
	case 19: {
		W w = callText(r);
		String* s = mk(w);
		CharEnumerator* e = s->GetEnumerator();
		for (int i = (int)r.range(0, (int)w.size() + 3); i > 0; i--) { t.u((uint64_t)(bool)e->MoveNext()); t.go([&] { t.u((uint64_t)e->get_Current()); }); if (r.chance(1, 9)) e->Reset(); }
		delete e; delete s;
		break;
	}
	case 20: {
		String* s = mk(r.chance(1, 2) ? W(r.chance(1, 2) ? L"True" : L"fALSE") : smallText(r, 2, L"abT1"));
		t.go([&] { t.u((uint64_t)(bool)BooleanValue::Parse(s)); });
		t.go([&] { t.u((uint64_t)CharValue::Parse(s)); });
		Char ch = L'q';
		t.go([&] { t.u((uint64_t)(bool)CharValue::TryParse(s, ch)); t.u((uint64_t)ch); });
		delete s;
		break;
	}
	case 21: {
		int n = (int)r.range(0, 12);
		Array a(ByteType, n), b(ObjectType, n);
		for (int i = 0; i < n; i++) *(Byte*)a.Address(i) = (Byte)r.next();
		t.go([&] { for (int i = 0; i < n; i++) { Object* o = a.GetValue(i); b.SetValue(o, i); } });
		t.go([&] { for (int i = 0; i < n; i++) t.u((uint64_t)b.GetValue(i)->get_AsInt32()); });
		for (int i = 0; i < n; i++) delete *(Object**)b.Address(i);
		break;
	}
	case 22: {
		int n = (int)r.range(0, 9);
		Array list(StringType, n), objs(ObjectType, n);
		std::vector<String*> own;
		for (int i = 0; i < n; i++) {
			String* x = r.chance(1, 6) ? nullptr : own.size() && r.chance(1, 5) ? own[r.below(own.size())] : mk(callText(r));
			if (x && std::find(own.begin(), own.end(), x) == own.end()) own.push_back(x);
			*(String**)list.Address(i) = x;
			*(Object**)objs.Address(i) = x;
		}
		String *sep = mk(smallText(r, 3, L",; ")), *s = mk(smallText(r, 4, L" xy\t") + callText(r) + smallText(r, 4, L" xy\t"));
		Array* any = charArray(smallText(r, 4, L" xy\t"));
		int at = pos(r, n), k = pos(r, n);
		auto plain = [&](String* v) { bool mine = v == s || v == sep; for (String* x : own) mine |= x == v; t.take(v, mine ? v : nullptr); };
		t.go([&] { plain(String::Join(sep, &list)); });
		t.go([&] { plain(String::Join((Char)L'/', &list)); });
		t.go([&] { plain(String::Join(sep, &list, at, k)); });
		t.go([&] { plain(String::Join((Char)L'+', &objs, at, k)); });
		t.go([&] { plain(String::Concat(&list)); });
		t.go([&] { plain(String::Concat(&objs)); });
		t.go([&] { plain(s->Trim()); });
		t.go([&] { plain(s->Trim(any)); });
		t.go([&] { plain(s->TrimStart(any)); });
		t.go([&] { plain(s->TrimEnd(any)); });
		for (String* x : own) delete x;
		delete sep; delete s; delete any;
		break;
	}
	case 23: {
		StringBuilder b((Int32)r.range(0, 40), (Int32)r.range(40, 4000));
		for (int i = (int)r.range(1, 20); i > 0; i--) {
			int len = b.get_Length(), at = r.chance(1, 5) ? pos(r, len) : (int)r.range(0, len), k = r.chance(1, 5) ? pos(r, len) : (int)r.range(0, len - std::min(std::max(at, 0), len));
			Int64 v = interesting64(r);
			double f = interestingD(r);
			String *x = mk(smallText(r, 3)), *y = mk(smallText(r, 5));
			Array* arr = charArray(callText(r));
			t.go([&] {
				switch (r.below(26)) {
				case 0: b.Append((Byte)v); break;
				case 1: b.Append((Int16)v); break;
				case 2: b.Append((UInt32)v); break;
				case 3: b.Append((UInt64)v); break;
				case 4: b.Append((SByte)v); break;
				case 5: b.Append((Single)f); break;
				case 6: b.Append((UInt16)v); break;
				case 7: b.Append((Int64)v); break;
				case 8: b.Insert(at, (Byte)v); break;
				case 9: b.Insert(at, (Int16)v); break;
				case 10: b.Insert(at, (UInt32)v); break;
				case 11: b.Insert(at, (UInt64)v); break;
				case 12: b.Insert(at, (Single)f); break;
				case 13: b.Insert(at, (Double)f); break;
				case 14: b.Insert(at, (Boolean)(v & 1)); break;
				case 15: b.Insert(at, (Char)L'q'); break;
				case 16: b.Insert(at, arr); break;
				case 17: b.Append(arr); break;
				case 18: b.Insert(at, y, (Int32)r.range(-1, 6)); break;
				case 19: b.AppendLine(y); break;
				case 20: b.Replace(x, y); break;
				case 21: b.Replace(x, y, at, k); break;
				case 22: b.Replace(L'a', L'z', at, k); break;
				case 23: if (at < len && at >= 0) b.set_Length(at); else b.set_Capacity(at); break;
				case 24: b.EnsureCapacity(at); break;
				default: t.take(b.ToString(at, k)); break;
				}
			});
			delete x; delete y; delete arr;
		}
		t.take(b.ToString());
		t.u((uint64_t)b.get_Capacity());
		break;
	}
	case 24: {
		static const DataType ts[] = {CharType, SByteType, ByteType, Int16Type, UInt16Type, Int32Type, UInt32Type, Int64Type, UInt64Type, SingleType, DoubleType, DateTimeType, TimeSpanType};
		DataType ty = ts[r.below(13)];
		int d[3] = {(int)r.range(1, 5), (int)r.range(1, 5), (int)r.range(1, 5)}, rank = (int)r.range(1, 3);
		Array a(ty, d[0], rank > 1 ? d[1] : -1, rank > 2 ? d[2] : -1), ix(Int32Type, r.chance(1, 6) ? (int)r.range(0, 4) : rank);
		for (int i = 0; i < 8; i++) {
			int p = pos(r, d[0]), q = rank > 1 ? pos(r, d[1]) : -1, m = rank > 2 ? pos(r, d[2]) : -1;
			int g[3] = {p, q, m};
			for (int k = 0; k < ix.get_Length() && k < 3; k++) *(Int32*)ix.Address(k) = g[k];
			Int32Value small((Int32)r.below(100));
			CharValue letter((Char)L'e');
			Object* o = ty == CharType ? (Object*)&letter : (Object*)&small;
			t.go([&] { if (r.chance(1, 2)) a.SetValue(o, p, q, m); else a.SetValue(o, &ix); });
			t.go([&] { Object* x = r.chance(1, 2) ? a.GetValue(p, q, m) : a.GetValue(&ix); t.u(x ? (uint64_t)x->GetRawDataType() : 99); if (x) { t.take(x->ToString()); delete x; } });
			t.go([&] { t.u((uint64_t)a.GetLength(q)); t.u((uint64_t)a.GetUpperBound(q)); t.u((uint64_t)a.GetLowerBound(q)); });
		}
		t.go([&] { t.u((uint64_t)a.get_Length()); t.u((uint64_t)a.get_Rank()); t.u((uint64_t)Buffer::ByteLength(&a)); });
		t.go([&] { Array::Clear(&a, (int)r.range(0, 3), (int)r.range(0, 3)); });
		break;
	}
	case 25: {
		Int64 v = interesting64(r);
		double f = interestingD(r);
		W w = callText(r);
		String* s = mk(w);
		StringBuilder sb(s);
		Object* o[] = {new Int64Value(v), new UInt64Value((UInt64)v), new Int32Value((Int32)v), new UInt32Value((UInt32)v), new Int16Value((Int16)v), new UInt16Value((UInt16)v), new ByteValue((Byte)v), new SByteValue((SByte)v), new DoubleValue(f), new SingleValue((Single)f),
			new BooleanValue(v & 1), new CharValue((Char)(32 + (v & 63))), new TimeSpanValue((TimeSpan)v), new DateTimeValue(DateTime((UInt64)v % 3155378976000000000ULL)), s, &sb};
		for (Object* x : o) {
			Char buf[64];
			memset(buf, 0x5A, sizeof buf);
			int size = r.chance(1, 2) ? (int)r.range(0, 64) : (int)r.range(0, 12);
			t.go([&] { t.u((uint64_t)x->FormatString(buf, size)); });
			int end = 0;
			while (end < 64 && buf[end] != 0 && buf[end] != 0x5A5A5A5A) end++;
			t.h = hashBytes(buf, end * sizeof(Char), t.h);
		}
		for (int i = 0; i < 14; i++) delete o[i];
		delete s;
		break;
	}
	case 26: {
		Int64 v = interesting64(r), w = interesting64(r);
		double f = interestingD(r), g = interestingD(r);
		Int64Value i8(v); UInt64Value u8((UInt64)v); Int32Value i4((Int32)v); UInt32Value u4((UInt32)v); Int16Value i2((Int16)v); UInt16Value u2((UInt16)v); ByteValue u1((Byte)v); SByteValue i1((SByte)v);
		DoubleValue fd(f); SingleValue fs((Single)f); TimeSpanValue sp((TimeSpan)v); DateTimeValue dt(DateTime((UInt64)v % 3155378976000000000ULL)); CharValue ch((Char)(v & 0xffff)); BooleanValue bo(v & 1);
		Object* o[] = {new Int64Value(w), new UInt64Value((UInt64)w), new Int32Value((Int32)w), new UInt32Value((UInt32)w), new Int16Value((Int16)w), new UInt16Value((UInt16)w), new ByteValue((Byte)w), new SByteValue((SByte)w), new DoubleValue(g), new SingleValue((Single)g),
			new BooleanValue(w & 1), new CharValue((Char)(w & 0xffff)), new TimeSpanValue((TimeSpan)w), new DateTimeValue(DateTime((UInt64)w % 3155378976000000000ULL)), nullptr};
		auto sg = [](int x) { return (uint64_t)(x < 0 ? 1 : x > 0 ? 2 : 3); };
		for (Object* x : o) {
			t.go([&] { t.u(sg(i8.CompareTo(x))); }); t.go([&] { t.u(sg(u8.CompareTo(x))); }); t.go([&] { t.u(sg(i4.CompareTo(x))); }); t.go([&] { t.u(sg(u4.CompareTo(x))); });
			t.go([&] { t.u(sg(i2.CompareTo(x))); }); t.go([&] { t.u(sg(u2.CompareTo(x))); }); t.go([&] { t.u(sg(u1.CompareTo(x))); }); t.go([&] { t.u(sg(i1.CompareTo(x))); });
			t.go([&] { t.u(sg(fd.CompareTo(x))); }); t.go([&] { t.u(sg(fs.CompareTo(x))); }); t.go([&] { t.u(sg(sp.CompareTo(x))); }); t.go([&] { t.u(sg(dt.CompareTo(x))); });
			t.go([&] { t.u((uint64_t)(bool)Object::Equals(&bo, x) | (uint64_t)(bool)Object::Equals(&ch, x) << 1 | (uint64_t)(bool)Object::Equals(&i8, x) << 2 | (uint64_t)(bool)Object::Equals(&fd, x) << 3); });
		}
		for (Object* x : o) if (x) delete x;
		break;
	}
	case 27: {
		DateTime a((UInt64)(r.next() % 3155378976000000000ULL)), b(r.chance(1, 4) ? a : DateTime((UInt64)(r.next() % 3155378976000000000ULL)));
		TimeSpan d((Int64)interesting64(r));
		t.go([&] { t.u((uint64_t)DateTimeValue::op_Addition(a, d).value); });
		t.go([&] { t.u((uint64_t)DateTimeValue::op_Subtraction(a, d).value); });
		t.go([&] { t.u((uint64_t)DateTimeValue::op_Subtraction(a, b).value); });
		t.u((uint64_t)(bool)DateTimeValue::op_LessThan(a, b) | (uint64_t)(bool)DateTimeValue::op_GreaterThanOrEqual(a, b) << 1 | (uint64_t)(bool)DateTimeValue::op_Equality(a, b) << 2 | (uint64_t)DateTimeValue::Compare(a, b) << 3);
		DateTimeValue x(a), y(b);
		String *s = x.ToString(), *q = y.ToString();
		t.s(s); t.s(q);
		t.u((uint64_t)(bool)s->Equals(q));
		delete s; delete q;
		t.u((uint64_t)x.get_TimeOfDay().value); t.u((uint64_t)x.get_Date().value); t.u((uint64_t)x.get_DayOfYear()); t.u((uint64_t)x.get_DayOfWeek());
		break;
	}
	case 28: {
		Exception* chain = nullptr;
		std::vector<Exception*> own;
		std::vector<String*> text;
		for (int i = (int)r.range(1, 6); i > 0; i--) {
			String* m = mk(callText(r));
			text.push_back(m);
			chain = chain ? new Exception(m, chain) : new Exception(m);
			own.push_back(chain);
		}
		for (Exception* e = chain; e; e = e->get_InnerException()) t.s(e->get_Message());
		t.s(chain->GetBaseException()->get_Message());
		for (Exception* e : own) delete e;
		for (String* m : text) delete m;
		break;
	}
	default: {
		static thread_local Char mem[1600];
		W w = callText(r).substr(0, 1500);
		w = W(w.c_str());
		memcpy(mem, w.c_str(), (w.size() + 1) * sizeof(Char));
		String *s = new String((const Char*)mem), *c2 = String::Copy(s);
		int at = pos(r, (int)w.size()), k = pos(r, (int)w.size());
		t.go([&] { Array* x = s->ToCharArray(at, k); t.u((uint64_t)x->get_Length()); String* y = new String(x); t.take(y); delete x; });
		t.go([&] { Array x(CharType, 40); s->CopyTo(at, &x, (int)r.range(0, 41), k); for (int i = 0; i < 40; i++) t.u((uint64_t)*(Char*)x.Address(i)); });
		t.go([&] { String* y = new String((const Char*)mem, (int)r.range(0, w.size()), 0); t.take(y); });
		t.u((uint64_t)(bool)s->Equals(c2) | (uint64_t)(bool)s->Equals((Object*)c2) << 1 | (uint64_t)(bool)String::Equals(s, (Object*)c2) << 2);
		t.go([&] { t.u((uint64_t)*s->Address(at)); });
		if (c2 != s) delete c2;
		delete s;
		break;
	}
	}
	return t.h;
}
