// A small world of arrays, strings and builders, and one random step over the whole API surface. Used to observe what a
// step may touch: its declared target, nothing else, and nothing at all when it refuses.
#pragma once
#include "text.h"
#include "arr.h"

// order of the items in a snapshot
enum { TA = 0, TS = 6, TB = 12, TO = 15, TCAP = 27, TEXT = 30, TE = 31, ITEMS = 33 };
struct World {
	Array* A[6];          // A[5] lives in memory of the program's own
	String* S[6];         // so does S[5]
	StringBuilder* B[3];
	Object* O[12];
	CharEnumerator* E[2];
	unsigned char ext[400];   // the program's memory with guard bytes around what A[5] covers
	size_t extFrom, extTo;
	Char ownText[40];
	std::vector<std::string> snap() const {
		std::vector<std::string> r;
		for (Array* a : A) r.push_back(image(a));
		for (String* s : S) r.push_back(image(s));
		for (StringBuilder* b : B) r.push_back(image(b));
		for (Object* o : O) r.push_back(image(o));
		for (StringBuilder* b : B) r.push_back(std::to_string(b->get_Capacity()));
		r.push_back(std::string((char*)ext, extFrom) + std::string((char*)ext + extTo, sizeof ext - extTo));
		for (CharEnumerator* e : E) r.push_back(image(e));
		return r;
	}
	static std::string image(Object* o) {
		if (!o) return "null";
		std::string r = std::to_string((int)o->GetRawDataType()) + ":";
		uint64_t v = 0;
		switch (o->GetRawDataType()) {
		case DoubleType: case SingleType: v = bitsOf((double)o->get_AsDouble()); break;
		case StringType: return r + image(static_cast<String*>(o));
		case DateTimeType: v = (uint64_t)o->get_AsDateTime().value; break;
		case TimeSpanType: v = (uint64_t)o->get_AsTimeSpan().value; break;
		case UInt64Type: v = (uint64_t)o->get_AsUInt64(); break;
		case BooleanType: v = (uint64_t)(bool)o->get_AsBoolean(); break;
		case CharType: v = (uint64_t)o->get_AsChar(); break;
		case ObjectType: { StringBuilder* b = dynamic_cast<StringBuilder*>(o); return b ? image(b) : r; }
		default: v = (uint64_t)o->get_AsInt64();
		}
		return r + std::to_string(v);
	}
	// where an enumerator stands, observed on a copy of it
	static std::string image(CharEnumerator* e) {
		CharEnumerator x(*e), y(*e);
		std::string r;
		for (int k = 0; k < 2; k++) r += y.MoveNext() ? "m" : ".";  // moved before it is asked for its character
		for (int k = 0; k < 3; k++) {
			Char ch = 0;
			Ex q = run([&] { ch = x.get_Current(); });
			r += std::to_string((int)q) + "," + std::to_string((unsigned)ch) + (x.MoveNext() ? "+" : "-");
		}
		return r;
	}
	static std::string image(Array* a) {
		std::string r = std::to_string((int)a->GetElementType()) + "/" + std::to_string(a->get_Rank());
		for (int k = 0; k < a->get_Rank(); k++) r += "," + std::to_string(a->GetLength(k));
		r += ":";
		int n = a->get_Length(), es = typeInfo(a->GetElementType()).size;
		int d1 = a->get_Rank() > 1 ? a->GetLength(1) : 1, d2 = a->get_Rank() > 2 ? a->GetLength(2) : 1;
		for (int f = 0; f < n; f++) {
			void* p = a->get_Rank() == 1 ? a->Address(f) : a->get_Rank() == 2 ? a->Address(f / d1, f % d1) : a->Address(f / (d1 * d2), f / d2 % d1, f % d2);
			r.append((char*)p, es);
		}
		return r;
	}
	static std::string image(String* s) { return std::string((char*)s->get_Buffer(), (s->get_Length() + 1) * sizeof(Char)); }
	static std::string image(StringBuilder* b) {
		std::string r = std::to_string(b->get_Length()) + "/" + std::to_string(b->get_MaxCapacity()) + ":";
		for (int i = 0; i < b->get_Length(); i++) { Char ch = b->get_Chars(i); r.append((char*)&ch, sizeof ch); }
		return r;
	}
	void build(Rng& r) {
		O[0] = new Int32Value(interesting32(r));
		O[1] = mk(smallText(r, 5));
		O[2] = new DoubleValue((double)r.range(0, 100) / 4);
		O[3] = new BooleanValue(r.chance(1, 2));
		O[4] = nullptr;
		O[5] = new TimeSpanValue((TimeSpan)(Int64)r.range(-100000, 100000));
		O[6] = new CharValue((Char)(L'a' + r.below(26)));
		O[7] = new SingleValue((Single)r.range(0, 800) / 8);
		O[8] = new Int64Value(interesting64(r));
		O[9] = new DateTimeValue(DateTime((UInt64)(r.next() % 3155378976000000000ULL)));
		O[10] = new UInt64Value((UInt64)interesting64(r));
		{ W w = smallText(r, 6); String* q = mk(w); O[11] = new StringBuilder(q); delete q; }
		for (int i = 0; i < 5; i++) S[i] = mk(text(r));
		{
			int len = (int)r.range(0, 39);
			for (int i = 0; i < len; i++) ownText[i] = (Char)(L'a' + r.below(4));
			ownText[len] = 0;
			S[5] = new String(ownText);
			const TypeInfo& et = kTypes[r.below(10)];
			int cnt = (int)r.range(0, 20);
			memset(ext, 0x5A, sizeof ext);
			extFrom = 64;
			extTo = extFrom + (size_t)cnt * et.size;
			A[5] = new Array(ext + extFrom, et.t, cnt);
			std::vector<Object*> no;
			std::vector<String*> ns;
			for (int i = 0; i < cnt; i++) randomElement(r, et.t, (unsigned char*)A[5]->Address(i), no, ns);
			memset(ext + extTo, 0xA5, sizeof ext - extTo);
		}
		if (r.chance(1, 2)) { char b[40]; snprintf(b, sizeof b, r.chance(1, 2) ? "%lld" : "%lldx", (long long)interesting64(r)); delete S[0]; S[0] = mk(wide(b)); }
		A[0] = new Array(ByteType, (Int32)r.below(13));
		for (int i = 0; i < A[0]->get_Length(); i++) *(Byte*)A[0]->Address(i) = (Byte)r.next();
		A[1] = charArray(smallText(r, 8, L"abc,"));
		int rank = (int)r.range(1, 3);
		A[2] = rank == 1 ? new Array(Int32Type, (Int32)r.below(9)) : rank == 2 ? new Array(Int32Type, (Int32)r.below(5), (Int32)r.below(5)) : new Array(Int32Type, (Int32)r.range(1, 3), (Int32)r.range(1, 3), (Int32)r.range(1, 3));
		A[3] = new Array(StringType, (Int32)r.below(6));
		for (int i = 0; i < A[3]->get_Length(); i++) *(String**)A[3]->Address(i) = r.chance(1, 4) ? nullptr : S[r.below(5)];
		const TypeInfo& t = kTypes[r.below(13)];
		A[4] = new Array(t.t, (Int32)r.below(9));
		std::vector<Object*> no;
		std::vector<String*> ns;
		for (int i = 0; i < A[4]->get_Length(); i++) randomElement(r, t.t, (unsigned char*)A[4]->Address(i), no, ns);
		for (int i = 0; i < 3; i++) {
			W w = text(r);
			B[i] = i == 2 ? new StringBuilder((Int32)w.size() + 1, (Int32)w.size() + (int)r.range(1, 40)) : new StringBuilder();
			B[i]->Append(w.c_str(), (Int32)w.size());
		}
		for (int i = 0; i < 2; i++) {
			E[i] = S[i + 4]->GetEnumerator();
			for (int q = (int)r.below(5); q > 0; q--) E[i]->MoveNext();
		}
	}
};

struct Step {
	int target = -1;      // index into the snapshot that a successful step may change
	int also = -1;        // and another one (the capacity of the builder that is the target)
	std::string name;
	uint64_t trace = 0;   // hash of the visible result
	Ex ex = NOEX;
	Exception* thrown = nullptr;
	void out(uint64_t v) { trace = mix(trace, v); }
	void out(String* s) { if (!s) out((uint64_t)77); else { trace = hashBytes(s->get_Buffer(), (s->get_Length()) * sizeof(Char), mix(trace, s->get_Length())); } }
	void out(Object* o) {
		if (!o) { out((uint64_t)78); return; }
		out((uint64_t)o->GetRawDataType());
		if (o->GetRawDataType() != ObjectType) out(o->ToString());
	}
	void out(Array* a) { std::string t = World::image(a); if (a->GetElementType() != StringType && a->GetElementType() != ObjectType) trace = hashBytes(t.data(), t.size(), trace); }
	void out(double d) { out((uint64_t)(d != d ? 1 : bitsOf(d))); }
};

#define NAMED(...) do { char nb_[300]; snprintf(nb_, sizeof nb_, __VA_ARGS__); st.name = nb_; } while (0)
#define GO(...) do { try { __VA_ARGS__; } catch (Exception* e_) { st.ex = classify(e_); st.thrown = e_; } catch (...) { st.ex = FOREIGN; } } while (0)

inline Step step(World& w, Rng& r) {
	Step st;
	int ai = (int)r.below(6), aj = (int)r.below(6), si = (int)r.below(6), sj = (int)r.below(6), bi = (int)r.below(3);
	Array *a = w.A[ai], *b = w.A[aj];
	String *s = w.S[si], *t = w.S[sj];
	StringBuilder* sb = w.B[bi];
	int la = a->get_Length(), lb = b->get_Length(), ls = s->get_Length(), lsb = sb->get_Length();
	int p = pos(r, la), q = pos(r, lb), n = pos(r, la), u = pos(r, ls), m = pos(r, ls), v = pos(r, lsb), k = pos(r, lsb);
	int oi = (int)r.below(12), oj = (oi + 1 + (int)r.below(11)) % 12;
	Object* o = w.O[oi];
	Char ch = (Char)(L'a' + r.below(4));
	if (bi == 2 && lsb > 200) r.next();
	switch (r.below(100)) {
	case 0: st.target = TA + ai; NAMED("Array.Clear(A%d, %d, %d)", ai, p, n); GO(Array::Clear(a, p, n)); break;
	case 1: st.target = TA + aj; NAMED("Array.Copy(A%d, %d, A%d, %d, %d)", ai, p, aj, q, n); GO(Array::Copy(a, p, b, q, n)); break;
	case 2: st.target = TA + aj; NAMED("Array.ConstrainedCopy(A%d, %d, A%d, %d, %d)", ai, p, aj, q, n); GO(Array::ConstrainedCopy(a, p, b, q, n)); break;
	case 3: st.target = TA + aj; NAMED("A%d.CopyTo(A%d, %d)", ai, aj, q); GO(a->CopyTo(b, q)); break;
	case 4: NAMED("A%d.GetValue(%d)", ai, p); GO(st.out(a->GetValue(p))); break;
	case 5: NAMED("A2.GetValue(%d,%d,%d)", p, q, n); GO(st.out(w.A[2]->GetValue(p, q, n))); break;
	case 6: st.target = TA + ai; NAMED("A%d.SetValue(O%d, %d)", ai, oi, p); GO(a->SetValue(o, p)); break;
	case 7: st.target = 2; NAMED("A2.SetValue(O%d, %d, %d)", oi, p, q); GO(w.A[2]->SetValue(o, p, q)); break;
	case 8: NAMED("Array.IndexOf(A%d, O%d, %d, %d)", ai, oi, p, n); GO(st.out((uint64_t)Array::IndexOf(a, o, p, n < 0 ? 0 : n))); break;
	case 9: NAMED("A%d.Address(%d)", ai, p); GO(st.out((uint64_t)(a->Address(p) != nullptr))); break;
	case 10: NAMED("A%d.GetLength/Bounds(%d)", ai, p); GO(st.out((uint64_t)a->GetLength(p)); st.out((uint64_t)a->GetUpperBound(p)); st.out((uint64_t)a->GetLowerBound(p))); break;
	case 11: st.target = TA + aj; NAMED("Buffer.BlockCopy(A%d, %d, A%d, %d, %d)", ai, p, aj, q, n);
		if (ai == 3 || aj == 3 || (b->GetElementType() == BooleanType && a->GetElementType() != BooleanType)) { st.name = "none"; break; }	// raw bytes in a C++ bool are the caller's fault
		GO(Buffer::BlockCopy(a, p, b, q, n)); break;
	case 12: if (ai == 3 || a->GetElementType() == BooleanType) break;
		st.target = TA + ai; NAMED("Buffer.SetByte(A%d, %d)", ai, p); GO(Buffer::SetByte(a, p, 0x21)); break;
	case 13: if (ai == 3) break;
		NAMED("Buffer.GetByte(A%d, %d)", ai, p); GO(st.out((uint64_t)Buffer::GetByte(a, p))); break;
	case 14: NAMED("BitConverter.ToInt32(A0, %d)", p); GO(st.out((uint64_t)BitConverter::ToInt32(w.A[0], p))); break;
	case 15: NAMED("BitConverter.ToDouble(A0, %d)", p); GO(st.out(BitConverter::ToDouble(w.A[0], p))); break;
	case 16: NAMED("BitConverter.ToUInt16/ToInt64(A0, %d)", p); GO(st.out((uint64_t)BitConverter::ToUInt16(w.A[0], p)); st.out((uint64_t)BitConverter::ToInt64(w.A[0], p))); break;
	case 17: if (n < 0) n = 0;
		NAMED("BitConverter.ToString(A0, %d, %d)", p, n); GO(st.out(BitConverter::ToString(w.A[0], p, n))); break;
	case 18: NAMED("S%d.Substring(%d, %d)", si, u, m < 0 ? 0 : m); GO(st.out(s->Substring(u, m < 0 ? 0 : m))); break;
	case 19: NAMED("S%d.Insert(%d, S%d)", si, u, sj); GO(st.out(s->Insert(u, t))); break;
	case 20: NAMED("S%d.Remove(%d, %d)", si, u, m < 0 ? 0 : m); GO(st.out(s->Remove(u, m < 0 ? 0 : m))); break;
	case 21: NAMED("S%d.Replace(S%d, S%d)", si, sj, (sj + 1) % 6); GO(st.out(s->Replace(t, w.S[(sj + 1) % 6]))); break;
	case 22: { int width = (int)r.range(-3, 60); NAMED("S%d.PadLeft/PadRight(%d)", si, width); GO(st.out(s->PadLeft(width)); st.out(s->PadRight(width, ch))); break; }
	case 23: NAMED("S%d.IndexOf(char, %d, %d)", si, u, m); GO(st.out((uint64_t)s->IndexOf(ch, u, m))); break;
	case 24: NAMED("S%d.IndexOf(S%d, %d)", si, sj, u); GO(st.out((uint64_t)s->IndexOf(t, u))); break;
	case 25: NAMED("S%d.IndexOfAny(A1, %d, %d)", si, u, m); GO(st.out((uint64_t)s->IndexOfAny(w.A[1], u, m))); break;
	case 26: st.target = 1; NAMED("S%d.CopyTo(%d, A1, %d, %d)", si, u, q, m); GO(s->CopyTo(u, w.A[1], q, m)); break;
	case 27: NAMED("S%d.ToCharArray(%d, %d)", si, u, m < 0 ? 0 : m); GO(st.out(s->ToCharArray(u, m < 0 ? 0 : m))); break;
	case 28: NAMED("S%d.Trim*", si); GO(st.out(s->Trim()); st.out(s->TrimStart(w.A[1])); st.out(s->TrimEnd(w.A[1]))); break;
	case 29: NAMED("String.Join(S%d, A3, %d, %d)", si, p, n < 0 ? 0 : n); GO(st.out(String::Join(s, w.A[3], p, n < 0 ? 0 : n))); break;
	case 30: NAMED("String.Concat(A3)"); GO(st.out(String::Concat(w.A[3]))); break;
	case 31: NAMED("String.Concat(O%d, S%d, O%d)", oi, si, oj); GO(st.out(String::Concat(o, s, w.O[oj]))); break;
	case 32: { int z = pos(r, t->get_Length()); NAMED("String.Compare(S%d, %d, S%d, %d, %d)", si, u, sj, z, m); int g = 0; GO(g = String::Compare(s, u, t, z, m, r.chance(1, 2)); st.out((uint64_t)(g < 0 ? 1 : g > 0 ? 2 : 3))); break; }
	case 33: NAMED("S%d.get_Chars(%d)", si, u); GO(st.out((uint64_t)s->get_Chars(u))); break;
	case 34: NAMED("S%d case/equality with S%d", si, sj); GO(st.out(s->ToUpper()); st.out(s->ToLower()); st.out((uint64_t)(bool)s->Equals(t)); st.out((uint64_t)(bool)s->Contains(t)); st.out((uint64_t)(bool)s->StartsWith(t)); st.out((uint64_t)(bool)s->EndsWith(t))); break;
	case 35: NAMED("String.CompareTo"); GO(int g = s->CompareTo(t); st.out((uint64_t)(g < 0 ? 1 : g > 0 ? 2 : 3)); g = s->CompareTo(o)); break;
	case 36: NAMED("Parse integers of S%d", si); GO(st.out((uint64_t)Int64Value::Parse(s))); break;
	case 37: NAMED("Parse bytes of S%d", si); GO(st.out((uint64_t)ByteValue::Parse(s)); st.out((uint64_t)SByteValue::Parse(s))); break;
	case 38: NAMED("TimeSpan.Parse(S%d)", si); GO(st.out((uint64_t)TimeSpanValue::Parse(s).value)); break;
	case 39: NAMED("Boolean/Char.Parse(S%d)", si); GO(st.out((uint64_t)(bool)BooleanValue::Parse(s)); st.out((uint64_t)CharValue::Parse(s))); break;
	case 40: NAMED("DateTime(%d,%d,%d)", u, m, p); GO(st.out((uint64_t)DateTime(u, m, p).value)); break;
	case 41: st.target = TB + bi; NAMED("B%d.Append(S%d, 0, %d)", bi, si, m < 0 ? 0 : m); GO(sb->Append(s, 0, m < 0 ? 0 : m)); break;
	case 42: st.target = TB + bi; { int c0 = (int)r.range(-2, 40); NAMED("B%d.Append(char, %d)", bi, c0); GO(sb->Append(ch, c0)); } break;
	case 43: st.target = TB + bi; NAMED("B%d.Append(O%d)", bi, oi); GO(sb->Append(o)); break;
	case 44: st.target = TB + bi; { double d = (double)r.range(-1000, 1000) / 8; NAMED("B%d.Append(%g)", bi, d); GO(sb->Append((Double)d)); } break;
	case 45: st.target = TB + bi; { int c0 = (int)r.range(-2, 4); NAMED("B%d.Insert(%d, S%d, %d)", bi, v, si, c0); GO(sb->Insert(v, s, c0)); } break;
	case 46: st.target = TB + bi; NAMED("B%d.Insert(%d, int)", bi, v); GO(sb->Insert(v, (Int32)r.range(-99, 99))); break;
	case 47: st.target = TB + bi; NAMED("B%d.Remove(%d, %d)", bi, v, k); GO(sb->Remove(v, k)); break;
	case 48: st.target = TB + bi; NAMED("B%d.Replace(S%d, S%d, %d, %d)", bi, si, sj, v, k); GO(sb->Replace(s, t, v, k)); break;
	case 49: st.target = TB + bi; NAMED("B%d.Replace(char, char, %d, %d)", bi, v, k); GO(sb->Replace(ch, L'z', v, k)); break;
	case 50: st.target = TB + bi; NAMED("B%d.set_Chars(%d)", bi, v); GO(sb->set_Chars(v, ch)); break;
	case 51: st.target = TB + bi; { int len = r.chance(1, 3) ? interesting32(r) : (int)r.range(-2, 200); if (len > 3000 && bi != 2) len = 300; NAMED("B%d.set_Length(%d)", bi, len); GO(sb->set_Length(len)); } break;
	case 52: { int cap = r.chance(1, 3) ? (int)r.range(-3, 5) : (int)r.range(0, 600); st.also = TCAP + bi; NAMED("B%d.Capacity %d", bi, cap); GO(if (r.chance(1, 2)) sb->set_Capacity(cap); else sb->EnsureCapacity(cap)); break; }
	case 53: NAMED("B%d.ToString(%d, %d)", bi, v, k); GO(st.out(sb->ToString(v, k))); break;
	case 54: NAMED("B%d.get_Chars(%d)", bi, v); GO(st.out((uint64_t)sb->get_Chars(v))); break;
	case 55: st.target = TB + bi; NAMED("B%d.Append(A1, %d, %d)", bi, p, n); if (p <= 0) p = 0; if (n < 0) n = 0; GO(sb->Append(w.A[1], p, n)); break;
	case 56: if (r.chance(1, 6)) { st.target = TB + bi; NAMED("B%d.Clear()", bi); GO(sb->Clear()); } break;
	// null arguments
	case 57: { int z = (int)r.below(14); NAMED("null argument %d of array operations, A%d", z, ai); Array* none = nullptr;
		GO(switch (z) {
		case 0: Array::Clear(none, p, n); break;
		case 1: Array::Copy(none, p, b, q, n); break;
		case 2: Array::Copy(a, p, none, q, n); break;
		case 3: Array::ConstrainedCopy(none, p, b, q, n); break;
		case 4: Array::ConstrainedCopy(a, p, none, q, n); break;
		case 5: a->CopyTo(none, q); break;
		case 6: a->GetValue(none); break;
		case 7: a->SetValue(o, none); break;
		case 8: Array::IndexOf(none, o); break;
		case 9: Buffer::BlockCopy(none, p, b, q, n); break;
		case 10: if (ai != 3) Buffer::BlockCopy(a, p, none, q, n); break;
		case 11: Buffer::GetByte(none, p); break;
		case 12: Buffer::SetByte(none, p, 1); break;
		default: Buffer::ByteLength(none); break;
		}); break; }
	case 58: { int z = (int)r.below(16); NAMED("null argument %d of string operations, S%d", z, si); String* none = nullptr; Array* noArr = nullptr;
		GO(switch (z) {
		case 0: s->Insert(u, none); break;
		case 1: s->Replace(none, t); break;
		case 2: s->IndexOf(none); break;
		case 3: s->IndexOf(none, u, m); break;
		case 4: s->LastIndexOf(none); break;
		case 5: s->IndexOfAny(noArr); break;
		case 6: s->IndexOfAny(noArr, u); break;
		case 7: s->IndexOfAny(noArr, u, m); break;
		case 8: s->LastIndexOfAny(noArr); break;
		case 9: s->CopyTo(u, noArr, q, m); break;
		case 10: s->Contains(none); break;
		case 11: s->StartsWith(none); break;
		case 12: s->EndsWith(none); break;
		case 13: String::Join(s, noArr); break;
		case 14: String::Concat(noArr); break;
		default: String::Copy(none); break;
		}); break; }
	case 59: { int z = (int)r.below(8); NAMED("null argument %d of parsing", z); String* none = nullptr;
		GO(switch (z) {
		case 0: Int32Value::Parse(none); break;
		case 1: DoubleValue::Parse(none); break;
		case 2: BooleanValue::Parse(none); break;
		case 3: CharValue::Parse(none); break;
		case 4: TimeSpanValue::Parse(none); break;
		case 5: CharValue::IsDigit(none, u); break;
		case 6: BitConverter::ToInt32((Array*)nullptr, p); break;
		default: BitConverter::ToString((Array*)nullptr, p, n); break;
		}); break; }
	case 60: NAMED("DateTime arithmetic of O9"); GO({ DateTimeValue d(w.O[9]->get_AsDateTime()); st.out((uint64_t)d.AddMonths(r.chance(1, 2) ? interesting32(r) : p).value); st.out((uint64_t)d.AddYears(r.chance(1, 2) ? interesting32(r) : q).value); }); break;
	case 61: NAMED("DateTime intervals of O9"); GO({ DateTimeValue d(w.O[9]->get_AsDateTime()); st.out((uint64_t)d.AddDays(interestingD(r)).value); st.out((uint64_t)d.Add(w.O[5]->get_AsTimeSpan()).value); }); break;
	case 62: NAMED("DateTime parts of O%d", oi); GO({ DateTimeValue d(o ? o->get_AsDateTime() : DateTime()); st.out((uint64_t)d.get_DayOfYear()); st.out((uint64_t)d.get_Month()); String* x = d.ToString(); st.out(x); }); break;
	case 63: NAMED("TimeSpan arithmetic with O8"); GO({ TimeSpanValue d((TimeSpan)w.O[8]->get_AsInt64()); st.out((uint64_t)d.Add(w.O[5]->get_AsTimeSpan()).value); st.out((uint64_t)d.Negate().value); st.out((uint64_t)d.Duration().value); st.out((uint64_t)d.Multiply(interestingD(r)).value); }); break;
	case 64: NAMED("TimeSpan from doubles"); GO(st.out((uint64_t)TimeSpanValue::FromDays(interestingD(r)).value); st.out((uint64_t)TimeSpanValue::FromSeconds(interestingD(r)).value)); break;
	case 65: NAMED("TimeSpan(%d, %d, %d)", p, q, n); GO(st.out((uint64_t)TimeSpan(p, q, n).value)); break;
	case 66: NAMED("Double.Parse(S%d)", si); GO(st.out(DoubleValue::Parse(s))); break;
	case 67: NAMED("Single.Parse(S%d)", si); GO(st.out((double)SingleValue::Parse(s))); break;
	case 68: { NAMED("TryParse of S%d", si); Int64 x = 9; Double y = 9; TimeSpan ts((Int64)9); Char g = L'g';
		GO(st.out((uint64_t)(bool)Int64Value::TryParse(s, x)); st.out((uint64_t)x); st.out((uint64_t)(bool)DoubleValue::TryParse(s, y)); st.out((double)y); st.out((uint64_t)(bool)TimeSpanValue::TryParse(s, ts)); st.out((uint64_t)ts.value); st.out((uint64_t)(bool)CharValue::TryParse(s, g))); break; }
	case 69: NAMED("UInt parsing of S%d", si); GO(st.out((uint64_t)UInt64Value::Parse(s)); st.out((uint64_t)UInt16Value::Parse(s)); st.out((uint64_t)UInt32Value::Parse(s))); break;
	case 70: NAMED("characters of S%d at %d", si, u); GO(st.out((uint64_t)(bool)CharValue::IsLetter(s, u)); st.out((uint64_t)(bool)CharValue::IsWhiteSpace(s, u)); st.out((uint64_t)(bool)CharValue::IsUpper(s, u)); st.out(CharValue::GetNumericValue(s, u))); break;
	case 71: { int z = (int)r.below(11); NAMED("character property %d of S%d at %d", z, si, u);
		GO(switch (z) {
		case 0: st.out((uint64_t)(bool)CharValue::IsControl(s, u)); break;
		case 1: st.out((uint64_t)(bool)CharValue::IsDigit(s, u)); break;
		case 2: st.out((uint64_t)(bool)CharValue::IsLetter(s, u)); break;
		case 3: st.out((uint64_t)(bool)CharValue::IsLetterOrDigit(s, u)); break;
		case 4: st.out((uint64_t)(bool)CharValue::IsLower(s, u)); break;
		case 5: st.out((uint64_t)(bool)CharValue::IsNumber(s, u)); break;
		case 6: st.out((uint64_t)(bool)CharValue::IsPunctuation(s, u)); break;
		case 7: st.out((uint64_t)(bool)CharValue::IsSeparator(s, u)); break;
		case 8: st.out((uint64_t)(bool)CharValue::IsUpper(s, u)); break;
		case 9: st.out((uint64_t)(bool)CharValue::IsWhiteSpace(s, u)); break;
		default: st.out(CharValue::GetNumericValue(s, u)); break;
		}); break; }
	case 72: NAMED("Math refusals"); GO(st.out((uint64_t)Math::Abs((Int32)interesting32(r))); Int32 rem = 0; st.out((uint64_t)Math::DivRem((Int32)interesting32(r), (Int32)pos(r, 3), rem)); st.out(Math::Round(interestingD(r), (Int32)r.range(-2, 17)))); break;
	case 73: NAMED("Math.Clamp/Sign/Abs"); GO(st.out((uint64_t)Math::Clamp((Int32)p, (Int32)q, (Int32)n)); st.out((uint64_t)Math::Sign(interestingD(r))); st.out((uint64_t)Math::Abs((Int64)interesting64(r)))); break;
	case 74: NAMED("new Array(Int16, %d, %d)", p, q); GO({ Array x(Int16Type, p > 1000 ? 1000 : p, q > 1000 ? 7 : q); st.out((uint64_t)x.get_Length()); }); break;
	case 75: NAMED("new String(A1, %d, %d)", q, m); GO({ String x(w.A[1], q, m); st.out(&x); }); break;
	case 76: NAMED("new String(S%d text, %d, %d)", si, u, m); if (u > ls || (m > 0 && u >= 0 && u + (int64_t)m > ls)) { st.name = "none"; break; }
		GO({ String x(s->get_Buffer(), u, m); st.out(&x); }); break;
	case 77: { int cap = r.chance(1, 2) ? (int)r.range(-3, 300) : interesting32(r); if (cap > 100000) cap = 1000; NAMED("new StringBuilder(S%d, %d, %d, %d)", si, u, m, cap); GO({ StringBuilder x(s, u, m, cap); st.out(x.ToString()); }); break; }
	case 78: { int cap = (int)r.range(-3, 300), mx = (int)r.range(-3, 300); NAMED("new StringBuilder(%d, %d)", cap, mx); GO({ StringBuilder x(cap, mx); st.out((uint64_t)x.get_Capacity()); st.out((uint64_t)x.get_MaxCapacity()); }); break; }
	case 79: case 80: {  // index arrays of every sort
		int rk = w.A[2]->get_Rank(), cnt = r.chance(2, 3) ? rk : (int)r.below(5);
		DataType it = r.chance(5, 6) ? Int32Type : r.chance(1, 2) ? Int64Type : StringType;
		Array ix(it, cnt);
		std::string text;
		for (int i = 0; i < cnt; i++) { int z = pos(r, i < rk ? w.A[2]->GetLength(i) : 3); if (it == Int32Type) *(Int32*)ix.Address(i) = z; else if (it == Int64Type) *(Int64*)ix.Address(i) = z; text += " " + std::to_string(z); }
		bool get = r.chance(1, 2);
		NAMED("A2.%s by %d indexes of type %d%s", get ? "GetValue" : "SetValue", cnt, (int)it, text.c_str());
		if (!get) st.target = TA + 2;
		GO(if (get) st.out(w.A[2]->GetValue(&ix)); else w.A[2]->SetValue(o, &ix));
		break;
	}
	case 81: NAMED("String.Join(char, A3, %d, %d)", p, n); GO(st.out(String::Join(ch, w.A[3], p, n < -1 ? 0 : n))); break;
	case 82: NAMED("String.Join(S%d, A%d)", si, ai); GO(st.out(String::Join(s, a))); break;
	case 83: NAMED("S%d.LastIndexOf(char, %d, %d)", si, u, m); GO(st.out((uint64_t)s->LastIndexOf(ch, u < -1 ? 0 : u, m < -1 ? 0 : m))); break;
	case 84: NAMED("S%d.LastIndexOf(S%d, %d)", si, sj, u); GO(st.out((uint64_t)s->LastIndexOf(t, u < -1 ? 0 : u))); break;
	case 85: NAMED("S%d.LastIndexOfAny(A1, %d, %d)", si, u, m); GO(st.out((uint64_t)s->LastIndexOfAny(w.A[1], u < -1 ? 0 : u, m < -1 ? 0 : m))); break;
	case 86: NAMED("String equality with O%d", oi); GO(st.out((uint64_t)(bool)String::Equals(s, o)); st.out((uint64_t)(bool)String::Equals(o, s)); st.out((uint64_t)(bool)String::op_Inequality(s, t)); st.out((uint64_t)(bool)s->Equals(o))); break;
	case 87: NAMED("String.CompareOrdinal(S%d, %d, S%d, %d, %d)", si, u, sj, v, m); { int g = 0; GO(g = String::CompareOrdinal(s, u, t, v, m); st.out((uint64_t)(g < 0 ? 1 : g > 0 ? 2 : 3))); } break;
	case 88: NAMED("S%d.Replace(char)/ToCharArray/EndsWith", si); GO(st.out(s->Replace(ch, L'z')); st.out(s->ToCharArray()); st.out((uint64_t)(bool)s->EndsWith(ch)); st.out(String::Copy(s))); break;
	case 89: { int ei = (int)r.below(2); st.target = TE + ei; NAMED("E%d.MoveNext/Reset", ei); GO(if (r.chance(1, 5)) w.E[ei]->Reset(); else st.out((uint64_t)(bool)w.E[ei]->MoveNext())); break; }
	case 90: { int ei = (int)r.below(2); NAMED("E%d.get_Current", ei); GO(st.out((uint64_t)w.E[ei]->get_Current())); break; }
	case 91: NAMED("conversions of O%d", oi); if (!o) break; GO(st.out((uint64_t)o->get_AsByte()); st.out((uint64_t)o->get_AsInt16()); st.out((uint64_t)o->get_AsInt32()); st.out((uint64_t)o->get_AsUInt32()); st.out((uint64_t)o->get_AsInt64())); break;
	case 92: NAMED("other conversions of O%d", oi); if (!o) break; GO(st.out((uint64_t)o->get_AsChar()); st.out((uint64_t)(bool)o->get_AsBoolean()); st.out((double)o->get_AsSingle()); st.out((uint64_t)o->get_AsDateTime().value); st.out((uint64_t)o->get_AsTimeSpan().value)); break;
	case 93: NAMED("Object.Equals(O%d, O%d)", oi, oj); GO(st.out((uint64_t)(bool)Object::Equals(o, w.O[oj])); if (o) st.out((uint64_t)(bool)o->Equals(w.O[oj]))); break;
	case 94: st.target = TB + bi; NAMED("B%d.Insert(%d, O%d)", bi, v, oi); GO(sb->Insert(v, o)); break;
	case 95: st.target = TB + bi; NAMED("B%d.Insert(%d, A1, %d, %d)", bi, v, p, n); GO(sb->Insert(v, w.A[1], p < 0 ? 0 : p, n < 0 ? 0 : n)); break;
	case 96: st.target = TB + bi; { int z = (int)r.below(8); NAMED("B%d.Insert(%d, value of kind %d)", bi, v, z);
		GO(switch (z) {
		case 0: sb->Insert(v, (Boolean)true); break;
		case 1: sb->Insert(v, (Byte)r.next()); break;
		case 2: sb->Insert(v, (Char)L'c'); break;
		case 3: sb->Insert(v, (Double)r.range(-99, 99) / 4); break;
		case 4: sb->Insert(v, (Int64)interesting64(r)); break;
		case 5: sb->Insert(v, (UInt64)interesting64(r)); break;
		case 6: sb->Insert(v, (Single)r.range(-99, 99) / 4); break;
		default: sb->Insert(v, (Int16)r.next()); break;
		}); break; }
	case 97: st.target = TB + bi; { int z = (int)r.below(8); NAMED("B%d.Append(value of kind %d)", bi, z);
		GO(switch (z) {
		case 0: sb->Append((Boolean)true); break;
		case 1: sb->Append((Byte)r.next()); break;
		case 2: sb->Append((Char)L'c'); break;
		case 3: sb->AppendLine(); break;
		case 4: sb->Append((Int64)interesting64(r)); break;
		case 5: sb->Append((UInt64)interesting64(r)); break;
		case 6: sb->AppendLine(s); break;
		default: sb->Append((Single)r.range(-99, 99) / 4); break;
		}); break; }
	case 98: { int z = (int)r.below(6); NAMED("null argument %d of builder operations, B%d", z, bi); String* none = nullptr;
		st.target = TB + bi;
		GO(switch (z) {
		case 0: sb->Append((const Char*)nullptr, m); break;
		case 1: sb->Replace(none, t); break;
		case 2: sb->Replace(s, none, v, k); break;
		case 3: sb->Insert(v, none, 2); break;
		case 4: sb->Append((Array*)nullptr, p < 0 ? 0 : p, n < 0 ? 0 : n); break;
		default: sb->Insert(v, (Array*)nullptr, p < 0 ? 0 : p, n < 0 ? 0 : n); break;
		}); break; }
	default: NAMED("B%d equals B%d", bi, (bi + 1) % 3); GO(st.out((uint64_t)(bool)sb->Equals(w.B[(bi + 1) % 3])); st.out(sb->ToString())); break;
	}
	st.out((uint64_t)st.ex);
	if (st.target >= TB && st.target < TB + 3) st.also = TCAP + (st.target - TB);
	return st;
}
