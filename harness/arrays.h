// Histories over a few arrays, owned or over shared caller memory, of one type or several: every kind of operation in any order, each answer
// and the whole contents of all arrays held against byte images. Each check looks at the operations of its own property.
#pragma once
#include "arr.h"

// box holding the element bytes
inline Object* box(DataType t, const unsigned char* p) {
	switch (t) {
	case BooleanType: { Boolean v; memcpy(&v, p, sizeof v); return new BooleanValue(v); }
	case CharType: { Char v; memcpy(&v, p, sizeof v); return new CharValue(v); }
	case SByteType: { SByte v; memcpy(&v, p, 1); return new SByteValue(v); }
	case ByteType: { Byte v; memcpy(&v, p, 1); return new ByteValue(v); }
	case Int16Type: { Int16 v; memcpy(&v, p, 2); return new Int16Value(v); }
	case UInt16Type: { UInt16 v; memcpy(&v, p, 2); return new UInt16Value(v); }
	case Int32Type: { Int32 v; memcpy(&v, p, 4); return new Int32Value(v); }
	case UInt32Type: { UInt32 v; memcpy(&v, p, 4); return new UInt32Value(v); }
	case Int64Type: { Int64 v; memcpy(&v, p, 8); return new Int64Value(v); }
	case UInt64Type: { UInt64 v; memcpy(&v, p, 8); return new UInt64Value(v); }
	case SingleType: { Single v; memcpy(&v, p, 4); return new SingleValue(v); }
	case DoubleType: { Double v; memcpy(&v, p, 8); return new DoubleValue(v); }
	case DateTimeType: { UInt64 v; memcpy(&v, p, 8); return new DateTimeValue(DateTime(v)); }
	case TimeSpanType: { Int64 v; memcpy(&v, p, 8); return new TimeSpanValue(TimeSpan(v)); }
	default: { Object* o; memcpy(&o, p, sizeof o); return o; }
	}
}
// bytes held by a box, through its own accessor
inline bool unbox(DataType t, Object* o, unsigned char* p) {
	switch (t) {
	case BooleanType: { Boolean v = o->get_AsBoolean(); memcpy(p, &v, sizeof v); break; }
	case CharType: { Char v = o->get_AsChar(); memcpy(p, &v, sizeof v); break; }
	case SByteType: { SByte v = o->get_AsSByte(); memcpy(p, &v, 1); break; }
	case ByteType: { Byte v = o->get_AsByte(); memcpy(p, &v, 1); break; }
	case Int16Type: { Int16 v = o->get_AsInt16(); memcpy(p, &v, 2); break; }
	case UInt16Type: { UInt16 v = o->get_AsUInt16(); memcpy(p, &v, 2); break; }
	case Int32Type: { Int32 v = o->get_AsInt32(); memcpy(p, &v, 4); break; }
	case UInt32Type: { UInt32 v = o->get_AsUInt32(); memcpy(p, &v, 4); break; }
	case Int64Type: { Int64 v = o->get_AsInt64(); memcpy(p, &v, 8); break; }
	case UInt64Type: { UInt64 v = o->get_AsUInt64(); memcpy(p, &v, 8); break; }
	case SingleType: { Single v = o->get_AsSingle(); memcpy(p, &v, 4); break; }
	case DoubleType: { Double v = o->get_AsDouble(); memcpy(p, &v, 8); break; }
	case DateTimeType: { UInt64 v = o->get_AsDateTime().value; memcpy(p, &v, 8); break; }
	case TimeSpanType: { Int64 v = o->get_AsTimeSpan().value; memcpy(p, &v, 8); break; }
	default: memcpy(p, &o, sizeof o); return true;
	}
	return o->GetRawDataType() == t;
}
inline bool sameElem(DataType t, const unsigned char* a, const unsigned char* b) {
	if (t == SingleType) { float x, y; memcpy(&x, a, 4); memcpy(&y, b, 4); return sameF(x, y); }
	if (t == DoubleType) { double x, y; memcpy(&x, a, 8); memcpy(&y, b, 8); return sameD(x, y); }
	return memcmp(a, b, typeInfo(t).size) == 0;
}

inline Array* indexes(int rank, const int* ix) {
	Array* r = new Array(Int32Type, rank);
	for (int i = 0; i < rank; i++) *(Int32*)r->Address(i) = ix[i];
	return r;
}

namespace arrays {
enum Tag { ELEMENTS, RANGES, BOXES, BYTES, BITS };  // C01, C02, C03, C04, C05
struct Slot {
	DataType t;
	int rank, d[3], block, off;
	Array* a;
	int es() const { return typeInfo(t).size; }
	int total() const { return d[0] * (rank > 1 ? d[1] : 1) * (rank > 2 ? d[2] : 1); }
	int bytes() const { return total() * es(); }
	bool refs() const { return t == ObjectType || t == StringType; }
	void split(int f, int ix[3]) const {
		ix[0] = f; ix[1] = ix[2] = -1;
		if (rank == 2) { ix[0] = f / d[1]; ix[1] = f % d[1]; }
		if (rank == 3) { ix[0] = f / (d[1] * d[2]); ix[1] = f / d[2] % d[1]; ix[2] = f % d[2]; }
	}
};
inline bool fits(int64_t s, int64_t k, int64_t len) { return s >= 0 && k >= 0 && s + k <= len; }
inline bool equal(Object* x, Object* v) {
	if (!x || !v) return x == v;
	if (x->GetRawDataType() != v->GetRawDataType()) return false;
	return x->GetRawDataType() == StringType ? str((String*)x) == str((String*)v) : x->get_AsInt64() == v->get_AsInt64();
}
inline void histories(Ctx& c, Tag mine, uint64_t n) {
	Rng& r = c.rng;
	enum { OBJ = 6, BLOCKS = 2, MEM = 96 };
	std::vector<Object*> objs;
	std::vector<String*> strs;
	for (int i = 0; i < 4; i++) { objs.push_back(new Int32Value(i)); objs.push_back(new Int32Value(i)); objs.push_back(new Int64Value(i)); objs.push_back(mk(W(1, L'a' + i))); }
	for (int i = 0; i < 8; i++) strs.push_back(mk(W(1 + i % 2, L'a' + i % 3)));
	uint64_t turns = 0;
	std::set<uint64_t> pairs;
	for (uint64_t h = 0; h < n; h++) {
		// the first two arrays lie over caller memory (perhaps the same), the others own theirs
		alignas(16) unsigned char mem[BLOCKS][MEM];
		std::vector<unsigned char> img[OBJ];
		Slot s[OBJ];
		DataType main = kTypes[r.below(kTypeCount)].t;
		for (auto& m : mem) for (auto& q : m) q = (unsigned char)(r.chance(1, 2) ? r.next() : 0);
		for (int k = 0; k < BLOCKS; k++) img[k].assign(mem[k], mem[k] + MEM);
		auto make = [&](int k) {
			Slot& m = s[k];
			bool view = k < 2;
			m.t = k == 2 ? ByteType : r.chance(3, 5) ? main : kTypes[r.below(kTypeCount)].t;
			if (view && (m.refs() || m.t == BooleanType)) m.t = r.chance(1, 2) ? ByteType : Int32Type;
			m.rank = k == 5 ? (int)r.range(1, 3) : 1;
			m.d[0] = view ? (int)r.range(1, MEM / m.es()) : m.rank == 1 ? midSize(r, 14) : (int)r.range(1, 4);
			if (!view && m.rank == 1 && m.d[0] > 40) m.d[0] = (int)r.range(0, 40);
			m.d[1] = m.rank > 1 ? (int)r.range(1, 4) : -1;
			m.d[2] = m.rank > 2 ? (int)r.range(1, 3) : -1;
			m.off = view ? (int)r.below((MEM - m.bytes()) / m.es() + 1) * m.es() : 0;
			m.block = view ? (int)r.below(BLOCKS) : k;
			if (!view) { img[k].assign(m.bytes() + 1, 0); }  // never empty: the addresses are used
			m.a = view ? new Array(mem[m.block] + m.off, m.t, m.d[0]) : m.rank == 1 ? new Array(m.t, m.d[0]) : m.rank == 2 ? new Array(m.t, m.d[0], m.d[1]) : new Array(m.t, m.d[0], m.d[1], m.d[2]);
		};
		for (int k = 0; k < OBJ; k++) make(k);
		c.begin(true, "arrays of %s and others, operations of seed %llu", typeInfo(main).name, (unsigned long long)r.s);
		int op = -1, x = 2, ops = (int)r.range(20, 60);
		std::string trail;
		bool lost = false;
		for (int o = 0; o < ops && !lost; o++) {
			if (r.chance(1, 2)) x = (int)r.below(OBJ);
			int y = r.chance(1, 4) ? x : (int)r.below(OBJ), prev = op;
			if (r.chance(1, 25)) { delete s[x].a; make(x); }
			op = (int)r.below(24);
			turns++;
			pairs.insert((uint64_t)(prev + 1) * 32 + op);
			Slot &A = s[x], &B = s[y];
			unsigned char* pa = img[A.block].data() + A.off;
			unsigned char* pb = img[B.block].data() + B.off;
			int len = A.total(), es = A.es(), blen = B.total();
			int at = inside(r, len), k = inside(r, len - at), f = len ? (int)r.below(len) : -1, ix[3] = {-1, -1, -1};
			if (len) A.split(f, ix);
			Tag tag = ELEMENTS;
			bool wild = r.chance(1, 6);
			{ char m[64]; snprintf(m, sizeof m, "%d(%d %s,%d) ", op, x, typeInfo(A.t).name, y); trail += m; if (trail.size() > 240) trail.erase(0, trail.find(") ") + 2); }
#define SEE(cond, key, ...) do { if (mine == tag && !(cond)) c.fail("in a history: " key, __VA_ARGS__); } while (0)
#define WHERE "operation %d on %s[%d] after %s", op, typeInfo(A.t).name, len, trail.c_str()
			switch (op) {
			case 0: case 1:  // write an element through its address
				if (len) {
					unsigned char v[16];
					randomElement(r, A.t, v, objs, strs);
					void* p = nullptr;
					Ex e = run([&] { p = A.a->Address(ix[0], ix[1], ix[2]); });
					SEE(e == NOEX && p, "valid access refused", WHERE);
					if (p) memcpy(p, v, es);
					memcpy(pa + (size_t)f * es, v, es);
				}
				break;
			case 2: {
				int bad = r.chance(1, 2) ? A.d[0] + (int)r.range(0, 3) : (int)r.range(-4, -1);
				SEE(run([&] { A.a->Address(bad, A.rank > 1 ? 0 : -1, A.rank > 2 ? 0 : -1); }) == IOOR, "index outside the array accepted", WHERE);
				break;
			}
			case 3:
				SEE(A.a->get_Length() == len && A.a->get_Rank() == A.rank && A.a->GetElementType() == A.t, "shape", WHERE);
				for (int q = 0; q < A.rank; q++) SEE(A.a->GetLength(q) == A.d[q] && A.a->GetLowerBound(q) == 0 && A.a->GetUpperBound(q) == A.d[q] - 1, "dimension", WHERE);
				break;
			case 4: case 5: {
				tag = RANGES;
				int sx = wild ? (int)r.range(-2, len + 2) : at, kx = wild ? (int)r.range(-2, len + 2) : k;
				Ex e = run([&] { Array::Clear(A.a, sx, kx); });
				bool ok = A.rank == 1 && fits(sx, kx, len);
				SEE(ok ? e == NOEX : isErr(e), "Clear", WHERE);
				if (ok && kx) memset(pa + (size_t)sx * es, 0, (size_t)kx * es);
				break;
			}
			case 6: case 7: case 8: case 9: {
				tag = RANGES;
				if (A.t == BooleanType && B.t != BooleanType && A.t == B.t) break;
				int to = inside(r, blen), cnt = inside(r, std::min(len - at, blen - to)), sx = wild ? (int)r.range(-2, len + 2) : at;
				if (wild) { to = (int)r.range(-2, blen + 2); cnt = (int)r.range(-2, len + 2); }
				if (op == 8) { sx = to = 0; if (!wild) cnt = inside(r, std::min(len, blen)); }
				if (op == 9) { sx = 0; cnt = len; if (!wild && blen > len) to = (int)r.range(0, blen - len); }
				Ex e = run([&] {
					if (op == 6) Array::Copy(A.a, sx, B.a, to, cnt);
					else if (op == 7) Array::ConstrainedCopy(A.a, sx, B.a, to, cnt);
					else if (op == 8) Array::Copy(A.a, B.a, cnt);
					else A.a->CopyTo(B.a, to);
				});
				bool ok = fits(sx, cnt, len) && fits(to, cnt, blen) && A.rank == B.rank && A.t == B.t && (op != 9 || A.rank == 1);
				if (ok) {
					SEE(e == NOEX, "copy refused", WHERE);
					memmove(pb + (size_t)to * es, pa + (size_t)sx * es, (size_t)cnt * es);
				} else if (!(A.t != B.t && cnt == 0)) SEE(isErr(e), "bad copy accepted", WHERE);
				break;
			}
			case 10: case 11:
				tag = RANGES;
				if (A.refs() && A.rank == 1) {
					Object* v = r.chance(1, 6) ? nullptr : A.t == StringType ? (Object*)strs[r.below(strs.size())] : objs[r.below(objs.size())];
					int got = -77, want = -1, s0 = op == 10 ? 0 : at, k0 = op == 10 ? len : k;
					for (int i = s0; i < s0 + k0 && want < 0; i++) { Object* q; memcpy(&q, pa + (size_t)i * es, sizeof q); if (equal(q, v)) want = i; }
					Ex e = run([&] { got = op == 10 ? Array::IndexOf(A.a, v) : Array::IndexOf(A.a, v, s0, k0); });
					SEE(e == NOEX && got == want, "IndexOf", WHERE);
				}
				break;
			case 12: case 13:
				tag = BOXES;
				if (len) {
					unsigned char v[16];
					do randomElement(r, A.t, v, objs, strs);
					while (A.refs() && *(void**)v == nullptr);
					Object* b = box(A.t, v);
					Array* list = r.chance(1, 3) ? indexes(A.rank, ix) : nullptr;
					Ex e = run([&] { if (list) A.a->SetValue(b, list); else A.a->SetValue(b, ix[0], ix[1], ix[2]); });
					unsigned char* real = (unsigned char*)A.a->Address(ix[0], ix[1], ix[2]);
					SEE(e == NOEX && sameElem(A.t, real, v), "SetValue", WHERE);
					memcpy(pa + (size_t)f * es, sameElem(A.t, real, v) ? real : v, es);
					delete list;
					if (!A.refs()) delete b;
				}
				break;
			case 14: case 15:
				tag = BOXES;
				if (len) {
					const unsigned char* w = pa + (size_t)f * es;
					if (A.t == BooleanType && *w > 1) break;
					if (A.t == CharType) { Char q; memcpy(&q, w, sizeof q); if ((uint32_t)q > 0x10ffff) break; }
					if (A.t == DateTimeType) { uint64_t q; memcpy(&q, w, 8); if (q > 3155378975999999999ULL) break; }
					Object* b = nullptr;
					unsigned char got[16];
					Array* list = r.chance(1, 3) ? indexes(A.rank, ix) : nullptr;
					Ex e = run([&] { b = list ? A.a->GetValue(list) : A.a->GetValue(ix[0], ix[1], ix[2]); });
					SEE(e == NOEX && (b || A.refs()), "GetValue refused", WHERE);
					if (e == NOEX && (b || A.refs())) { SEE(unbox(A.t, b, got), "type of the box", WHERE); SEE(sameElem(A.t, got, w), "GetValue", WHERE); }
					delete list;
					if (b && !A.refs()) delete b;
				}
				break;
			case 16: {
				tag = BOXES;
				if (!len) break;
				String no(L"1");
				Int32Value one(1);
				Object* bad = A.t == ObjectType ? nullptr : A.t == StringType ? (Object*)&one : (Object*)&no;
				Ex e = run([&] { if (bad) A.a->SetValue(bad, ix[0], ix[1], ix[2]); else A.a->GetValue(A.d[0], ix[1], ix[2]); });
				SEE(isErr(e), "bad boxed access accepted", WHERE);
				break;
			}
			case 17: {
				tag = BYTES;
				if (A.rank > 1) break;
				int got = -1;
				Ex e = run([&] { got = Buffer::ByteLength(A.a); });
				SEE(A.refs() ? isErr(e) : e == NOEX && got == A.bytes(), "byte length", WHERE);
				break;
			}
			case 18: case 19: {
				tag = BYTES;
				if (A.rank > 1) break;
				int i = wild ? (int)r.range(-2, A.bytes() + 1) : A.bytes() ? (int)r.below(A.bytes()) : 0, got = -1;
				bool ok = !A.refs() && i >= 0 && i < A.bytes();
				Byte v = (Byte)r.next();
				if (op == 18) { Ex e = run([&] { got = Buffer::GetByte(A.a, i); }); SEE(ok ? e == NOEX && got == pa[i] : isErr(e), "GetByte", WHERE); }
				else { Ex e = run([&] { Buffer::SetByte(A.a, i, v); }); SEE(ok ? e == NOEX : isErr(e), "SetByte", WHERE); if (ok) pa[i] = v; }
				break;
			}
			case 20: {
				tag = BYTES;
				if (A.rank > 1 || B.rank > 1) break;
				int al = A.bytes(), bl = B.bytes(), so = wild ? (int)r.range(-2, al + 2) : inside(r, al), to = wild ? (int)r.range(-2, bl + 2) : inside(r, bl);
				int cnt = wild ? (int)r.range(-2, al + 2) : inside(r, std::min(al - so, bl - to));
				Ex e = run([&] { Buffer::BlockCopy(A.a, so, B.a, to, cnt); });
				bool ok = !A.refs() && !B.refs() && fits(so, cnt, al) && fits(to, cnt, bl);
				SEE(ok ? e == NOEX : isErr(e), "BlockCopy", WHERE);
				if (ok) memmove(pb + to, pa + so, cnt);
				break;
			}
			case 21: case 22: {
				tag = BITS;
				if (A.t != ByteType || A.rank > 1) break;
				int i = wild ? (int)r.range(-2, len + 2) : at, w = 1 << r.below(4);
				bool ok = i >= 0 && i + w <= len;
				if (op == 21) {
					uint64_t got = 0, want = 0;
					bool fl = r.chance(1, 4), us = r.chance(1, 2);
					for (int q = 0; ok && q < w; q++) want |= (uint64_t)pa[i + q] << 8 * q;
					double dv = 0;
					float fv = 0;
					Ex e = run([&] {
						if (w == 1) got = BitConverter::ToBoolean(A.a, i), want = want != 0;
						else if (w == 2) got = us ? (uint16_t)BitConverter::ToUInt16(A.a, i) : fl ? (uint16_t)BitConverter::ToChar(A.a, i) : (uint16_t)BitConverter::ToInt16(A.a, i);
						else if (w == 4 && fl) fv = BitConverter::ToSingle(A.a, i);
						else if (w == 4) got = us ? (uint32_t)BitConverter::ToUInt32(A.a, i) : (uint32_t)BitConverter::ToInt32(A.a, i);
						else if (fl) dv = BitConverter::ToDouble(A.a, i);
						else got = us ? (uint64_t)BitConverter::ToUInt64(A.a, i) : (uint64_t)BitConverter::ToInt64(A.a, i);
					});
					SEE(ok ? e == NOEX : isErr(e), "bytes decoded", WHERE);
					if (ok && e == NOEX) {
						if (w == 4 && fl) { uint32_t bits = (uint32_t)want; float wf; memcpy(&wf, &bits, 4); SEE(sameF(fv, wf), "wrong value decoded", WHERE); }
						else if (w == 8 && fl) SEE(sameD(dv, dblOf(want)), "wrong value decoded", WHERE);
						else SEE(got == want, "wrong value decoded", WHERE);
					}
				} else if (at < len && k) {
					String* t = nullptr;
					W want;
					for (int q = at; q < at + k; q++) { if (q > at) want += L'-'; want += L"0123456789ABCDEF"[pa[q] >> 4]; want += L"0123456789ABCDEF"[pa[q] & 15]; }
					Ex e = run([&] { t = BitConverter::ToString(A.a, at, k); });
					SEE(e == NOEX && t && str(t) == want, "hex text", WHERE);
					delete t;
				}
				break;
			}
			case 23: {
				tag = r.chance(1, 2) ? BITS : BOXES;
				if (tag == BITS) {  // bytes of a value, stored at once
					if (A.t != ByteType || A.rank > 1) break;
					int w = 1 << r.range(1, 3);
					int64_t v = interesting64(r);
					Array* g = nullptr;
					Ex e = run([&] { g = w == 2 ? BitConverter::GetBytes((Int16)v) : w == 4 ? BitConverter::GetBytes((Int32)v) : BitConverter::GetBytes((Int64)v); });
					bool same = e == NOEX && g && g->get_Length() == w && g->GetElementType() == ByteType;
					for (int q = 0; same && q < w; q++) same = *(Byte*)g->Address(q) == (Byte)(v >> 8 * q);
					SEE(same, "bytes of a value", WHERE);
					if (g && at + w <= len) { Array::Copy(g, 0, A.a, at, w); for (int q = 0; q < w; q++) pa[at + q] = (unsigned char)(v >> 8 * q); }
					delete g;
				} else {
					std::vector<unsigned char> raw(A.bytes());
					for (int q = 0; q < len; q++) randomElement(r, A.t, raw.data() + (size_t)q * es, objs, strs);
					if (!len) break;
					Array* back = nullptr;
					Ex e = run([&] { back = A.a->Initialize(raw.data()); });
					SEE(e == NOEX && back == A.a, "Initialize", WHERE);
					memcpy(pa, raw.data(), raw.size());
				}
				break;
			}
			}
			for (int q = 0; q < BLOCKS && !lost; q++)
				if (memcmp(mem[q], img[q].data(), MEM)) { SEE(false, "caller memory is wrong", WHERE); lost = true; }
			for (int q = 2; q < OBJ && !lost; q++)
				for (int g = 0; g < s[q].total() && !lost; g++) {
					int jx[3];
					s[q].split(g, jx);
					if (memcmp(s[q].a->Address(jx[0], jx[1], jx[2]), img[q].data() + (size_t)g * s[q].es(), s[q].es())) { SEE(false, "an array is wrong", "element %d of array %d %s[%d], operation %d after %s", g, q, typeInfo(s[q].t).name, s[q].total(), op, trail.c_str()); lost = true; }
				}
			if (!lost && s[0].a->Address(s[0].d[0] - 1) != mem[s[0].block] + s[0].off + (s[0].d[0] - 1) * s[0].es()) { SEE(false, "a view moved", WHERE); lost = true; }
		}
#undef SEE
#undef WHERE
		for (auto& m : s) delete m.a;
		for (int q = 0; q < BLOCKS; q++) if (!lost && memcmp(mem[q], img[q].data(), MEM) && mine == BOXES) c.fail("destroying an array changed caller memory", "block %d", q);
	}
	c.event("operations in histories", turns);
	c.event("pairs of neighbouring operations", pairs.size());
}
}
