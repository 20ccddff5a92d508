// Reference model of a typed array: a flat byte image plus shape. Built from the documented element sizes only.
#pragma once
#include "vf.h"

struct TypeInfo {
	DataType t;
	const char* name;
	int size;
};
static const TypeInfo kTypes[] = {
	{BooleanType, "Boolean", sizeof(Boolean)}, {CharType, "Char", sizeof(Char)}, {SByteType, "SByte", 1}, {ByteType, "Byte", 1}, {Int16Type, "Int16", 2},
	{UInt16Type, "UInt16", 2}, {Int32Type, "Int32", 4}, {UInt32Type, "UInt32", 4}, {Int64Type, "Int64", 8}, {UInt64Type, "UInt64", 8},
	{SingleType, "Single", 4}, {DoubleType, "Double", 8}, {DateTimeType, "DateTime", 8}, {TimeSpanType, "TimeSpan", 8}, {ObjectType, "Object", sizeof(void*)},
	{StringType, "String", sizeof(void*)}};
static const int kTypeCount = sizeof kTypes / sizeof *kTypes;
static const int kPrimCount = 14;  // the first 14 are not references

inline const TypeInfo& typeInfo(DataType t) {
	for (auto& k : kTypes)
		if (k.t == t) return k;
	return kTypes[0];
}

// Bytes of one random, valid element of the type.
inline void randomElement(Rng& r, DataType t, unsigned char* out, const std::vector<Object*>& objs, const std::vector<String*>& strs) {
	switch (t) {
	case BooleanType: { Boolean b = r.chance(1, 2); memcpy(out, &b, sizeof b); break; }
	case CharType: { Char ch = (Char)(r.chance(1, 2) ? r.range(1, 0x7f) : r.range(1, 0x10ffff)); memcpy(out, &ch, sizeof ch); break; }
	case DateTimeType: { uint64_t v = r.next() % 3155378975999999999ULL; memcpy(out, &v, 8); break; }
	case ObjectType: { Object* o = r.chance(1, 5) || objs.empty() ? nullptr : objs[r.below(objs.size())]; memcpy(out, &o, sizeof o); break; }
	case StringType: { Object* o = r.chance(1, 5) || strs.empty() ? nullptr : (Object*)strs[r.below(strs.size())]; memcpy(out, &o, sizeof o); break; }
	case SingleType: { float f = interestingF(r); memcpy(out, &f, 4); break; }
	case DoubleType: { double d = interestingD(r); memcpy(out, &d, 8); break; }
	default: { int64_t v = interesting64(r); memcpy(out, &v, typeInfo(t).size); break; }
	}
}

struct ArrModel {
	DataType t;
	int rank;
	int d[3];
	std::vector<unsigned char> bytes;
	Array* a = nullptr;
	int esize() const { return typeInfo(t).size; }
	int total() const { return d[0] * (rank > 1 ? d[1] : 1) * (rank > 2 ? d[2] : 1); }
	void shape(DataType tt, int rk, int x, int y, int z) {
		t = tt; rank = rk; d[0] = x; d[1] = rk > 1 ? y : -1; d[2] = rk > 2 ? z : -1;
		bytes.assign((size_t)total() * esize(), 0);
	}
	void make() { a = rank == 1 ? new Array(t, d[0]) : rank == 2 ? new Array(t, d[0], d[1]) : new Array(t, d[0], d[1], d[2]); }
	// flat offset by counting, independent of any multiplication formula order
	int offset(int i, int j, int k) const {
		int o = i;
		if (rank > 1) o = o * d[1] + j;
		if (rank > 2) o = o * d[2] + k;
		return o;
	}
	bool inside(int i, int j, int k) const {
		return i >= 0 && i < d[0] && (rank > 1 ? j >= 0 && j < d[1] : j < 0) && (rank > 2 ? k >= 0 && k < d[2] : k < 0);
	}
	unsigned char* at(int flat) { return bytes.data() + (size_t)flat * esize(); }
	void fill(Rng& r, const std::vector<Object*>& objs, const std::vector<String*>& strs) {
		for (int f = 0; f < total(); f++) randomElement(r, t, at(f), objs, strs);
	}
	// element address through the public interface
	void* real(int flat) {
		if (rank == 1) return a->Address(flat);
		if (rank == 2) return a->Address(flat / d[1], flat % d[1]);
		return a->Address(flat / (d[1] * d[2]), flat / d[2] % d[1], flat % d[2]);
	}
	void push() {
		for (int f = 0; f < total(); f++) memcpy(real(f), at(f), esize());
	}
	// -1 when equal, else the first differing element
	int diff() {
		for (int f = 0; f < total(); f++)
			if (memcmp(real(f), at(f), esize())) return f;
		return -1;
	}
};

// An array over a huge, lazily allocated block of address space: element indexes and byte offsets far beyond what owned test arrays reach.
struct Giant {
	char* mem = nullptr;
	size_t len = 0;
	DataType t;
	int rank, d[3];
	Array* a = nullptr;
	int esize() const { return typeInfo(t).size; }
	int64_t total() const { return (int64_t)d[0] * (rank > 1 ? d[1] : 1) * (rank > 2 ? d[2] : 1); }
	bool make(DataType tt, int rk, int x, int y = -1, int z = -1) {
		t = tt; rank = rk; d[0] = x; d[1] = rk > 1 ? y : -1; d[2] = rk > 2 ? z : -1;
		len = ((size_t)total() * esize() + 8191) & ~(size_t)4095;
		void* p = mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED) return false;
		mem = (char*)p;
		a = rk == 1 ? new Array(mem, t, x) : rk == 2 ? new Array(mem, t, x, y) : new Array(mem, t, x, y, z);
		return true;
	}
	unsigned char* at(int64_t flat) { return (unsigned char*)mem + (size_t)flat * esize(); }
	int64_t flat(int64_t i, int64_t j, int64_t k) const { return rank == 1 ? i : rank == 2 ? i * d[1] + j : (i * d[1] + j) * d[2] + k; }
	~Giant() {
		delete a;
		if (mem) munmap(mem, len);
	}
};
// random dimensions whose product stays within Int32
inline void giantShape(Rng& r, int rank, int d[3]) {
	int64_t left = INT_MAX;
	d[0] = d[1] = d[2] = -1;
	int order[3] = {0, 1, 2};
	for (int i = rank - 1; i > 0; i--) std::swap(order[i], order[r.below(i + 1)]);
	for (int q = 0; q < rank; q++) {
		int64_t v;
		if (q == rank - 1) v = r.chance(1, 2) ? left : r.range(1, left);
		else {
			static const int k[] = {1, 2, 3, 7, 100, 255, 256, 257, 1000, 32767, 32768, 46340, 46341, 65535, 65536, 65537, 100000, 1000000, 16777217, 300000000};
			v = r.chance(1, 2) ? k[r.below(sizeof k / sizeof *k)] : (int64_t)(r.next() >> (33 + r.below(30)));
			if (v < 1) v = 1;
			if (v > left) v = left;
		}
		d[order[q]] = (int)v;
		left /= v;
	}
}
// an index of [0,n): ends, powers of two, anything
inline int64_t giantIndex(Rng& r, int64_t n) {
	int64_t v;
	switch (r.below(4)) {
	case 0: v = n - 1 - r.range(0, 3); break;
	case 1: v = ((int64_t)1 << r.below(32)) + r.range(-2, 2); break;
	case 2: v = r.range(0, 3); break;
	default: v = r.range(0, n - 1);
	}
	return std::max<int64_t>(0, std::min<int64_t>(v, n - 1));
}
