// C02: whole-range array operations touch exactly the stated elements, or fail and touch nothing.
#include "arrays.h"

static std::vector<Object*> objs;
static std::vector<String*> strs;
static void setup() {
	if (!objs.empty()) return;
	for (int i = 0; i < 6; i++) { objs.push_back(new Int32Value(i)); objs.push_back(new Int64Value(i)); objs.push_back(mk(W(1, L'a' + i % 3))); }
	for (int i = 0; i < 9; i++) strs.push_back(mk(W(1 + i % 2, L'a' + i % 3)));
}
static int rangeArg(Rng& r, int len) {
	switch (r.below(6)) {
	case 0: return interesting32(r);
	case 1: return len + (int)r.range(-1, 2);
	case 2: return (int)r.range(-2, 1);
	default: return inside(r, len);
	}
}
static bool fits(int64_t start, int64_t n, int64_t len) { return start >= 0 && n >= 0 && start + n <= len; }

SECTION(clear, 4, 8) {
	setup();
	uint64_t n = c.n(16000, 400000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		ArrModel m;
		int rank = r.chance(1, 12) ? 2 : 1;
		bool big = r.chance(1, 100);
		m.shape(kTypes[r.below(kTypeCount)].t, rank, big ? bigSize(r, 20000) : midSize(r, 24), (int)r.range(1, 3), -1);
		m.make();
		m.fill(r, objs, strs);
		m.push();
		int len = m.total(), s = rangeArg(r, len), k = rangeArg(r, len);
		c.begin(len > 0, "Clear(%s[%d]%s, %d, %d)", typeInfo(m.t).name, len, rank == 2 ? " rank 2" : "", s, k);
		Ex e = run([&] { Array::Clear(m.a, s, k); });
		if (rank == 1 && fits(s, k, len)) {
			CHECK(e == NOEX, "valid Clear refused", "%s", exName(e));
			if (k) memset(m.at(s), 0, (size_t)k * m.esize());
			c.event("ranges cleared");
		} else if (rank == 1) {
			CHECK(isErr(e), "range outside the array accepted", "Clear: %s", exName(e));
			c.event("bad ranges refused");
		} else {
			CHECK(isErr(e), "Clear of a multi-dimensional array", "%s", exName(e));
		}
		int d = m.diff();
		CHECK(d == -1, "Clear changed or kept the wrong element", "element %d", d);
		Ex en = run([&] { Array::Clear(nullptr, s, k); });
		CHECK(isErr(en), "null array accepted", "Clear(null, %d, %d): %s", s, k, exName(en));
		delete m.a;
	}
	c.begin(true, "Clear(null)");
	CHECK(isErr(run([&] { Array::Clear(nullptr, 0, 0); })), "null array accepted", "Clear");
}

SECTION(copy, 8, 8) {
	setup();
	uint64_t n = c.n(40000, 1000000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		ArrModel a, b;
		int rank = r.chance(1, 8) ? (int)r.range(2, 3) : 1;
		DataType t = kTypes[r.below(kTypeCount)].t;
		bool big = r.chance(1, 120);
		int side = big ? (rank == 1 ? 20000 : 30) : rank == 1 ? 24 : 4;
		a.shape(t, rank, big && rank == 1 ? bigSize(r, side) : (int)r.range(0, side), (int)r.range(1, big ? 20 : 3), (int)r.range(1, big ? 9 : 3));
		a.make();
		a.fill(r, objs, strs);
		a.push();
		bool self = r.chance(1, 3);
		ArrModel* dst = &a;
		if (!self) {
			DataType t2 = r.chance(1, 10) ? kTypes[r.below(kTypeCount)].t : t;
			int rank2 = r.chance(1, 10) ? (int)r.range(1, 3) : rank;
			int side2 = big ? (rank2 == 1 ? 20000 : 30) : rank2 == 1 ? 24 : 4;
			b.shape(t2, rank2, big && rank2 == 1 ? bigSize(r, side2) : (int)r.range(0, side2), (int)r.range(1, big ? 20 : 3), (int)r.range(1, big ? 9 : 3));
			b.make();
			b.fill(r, objs, strs);
			b.push();
			dst = &b;
		}
		int sl = a.total(), dl = dst->total();
		int form = (int)r.below(4);
		int si = rangeArg(r, sl), di = rangeArg(r, dl), k = rangeArg(r, std::min(sl, dl));
		if (form == 2) { si = di = 0; }
		if (form == 3) { si = 0; k = sl; }
		if (r.chance(1, 2) && form < 2 && sl && dl) {  // mostly valid
			si = inside(r, sl);
			di = inside(r, dl);
			k = inside(r, std::min(sl - si, dl - di));
		}
		static const char* names[] = {"Copy", "ConstrainedCopy", "Copy(n)", "CopyTo"};
		c.begin(sl > 0 && dl > 0, "%s %s rank %d [%d] from %d -> %s%s rank %d [%d] at %d, count %d", names[form], typeInfo(t).name, rank, sl, si, self ? "same " : "", typeInfo(dst->t).name,
			dst->rank, dl, di, k);
		Ex e = run([&] {
			if (form == 0) Array::Copy(a.a, si, dst->a, di, k);
			else if (form == 1) Array::ConstrainedCopy(a.a, si, dst->a, di, k);
			else if (form == 2) Array::Copy(a.a, dst->a, k);
			else a.a->CopyTo(dst->a, di);
		});
		bool ok = fits(si, k, sl) && fits(di, k, dl) && dst->rank == rank && dst->t == t;
		if (form == 3 && rank != 1) ok = false;
		if (ok) {
			CHECK(e == NOEX, "valid copy refused", "%s", exName(e));
			std::vector<unsigned char> tmp(a.bytes.begin() + (size_t)si * a.esize(), a.bytes.begin() + (size_t)(si + k) * a.esize());
			if (k) memcpy(dst->at(di), tmp.data(), tmp.size());
			c.event(self && std::abs(si - di) < k && si != di ? "overlapping copies" : "disjoint copies");
		} else {
			// a copy of nothing between arrays of different type is not pinned down
			if (!(dst->t != t && k == 0)) CHECK(isErr(e), "copy outside an array accepted", "%s", exName(e));
			c.event("bad copies refused");
		}
		int d = a.diff();
		CHECK(d == -1, "copy changed or kept the wrong element", "source array element %d", d);
		if (r.chance(1, 4)) {  // no array: refused whatever the range
			Ex n1 = run([&] { Array::Copy(nullptr, si, dst->a, di, k); }), n2 = run([&] { Array::Copy(a.a, si, nullptr, di, k); }), n3 = run([&] { Array::Copy(nullptr, dst->a, k); }), n4 = run([&] { Array::Copy(a.a, nullptr, k); });
			Ex n5 = run([&] { Array::ConstrainedCopy(nullptr, si, dst->a, di, k); }), n6 = run([&] { Array::ConstrainedCopy(a.a, si, nullptr, di, k); }), n7 = run([&] { a.a->CopyTo(nullptr, di); });
			CHECK(isErr(n1) && isErr(n2) && isErr(n3) && isErr(n4) && isErr(n5) && isErr(n6) && isErr(n7), "null array accepted", "%s %s %s %s %s %s %s", exName(n1), exName(n2), exName(n3), exName(n4), exName(n5), exName(n6), exName(n7));
			c.event("null arrays refused");
		}
		if (!self) {
			d = b.diff();
			CHECK(d == -1, "copy changed or kept the wrong element", "destination element %d", d);
			delete b.a;
		}
		delete a.a;
	}
	Array one(Int32Type, 3);
	c.begin(true, "Copy with null arrays");
	CHECK(isErr(run([&] { Array::Copy(nullptr, &one, 1); })) && isErr(run([&] { Array::Copy(&one, nullptr, 1); })) && isErr(run([&] { one.CopyTo(nullptr, 0); })) &&
		isErr(run([&] { Array::ConstrainedCopy(nullptr, 0, &one, 0, 1); })) && isErr(run([&] { Array::ConstrainedCopy(&one, 0, nullptr, 0, 1); })), "null array accepted", "Copy");
}

// copies between two arrays that are views of the same caller memory
SECTION(shared, 2, 8) {
	uint64_t n = c.n(10000, 300000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		static const DataType kinds[] = {ByteType, Int16Type, UInt16Type, Int32Type, UInt32Type, Int64Type, UInt64Type, SingleType, DoubleType};
		DataType t = kinds[r.below(9)];
		int es = typeInfo(t).size, len = r.chance(1, 60) ? 1 + bigSize(r, 10000) : (int)r.range(1, 30);
		std::vector<uint64_t> mem((size_t)len * es / 8 + 1);
		for (auto& w : mem) w = r.next();
		int off[2], k2[2];
		Array* a[2];
		for (int k = 0; k < 2; k++) {
			off[k] = inside(r, len);
			if (k && r.chance(1, 3)) off[1] = off[0];                                   // both views begin at the same element
			k2[k] = inside(r, len - off[k]);
			if (k && r.chance(1, 4) && off[1] + k2[0] <= len) k2[1] = k2[0];            // ... or have the same length
			if (k && r.chance(1, 8)) off[1] = off[0] + k2[0], k2[1] = (int)r.range(0, len - off[1]);  // ... or lie end to end
			a[k] = new Array((char*)mem.data() + (size_t)off[k] * es, t, k2[k]);
		}
		int si = inside(r, k2[0]), di = inside(r, k2[1]), k = inside(r, std::min(k2[0] - si, k2[1] - di)), form = (int)r.below(4);
		if (form == 2) si = di = 0, k = inside(r, std::min(k2[0], k2[1]));
		if (form == 3) {
			if (k2[0] > k2[1]) form = 1;
			else si = 0, k = k2[0], di = (int)r.range(0, k2[1] - k2[0]);
		}
		static const char* names[] = {"Copy", "ConstrainedCopy", "Copy(n)", "CopyTo"};
		c.begin(k > 0, "%s of %d elements between views of the same memory: %s[%d..%d) from %d, [%d..%d) at %d", names[form], k, typeInfo(t).name, off[0], off[0] + k2[0], si, off[1], off[1] + k2[1], di);
		std::vector<unsigned char> want((unsigned char*)mem.data(), (unsigned char*)mem.data() + mem.size() * 8), tmp(want.begin() + (size_t)(off[0] + si) * es, want.begin() + (size_t)(off[0] + si + k) * es);
		std::copy(tmp.begin(), tmp.end(), want.begin() + (size_t)(off[1] + di) * es);
		Ex e = run([&] {
			if (form == 0) Array::Copy(a[0], si, a[1], di, k);
			else if (form == 1) Array::ConstrainedCopy(a[0], si, a[1], di, k);
			else if (form == 2) Array::Copy(a[0], a[1], k);
			else a[0]->CopyTo(a[1], di);
		});
		CHECK(e == NOEX, "valid copy refused", "%s", exName(e));
		CHECK(!memcmp(want.data(), mem.data(), mem.size() * 8), "copy changed or kept the wrong element", "shared memory");
		int s0 = off[0] + si, d0 = off[1] + di;
		c.event(s0 != d0 && std::abs(s0 - d0) < k ? "overlapping copies" : "disjoint copies");
		delete a[0];
		delete a[1];
	}
}
static bool objEq(Object* x, Object* v) {
	if (x == nullptr) return v == nullptr;
	if (v == nullptr) return false;
	if (x->GetRawDataType() != v->GetRawDataType()) return false;
	switch (x->GetRawDataType()) {
	case Int32Type: return x->get_AsInt32() == v->get_AsInt32();
	case Int64Type: return x->get_AsInt64() == v->get_AsInt64();
	case StringType: return str((String*)x) == str((String*)v);
	default: return x == v;
	}
}
SECTION(indexof, 4, 8) {
	setup();
	uint64_t n = c.n(16000, 400000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		ArrModel m;
		DataType t = r.chance(1, 2) ? ObjectType : StringType;
		bool big = r.chance(1, 60);
		m.shape(t, 1, big ? bigSize(r, 5000) : (int)r.range(0, 20), -1, -1);
		m.make();
		m.fill(r, objs, strs);
		m.push();
		if (big && r.chance(2, 3)) {  // the value looked for is rare
			Object* f = t == StringType ? (Object*)strs[0] : objs[0];
			for (int i = 0; i < m.total(); i++) memcpy(m.at(i), &f, sizeof f);
			int at = inside(r, std::max(0, m.total() - 1));
			Object* g = t == StringType ? (Object*)strs[1] : objs[1];
			if (m.total()) memcpy(m.at(at), &g, sizeof g);
			m.push();
		}
		Object* v = big && r.chance(1, 2) ? (t == StringType ? (Object*)strs[1] : objs[1]) : r.chance(1, 8) ? nullptr : t == StringType ? (Object*)strs[r.below(strs.size())] : objs[r.below(objs.size())];
		if (v && r.chance(1, 2)) {  // an equal but distinct object
			if (v->GetRawDataType() == StringType) v = mk(str((String*)v));
			else if (v->GetRawDataType() == Int32Type) v = new Int32Value(v->get_AsInt32());
		}
		int len = m.total(), s = rangeArg(r, len), k = rangeArg(r, len), form = (int)r.below(3);
		if (r.chance(1, 2)) { s = inside(r, len); k = inside(r, len - s); }
		if (form == 0) { s = 0; k = len; }
		if (form == 1) k = (int)std::max<int64_t>(-5, (int64_t)len - s > INT_MAX ? 0 : (int64_t)len - s);
		if (form == 2 && k == -1) k = 0;
		c.begin(len > 0, "IndexOf(%s[%d], value %s, %d, %d) form %d", typeInfo(t).name, len, v ? "object" : "null", s, k, form);
		int got = -77;
		Ex e = run([&] { got = form == 0 ? Array::IndexOf(m.a, v) : form == 1 ? Array::IndexOf(m.a, v, s) : Array::IndexOf(m.a, v, s, k); });
		if (s < 0 || s > len || (form == 2 && k >= 0 && (int64_t)s + k > len)) {
			CHECK(isErr(e), "search range outside the array accepted", "%s got %d", exName(e), got);
		} else if (k >= 0) {
			int want = -1;
			for (int i = s; i < s + k && want < 0; i++) {
				Object* x;
				memcpy(&x, m.at(i), sizeof x);
				if (objEq(x, v)) want = i;
			}
			CHECK(e == NOEX && got == want, "wrong index found", "got %d (%s) expected %d", got, exName(e), want);
			c.event(want >= 0 ? "found" : "not found");
		}
		CHECK(m.diff() == -1, "search changed the array", "element %d", m.diff());
		Ex n1 = run([&] { Array::IndexOf(nullptr, v); }), n2 = run([&] { Array::IndexOf(nullptr, v, s); }), n3 = run([&] { Array::IndexOf(nullptr, v, s, k); });
		CHECK(isErr(n1) && isErr(n2) && isErr(n3), "null array accepted", "IndexOf at %d, %d: %s %s %s", s, k, exName(n1), exName(n2), exName(n3));
		delete m.a;
	}
	c.begin(true, "IndexOf(null array)");
	CHECK(isErr(run([&] { Array::IndexOf(nullptr, nullptr); })), "null array accepted", "IndexOf");
	Array two(ObjectType, 2, 2);
	c.begin(true, "IndexOf(rank 2)");
	CHECK(isErr(run([&] { Array::IndexOf(&two, nullptr); })), "search of a multi-dimensional array", "IndexOf");
}

// windows anywhere in arrays of up to 2^31-1 elements
SECTION(giant, 6, 8) {
	setup();
	uint64_t n = c.n(2400, 60000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		int d[3];
		giantShape(r, 1, d);
		if (d[0] < 1000) d[0] = INT_MAX;
		DataType t = kTypes[r.below(kTypeCount)].t;
		int form = (int)r.below(5);
		if (form == 3) t = r.chance(1, 2) ? ObjectType : StringType;
		int rank = form == 1 && r.chance(1, 4) ? 2 : 1;
		if (rank == 2) { d[0] /= 7; d[1] = 7; }
		Giant g;
		if (!g.make(t, rank, d[0], d[1])) { c.event("address space refused"); continue; }
		int es = g.esize();
		int64_t len = g.total(), win = r.chance(1, 6) ? bigSize(r, 20000) : r.range(1, 40);
		win = std::min(win, len / 4);
		int64_t s = std::min(giantIndex(r, len), len - win);
		auto fillAt = [&](int64_t f, int64_t k) { for (int64_t q = f; q < f + k; q++) { unsigned char v[16]; randomElement(r, t, v, objs, strs); memcpy(g.at(q), v, es); } };
		int64_t lo = std::max<int64_t>(0, s - 5), hi = std::min(len, s + win + 5);
		fillAt(lo, hi - lo);
		std::vector<unsigned char> img(g.at(lo), g.at(hi));
		if (form == 0) {
			c.begin(true, "Clear(giant %s[%lld], %lld, %lld)", typeInfo(t).name, (long long)len, (long long)s, (long long)win);
			Ex e = run([&] { Array::Clear(g.a, (Int32)s, (Int32)win); });
			CHECK(e == NOEX, "valid Clear refused", "%s", exName(e));
			memset(img.data() + (s - lo) * es, 0, win * es);
			CHECK(!memcmp(img.data(), g.at(lo), img.size()), "Clear changed or kept the wrong element", "giant array");
		} else if (form == 1) {
			int64_t di = r.chance(1, 2) ? std::min(giantIndex(r, len), len - win) : std::max<int64_t>(0, std::min(len - win, s + r.range(-win - 3, win + 3)));
			int64_t dlo = std::max<int64_t>(0, di - 5), dhi = std::min(len, di + win + 5);
			for (int64_t q = dlo; q < dhi; q++) if (q < lo || q >= hi) fillAt(q, 1);
			img.assign(g.at(lo), g.at(hi));
			std::vector<unsigned char> dst(g.at(dlo), g.at(dhi)), tmp(g.at(s), g.at(s + win));
			memcpy(dst.data() + (di - dlo) * es, tmp.data(), tmp.size());
			for (int64_t q = std::max(lo, di); q < std::min(hi, di + win); q++) memcpy(img.data() + (q - lo) * es, tmp.data() + (q - di) * es, es);
			c.begin(true, "Copy %lld elements of a giant %s[%lld] rank %d from %lld to %lld", (long long)win, typeInfo(t).name, (long long)len, rank, (long long)s, (long long)di);
			Ex e = run([&] { if (r.chance(1, 2)) Array::Copy(g.a, (Int32)s, g.a, (Int32)di, (Int32)win); else Array::ConstrainedCopy(g.a, (Int32)s, g.a, (Int32)di, (Int32)win); });
			CHECK(e == NOEX, "valid copy refused", "%s", exName(e));
			CHECK(!memcmp(dst.data(), g.at(dlo), dst.size()), "copy changed or kept the wrong element", "destination in a giant array");
			CHECK(!memcmp(img.data(), g.at(lo), img.size()), "copy changed or kept the wrong element", "source in a giant array");
		} else if (form == 2) {
			ArrModel m;
			m.shape(t, 1, (int)win, -1, -1);
			m.make();
			m.fill(r, objs, strs);
			m.push();
			c.begin(true, "CopyTo(giant %s[%lld], %lld) of %lld elements", typeInfo(t).name, (long long)len, (long long)s, (long long)win);
			Ex e = run([&] { m.a->CopyTo(g.a, (Int32)s); });
			CHECK(e == NOEX, "valid copy refused", "%s", exName(e));
			memcpy(img.data() + (s - lo) * es, m.bytes.data(), m.bytes.size());
			CHECK(!memcmp(img.data(), g.at(lo), img.size()), "copy changed or kept the wrong element", "CopyTo into a giant array");
			CHECK(m.diff() == -1, "copy changed or kept the wrong element", "source");
			delete m.a;
		} else if (form == 3) {
			Object* v = r.chance(1, 6) ? nullptr : t == StringType ? (Object*)strs[r.below(strs.size())] : objs[r.below(objs.size())];
			int64_t want = -1;
			for (int64_t q = s; q < s + win && want < 0; q++) { Object* x; memcpy(&x, g.at(q), sizeof x); if (objEq(x, v)) want = q; }
			c.begin(true, "IndexOf(giant %s[%lld], value, %lld, %lld)", typeInfo(t).name, (long long)len, (long long)s, (long long)win);
			int got = -77;
			Ex e = run([&] { got = s + win == len && r.chance(1, 2) ? Array::IndexOf(g.a, v, (Int32)s) : Array::IndexOf(g.a, v, (Int32)s, (Int32)win); });
			CHECK(e == NOEX && got == want, "wrong index found", "got %d (%s) expected %lld", got, exName(e), (long long)want);
			CHECK(!memcmp(img.data(), g.at(lo), img.size()), "search changed the array", "giant");
		} else {
			// windows that reach past the end, by a little or by so much that a sum wraps
			int64_t k = r.chance(1, 3) ? INT_MAX : std::min<int64_t>(INT_MAX, len - s + r.range(1, 50));
			if (k <= len - s) continue;
			c.begin(true, "giant %s[%lld]: range %lld, %lld", typeInfo(t).name, (long long)len, (long long)s, (long long)k);
			Ex e1 = run([&] { Array::Clear(g.a, (Int32)s, (Int32)k); }), e2 = run([&] { Array::Copy(g.a, (Int32)s, g.a, 0, (Int32)k); }), e3 = run([&] { Array::Copy(g.a, 0, g.a, (Int32)s, (Int32)k); });
			Ex e4 = t == ObjectType || t == StringType ? run([&] { Array::IndexOf(g.a, nullptr, (Int32)s, (Int32)k); }) : IOOR;
			Array small((void*)g.mem, t, 60);
			Ex e5 = s > len - 60 ? run([&] { small.CopyTo(g.a, (Int32)s); }) : IOOR;
			CHECK(isErr(e1) && isErr(e2) && isErr(e3) && isErr(e4) && isErr(e5), "range outside the array accepted", "%s/%s/%s/%s/%s", exName(e1), exName(e2), exName(e3), exName(e4), exName(e5));
			CHECK(!memcmp(img.data(), g.at(lo), img.size()), "copy changed or kept the wrong element", "refused range");
			c.event("bad ranges refused");
			continue;
		}
		c.event("giant windows");
	}
}

// any operations in any order over a few arrays
SECTION(sequences, 4, 8) {
	arrays::histories(c, arrays::RANGES, c.n(6000, 200000));
}
