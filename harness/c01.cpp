// C01: typed arrays are bounds-checked, zero-initialised, row-major storage of independent elements.
#include "arrays.h"

static void shapeChecks(Ctx& c, ArrModel& m) {
	CHECK(m.a->get_Length() == m.total(), "length", "Length %d expected %d", m.a->get_Length(), m.total());
	CHECK(m.a->get_Rank() == m.rank, "rank", "Rank %d expected %d", m.a->get_Rank(), m.rank);
	CHECK(m.a->GetElementType() == m.t, "element type", "type %d expected %d", (int)m.a->GetElementType(), (int)m.t);
	for (int k = -3; k < 7; k++) {
		int len = -99, lo = -99, hi = -99;
		Ex e1 = run([&] { len = m.a->GetLength(k); }), e2 = run([&] { lo = m.a->GetLowerBound(k); }), e3 = run([&] { hi = m.a->GetUpperBound(k); });
		if (k >= 0 && k < m.rank) {
			CHECK(e1 == NOEX && len == m.d[k], "dimension length", "GetLength(%d)=%d (%s) expected %d", k, len, exName(e1), m.d[k]);
			CHECK(e2 == NOEX && lo == 0, "lower bound", "GetLowerBound(%d)=%d (%s)", k, lo, exName(e2));
			CHECK(e3 == NOEX && hi == m.d[k] - 1, "upper bound", "GetUpperBound(%d)=%d (%s) expected %d", k, hi, exName(e3), m.d[k] - 1);
		} else {
			CHECK(isErr(e1) && isErr(e2) && isErr(e3), "dimension number out of range", "k=%d: %s/%s/%s", k, exName(e1), exName(e2), exName(e3));
		}
	}
}

// every shape up to a small size: every index triple in and around the shape
static void probeAll(Ctx& c, ArrModel& m) {
	std::set<char*> seen;
	int lo = -2;
	for (int i = lo; i <= m.d[0] + 1; i++)
		for (int j = (m.rank > 1 ? lo : -1); j <= (m.rank > 1 ? m.d[1] + 1 : 1); j++)
			for (int k = (m.rank > 2 ? lo : -1); k <= (m.rank > 2 ? m.d[2] + 1 : 1); k++) {
				if (m.rank == 1 && k > 0) continue;
				c.bulk("address probe", (m.t << 24) | (m.rank << 20) | (m.d[0] << 12) | ((m.d[1] & 15) << 6) | (m.d[2] & 15), i, (int64_t)j * 1000 + k);
				void* p = nullptr;
				Ex e = run([&] { p = m.a->Address(i, j, k); });
				if (m.inside(i, j, k)) {
					CHECK(e == NOEX && p != nullptr, "valid index rejected", "(%d,%d,%d): %s", i, j, k, exName(e));
					if (e == NOEX && p) {
						seen.insert((char*)p);
						static const unsigned char zero[16] = {0};
						CHECK(memcmp(p, zero, m.esize()) == 0, "not zero-initialised", "(%d,%d,%d)", i, j, k);
						CHECK(((char*)p - (char*)m.real(0)) == (ptrdiff_t)m.offset(i, j, k) * m.esize(), "not row-major", "(%d,%d,%d) at byte %ld", i, j, k, (long)((char*)p - (char*)m.real(0)));
					}
				} else {
					CHECK(e == IOOR, "index outside the array accepted", "(%d,%d,%d): %s", i, j, k, exName(e));
					if (m.t != DecimalType) {
						Ex g = run([&] { m.a->GetValue(i, j, k); });
						CHECK(g == IOOR, "GetValue outside the array", "(%d,%d,%d): %s", i, j, k, exName(g));
						Int32Value one(1);
						Ex s = run([&] { m.a->SetValue(&one, i, j, k); });
						CHECK(s == IOOR, "SetValue outside the array", "(%d,%d,%d): %s", i, j, k, exName(s));
					}
				}
			}
	CHECK((int)seen.size() == m.total(), "elements share storage", "%d distinct addresses for %d elements", (int)seen.size(), m.total());
	CHECK(m.diff() == -1, "out-of-range access wrote an element", "element %d changed", m.diff());
}

SECTION(shapes, 8, 8) {
	uint64_t idx = 0;
	int top = c.thorough ? 6 : 4;
	for (int ti = 0; ti < kTypeCount; ti++)
		for (int rank = 1; rank <= 3; rank++)
			for (int x = 0; x <= top; x++)
				for (int y = (rank > 1 ? 0 : -1); y <= (rank > 1 ? top : -1); y++)
					for (int z = (rank > 2 ? 0 : -1); z <= (rank > 2 ? top : -1); z++) {
						if (!c.mine(idx++)) continue;
						ArrModel m;
						m.shape(kTypes[ti].t, rank, x, y, z);
						m.make();
						c.bulk("shape", ti, rank, x * 10000 + y * 100 + z);
						c.event("shapes built");
						shapeChecks(c, m);
						probeAll(c, m);
						delete m.a;
					}
}

// histories of element writes: only the written element changes; whole image compared
SECTION(histories, 8, 8) {
	std::vector<Object*> objs;
	std::vector<String*> strs;
	for (int i = 0; i < 8; i++) { objs.push_back(new Int32Value(i)); strs.push_back(new String(L"abc", 0, i % 4)); }
	uint64_t n = c.n(1600, 40000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		ArrModel m;
		int rank = (int)r.range(1, 3);
		int lim = rank == 1 ? 60 : rank == 2 ? 9 : 6;
		if (r.chance(1, 60)) {  // long in one direction
			int big = 1 + bigSize(r, 70000), other = (int)r.range(1, 3), third = (int)r.range(1, 3), w = (int)r.below(rank);
			m.shape(kTypes[r.below(kTypeCount)].t, rank, w == 0 ? big : other, w == 1 ? big : rank > 1 && w == 0 ? other : third, w == 2 ? big : third);
		} else if (r.chance(1, 10)) {
			int big = rank == 1 ? 3000 : rank == 2 ? 300 : 40;
			m.shape(kTypes[r.below(kTypeCount)].t, rank, (int)r.range(1, big), (int)r.range(1, big), (int)r.range(1, big));
		} else
			m.shape(kTypes[r.below(kTypeCount)].t, rank, (int)r.range(1, lim), (int)r.range(1, lim), (int)r.range(1, lim));
		m.make();
		c.begin(true, "history %llu: %s[%d,%d,%d]", (unsigned long long)h, typeInfo(m.t).name, m.d[0], m.d[1], m.d[2]);
		int ops = (int)r.range(5, 40);
		for (int o = 0; o < ops; o++) {
			int f = (int)r.below(m.total());
			unsigned char v[16];
			randomElement(r, m.t, v, objs, strs);
			memcpy(m.real(f), v, m.esize());
			memcpy(m.at(f), v, m.esize());
			c.event("element writes");
			// an interleaved out-of-range access must change nothing
			int bi = (int)(r.chance(1, 2) ? m.d[0] + r.range(0, 3) : r.range(-5, -1));
			int bj = rank > 1 ? 0 : -1, bk = rank > 2 ? 0 : -1;
			if (r.chance(1, 3)) bi = interesting32(r);
			if (rank > 1 && r.chance(1, 3)) { bj = (int)(r.chance(1, 2) ? m.d[1] + r.range(0, 40) : interesting32(r)); }
			if (rank > 2 && r.chance(1, 3)) { bk = (int)(r.chance(1, 2) ? m.d[2] + r.range(0, 40) : interesting32(r)); }
			if (rank < 3 && r.chance(1, 6)) { (rank == 1 && r.chance(1, 2) ? bj : bk) = r.chance(1, 2) ? (int)r.range(0, 100) : interesting32(r) & INT_MAX; if (m.d[0] && r.chance(2, 3)) bi = (int)r.below(m.d[0]); }  // one index too many
			if (!m.inside(bi, bj, bk)) {
				Ex e = run([&] { m.a->Address(bi, bj, bk); });
				CHECK(e == IOOR, "index outside the array accepted", "(%d,%d,%d): %s", bi, bj, bk, exName(e));
				c.event("rejected accesses");
			}
		}
		int dd = m.diff();
		CHECK(dd == -1, "element does not hold the last value written", "element %d", dd);
		delete m.a;
	}
}

SECTION(sizes, 1, 1) {
	// sizes that cannot exist are refused; nothing is allocated with a wrapped size
	int bad[] = {-1, -2, -100, INT_MIN, INT_MIN + 1};
	for (int b : bad) {
		c.begin(true, "new Array(Int32, %d)", b);
		Ex e = run([&] { new Array(Int32Type, b); });
		CHECK(isErr(e), "negative size accepted", "%s", exName(e));
		if (b < -1) {
			Ex e2 = run([&] { new Array(Int32Type, 3, b); });
			CHECK(isErr(e2), "negative size accepted", "2D %s", exName(e2));
			Ex e3 = run([&] { new Array(Int32Type, 3, 3, b); });
			CHECK(isErr(e3), "negative size accepted", "3D %s", exName(e3));
		}
	}
	int big[][3] = {{65536, 65536, -1}, {65536, 32768, -1}, {46341, 46341, -1}, {INT_MAX, 2, -1}, {2, INT_MAX, -1}, {65536, 65536, 1}, {1291, 1291, 1291}, {2048, 2048, 512}, {INT_MAX, INT_MAX, INT_MAX}};
	for (auto& b : big) {
		c.begin(true, "new Array(Byte, %d, %d, %d)", b[0], b[1], b[2]);
		Ex e = run([&] { new Array(ByteType, b[0], b[1], b[2]); });
		CHECK(isErr(e), "element count beyond 2^31-1 accepted", "%s", exName(e));
	}
	// a large array whose byte size exceeds 2^31 still addresses its last element correctly
	c.begin(true, "Byte[70000,1000]");
	Array* a = new Array(ByteType, 70000, 1000);
	*(Byte*)a->Address(69999, 999) = 7;
	*(Byte*)a->Address(0, 0) = 9;
	CHECK((char*)a->Address(69999, 999) - (char*)a->Address(0, 0) == 69999999, "not row-major", "large array");
	CHECK(run([&] { a->Address(69999, 1000); }) == IOOR && run([&] { a->Address(70000, 0); }) == IOOR, "index outside the array accepted", "large array");
	delete a;
	c.begin(true, "Int64[20000,17000] (2.7 GB of address space not touched)");
	Array* w = nullptr;
	if (c.thorough && run([&] { w = new Array(Int64Type, 9000, 30000); }) == NOEX && w) {
		CHECK((char*)w->Address(8999, 29999) - (char*)w->Address(0, 0) == (ptrdiff_t)269999999 * 8, "not row-major", "array beyond 2^31 bytes");
		delete w;
	}
}

// element counts up to Int32's limit over caller memory: every element still has its own place, in row-major order
SECTION(giant, 8, 8) {
	std::vector<Object*> no;
	std::vector<String*> ns;
	uint64_t n = c.n(1600, 60000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		int rank = (int)r.range(1, 3), d[3];
		giantShape(r, rank, d);
		Giant g;
		if (!g.make(kTypes[r.below(kPrimCount)].t, rank, d[0], d[1], d[2])) { c.event("address space refused"); continue; }
		c.begin(true, "giant %s[%d,%d,%d]", typeInfo(g.t).name, d[0], d[1], d[2]);
		CHECK(g.a->get_Length() == (Int32)g.total(), "length", "%d expected %lld", g.a->get_Length(), (long long)g.total());
		for (int k = 0; k < rank; k++)
			CHECK(g.a->GetLength(k) == d[k] && g.a->GetUpperBound(k) == d[k] - 1 && g.a->GetLowerBound(k) == 0, "dimension length", "GetLength(%d)=%d", k, g.a->GetLength(k));
		std::map<int64_t, std::vector<unsigned char>> written;
		for (int o = 0; o < 40; o++) {
			int64_t i = giantIndex(r, d[0]), j = rank > 1 ? giantIndex(r, d[1]) : -1, k = rank > 2 ? giantIndex(r, d[2]) : -1;
			void* p = nullptr;
			Ex e = run([&] { p = g.a->Address((Int32)i, (Int32)j, (Int32)k); });
			int64_t f = g.flat(i, j, k);
			CHECK(e == NOEX, "valid index rejected", "(%lld,%lld,%lld): %s", (long long)i, (long long)j, (long long)k, exName(e));
			bool right = (unsigned char*)p == g.at(f);
			CHECK(right, "not row-major", "(%lld,%lld,%lld) at byte %lld of the block", (long long)i, (long long)j, (long long)k, (long long)((char*)p - g.mem));
			c.event("elements addressed");
			if (right && written.size() < 12) {
				std::vector<unsigned char> v(16);
				randomElement(r, g.t, v.data(), no, ns);
				memcpy(p, v.data(), g.esize());
				written[f] = v;
			}
			// one dimension out of range
			int64_t b[3] = {i, j, k};
			int w = (int)r.below(rank);
			b[w] = r.chance(1, 2) ? d[w] + (d[w] < INT_MAX - 5 ? r.range(0, 4) : 0) : r.chance(1, 2) ? r.range(-5, -1) : (int64_t)interesting32(r);
			if (b[w] >= 0 && b[w] < d[w]) continue;
			if (b[w] > INT_MAX) continue;
			Ex e2 = run([&] { g.a->Address((Int32)b[0], (Int32)b[1], (Int32)b[2]); });
			CHECK(e2 == IOOR, "index outside the array accepted", "(%lld,%lld,%lld): %s", (long long)b[0], (long long)b[1], (long long)b[2], exName(e2));
			c.event("rejected accesses");
		}
		for (auto& w : written)
			CHECK(!memcmp(g.at(w.first), w.second.data(), g.esize()), "element does not hold the last value written", "element %lld", (long long)w.first);
	}
}

// any operations in any order over a few arrays
SECTION(sequences, 4, 8) {
	arrays::histories(c, arrays::ELEMENTS, c.n(6000, 200000));
}
