// C04: the byte view (length, get, set, block copy) addresses exactly the array's bytes.
#include "arrays.h"

SECTION(bytes, 4, 8) {
	std::vector<Object*> no;
	std::vector<String*> ns;
	uint64_t n = c.n(6000, 150000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		ArrModel m;
		bool big = r.chance(1, 25);
		m.shape(kTypes[r.below(kPrimCount)].t, 1, big ? bigSize(r) : midSize(r, 12), -1, -1);
		m.make();
		m.fill(r, no, ns);
		m.push();
		int bl = (int)m.bytes.size();
		c.begin(bl > 0, "byte view of %s[%d] #%llu", typeInfo(m.t).name, m.d[0], (unsigned long long)h);
		CHECK(Buffer::ByteLength(m.a) == bl, "byte length", "%d expected %d", Buffer::ByteLength(m.a), bl);
		if (big)
			for (int o = 0; o < 3000; o++) {
				if (o >= 600 && !bl) break;
				int i = o < 600 ? o : (int)r.range(0, bl - 1);
				if (i >= bl) continue;
				int got = -1;
				Ex e = run([&] { got = Buffer::GetByte(m.a, i); });
				CHECK(e == NOEX && got == m.bytes[i], "wrong byte read", "[%d] = %d (%s) expected %d", i, got, exName(e), m.bytes[i]);
				c.event("byte reads");
			}
		for (int o = 0; o < 12; o++) {
			int i = r.chance(1, 4) ? interesting32(r) : (int)r.range(-2, bl + 1);
			bool ok = i >= 0 && i < bl;
			if (r.chance(1, 2)) {
				int got = -1;
				Ex e = run([&] { got = Buffer::GetByte(m.a, i); });
				if (ok) CHECK(e == NOEX && got == m.bytes[i], "wrong byte read", "[%d] = %d (%s) expected %d", i, got, exName(e), m.bytes[i]);
				else CHECK(isErr(e), "byte outside the array read", "[%d]: %s", i, exName(e));
				c.event(ok ? "byte reads" : "bad byte reads refused");
			} else {
				Byte v = (Byte)r.next();
				Ex e = run([&] { Buffer::SetByte(m.a, i, v); });
				if (ok) { CHECK(e == NOEX, "valid byte write refused", "[%d]: %s", i, exName(e)); m.bytes[i] = v; }
				else CHECK(isErr(e), "byte outside the array written", "[%d]: %s", i, exName(e));
				c.event(ok ? "byte writes" : "bad byte writes refused");
			}
			if (o < 3) {  // no array: refused whatever the positions and the count
				int j = r.chance(1, 2) ? (int)r.range(-2, bl + 1) : interesting32(r), k = r.chance(1, 2) ? (int)r.range(-2, bl + 1) : interesting32(r);
				Ex e1 = run([&] { Buffer::BlockCopy(nullptr, j, m.a, i, k); }), e2 = run([&] { Buffer::BlockCopy(m.a, i, nullptr, j, k); }), e3 = run([&] { Buffer::BlockCopy(nullptr, i, nullptr, j, k); });
				Ex e4 = run([&] { Buffer::GetByte(nullptr, i); }), e5 = run([&] { Buffer::SetByte(nullptr, i, (Byte)k); });
				CHECK(isErr(e1) && isErr(e2) && isErr(e3) && isErr(e4) && isErr(e5), "null array accepted", "at %d, %d, count %d: %s %s %s %s %s", i, j, k, exName(e1), exName(e2), exName(e3), exName(e4), exName(e5));
				c.event("null arrays refused");
			}
			if (!big || o == 11) CHECK(m.diff() == -1, "byte write changed the wrong byte", "element %d", m.diff());
		}
		delete m.a;
	}
	Array o(ObjectType, 3), s(StringType, 3), two(Int32Type, 2, 2), b(ByteType, 3);
	c.begin(true, "byte view misuse");
	CHECK(isErr(run([&] { Buffer::ByteLength(&o); })) && isErr(run([&] { Buffer::GetByte(&o, 0); })) && isErr(run([&] { Buffer::SetByte(&o, 0, 1); })), "byte view of references", "Object");
	CHECK(isErr(run([&] { Buffer::ByteLength(&s); })) && isErr(run([&] { Buffer::GetByte(&s, 0); })) && isErr(run([&] { Buffer::SetByte(&s, 0, 1); })), "byte view of references", "String");
	CHECK(isErr(run([&] { Buffer::ByteLength(nullptr); })) && isErr(run([&] { Buffer::GetByte(nullptr, 0); })) && isErr(run([&] { Buffer::SetByte(nullptr, 0, 1); })), "null array accepted", "byte view");
	CHECK(isErr(run([&] { Buffer::ByteLength(&two); })), "byte view of a multi-dimensional array", "ByteLength");
	CHECK(isErr(run([&] { Buffer::BlockCopy(nullptr, 0, &b, 0, 0); })) && isErr(run([&] { Buffer::BlockCopy(&b, 0, nullptr, 0, 0); })), "null array accepted", "BlockCopy");
	CHECK(isErr(run([&] { Buffer::BlockCopy(&o, 0, &b, 0, 1); })) && isErr(run([&] { Buffer::BlockCopy(&b, 0, &s, 0, 1); })), "byte view of references", "BlockCopy");
}

SECTION(blockcopy, 8, 8) {
	std::vector<Object*> no;
	std::vector<String*> ns;
	// Boolean is left out of the mixed-type copies: arbitrary bytes are not valid Booleans
	uint64_t n = c.n(40000, 1000000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		ArrModel a, b;
		bool big = r.chance(1, 150);
		auto size = [&] { return big ? bigSize(r) : midSize(r, 10); };
		a.shape(kTypes[1 + r.below(kPrimCount - 1)].t, 1, size(), -1, -1);
		a.make();
		a.fill(r, no, ns);
		a.push();
		bool self = r.chance(1, 3);
		ArrModel* d = &a;
		if (!self) {
			b.shape(kTypes[1 + r.below(kPrimCount - 1)].t, 1, size(), -1, -1);
			b.make();
			b.fill(r, no, ns);
			b.push();
			d = &b;
		}
		int sl = (int)a.bytes.size(), dl = (int)d->bytes.size();
		int so, dof, k;
		if (r.chance(3, 5)) {
			so = inside(r, sl);
			dof = inside(r, dl);
			k = inside(r, std::min(sl - so, dl - dof));
		} else {
			auto arg = [&](int len) { return r.chance(1, 3) ? interesting32(r) : (int)r.range(-2, len + 2); };
			so = arg(sl);
			dof = arg(dl);
			k = arg(std::min(sl, dl));
		}
		c.begin(sl > 0 && dl > 0, "BlockCopy(%s[%d], %d, %s%s[%d], %d, %d)", typeInfo(a.t).name, a.d[0], so, self ? "same " : "", typeInfo(d->t).name, d->d[0], dof, k);
		Ex e = run([&] { Buffer::BlockCopy(a.a, so, d->a, dof, k); });
		bool ok = so >= 0 && dof >= 0 && k >= 0 && (int64_t)so + k <= sl && (int64_t)dof + k <= dl;
		if (ok) {
			CHECK(e == NOEX, "valid block copy refused", "%s", exName(e));
			std::vector<unsigned char> tmp(a.bytes.begin() + so, a.bytes.begin() + so + k);
			std::copy(tmp.begin(), tmp.end(), d->bytes.begin() + dof);
			c.event(self && so != dof && std::abs(so - dof) < k ? "overlapping block copies" : "block copies");
		} else {
			CHECK(isErr(e), "block copy outside an array accepted", "%s", exName(e));
			c.event("bad block copies refused");
		}
		CHECK(a.diff() == -1, "block copy changed the wrong bytes", "source element %d", a.diff());
		if (!self) { CHECK(b.diff() == -1, "block copy changed the wrong bytes", "destination element %d", b.diff()); delete b.a; }
		delete a.a;
	}
}

// two arrays over parts of the same caller memory, overlapping or not: the bytes arrive as if copied through a buffer
SECTION(shared, 4, 8) {
	static const DataType kinds[] = {ByteType, SByteType, Int16Type, UInt16Type, Int32Type, UInt32Type, Int64Type, UInt64Type, SingleType, DoubleType};
	uint64_t n = c.n(20000, 600000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		bool big = r.chance(1, 100);
		int words = big ? 1 + bigSize(r, 20000) / 8 : (int)r.range(1, 12), bytes = words * 8;
		std::vector<uint64_t> mem(words);
		for (auto& w : mem) w = r.next();
		DataType t[2];
		int off[2], len[2];
		Array* a[2];
		for (int k = 0; k < 2; k++) {
			t[k] = kinds[r.below(10)];
			int es = typeInfo(t[k]).size;
			off[k] = (int)r.range(0, bytes / es) * es;
			len[k] = (int)r.range(0, (bytes - off[k]) / es);
			a[k] = new Array((char*)mem.data() + off[k], t[k], len[k]);
		}
		int sl = len[0] * typeInfo(t[0]).size, dl = len[1] * typeInfo(t[1]).size;
		int so = inside(r, sl), dof = inside(r, dl), k = inside(r, std::min(sl - so, dl - dof));
		bool bad = r.chance(1, 12);
		if (bad) k = std::min(sl - so, dl - dof) + (int)r.range(1, 9);
		c.begin(k > 0, "BlockCopy(%s[%d] at byte %d, %d, %s[%d] at byte %d of the same %d bytes, %d, %d)", typeInfo(t[0]).name, len[0], off[0], so, typeInfo(t[1]).name, len[1], off[1], bytes, dof, k);
		std::vector<unsigned char> want((unsigned char*)mem.data(), (unsigned char*)mem.data() + bytes);
		if (!bad) {
			std::vector<unsigned char> tmp(want.begin() + off[0] + so, want.begin() + off[0] + so + k);
			std::copy(tmp.begin(), tmp.end(), want.begin() + off[1] + dof);
		}
		Ex e = run([&] { Buffer::BlockCopy(a[0], so, a[1], dof, k); });
		if (bad) CHECK(isErr(e), "block copy outside an array accepted", "%s", exName(e));
		else CHECK(e == NOEX, "valid block copy refused", "%s", exName(e));
		CHECK(!memcmp(want.data(), mem.data(), bytes), "block copy changed the wrong bytes", "shared memory");
		int s0 = off[0] + so, d0 = off[1] + dof;
		c.event(bad ? "bad block copies refused" : s0 != d0 && std::abs(s0 - d0) < k ? "overlapping block copies" : "block copies");
		delete a[0];
		delete a[1];
	}
}

// arrays of up to 2^31-1 elements of any size: a byte view at every Int32 byte index; a length beyond Int32 is reported, not wrapped
SECTION(giant, 6, 8) {
	uint64_t n = c.n(2400, 60000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		Giant g[2];
		bool ok = true, self = r.chance(1, 2);
		for (int k = 0; k < 2; k++) {
			int d[3];
			giantShape(r, 1, d);
			static const int odd[] = {536870911, 536870912, 536870913, 268435455, 268435456, 268435457, 1073741823, 1073741824, 134217728, 1073741825, INT_MAX, INT_MAX / 4, INT_MAX / 8};
			if (r.chance(1, 2)) d[0] = odd[r.below(13)];
			ok = ok && g[k].make(kTypes[1 + r.below(kPrimCount - 1)].t, 1, d[0]);
		}
		if (!ok) { c.event("address space refused"); continue; }
		Giant& a = g[0];
		Giant& b = self ? g[0] : g[1];
		int64_t al = a.total() * a.esize(), bl = b.total() * b.esize();
		c.begin(true, "giant byte view: %s[%lld], %s[%lld] #%llu", typeInfo(a.t).name, (long long)a.total(), typeInfo(b.t).name, (long long)b.total(), (unsigned long long)(r.s & 0xffffff));
		int got = -77;
		Ex e = run([&] { got = Buffer::ByteLength(a.a); });
		if (al <= INT_MAX) CHECK(e == NOEX && got == al, "byte length", "%d (%s) expected %lld", got, exName(e), (long long)al);
		else CHECK(isErr(e), "byte length beyond Int32 reported", "%d (%s) for %lld bytes", got, exName(e), (long long)al);
		for (int o = 0; o < 8; o++) {
			int64_t i = giantIndex(r, std::min<int64_t>(al, INT_MAX));
			Byte v = (Byte)r.next();
			int rd = -1;
			Ex e1 = run([&] { Buffer::SetByte(a.a, (Int32)i, v); });
			Ex e2 = run([&] { rd = Buffer::GetByte(a.a, (Int32)i); });
			CHECK(e1 == NOEX && *(Byte*)(a.mem + i) == v, "byte write changed the wrong byte", "[%lld] (%s)", (long long)i, exName(e1));
			CHECK(e2 == NOEX && rd == *(Byte*)(a.mem + i), "wrong byte read", "[%lld] = %d (%s)", (long long)i, rd, exName(e2));
			c.event("byte reads and writes");
			int64_t bad = r.chance(1, 2) ? r.range(-4, -1) : al + r.range(0, 3);
			if (bad > INT_MAX) bad = INT_MIN + r.range(0, 5);
			Ex e3 = run([&] { Buffer::GetByte(a.a, (Int32)bad); }), e4 = run([&] { Buffer::SetByte(a.a, (Int32)bad, 1); });
			CHECK(isErr(e3) && isErr(e4), "byte outside the array read", "[%lld]: %s/%s", (long long)bad, exName(e3), exName(e4));
		}
		int64_t win = r.chance(1, 6) ? bigSize(r) : r.range(1, 60);
		win = std::min(win, std::min(al, bl) / 4);
		int64_t so = std::min(giantIndex(r, std::min<int64_t>(al, INT_MAX)), al - win);
		int64_t dof = self && r.chance(1, 2) ? so + r.range(-win - 3, win + 3) : giantIndex(r, std::min<int64_t>(bl, INT_MAX));
		dof = std::max<int64_t>(0, std::min(std::min<int64_t>(dof, INT_MAX), bl - win));
		int64_t dlo = std::max<int64_t>(0, dof - 9), dhi = std::min(bl, dof + win + 9);
		for (int64_t q = so; q < so + win; q++) a.mem[q] = (char)r.next();
		std::vector<char> src(a.mem + so, a.mem + so + win), dst(b.mem + dlo, b.mem + dhi);
		memcpy(dst.data() + (dof - dlo), src.data(), win);
		Ex eb = run([&] { Buffer::BlockCopy(a.a, (Int32)so, b.a, (Int32)dof, (Int32)win); });
		CHECK(eb == NOEX, "valid block copy refused", "%lld -> %lld, %lld: %s", (long long)so, (long long)dof, (long long)win, exName(eb));
		CHECK(!memcmp(dst.data(), b.mem + dlo, dst.size()), "block copy changed the wrong bytes", "%lld -> %lld, %lld", (long long)so, (long long)dof, (long long)win);
		c.event("block copies");
		// reaching past the end of either side
		int64_t k1 = std::min<int64_t>(INT_MAX, std::max(al - so, (int64_t)1) + r.range(1, 20));
		if (k1 > al - so) { Ex e5 = run([&] { Buffer::BlockCopy(a.a, (Int32)so, b.a, 0, (Int32)k1); }); CHECK(isErr(e5), "block copy outside an array accepted", "source %lld + %lld of %lld: %s", (long long)so, (long long)k1, (long long)al, exName(e5)); }
		int64_t k2 = std::min<int64_t>(INT_MAX, std::max(bl - dof, (int64_t)1) + r.range(1, 20));
		if (k2 > bl - dof) { Ex e6 = run([&] { Buffer::BlockCopy(a.a, 0, b.a, (Int32)dof, (Int32)k2); }); CHECK(isErr(e6), "block copy outside an array accepted", "destination %lld + %lld of %lld: %s", (long long)dof, (long long)k2, (long long)bl, exName(e6)); }
	}
}

// any operations in any order over a few arrays
SECTION(sequences, 4, 8) {
	arrays::histories(c, arrays::BYTES, c.n(6000, 200000));
}
