// C30: operations touch nothing but their target, and the same history always gives the same results, wherever objects live.
#include "world.h"
#include "calls.h"
#include <alloca.h>
#include <sys/wait.h>

SECTION(noninterference, 8, 8) {
	uint64_t n = c.n(5000, 160000);
	for (uint64_t i = 0; i < n; i++) {
		World w;
		uint64_t seed = c.rng.next();
		Rng r(seed);
		w.build(r);
		std::string done;
		std::vector<std::string> before = w.snap();
		for (int k = 0; k < 30; k++) {
			c.begin(true, "history %llu step %d%s", (unsigned long long)seed, k, done.c_str());
			Step st = step(w, r);
			std::vector<std::string> after = w.snap();
			done = " after " + st.name;
			for (size_t q = 0; q < after.size(); q++)
				CHECK(after[q] == before[q] || (int)q == st.target || (int)q == st.also, "an operation changed something else", "%s changed item %d", st.name.c_str(), (int)q);
			c.event("steps observed");
			if (st.target >= 0 && after[st.target] != before[st.target]) c.event("targets changed");
			before.swap(after);
		}
	}
}
// two worlds built alike at different addresses, with different garbage on heap and stack, must stay alike
static __attribute__((noinline)) void dirtyStack(int fill, int n) {
	volatile char* p = (volatile char*)alloca(n);
	for (int i = 0; i < n; i++) p[i] = (char)fill;
}
SECTION(determinism, 6, 8) {
	uint64_t n = c.n(3500, 120000);
	for (uint64_t i = 0; i < n; i++) {
		World w[2];
		uint64_t seed = c.rng.next();
		Rng r[2] = {Rng(seed), Rng(seed)};
		std::vector<void*> junk;
		for (int k = 0; k < 2; k++) {
			w[k].build(r[k]);
			for (int q = (int)c.rng.below(20); q > 0; q--) { void* p = malloc(1 + c.rng.below(300)); junk.push_back(p); }
		}
		std::string done;
		for (int k = 0; k < 30; k++) {
			c.begin(true, "twin history %llu step %d%s", (unsigned long long)seed, k, done.c_str());
			Step st[2];
			for (int q = 0; q < 2; q++) {
				dirtyStack(q ? 0xA5 : 0x3C, 6000);
				st[q] = step(w[q], r[q]);
			}
			done = " after " + st[0].name;
			CHECK(st[0].ex == st[1].ex && st[0].trace == st[1].trace, "same operation, different result", "%s: %s and %s", st[0].name.c_str(), exName(st[0].ex), exName(st[1].ex));
			std::vector<std::string> x = w[0].snap(), y = w[1].snap();
			for (size_t q = 0; q < x.size(); q++) if (q != 3) CHECK(x[q] == y[q], "same history, different state", "%s: item %d", st[0].name.c_str(), (int)q);
			c.event("twin steps compared");
		}
		for (void* p : junk) free(p);
	}
}

// the same call made twice, with arbitrary other calls in between and other memory around it, gives the same result
SECTION(repeat, 6, 8) {
	uint64_t rounds = c.n(120, 6000);
	for (uint64_t q = 0; q < rounds; q++) {
		std::vector<std::pair<int, uint64_t>> list;
		std::vector<uint64_t> first;
		std::vector<void*> junk;
		for (int i = 0; i < 500; i++) list.push_back(std::make_pair((int)c.rng.below(CALLS), c.rng.next()));
		for (auto& x : list) {
			c.begin(true, "call %s %llu", callName(x.first), (unsigned long long)x.second);
			dirtyStack(0x3C, 5000);
			first.push_back(call(x.first, x.second));
			c.event("calls made");
		}
		for (int i = 0; i < 100; i++) { void* p = malloc(1 + c.rng.below(2000)); memset(p, 0x7B, 1); junk.push_back(p); }
		std::vector<int> order;
		for (int i = 0; i < 500; i++) order.push_back(i);
		for (int i = 499; i > 0; i--) std::swap(order[i], order[c.rng.below(i + 1)]);
		for (int i : order) {
			c.begin(true, "repeated call %s %llu", callName(list[i].first), (unsigned long long)list[i].second);
			dirtyStack(0xA5, 5000);
			uint64_t again = call(list[i].first, list[i].second);
			CHECK(again == first[i], "the same call gave another result later", "%s", callName(list[i].first));
			c.event("calls repeated");
		}
		for (void* p : junk) free(p);
	}
}
// a call made first in a fresh process gives what it gives after thousands of others
SECTION(cold, 4, 8) {
	uint64_t n = c.n(320, 6000);
	std::vector<std::pair<int, uint64_t>> list;
	std::vector<uint64_t> cold;
	for (uint64_t i = 0; i < n; i++) {
		list.push_back(std::make_pair((int)((i * c.shards + c.shard) % CALLS), c.rng.next()));
		c.begin(true, "first call in a process: %s %llu", callName(list[i].first), (unsigned long long)list[i].second);
		int fd[2];
		if (pipe(fd) != 0) return;
		fflush(nullptr);
		pid_t pid = fork();
		if (pid == 0) {
			uint64_t h = call(list[i].first, list[i].second);
			ssize_t w = write(fd[1], &h, sizeof h);
			_exit(w == sizeof h ? 0 : 3);
		}
		close(fd[1]);
		uint64_t h = 0;
		ssize_t got = pid > 0 ? read(fd[0], &h, sizeof h) : -1;
		close(fd[0]);
		int st = 0;
		if (pid > 0) waitpid(pid, &st, 0);
		if (pid > 0) CHECK(got == sizeof h && st == 0, "a call crashed in a fresh process", "%s status %d", callName(list[i].first), st);
		cold.push_back(h);
		c.event("cold calls");
	}
	for (int round = 0; round < 3; round++)
		for (uint64_t i = 0; i < n; i++) {
			uint64_t k = round == 0 ? i : c.rng.below(n);
			c.begin(true, "later call %s %llu", callName(list[k].first), (unsigned long long)list[k].second);
			CHECK(call(list[k].first, list[k].second) == cold[k], "a call gave another result than in a fresh process", "%s", callName(list[k].first));
			c.event("warm calls");
		}
}
// Programs define their own objects: their ToString, FormatString and Equals run in the middle of library operations and may use
// the library themselves. Whatever the nesting, each level gets its own result; an exception out of one leaves nothing behind.
namespace nest {
struct Mine : public Exception {
	int id;
	explicit Mine(int i) : Exception(mk(L"mine")), id(i) {}
};
struct Node : public Object {
	int style, boom;           // boom: which evaluation raises (-1: none)
	int evals = 0;
	W label;
	std::vector<Object*> kids;  // text, boxed values, nodes
	std::vector<W> kidText;     // for the leaves
	bool viaFormat = false;
	StringBuilder* outer = nullptr;  // a builder to write to while being appended to it
	W work() {
		W all;
		Array arr(ObjectType, (Int32)kids.size());
		for (size_t i = 0; i < kids.size(); i++) *(Object**)arr.Address((Int32)i) = kids[i];
		String* s = nullptr;
		String sep(L"-");
		switch (style) {
		case 0: s = String::Join(&sep, &arr); break;
		case 1: s = String::Join((Char)L'-', &arr); break;
		case 2: s = String::Concat(&arr); break;
		case 3: { StringBuilder b; for (auto* k : kids) b.Append(k); s = b.ToString(); break; }
		case 4: { StringBuilder b; for (auto* k : kids) b.Insert(0, k); s = b.ToString(); break; }
		case 5: s = kids.size() > 1 ? String::Concat(kids[0], kids[1]) : String::Concat(kids[0], (Object*)nullptr); break;
		default: { StringBuilder b; for (auto* k : kids) { if (k) { String* t = k->ToString(); b.Append(t); } b.AppendLine(); } s = b.ToString(); break; }
		}
		return str(s);
	}
	W expected() {
		W r = label;
		auto kid = [&](size_t i) -> W { Node* n = dynamic_cast<Node*>(kids[i]); return n ? n->expected() : kidText[i]; };
		switch (style) {
		case 0: case 1: for (size_t i = 0; i < kids.size(); i++) r += (i ? L"-" : L"") + kid(i); break;
		case 2: case 3: for (size_t i = 0; i < kids.size(); i++) r += kid(i); break;
		case 4: for (size_t i = kids.size(); i > 0; i--) r += kid(i - 1); break;
		case 5: r += kid(0); if (kids.size() > 1) r += kid(1); break;
		default: for (size_t i = 0; i < kids.size(); i++) r += kid(i) + L"\r\n"; break;
		}
		return viaFormat ? r.substr(0, 100) : r;
	}
	W eval() {
		W t = label + work();
		if (evals++ == boom) throw new Mine(boom);
		if (outer) { String* o = mk(L"<w>"); outer->Append(o); delete o; }
		return t;
	}
	String* ToString() override { return viaFormat ? Object::ToString() : mk(eval()); }
	Int32 FormatString(Char* where, const Int32 size) override {
		W t = eval().substr(0, 100);
		for (Int32 i = 0; i < size; i++) where[i] = L'~';
		int n = std::min<int>((int)t.size(), size - 1);
		for (int i = 0; i < n; i++) where[i] = t[i];
		where[n] = 0;
		return n;
	}
	Boolean Equals(Object* o) override {
		Array arr(ObjectType, (Int32)kids.size());
		for (size_t i = 0; i < kids.size(); i++) *(Object**)arr.Address((Int32)i) = kids[i];
		Int32 at = Array::IndexOf(&arr, o);
		Node* n = dynamic_cast<Node*>(o);
		return o == this || at >= 0 || (n && n->label == label);
	}
	bool eqModel(Object* o) {
		Node* n = dynamic_cast<Node*>(o);
		if (o == this || (n && n->label == label)) return true;
		for (size_t i = 0; i < kids.size(); i++) {
			if (kids[i] == nullptr) { if (o == nullptr) return true; continue; }
			Node* k = dynamic_cast<Node*>(kids[i]);
			if (k ? k->eqModel(o) : (bool)kids[i]->Equals(o)) return true;
		}
		return false;
	}
};
struct Forest {
	std::vector<Node*> nodes;
	std::vector<Object*> leaves;
	Node* grow(Rng& r, int depth) {
		Node* n = new Node();
		nodes.push_back(n);
		n->style = (int)r.below(7);
		n->boom = -1;
		n->label = smallText(r, 4, L"xyz") + W(1, (wchar_t)(L'A' + r.below(26)));
		n->viaFormat = r.chance(1, 5);
		for (int k = (int)r.range(1, 3); k > 0; k--) {
			if (depth > 0 && r.chance(3, 5)) { n->kids.push_back(grow(r, depth - 1)); n->kidText.push_back(W()); continue; }
			Object* o = nullptr;
			W t;
			switch (r.below(7)) {
			case 0: break;
			case 1: { int v = interesting32(r); o = new Int32Value(v); t = wide(dec(v)); break; }
			case 2: { int64_t v = interesting64(r); o = new Int64Value(v); t = wide(dec(v)); break; }
			case 3: { bool b = r.chance(1, 2); o = new BooleanValue(b); t = b ? L"True" : L"False"; break; }
			case 4: { t = text(r); StringBuilder* b = new StringBuilder(); for (wchar_t ch : t) b->Append((Char)ch); o = b; break; }
			case 5: { o = new DoubleValue((Double)r.range(-999, 999) / 8); String* s = o->ToString(); t = str(s); delete s; break; }
			default: t = text(r); o = mk(t); break;
			}
			if (o) leaves.push_back(o);
			n->kids.push_back(o);
			n->kidText.push_back(t);
		}
		return n;
	}
	~Forest() {
		for (auto* n : nodes) delete n;
		for (auto* l : leaves) delete l;
	}
};
}  // namespace nest
SECTION(nested, 8, 8) {
	using namespace nest;
	uint64_t n = c.n(12000, 300000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		Forest f;
		std::vector<Node*> tops;
		for (int k = (int)r.range(1, 4); k > 0; k--) tops.push_back(f.grow(r, (int)r.range(0, 3)));
		int cnt = (int)tops.size(), op = (int)r.below(9);
		Array arr(ObjectType, cnt);
		for (int i = 0; i < cnt; i++) *(Object**)arr.Address(i) = tops[i];
		String sep(L", ");
		W pre = text(r), want;
		int at = (int)r.range(0, pre.size());
		bool booms = r.chance(1, 4);
		Node* bad = f.nodes[r.below(f.nodes.size())];
		String* ps = mk(pre);
		StringBuilder sb(ps);
		std::vector<W> tw;
		for (auto* t : tops) tw.push_back(t->expected());
		auto join = [&](const W& s) { W o; for (int i = 0; i < cnt; i++) o += (i ? s : W()) + tw[i]; return o; };
		c.begin(true, "nested operation %d over %d of the program's objects (%d in all)%s, seed %llu", op, cnt, (int)f.nodes.size(), booms ? ", one raises" : "", (unsigned long long)r.s);
		Node* writer = nullptr;
		auto once = [&]() -> W {
			switch (op) {
			case 0: return str(String::Join(&sep, &arr));
			case 1: return str(String::Join((Char)L';', &arr));
			case 2: return str(String::Concat(&arr));
			case 3: return str(String::Concat((Object*)tops[0], (Object*)tops[cnt - 1], (Object*)tops[0]));
			case 4: sb.Append((Object*)tops[0]); return W(sb.get_Buffer(), sb.get_Buffer() + sb.get_Length());
			case 5: sb.Insert(at, (Object*)tops[0]); return W(sb.get_Buffer(), sb.get_Buffer() + sb.get_Length());
			case 6: return str(String::Join(&sep, &arr, cnt / 2));
			case 7: writer = tops[0]; writer->outer = &sb; sb.Append((Object*)writer); return W(sb.get_Buffer(), sb.get_Buffer() + sb.get_Length());
			default: return str(tops[0]->ToString());
			}
		};
		switch (op) {
		case 0: want = join(L", "); break;
		case 1: want = join(L";"); break;
		case 2: want = join(L""); break;
		case 3: want = tw[0] + tw[cnt - 1] + tw[0]; break;
		case 4: want = pre + tw[0]; break;
		case 5: want = W(pre).insert(at, tw[0]); break;
		case 6: for (int i = cnt / 2; i < cnt; i++) want += (i > cnt / 2 ? L", " : L"") + tw[i]; break;
		case 7: want = pre + L"<w>" + tw[0]; break;
		default: want = tw[0]; break;
		}
		if (booms) {
			bad->boom = 0;
			W got;
			int id = -1;
			bool other = false;
			try { got = once(); }
			catch (Mine* m) { id = m->id; }
			catch (Exception*) { other = true; }
			CHECK(!other, "the program's exception was replaced by another", "operation %d", op);
			if (bad->evals > 0) CHECK(id == 0, "the program's exception was lost", "operation %d", op);
			if (id == 0 && op != 7) CHECK(W(sb.get_Buffer(), sb.get_Buffer() + sb.get_Length()) == pre, "a failed operation changed the builder", "operation %d", op);
			c.event(bad->evals ? "exceptions through the library" : "raising objects not reached");
			if (id != 0 || op == 7) { delete ps; continue; }
		}
		W got;
		Ex e = run([&] { got = once(); });
		CHECK(e == NOEX && got == want, "nested operation gave the wrong text", "got \"%s\" (%s) expected \"%s\"", Q(got), exName(e), Q(want));
		c.event("nested texts compared");
		if (op != 4 && op != 5 && op != 7) {  // and once more
			W twice;
			run([&] { twice = once(); });
			CHECK(twice == want, "nested operation gave the wrong text", "the second time: \"%s\"", Q(twice));
		}
		// searching with the program's own equality
		Object* v = r.chance(1, 3) && !f.leaves.empty() ? f.leaves[r.below(f.leaves.size())] : (Object*)f.nodes[r.below(f.nodes.size())];
		int first = -1, found = -7;
		for (int i = 0; i < cnt && first < 0; i++) if (tops[i]->eqModel(v)) first = i;
		Ex e2 = run([&] { found = Array::IndexOf(&arr, v); });
		CHECK(e2 == NOEX && found == first, "nested search gave the wrong index", "%d (%s) expected %d", found, exName(e2), first);
		c.event("nested searches compared");
		delete ps;
	}
}
