#include "vf.h"
namespace vf {
Page* page;
std::vector<Section>& sections() {
	static std::vector<Section>* s = new std::vector<Section>();
	return *s;
}
}  // namespace vf

// usage: harness --list TIER | harness SECTION SHARD SHARDS SEED TIER OUTPREFIX
int main(int argc, char** argv) {
	if (argc >= 3 && !strcmp(argv[1], "--list")) {
		for (auto& s : sections()) printf("%s %d\n", s.name, !strcmp(argv[2], "thorough") ? s.thoroughShards : s.quickShards);
		return 0;
	}
	if (argc < 7) {
		fprintf(stderr, "bad usage\n");
		return 2;
	}
	std::string prefix = argv[6];
	int fd = open((prefix + ".page").c_str(), O_RDWR | O_CREAT, 0600);
	if (fd < 0 || ftruncate(fd, sizeof(Page)) != 0) return 2;
	page = (Page*)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	if (page == MAP_FAILED) return 2;
	FILE* out = fopen((prefix + ".out").c_str(), "w");
	if (!out) return 2;
	uint64_t seed = strtoull(argv[4], nullptr, 10);
	int shard = atoi(argv[2]), shards = atoi(argv[3]);
	for (auto& s : sections()) {
		if (strcmp(s.name, argv[1])) continue;
		uint64_t h = mix(mix(hashBytes(s.name, strlen(s.name)), seed), (uint64_t)shard);
		Ctx* c = new Ctx(s.name, !strcmp(argv[5], "thorough"), shard, shards, h, out);
		s.fn(*c);
		fprintf(out, "S\t%llu\t%llu\t%llu\n", (unsigned long long)c->evals, (unsigned long long)c->distinctBulk, (unsigned long long)c->fails);
		for (auto& e : c->events) fprintf(out, "E\t%s\t%llu\n", e.first.c_str(), (unsigned long long)e.second);
		for (auto& e : c->samples) fprintf(out, "X\t%s\n", Ctx::clean(e).c_str());
		fclose(out);
		FILE* hf = fopen((prefix + ".hash").c_str(), "wb");
		if (!hf) return 2;
		for (uint64_t v : c->seen) fwrite(&v, 8, 1, hf);
		fclose(hf);
		fflush(nullptr);
		_exit(0);
	}
	fprintf(stderr, "no such section\n");
	return 2;
}
