// Native meaning of the specification intrinsics: replays the inputs of a counterexample against the real
// code, or searches for a failing input. Usage:
//   prog replay ENTRY FILE        exit 1 + "VF-FAIL" if the contract is violated on these inputs
//   prog search ENTRY SECONDS OUT exit 1 if a failing input was found (written to OUT)
#include "vf.h"
#include <map>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <iostream>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <csetjmp>
#include <random>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <ctime>

static std::map<std::string, std::string> in;	// name -> raw little-endian bytes
static bool searching = false;
static std::mt19937_64 rng;
static char *shm; static size_t shm_n = 1 << 22;
static jmp_buf jb;
static std::vector<void *> bufs;

static void logval(const char *n, const std::string &v)
{
	size_t l = strlen(shm);
	std::string s(n); s += ' ';
	static const char *h = "0123456789abcdef";
	for (unsigned char c : v) { s += h[c >> 4]; s += h[c & 15]; }
	s += '\n';
	if (l + s.size() + 1 < shm_n) strcpy(shm + l, s.c_str());
}

static std::string get(const char *n, size_t len, int mode = 0, uint64_t lo = 0, uint64_t hi = 0)
{
	auto it = in.find(n);
	if (it != in.end()) {
		std::string v = it->second;
		if (v.size() < len) v.resize(len, '\0');
		return v.substr(0, len);
	}
	std::string v(len, '\0');
	if (searching) {
		if (mode == 1) {	// integer
			uint64_t x;
			switch (rng() % 8) {
				case 0: x = rng(); break;
				case 1: x = rng() % 4; break;
				case 2: x = rng() % 40; break;
				case 3: x = rng() % 300; break;
				case 4: x = uint64_t(1) << (rng() % 64); x += rng() % 3; x -= 1; break;
				case 5: x = -(rng() % 4); break;
				case 6: x = rng() % 5000; break;
				default: x = rng() >> (rng() % 64);
			}
			memcpy(&v[0], &x, len);
		} else if (mode == 2) {
			uint64_t span = hi - lo + 1, x;
			if (span == 0) x = rng();
			else switch (rng() % 6) {
				case 0: x = lo; break;
				case 1: x = hi; break;
				case 2: x = lo + rng() % (span < 16 ? span : 16); break;
				case 3: x = hi - rng() % (span < 16 ? span : 16); break;
				default: x = lo + rng() % span;
			}
			memcpy(&v[0], &x, len);
		} else {
			int k = rng() % 6;
			static const char *al = "0123456789abcdefABCDEF{}\",- ./&<>'\n\r";
			for (size_t i = 0; i < len; i++) {
				switch (k) {
					case 0: v[i] = rng(); break;
					case 1: v[i] = al[rng() % 37]; break;
					case 2: v[i] = rng() % 4 ? 0 : rng(); break;
					case 3: v[i] = al[rng() % 22]; break;
					case 4: v[i] = (rng() % 10) << 4 | (rng() % 10); break;
					default: v[i] = (rng() % 3 == 0) ? rng() : (rng() & 1 ? 0 : 0xff);
				}
			}
		}
	}
	in[n] = v;
	logval(n, v);
	return v;
}

template<class T> static T num(const char *n, int mode, uint64_t lo, uint64_t hi) { T x; std::string v = get(n, sizeof(T), mode, lo, hi); memcpy(&x, v.data(), sizeof(T)); return x; }

extern "C" {
uint8_t  vf_u8(const char *n) { return num<uint8_t>(n, 1, 0, 0); }
uint16_t vf_u16(const char *n) { return num<uint16_t>(n, 1, 0, 0); }
uint32_t vf_u32(const char *n) { return num<uint32_t>(n, 1, 0, 0); }
uint64_t vf_u64(const char *n) { return num<uint64_t>(n, 1, 0, 0); }
uint64_t vf_range(const char *n, uint64_t lo, uint64_t hi)
{
	if (searching && hi - lo > 100000) {	// keep sizes natively affordable
		uint64_t h2 = hi;
		if (rng() % 4) h2 = lo + 5000;
		uint64_t v = num<uint64_t>(n, 2, lo, h2);
		return v;
	}
	uint64_t v = num<uint64_t>(n, 2, lo, hi);
	vf_assume(v >= lo && v <= hi);
	return v;
}
uint64_t vf_index(const char *n, uint64_t cnt)
{
	vf_assume(cnt != 0);
	uint64_t v = num<uint64_t>(n, 2, 0, cnt - 1);
	vf_assume(v < cnt);
	return v;
}
void vf_bytes(const char *n, void *p, size_t len) { std::string v = get(n, len); memcpy(p, v.data(), len); }
void *vf_buf(const char *n, size_t len) { vf_assume(len < (1 << 24)); void *p = malloc(len ? len : 1); std::string v = get(n, len); memcpy(p, v.data(), len); bufs.push_back(p); return p; }
void *vf_raw(const char *n, size_t len) { vf_assume(len < (1 << 24)); void *p = malloc(len ? len : 1); memset(p, 0xA5, len); bufs.push_back(p); return p; }
static uint64_t mix(const char *n, uint64_t a, uint64_t b)
{
	std::string key = std::string("uf:") + n + ":" + std::to_string(a) + ":" + std::to_string(b);
	auto it = in.find(key);
	if (it != in.end()) { uint64_t x = 0; memcpy(&x, it->second.data(), std::min<size_t>(8, it->second.size())); return x; }
	auto s = in.find("uf_seed"); uint64_t h = 1469598103934665603ull;
	if (s == in.end()) num<uint64_t>("uf_seed", 1, 0, 0);
	{ uint64_t x = 0; memcpy(&x, in["uf_seed"].data(), 8); h ^= x; }
	for (const char *c = n; *c; c++) h = (h ^ (unsigned char)*c) * 1099511628211ull;
	for (uint64_t x : {a, b}) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; }
	return h;
}
uint8_t  vf_uf8(const char *n, uint64_t a, uint64_t b) { return (uint8_t)(mix(n, a, b) >> 7); }
uint64_t vf_uf(const char *n, uint64_t a, uint64_t b) { return mix(n, a, b); }
void *vf_page(const char *n, uint64_t id, size_t len) { char *p = (char *)malloc(len); for (size_t i = 0; i < len; i++) p[i] = (char)vf_uf8(n, id, i); bufs.push_back(p); return p; }
void vf_assume(bool c) { if (!c) longjmp(jb, 1); }
void vf_assert(bool c, const char *w)
{
	if (c) return;
	fprintf(stderr, "VF-FAIL %s\n", w);
	logval("#failed", w);
	_exit(1);
}
void vf_inst(uint64_t) {}
void vf_cover(const char *) {}
uint8_t vf_peek(const void *p, uint64_t k) { return ((const uint8_t *)p)[k]; }
bool vf_same_bytes(const void *a, const void *b, size_t n) { return memcmp(a, b, n) == 0; }
}

int main(int argc, char **argv)
{
	if (argc < 4) return 2;
	shm = (char *)mmap(0, shm_n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	auto entry = (void (*)())dlsym(RTLD_DEFAULT, argv[2]);
	if (!entry) { fprintf(stderr, "no entry %s\n", argv[2]); return 2; }
	std::string mode = argv[1];
	if (mode == "replay") {
		std::ifstream f(argv[3]); std::string line;
		while (std::getline(f, line)) {
			if (line.empty() || line[0] == '#') continue;
			size_t sp = line.rfind(' ');
			std::string k = line.substr(0, sp), hex = line.substr(sp + 1), v;
			for (size_t i = 0; i + 1 < hex.size(); i += 2) v += (char)strtol(hex.substr(i, 2).c_str(), 0, 16);
			in[k] = v;
		}
		if (setjmp(jb)) { fprintf(stderr, "VF-ASSUME inputs outside the precondition\n"); return 77; }
		pid_t pid = fork();
		if (pid == 0) {
			alarm(20);
			if (setjmp(jb)) _exit(77);
			try { entry(); } catch (...) { fprintf(stderr, "VF-FAIL unexpected exception\n"); _exit(1); }
			_exit(0);
		}
		int st; waitpid(pid, &st, 0);
		if (WIFEXITED(st)) return WEXITSTATUS(st);
		fprintf(stderr, "VF-FAIL killed by signal %d\n", WTERMSIG(st));
		return 1;
	}
	double secs = atof(argv[3]);
	uint64_t seed = argc > 5 ? strtoull(argv[5], 0, 10) : 1;
	time_t t0 = time(0); timespec a; clock_gettime(CLOCK_MONOTONIC, &a);
	uint64_t batch = 0;
	volatile uint64_t *runs = (uint64_t *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	while (true) {
		timespec b; clock_gettime(CLOCK_MONOTONIC, &b);
		if (b.tv_sec - a.tv_sec + (b.tv_nsec - a.tv_nsec) * 1e-9 > secs) break;
		batch++;
		pid_t pid = fork();
		if (pid == 0) {
			searching = true;
			for (int i = 0; i < 400; i++) {
				rng.seed(seed * 1000003 + batch * 1009 + i);
				in.clear(); shm[0] = 0;
				for (void *p : bufs) free(p); bufs.clear();
				alarm(10);
				if (setjmp(jb)) { runs[1]++; continue; }
				runs[0]++;
				try { entry(); } catch (...) { fprintf(stderr, "VF-FAIL unexpected exception\n"); _exit(1); }
				timespec c; clock_gettime(CLOCK_MONOTONIC, &c);
				if (c.tv_sec - a.tv_sec + (c.tv_nsec - a.tv_nsec) * 1e-9 > secs) break;
			}
			_exit(0);
		}
		int st; waitpid(pid, &st, 0);
		if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
			std::ofstream o(argv[4]); o << shm;
			fprintf(stderr, "VF-FOUND after %llu runs (status %d)\n", (unsigned long long)runs[0], st);
			return 1;
		}
	}
	printf("VF-RUNS %llu rejected %llu\n", (unsigned long long)runs[0], (unsigned long long)runs[1]);
	return 0;
}
