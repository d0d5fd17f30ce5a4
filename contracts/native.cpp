// Native side of vc.h: runs a harness against the real code with concrete
// inputs, from a model of the verifier or chosen at random.
//   native <harness> replay <model file>
//   native <harness> search <seed> <from> <count> [name=value ...]
#include "spec.h"
#include <cinttypes>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

using namespace std;

#ifdef VC_TSAN
static const uint64_t g_live = 0;
#else
// counts the objects that are alive
static uint64_t g_live;
static void *counted(size_t n)
{
	void *p = malloc(n ? n : 1);
	if (p == nullptr) {
		throw bad_alloc();
	}
	g_live++;
	return p;
}
void *operator new(size_t n) { return counted(n); }
void *operator new[](size_t n) { return counted(n); }
void operator delete(void *p) noexcept
{
	g_live -= p != nullptr;
	free(p);
}
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
#endif

namespace {

struct Skip {};
struct Done {};

// very long messages are only tried when a model asks for them
const bool g_huge = getenv("VC_HUGE") != nullptr;
const uint64_t LIMIT = g_huge ? 1ull << 34 : 1ull << 26;

uint64_t g_seed;
bool g_replay;
string g_what;
map<string, uint64_t> g_in;
map<string, map<vector<uint64_t>, uint64_t>> g_uf;
map<string, uint64_t> g_else;
map<string, unsigned> g_used;
map<string, vector<uint64_t>> g_seq;
vector<pair<string, uint64_t>> g_log;
unsigned g_mode;
bool g_large;

uint64_t mix(uint64_t x)
{
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}

uint64_t g_state;
uint64_t rnd()
{
	g_state = mix(g_state);
	return g_state;
}

string dump()
{
	string s = g_what;
	for (const auto &p : g_log) {
		char b[128];
		snprintf(b, sizeof b, " %s=%" PRIu64, p.first.c_str(), p.second);
		s += b;
	}
	return s;
}

[[noreturn]] void fail(const char *kind, const char *label)
{
	const string s = dump();
	printf("%s %s | %s\n", kind, label, s.c_str());
	fflush(stdout);
	_exit(1);
}

[[noreturn]] void too_large()
{
	if (g_replay) {
		printf("TOO-LARGE | %s\n", dump().c_str());
		fflush(stdout);
		_exit(3);
	}
	throw Skip();
}

string uniq(const char *name)
{
	const unsigned k = ++g_used[name];
	return k == 1 ? string(name) : string(name) + "#" + to_string(k);
}

template <typename F>
uint64_t input(const char *name, const F &pick)
{
	const string n = uniq(name);
	const auto i = g_in.find(n);
	const uint64_t v = i != g_in.end() ? i->second : pick();
	g_log.push_back({n, v});
	return v;
}

uint64_t pick_bits()
{
	switch (rnd() % 8) {
	case 0: return 0;
	case 1: return ~0ull;
	case 2: return 1ull << (rnd() % 64);
	case 3: return ~(1ull << (rnd() % 64));
	case 4: return rnd() & rnd() & rnd() & rnd();
	case 5: return rnd() % 256;
	default: return rnd();
	}
}

uint64_t pick_range(uint64_t lo, uint64_t hi)
{
	const uint64_t w = hi - lo;
	if (w <= 300) {
		return lo + rnd() % (w + 1);
	}
	const auto r = rnd() % 100;
	const uint64_t m = r < 60 ? 40 : r < 90 ? 300 : r < 99 ? 3000 : 70000;
	return lo + rnd() % ((w < m ? w : m) + 1);
}

uint64_t uf(const char *name, initializer_list<uint64_t> a, unsigned w)
{
	const uint64_t mask = w == 64 ? ~0ull : (1ull << w) - 1;
	map<string, map<vector<uint64_t>, uint64_t>>::const_iterator t;
	if (!g_uf.empty() && (t = g_uf.find(name)) != g_uf.end()) {
		const vector<uint64_t> k(a);
		const auto e = t->second.find(k);
		if (e != t->second.end()) {
			return e->second & mask;
		}
		const auto d = g_else.find(name);
		if (d != g_else.end()) {
			return d->second & mask;
		}
	}
	uint64_t h = mix(g_seed ^ mix(strlen(name) * 131 + uint8_t(name[3])));
	for (const auto x : a) {
		h = mix(h ^ x);
	}
	switch (g_mode) {
	case 1: return name[3] == 'M' || name[3] == 'W' ? 0 : h & mask;
	case 2: return name[3] == 'M' || name[3] == 'W' ? mask : h & mask;
	case 3: return name[3] == 'M' || name[3] == 'W' ? h & 0x8080808080808080ull & mask : h & mask;
	case 4: return h % 5 ? 0 : (h >> 8) & mask;
	default: return h & mask;
	}
}

void crash(int s)
{
	char b[64];
	const int n = snprintf(b, sizeof b, "NATIVE-CRASH signal %d | ", s);
	if (write(1, b, size_t(n)) < 0) {}
	static char big[4096];
	int m = snprintf(big, sizeof big, "%s", g_what.c_str());
	for (const auto &p : g_log) {
		m += snprintf(big + m, sizeof big - size_t(m) > sizeof big ? 0 : sizeof big - size_t(m), " %s=%" PRIu64, p.first.c_str(), p.second);
		if (m > 4000) {
			m = 4000;
			break;
		}
	}
	big[m++] = '\n';
	if (write(1, big, size_t(m)) < 0) {}
	_exit(1);
}

}  // namespace

extern "C" {
// seed: harnesses seen by the runtime as symbols of the program
uint64_t vc_u64(const char *name, uint64_t lo, uint64_t hi)
{
	const uint64_t v = input(name, [&]{ return pick_range(lo, hi); });
	if (v < lo || v > hi) {
		throw Skip();
	}
	return v;
}
void vc_length(uint64_t n)
{
	static const bool far = getenv("VC_LONG") != nullptr;
	if (n > (g_huge ? 1ull << 34 : far ? 1u << 24 : g_replay ? 20000 : 400)) {
		too_large();
	}
}
uint64_t vc_bits64(const char *name) { return input(name, pick_bits); }
uint32_t vc_bits32(const char *name) { return uint32_t(input(name, []{ const auto v = pick_bits(); return v >> 32 && !(v << 32) ? v >> 32 : uint64_t(uint32_t(v)); })); }
uint8_t vc_bits8(const char *name) { return uint8_t(input(name, []{ return uint64_t(uint8_t(rnd())); })); }
uint64_t vc_case(const char *name, uint64_t lo, uint64_t hi)
{
	// one value per name and run
	const auto i = g_in.find(name);
	uint64_t v;
	if (i != g_in.end()) {
		v = i->second;
	} else {
		v = lo + rnd() % (hi - lo + 1);
		g_in[name] = v;
	}
	for (const auto &p : g_log) {
		if (p.first == name) {
			return v;
		}
	}
	g_log.push_back({name, v});
	if (v < lo || v > hi) {
		throw Skip();
	}
	return v;
}
void vc_assume(bool c)
{
	if (!c) {
		throw Skip();
	}
}
void vc_check(bool c, const char *label)
{
	if (!c) {
		fail("NATIVE-FAIL", label);
	}
}
void vc_check_eq(uint64_t a, uint64_t b, const char *label)
{
	if (a != b) {
		char s[300];
		snprintf(s, sizeof s, "%s: %#" PRIx64 ", expected %#" PRIx64, label, a, b);
		fail("NATIVE-FAIL", s);
	}
}
void vc_cover(const char *) {}
void vc_fail(const char *label) { fail("NATIVE-FAIL", label); }
void vc_end() { throw Done(); }
int vc_symbolic() { return 0; }
uint64_t vc_concretize(uint64_t x) { return x; }
int vc_longer(const void *, uint64_t) { return 0; }
void vc_fill_bytes(void *vec, uint8_t (*fn)(uint64_t), uint64_t start, uint64_t n)
{
	if (n > LIMIT) {
		too_large();
	}
	auto &v = *static_cast<vector<std::byte> *>(vec);
	v.resize(n);
	for (uint64_t i = 0; i < n; i++) {
		v[i] = std::byte(fn(start + i));
	}
}
void vc_fill_words(void *vec, uint64_t (*fn)(uint64_t), uint64_t start, uint64_t n)
{
	if (n > LIMIT / 8) {
		too_large();
	}
	auto &v = *static_cast<vector<uint64_t> *>(vec);
	v.resize(n);
	for (uint64_t i = 0; i < n; i++) {
		v[i] = fn(start + i);
	}
}
void vc_make_string(void *str, uint8_t (*fn)(uint64_t), uint64_t n)
{
	if (n > LIMIT) {
		too_large();
	}
	auto &s = *static_cast<string *>(str);
	s.resize(n);
	for (uint64_t i = 0; i < n; i++) {
		s[i] = char(fn(i));
	}
}
static void check_words(const vector<std::byte> &v, uint64_t (*fn)(uint64_t), uint64_t start, uint64_t skip, uint64_t n, const char *label)
{
	if (n > LIMIT) {
		too_large();
	}
	for (uint64_t i = 0; i < n; i++) {
		const uint64_t p = skip + i;
		vc_check_eq(uint8_t(v[i]), byte_of(fn(start + p / 8), p % 8), label);
	}
}
void vc_check_words(const void *vec, uint64_t (*fn)(uint64_t), uint64_t start, uint64_t skip, uint64_t n, const char *label)
{
	const auto &v = *static_cast<const vector<std::byte> *>(vec);
	vc_check_eq(v.size(), n, label);
	check_words(v, fn, start, skip, n, label);
}
void vc_check_prefix(const void *vec, uint64_t (*fn)(uint64_t), uint64_t start, uint64_t skip, uint64_t n, const char *label)
{
	const auto &v = *static_cast<const vector<std::byte> *>(vec);
	vc_check(v.size() >= n, label);
	check_words(v, fn, start, skip, n, label);
}
void vc_check_bytes(const void *vec, uint8_t (*fn)(uint64_t), uint64_t start, uint64_t n, const char *label)
{
	const auto &v = *static_cast<const vector<std::byte> *>(vec);
	vc_check_eq(v.size(), n, label);
	if (n > LIMIT) {
		too_large();
	}
	for (uint64_t i = 0; i < n; i++) {
		vc_check_eq(uint8_t(v[i]), fn(start + i), label);
	}
}
void vc_template(const void *, uint64_t) {}
void vc_reveal(const void *, ...) {}
uint64_t vc_any() { return rnd(); }
void vc_ghost_set(const void *, uint64_t, uint64_t) {}
uint64_t vc_ghost(const void *, uint64_t) { return 0; }
void vc_frame_begin() {}
void vc_frame_except(const void *) {}
void vc_frame_end(const char *) {}
void vc_same(const void *, const void *, const char *) {}
void vc_depth_limit() {}
void vc_depth_check(uint64_t, const char *) {}
void vc_share_begin() {}
void vc_share_end(const char *) {}
void vc_lock(void *) {}
void vc_unlock(void *) {}
uint64_t vc_heap() { return g_live; }
void vc_option(const char *, uint64_t) {}

// Round functions for which the blocks that come out of the encryption are
// unusual: in a Feistel network the value of the function decides what the half
// of the block becomes that was the argument one call before.
#ifndef VC_TSAN
static uint32_t steered(uint32_t v, uint64_t i)
{
	static map<pair<uint32_t, uint64_t>, uint32_t> known;
	static uint64_t seed;
	static uint32_t last;
	if (seed != g_seed) {
		seed = g_seed;
		const uint64_t live = g_live;
		known.clear();
		g_live = live;
		last = 0;
	}
	const auto k = known.find({v, i});
	uint32_t f;
	if (k != known.end()) {
		f = k->second;
	} else {
		const uint64_t h = mix(g_seed ^ mix(v * 8ull + i));
		const uint32_t a = uint32_t(h >> 32), b = uint32_t(h >> 8) % 32;
		uint32_t w = a;
		switch (h % 16) {
		case 0: w = 0; break;
		case 1: w = ~0u; break;
		case 2: w = 1u << b; break;
		case 3: w = ~(1u << b); break;
		case 4: w = v; break;
		case 5: w = a % 256; break;
		case 6: w = a << 24; break;
		case 7: w = ~0u - a % 4; break;
		}
		f = last ^ w;
		const uint64_t live = g_live;   // not an object of the code under test
		known[{v, i}] = f;
		g_live = live;
	}
	last = v;
	return f;
}
#endif

uint32_t uf_F(uint32_t v, uint64_t i)
{
#ifndef VC_TSAN
	if (!g_replay && (g_mode == 5 || g_mode == 6)) {
		return steered(v, i);
	}
#endif
	return uint32_t(uf("uf_F", {v, i}, 32));
}
uint32_t uf_K(uint64_t i) { return uint32_t(uf("uf_K", {i}, 32)); }
uint32_t uf_S(uint32_t v) { return uint32_t(uf("uf_S", {v}, 32)); }
uint8_t uf_M(uint64_t i) { return uint8_t(uf("uf_M", {i}, 8)); }
uint64_t uf_W(uint64_t i) { return uf("uf_W", {i}, 64); }
uint8_t uf_T(uint64_t i) { return uint8_t(uf("uf_T", {i}, 8)); }
uint8_t uf_C(uint64_t i) { return uint8_t(uf("uf_C", {i}, 8)); }
}

uint64_t vc_memo(const char *name, uint64_t (*body)(uint64_t), uint64_t j)
{
	auto &s = g_seq[name];
	if (j > (g_huge ? 1u << 31 : 1u << 23)) {
		too_large();
	}
	while (s.size() <= j) {
		const uint64_t v = body(s.size());
		s.push_back(v);
	}
	return s[j];
}

int main(int argc, char **argv)
{
	if (argc < 4) {
		return 2;
	}
	setvbuf(stdout, nullptr, _IOLBF, 0);
	void (*h)() = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, argv[1]));
	if (h == nullptr) {
		printf("NO-HARNESS %s\n", argv[1]);
		return 2;
	}
	set_terminate([]{
		try {
			if (current_exception()) {
				rethrow_exception(current_exception());
			}
		} catch (const std::exception &e) {
			fail("NATIVE-FAIL uncaught exception:", e.what());
		} catch (...) {
		}
		fail("NATIVE-FAIL", "uncaught exception");
	});
	// a stack overflow is seen on a stack of its own
	static char alt[1 << 16];
	stack_t ss = {};
	ss.ss_sp = alt;
	ss.ss_size = sizeof alt;
	sigaltstack(&ss, nullptr);
	for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) {
		struct sigaction sa = {};
		sa.sa_handler = crash;
		sa.sa_flags = SA_ONSTACK;
		sigaction(s, &sa, nullptr);
	}
	map<string, uint64_t> fixed;
	uint64_t from = 0, count = 1;
	if (string(argv[2]) == "replay") {
		g_replay = true;
		ifstream in(argv[3]);
		string line;
		while (getline(in, line)) {
			istringstream ls(line);
			string k, n;
			uint64_t v, x;
			ls >> k >> n >> v;
			if (k == "i") {
				fixed[n] = v;
			} else if (g_huge) {
			} else if (k == "u") {
				vector<uint64_t> a;
				while (ls >> x) {
					a.push_back(x);
				}
				g_uf[n][a] = v;
			} else if (k == "e") {
				g_else[n] = v;
			}
		}
		count = argc > 4 ? strtoull(argv[4], nullptr, 10) : 8;
	} else {
		g_seed = strtoull(argv[3], nullptr, 10);
		from = strtoull(argv[4], nullptr, 10);
		count = strtoull(argv[5], nullptr, 10);
		for (int i = 6; i < argc; i++) {
			const char *e = strchr(argv[i], '=');
			fixed[string(argv[i], size_t(e - argv[i]))] = strtoull(e + 1, nullptr, 10);
		}
	}
	const uint64_t base = g_seed;
	uint64_t done = 0, skipped = 0, work = 0;
	for (uint64_t r = from; r < from + count; r++) {
		g_seed = mix(base * 1000003 + r);
		g_state = g_seed;
		g_mode = unsigned(rnd() % 8);
		g_in = fixed;
		g_used.clear();
		g_seq.clear();
		g_log.clear();
		g_what = string(argv[1]) + " run " + to_string(r);
		try {
			h();
			done++;
		} catch (const Skip &) {
			skipped++;
		} catch (const Done &) {
			done++;
		} catch (const std::exception &e) {
			fail("NATIVE-FAIL uncaught exception:", e.what());
		} catch (...) {
			fail("NATIVE-FAIL", "uncaught exception");
		}
		work += g_log.size();
	}
	printf("OK %" PRIu64 " %" PRIu64 "\n", done, skipped);
	return 0;
}
