// Core of the harness: recorded choices, tracking allocator, results.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <deque>
#include <memory>
#include <functional>
#include <stdexcept>
#include <cyaml/cyaml.h>

typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;
using std::string; using std::vector;

string sfmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
string quoted(const string &s, size_t max = 4000);

// ---------------------------------------------------------------- choices
extern u64 *g_recShm, *g_recN; extern u64 g_recMax; // where an isolated run records its choices
struct Choices {
	bool replay = false;
	const u8 *bytes = nullptr; size_t nbytes = 0; // byte-backed (fuzzer)
	vector<u64> in; size_t pos = 0;
	u64 st = 0;
	explicit Choices(u64 seed) : st(seed) {}
	explicit Choices(const vector<u64> &r) : replay(true), in(r) {}
	Choices(const u8 *b, size_t n) : bytes(b), nbytes(n) {}
	u64 next64() {
		u64 z = (st += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	void rec_(u64 v) { if (g_recShm) { if (*g_recN < g_recMax) g_recShm[(*g_recN)++] = v; } }
	// uniform in [0, n); n == 0 means the full 64-bit range
	u64 below(u64 n) {
		u64 v;
		if (bytes) {
			u64 lim = n ? n - 1 : ~0ull; v = 0;
			while (lim) { v = (v << 8) | (pos < nbytes ? bytes[pos++] : 0); lim >>= 8; }
			if (n) v %= n;
		} else if (replay) {
			v = pos < in.size() ? in[pos] : 0; pos++;
			if (n && v >= n) v = n - 1;
		} else {
			v = next64();
			if (n) v = (u64)(((unsigned __int128)v * n) >> 64);
		}
		rec_(v);
		return v;
	}
	i64 range(i64 lo, i64 hi) { return (i64)((u64)lo + below((u64)hi - (u64)lo + 1)); }
	bool p(int pct) { return below(100) >= (u64)(100 - pct); } // 0 => false
	template <class T> const T &pick(const vector<T> &v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- allocator
// Client functions may leave any value in errno.
void clobberErrno(u64 n);
// Tracks every allocation made through the client's allocation function.
struct TA {
	std::unordered_map<void *, size_t> live, room;
	u64 allocs = 0;     // allocation requests seen (malloc/realloc)
	u64 calls = 0;
	u64 failAt = 0;     // fail the n-th request (1-based); 0: never
	bool failFrom = false; // fail all requests from failAt on
	bool failed = false;
	bool forbid = false;   // any call is an error
	string err;         // protocol violations seen
	size_t peak = 0, cur = 0;
	bool reuse = false;    // hand out released blocks again, latest first
	std::map<size_t, vector<void *>> spare;
	void release(void *p, size_t n);
	~TA();
	void *alloc(size_t n);
	void reset();
	bool owns(const void *p, size_t n) const { auto i = live.find((void *)p); return i != live.end() && i->second >= n; }
	static void *fn(void *ctx, void *ptr, size_t size);
};

// Counts memory libcyaml/libyaml take from malloc (not via the client).
struct MallocWindow { // RAII: window in which foreign mallocs are recorded
	MallocWindow(); ~MallocWindow();
	static void pause(bool on);
	static size_t outstanding();
	static void clear();
};
struct Paused { Paused() { MallocWindow::pause(true); } ~Paused() { MallocWindow::pause(false); } };
// Allocations libyaml makes during calls of the library; they can be made to
// fail where the check is linked with a libyaml whose calls come through here.
struct YamlAlloc { u64 count = 0, failAt = 0; bool from = false, failed = false; };
extern YamlAlloc g_yamlAlloc;

// ---------------------------------------------------------------- outcome
struct Fail { string msg; };
struct Discard {};
[[noreturn]] void fail(const char *f, ...) __attribute__((format(printf, 1, 2)));
#define CHECK(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)

struct Stats;
struct Case {
	Choices &c;
	string desc;                 // written-out case, for samples & reports
	bool nontrivial = false;
	u64 hash = 0;                // distinctness
	u64 evals = 1;               // evaluations done by this case
	std::map<string, u64> labels;
	explicit Case(Choices &c_) : c(c_) {}
	void label(const string &l, u64 n = 1) { labels[l] += n; }
};
typedef void (*PropFn)(Case &);
struct Prop { const char *id; const char *sub; PropFn fn; int quickCases, thoroughCases; int weight; };
void registerProp(const Prop &);
struct RegProp { RegProp(const Prop &p) { registerProp(p); } };
#define PROP(id, sub, q, t) \
	static void prop_##id##_##sub(Case &k); \
	static RegProp reg_##id##_##sub(Prop{#id, #sub, prop_##id##_##sub, q, t, 1}); \
	static void prop_##id##_##sub(Case &k)

inline u64 hashStr(const string &s, u64 h = 1469598103934665603ull) {
	for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ull; }
	return h;
}
