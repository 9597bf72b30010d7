#include "core.h"
#include <cerrno>
#include <cstdarg>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>

string sfmt(const char *f, ...) {
	va_list a; va_start(a, f); char *p = nullptr; int n = vasprintf(&p, f, a); va_end(a);
	string s(p, n < 0 ? 0 : n); free(p); return s;
}
void fail(const char *f, ...) {
	va_list a; va_start(a, f); char *p = nullptr; int n = vasprintf(&p, f, a); va_end(a);
	string s(p, n < 0 ? 0 : n); free(p); throw Fail{s};
}
string quoted(const string &s, size_t max) {
	string o = "\"";
	for (unsigned char ch : s) {
		if (o.size() > max) { o += "..."; break; }
		if (ch == '\n') o += "\\n"; else if (ch == '"') o += "\\\""; else if (ch == '\\') o += "\\\\";
		else if (ch < 32 || ch == 127) o += sfmt("\\x%02x", ch); else o += (char)ch;
	}
	return o + "\"";
}

// ------------------------------------------------------------ malloc window
#define WTAB 65536
static void *wtab[WTAB]; static size_t wcount; static thread_local int wdepth, wpause;
static size_t whash(const void *p) { return (((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull) >> 48; }
static void mhook(const volatile void *p, size_t) {
	if (!wdepth || wpause || !p || wcount > WTAB / 2) return;
	size_t h = whash((void *)p) % WTAB;
	while (wtab[h]) { h = (h + 1) % WTAB; }
	wtab[h] = (void *)p; wcount++;
}
static void fhook(const volatile void *p) {
	if (!wcount || !p) return;
	size_t h = whash((void *)p) % WTAB;
	for (; wtab[h]; h = (h + 1) % WTAB) {
		if (wtab[h] != (void *)p) continue;
		size_t i = h, j = h; // open addressing deletion
		for (;;) {
			wtab[i] = nullptr;
			size_t k;
			do { j = (j + 1) % WTAB; if (!wtab[j]) { wcount--; return; } k = whash(wtab[j]) % WTAB;
			} while (i <= j ? (i < k && k <= j) : (i < k || k <= j));
			wtab[i] = wtab[j]; i = j;
		}
	}
}
static bool wInstalled;
MallocWindow::MallocWindow() {
	if (!wInstalled) {
		wInstalled = true;
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
		__sanitizer_install_malloc_and_free_hooks(mhook, fhook);
#endif
#endif
	}
	wdepth++;
}
MallocWindow::~MallocWindow() { wdepth--; }
YamlAlloc g_yamlAlloc;
static bool yamlFails() {
	if (!wdepth || wpause) return false;
	YamlAlloc &y = g_yamlAlloc; y.count++;
	if (!y.failAt || (y.from ? y.count < y.failAt : y.count != y.failAt)) return false;
	return y.failed = true;
}
extern "C" void *vp_malloc(size_t n) { return yamlFails() ? nullptr : malloc(n); }
extern "C" void *vp_realloc(void *p, size_t n) { return yamlFails() ? nullptr : realloc(p, n); }
extern "C" char *vp_strdup(const char *s) { return yamlFails() ? nullptr : strdup(s); }
void MallocWindow::pause(bool on) { wpause += on ? 1 : -1; }
size_t MallocWindow::outstanding() { return wcount; }
void MallocWindow::clear() { if (wcount) { memset(wtab, 0, sizeof wtab); wcount = 0; } }

// ------------------------------------------------------------ allocator
TA::~TA() { for (auto &e : live) free(e.first); for (auto &l : spare) for (void *p : l.second) { ASAN_UNPOISON_MEMORY_REGION(p, l.first); free(p); } }
void TA::release(void *p, size_t n) { memset(p, 0xDD, n); if (reuse && n <= 4096 && spare[n].size() < 64) { spare[n].push_back(p); ASAN_POISON_MEMORY_REGION(p, n); } else free(p); }
void TA::reset() { for (auto &e : live) free(e.first); live.clear(); room.clear(); allocs = calls = 0; failAt = 0; failFrom = failed = forbid = false; err.clear(); peak = cur = 0; }
void *TA::alloc(size_t n) { return fn(this, nullptr, n); }
void clobberErrno(u64 n) { static const int v[] = {0, ERANGE, EINVAL, ENOMEM}; errno = v[n & 3]; }
void *TA::fn(void *ctx, void *ptr, size_t size) {
	Paused pz; struct Clobber { ~Clobber() { clobberErrno(u64(n)); } size_t n; } cl{size ^ (size >> 3)};
	TA *t = (TA *)ctx;
	if (!t) { fprintf(stderr, "allocator called with NULL context\n"); abort(); }
	t->calls++;
	if (t->forbid && t->err.empty()) t->err = "allocator used when it must not be";
	size_t old = 0;
	if (ptr) {
		auto i = t->live.find(ptr);
		if (i == t->live.end()) {
			if (t->err.empty()) t->err = size ? "realloc of a pointer not allocated (or already freed)"
			                                   : "free of a pointer not allocated (or already freed)";
			return nullptr;
		}
		old = i->second;
	}
	if (size == 0) {
		if (ptr) { t->live.erase(ptr); t->room.erase(ptr); t->cur -= old; t->release(ptr, old); }
		return nullptr;
	}
	t->allocs++;
	if (t->failAt && (t->allocs == t->failAt || (t->failFrom && t->allocs > t->failAt))) { t->failed = true; return nullptr; }
	if (size > (256u << 20)) { t->failed = true; return nullptr; }
	// large blocks have room to grow, out of bounds until it is asked for
	if (ptr && size >= old) { auto i = t->room.find(ptr); if (i != t->room.end() && size <= i->second) {
		ASAN_UNPOISON_MEMORY_REGION(ptr, size); memset((u8 *)ptr + old, 0xA5, size - old); t->live[ptr] = size; t->cur += size - old; if (t->cur > t->peak) t->peak = t->cur; return ptr; } }
	size_t full = ptr && size > 32768 ? size + size / 2 : size;
	u8 *n = nullptr;
	if (t->reuse && full == size) { auto i = t->spare.find(size); if (i != t->spare.end() && !i->second.empty()) { n = (u8 *)i->second.back(); i->second.pop_back(); ASAN_UNPOISON_MEMORY_REGION(n, size); } }
	if (!n) n = (u8 *)malloc(full);
	if (full > size) { t->room[n] = full; ASAN_POISON_MEMORY_REGION(n + size, full - size); }
	memset(n, 0xA5, size);
	if (ptr) {
		memcpy(n, ptr, old < size ? old : size);
		t->live.erase(ptr); t->room.erase(ptr); t->cur -= old; t->release(ptr, old);
	}
	t->live[n] = size; t->cur += size; if (t->cur > t->peak) t->peak = t->cur;
	return n;
}
