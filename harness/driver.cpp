// Runs the generated cases of one property in forked workers, maps failures,
// crashes and hangs back to cases, shrinks and reproduces them, and reports.
#include "core.h"
#include <atomic>
#include <csignal>
#include <cerrno>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sanitizer/common_interface_defs.h>

#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer)
extern "C" const char *__asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:exitcode=86:quarantine_size_mb=24:malloc_context_size=6:detect_stack_use_after_return=0:handle_abort=1:print_legend=0:max_allocation_size_mb=6000"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:exitcode=86"; }
#endif
#if __has_feature(thread_sanitizer)
extern "C" const char *__tsan_default_options() { return "exitcode=66:halt_on_error=1:report_thread_leaks=0"; }
#endif

static vector<Prop> &props() { static vector<Prop> v; return v; }
void registerProp(const Prop &p) { props().push_back(p); }

enum { MAXW = 16, MAXSUB = 32, HT = 1 << 21, RECMAX = 1 << 23 };
enum Status { PASS, FAILED, DISCARD, CRASH, HANG };
struct WSlot {
	volatile u64 sub, idx; volatile u64 done[MAXSUB], disc[MAXSUB]; volatile u64 evals, nontriv;
	char labels[49152]; int nsamples; char samples[2][7000];
};
struct Result { int status; char msg[16384]; char desc[65536]; u64 nrec; u64 rec[RECMAX]; };
struct Shm {
	std::atomic<u64> next[MAXSUB]; std::atomic<int> stop; std::atomic<u64> distinct;
	std::atomic<int> haveFail; u64 failSub, failIdx; char failMsg[4096];
	std::atomic<u64> ht[HT]; WSlot w[MAXW]; Result res;
};
static Shm *shm;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static Case *g_case;
static void onDeath();
static void onProf(int) { onDeath(); _exit(77); }
static int cpuLimit = 45;
static void armCpu(int s) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = s; setitimer(ITIMER_PROF, &it, nullptr); }
static u64 mix(u64 a, u64 b) { u64 z = a * 0x9e3779b97f4a7c15ull + b + 0x1234567; z ^= z >> 31; z *= 0xbf58476d1ce4e5b9ull; z ^= z >> 27; z *= 0x94d049bb133111ebull; return z ^ (z >> 30); }
static u64 caseSeed(u64 seed, const Prop &p, u64 idx) { return mix(mix(seed, hashStr(string(p.id) + "/" + p.sub)), idx); }
static void put(char *dst, size_t n, const string &s) { size_t m = s.size() < n - 1 ? s.size() : n - 1; memcpy(dst, s.data(), m); dst[m] = 0; }

u64 *g_recShm, *g_recN; u64 g_recMax;
static void onDeath() { if (g_case && g_recShm) put(shm->res.desc, sizeof shm->res.desc, g_case->desc); }
static void addDistinct(u64 h) {
	if (!h) h = 1;
	size_t i = (h * 0x9e3779b97f4a7c15ull) >> 43;
	for (int t = 0; t < 64; t++, i = (i + 1) % HT) {
		u64 z = 0;
		if (shm->ht[i].compare_exchange_strong(z, h)) { shm->distinct++; return; }
		if (z == h) return;
	}
}
static Status runOne(const Prop &p, Choices &c, Case &k, string &msg) {
	extern void caseStart(); caseStart();
	try { p.fn(k); return PASS; }
	catch (Fail &f) { msg = f.msg; return FAILED; }
	catch (Discard &) { return DISCARD; }
	catch (std::exception &e) { msg = string("harness: exception ") + e.what(); return FAILED; }
}
static void redirect(const string &f) { int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd >= 0) { dup2(fd, 2); close(fd); } }
static string g_dir;

static void worker(int w, const vector<Prop> &ps, const vector<u64> &want, u64 seed) {
	redirect(g_dir + sfmt("/w%d.err", w));
	signal(SIGPROF, onProf);
	WSlot &s = shm->w[w];
	std::map<string, u64> labels; double lastFlush = 0;
	auto flush = [&]() { string o; for (auto &l : labels) o += l.first + "\t" + std::to_string(l.second) + "\n"; put(s.labels, sizeof s.labels, o); };
	for (size_t si = 0; si < ps.size(); si++) {
		for (;;) {
			u64 chunk = 1; // cases are small, but sizes vary a lot
			u64 i0 = shm->next[si].fetch_add(chunk);
			if (i0 >= want[si]) break;
			if (shm->stop) break;
			s.sub = si; s.idx = i0;
			if (const char *det = getenv("CYPROPS_FRESH")) { // every case on its own, to see that it depends on its choices alone
				pid_t ch = fork();
				if (ch == 0) { Choices c(caseSeed(seed, ps[si], i0)); Case k(c); string msg; Status st = runOne(ps[si], c, k, msg); if (FILE *f = fopen(det, "a")) { fprintf(f, "%s/%s %llu %d %llu %016llx\n", ps[si].id, ps[si].sub, (unsigned long long)i0, st, (unsigned long long)k.evals, (unsigned long long)hashStr(k.desc)); fclose(f); } _exit(0); }
				int q; waitpid(ch, &q, 0); continue;
			}
			Choices c(caseSeed(seed, ps[si], i0)); Case k(c); string msg;
			k.label(string("sub:") + ps[si].sub);
			armCpu(cpuLimit);
			double started = now(); Status st = runOne(ps[si], c, k, msg);
			armCpu(0);
			if (const char *slow = getenv("CYPROPS_SLOW")) if (now() - started > 2) if (FILE *f = fopen(slow, "a")) { fprintf(f, "%s/%s seed %llu case %llu: %.1f s, %llu evaluations\n", ps[si].id, ps[si].sub, (unsigned long long)seed, (unsigned long long)i0, now() - started, (unsigned long long)k.evals); fclose(f); }
			if (const char *det = getenv("CYPROPS_DET")) if (FILE *f = fopen(det, "a")) { fprintf(f, "%s/%s %llu %d %llu %016llx\n", ps[si].id, ps[si].sub, (unsigned long long)i0, st, (unsigned long long)k.evals, (unsigned long long)hashStr(k.desc)); fclose(f); }
			if (st == DISCARD) { s.disc[si] = s.disc[si] + 1; continue; }
			if (st == FAILED) {
				int z = 0;
				if (shm->haveFail.compare_exchange_strong(z, 1)) { shm->failSub = si; shm->failIdx = i0; put(shm->failMsg, sizeof shm->failMsg, msg); shm->stop = 1; }
				break;
			}
			s.done[si] = s.done[si] + 1; s.evals = s.evals + k.evals;
			for (auto &l : k.labels) labels[l.first] += l.second;
			if (k.nontrivial) { s.nontriv = s.nontriv + 1; addDistinct(k.hash ? k.hash : hashStr(k.desc));
				if (s.nsamples < 2 && k.desc.size() < 1500 && k.desc.size() > 60 && (i0 > 20 || want[si] < 40)) { put(s.samples[s.nsamples], sizeof s.samples[0], string(ps[si].sub) + ": " + k.desc); s.nsamples++; } }
			double t = now(); if (t - lastFlush > 0.5) { flush(); lastFlush = t; }
		}
	}
	flush();
	_exit(0);
}
static string slurp(const string &f, size_t most = 200000) { FILE *h = fopen(f.c_str(), "r"); if (!h) return ""; string o; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0 && o.size() < most) o.append(b, n); fclose(h); return o; }
static string crashLine(const string &err, int status) {
	size_t p = err.find("ERROR: AddressSanitizer"); if (p == string::npos) p = err.find("runtime error:"); if (p == string::npos) p = err.find("WARNING: ThreadSanitizer"); if (p == string::npos) p = err.find("Assertion");
	string o;
	if (p != string::npos) {
		size_t ls = err.rfind('\n', p); ls = ls == string::npos ? 0 : ls + 1;
		o = err.substr(ls, err.find('\n', p) - ls);
		int frames = 0; size_t q = p; // first frames in the library
		while (frames < 3 && (q = err.find("\n    #", q)) != string::npos) { size_t e = err.find('\n', q + 1); string l = err.substr(q + 5, e - q - 5); if (l.find("/src/") != string::npos || l.find("cyaml") != string::npos) { o += " | " + l; frames++; } q++; }
		q = p; if (!frames) while (frames < 4 && (q = err.find("\n    #", q)) != string::npos) { size_t e = err.find('\n', q + 1); o += " | " + err.substr(q + 5, e - q - 5); frames++; q++; }
	} else o = WIFSIGNALED(status) ? sfmt("killed by signal %d", WTERMSIG(status)) : sfmt("exited with status %d", WEXITSTATUS(status));
	return o;
}
// Run one case in a child of its own.
static int isolated(const Prop &p, const vector<u64> *rec, u64 seed, string &msg, string *desc, vector<u64> *outRec, int limit) {
	Result &r = shm->res; r.status = -1; r.msg[0] = r.desc[0] = 0; r.nrec = 0;
	string ef = g_dir + "/iso.err";
	fflush(stdout);
	pid_t pid = fork();
	if (pid == 0) {
		redirect(ef); signal(SIGPROF, onProf); armCpu(limit);
		Choices *c = rec ? new Choices(*rec) : new Choices(seed);
		extern u64 *g_recShm, *g_recN; extern u64 g_recMax; g_recShm = r.rec; g_recN = &r.nrec; g_recMax = RECMAX;
		Case k(*c); g_case = &k; string m;
		__sanitizer_set_death_callback(onDeath);
		Status st = runOne(p, *c, k, m);
		put(r.msg, sizeof r.msg, m); put(r.desc, sizeof r.desc, k.desc); r.status = st;
		_exit(0);
	}
	int st; double t0 = now();
	for (;;) {
		pid_t q = waitpid(pid, &st, WNOHANG);
		if (q == pid) break;
		if (now() - t0 > limit * 4 + 60) { kill(pid, SIGKILL); waitpid(pid, &st, 0); st = 77 << 8; break; }
		usleep(now() - t0 < 0.05 ? 200 : 2000);
	}
	int res = r.status;
	if (res < 0) {
		if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { res = HANG; msg = sfmt("did not finish within %d s of processor time", limit); }
		else { res = CRASH; msg = crashLine(slurp(ef), st); }
	} else msg = r.msg;
	if (desc && r.desc[0]) *desc = r.desc;
	if (outRec) outRec->assign(r.rec, r.rec + (r.nrec < RECMAX ? r.nrec : RECMAX));
	return res;
}
static bool g_racy; // failures depend on timing: repeat before giving up
static bool isBad(int s) { return s == FAILED || s == CRASH || s == HANG; }
static vector<u64> shrink(const Prop &p, vector<u64> best, int kind, double budget) {
	double end = now() + budget; int runs = 0; string m;
	auto attempt = [&](const vector<u64> &v) {
		if (now() > end || runs > 6000) return false;
		runs++; vector<u64> rec;
		int r = isolated(p, &v, 0, m, nullptr, &rec, cpuLimit);
		for (int t = 0; g_racy && !isBad(r) && t < 2; t++) r = isolated(p, &v, 0, m, nullptr, &rec, cpuLimit);
		if (!isBad(r) || r == HANG) return false;
		// use what was really consumed when that is shorter
		best = rec.size() && rec.size() <= v.size() ? rec : v;
		while (best.size() && best.back() == 0) best.pop_back();
		return true;
	};
	(void)kind;
	bool progress = true;
	for (int round = 0; round < 6 && progress && now() < end; round++) {
		progress = false;
		for (size_t len = best.size() / 2; len >= 1 && now() < end; len /= 2)
			for (size_t i = 0; i + len <= best.size() && now() < end;) {
				vector<u64> v = best; v.erase(v.begin() + i, v.begin() + i + len);
				size_t b = best.size();
				if (attempt(v) && best.size() < b) progress = true; else i += len;
			}
		for (size_t len = best.size() / 2; len >= 1 && now() < end; len /= 2)
			for (size_t i = 0; i + len <= best.size() && now() < end; i += len) {
				bool nz = false; for (size_t j = i; j < i + len; j++) nz |= best[j] != 0;
				if (!nz) continue;
				vector<u64> v = best; for (size_t j = i; j < i + len; j++) v[j] = 0;
				if (attempt(v)) progress = true;
			}
		for (size_t i = 0; i < best.size() && now() < end; i++) {
			while (i < best.size() && best[i] > 0 && now() < end) { vector<u64> v = best; v[i] /= 2; if (!attempt(v)) break; progress = true; }
			if (i < best.size() && best[i] > 0) { vector<u64> v = best; v[i]--; if (attempt(v)) progress = true; }
		}
	}
	return best;
}
static string jstr(const string &s) {
	// escape; bytes that are not valid UTF-8 are shown as \u00xx
	string o = "\""; size_t i = 0;
	while (i < s.size()) {
		unsigned char c = s[i]; size_t n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
		bool ok = n > 0 && i + n <= s.size(); for (size_t j = 1; ok && j < n; j++) if ((s[i + j] & 0xc0) != 0x80) ok = false;
		if (ok && n == 3) { unsigned cp = (c & 15) << 12 | (s[i + 1] & 63) << 6 | (s[i + 2] & 63); if (cp < 0x800 || (cp >= 0xd800 && cp < 0xe000)) ok = false; }
		if (ok && n == 4) { unsigned cp = (c & 7) << 18 | (s[i + 1] & 63) << 12; if (cp < 0x10000 || cp > 0x10ffff) ok = false; }
		if (!ok) { o += sfmt("\\u%04x", c); i++; continue; }
		if (n == 1) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c == 127) o += sfmt("\\u%04x", c); else o += (char)c; }
		else o += s.substr(i, n);
		i += n;
	}
	return o + "\"";
}
static int replayFile(const string &path) {
	string t = slurp(path, 256u << 20); string prop, sub; vector<u64> rec; int times = 1; u64 from = 0; bool bySeed = false;
	size_t i = 0;
	while (i < t.size()) {
		size_t e = t.find('\n', i); if (e == string::npos) e = t.size(); string l = t.substr(i, e - i); i = e + 1;
		if (l.rfind("property: ", 0) == 0) prop = l.substr(10);
		else if (l.rfind("check: ", 0) == 0) sub = l.substr(7);
		else if (l.rfind("choices: from ", 0) == 0) { from = strtoull(l.c_str() + 14, nullptr, 10); bySeed = true; break; }
		else if (l.rfind("choices: ", 0) == 0) { const char *q = l.c_str() + 9; char *x; for (;;) { u64 v = strtoull(q, &x, 10); if (x == q) break; rec.push_back(v); q = x; } break; }
	}
	(void)times;
	for (auto &p : props()) if (prop == p.id && sub == p.sub) {
		string msg, desc; int r = isolated(p, bySeed ? nullptr : &rec, from, msg, &desc, nullptr, cpuLimit);
		for (int t = 0; g_racy && !isBad(r) && t < 12; t++) r = isolated(p, bySeed ? nullptr : &rec, from, msg, &desc, nullptr, cpuLimit);
		printf("%s\n", desc.c_str());
		printf("%s: %s\n", isBad(r) ? "FAILS" : r == DISCARD ? "DISCARDED" : "PASSES", msg.c_str());
		return isBad(r) ? 1 : 0;
	}
	printf("no such check: %s/%s\n", prop.c_str(), sub.c_str());
	return 2;
}

bool g_bigStack; // deep recursion of the models and of the library fits
int main(int argc, char **argv) {
#if !__has_feature(thread_sanitizer)
	{ // the size of the main stack is settled at exec
		struct rlimit l; const rlim_t want = 1ull << 30; getrlimit(RLIMIT_STACK, &l); g_bigStack = l.rlim_cur == RLIM_INFINITY || l.rlim_cur >= want;
		if (!g_bigStack && !getenv("CYPROPS_EXEC")) { setenv("CYPROPS_EXEC", "1", 1); l.rlim_cur = want; if (setrlimit(RLIMIT_STACK, &l) == 0) execv("/proc/self/exe", argv); }
	}
#endif
	setvbuf(stdout, nullptr, _IOLBF, 0);
	std::map<string, string> a;
	for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
	shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (shm == MAP_FAILED) { perror("mmap"); return 2; }
	char tmp[] = "/tmp/cyprops.XXXXXX"; if (!mkdtemp(tmp)) return 2;
	g_dir = tmp;
	struct Clean { ~Clean() { for (int i = 0; i < MAXW; i++) unlink((g_dir + sfmt("/w%d.err", i)).c_str()); unlink((g_dir + "/iso.err").c_str()); rmdir(g_dir.c_str()); } } clean;
	if (a.count("--cpu")) cpuLimit = atoi(a["--cpu"].c_str());
	g_racy = a.count("--racy");
	if (a.count("--replay")) return replayFile(a["--replay"]);
	string id = a["--prop"]; bool thorough = a["--tier"] == "thorough"; u64 seed = strtoull(a["--seed"].c_str(), nullptr, 10);
	double scale = a.count("--scale") ? atof(a["--scale"].c_str()) : 1; double budget = a.count("--budget") ? atof(a["--budget"].c_str()) : 1e9;
	int nw = a.count("--workers") ? atoi(a["--workers"].c_str()) : 8; if (nw > MAXW) nw = MAXW; if (nw < 1) nw = 1;
	vector<Prop> ps; vector<u64> want;
	for (auto &p : props()) if (id == p.id && (a.count("--sub") ? a["--sub"] == p.sub : strncmp(p.sub, "known_", 6) != 0)) { ps.push_back(p); u64 n = (u64)((thorough ? p.thoroughCases : p.quickCases) * scale); want.push_back(n ? n : 1); }
	if (ps.empty() || ps.size() > MAXSUB) { fprintf(stderr, "no such property\n"); return 2; }
	double t0 = now();
	vector<pid_t> pid(nw, 0); int live = 0;
	auto spawn = [&](int w) { fflush(stdout); pid_t p = fork(); if (p == 0) worker(w, ps, want, seed); pid[w] = p; live++; };
	for (int w = 0; w < nw; w++) { shm->w[w].sub = ~0ull; spawn(w); }
	bool crashed = false; u64 cs = 0, ci = 0; bool timedOut = false;
	// worker progress, for cases that block without using the processor
	vector<u64> lastIdx(nw, 0), lastSub(nw, 0); vector<double> lastT(nw, t0);
	while (live) {
		int st; pid_t p = waitpid(-1, &st, WNOHANG);
		if (p > 0) {
			for (int w = 0; w < nw; w++) if (pid[w] == p) {
				live--; pid[w] = 0;
				bool clean0 = WIFEXITED(st) && WEXITSTATUS(st) == 0;
				if (!clean0 && !crashed && !shm->haveFail) { crashed = true; cs = shm->w[w].sub; ci = shm->w[w].idx; shm->stop = 1; }
			}
			continue;
		}
		usleep(20000);
		double t = now();
		if (t - t0 > budget && !shm->stop) { timedOut = true; shm->stop = 1; }
		for (int w = 0; w < nw; w++) if (pid[w]) {
			if (shm->w[w].idx != lastIdx[w] || shm->w[w].sub != lastSub[w]) { lastIdx[w] = shm->w[w].idx; lastSub[w] = shm->w[w].sub; lastT[w] = t; }
			else if (t - lastT[w] > cpuLimit * 6) { kill(pid[w], SIGKILL); lastT[w] = t; }
		}
	}
	int rc = 0; string failMsg, failDesc, replay; bool unrepro = false;
	if (crashed || shm->haveFail) {
		u64 si = crashed ? cs : shm->failSub, ix = crashed ? ci : shm->failIdx;
		const Prop &p = ps[si < ps.size() ? si : 0];
		vector<u64> rec; string m, d; int kind = isolated(p, nullptr, caseSeed(seed, p, ix), m, &d, &rec, cpuLimit);
		if (!isBad(kind)) for (int t = 0; t < (g_racy ? 25 : 4) && !isBad(kind); t++) kind = isolated(p, nullptr, caseSeed(seed, p, ix), m, &d, &rec, cpuLimit);
		if (isBad(kind)) {
			fprintf(stderr, "%s/%s case %llu fails: %s\n", p.id, p.sub, (unsigned long long)ix, m.c_str());
			bool bySeed = rec.size() >= RECMAX; vector<u64> orig = rec, best = kind == HANG || bySeed ? rec : shrink(p, rec, kind, a.count("--shrink") ? atof(a["--shrink"].c_str()) : 40);
			auto repro = [&](const vector<u64> &v) { int n = 0; for (int t = 0; t < 3; t++) { string m2, d2; int k2 = isolated(p, bySeed ? nullptr : &v, caseSeed(seed, p, ix), m2, &d2, nullptr, cpuLimit); if (isBad(k2)) { n++; m = m2; if (!d2.empty()) d = d2; } } if (g_racy) for (int t = 0; t < 12 && n < 3; t++) { string m2, d2; if (isBad(isolated(p, bySeed ? nullptr : &v, caseSeed(seed, p, ix), m2, &d2, nullptr, cpuLimit))) { n++; m = m2; if (!d2.empty()) d = d2; } } return g_racy ? n >= 1 : n == 3; };
			if (!repro(best)) { best = orig; if (bySeed || !repro(best)) { bySeed = true; if (!repro(best)) unrepro = true; } }
			if (!unrepro) {
				rc = 1; failMsg = m; failDesc = d;
				string dir = a.count("--replays") ? a["--replays"] : string("."); mkdir(dir.c_str(), 0755);
				replay = dir + "/" + id + "-" + p.sub + sfmt("-%016llx", (unsigned long long)mix(seed, ix)) + ".txt";
				FILE *f = fopen(replay.c_str(), "w");
				if (f) {
					fprintf(f, "property: %s\ncheck: %s\nseed: %llu case: %llu\nwhat failed: %s\n\n%s\n\nreproduce: python3 check.py replay %s\nchoices:", p.id, p.sub, (unsigned long long)seed, (unsigned long long)ix, failMsg.c_str(), failDesc.c_str(), replay.c_str());
					if (bySeed) fprintf(f, " from %llu", (unsigned long long)caseSeed(seed, p, ix)); // more choices than are kept
					else for (u64 v : best) fprintf(f, " %llu", (unsigned long long)v);
					fprintf(f, "\n"); fclose(f);
				}
				fprintf(stderr, "%s\n%s\n", failMsg.c_str(), failDesc.substr(0, 4000).c_str());
			}
		} else unrepro = true;
		if (unrepro) fprintf(stderr, "%s/%s case %llu failed once (%s) but does not reproduce (%d %s); not reported\n", p.id, p.sub, (unsigned long long)ix, crashed ? "crash" : shm->failMsg, kind, m.c_str());
	}
	// report
	std::map<string, u64> labels; u64 evals = 0, nontriv = 0; vector<u64> done(ps.size()), disc(ps.size()); vector<string> samples;
	for (int w = 0; w < nw; w++) {
		WSlot &s = shm->w[w]; evals += s.evals; nontriv += s.nontriv;
		for (size_t i = 0; i < ps.size(); i++) { done[i] += s.done[i]; disc[i] += s.disc[i]; }
		const char *q = s.labels; while (*q) { const char *t = strchr(q, '\t'); if (!t) break; char *e; u64 v = strtoull(t + 1, &e, 10); labels[string(q, t - q)] += v; q = e; if (*q == '\n') q++; }
	}
	for (int r = 0; r < 2; r++) for (int w = 0; w < nw; w++) if (r < shm->w[w].nsamples && samples.size() < 8) samples.push_back(shm->w[w].samples[r]);
	string j = "{\"evaluations\":" + std::to_string(evals) + ",\"nontrivial\":" + std::to_string(nontriv) + ",\"distinct_nontrivial\":" + std::to_string(shm->distinct.load()) + ",\"cases\":{";
	for (size_t i = 0; i < ps.size(); i++) j += sfmt("%s\"%s\":{\"run\":%llu,\"discarded\":%llu,\"planned\":%llu}", i ? "," : "", ps[i].sub, (unsigned long long)done[i], (unsigned long long)disc[i], (unsigned long long)want[i]);
	j += "},\"labels\":{"; bool first = true; for (auto &l : labels) { j += (first ? "" : ",") + jstr(l.first) + ":" + std::to_string(l.second); first = false; }
	j += "},\"samples\":["; for (size_t i = 0; i < samples.size(); i++) j += (i ? "," : "") + jstr(samples[i]);
	j += "],\"wall_s\":" + sfmt("%.2f", now() - t0) + ",\"budget_hit\":" + (timedOut ? "true" : "false") + ",\"unreproduced\":" + (unrepro ? "true" : "false") + ",\"violations\":[";
	if (rc) j += "{\"replay\":" + jstr(replay) + ",\"what\":" + jstr(failMsg) + ",\"case\":" + jstr(failDesc.substr(0, 8000)) + "}";
	j += "]}\n";
	if (a.count("--out")) { FILE *f = fopen(a["--out"].c_str(), "w"); if (f) { fputs(j.c_str(), f); fclose(f); } } else fputs(j.c_str(), stdout);
	return rc;
}
