#include "../gen.h"
#include <unistd.h>
#include <sys/mman.h>
#include <fcntl.h>

// ---- settings
struct Set20 {
	int level = CYAML_LOG_ERROR;
	int log = 0;     // 0: own function 1: none 2: own function, NULL context 3: cyaml_log
	int mem = 0;     // 0: own 1: NULL context 2: cyaml_mem
	bool stay = false; u8 fill = 0xA5; // allocator manners
	int err = -1;    // client functions set errno: -1 never, 4 to this and that
	u64 logCtx = 0, memCtx = 0;
	string text() const {
		static const char *l[] = {"own", "none", "own, NULL context", "cyaml_log"}, *m[] = {"own", "own, NULL context", "cyaml_mem"};
		return sfmt("level %d, log function %s, allocator %s%s filling with 0x%02x%s", level, l[log], m[mem], stay ? " growing in place" : "", fill, err >= 0 ? ", errno changed" : "");
	}
	void touch(u64 n) const { if (err >= 0) clobberErrno(err == 4 ? n : err); }
};
static struct World20 {
	Set20 s; string err; vector<LogMsg> msgs; std::map<u8 *, std::pair<size_t, size_t>> live; u64 allocs = 0;
	void bad(const string &e) { if (err.empty()) err = e; }
	void clear() { for (auto &b : live) free(b.first); live.clear(); msgs.clear(); err.clear(); allocs = 0; }
} W20;
static void logFn20(cyaml_log_t level, void *ctx, const char *fmt, va_list args) {
	Paused pz; char *p = nullptr; int n = vasprintf(&p, fmt, args); string t(p ? p : "", n < 0 ? 0 : n); free(p);
	if (ctx != (W20.s.log == 2 ? nullptr : (void *)&W20.s.logCtx)) W20.bad("log function called with another context than the client's");
	if ((int)level < W20.s.level) W20.bad(sfmt("message of level %d although %d was chosen: %s", (int)level, W20.s.level, t.c_str()));
	if ((unsigned)level > CYAML_LOG_ERROR) W20.bad("message of unknown level");
	W20.msgs.push_back({(int)level, t}); W20.s.touch(W20.msgs.size());
}
static void *memFn20(void *ctx, void *ptr, size_t size) {
	Paused pz; W20.allocs++; struct Touch { ~Touch() { W20.s.touch(W20.allocs); } } touch;
	if (ctx != (W20.s.mem == 1 ? nullptr : (void *)&W20.s.memCtx)) W20.bad("allocation function called with another context than the client's");
	auto i = W20.live.find((u8 *)ptr); if (ptr && i == W20.live.end()) { W20.bad("allocation function called for a block that is not live"); return nullptr; }
	if (!size) { if (ptr) { memset(ptr, 0xDD, i->second.first); W20.live.erase(i); free(ptr); } return nullptr; }
	if (size > 256u << 20) return nullptr;
	if (ptr && W20.s.stay && size <= i->second.second) { if (size > i->second.first) memset((u8 *)ptr + i->second.first, W20.s.fill, size - i->second.first); i->second.first = size; return ptr; }
	size_t cap = W20.s.stay ? size * 3 + 64 : size; u8 *n = (u8 *)malloc(cap); memset(n, W20.s.fill, size);
	if (ptr) { memcpy(n, ptr, std::min(size, i->second.first)); memset(ptr, 0xDD, i->second.first); W20.live.erase(i); free(ptr); }
	W20.live[n] = {size, cap}; return n;
}
static cyaml_config_t config20(u32 flags, CbLog *cb) {
	cyaml_config_t c; memset(&c, 0, sizeof c); const Set20 &s = W20.s;
	c.log_level = (cyaml_log_t)s.level; c.log_fn = s.log == 1 ? nullptr : s.log == 3 ? cyaml_log : logFn20; c.log_ctx = s.log == 2 ? nullptr : &W20.s.logCtx;
	c.mem_fn = s.mem == 2 ? cyaml_mem : memFn20; c.mem_ctx = s.mem == 1 ? nullptr : &W20.s.memCtx;
	c.flags = (cyaml_cfg_flags_t)flags; c.validation_ctx = cb; return c;
}
// stdout and stderr while it lives
struct Tap { int fd[2], old[2]; Tap() { fflush(stdout); fflush(stderr); for (int i = 0; i < 2; i++) { fd[i] = memfd_create("tap", 0); old[i] = dup(i + 1); dup2(fd[i], i + 1); } }
	void stop() { if (fd[0] < 0) return; fflush(stdout); fflush(stderr); for (int i = 0; i < 2; i++) { dup2(old[i], i + 1); close(old[i]); char b[4096]; ssize_t n; off_t at = 0; while ((n = pread(fd[i], b, sizeof b, at)) > 0) { text[i].append(b, n); at += n; } close(fd[i]); } fd[0] = -1; }
	string text[2]; ~Tap() { stop(); } };
struct Job20 { const Schema *S; u32 cfg; string doc; Model m; Val v; void *data; unsigned count; int kind; };
struct Out20 { cyaml_err_t err = CYAML_OK; string text; string console[2]; vector<LogMsg> msgs; u64 allocs = 0; vector<CbCall> calls; };
static Out20 run20(const Job20 &j, const Set20 &s) {
	W20.clear(); W20.s = s; Out20 o; CbLog cb; cb.S = j.S; cb.ctxExpect = &cb; cyaml_config_t cfg = config20(j.cfg, &cb); const auto &top = j.S->top; bool isq = top.type == CYAML_SEQUENCE; string why;
	g_cb = &cb; MallocWindow::clear(); if (j.kind == 0 && !j.m.ambiguous) cb.expect = &j.m.cbs;
	auto size = [&](void *p) -> size_t { auto i = W20.live.find((u8 *)p); return i == W20.live.end() ? 0 : i->second.first; };
	Tap tap; size_t leftover;
	{ MallocWindow mw; if (s.err >= 0) clobberErrno(s.err);
	if (j.kind == 0) {
		void *d = nullptr; unsigned n = 0; o.err = cyaml_load_data((const u8 *)j.doc.data(), j.doc.size(), &cfg, &top, (cyaml_data_t **)&d, isq ? &n : nullptr);
		if (!o.err) {
			Paused pz; o.text = sfmt("count %u", n);
			if (!j.m.ambiguous) { TA ta; for (auto &b : W20.live) ta.live[b.first] = b.second.first; MatchCtx mc; if (s.mem != 2) mc.ta = &ta; if (!matchTop(top, d, j.m.val, mc, s.mem != 2)) why = mc.err; ta.live.clear(); }
		}
		if (!o.err) { cyaml_err_t e; e = cyaml_free(&cfg, &top, (cyaml_data_t *)d, isq ? n : 0); if (e) why = "free failed"; }
	} else if (j.kind == 1) {
		char *t = nullptr; size_t n = 0; o.err = cyaml_save_data(&t, &n, &cfg, &top, (cyaml_data_t *)j.data, j.count);
		if (!o.err) { { Paused pz; o.text.assign(t, n); if (s.mem != 2 && size(t) < n) why = "output is not in the client's memory"; } cfg.mem_fn(cfg.mem_ctx, t, 0); }
	} else {
		void *d = nullptr; unsigned n = top.type == CYAML_SEQUENCE_FIXED ? top.sequence.max : j.count; o.err = cyaml_copy(&cfg, &top, (cyaml_data_t *)j.data, n, (cyaml_data_t **)&d);
		if (!o.err) { { Paused pz; TA ta; for (auto &b : W20.live) ta.live[b.first] = b.second.first; MatchCtx mc; if (s.mem != 2) mc.ta = &ta; mc.checkGaps = false; if (!matchTop(top, d, j.v, mc, s.mem != 2)) why = mc.err; ta.live.clear(); } if (cyaml_free(&cfg, &top, (cyaml_data_t *)d, n)) why = "free failed"; }
	}
	}
	leftover = MallocWindow::outstanding(); MallocWindow::clear(); g_cb = nullptr; tap.stop();
	CHECK(why.empty(), "%s (%s)", why.c_str(), s.text().c_str());
	CHECK(W20.err.empty(), "%s (%s)", W20.err.c_str(), s.text().c_str()); CHECK(cb.err.empty(), "%s (%s)", cb.err.c_str(), s.text().c_str());
	CHECK(leftover == 0, "%zu blocks left in memory (%s)", leftover, s.text().c_str()); CHECK(W20.live.empty(), "%zu of the client's blocks left (%s)", W20.live.size(), s.text().c_str());
	CHECK(tap.text[0].empty(), "something was written to the standard output (%s): %s", s.text().c_str(), quoted(tap.text[0], 300).c_str());
	CHECK(s.log == 3 || tap.text[1].empty(), "something was written to the standard error (%s): %s", s.text().c_str(), quoted(tap.text[1], 300).c_str());
	o.console[1] = tap.text[1]; o.msgs = W20.msgs; o.allocs = W20.allocs + (s.mem == 2 ? 1 : 0); o.calls = cb.calls; return o;
}
static Job20 job20(Choices &c, Schema &S, Arena &a) {
	Job20 j; j.S = &S; GenOpt o; o.depth = 1 + c.below(4); o.ptrPct = 50; o.cbPct = 8; if (c.p(10)) { o.maxEntries = 40; o.longStrPct = 30; } genSchema(c, S, o); j.cfg = genCfg(c, 30); if (c.p(10)) j.cfg |= CYAML_CFG_NO_ALIAS;
	j.kind = c.below(4); if (j.kind == 3) j.kind = 0; Val v = genVal(c, S, S.top, o); j.v = v; j.data = nullptr; j.count = 0;
	if (j.kind == 0) {
		Expr e; e.cfgFlags = j.cfg; e.absentPct = 40; Node n = express(c, S, S.top, v, e); if (c.p(35)) mutateNode(c, S, j.cfg, n); if (c.p(15)) addAliases(c, n, 30, c.p(30)); Writer w; w.kind = Writer::EMITTER; w.tailPct = 8;
		j.doc = writeNode(c, n, w); if (c.p(10)) j.doc = mutateBytes(c, j.doc); j.m = modelText(S, j.cfg, j.doc);
	} else { if (c.p(15)) plantNulls(c, S.top, j.v, 20); j.data = buildTop(S, j.v, a.alloc(), &j.count); }
	return j;
}
PROP(C20, settings, 45000, 350000) {
	Choices &c = k.c; Schema S; Arena a; Job20 j = job20(c, S, a); static const char *ops[] = {"load", "save", "copy"};
	k.desc = string(ops[j.kind]) + "\n" + (j.kind ? "schema: " + showSchema(S, S.top) + "\nconfig: " + cfgText(j.cfg) + "\nvalue: " + showVal(S.top, j.v) + "\n" : caseText(S, j.cfg, j.doc));
	struct Clean { ~Clean() { W20.clear(); } } clean;
	Set20 s0; s0.level = CYAML_LOG_DEBUG; Out20 base = run20(j, s0); // the most talkative
	if (j.kind == 0 && !j.m.ambiguous) CHECK(base.err == j.m.err, "load returned %s, expected %s", errName(base.err).c_str(), errName(j.m.err).c_str());
	if (j.kind == 1) { SavePred p = predictSave(S, j.cfg, j.v, j.count); bool ok; if (!p.err) { refEmit(saveNode(S, j.cfg, S.top, j.v), false, &ok); if (!ok) throw Discard{}; } CHECK(base.err == p.err, "save returned %s, expected %s", errName(base.err).c_str(), errName(p.err).c_str()); }
	k.label(string(ops[j.kind]) + ":" + errName(base.err)); k.label("messages", base.msgs.size()); k.evals = 1; k.nontrivial = base.allocs > 0 || !base.msgs.empty();
	bool seen[5] = {};
	for (int t = 0; t < 5; t++) {
		Set20 s; s.level = c.below(5); s.log = c.p(35) ? 0 : c.below(4); s.mem = c.below(3); s.stay = c.p(40); s.fill = c.pick<int>({0xA5, 0, 0xFF, 0x01, 0x80}); s.err = c.p(50) ? -1 : (int)c.below(5); seen[s.level] = true;
		Out20 x = run20(j, s); k.evals++; k.label(sfmt("log:%d", s.log)); k.label(sfmt("mem:%d", s.mem)); k.label(sfmt("level:%d", s.level));
		string with = "with " + s.text();
		CHECK(x.err == base.err, "%s the result is %s instead of %s", with.c_str(), errName(x.err).c_str(), errName(base.err).c_str());
		CHECK(x.text == base.text, "%s the output is %s instead of %s", with.c_str(), quoted(x.text, 1500).c_str(), quoted(base.text, 1500).c_str());
		CHECK(x.calls.size() == base.calls.size(), "%s there were %zu validation callbacks instead of %zu", with.c_str(), x.calls.size(), base.calls.size());
		vector<LogMsg> want; for (auto &m : base.msgs) if (m.level >= s.level) want.push_back(m);
		if (s.log == 0 || s.log == 2) {
			CHECK(x.msgs.size() == want.size(), "%s there were %zu messages, %zu of that level or above at debug level", with.c_str(), x.msgs.size(), want.size());
			for (size_t i = 0; i < want.size(); i++) { CHECK(x.msgs[i].level == want[i].level, "%s message %zu has another level", with.c_str(), i); if (want[i].level > CYAML_LOG_DEBUG) CHECK(x.msgs[i].text == want[i].text, "%s message %zu is %s instead of %s", with.c_str(), i, quoted(x.msgs[i].text, 300).c_str(), quoted(want[i].text, 300).c_str()); }
		}
		if (s.log == 3) { // the library's own log function: every message on the standard error, in order
			size_t at = 0; for (auto &m : want) { if (m.level == CYAML_LOG_DEBUG) continue; string t = m.text.substr(0, strlen(m.text.c_str())); size_t f = x.console[1].find(t, at); CHECK(f != string::npos, "%s the message %s is missing on the standard error", with.c_str(), quoted(t, 300).c_str()); at = f + t.size(); }
			if (want.empty()) CHECK(x.console[1].empty(), "%s the standard error got %s", with.c_str(), quoted(x.console[1], 300).c_str()); else CHECK(!x.console[1].empty(), "%s nothing was written to the standard error", with.c_str());
			static const char *names[] = {"DEBUG", "INFO", "NOTICE", "WARNING", "ERROR"}; for (int l = 0; l < s.level; l++) CHECK(x.console[1].find(string(names[l]) + ": ") == string::npos || j.doc.find(names[l]) != string::npos, "%s a message of a lower level was written", with.c_str());
		}
	}
	for (int l = 0; l < 5; l++) if (seen[l]) k.label("levels seen");
}
// the library's standard allocation function
PROP(C20, memory, 20000, 200000) {
	Choices &c = k.c; vector<vector<u8>> want; vector<u8 *> got; k.desc = "cyaml_mem:"; k.evals = 0; MallocWindow::clear();
	{ MallocWindow mw; int ops = 3 + c.below(30);
	for (int i = 0; i < ops; i++) {
		void *ctx = c.p(50) ? nullptr : (void *)0x10; size_t n = c.p(60) ? 1 + c.below(40) : 1 + c.below(20000); k.evals++;
		switch (got.empty() ? 0 : c.below(4)) {
		case 0: case 1: { u8 *p = (u8 *)cyaml_mem(ctx, nullptr, n); CHECK(p, "no memory"); Paused pz; k.desc += sfmt(" new %zu", n); vector<u8> b(n); for (auto &x : b) x = c.below(256); memcpy(p, b.data(), n); want.push_back(b); got.push_back(p); k.label("new"); break; }
		case 2: { size_t at = c.below(got.size()); u8 *p = (u8 *)cyaml_mem(ctx, got[at], n); CHECK(p, "no memory"); Paused pz; k.desc += sfmt(" %zu to %zu", want[at].size(), n); got[at] = p; size_t old = want[at].size(); want[at].resize(n); CHECK(!memcmp(p, want[at].data(), std::min(old, n)), "resizing lost content"); for (size_t x = old; x < n; x++) p[x] = want[at][x] = c.below(256); k.label("resize"); break; }
		default: { size_t at = c.below(got.size()); void *r = cyaml_mem(ctx, got[at], 0); CHECK(!r, "freeing returned a pointer"); Paused pz; k.desc += sfmt(" free %zu", want[at].size()); got.erase(got.begin() + at); want.erase(want.begin() + at); k.label("free"); }
		}
		Paused pz; for (size_t x = 0; x < got.size(); x++) CHECK(!memcmp(got[x], want[x].data(), want[x].size()), "a block's content changed");
	}
	CHECK(cyaml_mem(nullptr, nullptr, 0) == nullptr, "freeing nothing returned a pointer");
	for (auto p : got) cyaml_mem(nullptr, p, 0);
	}
	size_t left = MallocWindow::outstanding(); MallocWindow::clear(); 
	CHECK(left == 0, "%zu blocks were not freed", left); k.nontrivial = k.evals >= 5;
}
// the library's standard log function
PROP(C20, console, 6000, 100000) {
	Choices &c = k.c; struct L { static void call(cyaml_log_t l, void *ctx, const char *f, ...) { va_list a; va_start(a, f); cyaml_log(l, ctx, f, a); va_end(a); } };
	static const char *names[] = {"DEBUG", "INFO", "NOTICE", "WARNING", "ERROR"};
	int l = c.below(5); GenOpt o; string s = genString(c, o, 0, c.p(10) ? 3000 : 40); s = s.substr(0, strlen(s.c_str())); int n = (int)c.below(1ull << 32);
	k.desc = sfmt("cyaml_log level %d text %s number %d", l, quoted(s).c_str(), n); Tap t; L::call((cyaml_log_t)l, c.p(50) ? nullptr : (void *)0x10, "a %s b %d\n", s.c_str(), n); t.stop();
	CHECK(t.text[0].empty(), "cyaml_log wrote to the standard output"); string want = sfmt("a %s b %d\n", s.c_str(), n);
	CHECK(t.text[1].size() >= want.size() && t.text[1].compare(t.text[1].size() - want.size(), want.size(), want) == 0, "cyaml_log wrote %s", quoted(t.text[1], 500).c_str());
	string pre = t.text[1].substr(0, t.text[1].size() - want.size()); CHECK(pre.find(names[l]) != string::npos, "cyaml_log does not name the level: %s", pre.c_str());
	k.nontrivial = true; k.label(names[l]);
}
