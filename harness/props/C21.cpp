#include "../gen.h"
#include <thread>
#include <atomic>
#include <unistd.h>
#include <sys/mman.h>
#include <fcntl.h>

// Per-thread world behind shared configurations.
static thread_local TA *tTA; static thread_local CbLog *tCb; static thread_local u64 tMsgs, tErrs, tHash;
static void *mem21(void *ctx, void *p, size_t n) { return TA::fn(tTA, p, n); }
static void log21(cyaml_log_t l, void *ctx, const char *f, va_list a) {
	char b[600]; vsnprintf(b, sizeof b, f, a); tMsgs++; if (l == CYAML_LOG_ERROR) tErrs++;
	if (l > CYAML_LOG_DEBUG) tHash = hashStr(b, tHash * 31 + 7); // debug messages hold addresses
}
struct Op21 { int kind; const Schema *S; const cyaml_config_t *cfg; string text; Val v; void *data = nullptr; unsigned count = 0; Model m; int code = 0; int fd = -1; string want; };
static string world(const char *err) { return sfmt("%s messages %llu errors %llu text %016llx", err, (unsigned long long)tMsgs, (unsigned long long)tErrs, (unsigned long long)tHash); }
static string slurp21(int fd) { string o; char b[4096]; ssize_t n; off_t at = 0; while ((n = pread(fd, b, sizeof b, at)) > 0) { o.append(b, n); at += n; } return o; }
// Does one operation; the text says everything about how it went.
static string do21(const Op21 &o) {
	TA ta; CbLog cb; cb.S = o.S; tTA = &ta; tCb = &cb; tMsgs = tErrs = 0; tHash = 0; cb.ctxExpect = (void *)o.cfg; g_cb = &cb;
	string r; cyaml_err_t e; const auto &top = o.S->top; bool isq = top.type == CYAML_SEQUENCE;
	auto take = [&](void *d, unsigned n) -> string {
		string w = sfmt(" count %u ", n); MatchCtx mc; mc.ta = &ta; if (!o.m.ambiguous && !matchTop(top, d, o.m.val, mc, true)) w += "but wrong data: " + mc.err;
		cyaml_free(o.cfg, &top, (cyaml_data_t *)d, n); if (!ta.live.empty()) w += " not freed"; return w; };
	switch (o.kind) {
	case 0: case 1: { void *d = nullptr; unsigned n = 0;
		if (o.kind == 0) e = cyaml_load_data((const u8 *)o.text.data(), o.text.size(), o.cfg, &top, (cyaml_data_t **)&d, isq ? &n : nullptr);
		else e = cyaml_load_file(sfmt("/proc/self/fd/%d", o.fd).c_str(), o.cfg, &top, (cyaml_data_t **)&d, isq ? &n : nullptr);
		r = errName(e); if (!e) r += take(d, n); r += sfmt(" callbacks %zu", cb.calls.size()); break; }
	case 2: { char *t = nullptr; size_t n = 0; e = cyaml_save_data(&t, &n, o.cfg, &top, (cyaml_data_t *)o.data, o.count); r = errName(e); if (!e) { r += " " + string(t, n); TA::fn(&ta, t, 0); } break; }
	case 3: e = cyaml_save_file(sfmt("/proc/self/fd/%d", o.fd).c_str(), o.cfg, &top, (cyaml_data_t *)o.data, o.count); r = errName(e); if (!e) r += " " + slurp21(o.fd); break;
	case 4: { void *d = nullptr; unsigned n = top.type == CYAML_SEQUENCE_FIXED ? top.sequence.max : o.count; e = cyaml_copy(o.cfg, &top, (cyaml_data_t *)o.data, n, (cyaml_data_t **)&d); r = errName(e);
		if (!e) { MatchCtx mc; mc.ta = &ta; mc.checkGaps = false; if (!matchTop(top, d, o.v, mc, true)) r += " but wrong copy: " + mc.err; cyaml_free(o.cfg, &top, (cyaml_data_t *)d, n); if (!ta.live.empty()) r += " not freed"; } break; }
	default: r = cyaml_strerror((cyaml_err_t)o.code); break;
	}
	r = world(r.c_str()); if (!ta.err.empty()) r += " " + ta.err; if (!cb.err.empty()) r += " " + cb.err; if (!ta.live.empty()) r += " leak"; g_cb = nullptr;
	return r;
}
static void mix21(Case &k, bool same) {
	Choices &c = k.c; Arena a; vector<std::unique_ptr<Schema>> ss; vector<GenOpt> os; int ns = 1 + c.below(3);
	for (int i = 0; i < ns; i++) { GenOpt o; o.depth = 1 + c.below(4); o.cbPct = 8; o.ptrPct = 45; o.casePct = 20; if (c.p(30)) o.types = 1 << CYAML_FLOAT | 1 << CYAML_INT | 1 << CYAML_UINT | 1 << CYAML_BITFIELD | 1 << CYAML_FLAGS | 1 << CYAML_ENUM | 1 << CYAML_MAPPING | 1 << CYAML_SEQUENCE; ss.push_back(std::make_unique<Schema>()); genSchema(c, *ss.back(), o); os.push_back(o); }
	struct Cfg { cyaml_config_t c; }; std::deque<Cfg> cfgs; int nc = 1 + c.below(2);
	for (int i = 0; i < nc; i++) { cfgs.emplace_back(); auto &g = cfgs.back().c; memset(&g, 0, sizeof g); g.log_fn = log21; g.mem_fn = mem21; g.log_level = (cyaml_log_t)c.below(5); g.flags = (cyaml_cfg_flags_t)genCfg(c, 25); g.validation_ctx = &g; }
	vector<int> fds; struct Close { vector<int> &f; ~Close() { for (int x : f) close(x); } } closer{fds};
	int nt = 2 + c.below(5); vector<std::deque<Op21>> script(nt);
	k.desc = sfmt("%d threads\n", nt); for (auto &s : ss) k.desc += "schema: " + showSchema(*s, s->top) + "\n"; for (auto &g : cfgs) k.desc += "config: " + cfgText(g.c.flags) + sfmt(" log level %d\n", g.c.log_level);
	static const char *names[] = {"load", "load file", "save", "save file", "copy", "strerror"};
	int kindOnly = same ? (int)c.below(6) : -1, least = 99;
	for (int t = 0; t < nt; t++) {
		int n = 3 + c.below(5), got = 0;
		for (int i = 0; i < n; i++) {
			Op21 o; o.kind = kindOnly >= 0 && !c.p(15) ? kindOnly : c.below(6); int si = c.below(ns); o.S = ss[si].get(); o.cfg = &cfgs[c.below(nc)].c; u32 f = o.cfg->flags;
			try {
			Val v = genVal(c, *o.S, o.S->top, os[si]);
			if (o.kind <= 1) { Expr e; e.cfgFlags = f; Node d = express(c, *o.S, o.S->top, v, e); if (c.p(25)) mutateNode(c, *o.S, f, d); if (c.p(20)) addAliases(c, d, 30, false); Writer w; w.kind = Writer::EMITTER; w.encodings = c.p(10); o.text = writeNode(c, d, w); if (c.p(8)) o.text = mutateBytes(c, o.text); o.m = modelText(*o.S, f, o.text); if (o.m.ambiguous) continue; k.label(string("loads:") + errName(o.m.err)); }
			else if (o.kind <= 4) { o.v = v; o.data = buildTop(*o.S, v, a.alloc(), &o.count); }
			else o.code = c.p(70) ? c.below(CYAML_ERR__COUNT) : (int)c.below(400) - 200;
			if (o.kind == 1 || o.kind == 3) { o.fd = memfd_create("c21", 0); if (o.fd < 0) abort(); fds.push_back(o.fd); if (o.kind == 1 && o.text.size() && write(o.fd, o.text.data(), o.text.size()) < 0) abort(); }
			} catch (Discard &) { continue; }
			k.label(names[o.kind]); k.desc += sfmt("thread %d: %s %s\n", t, names[o.kind], o.kind <= 1 ? quoted(o.text, 200).c_str() : o.kind <= 4 ? showVal(o.S->top, o.v).substr(0, 200).c_str() : sfmt("%d", o.code).c_str());
			o.want = do21(o); got++; // alone
			if (o.kind <= 1) CHECK(o.want.rfind(errName(o.m.err), 0) == 0 && o.want.find("wrong") == string::npos, "alone, %s gave %s, expected %s", names[o.kind], o.want.c_str(), errName(o.m.err).c_str());
			script[t].push_back(std::move(o));
		}
		if (got < least) least = got;
	}
	a.snapshot();
	int rounds = 3; std::atomic<int> ready{0}; vector<string> errs(nt); vector<std::thread> th;
	for (int t = 0; t < nt; t++) th.emplace_back([&, t] {
		ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < nt) sched_yield();
		for (int r = 0; r < rounds; r++) for (auto &o : script[t]) { string g = do21(o); if (g != o.want && errs[t].empty()) errs[t] = sfmt("thread %d: %s gave %s, alone it gave %s", t, names[o.kind], quoted(g, 1500).c_str(), quoted(o.want, 1500).c_str()); }
	});
	for (auto &t : th) t.join();
	for (auto &e : errs) CHECK(e.empty(), "%s", e.c_str());
	CHECK(a.same(), "shared data was changed");
	k.evals = 0; for (auto &s : script) k.evals += s.size() * (rounds + 1); k.nontrivial = nt >= 2 && least >= 3; k.label(sfmt("threads:%d", nt));
}
PROP(C21, mixed, 2500, 60000) { mix21(k, false); }
PROP(C21, alike, 2500, 60000) { mix21(k, true); }
