#include "../gen.h"
#include "../inplace.h"

typedef std::map<void *, string> Snap;
static Snap snapTA(const TA &t) { Snap s; for (auto &e : t.live) s[e.first] = string((char *)e.first, e.second); return s; }
static void sameSnap(const TA &t, const Snap &s, const char *when) {
	for (auto &e : s) { CHECK(t.live.count(e.first), "%s: a block of the original was released", when); CHECK(memcmp(e.first, e.second.data(), e.second.size()) == 0, "%s: the original was altered", when); }
}
static unsigned copyCount(const Schema &S, unsigned n) { return S.top.type == CYAML_SEQUENCE_FIXED ? S.top.sequence.max : n; }
static void matches(const Schema &S, const void *d, const Val &v, TA &t, MatchCtx &m, bool exact, const char *what) {
	m.ta = &t; m.checkGaps = false; CHECK(matchTop(S.top, d, v, m, exact), "%s: %s", what, m.err.c_str());
}
static void failing(Case &k, Rig &r, const Schema &S, const void *data, unsigned count, u64 requests, const std::function<void(const char *)> &orig) {
	if (!requests) return;
	r.ta.failAt = r.ta.allocs + 1 + k.c.below(requests); r.ta.failFrom = k.c.p(50); r.ta.failed = false;
	CopyRes f = doCopy(r, S, data, count); bool hit = r.ta.failed; r.ta.failAt = 0; r.ta.failFrom = false; k.evals++;
	CHECK(!hit || f.err == CYAML_ERR_OOM, "copy with a failed allocation returned %s", errName(f.err).c_str());
	orig("after a failed copy"); k.label("failed copy");
	if (!f.err) { cyaml_free(&r.cfg, &S.top, (cyaml_data_t *)f.data, count); }
}
static void one(Case &k, GenOpt o, bool built) {
	Choices &c = k.c; Schema S; genSchema(c, S, o); u32 cfg = genCfg(c, 20); Rig r(cfg, c.p(10) ? CYAML_LOG_DEBUG : CYAML_LOG_ERROR); r.log.keep = r.cfg.log_level == CYAML_LOG_ERROR;
	Arena a; Val v; void *data; unsigned cnt = 0;
	if (built) {
		v = genVal(c, S, S.top, o); data = buildTop(S, v, a.alloc(), &cnt); a.snapshot();
		k.desc = "schema: " + showSchema(S, S.top) + "\nconfig: " + cfgText(cfg) + "\nvalue: " + showVal(S.top, v) + "\n";
	} else {
		Expr e; e.cfgFlags = cfg; Writer w; w.kind = Writer::EMITTER; w.encodings = false; Doc d = genDoc(c, S, o, e, w); v = d.v;
		k.desc = caseText(S, cfg, d.text); Model m = modelText(S, cfg, d.text); if (m.ambiguous || m.err) throw Discard{};
		LoadRes res; checkAgainst(r, S, d.text, m, &res, false); data = res.data; cnt = res.count;
	}
	unsigned cc = copyCount(S, cnt); SavePred p = predictCopy(S, v, cc);
	Snap snap = snapTA(r.ta); auto orig = [&](const char *w) { sameSnap(r.ta, snap, w); if (built) CHECK(a.same(), "%s: the original was altered", w); };
	size_t own = r.ta.live.size(); u64 before = r.ta.allocs;
	CopyRes x = doCopy(r, S, data, cc);
	k.label((built ? "built:" : "loaded:") + errName(x.err));
	CHECK(x.err == p.err, "copy returned %s, expected %s (%s)", errName(x.err).c_str(), errName(p.err).c_str(), p.why.c_str());
	u64 requests = r.ta.allocs - before; orig("after the copy");
	k.nontrivial = (built ? a.blocks.size() : own) >= 2;
	if (x.err) { if (!built) doFree(r, S, data, cnt); return; }
	MatchCtx mc, mo; matches(S, x.data, v, r.ta, mc, false, "the copy differs");
	CHECK(mc.reached.size() == r.ta.live.size() - own, "the copy made %zu allocations of which %zu are reachable", r.ta.live.size() - own, mc.reached.size());
	for (auto q : mc.reached) CHECK(!snap.count((void *)q), "the copy shares a block with the original");
	if (built) for (auto &b : a.blocks) CHECK(!mc.reached.count(b.first), "the copy shares a block with the original");
	failing(k, r, S, data, cc, requests, orig);
	if (c.p(30)) { // copy of the copy
		CopyRes y = doCopy(r, S, x.data, cc); k.evals++; CHECK(y.err == CYAML_OK, "copy of the copy: %s", errName(y.err).c_str());
		MatchCtx my; matches(S, y.data, v, r.ta, my, false, "the copy of the copy differs");
		for (auto q : my.reached) CHECK(!mc.reached.count(q), "the second copy shares a block with the first");
		CHECK(cyaml_free(&r.cfg, &S.top, (cyaml_data_t *)y.data, cc) == CYAML_OK && r.ta.err.empty(), "freeing the second copy: %s", r.ta.err.c_str());
		for (auto q : my.reached) CHECK(!r.ta.live.count((void *)q), "freeing left a block");
		k.label("copied twice");
	}
	if (c.p(50)) { // the original goes first
		if (built) a.scribble(); else { CHECK(cyaml_free(&r.cfg, &S.top, (cyaml_data_t *)data, cnt) == CYAML_OK && r.ta.err.empty(), "freeing the original: %s", r.ta.err.c_str()); }
		MatchCtx m2; matches(S, x.data, v, r.ta, m2, true, "the copy changed with the original");
		doFree(r, S, x.data, cc); k.label("original first");
	} else { // the copy is spoiled and goes first
		CHECK(cyaml_free(&r.cfg, &S.top, (cyaml_data_t *)x.data, cc) == CYAML_OK && r.ta.err.empty(), "freeing the copy: %s", r.ta.err.c_str());
		CHECK(r.ta.live.size() == own, "freeing the copy left %zu blocks", r.ta.live.size() - own); orig("after freeing the copy");
		if (built) a.scribble(); else doFree(r, S, data, cnt);
	}
}
PROP(C10, loaded, 40000, 800000) { GenOpt o; o.depth = 1 + k.c.below(5); o.ptrPct = 50; o.cbPct = 3; one(k, o, false); }
PROP(C10, built, 90000, 1500000) { GenOpt o; o.depth = 1 + k.c.below(5); o.ptrPct = 20 + k.c.below(70); one(k, o, true); }
PROP(C10, sequences, 50000, 1000000) { GenOpt o; o.depth = 2 + k.c.below(4); o.ptrPct = 50; o.maxEntries = 12; o.maxFields = 3; o.types = ~(1u << CYAML_IGNORE); if (k.c.p(60)) o.topTypes = 1 << CYAML_SEQUENCE | 1 << CYAML_SEQUENCE_FIXED; one(k, o, true); }
PROP(C10, big, 6000, 150000) { GenOpt o; o.depth = 2 + k.c.below(3); o.ptrPct = 60; o.maxEntries = 60; o.widePct = 40; o.wideMax = 100; o.longStrPct = 20; o.recursePct = 5; one(k, o, true); }
PROP(C10, deep, 10000, 200000) { GenOpt o; o.depth = 8 + k.c.below(25); o.chainPct = 85; o.maxFields = 3; o.recursePct = 25; o.optPct = 12; o.nullPct = 10; o.maxEntries = 2; one(k, o, true); }
// top level values that are no pointers: the copy goes into the caller's buffer
PROP(C10, inplace, 50000, 1000000) {
	Choices &c = k.c; Schema S; S.topPtr = false; GenOpt o; o.depth = 1 + c.below(4); o.ptrPct = 50; genSchema(c, S, o);
	Val v = genVal(c, S, S.top, o); if (v.k == Val::SEQ && v.kids.empty()) throw Discard{};
	inplaceCopy(k, S, v, "");
}
PROP(C10, long, 90, 4000) { GenOpt o; o.ptrPct = 60; o.longMax = 80000; one(k, o, k.c.p(60)); }
