#include "../gen.h"

struct FreeItem { std::unique_ptr<Schema> own; const Schema *S; Val v; void *data; unsigned count; std::set<const void *> blocks; };
static void reach(Rig &r, FreeItem &it) { MatchCtx m; m.ta = &r.ta; m.checkGaps = false; CHECK(matchTop(it.S->top, it.data, it.v, m, false), "%s", m.err.c_str()); it.blocks = m.reached; }
static void consistent(Rig &r, vector<FreeItem> &items, const char *after) {
	size_t n = 0; for (auto &i : items) { n += i.blocks.size(); for (auto b : i.blocks) CHECK(r.ta.live.count((void *)b), "%s released a block of other data", after); }
	CHECK(r.ta.live.size() == n, "after %s %zu blocks are live, %zu are reachable", after, r.ta.live.size(), n);
}
static void history(Case &k, GenOpt o, int maxOps) {
	Choices &c = k.c; vector<std::unique_ptr<Schema>> schemas; int ns = 1 + c.below(2);
	for (int i = 0; i < ns; i++) { schemas.push_back(std::make_unique<Schema>()); genSchema(c, *schemas.back(), o); }
	u32 cfg = genCfg(c, 15); Rig r(cfg, c.p(15) ? CYAML_LOG_DEBUG : CYAML_LOG_ERROR); r.log.keep = false;
	vector<FreeItem> items; k.evals = 0; size_t most = 0; k.desc.clear();
	for (auto &s : schemas) k.desc += "schema: " + showSchema(*s, s->top) + "\n";
	auto drop = [&](size_t at) {
		FreeItem it = std::move(items[at]); items.erase(items.begin() + at);
		cyaml_config_t bare; memset(&bare, 0, sizeof bare); bare.mem_fn = TA::fn; bare.mem_ctx = &r.ta; bool useBare = c.p(50);
		u64 allocs = r.ta.allocs; cyaml_err_t e; MallocWindow::clear();
		{ MallocWindow w; e = cyaml_free(useBare ? &bare : &r.cfg, &it.S->top, (cyaml_data_t *)it.data, it.count); }
		k.desc += "free\n"; k.evals++;
		CHECK(e == CYAML_OK, "free returned %s", errName(e).c_str()); CHECK(r.ta.err.empty(), "free: %s", r.ta.err.c_str());
		CHECK(MallocWindow::outstanding() == 0, "free leaked memory of its own"); CHECK(r.ta.allocs == allocs, "free asked for memory");
		for (auto b : it.blocks) CHECK(!r.ta.live.count((void *)b), "free left a block allocated"); k.label("free", 1); k.label("blocks", it.blocks.size());
		consistent(r, items, "free");
	};
	int ops = 2 + c.below(maxOps);
	for (int i = 0; i < ops; i++) switch (c.below(6)) {
	case 0: case 1: { // load
		const Schema &S = *schemas[c.below(ns)]; Expr e; e.cfgFlags = cfg; Writer w; w.kind = Writer::EMITTER; w.encodings = false; Doc d;
		try { d = genDoc(c, S, o, e, w); } catch (Discard &) { break; }
		Model m = modelText(S, cfg, d.text); if (m.ambiguous || m.err) break;
		k.desc += "load " + quoted(d.text, 1500) + "\n";
		size_t before = r.ta.live.size(); LoadRes res = doLoad(r, S, d.text, &m.cbs); k.evals++; CHECK(res.err == CYAML_OK, "load returned %s", errName(res.err).c_str());
		items.push_back(FreeItem{nullptr, &S, m.val, res.data, res.count, {}}); reach(r, items.back());
		CHECK(r.ta.live.size() == before + items.back().blocks.size(), "load left unreachable blocks"); k.label("load"); if (items.back().blocks.size() > most) most = items.back().blocks.size();
		break; }
	case 2: { // copy
		if (items.empty()) break; FreeItem &src = items[c.below(items.size())]; unsigned cc = src.S->top.type == CYAML_SEQUENCE_FIXED ? src.S->top.sequence.max : src.count;
		if (predictCopy(*src.S, src.v, cc).err) break; k.desc += "copy\n";
		CopyRes x = doCopy(r, *src.S, src.data, cc); k.evals++; CHECK(x.err == CYAML_OK, "copy returned %s", errName(x.err).c_str());
		FreeItem n{nullptr, src.S, src.v, x.data, src.count, {}}; reach(r, n); items.push_back(std::move(n)); k.label("copy");
		consistent(r, items, "copy"); break; }
	case 3: case 4: if (!items.empty()) drop(c.below(items.size())); break;
	case 5: { // nothing to free
		const Schema &S = *schemas[c.below(ns)]; r.ta.forbid = true; cyaml_err_t e = cyaml_free(&r.cfg, &S.top, nullptr, c.p(50) ? 0 : c.below(5)); r.ta.forbid = false; k.evals++;
		k.desc += "free NULL\n"; CHECK(e == CYAML_OK && r.ta.err.empty(), "freeing NULL returned %s %s", errName(e).c_str(), r.ta.err.c_str()); k.label("free NULL"); consistent(r, items, "freeing NULL"); break; }
	}
	while (!items.empty()) drop(c.below(items.size()));
	CHECK(r.ta.live.empty(), "%zu blocks left", r.ta.live.size());
	k.nontrivial = most >= 2;
}
PROP(C11, history, 40000, 600000) { GenOpt o; o.depth = 1 + k.c.below(5); o.ptrPct = 60; history(k, o, 12); }
PROP(C11, sequences, 25000, 400000) { GenOpt o; o.depth = 2 + k.c.below(4); o.ptrPct = 55; o.maxEntries = 12; o.maxFields = 3; o.types = ~(1u << CYAML_IGNORE); if (k.c.p(60)) o.topTypes = 1 << CYAML_SEQUENCE | 1 << CYAML_SEQUENCE_FIXED; history(k, o, 6); }
PROP(C11, deep, 9000, 150000) { GenOpt o; o.depth = 8 + k.c.below(25); o.chainPct = 85; o.maxFields = 3; o.recursePct = 25; o.optPct = 12; o.nullPct = 10; o.maxEntries = 2; history(k, o, 4); }
PROP(C11, big, 4000, 80000) { GenOpt o; o.depth = 2 + k.c.below(3); o.ptrPct = 60; o.maxEntries = 80; o.widePct = 40; o.wideMax = 100; o.longStrPct = 20; o.recursePct = 5; history(k, o, 4); }
// data put together from the client's allocator, with every pointer set or not
static void built11(Case &k, GenOpt o) {
	Choices &c = k.c; Schema S; S.topPtr = o.longMax || !c.p(25); o.ptrPct = 20 + c.below(70); o.nullPct = 50; genSchema(c, S, o);
	Val v = genVal(c, S, S.top, o); if (c.p(60)) plantNulls(c, S.top, v, 2 + c.below(40));
	Rig r(0); Arena a; auto inner = [&](size_t n) { u8 *p = (u8 *)TA::fn(&r.ta, nullptr, n ? n : 1); memset(p, 0, n); return p; };
	auto &s = S.top; unsigned cnt = s.type == CYAML_SEQUENCE ? v.kids.size() : 0; void *data;
	k.desc = "schema: " + showSchema(S, s) + "\nvalue: " + showVal(s, v) + "\n";
	if (S.topPtr) data = buildTop(S, v, inner, &cnt);
	else { size_t n = slotSize(s); if (!n) throw Discard{}; u8 *p = a.alloc()(n); storeVal(s, v, p, inner); data = p; }
	size_t n = r.ta.live.size(); k.nontrivial = n >= 2; k.label(sfmt("blocks:%s", n == 0 ? "0" : n < 2 ? "1" : n < 10 ? "2-9" : "10+")); k.label(S.topPtr ? "pointer" : "in place");
	doFree(r, S, data, cnt);
}
PROP(C11, built, 150000, 2000000) { GenOpt o; o.depth = 1 + k.c.below(5); built11(k, o); }
PROP(C11, long, 100, 4000) { GenOpt o; o.longMax = 80000; o.ptrPct = 80; if (k.c.p(60)) { history(k, o, 3); } else built11(k, o); }
