#include "../gen.h"

// Runs one operation; returns a text saying everything about its result.
struct FaultOp { const char *name; std::function<string()> run; };
static void faults(Case &k, Rig &r, const FaultOp &op, int limit, const std::function<void()> &intact) {
	Choices &c = k.c; r.ta.failAt = 0; u64 b0 = r.ta.allocs; string normal = op.run(); u64 n = r.ta.allocs - b0; k.evals++;
	k.label(sfmt("%s:%s", op.name, normal.substr(0, normal.find(' ')).c_str())); k.label(sfmt("%s requests", op.name), n);
	intact(); size_t held = r.ta.live.size();
	vector<u64> at; if (n <= (u64)limit) for (u64 i = 1; i <= n; i++) at.push_back(i); else { for (int i = 0; i < limit; i++) at.push_back(1 + c.below(n)); k.label("sampled points"); }
	for (u64 i : at) for (int persist = 0; persist < 2; persist++) {
		r.ta.failed = false; r.ta.failAt = r.ta.allocs + i; r.ta.failFrom = persist;
		string got; string where = sfmt("%s with allocation request %llu of %llu failing%s", op.name, (unsigned long long)i, (unsigned long long)n, persist ? " and all after it" : "");
		try { got = op.run(); } catch (Fail &f) { fail("%s: %s", where.c_str(), f.msg.c_str()); }
		bool hit = r.ta.failed; r.ta.failAt = 0; r.ta.failFrom = false; k.evals++;
		CHECK(hit, "%s: the request was not made", where.c_str());
		CHECK(got.rfind("OOM", 0) == 0 || got == normal, "%s gave %s", where.c_str(), got.substr(0, 300).c_str());
		k.label(got.rfind("OOM", 0) == 0 ? "out of memory" : "not needed");
		try { intact(); } catch (Fail &f) { fail("%s: %s", where.c_str(), f.msg.c_str()); }
		CHECK(r.ta.live.size() == held, "%s: %zu blocks are live, %zu before", where.c_str(), r.ta.live.size(), held);
		if (c.p(n > 20 ? 15 : 100)) { string again; try { again = op.run(); } catch (Fail &f) { fail("repeating %s: %s", where.c_str(), f.msg.c_str()); } k.evals++; CHECK(again == normal, "after %s, repeating it gave %s instead of %s", where.c_str(), again.substr(0, 300).c_str(), normal.substr(0, 300).c_str()); }
	}
	if (n >= 2) k.nontrivial = true;
}
static void loads(Case &k, GenOpt o, int aliasPct, int breakPct, int limit) {
	Choices &c = k.c; Schema S; genSchema(c, S, o); u32 cfg = genCfg(c, 15); Expr e; e.cfgFlags = cfg; e.absentPct = 40;
	Writer w; w.kind = Writer::EMITTER; w.encodings = c.p(10); Doc d; string text;
	{ Val v = genVal(c, S, S.top, o); Node n = express(c, S, S.top, v, e); if (c.p(aliasPct)) addAliases(c, n, 20 + c.below(60), c.p(30)); if (c.p(breakPct)) mutateNode(c, S, cfg, n); text = writeNode(c, n, w); }
	if (c.p(breakPct / 2)) text = mutateBytes(c, text);
	k.desc = caseText(S, cfg, text); Model m = modelText(S, cfg, text); if (m.ambiguous) throw Discard{};
	Rig r(cfg); r.log.keep = false; k.evals = 0;
	FaultOp op{"load", [&]() -> string {
		LoadRes res = doLoad(r, S, text); if (res.err) return errName(res.err);
		MatchCtx mc; mc.ta = &r.ta; CHECK(matchTop(S.top, res.data, m.val, mc, true), "loaded data is wrong: %s", mc.err.c_str());
		u64 f = r.ta.failAt; r.ta.failAt = 0; doFree(r, S, res.data, res.count); r.ta.failAt = f; return sfmt("OK %u", res.count); }};
	faults(k, r, op, limit, [] {});
	if (m.aliasCount) k.label("aliases", m.aliasCount);
}
static void saves(Case &k, GenOpt o, int limit) {
	Choices &c = k.c; Schema S; genSchema(c, S, o); u32 cfg = genCfg(c, 30); Val v = genVal(c, S, S.top, o); if (c.p(10)) plantNulls(c, S.top, v, 15);
	Arena a; unsigned cnt = 0; void *p = buildTop(S, v, a.alloc(), &cnt); a.snapshot();
	k.desc = "schema: " + showSchema(S, S.top) + "\nconfig: " + cfgText(cfg) + "\nvalue: " + showVal(S.top, v) + "\n"; k.evals = 0;
	Rig r(cfg); r.log.keep = false; auto intact = [&] { CHECK(a.same(), "the data was changed"); };
	faults(k, r, {"save", [&]() -> string { SaveRes s = doSave(r, S, p, cnt); return errName(s.err) + " " + s.out; }}, limit, intact);
	unsigned cc = S.top.type == CYAML_SEQUENCE_FIXED ? S.top.sequence.max : cnt;
	faults(k, r, {"copy", [&]() -> string {
		CopyRes x = doCopy(r, S, p, cc); if (x.err) return errName(x.err);
		MatchCtx mc; mc.ta = &r.ta; mc.checkGaps = false; CHECK(matchTop(S.top, x.data, v, mc, true), "the copy differs: %s", mc.err.c_str());
		u64 f = r.ta.failAt; r.ta.failAt = 0; doFree(r, S, x.data, cc); r.ta.failAt = f; return "OK copied"; }}, limit, intact);
}
PROP(C12, loads, 4000, 160000) { GenOpt o; o.depth = 1 + k.c.below(5); o.ptrPct = 50; loads(k, o, 0, 25, k.c.p(90) ? 60 : 400); }
PROP(C12, aliases, 4000, 160000) { GenOpt o; o.depth = 2 + k.c.below(3); o.ptrPct = 50; loads(k, o, 100, 20, 80); }
PROP(C12, saves, 6000, 240000) { GenOpt o; o.depth = 1 + k.c.below(5); o.ptrPct = 50; saves(k, o, 60); }
PROP(C12, big, 500, 24000) { GenOpt o; o.depth = 2 + k.c.below(3); o.ptrPct = 50; o.maxEntries = 60; o.widePct = 40; o.wideMax = 100; o.longStrPct = 20; o.recursePct = 4; if (k.c.p(50)) loads(k, o, 30, 10, 60); else saves(k, o, 60); }
PROP(C12, deep, 1200, 50000) { GenOpt o; o.depth = 8 + k.c.below(25); o.chainPct = 85; o.maxFields = 3; o.recursePct = 25; o.optPct = 12; o.nullPct = 10; o.maxEntries = 2; if (k.c.p(50)) loads(k, o, 30, 10, 80); else saves(k, o, 80); }
PROP(C12, long, 24, 1500) { GenOpt o; o.ptrPct = 50; o.longMax = 4000; if (k.c.p(8)) o.longMax = 70000; int lim = o.longMax > 4000 ? 2 : 6; if (k.c.p(50)) loads(k, o, 0, 10, lim); else saves(k, o, lim); }

// ---- memory libyaml asks for itself: its failures end in libyaml's errors
static void yamlFaults(Case &k, Rig &r, const char *name, const std::function<string()> &run, u64 init, const char *initErr, const std::set<string> &errs, int limit, const std::function<void()> &intact) {
	Choices &c = k.c; YamlAlloc &y = g_yamlAlloc; y = YamlAlloc(); string normal = run(); u64 n = y.count; k.evals++; intact(); size_t held = r.ta.live.size();
	k.label(sfmt("libyaml %s:%s", name, normal.substr(0, normal.find(' ')).c_str())); k.label(sfmt("libyaml %s requests", name), n);
	vector<u64> at; for (u64 i = 1; i <= n; i++) if (n <= (u64)limit || i <= init + 2 || c.below(n) < (u64)limit) at.push_back(i);
	for (u64 i : at) for (int persist = 0; persist < 2; persist++) {
		string where = sfmt("%s with request %llu of %llu that libyaml makes failing%s", name, (unsigned long long)i, (unsigned long long)n, persist ? " and all after it" : ""), got;
		y = YamlAlloc(); y.failAt = i; y.from = persist;
		struct Off { ~Off() { g_yamlAlloc = YamlAlloc(); } } off;
		try { got = run(); } catch (Fail &f) { fail("%s: %s", where.c_str(), f.msg.c_str()); }
		bool hit = y.failed; y = YamlAlloc(); k.evals++; string code = got.substr(0, got.find(' '));
		CHECK(hit, "%s: the request was not made", where.c_str());
		if (i <= init) CHECK(code == initErr, "%s gave %s, not %s", where.c_str(), got.substr(0, 200).c_str(), initErr);
		CHECK(errs.count(code) || got == normal, "%s gave %s, without it %s", where.c_str(), got.substr(0, 200).c_str(), normal.substr(0, 200).c_str());
		k.label(errs.count(code) ? "libyaml gives " + code : string("libyaml did not need it"));
		try { intact(); } catch (Fail &f) { fail("%s: %s", where.c_str(), f.msg.c_str()); }
		CHECK(r.ta.live.size() == held, "%s: %zu blocks are live, %zu before", where.c_str(), r.ta.live.size(), held);
		if (c.p(10)) { string again; try { again = run(); } catch (Fail &f) { fail("repeating %s: %s", where.c_str(), f.msg.c_str()); } k.evals++; CHECK(again == normal, "after %s, repeating it gave %s", where.c_str(), again.substr(0, 200).c_str()); }
	}
	if (n > init) k.nontrivial = true;
}
static u64 initRequests(bool emitter) {
	g_yamlAlloc = YamlAlloc(); yaml_parser_t p; yaml_emitter_t e;
	{ MallocWindow w; if (emitter) { yaml_emitter_initialize(&e); yaml_emitter_delete(&e); } else { yaml_parser_initialize(&p); yaml_parser_delete(&p); } }
	u64 n = g_yamlAlloc.count; g_yamlAlloc = YamlAlloc(); return n;
}
PROP(C12, libyaml, 700, 30000) {
	Choices &c = k.c; u64 pi = initRequests(false), ei = initRequests(true); if (!pi || !ei) throw Discard{}; // not linked with that libyaml
	Schema S; GenOpt o; o.depth = 1 + c.below(4); o.ptrPct = 50; genSchema(c, S, o); u32 cfg = genCfg(c, 20); Rig r(cfg); r.log.keep = false; k.evals = 0;
	if (c.p(60)) {
		Expr e; e.cfgFlags = cfg; e.absentPct = 40; Writer w; w.kind = Writer::EMITTER; w.encodings = c.p(15); string text;
		{ Val v = genVal(c, S, S.top, o); Node n = express(c, S, S.top, v, e); if (c.p(50)) addAliases(c, n, 20 + c.below(60), c.p(30)); if (c.p(20)) mutateNode(c, S, cfg, n); text = writeNode(c, n, w); }
		k.desc = caseText(S, cfg, text); Model m = modelText(S, cfg, text); if (m.ambiguous) throw Discard{};
		yamlFaults(k, r, "load", [&]() -> string {
			LoadRes res = doLoad(r, S, text); if (res.err) return errName(res.err);
			MatchCtx mc; mc.ta = &r.ta; CHECK(matchTop(S.top, res.data, m.val, mc, true), "loaded data is wrong: %s", mc.err.c_str());
			doFree(r, S, res.data, res.count); return sfmt("OK %u", res.count); }, pi, "LIBYAML_PARSER_INIT", {"LIBYAML_PARSER_INIT", "LIBYAML_PARSER", "OOM"}, 60, [] {});
		if (m.aliasCount) k.label("aliases", m.aliasCount);
	} else {
		Val v = genVal(c, S, S.top, o); Arena a; unsigned cnt = 0; void *p = buildTop(S, v, a.alloc(), &cnt); a.snapshot();
		k.desc = "schema: " + showSchema(S, S.top) + "\nconfig: " + cfgText(cfg) + "\nvalue: " + showVal(S.top, v) + "\n";
		yamlFaults(k, r, "save", [&]() -> string { SaveRes s = doSave(r, S, p, cnt); return errName(s.err) + " " + s.out; }, ei, "LIBYAML_EMITTER_INIT", {"LIBYAML_EMITTER_INIT", "LIBYAML_EVENT_INIT", "LIBYAML_EMITTER", "OOM"}, 60, [&] { CHECK(a.same(), "the data was changed"); });
	}
}
