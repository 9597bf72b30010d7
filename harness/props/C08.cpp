#include "../gen.h"

static void again(Case &k, Schema &S, u32 cfg, const Val &v, const void *data, unsigned count, Rig &r) {
	if (!okToSave(S, v)) { k.label("not saveable: no data"); return; }
	if (!complete(S.top, v)) throw Discard{};
	SavedInfo a = checkSave(r, S, v, data, count); k.evals++;
	CHECK(a.res.err == CYAML_OK, "saving gave %s (%s)", errName(a.res.err).c_str(), a.pred.why.c_str());
	string base = k.desc; k.desc += "\nsaved: " + quoted(a.res.out, 3000) + "\n";
	Rig r2(cfg); r2.cb.acceptAll = true;
	LoadRes b = doLoad(r2, S, a.res.out); k.evals++;
	CHECK(b.err == CYAML_OK, "loading the saved text gives %s", errName(b.err).c_str());
	CHECK(S.top.type != CYAML_SEQUENCE || b.count == count, "re-read count is %u, expected %u", b.count, count);
	MatchCtx m; m.ta = &r2.ta;
	CHECK(matchTop(S.top, b.data, v, m, true), "re-read data differs: %s", m.err.c_str());
	SavedInfo a2 = checkSave(r2, S, v, b.data, b.count); k.evals++;
	CHECK(a2.res.err == CYAML_OK, "saving again gave %s", errName(a2.res.err).c_str());
	CHECK(a2.res.out == a.res.out, "saving what was loaded back gives other bytes: %s", quoted(a2.res.out, 3000).c_str());
	doFree(r2, S, b.data, b.count);
	k.desc = base;
	k.label(sfmt("style:%s%s%s", cfg & CYAML_CFG_STYLE_BLOCK ? "block " : "", cfg & CYAML_CFG_STYLE_FLOW ? "flow " : "", cfg & CYAML_CFG_DOCUMENT_DELIM ? "delim" : ""));
}
static u32 styles(Choices &c) { u32 f = 0; if (c.p(30)) f |= CYAML_CFG_STYLE_BLOCK; if (c.p(30)) f |= CYAML_CFG_STYLE_FLOW; if (c.p(30)) f |= CYAML_CFG_DOCUMENT_DELIM; if (c.p(15)) f |= CYAML_CFG_CASE_INSENSITIVE; if (c.p(10)) f |= CYAML_CFG_IGNORE_UNKNOWN_KEYS; return f; }
static void loaded(Case &k, GenOpt o) {
	Choices &c = k.c; o.roundTrip = true; Schema S; genSchema(c, S, o); u32 cfg = styles(c);
	Expr e; e.cfgFlags = cfg; Writer w; w.encodings = c.p(10);
	Doc d = genDoc(c, S, o, e, w); k.desc = caseText(S, cfg, d.text);
	Model m = modelText(S, cfg, d.text); if (m.ambiguous || m.err || !roundTrips(S, S.top, d.v)) throw Discard{};
	Rig r(cfg); LoadRes res; checkAgainst(r, S, d.text, m, &res, false);
	again(k, S, cfg, d.v, res.data, res.count, r);
	doFree(r, S, res.data, res.count);
	k.nontrivial = m.scalars >= 2;
}
static void built(Case &k, GenOpt o) {
	Choices &c = k.c; o.roundTrip = true; Schema S; genSchema(c, S, o); u32 cfg = styles(c);
	Val v = genVal(c, S, S.top, o);
	if (!roundTrips(S, S.top, v)) throw Discard{};
	Arena a; unsigned cnt = 0; void *p = buildTop(S, v, a.alloc(), &cnt); a.snapshot();
	k.desc = "schema: " + showSchema(S, S.top) + "\nconfig: " + cfgText(cfg) + "\nvalue: " + showVal(S.top, v) + "\n";
	Rig r(cfg); again(k, S, cfg, v, p, cnt, r);
	CHECK(a.same(), "saving changed the data");
	k.nontrivial = v.k == Val::MAP ? v.kids.size() >= 2 : v.k == Val::SEQ && v.kids.size() >= 1;
}
PROP(C08, loaded, 24000, 1000000) { GenOpt o; o.depth = 2 + k.c.below(4); o.casePct = 6; o.stylePct = 10; o.cbPct = 5; loaded(k, o); }
PROP(C08, built, 36000, 1500000) { GenOpt o; o.depth = 1 + k.c.below(5); o.casePct = 6; o.stylePct = 15 * k.c.below(3); built(k, o); }
PROP(C08, scalars, 20000, 800000) { GenOpt o; o.depth = 1; o.maxFields = 12; o.strictPct = 40; o.stylePct = 20; o.types = k.c.p(40) ? 1u << CYAML_FLOAT | 1 << CYAML_MAPPING : k.c.p(50) ? 1u << CYAML_STRING | 1 << CYAML_MAPPING : ~0u; o.oddSizePct = 40; built(k, o); }
PROP(C08, wide, 1500, 80000) { GenOpt o; o.depth = 2; o.widePct = 60; o.wideMax = 30 + k.c.below(100); o.maxEntries = 30; o.recursePct = 3; built(k, o); }
PROP(C08, deep, 6000, 250000) { GenOpt o; o.depth = 8 + k.c.below(20); o.chainPct = 80; o.maxFields = 3; o.recursePct = 20; o.optPct = 12; o.nullPct = 10; o.maxEntries = 2; o.stylePct = 3; built(k, o); }
PROP(C08, long, 40, 2000) { GenOpt o; o.stylePct = 2; o.longMax = 70000; built(k, o); }
