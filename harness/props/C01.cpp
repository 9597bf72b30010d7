#include "../gen.h"

static void one(Case &k, const GenOpt &o, bool bigCfg) {
	Choices &c = k.c;
	Schema S; genSchema(c, S, o);
	u32 cfg = genCfg(c, bigCfg ? 25 : 0);
	Expr e; e.cfgFlags = cfg;
	Writer w; w.tailPct = 2;
	Doc d = genDoc(c, S, o, e, w);
	k.desc = caseText(S, cfg, d.text);
	Model m = modelText(S, cfg, d.text);
	if (m.ambiguous) throw Discard{};
	if (m.err) { k.label("harness:model-refuses:" + m.why.substr(0, 40)); throw Discard{}; }
	Rig r(cfg);
	LoadRes res;
	checkAgainst(r, S, d.text, m, &res, false);
	// the value the document was generated from, independently of the interpreter
	MatchCtx mc; mc.ta = &r.ta;
	CHECK(matchTop(S.top, res.data, d.v, mc, true), "loaded data differs from the value the document was made from: %s", mc.err.c_str());
	CHECK(r.log.errors == 0, "successful load logged an error: %s", r.log.errorText().c_str());
	doFree(r, S, res.data, res.count);
	k.nontrivial = m.scalars >= 2 && m.maxDepth >= 1;
	k.label("written-by:" + d.how);
	k.label(sfmt("depth:%llu", (unsigned long long)(m.maxDepth > 9 ? 9 : m.maxDepth)));
	k.label("scalars", m.scalars); k.label("nulls", m.nulls); k.label("defaults", m.defaults);
}
PROP(C01, conform, 90000, 4000000) {
	GenOpt o; o.depth = 2 + k.c.below(4); o.casePct = 8; o.stylePct = 3; o.cbPct = 4;
	one(k, o, true);
}
PROP(C01, wide, 4000, 200000) {
	GenOpt o; o.depth = 2; o.widePct = 60; o.wideMax = 70 + k.c.below(60); o.maxFields = 20;
	one(k, o, false);
}
PROP(C01, deep, 25000, 1000000) {
	GenOpt o; o.depth = 8 + k.c.below(20); o.chainPct = 80; o.maxFields = 3; o.recursePct = 20; o.optPct = 12; o.nullPct = 10; o.maxEntries = 2;
	one(k, o, false);
}
PROP(C01, sequences, 40000, 2000000) {
	GenOpt o; o.depth = 4; o.maxEntries = 40; o.maxFields = 3; o.types = 1 << CYAML_SEQUENCE | 1 << CYAML_SEQUENCE_FIXED | 1 << CYAML_MAPPING | 1 << CYAML_INT | 1 << CYAML_UINT | 1 << CYAML_STRING | 1 << CYAML_FLOAT | 1 << CYAML_ENUM;
	one(k, o, false);
}
PROP(C01, long, 90, 4000) { GenOpt o; o.longMax = 80000; o.cbPct = 2; one(k, o, k.c.p(20)); }
