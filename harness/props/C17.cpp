#include "../gen.h"

static void presentations(Case &k, const Schema &S, u32 cfg, const Node &n, int times) {
	Choices &c = k.c; vector<string> seen; Model m0; k.evals = 0; cyaml_err_t err0 = CYAML_OK; string first; int kinds[] = {Writer::ANY, Writer::EMITTER, Writer::OWN, Writer::ANY, Writer::OWN, Writer::EMITTER};
	Rig keep(cfg); LoadRes a0;
	for (int i = 0; i < times; i++) {
		Writer w; w.kind = (decltype(w.kind))kinds[i % 6]; w.tailPct = 8; string how; string t; t = writeNode(c, n, w, &how); k.label("written-by:" + how);
		k.desc = caseText(S, cfg, t); if (i) k.desc += "other presentation: " + quoted(first) + "\n";
		Model m = modelText(S, cfg, t); if (m.ambiguous || m.tooBig) throw Discard{};
		Rig r(cfg, c.p(5) ? CYAML_LOG_DEBUG : CYAML_LOG_ERROR); r.log.keep = false; LoadRes a; k.evals++;
		if (!i) { checkAgainst(keep, S, t, m, &a0, false); m0 = m; first = t; err0 = a0.err; k.label("outcome:" + errName(err0)); continue; }
		if (t != first) k.nontrivial = true;
		checkAgainst(r, S, t, m, &a, false);
		CHECK(a.err == err0, "one presentation gives %s, the other %s", errName(err0).c_str(), errName(a.err).c_str());
		if (a.err) continue;
		MatchCtx mc; mc.ta = &r.ta; CHECK(matchTop(S.top, a.data, m0.val, mc, true), "the presentations give different data: %s", mc.err.c_str()); CHECK(a.count == a0.count, "the presentations give different counts");
		doFree(r, S, a.data, a.count);
	}
	if (!err0) doFree(keep, S, a0.data, a0.count);
}
static void conforming(Case &k, GenOpt o, int times) {
	Choices &c = k.c; Schema S; genSchema(c, S, o); u32 cfg = genCfg(c, 15); Expr e; e.cfgFlags = cfg; Val v = genVal(c, S, S.top, o); Node n = express(c, S, S.top, v, e); if (!S.longLen && nodeCount(n) > 800) throw Discard{};
	if (!S.longLen && c.p(15)) addAliases(c, n, 15, c.p(30)); if (c.p(12)) mutateNode(c, S, cfg, n);
	presentations(k, S, cfg, n, times);
}
PROP(C17, conforming, 22000, 1200000) { Choices &c = k.c; GenOpt o; o.depth = 1 + c.below(5); o.casePct = 5; o.maxFields = 4; conforming(k, o, 4); }
PROP(C17, deep, 2500, 120000) { Choices &c = k.c; GenOpt o; o.depth = 6 + c.below(15); o.chainPct = 75; o.maxFields = 3; o.recursePct = 20; o.optPct = 12; o.nullPct = 10; o.maxEntries = 3; conforming(k, o, 3); }
PROP(C17, long, 40, 2000) { Choices &c = k.c; GenOpt o; o.longMax = 70000; conforming(k, o, 2); }
// texts whose writing matters: strings and names of all kinds, null words, empty text
PROP(C17, scalars, 24000, 1200000) {
	Choices &c = k.c; GenOpt o; o.depth = 1 + c.below(2); o.types = 1 << CYAML_STRING | 1 << CYAML_MAPPING | 1 << CYAML_SEQUENCE | 1 << CYAML_ENUM | 1 << CYAML_BOOL | 1 << CYAML_FLOAT | 1 << CYAML_INT; o.nullPct = 60; o.ptrPct = 60; o.longStrPct = 8; o.maxFields = 3; conforming(k, o, 5);
}
PROP(C17, violating, 24000, 1200000) {
	Choices &c = k.c; Schema S; GenOpt o; o.depth = 1 + c.below(4); o.maxFields = 4; o.strictPct = 40; genSchema(c, S, o); u32 cfg = genCfg(c, 20); if (c.p(5)) cfg |= CYAML_CFG_NO_ALIAS;
	Node n; if (c.p(50)) n = looseNode(c, S, S.top, cfg, 0); else { Expr e; e.cfgFlags = cfg; Val v = genVal(c, S, S.top, o); n = express(c, S, S.top, v, e); int m = 1 + c.below(3); while (m--) mutateNode(c, S, cfg, n); }
	if (nodeCount(n) > 800) throw Discard{};
	presentations(k, S, cfg, n, 4);
}
