#include "../gen.h"

static GenOpt opts(Choices &c) { GenOpt o; o.cbPct = 40 + 60 * c.below(2); o.depth = 1 + c.below(5); o.maxFields = 5; o.optPct = 30; o.casePct = 5; return o; }
static const char *kinds[] = {"int", "uint", "float", "string", "mapping", "sequence"};
static void noRejects(Schema &S) { for (auto &m : S.meta) m.second.rejMod = 0; }
// all accept, then each single call refuses in turn
static void enumerate(Case &k, const GenOpt &o) {
	Choices &c = k.c; Schema S; genSchema(c, S, o); noRejects(S);
	u32 cfg = genCfg(c, 10); Expr e; e.cfgFlags = cfg; Writer w; w.encodings = false; w.tailPct = 2;
	Val v = genVal(c, S, S.top, o); Node n = express(c, S, S.top, v, e); if (!S.longLen && nodeCount(n) > 800) throw Discard{};
	int al = !S.longLen && c.p(20) ? addAliases(c, n, 10, false) : 0;
	string text = writeNode(c, n, w);
	k.desc = caseText(S, cfg, text);
	Model m = modelText(S, cfg, text);
	if (m.ambiguous) throw Discard{};
	Rig r(cfg); LoadRes res;
	checkAgainst(r, S, text, m, &res);
	if (m.err) { k.label("outcome:" + errName(m.err)); return; }
	size_t N = m.cbs.size();
	for (auto &x : m.cbs) k.label(string("call:") + kinds[x.kind]);
	vector<size_t> at; if (N <= 14) for (size_t i = 0; i < N; i++) at.push_back(i); else { at = {0, N - 1}; for (int i = 0; i < (S.longLen ? 3 : 10); i++) at.push_back(c.below(N)); }
	string base = k.desc;
	for (size_t i : at) {
		k.desc = base + sfmt("the %zuth callback refuses (%s)\n", i + 1, kinds[m.cbs[i].kind]);
		r.cb.refuseAt = i; r.log.clear();
		LoadRes x = doLoad(r, S, text, &m.cbs); k.evals++;
		CHECK(x.err == CYAML_ERR_INVALID_VALUE, "load returned %s although callback %zu refused; expected INVALID_VALUE", errName(x.err).c_str(), i + 1);
		CHECK(r.cb.calls.size() == i + 1, "%zu callbacks ran although number %zu refused", r.cb.calls.size(), i + 1);
		for (size_t j = 0; j <= i; j++) { auto &a = r.cb.calls[j]; auto &b = m.cbs[j]; CHECK(a.schema == b.schema && a.kind == b.kind && (a.kind == 4 || a.num == b.num) && (a.kind != 3 || a.str == b.str), "callback %zu differs from the run that accepted; calls:%s", j + 1, showCalls(r.cb.calls).c_str()); }
		CHECK(r.log.errors > 0, "refusal by a callback logged no error");
		k.label(string("refused:") + kinds[m.cbs[i].kind]);
	}
	r.cb.refuseAt = -1; k.desc = base;
	if (al) k.label("with aliases");
	k.nontrivial = N >= 2;
}
PROP(C06, enumerate, 26000, 1000000) { enumerate(k, opts(k.c)); }
// each type with a callback in each position, in its nullable and plain forms
PROP(C06, long, 60, 3000) { GenOpt o = opts(k.c); o.longMax = 9000; enumerate(k, o); }
PROP(C06, kinds, 24000, 900000) {
	Choices &c = k.c; GenOpt o = opts(c); o.cbPct = 100; o.depth = 1; o.nullPct = 50; o.rangePct = 30; o.defPct = 60;
	Schema S; cyaml_schema_value_t v; int t = c.below(CYAML_IGNORE); genValue(c, S, v, t, o, 1, false); noRejects(S);
	Wrap w = wrapSchema(c, S, v); u32 cfg = genCfg(c, 8); Rig r(cfg);
	Writer wr; wr.kind = Writer::EMITTER; wr.encodings = wr.tags = false; k.evals = 0;
	for (int i = 0; i < 8; i++) {
		Node n;
		if (c.p(60)) { Val x = genVal(c, S, *w.s, o, 0); Expr e; e.cfgFlags = cfg; n = express(c, S, *w.s, x, e); } else n = looseNode(c, S, v, cfg, 1);
		string text; try { text = writeNode(c, wrapNode(w, n), wr); } catch (Discard &) { continue; }
		k.desc = caseText(S, cfg, text);
		Model m = modelText(S, cfg, text);
		checkAgainst(r, S, text, m); k.evals++;
		if (m.ambiguous) continue;
		k.nontrivial |= !m.cbs.empty(); k.label("outcome:" + errName(m.err)); k.label(m.cbs.empty() ? "not called" : "called");
		for (size_t j = 0; j < m.cbs.size() && j < 3; j++) {
			r.cb.refuseAt = j; LoadRes x = doLoad(r, S, text, &m.cbs); k.evals++; r.cb.refuseAt = -1;
			CHECK(x.err == CYAML_ERR_INVALID_VALUE, "load returned %s although callback %zu refused", errName(x.err).c_str(), j + 1);
			CHECK(r.cb.calls.size() == j + 1, "%zu callbacks ran although number %zu refused", r.cb.calls.size(), j + 1);
		}
	}
	k.label(sfmt("type:%d", t)); k.label(sfmt("position:%d", w.pos));
}
// verdicts by value, in documents that may also be wrong in other ways
PROP(C06, verdicts, 100000, 4000000) {
	Choices &c = k.c; GenOpt o = opts(c); Schema S; genSchema(c, S, o);
	u32 cfg = genCfg(c, 15); Node n;
	if (c.p(60)) { Expr e; e.cfgFlags = cfg; Val v = genVal(c, S, S.top, o); n = express(c, S, S.top, v, e); if (nodeCount(n) > 1500) throw Discard{}; if (c.p(50)) mutateNode(c, S, cfg, n); }
	else n = looseNode(c, S, S.top, cfg, 0);
	if (nodeCount(n) > 1500) throw Discard{};
	if (c.p(12)) addAliases(c, n, 10, false);
	Writer w; w.encodings = false; string text = writeNode(c, n, w);
	k.desc = caseText(S, cfg, text);
	Model m = modelText(S, cfg, text);
	Rig r(cfg); checkAgainst(r, S, text, m);
	if (m.ambiguous) return;
	bool refused = !m.cbs.empty() && !m.cbs.back().accepted;
	k.label(refused ? "refused by callback" : "outcome:" + errName(m.err)); k.label("calls", m.cbs.size());
	k.nontrivial = m.cbs.size() >= 2;
}
