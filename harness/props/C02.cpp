#include "../gen.h"

static void check(Case &k, const Schema &S, u32 cfg, const string &text) {
	k.desc = caseText(S, cfg, text);
	Model m = modelText(S, cfg, text);
	if (modelTooBig(m)) throw Discard{};
	Rig r(cfg);
	LoadRes res;
	checkAgainst(r, S, text, m, &res);
	if (!m.ambiguous) {
		k.nontrivial = m.err != CYAML_OK;
		k.label("outcome:" + errName(m.err));
		if (m.err) { k.label(sfmt("error-depth:%zu", m.path.size() > 8 ? (size_t)8 : m.path.size())); CHECK(r.log.errors > 0, "load failed with %s but logged no error", errName(m.err).c_str()); }
	} else k.label("outcome:left-open");
}
static GenOpt opts(Choices &c) {
	GenOpt o; o.depth = 2 + c.below(4); o.casePct = 8; o.cbPct = 5; o.strictPct = 40; o.optPct = 30; o.rangePct = 55; o.maxFields = 5;
	return o;
}
static void mutated(Case &k, GenOpt o) {
	Choices &c = k.c; Schema S; genSchema(c, S, o);
	u32 cfg = genCfg(c, 20); if (c.p(4)) cfg |= CYAML_CFG_NO_ALIAS;
	Expr e; e.cfgFlags = cfg;
	Val v = genVal(c, S, S.top, o); Node n = express(c, S, S.top, v, e);
	if (!S.longLen && nodeCount(n) > 2000) throw Discard{};
	int muts = 1 + (c.p(25) ? c.below(3) : 0); while (muts--) k.label("mutation:" + mutateNode(c, S, cfg, n));
	if (!S.longLen && c.p(10)) addAliases(c, n, 8, false);
	Writer w; w.tailPct = 2;
	check(k, S, cfg, writeNode(c, n, w));
}
PROP(C02, mutated, 90000, 4000000) { mutated(k, opts(k.c)); }
// required members left out of wide mappings, whichever place they have
PROP(C02, wide, 1500, 120000) {
	Choices &c = k.c; Schema S; GenOpt o = opts(c); o.depth = 1 + c.below(2); o.widePct = 80; o.wideMax = c.p(50) ? 300 : 70; o.maxFields = 12; o.optPct = 15; o.recursePct = 2; genSchema(c, S, o);
	u32 cfg = genCfg(c, 15); Expr e; e.cfgFlags = cfg; Val v = genVal(c, S, S.top, o); Node n = express(c, S, S.top, v, e);
	vector<Ref> rs; collect(S.top, cfg, n, rs); vector<Node *> maps; size_t widest = 0; for (auto &r : rs) if (r.s && r.s->type == CYAML_MAPPING && r.n->k == Node::MAP && !r.n->items.empty()) { maps.push_back(r.n); widest = std::max(widest, r.n->items.size() / 2); }
	if (maps.empty()) throw Discard{};
	std::stable_sort(maps.begin(), maps.end(), [](Node *a, Node *b) { return a->items.size() > b->items.size(); }); Node &m = *maps[c.p(70) ? 0 : c.below(maps.size())]; size_t at = 2 * c.below(m.items.size() / 2);
	if (c.p(85)) m.items.erase(m.items.begin() + at, m.items.begin() + at + 2); else { Node a = m.items[at], b = m.items[at + 1]; m.items.push_back(a); m.items.push_back(b); }
	k.label(sfmt("widest:%zu", widest / 64 * 64)); Writer w; check(k, S, cfg, writeNode(c, n, w));
}
PROP(C02, long, 80, 4000) { GenOpt o = opts(k.c); o.cbPct = 2; o.longMax = 80000; mutated(k, o); }
PROP(C02, loose, 80000, 3600000) {
	Choices &c = k.c; Schema S; GenOpt o = opts(c); genSchema(c, S, o);
	u32 cfg = genCfg(c, 20);
	Node n = looseNode(c, S, S.top, cfg, 0);
	if (nodeCount(n) > 2000) throw Discard{};
	Writer w;
	check(k, S, cfg, writeNode(c, n, w));
}
PROP(C02, broken, 48000, 1800000) {
	Choices &c = k.c; Schema S; GenOpt o = opts(c); genSchema(c, S, o);
	u32 cfg = genCfg(c, 20);
	Expr e; e.cfgFlags = cfg; Writer w; w.tailPct = 10;
	Doc d = genDoc(c, S, o, e, w);
	string t = c.p(12) ? string(c.p(50) ? "" : c.p(50) ? "# nothing\n" : c.p(50) ? "---\n" : "--- ~\n...\n") : mutateBytes(c, d.text);
	check(k, S, cfg, t);
}
