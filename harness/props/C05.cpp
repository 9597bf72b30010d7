#include "../gen.h"

static void blobsSame(const Schema &S, const vector<vector<u8>> &before) {
	size_t i = 0; for (auto &b : S.blobs) { CHECK(b == before[i], "loading changed the schema's default data"); i++; }
}
// every optional member of the tree that is left out; counts
static void countAbsent(const Schema &S, const cyaml_schema_value_t &s, const Node &n, u32 cfg, u64 &absent, u64 &defs, u64 &deep) {
	if (n.k == Node::SEQ && isSeq(s)) { for (auto &x : n.items) countAbsent(S, *s.sequence.entry, x, cfg, absent, defs, deep); return; }
	if (n.k != Node::MAP || s.type != CYAML_MAPPING) return;
	for (auto f = s.mapping.fields; f->key; f++) {
		const Node *at = nullptr;
		for (size_t i = 0; i + 1 < n.items.size(); i += 2) if (strEq(s, cfg, n.items[i].text, f->key)) at = &n.items[i + 1];
		if (at) { countAbsent(S, f->value, *at, cfg, absent, defs, deep); continue; }
		absent++; auto m = S.metaOf(&f->value);
		if (m && m->hasDefault) { defs++; if (f->value.type >= CYAML_MAPPING && f->value.type != CYAML_BITFIELD) deep++; }
	}
}
static void one(Case &k, GenOpt o, bool dropRequired) {
	Choices &c = k.c; Schema S; genSchema(c, S, o);
	u32 cfg = genCfg(c, 10); Expr e; e.cfgFlags = cfg; e.absentPct = c.p(25) ? 100 : c.p(20) ? 0 : 60;
	Writer w; w.kind = Writer::EMITTER; w.encodings = w.tags = false;
	vector<vector<u8>> before(S.blobs.begin(), S.blobs.end());
	Doc d = genDoc(c, S, o, e, w);
	k.desc = caseText(S, cfg, d.text);
	Model m = modelText(S, cfg, d.text);
	if (m.ambiguous || m.err) throw Discard{};
	Rig r(cfg); LoadRes res;
	checkAgainst(r, S, d.text, m, &res, false);
	MatchCtx mc; mc.ta = &r.ta;
	CHECK(matchTop(S.top, res.data, d.v, mc, true), "loaded data differs from what document and defaults say: %s", mc.err.c_str());
	blobsSame(S, before);
	// the caller's own storage: a second load is unaffected by writing over the first
	if (c.p(30)) {
		for (auto &a : r.ta.live) memset(a.first, 0x5a, a.second);
		blobsSame(S, before);
		r.ta.reset();
		LoadRes r2; checkAgainst(r, S, d.text, m, &r2, false);
		doFree(r, S, r2.data, r2.count);
	} else doFree(r, S, res.data, res.count);
	blobsSame(S, before);
	u64 absent = 0, defs = 0, deep = 0; countAbsent(S, S.top, d.n, cfg, absent, defs, deep);
	k.nontrivial = absent > 0; k.label("absent", absent); k.label("defaults", defs); k.label("container-defaults", deep);
	if (!dropRequired) return;
	// leave out members one at a time: required ones are missed, optional ones are not
	vector<Ref> rs; collect(S.top, cfg, d.n, rs);
	vector<std::pair<size_t, size_t>> cut;
	for (size_t i = 0; i < rs.size(); i++) if (rs[i].n->k == Node::MAP && rs[i].s->type == CYAML_MAPPING) for (size_t j = 0; j + 1 < rs[i].n->items.size(); j += 2) cut.push_back({i, j});
	for (int t = 0; t < 6 && !cut.empty(); t++) {
		auto p = cut[c.below(cut.size())];
		Node n2 = d.n; vector<Ref> r2; collect(S.top, cfg, n2, r2);
		Node &mn = *r2[p.first].n; string key = mn.items[p.second].text;
		mn.items.erase(mn.items.begin() + p.second, mn.items.begin() + p.second + 2);
		if (c.p(15) && mn.items.size()) { size_t j = c.below(mn.items.size() / 2) * 2; mn.items.erase(mn.items.begin() + j, mn.items.begin() + j + 2); }
		string text = writeNode(c, n2, w);
		k.desc = caseText(S, cfg, text);
		Model m2 = modelText(S, cfg, text);
		checkAgainst(r, S, text, m2); k.evals++;
		if (!m2.ambiguous) k.label("drop:" + errName(m2.err));
	}
	k.desc = caseText(S, cfg, d.text);
}
PROP(C05, subsets, 60000, 2500000) { GenOpt o; o.optPct = 80; o.defPct = 70; o.depth = 2 + k.c.below(4); o.maxFields = 8; one(k, o, false); }
PROP(C05, dropped, 20000, 900000) { GenOpt o; o.optPct = 45; o.defPct = 50; o.depth = 2 + k.c.below(3); o.maxFields = 6; one(k, o, true); }
PROP(C05, wide, 3000, 150000) { GenOpt o; o.optPct = 60 + 40 * k.c.below(2); o.defPct = 50; o.depth = 1 + k.c.below(2); o.widePct = 80; o.wideMax = 20 + k.c.below(130); o.maxFields = 30; o.recursePct = 2; one(k, o, k.c.p(30)); }
// scalar and container defaults of all kinds, in entries of sequences
PROP(C05, entries, 20000, 900000) {
	GenOpt o; o.optPct = 90; o.defPct = 85; o.depth = 4; o.maxFields = 4; o.ptrPct = 50; o.nullPct = 40; o.maxEntries = 6;
	o.topTypes = 1 << CYAML_SEQUENCE | 1 << CYAML_SEQUENCE_FIXED; one(k, o, false);
}
