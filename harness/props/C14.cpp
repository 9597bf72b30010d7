#include "../gen.h"
#include <algorithm>

static bool plainSame(const Node &a, const Node &b) {
	if (a.k != b.k || a.text != b.text || a.items.size() != b.items.size()) return false;
	for (size_t i = 0; i < a.items.size(); i++) if (!plainSame(a.items[i], b.items[i])) return false;
	return true;
}
struct Share {
	Choices &c; int pool, anchorPct, aliasPct, keyPct; Names names{c}; std::map<string, Node> defs; vector<string> open; int aliases = 0, redefined = 0, nested = 0, containers = 0; bool within = false;
	bool isOpen(const string &n) { return std::find(open.begin(), open.end(), n) != open.end(); }
	void go(Node &n, bool key, bool top) {
		if (!key || c.p(keyPct)) {
			vector<string> cand; if (!top) for (auto &d : defs) if (!isOpen(d.first) && plainSame(d.second, n)) cand.push_back(d.first);
			if (!cand.empty() && c.p(aliasPct)) { if (n.k != Node::SCALAR) containers++; if (!open.empty()) nested++; Node a; a.k = Node::ALIAS; a.text = c.pick(cand); n = a; aliases++; return; }
			if (c.p(anchorPct)) {
				string name = names.name((int)c.below(pool));
				if (!isOpen(name)) {
					Node plain = n; open.push_back(name);
					for (size_t i = 0; i < n.items.size(); i++) go(n.items[i], n.k == Node::MAP && i % 2 == 0, false);
					open.pop_back(); if (defs.count(name)) redefined++; defs[name] = plain; n.anchor = name; return;
				}
			}
		}
		for (size_t i = 0; i < n.items.size(); i++) go(n.items[i], n.k == Node::MAP && i % 2 == 0, false);
	}
};
static bool inside(const Node *a, const Node *b) { if (a == b) return true; for (auto &x : a->items) if (inside(&x, b)) return true; return false; }
// make places with the same schema say the same thing
static void repeatContent(Choices &c, const Schema &S, u32 cfg, Node &doc, int times) {
	for (int t = 0; t < times; t++) {
		vector<Ref> rs; collect(S.top, cfg, doc, rs); if (rs.size() < 2) return;
		std::map<const cyaml_schema_value_t *, vector<Node *>> by; for (auto &r : rs) if (r.s) by[r.s].push_back(r.n);
		vector<vector<Node *> *> many; for (auto &b : by) if (b.second.size() > 1) many.push_back(&b.second);
		if (many.empty()) return;
		// the map is ordered by address; choose by position in the document instead
		std::sort(many.begin(), many.end(), [&](auto *x, auto *y) { size_t i = 0, j = 0; for (size_t q = 0; q < rs.size(); q++) { if (rs[q].n == x->front()) i = q; if (rs[q].n == y->front()) j = q; } return i < j; });
		auto &g = *many[c.below(many.size())]; Node *a = g[c.below(g.size())], *b = g[c.below(g.size())];
		if (inside(a, b) || inside(b, a)) continue; Node x = *a; *b = x;
	}
}
static void same(Case &k, const Schema &S, u32 cfg, const string &aliased, const string &expanded) {
	k.desc = caseText(S, cfg, aliased) + "expanded: " + quoted(expanded, 2000) + "\n";
	Model ma = modelText(S, cfg, aliased), me = modelText(S, cfg, expanded); if (ma.ambiguous || me.ambiguous || ma.tooBig || me.tooBig) throw Discard{};
	Rig r(cfg, k.c.p(5) ? CYAML_LOG_DEBUG : CYAML_LOG_ERROR); r.log.keep = false; LoadRes a, e; checkAgainst(r, S, aliased, ma, &a, false);
	if (ma.aliasCount) k.nontrivial = true;
	k.label("outcome:" + errName(a.err)); k.label("aliases resolved", ma.aliasCount);
	Rig q(cfg); checkAgainst(q, S, expanded, me, &e, false);
	CHECK(a.err == e.err, "with aliases the load returned %s, with them written out %s", errName(a.err).c_str(), errName(e.err).c_str());
	if (a.err) return;
	MatchCtx m1, m2; m1.ta = &r.ta; m2.ta = &q.ta;
	CHECK(matchTop(S.top, a.data, me.val, m1, true), "data loaded with aliases differs from what the expanded document says: %s", m1.err.c_str());
	CHECK(matchTop(S.top, e.data, me.val, m2, true), "data loaded from the expanded document is wrong: %s", m2.err.c_str());
	CHECK(a.count == e.count, "counts differ"); doFree(r, S, a.data, a.count); doFree(q, S, e.data, e.count);
}
static void shared(Case &k, GenOpt o, int repeats, int pool) {
	Choices &c = k.c; Schema S; genSchema(c, S, o); u32 cfg = genCfg(c, 12); Expr e; e.cfgFlags = cfg;
	Val v = genVal(c, S, S.top, o); Node n = express(c, S, S.top, v, e); if (!S.longLen && nodeCount(n) > 1500) throw Discard{};
	repeatContent(c, S, cfg, n, repeats); if (!S.longLen && nodeCount(n) > 3000) throw Discard{};
	if (c.p(12)) mutateNode(c, S, cfg, n);
	Node al = n; Share s{c, pool, S.longLen ? 1 + (int)c.below(S.longLen > 5000 ? 2 : 12) : 30 + (int)c.below(60), S.longLen > 5000 ? 8 : 85, S.longLen ? 1 : 15}; s.go(al, false, true); if (!s.aliases) throw Discard{};
	Writer w; w.encodings = c.p(10); string ta = writeNode(c, al, w), te; { Writer w2; w2.kind = Writer::EMITTER; w2.encodings = false; te = writeNode(c, n, w2); }
	k.label("aliases", s.aliases); k.label("anchors redefined", s.redefined); k.label("aliases inside anchored nodes", s.nested); k.label("container aliases", s.containers);
	same(k, S, cfg, ta, te);
}
PROP(C14, shared, 50000, 2500000) { Choices &c = k.c; GenOpt o; o.topTypes = 1 << CYAML_MAPPING | 1 << CYAML_SEQUENCE | 1 << CYAML_SEQUENCE_FIXED; o.depth = 2 + c.below(4); o.maxEntries = 8; o.maxFields = 4; o.casePct = 4; o.cbPct = 5; shared(k, o, 1 + c.below(10), c.p(50) ? 1 + c.below(5) : 200); }
PROP(C14, sequences, 40000, 2000000) { Choices &c = k.c; GenOpt o; o.depth = 2 + c.below(3); o.maxEntries = 30; o.maxFields = 3; o.cbPct = 5; o.types = ~(1u << CYAML_IGNORE); o.topTypes = 1 << CYAML_SEQUENCE | 1 << CYAML_SEQUENCE_FIXED; shared(k, o, 2 + c.below(30), 1 + c.below(40)); }
PROP(C14, deep, 9000, 400000) { Choices &c = k.c; GenOpt o; o.depth = 5 + c.below(15); o.chainPct = 70; o.maxFields = 3; o.recursePct = 40; o.optPct = 12; o.nullPct = 10; o.maxEntries = 4; shared(k, o, 2 + c.below(8), 1 + c.below(12)); }
// aliases anywhere, whether they fit there or not
PROP(C14, long, 50, 2500) { Choices &c = k.c; GenOpt o; o.longMax = 80000; shared(k, o, 1, 1 + c.below(60)); }
PROP(C14, anywhere, 50000, 2500000) {
	Choices &c = k.c; Schema S; GenOpt o; o.depth = 1 + c.below(4); o.maxEntries = 8; o.maxFields = 4; genSchema(c, S, o); u32 cfg = genCfg(c, 25); Expr e; e.cfgFlags = cfg;
	Val v = genVal(c, S, S.top, o); Node n = express(c, S, S.top, v, e); if (nodeCount(n) > 600) throw Discard{};
	repeatContent(c, S, cfg, n, c.below(6)); int al = addAliases(c, n, 5 + c.below(40), c.p(30)); if (!al) throw Discard{};
	bool bad; Node x = expandAliases(n, &bad); if (bad || nodeCount(x) > 4000) throw Discard{};
	Writer w, w2; w2.kind = Writer::EMITTER; w2.encodings = false; string ta = writeNode(c, n, w); same(k, S, cfg, ta, writeNode(c, x, w2));
}
// undefined aliases, and aliases that are not allowed
PROP(C14, refused, 50000, 2500000) {
	Choices &c = k.c; Schema S; GenOpt o; o.depth = 1 + c.below(4); o.maxEntries = 6; o.maxFields = 4; genSchema(c, S, o); bool none = c.p(60); u32 cfg = genCfg(c, 20) | (none ? CYAML_CFG_NO_ALIAS : 0); Expr e; e.cfgFlags = cfg;
	Val v = genVal(c, S, S.top, o); Node n = express(c, S, S.top, v, e); if (nodeCount(n) > 600) throw Discard{};
	repeatContent(c, S, cfg, n, c.below(6)); if (c.p(70)) { Share s{c, 1 + (int)c.below(10), 40, 60, 10}; s.go(n, false, true); }
	if (!none || c.p(20)) {
		vector<Node *> all; collectAll(n, all); vector<Node *> sc; for (auto p : all) if (p->k == Node::SCALAR && p->anchor.empty()) sc.push_back(p); if (sc.empty()) throw Discard{};
		static const char *names[] = {"nope", "a", "a1", "a2", "anchor-1", "A1", "a11", "b"}; Node *p = sc[c.below(sc.size())]; *p = Node(); p->k = Node::ALIAS; p->text = names[c.below(8)];
		vector<string> given; for (auto q : all) if (!q->anchor.empty()) given.push_back(q->anchor);
		if (!given.empty() && c.p(60)) { // nearly a name that is there
			string s = c.pick(given); switch (c.below(5)) { case 0: s += "0"; break; case 1: if (s.size() > 1) s.pop_back(); break; case 2: s[0] = s[0] == 'n' ? 'N' : s[0] ^ 1; break; case 3: s[s.size() - 1] ^= 1; break; default: s[c.below(s.size())] = 'q'; }
			bool fine = true; for (char x : s) fine &= isalnum((unsigned char)x) || x == '-' || x == '_'; if (fine) p->text = s; k.label("nearly a known name"); }
	}
	Writer w; string t; t = writeNode(c, n, w); k.desc = caseText(S, cfg, t);
	Model m = modelText(S, cfg, t); if (m.ambiguous || m.tooBig) throw Discard{};
	Rig r(cfg); checkAgainst(r, S, t, m); k.label((none ? "no-alias:" : "") + ("outcome:" + errName(m.err))); k.nontrivial = m.err == CYAML_ERR_ALIAS || m.err == CYAML_ERR_INVALID_ALIAS || m.aliasCount;
	if (none && m.aliasCount == 0 && !m.err) k.label("anchors without aliases", 1);
}
