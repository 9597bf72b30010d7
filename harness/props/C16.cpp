#include "../gen.h"
#include <algorithm>

// Ignored content: any node at all.  Anchors and aliases stay within it.
struct Peculiar {
	Choices &c; int budget; bool anchors; vector<string> names; int made = 0;
	string word() {
		static const char *w[] = {"", "~", "null", "Null", "NULL", "true", "0", "-1", "0x", "1e999", "- a", "a: b", "#", "[]", "{}", "<<", "=", "...", "---", "*x", "&x", "!!int", "\n", " ", "\xf0\x9f\x98\x80", "\xc3\xa9", "a\nb\n", "%TAG"};
		GenOpt o; return c.p(50) ? string(w[c.below(28)]) : c.p(3) ? string(1000 + c.below(3000), 'z') : genString(c, o, 0, 30);
	}
	Node make(int depth, bool key = false) {
		Node n; budget--;
		if (anchors && !names.empty() && c.p(12)) { n.k = Node::ALIAS; n.text = c.pick(names); return n; }
		string an; if (anchors && c.p(12)) { an = c.p(30) && !names.empty() ? c.pick(names) : sfmt("ig%d", made++); }
		int kind = depth <= 0 || budget <= 0 || (key && c.p(90)) ? 0 : (int)c.below(3);
		if (kind == 1) { n.k = Node::SEQ; int m = c.p(5) ? c.below(60) : c.below(5); while (m-- && budget > 0) n.items.push_back(make(depth - 1)); }
		else if (kind == 2) { n.k = Node::MAP; int m = c.p(5) ? c.below(40) : c.below(5); while (m-- && budget > 0) { n.items.push_back(c.p(15) && !n.items.empty() && n.items[0].k == Node::SCALAR ? Node::S(n.items[0].text) : make(depth - 1, true)); n.items.push_back(make(depth - 1)); } }
		else n.text = word();
		if (!an.empty() && std::find(names.begin(), names.end(), an) == names.end()) { n.anchor = an; names.push_back(an); }
		return n;
	}
};
static Node peculiar(Choices &c, bool anchors) {
	Peculiar p{c, c.p(5) ? 400 : 40, anchors, {}};
	if (c.p(6)) { // deep
		int d = 1 + c.below(150); Node n = p.make(1); while (d--) { Node o; if (c.p(50)) { o.k = Node::SEQ; o.items = {n}; } else { o.k = Node::MAP; o.items = {Node::S("k"), n}; } n = o; } return n;
	}
	return p.make(1 + c.below(6));
}
static bool known(const cyaml_schema_value_t &s, u32 cfg, const string &t) { for (auto f = s.mapping.fields; f->key; f++) if (strEq(s, cfg, t, f->key)) return true; return false; }
// Put unknown members in, and other content into ignored members; returns how many.
static int stuff(Choices &c, const Schema &S, u32 cfg, Node &doc, int pct, bool anchors, bool unknown) {
	vector<Ref> rs; collect(S.top, cfg, doc, rs); int done = 0; u64 total = 0;
	vector<Node *> maps; vector<const cyaml_schema_value_t *> ms;
	for (auto &r : rs) if (r.s && r.s->type == CYAML_MAPPING && r.n->k == Node::MAP) { maps.push_back(r.n); ms.push_back(r.s); }
	for (size_t q = maps.size(); q-- > 0;) { // inner ones first: their addresses stay good
		auto &s = *ms[q]; Node &n = *maps[q]; vector<std::pair<Node, Node>> add;
		for (size_t i = 0; i + 1 < n.items.size(); i += 2) for (auto f = s.mapping.fields; f->key; f++) if (f->value.type == CYAML_IGNORE && strEq(s, cfg, n.items[i].text, f->key)) { if (c.p(70)) { n.items[i + 1] = peculiar(c, anchors); done++; } break; }
		for (auto f = s.mapping.fields; f->key; f++) if (f->value.type == CYAML_IGNORE && f->value.flags & CYAML_FLAG_OPTIONAL) { // more of them, repeated ones too
			if (!c.p(pct)) continue; int m = 1 + (c.p(30) ? c.below(3) : 0); string key = insensitive(s, cfg) && c.p(50) ? recase(c, f->key) : f->key; while (m--) { size_t i = c.below(add.size() + 1); add.insert(add.begin() + i, {Node::S(key), peculiar(c, anchors)}); }
		}
		if (unknown && c.p(pct)) { int m = 1 + (c.p(30) ? c.below(6) : 0); string last;
			while (m--) {
				GenOpt o; string key; switch (c.below(6)) { case 0: key = genString(c, o, 0, 20); break; case 1: { static const char *w[] = {"", "~", "null", "<<", "0", "-", "name ", "NAME", "Key", "true", "\xef\xbf\xbd", "a b c"}; key = w[c.below(12)]; break; } case 2: key = last; break;
				case 3: { size_t nf = 0; while (s.mapping.fields[nf].key) nf++; if (nf) { key = s.mapping.fields[c.below(nf)].key; if (c.p(50)) key += "x"; else if (!key.empty()) key.pop_back(); if (c.p(30)) key = recase(c, key); } break; } default: key = genKey(c, o, c.below(30)); }
				if (known(s, cfg, key)) continue; last = key; Node kn = Node::S(key); add.push_back({kn, peculiar(c, anchors)});
			} }
		for (auto &a : add) { total += nodeCount(a.second); size_t at = c.below(n.items.size() / 2 + 1) * 2; n.items.insert(n.items.begin() + at, a.second); n.items.insert(n.items.begin() + at, a.first); done++; }
		if (total > 6000) break;
	}
	return done;
}
static void compare(Case &k, const Schema &S, u32 cfg, const string &with, const string &without, int level) {
	k.desc = caseText(S, cfg, with) + "without the ignored content: " + quoted(without, 3000) + "\n";
	Model mw = modelText(S, cfg, with), mo = modelText(S, cfg, without); if (mw.ambiguous || mo.ambiguous || mw.tooBig || mo.tooBig) throw Discard{};
	Rig r(cfg, level), q(cfg); r.log.keep = q.log.keep = false; LoadRes a, b; checkAgainst(r, S, with, mw, &a, false); checkAgainst(q, S, without, mo, &b, false);
	CHECK(a.err == b.err, "with ignored content the load returned %s, without it %s", errName(a.err).c_str(), errName(b.err).c_str()); k.label("outcome:" + errName(a.err)); k.label("ignored keys", mw.ignoredKeys); k.label("ignored fields", mw.ignoredFields);
	if (a.err) return;
	MatchCtx m; m.ta = &r.ta; CHECK(matchTop(S.top, a.data, mo.val, m, true), "ignored content changed the data: %s", m.err.c_str()); CHECK(a.count == b.count, "ignored content changed the count");
	CHECK(r.log.errors == 0, "an error was logged although the load succeeded");
	doFree(r, S, a.data, a.count); doFree(q, S, b.data, b.count);
}
static void inserted(Case &k, GenOpt o, int pct, bool unknown) {
	Choices &c = k.c; Schema S; genSchema(c, S, o); u32 cfg = genCfg(c, 15); cfg = unknown ? cfg | CYAML_CFG_IGNORE_UNKNOWN_KEYS : cfg; Expr e; e.cfgFlags = cfg;
	Val v = genVal(c, S, S.top, o); Node n = express(c, S, S.top, v, e); if (!S.longLen && nodeCount(n) > 800) throw Discard{};
	if (c.p(20)) { mutateNode(c, S, cfg, n); vector<Node *> all; collectAll(n, all); for (auto a : all) if (a->k == Node::ALIAS) throw Discard{}; } // undefined: refused wherever it is
	Node x = n; int ins = stuff(c, S, cfg, x, pct, c.p(50), unknown); if (!ins) throw Discard{}; if (!S.longLen && nodeCount(x) > 8000) throw Discard{};
	k.nontrivial = true; k.label("insertions", ins); Writer w, w2; w.encodings = c.p(10); w2.kind = Writer::EMITTER; w2.encodings = false; string a = writeNode(c, x, w), b = writeNode(c, n, w2);
	compare(k, S, cfg, a, b, c.p(5) ? CYAML_LOG_DEBUG : CYAML_LOG_ERROR);
	if (unknown && c.p(30)) { // the setting off: refused at the first unknown member (or earlier violation)
		u32 off = cfg & ~CYAML_CFG_IGNORE_UNKNOWN_KEYS; k.desc = caseText(S, off, a); Model m = modelText(S, off, a); if (m.ambiguous) return; Rig r(off); r.log.keep = false; checkAgainst(r, S, a, m); k.evals++; k.label("setting off:" + errName(m.err));
	}
}
PROP(C16, unknown, 24000, 2000000) { Choices &c = k.c; GenOpt o; o.depth = 1 + c.below(5); o.maxFields = 4; o.casePct = 15; o.topTypes = 1 << CYAML_MAPPING | 1 << CYAML_SEQUENCE | 1 << CYAML_SEQUENCE_FIXED; inserted(k, o, 20 + c.below(80), true); }
PROP(C16, wide, 1500, 120000) { Choices &c = k.c; GenOpt o; o.depth = 1 + c.below(2); o.widePct = 80; o.wideMax = 20 + c.below(120); o.maxFields = 20; o.topTypes = 1 << CYAML_MAPPING; inserted(k, o, 90, c.p(80)); }
PROP(C16, long, 40, 2000) { Choices &c = k.c; GenOpt o; o.longMax = 70000; o.topTypes = 1 << CYAML_MAPPING; inserted(k, o, c.p(60) ? 100 : 1 + c.below(10), true); }
PROP(C16, members, 24000, 2000000) { Choices &c = k.c; GenOpt o; o.depth = 1 + c.below(4); o.maxFields = 5; o.types = 1 << CYAML_MAPPING | 1 << CYAML_IGNORE | 1 << CYAML_INT | 1 << CYAML_STRING | 1 << CYAML_SEQUENCE; o.topTypes = 1 << CYAML_MAPPING | 1 << CYAML_SEQUENCE; o.casePct = 15; inserted(k, o, 60, c.p(30)); }
// anchors, aliases and violations anywhere, also between ignored and other content: against the model
PROP(C16, mixed, 26000, 2000000) {
	Choices &c = k.c; Schema S; GenOpt o; o.depth = 1 + c.below(4); o.maxFields = 4; o.cbPct = 5; if (c.p(50)) o.types = ~0u & ~(1u << CYAML_FLOAT) ; o.topTypes = 1 << CYAML_MAPPING | 1 << CYAML_SEQUENCE; genSchema(c, S, o);
	u32 cfg = genCfg(c, 20); if (c.p(70)) cfg |= CYAML_CFG_IGNORE_UNKNOWN_KEYS; if (c.p(8)) cfg |= CYAML_CFG_NO_ALIAS; Expr e; e.cfgFlags = cfg; Val v = genVal(c, S, S.top, o); Node n = express(c, S, S.top, v, e); if (nodeCount(n) > 500) throw Discard{};
	if (!stuff(c, S, cfg | CYAML_CFG_IGNORE_UNKNOWN_KEYS, n, 60, false, true) || nodeCount(n) > 4000) throw Discard{};
	if (c.p(70)) addAliases(c, n, 5 + c.below(30), c.p(30)); if (c.p(30)) mutateNode(c, S, cfg, n);
	Writer w; w.kind = c.p(60) ? Writer::EMITTER : Writer::ANY; w.encodings = false; string t = writeNode(c, n, w); k.desc = caseText(S, cfg, t); Model m = modelText(S, cfg, t); if (m.ambiguous || m.tooBig) throw Discard{};
	Rig r(cfg); r.log.keep = false; checkAgainst(r, S, t, m); k.label("outcome:" + errName(m.err)); k.nontrivial = m.ignoredKeys + m.ignoredFields > 0 || m.err == CYAML_ERR_INVALID_KEY;
}
// the ignored key warning setting: each ignored member is reported at the warning level, in order
PROP(C16, warned, 6000, 500000) {
	Choices &c = k.c; Schema S; GenOpt o; o.depth = 1 + c.below(4); o.maxFields = 4; o.topTypes = 1 << CYAML_MAPPING | 1 << CYAML_SEQUENCE; genSchema(c, S, o);
	u32 cfg = genCfg(c, 20) & ~CYAML_CFG_IGNORED_KEY_WARNING; if (c.p(80)) cfg |= CYAML_CFG_IGNORE_UNKNOWN_KEYS; Expr e; e.cfgFlags = cfg; Val v = genVal(c, S, S.top, o); Node n = express(c, S, S.top, v, e); if (nodeCount(n) > 500) throw Discard{};
	stuff(c, S, cfg | CYAML_CFG_IGNORE_UNKNOWN_KEYS, n, 60, c.p(50), cfg & CYAML_CFG_IGNORE_UNKNOWN_KEYS); if (nodeCount(n) > 4000) throw Discard{}; if (c.p(40)) addAliases(c, n, 5 + c.below(30), c.p(30));
	Writer w; w.kind = c.p(60) ? Writer::EMITTER : Writer::ANY; w.encodings = false; string t = writeNode(c, n, w); k.desc = caseText(S, cfg, t); Model m = modelText(S, cfg, t); if (m.ambiguous || m.tooBig || m.err) throw Discard{};
	int level = c.below(CYAML_LOG_ERROR + 1); vector<string> got[2];
	for (int on = 0; on < 2; on++) { Rig r(cfg | (on ? CYAML_CFG_IGNORED_KEY_WARNING : 0), level); checkAgainst(r, S, t, m); for (auto &x : r.log.msgs) if (x.level == CYAML_LOG_WARNING) got[on].push_back(x.text); }
	size_t want = level <= CYAML_LOG_WARNING ? m.ignoredNames.size() : 0; k.nontrivial = want > 0; k.label("ignored", m.ignoredNames.size()); k.label(sfmt("level:%d", level));
	CHECK(got[1].size() == got[0].size() + want, "with the ignored key warnings on there are %zu warnings, without them %zu; %zu keys were ignored", got[1].size(), got[0].size(), want);
	size_t i = 0; // every key, in order
	if (want) for (auto &g : got[1]) if (i < want && (g.find(m.ignoredNames[i].first) != string::npos || g.find(m.ignoredNames[i].second) != string::npos)) i++;
	CHECK(i == want, "no warning about the ignored key %s (number %zu of %zu)", quoted(m.ignoredNames[i].first, 200).c_str(), i + 1, want);
}
// very deep and very long ignored content, beside other members
PROP(C16, large, 160, 20000) {
	Choices &c = k.c; Schema S; GenOpt o; o.depth = 1; o.maxFields = 3; o.types = 1 << CYAML_INT | 1 << CYAML_STRING | 1 << CYAML_IGNORE; o.topTypes = 1 << CYAML_MAPPING; genSchema(c, S, o);
	u32 cfg = genCfg(c, 10) | CYAML_CFG_IGNORE_UNKNOWN_KEYS; Expr e; e.cfgFlags = cfg; Val v = genVal(c, S, S.top, o); Node n = express(c, S, S.top, v, e); vector<Ref> rs; collect(S.top, cfg, n, rs);
	Node *map = nullptr; const cyaml_schema_value_t *ms = nullptr; for (auto &r : rs) if (r.s && r.s->type == CYAML_MAPPING && r.n->k == Node::MAP) { map = r.n; ms = r.s; break; } if (!map) throw Discard{};
	string key = "unknown"; for (auto f = ms->mapping.fields; f->key; f++) if (f->value.type == CYAML_IGNORE && c.p(50)) key = f->key; if (key == "unknown" && known(*ms, cfg, key)) throw Discard{};
	Peculiar p{c, 20, false, {}}; Node x = p.make(2), rest = p.make(2); int mode = c.below(3);
	if (mode < 2) { // deep, with something after the deepest part at each of some levels
		static const int near[] = {127, 128, 255, 256, 257, 511, 512, 1023, 1024}; int d = c.p(50) ? near[c.below(9)] - 2 + c.below(5) : 150 + c.below(c.p(20) ? 2400 : 900); int kinds = c.below(3); k.label("deep"); if (d > 255) k.label("deeper than 255");
		while (d--) { Node q; bool seq = kinds == 0 || (kinds == 2 && c.p(50)); q.k = seq ? Node::SEQ : Node::MAP; if (!seq) q.items.push_back(Node::S("k")); q.items.push_back(std::move(x)); if (c.p(20)) { if (!seq) q.items.push_back(Node::S("after")); q.items.push_back(Node::S("x")); } x = std::move(q); }
	} else { static const int near[] = {255, 256, 257, 4096, 32768, 65535, 65536}; int m = c.p(50) ? near[c.below(7)] + c.below(3) : 200 + c.below(6000); k.label("long"); if (m > 65535) k.label("longer than 65535"); bool seq = c.p(50); Node q; q.k = seq ? Node::SEQ : Node::MAP; Node item = c.p(50) ? Node::S("v") : p.make(1); for (int i = 0; i < m; i++) { if (!seq) q.items.push_back(Node::S(c.p(2) ? "k" : sfmt("k%d", i))); q.items.push_back(c.p(1) ? rest : item); } x = std::move(q); }
	Node with = n; map = nullptr; rs.clear(); collect(S.top, cfg, with, rs); for (auto &r : rs) if (r.s && r.s->type == CYAML_MAPPING && r.n->k == Node::MAP) { map = r.n; break; }
	size_t at = c.below(map->items.size() / 2 + 1) * 2; map->items.insert(map->items.begin() + at, std::move(x)); map->items.insert(map->items.begin() + at, Node::S(key));
	bool optional = key == "unknown"; if (!optional) for (auto f = ms->mapping.fields; f->key; f++) if (key == f->key) optional = f->value.flags & CYAML_FLAG_OPTIONAL;
	if (c.p(30)) mutateNode(c, S, cfg, n = with), with = n; else if (!optional) n = with;
	Writer w; w.kind = Writer::FLOW; w.encodings = false; string t = writeNode(c, with, w); k.nontrivial = true;
	k.desc = caseText(S, cfg, t.size() < 6000 ? t : t.substr(0, 3000) + " ... " + t.substr(t.size() - 3000)); Model m = modelText(S, cfg, t); if (m.ambiguous || m.tooBig) throw Discard{};
	Rig r(cfg); r.log.keep = false; checkAgainst(r, S, t, m); k.label("outcome:" + errName(m.err)); k.label("ignored keys", m.ignoredKeys); k.label("ignored fields", m.ignoredFields);
}
