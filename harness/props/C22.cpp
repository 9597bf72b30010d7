#include "../gen.h"

struct Line22 { bool map = false, seq = false; string name; bool named = false; u64 idx = 0; bool hasPos = false; size_t line = 0, col = 0; string raw; };
struct Trace22 { int traces = 0, before = 0; string op; vector<Line22> lines; };
// Reads the messages of one operation.
static Trace22 readTrace(const LogSink &log) {
	Trace22 t; bool in = false;
	for (auto &m : log.msgs) {
		if (m.level != CYAML_LOG_ERROR) continue;
		if (m.text.find("Backtrace") != string::npos) { t.traces++; in = true; t.op = m.text.substr(0, m.text.find(':')); continue; }
		if (!in) { t.before++; CHECK(!m.text.empty() && m.text.back() == '\n' && m.text.size() > 8, "empty error message"); continue; }
		Line22 l; l.raw = m.text; string x = m.text; size_t at = x.rfind("(line: ");
		if (at != string::npos && sscanf(x.c_str() + at, "(line: %zu, column: %zu)", &l.line, &l.col) == 2) { l.hasPos = true; x = x.substr(0, at); }
		if (!x.empty() && (x.back() == '\n' || x.back() == ' ')) x.pop_back();
		auto rest = [&](const char *w) { size_t i = x.find(w); string r = x.substr(i + strlen(w)); if (r[0] == ':') r.erase(0, 1); if (r[0] == ' ') r.erase(0, 1); return r; };
		if (x.rfind("  in mapping", 0) == 0) { l.map = true; if (x.rfind("  in mapping field", 0) == 0) { l.named = true; l.name = rest("  in mapping field"); } }
		else if (x.rfind("  in sequence entry", 0) == 0) { l.seq = true; string n = rest("  in sequence entry"); l.idx = strtoull(n.c_str() + (n[0] == '\''), nullptr, 10); }
		else fail("unexpected line in the backtrace: %s", quoted(m.text).c_str());
		t.lines.push_back(l);
	}
	return t;
}
static string showPath(const vector<PathEl> &p) { string o; for (size_t i = p.size(); i--;) o += p[i].seq ? sfmt(" entry %llu", (unsigned long long)p[i].idx) : " field '" + p[i].name + "'"; return o; }
static string g_what22;
static void compare(Case &k, const Trace22 &t, const vector<PathEl> &path, bool inner, int named, bool places, const char *op) {
	CHECK(t.before + t.traces >= 1, "%s failed without an error message", op); if (!t.before) k.label("unexplained:" + g_what22.substr(0, g_what22.find(" in ")));
	if (path.empty()) { CHECK(t.lines.empty(), "failure at the top of the document, but the backtrace says: %s", t.lines[0].raw.c_str()); return; }
	CHECK(t.traces == 1, "%d backtraces were logged", t.traces);
	CHECK(t.op.compare(op) == 0, "the backtrace of a %s calls itself %s", op, t.op.c_str());
	CHECK(t.lines.size() == path.size(), "the backtrace has %zu lines, the path to the failure has %zu:%s", t.lines.size(), path.size(), showPath(path).c_str());
	for (size_t i = 0; i < t.lines.size(); i++) {
		auto &l = t.lines[i]; auto &p = path[path.size() - 1 - i]; bool exact = i > 0 || inner; k.evals++;
		CHECK(l.seq == p.seq, "line %zu of the backtrace says %s, the path is%s", i, l.raw.c_str(), showPath(path).c_str());
		if (p.seq) CHECK(l.idx == p.idx || (!exact && l.idx == p.idx + 1), "line %zu of the backtrace says %s, expected entry %llu; the path is%s", i, l.raw.c_str(), (unsigned long long)p.idx, showPath(path).c_str());
		if (p.seq && p.idx >= 256) k.label("late entry");
		if (!p.seq && (exact || named == 1)) CHECK(l.named && (l.name == p.name || l.name == "'" + p.name + "'"), "line %zu of the backtrace says %s, expected field '%s'; the path is%s", i, l.raw.c_str(), p.name.c_str(), showPath(path).c_str());
		else if (!p.seq && named == -1) CHECK(!l.named, "line %zu of the backtrace says %s, but the problem is with the mapping, not that field", i, l.raw.c_str());
		if (!strcmp(op, "Load")) {
			CHECK(l.hasPos, "line %zu of the backtrace has no position: %s", i, l.raw.c_str());
			if (places) { bool ok = false; string w; for (auto &q : p.pos) { ok |= q.first + 1 == l.line && q.second + 1 == l.col; w += sfmt(" %zu:%zu", q.first + 1, q.second + 1); }
				CHECK(ok, "line %zu of the backtrace says %s, but the nodes of the path there are at%s", i, l.raw.c_str(), w.c_str()); k.label("positions checked"); }
		}
	}
	k.label(sfmt("lines:%zu", std::min<size_t>(path.size(), 8)));
}
// what the innermost line has to say when a mapping itself is at fault
static int mapLevel(const Model &m) {
	if (m.leaf || m.path.empty() || m.path.back().seq) return 0;
	if (m.why.rfind("repeated key", 0) == 0) return 1;
	return m.err == CYAML_ERR_MAPPING_FIELD_MISSING || m.err == CYAML_ERR_INVALID_KEY || m.err == CYAML_ERR_INVALID_VALUE ? -1 : 0;
}
static Node *widest22(Node &n) { Node *b = n.k == Node::SEQ ? &n : nullptr; for (auto &x : n.items) { Node *y = widest22(x); if (y && (!b || y->items.size() > b->items.size())) b = y; } return b; }
// damage to one entry of the longest sequence, mostly a late one
static string spoilEntry(Choices &c, Node &d) {
	Node *q = widest22(d); if (!q || q->items.empty()) return "";
	size_t n = q->items.size(), at = c.p(30) ? c.below(n) : c.p(50) ? n - 1 - c.below(std::min<size_t>(n, 3)) : n / 2 + c.below(n - n / 2); Node *x = &q->items[at];
	while (!x->items.empty() && c.p(60)) { size_t i = c.below(x->items.size()); if (x->k == Node::MAP) i |= 1; if (i >= x->items.size()) break; x = &x->items[i]; }
	*x = junkNode(c, 2); return sfmt("entry %zu spoiled", at);
}
static void loads(Case &k, GenOpt o, int mode) {
	Choices &c = k.c; Schema S; genSchema(c, S, o); u32 cfg = genCfg(c, 15); if (c.p(5)) cfg |= CYAML_CFG_NO_ALIAS;
	Expr e; e.cfgFlags = cfg; e.absentPct = 30; Writer w; w.kind = Writer::EMITTER; w.encodings = c.p(10);
	Val v = genVal(c, S, S.top, o); Node d = express(c, S, S.top, v, e); if (mode == 2) addAliases(c, d, 30, c.p(40)); string how, text; Model m;
	int tries = c.p(8) ? 0 : 4;
	text = writeNode(c, d, w); m = modelText(S, cfg, text);
	for (int i = 0; i < tries && !m.err; i++) {
		if (mode == 1 && c.p(60)) { text = mutateBytes(c, text); if (c.p(30)) text = text.substr(0, c.below(text.size() + 1)); }
		else if (S.longLen && c.p(70)) { how += spoilEntry(c, d) + "; "; text = writeNode(c, d, w); }
		else { how += mutateNode(c, S, cfg, d) + "; "; text = writeNode(c, d, w); }
		m = modelText(S, cfg, text);
	}
	k.desc = caseText(S, cfg, text) + "damage: " + how + "\n"; if (m.ambiguous || m.tooBig) throw Discard{};
	Rig r(cfg, c.p(80) ? CYAML_LOG_ERROR : (cyaml_log_t)c.below(5)); LoadRes res = doLoad(r, S, text);
	CHECK(res.err == m.err, "load returned %s, expected %s (%s)", errName(res.err).c_str(), errName(m.err).c_str(), m.why.c_str());
	k.label(errName(m.err));
	if (!res.err) { CHECK(r.log.errors == 0, "a successful load logged an error: %s", r.log.errorText().c_str()); r.log.clear(); doFree(r, S, res.data, res.count); CHECK(r.log.errors == 0, "freeing logged an error: %s", r.log.errorText().c_str()); return; }
	g_what22 = m.why; try { compare(k, readTrace(r.log), m.path, m.leaf, mapLevel(m), !m.aliased, "Load"); } catch (Fail &f) { fail("%s\nfailure: %s (%s)\nlogged:\n%s", f.msg.c_str(), errName(m.err).c_str(), m.why.c_str(), r.log.errorText().substr(0, 3000).c_str()); }
	k.nontrivial = !m.path.empty();
}
// values that cannot be written or copied, at any place
static int spoil(Choices &c, const cyaml_schema_value_t &s, Val &v, int pct) {
	int n = 0; bool hit = c.p(pct);
	if (v.k == Val::NUL) return 0;
	if (s.type == CYAML_ENUM && hit) { v.num = c.below(0) & maskOf(s.data_size); n++; }
	if (s.type == CYAML_FLAGS && hit) { v.num = c.below(0) & maskOf(s.data_size); n++; }
	if (s.type == CYAML_STRING && hit && !v.str.empty()) { if (c.p(50)) v.str[c.below(v.str.size())] = (char)0xFF; else v.str[0] = (char)(0x80 + c.below(0x40)); n++; }
	if (v.k == Val::MAP) { size_t i = 0; for (auto f = s.mapping.fields; f->key; f++, i++) if (f->value.type != CYAML_IGNORE) n += spoil(c, f->value, v.kids[i], pct); }
	if (v.k == Val::SEQ) for (auto &x : v.kids) n += spoil(c, *s.sequence.entry, x, pct);
	return n;
}
static void saves(Case &k, GenOpt o) {
	Choices &c = k.c; Schema S; genSchema(c, S, o); u32 cfg = genCfg(c, 25); Val v = genVal(c, S, S.top, o);
	int what = 0;
	if (S.longLen) { const cyaml_schema_value_t *s = &S.top; Val *q = &v; if (S.longAt >= 0) { s = &S.top.mapping.fields[S.longAt].value; q = &v.kids[S.longAt]; } int tries = 1 + c.below(3); for (int i = 0; i < tries && q->k == Val::SEQ; i++) { Val &x = q->kids[c.below(q->kids.size())]; what += c.p(50) ? plantNulls(c, *s->sequence.entry, x, 60) : spoil(c, *s->sequence.entry, x, 80); } }
	else for (int i = 0; i < 4 && !what; i++) { if (c.p(50)) what += plantNulls(c, S.top, v, 5 + c.below(30)); else what += spoil(c, S.top, v, 10 + c.below(60)); }
	if (v.k == Val::NUL || noData(S.top, v)) throw Discard{};
	if (c.p(25)) for (auto &x : S.values) if (c.p(15)) { // mistakes in the schema
		int q = c.below(4); if (q == 0 && x.type == CYAML_SEQUENCE_FIXED) x.sequence.min++; if (q == 2 && x.type == CYAML_INT && !isPtr(x)) x.type = (cyaml_type_e)(CYAML__TYPE_COUNT + 1); }
	Arena a; unsigned cnt = 0; void *p = buildTop(S, v, a.alloc(), &cnt); a.snapshot(); unsigned cc = S.top.type == CYAML_SEQUENCE_FIXED ? S.top.sequence.max : cnt;
	k.desc = "schema: " + showSchema(S, S.top) + "\nconfig: " + cfgText(cfg) + "\nvalue: " + showVal(S.top, v) + "\n"; Rig r(cfg, c.p(80) ? CYAML_LOG_ERROR : (cyaml_log_t)c.below(5));
	for (int op = 0; op < 2; op++) {
		SavePred q = op ? predictCopy(S, v, cc) : predictSave(S, cfg, v, cnt); if (q.ambiguous) continue;
		r.log.clear(); cyaml_err_t e; CopyRes x;
		if (op) { x = doCopy(r, S, p, cc); e = x.err; } else e = doSave(r, S, p, cnt).err;
		const char *name = op ? "Copy" : "Save"; k.evals++;
		CHECK(e == q.err, "%s returned %s, expected %s (%s)", name, errName(e).c_str(), errName(q.err).c_str(), q.why.c_str()); k.label(string(name) + ":" + errName(e));
		if (!e) { CHECK(r.log.errors == 0, "a successful %s logged an error: %s", name, r.log.errorText().c_str()); if (op) doFree(r, S, x.data, cc); continue; }
		if (q.path.empty() && e != CYAML_ERR_INVALID_VALUE && e != CYAML_ERR_LIBYAML_EVENT_INIT && e != CYAML_ERR_MAPPING_FIELD_MISSING) continue;
		g_what22 = q.why; try { compare(k, readTrace(r.log), q.path, !q.path.empty() && q.path.back().inValue, 0, false, name); } catch (Fail &f) { fail("%s\nfailure: %s (%s)\nlogged:\n%s", f.msg.c_str(), errName(q.err).c_str(), q.why.c_str(), r.log.errorText().substr(0, 3000).c_str()); }
		k.nontrivial = true;
	}
}
PROP(C22, loads, 35000, 1500000) { GenOpt o; o.depth = 1 + k.c.below(5); o.cbPct = 6; o.casePct = 10; loads(k, o, 0); }
PROP(C22, damaged, 15000, 800000) { GenOpt o; o.depth = 1 + k.c.below(5); loads(k, o, 1); }
PROP(C22, aliases, 9000, 500000) { GenOpt o; o.depth = 1 + k.c.below(4); o.cbPct = 4; loads(k, o, 2); }
PROP(C22, deep, 3000, 200000) { GenOpt o; o.depth = 8 + k.c.below(25); o.chainPct = 85; o.maxFields = 4; o.maxEntries = 3; o.recursePct = 20; o.cbPct = 3; loads(k, o, k.c.below(3)); }
PROP(C22, wide, 1200, 100000) { GenOpt o; o.depth = 1 + k.c.below(3); o.widePct = 60; o.wideMax = 150; o.maxEntries = 80; o.cbPct = 2; loads(k, o, k.c.below(3)); }
PROP(C22, saves, 60000, 1500000) { GenOpt o; o.depth = 1 + k.c.below(5); o.strictPct = 60; o.ptrPct = 20 + k.c.below(60); o.nullPct = 15; saves(k, o); }
PROP(C22, savesdeep, 3000, 200000) { GenOpt o; o.depth = 8 + k.c.below(25); o.chainPct = 85; o.maxFields = 4; o.maxEntries = 3; o.recursePct = 20; o.strictPct = 60; saves(k, o); }
PROP(C22, long, 100, 5000) { GenOpt o; o.longMax = 80000; o.strictPct = 60; o.ptrPct = 50; if (k.c.p(60)) loads(k, o, 0); else saves(k, o); }
