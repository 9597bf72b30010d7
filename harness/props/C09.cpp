#include "../gen.h"

static string spoil(Choices &c, string s, size_t max) { // text that is not (quite) UTF-8
	static const char *b[] = {"\xff", "\xc3", "\xc0\x80", "\xe2\x82", "\x80", "\xf0\x9f\x98", "\xc1\xbf", "\xe0\x80\x80", "\xfe"};
	string x = b[c.below(9)]; if (s.size() + x.size() > max) return s;
	s.insert(c.below(s.size() + 1), x); return s;
}
// arbitrary contents: any bits, text of any encoding, NULL anywhere
static void wild(Choices &c, const Schema &S, const cyaml_schema_value_t &s, Val &v, int pct, int &n) {
	if (v.k == Val::NUL) return;
	if (isPtr(s) && !(s.type == CYAML_SEQUENCE && !v.kids.empty()) && c.p(pct / 4)) { v = Val(); n++; return; }
	switch (v.k) {
	case Val::NUM: if (c.p(pct)) { u64 x = c.below(4) ? c.below(0) : c.p(50) ? 1ull << c.below(64) : ~0ull; if (s.type == CYAML_BOOL && c.p(50)) x = 1 + c.below(3); v.num = x & maskOf(s.data_size); n++; } break;
	case Val::STR: if (c.p(pct / 2)) { size_t max = isPtr(s) ? 5000 : s.data_size - 1; string t; if (c.p(60)) t = spoil(c, v.str, max); else { GenOpt o; t = genString(c, o, 0, max < 300 ? max : 300); if (c.p(20)) t += string(c.below(200), 'y').substr(0, max - t.size()); } v.str = t; n++; } break;
	case Val::MAP: { size_t i = 0; for (auto f = s.mapping.fields; f->key; f++, i++) if (f->value.type != CYAML_IGNORE) wild(c, S, f->value, v.kids[i], pct, n); break; }
	case Val::SEQ: for (auto &k : v.kids) wild(c, S, *s.sequence.entry, k, pct, n); break;
	default: break;
	}
}
static u32 styles(Choices &c) { u32 f = 0; if (c.p(35)) f |= CYAML_CFG_STYLE_BLOCK; if (c.p(35)) f |= CYAML_CFG_STYLE_FLOW; if (c.p(40)) f |= CYAML_CFG_DOCUMENT_DELIM; if (c.p(15)) f |= CYAML_CFG_CASE_INSENSITIVE; return f; }
static void one(Case &k, GenOpt o, int wildPct) {
	Choices &c = k.c; Schema S; genSchema(c, S, o); u32 cfg = styles(c);
	if (c.p(3)) { // a name in the schema that is no text
		int w = c.below(3); auto bad = [&](const char *s) { return S.str(spoil(c, s, 300)); };
		if (w == 0 && !S.fields.empty()) { auto &f = S.fields[c.below(S.fields.size())]; if (f.size() > 1) { auto &x = f[c.below(f.size() - 1)]; if (x.key) x.key = bad(x.key); } }
		else if (w == 1 && !S.strvals.empty()) { auto &x = S.strvals[c.below(S.strvals.size())]; if (!x.empty()) { auto &y = x[c.below(x.size())]; y.str = bad(y.str); } }
		else if (!S.bitdefs.empty()) { auto &x = S.bitdefs[c.below(S.bitdefs.size())]; if (!x.empty()) { auto &y = x[c.below(x.size())]; y.name = bad(y.name); } }
	}
	Val v = genVal(c, S, S.top, o); int n = 0; wild(c, S, S.top, v, wildPct, n);
	Arena a; unsigned cnt = 0; void *p = buildTop(S, v, a.alloc(), &cnt); a.snapshot();
	k.desc = "schema: " + showSchema(S, S.top) + "\nconfig: " + cfgText(cfg) + "\nvalue: " + showVal(S.top, v) + "\n";
	Rig r(cfg); SavedInfo s = checkSave(r, S, v, p, cnt);
	CHECK(a.same(), "saving changed the data");
	k.label("save:" + errName(s.res.err)); if (n) k.label("altered");
	k.nontrivial = v.k == Val::MAP ? v.kids.size() >= 2 : v.k == Val::SEQ && v.kids.size() >= 1;
	if (s.res.err) return;
	k.evals++;
	string e = checkStyles(S, cfg, v, s.res.out, s.node);
	CHECK(e.empty(), "%s\noutput: %s", e.c_str(), quoted(s.res.out, 3000).c_str());
	k.label(sfmt("style:%s%s%s", cfg & CYAML_CFG_STYLE_BLOCK ? "block " : "", cfg & CYAML_CFG_STYLE_FLOW ? "flow " : "", cfg & CYAML_CFG_DOCUMENT_DELIM ? "delim" : ""));
}
PROP(C09, content, 50000, 2000000) { GenOpt o; o.depth = 1 + k.c.below(5); o.casePct = 5; o.strictPct = 40; one(k, o, k.c.p(60) ? 6 : 0); }
PROP(C09, styles, 36000, 1500000) { GenOpt o; o.depth = 1 + k.c.below(5); o.stylePct = 60; o.recursePct = 3; one(k, o, 1); }
PROP(C09, scalars, 36000, 1500000) { GenOpt o; o.depth = 1; o.maxFields = 10; o.strictPct = 40; o.stylePct = 20; o.oddSizePct = 40; o.types = ~(1u << CYAML_SEQUENCE | 1u << CYAML_SEQUENCE_FIXED); one(k, o, k.c.p(60) ? 12 : 0); }
PROP(C09, wide, 2000, 100000) { GenOpt o; o.depth = 2; o.widePct = 60; o.wideMax = 30 + k.c.below(100); o.maxEntries = 30; o.recursePct = 3; o.stylePct = 5; one(k, o, 0); }
PROP(C09, deep, 6000, 250000) { GenOpt o; o.depth = 8 + k.c.below(20); o.chainPct = 80; o.maxFields = 3; o.recursePct = 20; o.optPct = 12; o.maxEntries = 2; o.stylePct = 10; one(k, o, 1); }
PROP(C09, long, 60, 3000) { GenOpt o; o.stylePct = 3; o.longMax = 80000; one(k, o, k.c.p(30) ? 1 : 0); }
