#include "../gen.h"

static GenOpt anyOpt(Choices &c) { GenOpt o; o.depth = 1 + c.below(5); o.casePct = 15; o.cbPct = 10; o.strictPct = 35; o.maxFields = 5; o.ptrPct = 40; return o; }
static void against(Case &k, const Schema &S, u32 cfg, const string &text, int level = CYAML_LOG_ERROR) {
	k.desc = caseText(S, cfg, text);
	Model m = modelText(S, cfg, text); if (modelTooBig(m)) throw Discard{};
	Rig r(cfg, level); r.log.keep = false; checkAgainst(r, S, text, m);
	if (!text.empty()) k.nontrivial = true;
	k.label(m.ambiguous ? "outcome:left-open" : "outcome:" + errName(m.err));
}
static string schemaWord(Choices &c, const cyaml_schema_value_t &s, int depth = 0) {
	if (depth > 6) return "x";
	switch (s.type) {
	case CYAML_MAPPING: { u32 n = 0; for (auto f = s.mapping.fields; f->key; f++) n++; if (!n) return "x"; auto &f = s.mapping.fields[c.below(n)]; return c.p(50) ? f.key : schemaWord(c, f.value, depth + 1); }
	case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: return schemaWord(c, *s.sequence.entry, depth + 1);
	case CYAML_ENUM: case CYAML_FLAGS: return s.enumeration.count && c.p(70) ? s.enumeration.strings[c.below(s.enumeration.count)].str : "3";
	case CYAML_BITFIELD: return s.bitfield.count ? s.bitfield.bitdefs[c.below(s.bitfield.count)].name : "b";
	default: return scalarText(c, s);
	}
}
// a stream of YAML tokens, many of them words of the schema
static string soup(Choices &c, const Schema &S) {
	static const char *tok[] = {"[", "]", "{", "}", ",", ", ", ": ", ":\n", "- ", "-\n", "? ", "&a ", "*a", "&a\n", "*b", "&b ", "!!str ", "!t ", "! ", "|\n", ">\n", "|2-\n", "'", "\"", "''", "\"\"", "# c\n", "%YAML 1.1\n", "%TAG ! tag:x,2000:\n", "---", "---\n", "...\n", "\n", "\n\n", " ", "  ", "   ", "    ", "\t", "\r\n", "<<", "~", "null", "\\", "\\n", "\\x41", "\xef\xbb\xbf", "\xc2\x85", "\xe2\x80\xa8", "@", "`", "=", "0", "-1", "1.5", "true", "x", "\xc3\xa9"};
	string t; int n = 1 + c.below(c.p(10) ? 120 : 25); string ind;
	for (int i = 0; i < n; i++) {
		switch (c.below(8)) {
		case 0: case 1: t += schemaWord(c, S.top); break;
		case 2: t += schemaWord(c, S.top) + ": "; break;
		case 3: t += "\n" + string(c.below(4) * (1 + c.below(2)), ' '); break;
		case 4: t += "\"" + schemaWord(c, S.top) + "\""; break;
		default: t += tok[c.below(sizeof tok / sizeof *tok)]; break;
		}
	}
	return t;
}
static string bytesText(Choices &c) {
	size_t n = c.p(20) ? c.below(6) : c.p(10) ? c.below(2000) : c.below(80); string t;
	switch (c.below(7)) {
	case 0: while (t.size() < n) t += (char)c.below(256); break;
	case 1: while (t.size() < n) t += (char)(c.below(95) + 32); break;
	case 2: { static const char *b[] = {"\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\xef\xbb", "\xff", "\xfe", "\xef"}; t = b[c.below(7)]; if (c.p(30)) t.resize(c.below(t.size() + 1)); while (t.size() < n) t += c.p(50) ? (char)c.below(128) : (char)c.below(256); break; }
	case 3: { bool be = c.p(50); t = be ? string("\xfe\xff", 2) : string("\xff\xfe", 2); while (t.size() < n) { char hi = c.p(85) ? 0 : (char)(c.p(50) ? 0xd8 + c.below(8) : c.below(256)), lo = c.p(80) ? (char)(32 + c.below(95)) : (char)c.below(256); if (be) { t += hi; t += lo; } else { t += lo; t += hi; } } if (c.p(20) && !t.empty()) t.pop_back(); break; }
	case 4: while (t.size() < n) t += "[]{},:-?&*!|>'\"%@` \n\t#~"[c.below(24)]; break;
	case 5: { char ch = "[{-?:&*!|>'\"%@` \n\t#~"[c.below(21)]; n *= 20; while (t.size() < n) { t += ch; if (c.p(5)) t += (char)c.below(128); } break; }
	default: while (t.size() < n) { static const char *w[] = {"\xc3\xa9", "\xf0\x9f\x98\x80", "\xed\xa0\x80", "\xc0\x80", "\xf8\x88\x80\x80\x80", "\xe2\x82", "\x80", "\xc2\xa0", "\xef\xbf\xbd", "\xef\xbf\xbe", "\x7f", "\x01", "a: ", "\n"}; t += w[c.below(14)]; } if (c.p(30)) t += string(1, '\0'); break;
	}
	return t;
}
PROP(C13, mutated, 120000, 6000000) {
	Choices &c = k.c; Schema S; GenOpt o = anyOpt(c); genSchema(c, S, o); u32 cfg = genCfg(c, 25); if (c.p(4)) cfg |= CYAML_CFG_NO_ALIAS;
	Expr e; e.cfgFlags = cfg; Writer w; w.tailPct = 10; Val v = genVal(c, S, S.top, o); Node n = express(c, S, S.top, v, e); if (nodeCount(n) > 1000) throw Discard{};
	if (c.p(25)) addAliases(c, n, 20, c.p(30)); if (c.p(15)) mutateNode(c, S, cfg, n);
	string t = writeNode(c, n, w); int m = 1 + (c.p(30) ? c.below(5) : 0); while (m--) t = mutateBytes(c, t);
	against(k, S, cfg, t, c.p(5) ? CYAML_LOG_DEBUG : CYAML_LOG_ERROR);
}
PROP(C13, soup, 120000, 6000000) {
	Choices &c = k.c; Schema S; GenOpt o = anyOpt(c); genSchema(c, S, o); u32 cfg = genCfg(c, 25);
	against(k, S, cfg, soup(c, S));
}
PROP(C13, bytes, 70000, 4000000) {
	Choices &c = k.c; Schema S; GenOpt o = anyOpt(c); o.depth = 1 + c.below(2); o.maxFields = 3; if (c.p(50)) o.topTypes = 1u << CYAML_STRING | 1u << CYAML_INT | 1u << CYAML_ENUM | 1u << CYAML_SEQUENCE | 1u << CYAML_FLAGS | 1u << CYAML_BOOL; genSchema(c, S, o); u32 cfg = genCfg(c, 25);
	against(k, S, cfg, bytesText(c));
}
// every beginning of a document
PROP(C13, truncated, 2500, 150000) {
	Choices &c = k.c; Schema S; GenOpt o = anyOpt(c); o.depth = 1 + c.below(3); genSchema(c, S, o); u32 cfg = genCfg(c, 20);
	Expr e; e.cfgFlags = cfg; Writer w; w.tailPct = 10; Doc d = genDoc(c, S, o, e, w); if (d.text.size() > 1500) throw Discard{};
	string t = d.text; if (c.p(20)) t = mutateBytes(c, t);
	k.evals = 0; for (size_t i = 0; i <= t.size(); i++) { against(k, S, cfg, t.substr(0, i)); k.evals++; }
}
// two documents cut and joined, for content that is well-formed in parts
PROP(C13, spliced, 40000, 2000000) {
	Choices &c = k.c; Schema S; GenOpt o = anyOpt(c); o.depth = 1 + c.below(3); genSchema(c, S, o); u32 cfg = genCfg(c, 20);
	Expr e; e.cfgFlags = cfg; Writer w; w.kind = Writer::EMITTER; w.encodings = false; Doc a = genDoc(c, S, o, e, w); Node l = looseNode(c, S, S.top, cfg, 0); if (nodeCount(l) > 1000) throw Discard{};
	string b = writeNode(c, l, w); size_t i = c.below(a.text.size() + 1), j = c.below(b.size() + 1);
	if (c.p(70)) { size_t p = a.text.rfind('\n', i), q = b.rfind('\n', j); if (p != string::npos) i = p + 1; if (q != string::npos) j = q + 1; } // at line ends
	against(k, S, cfg, a.text.substr(0, i) + b.substr(j));
}
