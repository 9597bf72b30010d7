#include "../gen.h"
#include <algorithm>
static const struct { unsigned up, lo; } caseTab[] = {
#include "../foldtab.inc"
};
static const size_t nCase = sizeof caseTab / sizeof *caseTab;

static string u8enc(unsigned c) {
	string o;
	if (c < 0x80) o += (char)c;
	else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); }
	else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
	else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
	return o;
}
static string quotedText(const string &s) { // well-formed text, double quoted
	string o = "\""; size_t i = 0;
	while (i < s.size()) {
		unsigned char b = s[i]; unsigned cp; size_t n;
		if (b < 0x80) cp = b, n = 1; else if (b < 0xe0) cp = (b & 31) << 6 | (s[i + 1] & 63), n = 2;
		else if (b < 0xf0) cp = (b & 15) << 12 | (s[i + 1] & 63) << 6 | (s[i + 2] & 63), n = 3;
		else cp = (b & 7) << 18 | (s[i + 1] & 63) << 12 | (s[i + 2] & 63) << 6 | (s[i + 3] & 63), n = 4;
		i += n;
		if (cp < 32 || cp >= 127 || cp == '"' || cp == '\\') o += sfmt("\\U%08x", cp); else o += (char)cp;
	}
	return o + "\"";
}
// A place where names are looked up: 0 key, 1 enum, 2 flags, 3 bitfield.
struct Place {
	Schema S; Arena mem; int kind = 0; vector<string> names; cyaml_schema_value_t *at = nullptr;
	const char *exact(const string &s) { char *p = (char *)mem.alloc()(s.size() + 1); memcpy(p, s.data(), s.size()); return p; }
	void make(int k, const vector<string> &n, u32 flag, bool strict) {
		kind = k; names = n; auto &t = S.top; memset(&t, 0, sizeof t); u32 fl = CYAML_FLAG_POINTER | flag | (strict ? CYAML_FLAG_STRICT : 0);
		switch (k) {
		case 0: {
			S.fields.emplace_back(n.size() + 1); auto &f = S.fields.back(); memset(f.data(), 0, f.size() * sizeof f[0]);
			for (size_t i = 0; i < n.size(); i++) { f[i].key = exact(n[i]); f[i].data_offset = i * 4; f[i].value.type = CYAML_UINT; f[i].value.flags = CYAML_FLAG_OPTIONAL; f[i].value.data_size = 4; }
			t.type = CYAML_MAPPING; t.flags = (cyaml_flag)fl; t.data_size = n.size() * 4; t.mapping.fields = f.data(); break; }
		case 1: case 2: {
			S.strvals.emplace_back(n.size()); auto &v = S.strvals.back();
			for (size_t i = 0; i < n.size(); i++) { v[i].str = exact(n[i]); v[i].val = k == 1 ? (int64_t)(1000 + i * 7) : (int64_t)(1ull << (i % 64)); }
			t.type = k == 1 ? CYAML_ENUM : CYAML_FLAGS; t.flags = (cyaml_flag)fl; t.data_size = 8; t.enumeration.strings = v.data(); t.enumeration.count = n.size(); break; }
		default: {
			S.bitdefs.emplace_back(n.size()); auto &b = S.bitdefs.back();
			for (size_t i = 0; i < n.size(); i++) { b[i].name = exact(n[i]); b[i].offset = i % 64; b[i].bits = 1; }
			t.type = CYAML_BITFIELD; t.flags = (cyaml_flag)fl; t.data_size = 8; t.bitfield.bitdefs = b.data(); t.bitfield.count = n.size(); }
		}
	}
	string text(const string &b) const { switch (kind) { case 0: case 3: return "? " + quotedText(b) + "\n: 1\n"; case 1: return quotedText(b); default: return "[" + quotedText(b) + "]"; } }
};
// names against one text; returns whether some name matched
static bool lookup(Case &k, Place &p, u32 cfg, const string &b) {
	string t = p.text(b); Model m = modelText(p.S, cfg, t); if (m.ambiguous) return false;
	// the expected outcome by the rule alone
	long hit = -1; for (size_t i = 0; i < p.names.size() && hit < 0; i++) if (strEq(p.S.top, cfg, p.names[i], b)) hit = i;
	Rig r(cfg); r.log.keep = false; LoadRes res; k.evals++;
	try {
		checkAgainst(r, p.S, t, m, &res, false);
		bool strict = allSet(p.S.top.flags, CYAML_FLAG_STRICT), numeric = (p.kind == 1 || p.kind == 2) && !strict;
		if (hit < 0 && !numeric && !(cfg & CYAML_CFG_IGNORE_UNKNOWN_KEYS && p.kind == 0)) CHECK(res.err == (p.kind == 0 ? CYAML_ERR_INVALID_KEY : CYAML_ERR_INVALID_VALUE), "a name that is not in the list was accepted or gave the wrong error: %s", errName(res.err).c_str());
		if (hit >= 0) {
			CHECK(res.err == CYAML_OK, "a matching name was refused with %s", errName(res.err).c_str());
			switch (p.kind) {
			case 0: for (size_t i = 0; i < p.names.size(); i++) { u32 x; memcpy(&x, (u8 *)res.data + i * 4, 4); CHECK(x == (i == (size_t)hit), "key stored in member %zu instead of %ld", i, hit); } break;
			case 1: { i64 x; memcpy(&x, res.data, 8); CHECK(x == p.S.top.enumeration.strings[hit].val, "enum value is of another name"); break; }
			case 2: { i64 x; memcpy(&x, res.data, 8); CHECK(x == p.S.top.enumeration.strings[hit].val, "flag value is of another name"); break; }
			default: { u64 x; memcpy(&x, res.data, 8); CHECK(x == 1ull << (hit % 64), "bit is of another name"); }
			}
		}
	} catch (Fail &f) { k.desc = caseText(p.S, cfg, t); throw; }
	if (!res.err) doFree(r, p.S, res.data, res.count);
	return hit >= 0;
}
static vector<unsigned> family(unsigned cp) { // code points a wrong rule might take for the same letter
	std::set<unsigned> s{cp, cp ^ 0x20, cp + 1, cp - 1, cp + 32, cp - 32, cp + 0x50, cp - 0x50, cp ^ 1, cp + 26, cp - 26, cp + 16, cp - 16, cp + 0x30, cp & 0xff, cp & 0xffff, cp & 0x7f, cp + 0x100, cp ^ 0x40, cp ^ 0x80, (cp >> 6) | (cp & 63), cp & 0x7ff, cp + 0x10000, cp ^ 0x8000, 'k', 's', 'i', 'K', 'S', 'I', 0xe5, 0xdf, 0xfffd, '?', 1};
	for (size_t i = 0; i < nCase; i++) { if (caseTab[i].up == cp) s.insert(caseTab[i].lo); if (caseTab[i].lo == cp) s.insert(caseTab[i].up); }
	vector<unsigned> v; for (auto x : s) if (x && x < 0x110000 && !(x >= 0xd800 && x < 0xe000)) v.push_back(x);
	return v;
}
// every code point (in blocks of 512) as a one-letter name and inside names
PROP(C15, points, 2176, 13056) { // thorough: repeated with other surroundings
	Choices &c = k.c; static u64 seq = 0; (void)seq;
	// blocks are drawn at random, all Latin ones and a spread of the rest each run
	unsigned base = c.p(30) ? 512 * c.below(24) : 512 * c.below(0x110000 / 512); bool ins = !c.p(15); string pre = c.p(60) ? "" : c.p(50) ? "x" : "\xc3\xa9", post = c.p(60) ? "" : "Z";
	int kind = c.below(3); k.evals = 0; k.nontrivial = true; k.desc = sfmt("code points U+%04X..U+%04X at place %d, %s, between %s and %s\n", base, base + 511, kind, ins ? "insensitive" : "sensitive", quoted(pre).c_str(), quoted(post).c_str());
	u32 cfg = c.p(50) ? CYAML_CFG_CASE_INSENSITIVE : 0, flag = ins ? (cfg ? 0 : CYAML_FLAG_CASE_INSENSITIVE) : (cfg ? CYAML_FLAG_CASE_SENSITIVE : 0); int step = base < 512 * 24 ? 1 : 1 + c.below(8);
	for (unsigned cp = base; cp < base + 512; cp += step) {
		if (!cp || (cp >= 0xd800 && cp < 0xe000)) continue;
		vector<unsigned> fam = family(cp); for (size_t j = fam.size(); j > 1; j--) std::swap(fam[j - 1], fam[c.below(j)]);
		if (c.p(50)) { fam.erase(std::remove(fam.begin(), fam.end(), cp), fam.end()); } // only another form of it, if any
		vector<string> names; for (auto x : fam) names.push_back(pre + u8enc(x) + post); if (kind > 1 && names.size() > 60) names.resize(60);
		Place p; p.make(kind, names, flag, true); k.label(lookup(k, p, cfg, pre + u8enc(cp) + post) ? "matched" : "unmatched");
	}
}
// all pairs of Latin letters: names in either order, so each pair is compared
PROP(C15, latin, 1100, 8000) {
	Choices &c = k.c; static const vector<unsigned> all = [] { vector<unsigned> v; auto add = [&](unsigned a, unsigned b) { for (; a <= b; a++) v.push_back(a); }; add(0x21, 0x17f); add(0x180, 0x2af); add(0x370, 0x3ff); add(0x400, 0x45f); add(0x1e00, 0x1eff); add(0x2c60, 0x2c7f); add(0xff21, 0xff5a); add(0x2160, 0x217f); add(0xa722, 0xa78c); return v; }();
	bool desc = c.p(50); vector<unsigned> v(all.begin(), all.end()); if (desc) std::reverse(v.begin(), v.end()); vector<string> names; for (auto x : v) names.push_back(u8enc(x));
	int kind = c.below(2); Place p; p.make(kind, names, CYAML_FLAG_CASE_INSENSITIVE, true); k.evals = 0; k.nontrivial = true;
	size_t from = c.below(all.size() / 8 + 1) * 8; k.desc = sfmt("letters from U+%04X against all %zu letters, place %d%s\n", from < all.size() ? all[from] : 0, all.size(), kind, desc ? ", reversed" : "");
	for (size_t i = from; i < from + 8 && i < all.size(); i++) lookup(k, p, 0, u8enc(all[i]));
}
static unsigned randCp(Choices &c) {
	switch (c.below(9)) { case 0: case 1: return 'a' + c.below(26); case 2: return 'A' + c.below(26); case 3: return 32 + c.below(95); case 4: return 0xc0 + c.below(0x1c0); case 5: return 0x1e00 + c.below(0x100);
	case 6: { static const unsigned v[] = {0x130, 0x131, 0x17f, 0x212a, 0x212b, 0xdf, 0x1e9e, 0x3b1, 0x391, 0x3c2, 0x3c3, 0x430, 0x410, 0x10400, 0x10428, 0xfffd, 0xfb01, 0x1c5, 0x149, 0x2c62, 0x26b, 0x2126, 0x3c9, 0xff21, 0xff41, 0x10ffff, 0x7f, 0x80, 0x85, 0x7ff, 0x800, 0xffff, 0x10000, 0xd7ff, 0xe000}; return v[c.below(35)]; }
	case 7: return c.pick(vector<unsigned>{0xe9, 0xc9, 0xf7, 0xd7, 0xff, 0x178, 0xb5, 0x3bc, 0x39c}); default: { unsigned x = 1 + c.below(0x10ffff); return x >= 0xd800 && x < 0xe000 ? 0x4e00 : x; } }
}
static vector<unsigned> decodeAll(const string &s) { vector<unsigned> v; size_t i = 0; while (i < s.size()) { unsigned char b = s[i]; if (b < 0x80) v.push_back(b), i++; else if (b < 0xe0) v.push_back((b & 31) << 6 | (s[i + 1] & 63)), i += 2; else if (b < 0xf0) v.push_back((b & 15) << 12 | (s[i + 1] & 63) << 6 | (s[i + 2] & 63)), i += 3; else v.push_back((b & 7) << 18 | (s[i + 1] & 63) << 12 | (s[i + 2] & 63) << 6 | (s[i + 3] & 63)), i += 4; } return v; }
static string enc8(const vector<unsigned> &v) { string o; for (auto x : v) o += u8enc(x); return o; }
static string nearMiss(Choices &c, const string &a) {
	vector<unsigned> v = decodeAll(a); size_t n = v.size();
	auto at = [&]() -> size_t { return c.p(40) ? n - 1 : c.p(20) ? 0 : c.below(n); };
	switch (n ? c.below(10) : 9) {
	case 0: case 1: return recase(c, a);
	case 2: { size_t i = at(); auto f = family(v[i]); v[i] = c.pick(f); return recase(c, enc8(v)); }
	case 3: v.resize(c.below(n)); return recase(c, enc8(v));
	case 4: v.pop_back(); return recase(c, enc8(v));
	case 5: { size_t i = at(); v[i] = randCp(c); return recase(c, enc8(v)); }
	case 6: if (n > 1) { size_t i = c.below(n - 1); std::swap(v[i], v[i + 1]); } return enc8(v);
	case 7: { size_t i = at(); v.erase(v.begin() + i); return recase(c, enc8(v)); }
	case 8: return a;
	default: { string o = recase(c, a); int m = 1 + c.below(3); while (m--) o += u8enc(randCp(c)); return o; }
	}
}
static void rules(Choices &c, u32 &cfg, u32 &flag) { cfg = c.p(50) ? CYAML_CFG_CASE_INSENSITIVE : 0; if (c.p(10)) cfg |= CYAML_CFG_IGNORE_UNKNOWN_KEYS; flag = 0; switch (c.below(4)) { case 0: flag = CYAML_FLAG_CASE_INSENSITIVE; break; case 1: flag = CYAML_FLAG_CASE_SENSITIVE; break; } }
static string randName(Choices &c) { vector<unsigned> v; int n = c.p(10) ? 60 + c.below(400) : 1 + c.below(14); bool ascii = c.p(40); for (int i = 0; i < n; i++) { unsigned x = randCp(c); if (ascii && x > 126) x = 'a' + x % 26; v.push_back(x); } return enc8(v); }
PROP(C15, names, 25000, 1200000) {
	Choices &c = k.c; u32 cfg, flag; rules(c, cfg, flag); int kind = c.below(4); vector<string> names; string a = randName(c); names.push_back(a); int n = c.below(5); while (n--) names.push_back(c.p(60) ? nearMiss(c, a) : randName(c));
	for (size_t j = names.size(); j > 1; j--) std::swap(names[j - 1], names[c.below(j)]);
	Place p; p.make(kind, names, flag, kind == 0 || kind == 3 || c.p(70)); k.evals = 0; bool diff = false;
	k.desc = "schema: " + showSchema(p.S, p.S.top) + "\nconfig: " + cfgText(cfg) + "\ntexts:";
	for (int i = 0; i < 12; i++) { string b = nearMiss(c, c.p(70) ? a : c.pick(names)); k.desc += " " + quoted(b, 200); for (auto &x : names) if (b != x && foldCase(b) == foldCase(x)) diff = true; bool hit = lookup(k, p, cfg, b); k.label(hit ? "matched" : "unmatched"); }
	k.nontrivial = diff;
}
// names whose bytes are not valid text
PROP(C15, malformed, 30000, 1200000) {
	Choices &c = k.c; u32 cfg, flag; rules(c, cfg, flag); if (c.p(60)) flag = CYAML_FLAG_CASE_INSENSITIVE; int kind = c.below(4); string a = c.p(30) ? "" : randName(c); if (a.size() > 40) a = "Name";
	static const char *bad[] = {"\x80", "\xbf", "\xc0", "\xc1\x81", "\xc1\xa1", "\xc3", "\xc3(", "\xe0", "\xe0\x81\x81", "\xe0\x80\x81", "\xe1\x80", "\xe1", "\xed\xa0\x80", "\xed\xbf\xbf", "\xef\xbf", "\xf0", "\xf0\x80\x81\x81", "\xf0\x82\x82\xac", "\xf0\x9f", "\xf0\x9f\x98", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xf7\xbf\xbf\xbf", "\xf8\x88\x80\x80\x80", "\xfc\x80\x80\x80\x81\x81", "\xfe", "\xff", "\xf8", "\xfc\x84", "\xc2\xc2\xa9", "\xe2\x82x", "\xc4", "\xe1\xb8"};
	vector<string> names; int n = 1 + c.below(4);
	for (int i = 0; i < n; i++) { string x = a; size_t at = decodeAll(a).size(); vector<unsigned> v = decodeAll(a); size_t j = c.p(50) ? at : c.below(at + 1); string l = enc8(vector<unsigned>(v.begin(), v.begin() + j)), r = enc8(vector<unsigned>(v.begin() + j, v.end())); string b = c.p(70) ? string(bad[c.below(sizeof bad / sizeof *bad)]) : string(); if (b.empty()) { int q = 1 + c.below(4); while (q--) b += (char)(0x80 + c.below(128)); } x = l + b + r; if (c.p(20) && x.size() > 1) x.pop_back(); names.push_back(x); }
	bool mal = false; for (auto &x : names) mal |= !utf8Valid(x);
	if (c.p(30)) names.push_back(a);
	Place p; p.make(kind, names, flag, kind == 0 || kind == 3 || c.p(70)); k.evals = 0; k.nontrivial = mal;
	k.desc = "schema: " + showSchema(p.S, p.S.top) + "\nconfig: " + cfgText(cfg) + "\ntexts:";
	for (int i = 0; i < 12; i++) {
		string b; switch (c.below(6)) { case 0: b = nearMiss(c, a); break; case 1: b = a; break;
		case 2: { string x = c.pick(names); for (unsigned char ch : x) if (ch < 0x80) b += (char)ch; break; } // the bad bytes left out
		case 3: { string x = c.pick(names); for (unsigned char ch : x) b += ch < 0x80 ? string(1, (char)ch) : u8enc(ch); break; } // read as Latin-1
		case 4: { string x = c.pick(names); size_t j = 0; while (j < x.size()) { unsigned char ch = x[j]; if (ch < 0x80) { b += (char)ch; j++; continue; } // as a careless decoder would
			unsigned cp = ch < 0xe0 ? ch & 31 : ch < 0xf0 ? ch & 15 : ch & 7; size_t l = ch < 0xc0 ? 1 : ch < 0xe0 ? 2 : ch < 0xf0 ? 3 : ch < 0xf8 ? 4 : ch < 0xfc ? 5 : 6; for (size_t q = 1; q < l; q++) cp = cp << 6 | (j + q < x.size() ? (u8)x[j + q] & 63 : 0); j += l; if (cp && cp < 0x110000 && !(cp >= 0xd800 && cp < 0xe000)) b += u8enc(cp); } break; }
		default: { string x = c.pick(names); for (unsigned char ch : x) b += ch < 0x80 ? string(1, (char)ch) : string("?"); } }
		if (b.find("\xef\xbf\xbd") != string::npos || b.find('\0') != string::npos) continue;
		k.desc += " " + quoted(b, 200); k.label(lookup(k, p, cfg, b) ? "matched" : "unmatched");
	}
}
// the rule of every value by itself, in schemas where it differs from value to value
PROP(C15, nested, 30000, 1500000) {
	Choices &c = k.c; Schema S; GenOpt o; o.depth = 1 + c.below(4); o.casePct = 60; o.types = 1 << CYAML_MAPPING | 1 << CYAML_SEQUENCE | 1 << CYAML_ENUM | 1 << CYAML_FLAGS | 1 << CYAML_BITFIELD | 1 << CYAML_BOOL | 1 << CYAML_INT; o.insensitiveCfg = c.p(50); genSchema(c, S, o);
	u32 cfg = (o.insensitiveCfg ? CYAML_CFG_CASE_INSENSITIVE : 0) | (c.p(15) ? CYAML_CFG_IGNORE_UNKNOWN_KEYS : 0); Expr e; e.cfgFlags = cfg; Val v = genVal(c, S, S.top, o); Node n = express(c, S, S.top, v, e); if (nodeCount(n) > 800) throw Discard{};
	int changes = c.below(4); vector<Node *> all; collectAll(n, all); while (changes-- && !all.empty()) { Node *x = all[c.below(all.size())]; if (x->k == Node::SCALAR) x->text = c.p(75) ? recase(c, x->text) : nearMiss(c, x->text); }
	Writer w; w.kind = Writer::EMITTER; w.encodings = w.tags = false; string t = writeNode(c, n, w); k.desc = caseText(S, cfg, t); Model m = modelText(S, cfg, t); if (m.ambiguous) throw Discard{};
	Rig r(cfg); r.log.keep = false; checkAgainst(r, S, t, m); k.label("outcome:" + errName(m.err)); k.nontrivial = all.size() > 2;
}
