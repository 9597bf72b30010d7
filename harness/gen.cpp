#include "gen.h"
#include <cfloat>
#include <cmath>
#include <algorithm>

void collect(const cyaml_schema_value_t &s, u32 cfg, Node &n, vector<Ref> &out) {
	out.push_back({&n, &s});
	if (n.k == Node::MAP && s.type == CYAML_MAPPING) {
		for (size_t i = 0; i + 1 < n.items.size(); i += 2) {
			const cyaml_schema_field_t *f = s.mapping.fields;
			for (; f->key; f++) if (strEq(s, cfg, n.items[i].text, f->key)) break;
			if (f->key) collect(f->value, cfg, n.items[i + 1], out);
		}
	} else if (n.k == Node::SEQ && isSeq(s)) for (auto &x : n.items) collect(*s.sequence.entry, cfg, x, out);
}
void collectAll(Node &n, vector<Node *> &out) { out.push_back(&n); for (auto &x : n.items) collectAll(x, out); }
u64 nodeCount(const Node &n) { u64 c = 1; for (auto &x : n.items) c += nodeCount(x); return c; }

static string big(unsigned __int128 v) { if (!v) return "0"; string s; while (v) { s += (char)('0' + (int)(v % 10)); v /= 10; } return string(s.rbegin(), s.rend()); }
static string inBase(unsigned __int128 v, int base) { if (!v) return "0"; string s; while (v) { int d = (int)(v % base); s += (char)(d < 10 ? '0' + d : 'a' + d - 10); v /= base; } return string(s.rbegin(), s.rend()); }
string intBoundaryText(Choices &c, const cyaml_schema_value_t &s) {
	// a boundary, a small step away from it, in some notation, perhaps spoilt
	unsigned __int128 m = 0; bool neg = false;
	switch (c.below(8)) {
	case 0: m = 0; break;
	case 1: { u32 b = s.data_size >= 1 && s.data_size <= 8 ? s.data_size : 1 + c.below(8); m = (unsigned __int128)1 << (b * 8 - 1); neg = c.p(50); break; }
	case 2: { u32 b = s.data_size >= 1 && s.data_size <= 8 ? s.data_size : 1 + c.below(8); m = (unsigned __int128)1 << (b * 8); break; }
	case 3: m = (unsigned __int128)1 << 63; neg = c.p(60); break;
	case 4: m = (unsigned __int128)1 << 64; neg = c.p(30); break;
	case 5: if (s.type == CYAML_INT) { i64 l = c.p(50) ? s.integer.min : s.integer.max; neg = l < 0; m = neg ? 0 - (u64)l : (u64)l; } else if (s.type == CYAML_UINT) m = c.p(50) ? s.unsigned_integer.min : s.unsigned_integer.max; else m = c.below(20); break;
	case 6: m = (unsigned __int128)1 << c.below(66); neg = c.p(30); break;
	default: { int bits = (int)c.below(65); m = bits ? c.below(0) >> (64 - bits) : 0; neg = c.p(30); }
	}
	if (c.p(70)) { i64 d = c.range(-3, 3); if (neg) d = -d; if (d < 0 && m < (unsigned __int128)-d) { m = (unsigned __int128)-d - m; neg = !neg; } else m += d; }
	string t, sign = neg ? "-" : c.p(6) ? "+" : "";
	switch (c.below(8)) {
	case 0: t = "0x" + inBase(m, 16); break;
	case 1: t = "0X" + inBase(m, 16); for (auto &ch : t) if (ch >= 'a' && ch <= 'f' && c.p(50)) ch -= 32; break;
	case 2: t = "0" + inBase(m, 8); break;
	case 3: t = "0x" + string(c.below(20), '0') + inBase(m, 16); break;
	default: t = big(m);
	}
	t = sign + t;
	if (c.p(18)) {
		static const char *sfx[] = {" ", "x", ".0", "e1", "L", "_0", ",", "-", "\n", "0x", "h", "\t", "9z", "\xc2\xa0"};
		static const char *pre[] = {" ", "-", "+", "--", "$", "\t", "0", "0x", "\n ", "_"};
		switch (c.below(4)) {
		case 0: t += sfx[c.below(14)]; break;
		case 1: t = pre[c.below(10)] + t; break;
		case 2: { static const char *w[] = {"", " ", "-", "+", "0x", "0X", "0xg", "08", "019", "1e3", "1.0", ".", "abc", "0o17", "1_000", "true", "- 5", "+ 5", "-+5", "00", "-0", "+0", "-0x0", "0x-1", "0x+1", "1 2", "null", "~", "inf", "0b1", "1\n", "\n", "99999999999999999999999999999999999999", "-99999999999999999999999999999", "0x00000000000000000000000000000001", "0xfffffffffffffffff"}; t = w[c.below(sizeof w / sizeof *w)]; break; }
		default: if (!t.empty()) t.insert(c.below(t.size() + 1), 1, " .x-+9a"[c.below(7)]);
		}
	}
	return t;
}
string floatBoundaryText(Choices &c, const cyaml_schema_value_t &s) {
	static const char *w[] = {"3.40282346638528859812e38", "3.4028235677973366e38", "3.40282356e38", "3.5e38", "1e39", "-1e39", "1.17549435e-38", "1.1754943e-38", "1.1754942e-38", "1e-38", "1e-45", "1e-46", "7e-46", "1e-300", "-1e-310", "1.7976931348623157e308", "1.7976931348623159e308", "1.8e308", "1e400", "-1e400", "2.2250738585072014e-308", "2.2250738585072011e-308", "4.9e-324", "2e-324", "1e-400",
		"0", "-0", "0.0", "-0.0", "1", "0x1p3", "0x1.8p-1", "0x.8", "1e", "1e+", ".", "-", "+", "", " ", "1.5 ", " 1.5", "1.5f", "1,5", "1.5.2", "inf", "-inf", "nan", "infinity", "INF", "NaN", "nan(12)", ".inf", ".nan", "1e5", "1E5", "1e+5", "1_000", "0.1", "0.30000000000000004", "16777217", "9007199254740993", "1e22", "123456789012345678901234567890", "true", "abc", "1 2", "--1", "+1.5", "0e0", "0e999999999999", "1e-999999999", "1e999999999", "5e-1", "5.", ".5", "-.5e-3", "0x", "0x1", "0xg", "1d", "1\n", "~", "null"};
	switch (c.below(5)) {
	case 0: case 1: return w[c.below(sizeof w / sizeof *w)];
	case 2: { u64 b = c.below(0); double d; if (s.data_size == 4) { float f; u32 x = (u32)b; memcpy(&f, &x, 4); d = f; } else memcpy(&d, &b, 8); return sfmt("%.*g", 5 + (int)c.below(14), d); }
	case 3: { double base = c.p(50) ? (double)FLT_MAX : c.p(50) ? (double)FLT_MIN : c.p(50) ? DBL_MAX : DBL_MIN; return sfmt("%s%.*e", c.p(30) ? "-" : "", 4 + (int)c.below(16), base * (1 + (double)c.range(-4, 4) * 1e-8)); }
	default: return sfmt("%lld.%llue%d", (long long)c.range(-9999, 9999), (unsigned long long)c.below(1000000), (int)c.range(-330, 320));
	}
}
string scalarText(Choices &c, const cyaml_schema_value_t &s) {
	switch (s.type) {
	case CYAML_INT: case CYAML_UINT: return intBoundaryText(c, s);
	case CYAML_FLOAT: return floatBoundaryText(c, s);
	case CYAML_BOOL: { static const char *w[] = {"true", "false", "True", "FALSE", "yes", "no", "YES", "No", "on", "off", "oFF", "enable", "disable", "DISABLE", "1", "0", "00", "", "f", "n", "false ", " false", "falsey", "nope", "of", "disabled", "2", "-0", "0x0", "null", "~", "fa\xc5\xbf""e"}; return w[c.below(sizeof w / sizeof *w)]; }
	case CYAML_ENUM: case CYAML_FLAGS:
		if (s.enumeration.count && c.p(70)) {
			string t = s.enumeration.strings[c.below(s.enumeration.count)].str;
			switch (c.below(5)) { case 0: return recase(c, t); case 1: return t + "x"; case 2: return t.empty() ? "x" : t.substr(0, t.size() - 1); default: return t; }
		}
		return intBoundaryText(c, s);
	case CYAML_STRING: {
		u64 lim[] = {s.string.min, s.string.max, s.data_size, (u64)s.string.max + 1, (u64)s.string.min - 1};
		u64 n = lim[c.below(5)]; if (n > 600) n = c.below(40);
		GenOpt o; string t = genString(c, o, 0, n); if (c.p(60)) while (t.size() < n) t += "abcdefgh"[t.size() % 8];
		return t; }
	default: { static const char *w[] = {"", "~", "null", "x", "0", "[]"}; return w[c.below(6)]; }
	}
}
Node junkNode(Choices &c, int depth) {
	Node n;
	int k = depth <= 0 ? 0 : (int)c.below(4);
	if (k == 1) { n.k = Node::SEQ; int m = c.below(4); for (int i = 0; i < m; i++) n.items.push_back(junkNode(c, depth - 1)); }
	else if (k == 2) { n.k = Node::MAP; int m = c.below(4); for (int i = 0; i < m; i++) { n.items.push_back(c.p(6) ? junkNode(c, 1) : Node::S(sfmt("k%d", (int)c.below(5)))); n.items.push_back(junkNode(c, depth - 1)); } }
	else { GenOpt o; static const char *w[] = {"", "~", "null", "1", "a", "x: y", "-5", "true", "name", "value"}; n = Node::S(c.p(70) ? string(w[c.below(10)]) : genString(c, o, 0, 12)); }
	return n;
}
Node looseNode(Choices &c, const Schema &S, const cyaml_schema_value_t &s, u32 cfg, int depth) {
	if (c.p(5)) return junkNode(c, 2);
	if (nullable(s) && c.p(20)) { static const char *w[] = {"", "~", "null", "Null", "NULL", "nULL"}; return Node::S(w[c.below(6)]); }
	Node n;
	switch (s.type) {
	case CYAML_MAPPING: {
		n.k = Node::MAP; if (depth > 8) return n;
		for (auto f = s.mapping.fields; f->key; f++) {
			auto m = S.metaOf(&f->value);
			bool rec = m && m->recursive;
			if (c.p((f->value.flags & CYAML_FLAG_OPTIONAL) ? (rec && depth > 3 ? 90 : 45) : 5)) continue;
			string key = f->key; if (c.p(10)) key = recase(c, key);
			n.items.push_back(Node::S(key)); n.items.push_back(looseNode(c, S, f->value, cfg, depth + 1));
		}
		if (c.p(5)) { n.items.push_back(Node::S(sfmt("unknown%d", (int)c.below(3)))); n.items.push_back(junkNode(c, 3)); }
		if (n.items.size() && c.p(4)) { size_t i = c.below(n.items.size() / 2); Node a = n.items[2 * i], b = n.items[2 * i + 1]; n.items.push_back(a); n.items.push_back(b); }
		if (c.p(40)) for (size_t j = n.items.size() / 2; j > 1; j--) { size_t k = c.below(j); std::swap(n.items[2 * j - 2], n.items[2 * k]); std::swap(n.items[2 * j - 1], n.items[2 * k + 1]); }
		return n; }
	case CYAML_BITFIELD:
		n.k = Node::MAP;
		for (u32 i = 0; i < s.bitfield.count; i++) if (c.p(60)) {
			string t = s.bitfield.bitdefs[i].name; if (c.p(10)) t = recase(c, t);
			n.items.push_back(Node::S(t));
			if (c.p(4)) { n.items.push_back(junkNode(c, 2)); continue; }
			u32 b = s.bitfield.bitdefs[i].bits; unsigned __int128 lim = b >= 1 && b <= 64 ? (unsigned __int128)1 << b : 1;
			unsigned __int128 v = c.p(60) ? (lim > 1 ? c.below((u64)(lim >> 64 ? 0 : lim)) : 0) : lim - 1 + c.below(3) - 1;
			n.items.push_back(Node::S(c.p(8) ? scalarText(c, s) : c.p(30) ? "0x" + inBase(v, 16) : big(v)));
		}
		if (c.p(5)) { n.items.push_back(Node::S("nobits")); n.items.push_back(Node::S("0")); }
		return n;
	case CYAML_FLAGS: {
		n.k = Node::SEQ; int m = c.below(5);
		for (int i = 0; i < m; i++) n.items.push_back(c.p(3) ? junkNode(c, 2) : Node::S(scalarText(c, s)));
		return n; }
	case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: {
		n.k = Node::SEQ;
		u64 m;
		switch (c.below(8)) { case 0: m = s.sequence.min; m = m ? m - 1 : 0; break; case 1: m = (u64)s.sequence.max + 1; break; case 2: m = s.sequence.max; break; case 3: m = s.sequence.min; break;
		default: { u64 hi = s.sequence.max - s.sequence.min; m = s.sequence.min + c.below((hi < 5 ? hi : 5) + 1); } }
		if (m > 12) m = c.below(4);
		if (depth > 8) m = 0;
		for (u64 i = 0; i < m; i++) n.items.push_back(looseNode(c, S, *s.sequence.entry, cfg, depth + 1));
		return n; }
	case CYAML_IGNORE: return junkNode(c, 3);
	default: {
		if (c.p(75)) { // mostly fine, so that later violations are reached
			GenOpt o; Expr e; e.cfgFlags = cfg; Val v = genVal(c, S, s, o, depth); return express(c, S, s, v, e);
		}
		return Node::S(scalarText(c, s)); }
	}
}
string mutateNode(Choices &c, const Schema &S, u32 cfg, Node &doc) {
	vector<Ref> rs; collect(S.top, cfg, doc, rs);
	Ref r = rs[c.below(rs.size())];
	Node &n = *r.n; auto &s = *r.s;
	for (int t = 0; t < 8; t++) {
		switch (c.below(13)) {
		case 0: n = junkNode(c, 2); return "replaced a node by junk";
		case 1: if (n.k == Node::MAP && !n.items.empty()) { size_t i = c.below(n.items.size() / 2) * 2; n.items.erase(n.items.begin() + i, n.items.begin() + i + 2); return "removed a member"; } break;
		case 2: if (n.k == Node::MAP && !n.items.empty()) { size_t i = c.below(n.items.size() / 2) * 2; Node a = n.items[i], b = n.items[i + 1]; size_t at = c.below(n.items.size() / 2 + 1) * 2; n.items.insert(n.items.begin() + at, b); n.items.insert(n.items.begin() + at, a); return "repeated a member"; } break;
		case 3: if (n.k == Node::MAP) { GenOpt o; size_t at = c.below(n.items.size() / 2 + 1) * 2; n.items.insert(n.items.begin() + at, junkNode(c, 3)); n.items.insert(n.items.begin() + at, Node::S(genKey(c, o, c.below(30)))); return "added an unknown member"; } break;
		case 4: if (n.k == Node::MAP && !n.items.empty()) { size_t i = c.below(n.items.size() / 2) * 2; string k = n.items[i].text; n.items[i] = c.p(40) ? Node::S(recase(c, k)) : c.p(50) ? Node::S(k + "x") : c.p(50) && !k.empty() ? Node::S(k.substr(0, k.size() - 1)) : junkNode(c, 2); return "changed a key"; } break;
		case 5: if (n.k == Node::SEQ && !n.items.empty()) { n.items.erase(n.items.begin() + c.below(n.items.size())); return "removed an entry"; } break;
		case 6: if (n.k == Node::SEQ && !n.items.empty()) { Node x = n.items[c.below(n.items.size())]; int m = 1 + c.below(3); while (m--) n.items.insert(n.items.begin() + c.below(n.items.size() + 1), x); return "repeated an entry"; } break;
		case 7: if (n.k == Node::SEQ) { n.items.insert(n.items.begin() + c.below(n.items.size() + 1), junkNode(c, 2)); return "added an entry"; } break;
		case 8: case 9: if (n.k == Node::SCALAR) { n.text = scalarText(c, s); return "changed a scalar"; } break;
		case 10: n = looseNode(c, S, s, cfg, 2); return "rewrote a node";
		case 11: { static const char *w[] = {"", "~", "null", "Null", "NULL", "nULL"}; n = Node::S(w[c.below(6)]); return "replaced a node by null text"; }
		case 12: if (n.k == Node::SCALAR && !n.text.empty() && c.p(40)) { n.text.insert(c.below(n.text.size() + 1), 1, '\0'); return "put NUL into a scalar"; } else if (c.p(10)) { n = Node(); n.k = Node::ALIAS; n.text = "nope"; return "undefined alias"; } break;
		}
	}
	n = junkNode(c, 2);
	return "replaced a node by junk";
}
string mutateBytes(Choices &c, string t) {
	int k = 1 + c.below(4);
	static const char *tok[] = {"[", "]", "{", "}", ",", ":", "- ", "? ", "&a ", "*a", "!t ", "|\n", ">\n", "'", "\"", "#", "%", "@", "`", "---\n", "...\n", "\n", "  ", "\t", "\r", "<<: ", "\\x00", "\"\\0\"", "~", "\xef\xbb\xbf", "%YAML 1.1\n", "%TAG ! x\n", "*b ", "&b "};
	while (k--) {
		size_t n = t.size(), at = c.below(n + 1);
		switch (c.below(10)) {
		case 0: if (n) t.erase(at < n ? at : n - 1, 1 + c.below(4)); break;
		case 1: t.insert(at, 1, (char)c.below(256)); break;
		case 2: if (at < n) t[at] = (char)c.below(256); break;
		case 3: case 4: case 5: t.insert(at, tok[c.below(sizeof tok / sizeof *tok)]); break;
		case 6: t.resize(at); break;
		case 7: if (n) { size_t b = c.below(n), l = 1 + c.below(20); string x = t.substr(b, l); t.insert(at, x); } break;
		case 8: if (at < n) t[at] = t[at] ^ (1 << c.below(8)); break;
		case 9: { size_t l = t.find('\n', at); if (l != string::npos) { size_t m = t.find('\n', l + 1); t.erase(l, m == string::npos ? string::npos : m - l); } break; }
		}
	}
	return t;
}
Doc genDoc(Choices &c, const Schema &S, const GenOpt &o, const Expr &e, const Writer &w) {
	Doc d; d.v = genVal(c, S, S.top, o);
	d.n = express(c, S, S.top, d.v, e);
	if (!S.longLen && nodeCount(d.n) > 3000) throw Discard{};
	d.text = writeNode(c, d.n, w, &d.how);
	return d;
}
// families of anchor names: plain ones, long ones that differ in one place, prefixes of each other, differing in case
Names::Names(Choices &c) {
	family = c.p(70) ? (int)c.below(2) : 2 + (int)c.below(6);
	static const size_t ls[] = {126, 127, 254, 255, 256, 257, 511, 512}; len = family >= 5 ? (c.p(60) ? c.pick(vector<size_t>(ls, ls + 8)) : 3 + c.below(600)) : 0;
}
string Names::name(int id) const {
	switch (family) {
	case 0: return sfmt("a%d", id);
	case 1: return sfmt("anchor-%d", id);
	case 2: return string(1 + id % 300, 'x') + (id >= 300 ? sfmt("%d", id) : "");
	case 3: { string o; for (int i = 0; i < 8; i++) o += (char)((id >> i & 1 ? 'A' : 'a') + i); return o + (id >> 8 ? sfmt("%d", id >> 8) : ""); }
	case 4: { static const char w[] = "_-0aAzZ9"; string o(1, w[id & 7]); for (int i = id >> 3; i; i >>= 3) o += w[i & 7]; return o; }
	case 5: return string(len, 'n') + sfmt("%d", id);
	case 6: return sfmt("%d", id) + string(len, 'n');
	default: return string(len, 'n') + sfmt("%d", id) + string(len / 2 + 1, 'm');
	}
}
static thread_local Names g_names;
typedef vector<int> Ids; // names, by number
static void aliasRec(Choices &c, Node &n, int pct, bool keys, Ids &avail, vector<string> &names, int &aliases, bool isKey, bool top) {
	if (!top && (!isKey || keys) && !avail.empty() && c.p(pct)) { Node a; a.k = Node::ALIAS; a.text = names[c.pick(avail)]; n = a; aliases++; return; }
	bool an = n.k != Node::ALIAS && (!isKey || keys) && c.p(isKey ? 10 : 35);
	if (an) {
		int id;
		if (c.p(20) && !avail.empty()) id = c.pick(avail); else { id = names.size(); names.push_back(g_names.name(id)); }
		n.anchor = names[id];
		if (n.items.empty()) { if (std::find(avail.begin(), avail.end(), id) == avail.end()) avail.push_back(id); return; }
		// the name is not available inside its own node when it is new, and
		// reuse while in progress is left out: the meaning is debatable
		Ids in; for (int x : avail) if (x != id) in.push_back(x);
		for (size_t i = 0; i < n.items.size(); i++) aliasRec(c, n.items[i], pct, keys, in, names, aliases, n.k == Node::MAP && i % 2 == 0, false); // what is in use here is left out, so nothing adds the name
		vector<bool> has(names.size()); for (int x : avail) has[x] = true;
		in.push_back(id); for (int x : in) if (!has[x]) avail.push_back(x), has[x] = true;
		return;
	}
	for (size_t i = 0; i < n.items.size(); i++) aliasRec(c, n.items[i], pct, keys, avail, names, aliases, n.k == Node::MAP && i % 2 == 0, false);
}
static bool inProgress(const Node &n, vector<const string *> &open) {
	// a nested node that redefines an anchor still open around it
	if (!n.anchor.empty()) { for (auto o : open) if (*o == n.anchor) return true; open.push_back(&n.anchor); }
	bool r = false; for (auto &x : n.items) if (inProgress(x, open)) { r = true; break; }
	if (!n.anchor.empty()) open.pop_back();
	return r;
}
int addAliases(Choices &c, Node &doc, int pct, bool keys) {
	Ids avail; vector<string> names; int aliases = 0; g_names = Names(c);
	aliasRec(c, doc, pct, keys, avail, names, aliases, false, true);
	vector<const string *> open; if (inProgress(doc, open)) throw Discard{};
	return aliases;
}
static bool expandRec(const Node &n, std::map<string, Node> &def, Node &out, u64 &budget) {
	if (n.k == Node::ALIAS) { auto i = def.find(n.text); if (i == def.end()) return false; out = i->second; u64 k = nodeCount(out); if (k > budget) throw Discard{}; budget -= k; return true; }
	out = Node(); out.k = n.k; out.text = n.text; out.style = n.style;
	for (auto &x : n.items) { out.items.emplace_back(); if (!expandRec(x, def, out.items.back(), budget)) return false; }
	if (!n.anchor.empty()) def[n.anchor] = out;
	return true;
}
Node expandAliases(const Node &doc, bool *bad) { std::map<string, Node> def; Node o; u64 b = 20000; *bad = !expandRec(doc, def, o, b); return o; }

Wrap wrapSchema(Choices &c, Schema &S, const cyaml_schema_value_t &v0, int pos) {
	// 0 top, 1 member, 2 entry of a variable sequence (member), 3 entry of an inline fixed sequence, 4 top sequence entry
	Wrap w; w.pos = pos >= 0 ? pos : (int)c.below(5);
	if (v0.type == CYAML_SEQUENCE && w.pos >= 2) w.pos = 1;
	if (v0.type == CYAML_IGNORE) w.pos = 1;
	cyaml_schema_value_t v = v0;
	if (w.pos >= 2 && slotWidth(v) == 0) v.sequence.min = v.sequence.max = 1; // entries need a size
	memset(&S.top, 0, sizeof S.top);
	if (w.pos == 0) {
		v.flags = (cyaml_flag)(v.flags | CYAML_FLAG_POINTER);
		S.top = v; w.s = &S.top; return w;
	}
	if (w.pos == 4) {
		S.values.push_back(v); auto &e = S.values.back();
		S.top.type = CYAML_SEQUENCE; S.top.flags = CYAML_FLAG_POINTER; S.top.data_size = slotWidth(e);
		S.top.sequence.entry = &e; S.top.sequence.min = 0; S.top.sequence.max = CYAML_UNLIMITED; w.s = &e; return w;
	}
	S.fields.emplace_back(4); auto &f = S.fields.back(); memset(f.data(), 0, 4 * sizeof f[0]);
	u32 off = c.below(9);
	auto guard = [&](int i, const char *k) { f[i].key = k; f[i].value.type = CYAML_UINT; f[i].value.data_size = 1; f[i].value.flags = CYAML_FLAG_OPTIONAL; f[i].value.unsigned_integer.missing = 0x77; auto &m = S.meta[&f[i].value]; m.hasDefault = true; m.def = Val::Num(0x77); f[i].data_offset = off; off += 1; };
	guard(0, "guard before");
	f[1].key = "v";
	if (w.pos == 1) { f[1].value = v; w.s = &f[1].value; if (v.type == CYAML_SEQUENCE) f[1].count_size = 4; }
	else {
		S.values.push_back(v); auto &e = S.values.back();
		f[1].value.type = w.pos == 2 ? CYAML_SEQUENCE : CYAML_SEQUENCE_FIXED;
		f[1].value.flags = w.pos == 2 ? CYAML_FLAG_POINTER : (cyaml_flag)0;
		f[1].value.data_size = slotWidth(e); f[1].value.sequence.entry = &e; f[1].value.sequence.min = f[1].value.sequence.max = 1;
		if (w.pos == 2) { f[1].count_size = 2; f[1].value.sequence.max = 8; }
		w.s = &e;
	}
	f[1].data_offset = off; off += slotWidth(f[1].value);
	if (f[1].count_size) { f[1].count_offset = off; off += f[1].count_size; }
	guard(2, "guard after");
	S.top.type = CYAML_MAPPING; S.top.flags = CYAML_FLAG_POINTER; S.top.data_size = off; S.top.mapping.fields = f.data();
	return w;
}
Node wrapNode(const Wrap &w, const Node &n) {
	Node s, m;
	if (w.pos == 0) return n;
	s.k = Node::SEQ; s.items = {n};
	if (w.pos == 4) return s;
	m.k = Node::MAP; m.items = {Node::S("v"), w.pos == 1 ? n : s};
	return m;
}
Val wrapVal(const Wrap &w, const Val &v) {
	Val s, m;
	if (w.pos == 0) return v;
	s.k = Val::SEQ; s.kids = {v};
	if (w.pos == 4) return s;
	m.k = Val::MAP; m.kids = {Val::Num(0x77), w.pos == 1 ? v : s, Val::Num(0x77)};
	return m;
}
