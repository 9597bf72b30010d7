#include "schema.h"
#include <cmath>
#include <cfloat>

thread_local CbLog *g_cb;

// ------------------------------------------------------------ strings
static const struct { unsigned up, lo; } foldTab[] = {
#include "foldtab.inc"
};
static const size_t nFold = sizeof foldTab / sizeof *foldTab;
static string enc(unsigned c) {
	string s;
	if (c < 0x80) s += (char)c;
	else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); }
	else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
	else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
	return s;
}
static bool decode(const string &s, size_t &i, unsigned &c) {
	unsigned char b = s[i]; unsigned n = b < 0x80 ? 1 : (b & 0xe0) == 0xc0 ? 2 : (b & 0xf0) == 0xe0 ? 3 : (b & 0xf8) == 0xf0 ? 4 : 0;
	if (!n || i + n > s.size()) return false;
	c = n == 1 ? b : b & ((1 << (7 - n)) - 1);
	for (unsigned j = 1; j < n; j++) { unsigned char x = s[i + j]; if ((x & 0xc0) != 0x80) return false; c = c << 6 | (x & 63); }
	static const unsigned lo[] = {0, 0, 0x80, 0x800, 0x10000};
	if (c < lo[n]) return false;
	i += n; return true;
}
bool utf8Valid(const string &s) { size_t i = 0; unsigned c; while (i < s.size()) if (!decode(s, i, c) || (c >= 0xd800 && c < 0xe000) || c > 0x10ffff) return false; return true; }
string foldCase(const string &s) {
	string o; size_t i = 0;
	while (i < s.size()) {
		unsigned c; size_t j = i;
		if (!decode(s, i, c)) { o += s[j]; i = j + 1; continue; }
		if (c < 0x80) { o += (char)(c >= 'A' && c <= 'Z' ? c + 32 : c); continue; }
		static const std::unordered_map<unsigned, unsigned> fold = [] { std::unordered_map<unsigned, unsigned> m; for (size_t k = 0; k < nFold; k++) m.emplace(foldTab[k].up, foldTab[k].lo); return m; }();
		auto it = fold.find(c); if (it != fold.end()) c = it->second;
		o += enc(c);
	}
	return o;
}
bool insensitive(const cyaml_schema_value_t &s, u32 cfg) {
	if (s.flags & CYAML_FLAG_CASE_INSENSITIVE) return true;
	if (s.flags & CYAML_FLAG_CASE_SENSITIVE) return false;
	return cfg & CYAML_CFG_CASE_INSENSITIVE;
}
bool strEq(const cyaml_schema_value_t &s, u32 cfg, const string &a, const string &b) {
	return insensitive(s, cfg) ? foldCase(a) == foldCase(b) : a == b;
}
string recase(Choices &c, const string &s) {
	string o; size_t i = 0;
	while (i < s.size()) {
		unsigned ch; size_t j = i;
		if (!decode(s, i, ch)) { o += s[j]; i = j + 1; continue; }
		if (c.p(50)) {
			unsigned lo = ch;
			for (size_t k = 0; k < nFold; k++) if (foldTab[k].up == ch) lo = foldTab[k].lo;
			vector<unsigned> v{lo};
			for (size_t k = 0; k < nFold; k++) if (foldTab[k].lo == lo) v.push_back(foldTab[k].up);
			ch = v[c.below(v.size())];
		}
		o += enc(ch);
	}
	return o;
}
static unsigned genChar(Choices &c, const GenOpt &o) {
	int m = o.asciiStr ? (int)c.below(6) : (int)c.below(11);
	switch (m) {
	case 0: case 1: case 2: return 'a' + c.below(26);
	case 3: return '0' + c.below(10);
	case 4: return 0x20 + c.below(0x5f);
	case 5: { static const char sp[] = " :-#,[]{}\"'&*!|>%@`?~=\\/\n\t"; return sp[c.below(sizeof sp - 1)]; }
	case 6: return c.p(50) ? foldTab[c.below(nFold)].up : foldTab[c.below(nFold)].lo;
	case 7: { static const unsigned u[] = {0x3b1, 0x416, 0x20ac, 0x4e2d, 0xfffd, 0x1f600, 0x10ffff, 0x7ff, 0x800, 0xffff - 0x100, 0x10000, 0xd7ff, 0xe000}; return u[c.below(13)]; }
	case 8: { static const unsigned u[] = {1, 7, 8, 0xb, 0xc, 0xd, 0x1b, 0x1f, 0x7f, 0x85, 0xa0, 0x2028, 0x2029, 0x9f, 0xfeff}; return u[c.below(15)]; }
	default: return 'a' + c.below(4);
	}
}
string genString(Choices &c, const GenOpt &o, size_t min, size_t max) {
	size_t n;
	if (c.p(o.longStrPct)) n = c.below(700); else n = c.p(12) ? 0 : c.below(14);
	if (n < min) n = min;
	if (n > max) n = max;
	if (c.p(6)) { // words that look like something else
		static const char *w[] = {"null", "~", "true", "false", "0", "-1", "1e3", "- a", "a: b", "#x", "[]", "{}", "", " ", "...", "---", "*a", "&b", "!t", "a #b", "\n", "x\n", "\nx", "Null", "NULL", "nULL", "yes", "0x10", ".5", "<<", "=", "a:", "?", "? a", "-", "--- a", "\t", "a\n\n b\n"};
		string s = w[c.below(sizeof w / sizeof *w)];
		if (s.size() >= min && s.size() <= max) return s;
	}
	string s;
	int tries = 0;
	while (s.size() < n) {
		string e = enc(genChar(c, o));
		if (s.size() + e.size() > max || (s.size() + e.size() > n && tries++ < 4 && e.size() > 1)) { if (s.size() >= min) break; e = "x"; }
		s += e;
	}
	return s;
}
string genKey(Choices &c, const GenOpt &o, int i) {
	string s;
	switch (c.below(8)) {
	case 0: s = string(1, 'a' + i % 26); break;
	case 1: s = genString(c, o, 0, 12); break;
	case 2: { GenOpt a = o; a.asciiStr = true; s = genString(c, a, 1, 20); break; }
	default: { static const char *w[] = {"name", "value", "items", "id", "Key", "the key", "data", "kind", "size", "x-y", "a.b", "LIST"}; s = w[c.below(12)]; }
	}
	return s;
}
bool isNullText(const cyaml_schema_value_t &s, const string &t) {
	if (nullable(s) && t.empty()) return true;
	if (!nullableStr(s)) return false;
	return t == "~" || t == "null" || t == "Null" || t == "NULL";
}

// ------------------------------------------------------------ callbacks
u64 cbHash(int kind, u64 num, const string &str) {
	u64 h = num * 0x9e3779b97f4a7c15ull + kind * 77; h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
	return kind == 3 ? hashStr(str) >> 7 : h;
}
bool cbAccepts(const Schema &S, const cyaml_schema_value_t &s, int kind, u64 num, const string &str) {
	auto m = S.metaOf(&s);
	if (!m || !m->rejMod) return true;
	return cbHash(kind, num, str) % m->rejMod != m->rejRem;
}
// the number a mapping callback decides on: first inline numeric field
static const cyaml_schema_field_t *keyField(const cyaml_schema_value_t &s, size_t *idx) {
	size_t i = 0;
	for (auto f = s.mapping.fields; f->key; f++, i++)
		if (!isPtr(f->value) && (f->value.type <= CYAML_FLAGS || f->value.type == CYAML_BITFIELD)) { *idx = i; return f; }
	return nullptr;
}
u64 mapKeyNum(const cyaml_schema_value_t &s, const Val &v) { size_t i; auto f = keyField(s, &i); return f && v.k == Val::MAP ? v.kids[i].num : 0; }
static bool record(void *ctx, const cyaml_schema_value_t *s, CbCall c) {
	Paused pz;
	if (!g_cb) { fprintf(stderr, "unexpected callback\n"); abort(); }
	if (ctx != g_cb->ctxExpect && g_cb->err.empty()) g_cb->err = "callback got the wrong validation context";
	c.schema = s;
	u64 n = c.num;
	if (c.kind == 4) { size_t i; auto f = keyField(*s, &i); n = 0; if (f && c.str.size() >= f->data_offset + f->value.data_size) memcpy(&n, c.str.data() + f->data_offset, f->value.data_size); }
	c.accepted = cbAccepts(*g_cb->S, *s, c.kind, n, c.kind == 3 ? c.str : string());
	if (g_cb->acceptAll) c.accepted = true;
	if (g_cb->refuseAt >= 0) c.accepted = (long)g_cb->calls.size() != g_cb->refuseAt;
	if (g_cb->expect && g_cb->calls.size() < g_cb->expect->size() && (c.kind == 4 || c.kind == 5) && g_cb->err.empty()) {
		const CbCall &e = (*g_cb->expect)[g_cb->calls.size()];
		if (e.schema == s && e.kind == c.kind && (c.kind == 4 || c.num == e.num)) {
			MatchCtx m; m.checkGaps = c.kind == 4; // deep: everything below is complete too
			if (c.nullData ? !e.val.kids.empty() : !matchData(*s, (const u8 *)c.raw, e.val, m, (size_t)s->data_size * (c.kind == 5 ? c.num : 1)))
				g_cb->err = sfmt("callback %zu (%s) saw incomplete data %s", g_cb->calls.size() + 1, c.kind == 4 ? "mapping" : "sequence", m.err.c_str());
		}
	}
	c.raw = nullptr;
	g_cb->calls.push_back(c); clobberErrno(g_cb->calls.size());
	return c.accepted;
}
bool cbInt(void *x, const cyaml_schema_value_t *s, i64 v) { CbCall c{}; c.kind = 0; c.num = (u64)v; return record(x, s, c); }
bool cbUint(void *x, const cyaml_schema_value_t *s, u64 v) { CbCall c{}; c.kind = 1; c.num = v; return record(x, s, c); }
bool cbFloat(void *x, const cyaml_schema_value_t *s, double v) { CbCall c{}; c.kind = 2; memcpy(&c.num, &v, 8); return record(x, s, c); }
bool cbString(void *x, const cyaml_schema_value_t *s, const char *v) { Paused p; CbCall c{}; c.kind = 3; c.nullData = !v; if (v) c.str = v; return record(x, s, c); }
bool cbMapping(void *x, const cyaml_schema_value_t *s, const cyaml_data_t *v) { Paused p; CbCall c{}; c.kind = 4; c.nullData = !v; c.raw = v; if (v) c.str.assign((const char *)v, s->data_size); return record(x, s, c); }
bool cbSequence(void *x, const cyaml_schema_value_t *s, const cyaml_data_t *v, size_t n) { Paused p; CbCall c{}; c.kind = 5; c.num = n; c.nullData = !v; c.raw = v; if (v) c.str.assign((const char *)v, (size_t)s->data_size * n); return record(x, s, c); }

// ------------------------------------------------------------ schema generation
size_t slotSize(const cyaml_schema_value_t &s) {
	if (isSeq(s)) return (size_t)s.data_size * s.sequence.max;
	return s.data_size;
}
struct Anc { vector<cyaml_schema_field_t> *fields; vector<cyaml_schema_value_t *> fix; };
struct G {
	Choices &c; Schema &S; const GenOpt &o;
	vector<Anc *> anc;
	vector<cyaml_schema_field_t *> defaults;
	u32 cfg = 0; int n = 0;
};
static u32 genSize(Choices &c, const GenOpt &o) {
	if (c.p(o.oddSizePct)) { static const u32 z[] = {3, 5, 6, 7}; return z[c.below(4)]; }
	return 1u << c.below(4);
}
static u64 genBits(Choices &c, u32 size) {
	u64 m = maskOf(size), v;
	switch (c.below(7)) {
	case 0: v = c.below(10); break;
	case 1: v = 0 - c.below(10); break;
	case 2: v = (m >> 1) + c.below(3) - 1; break;
	case 3: v = m - c.below(2); break;
	case 4: v = 1ull << c.below(size * 8); break;
	case 5: v = c.below(300); break;
	default: v = c.below(0);
		{ int sh = c.below(64); v >>= sh; }
	}
	return v & m;
}
static void gv(G &g, cyaml_schema_value_t &out, int type, int depth, bool inSeq);

static void styleFlags(G &g, u32 &f) {
	if (!g.c.p(g.o.stylePct)) return;
	static const u32 fl[] = {CYAML_FLAG_BLOCK, CYAML_FLAG_FLOW, CYAML_FLAG_SCALAR_PLAIN, CYAML_FLAG_SCALAR_FOLDED, CYAML_FLAG_SCALAR_LITERAL, CYAML_FLAG_SCALAR_QUOTE_SINGLE, CYAML_FLAG_SCALAR_QUOTE_DOUBLE};
	f |= fl[g.c.below(7)];
	if (g.c.p(30)) f |= fl[g.c.below(7)];
}
static int pickType(G &g, int depth, bool inSeq) {
	vector<int> t;
	for (int i = 0; i < CYAML__TYPE_COUNT; i++) {
		if (!(g.o.types >> i & 1)) continue;
		if (i == CYAML_SEQUENCE && inSeq) continue;
		if (i == CYAML_IGNORE && (inSeq || !g.o.allowIgnore || g.o.roundTrip)) continue;
		bool cont = i == CYAML_MAPPING || i == CYAML_SEQUENCE || i == CYAML_SEQUENCE_FIXED;
		if (cont && depth <= 0) continue;
		t.push_back(i);
		if (cont) { t.push_back(i); t.push_back(i); }
	}
	if (t.empty()) return CYAML_UINT;
	return g.c.pick(t);
}
static bool foldedIn(const vector<string> &v, const string &s) { for (auto &x : v) if (foldCase(x) == foldCase(s)) return true; return false; }
static string freshName(G &g, vector<string> &used, int i, bool enumName) {
	for (int t = 0; t < 6; t++) {
		string s = genKey(g.c, g.o, i + t * 7);
		if (foldedIn(used, s)) continue;
		if (enumName && g.o.roundTrip) {
			bool bad = s.empty() || s == "~" || foldCase(s) == "null";
			char *e; strtoll(s.c_str(), &e, 0); if (*e == 0) bad = true;
			if (bad) continue;
		}
		used.push_back(s); return s;
	}
	string s = sfmt("n%d", i); while (foldedIn(used, s)) s += "_";
	used.push_back(s); return s;
}
static void genMapping(G &g, cyaml_schema_value_t &out, int depth) {
	Choices &c = g.c; const GenOpt &o = g.o;
	int n = g.n < 60 && c.p(o.widePct) ? 17 + c.below(o.wideMax - 16) : (int)c.below(o.maxFields + 1);
	if (c.p(o.chainPct)) n = 1 + c.below(2);
	g.S.fields.emplace_back(n + 1);
	auto &fv = g.S.fields.back();
	memset(fv.data(), 0, sizeof(fv[0]) * (n + 1));
	Anc a{&fv, {}};
	g.anc.push_back(&a);
	vector<string> used;
	bool chained = false;
	for (int i = 0; i < n; i++) {
		auto &f = fv[i];
		f.key = g.S.str(freshName(g, used, i, false));
		bool opt = c.p(o.optPct);
		if (c.p(o.recursePct) && !g.anc.empty()) {
			Anc *t = g.anc[c.below(g.anc.size())];
			cyaml_schema_value_t r; memset(&r, 0, sizeof r);
			r.type = CYAML_MAPPING; r.mapping.fields = t->fields->data();
			if (c.p(60)) {
				f.value = r;
				f.value.flags = (cyaml_flag)(CYAML_FLAG_POINTER | CYAML_FLAG_OPTIONAL);
				if (!o.roundTrip && c.p(30)) f.value.flags = (cyaml_flag)(CYAML_FLAG_POINTER_NULL_STR | CYAML_FLAG_OPTIONAL);
				t->fix.push_back(&f.value); g.S.meta[&f.value].recursive = 1;
			} else {
				g.S.values.push_back(r); auto &ev = g.S.values.back();
				bool ep = c.p(50);
				ev.flags = (cyaml_flag)(ep ? CYAML_FLAG_POINTER : 0);
				t->fix.push_back(&ev); g.S.meta[&ev].recursive = 1;
				memset(&f.value, 0, sizeof f.value);
				f.value.type = CYAML_SEQUENCE;
				f.value.flags = (cyaml_flag)(CYAML_FLAG_POINTER | CYAML_FLAG_OPTIONAL);
				f.value.sequence.entry = &ev; f.value.sequence.min = 0; f.value.sequence.max = CYAML_UNLIMITED;
				f.value.data_size = 8;
				if (!ep) t->fix.push_back(&f.value); // data_size follows the struct
				f.count_size = 4;
			}
			continue;
		}
		int type = pickType(g, depth, false);
		if (!chained && c.p(o.chainPct)) { type = c.p(70) ? CYAML_MAPPING : CYAML_SEQUENCE; chained = depth > 0; if (depth <= 0) type = CYAML_UINT; }
		gv(g, f.value, type, chained || !o.chainPct ? depth - 1 : depth - 1 - (int)c.below(3), false);
		if (opt) f.value.flags = (cyaml_flag)(f.value.flags | CYAML_FLAG_OPTIONAL);
		if (o.roundTrip && opt && !isPtr(f.value) && c.p(30)) f.value.flags = (cyaml_flag)(f.value.flags & ~CYAML_FLAG_OPTIONAL);
		if (type == CYAML_SEQUENCE) { static const u8 z[] = {4, 1, 2, 8, 4, 4, 3, 5}; f.count_size = z[c.below(8)]; }
		if (opt && c.p(o.defPct) && type != CYAML_IGNORE) g.defaults.push_back(&f);
	}
	g.anc.pop_back();
	// Layout. Recursive inline-entry sequences have pointer slots, so sizes are known.
	struct It { u32 size; u32 *off; };
	vector<It> it;
	for (int i = 0; i < n; i++) {
		auto &f = fv[i];
		if (f.value.type == CYAML_IGNORE) { if (c.p(50)) f.data_offset = 0; continue; }
		size_t w = slotWidth(f.value);
		it.push_back({(u32)w, &f.data_offset});
		if (f.value.type == CYAML_SEQUENCE) it.push_back({f.count_size, &f.count_offset});
	}
	for (size_t i = it.size(); i > 1; i--) { size_t j = c.below(i); std::swap(it[i - 1], it[j]); }
	u32 off = c.p(50) ? 0 : c.below(9);
	for (auto &x : it) { if (c.p(30) && x.size && (x.size & (x.size - 1)) == 0) off = (off + x.size - 1) & ~(x.size - 1); *x.off = off; off += x.size; if (c.p(25)) off += c.below(9); }
	if (off == 0) off = 1 + c.below(8);
	out.data_size = off;
	out.mapping.fields = fv.data();
	for (auto p : a.fix) {
		if (p->type == CYAML_MAPPING) p->data_size = off;
		else p->data_size = off; // sequence of inline self
	}
}
static void cbMeta(G &g, const cyaml_schema_value_t &v) {
	auto &m = g.S.meta[&v]; m.rejMod = 2 + g.c.below(5); m.rejRem = g.c.below(m.rejMod);
	if (g.c.p(40)) m.rejMod = 0;
}
static void gv(G &g, cyaml_schema_value_t &out, int type, int depth, bool inSeq) {
	Choices &c = g.c; const GenOpt &o = g.o;
	if (++g.n > 600) throw Discard{};
	if (g.n > 250) depth = 0;
	memset(&out, 0, sizeof out);
	out.type = (cyaml_type_e)type;
	u32 fl = 0;
	if (type != CYAML_IGNORE) {
		bool ptr = c.p(o.ptrPct) || (type == CYAML_SEQUENCE && c.p(60));
		if (ptr) { fl |= CYAML_FLAG_POINTER; if (c.p(o.nullPct)) fl |= c.p(50) ? CYAML_FLAG_POINTER_NULL : CYAML_FLAG_POINTER_NULL_STR; }
		styleFlags(g, fl);
	} else if (c.p(25)) { static const u32 z[] = {CYAML_FLAG_POINTER, CYAML_FLAG_POINTER_NULL, CYAML_FLAG_POINTER_NULL_STR}; fl |= z[c.below(3)]; } // has no data, whatever its flags
	bool cb = c.p(o.cbPct);
	switch (type) {
	case CYAML_INT: {
		out.data_size = genSize(c, o);
		if (c.p(o.rangePct)) {
			i64 a = sext(genBits(c, out.data_size), out.data_size), b = sext(genBits(c, out.data_size), out.data_size);
			if (a > b) std::swap(a, b);
			if (c.p(15)) a = INT64_MIN;
			if (c.p(15)) b = INT64_MAX;
			if (c.p(15)) b = a;
			out.integer.min = a; out.integer.max = b;
		}
		if (cb) { out.integer.validation_cb = cbInt; cbMeta(g, out); }
		break; }
	case CYAML_UINT: {
		out.data_size = genSize(c, o);
		if (c.p(o.rangePct)) {
			u64 a = genBits(c, out.data_size), b = genBits(c, out.data_size);
			if (a > b) std::swap(a, b);
			if (c.p(15)) a = 0;
			if (c.p(15)) b = UINT64_MAX;
			if (c.p(15)) b = a;
			out.unsigned_integer.min = a; out.unsigned_integer.max = b;
		}
		if (cb) { out.unsigned_integer.validation_cb = cbUint; cbMeta(g, out); }
		break; }
	case CYAML_BOOL: out.data_size = c.p(70) ? 1 : genSize(c, o); break;
	case CYAML_ENUM: case CYAML_FLAGS: {
		out.data_size = genSize(c, o);
		if (c.p(o.strictPct)) fl |= CYAML_FLAG_STRICT;
		int n = c.p(6) ? 0 : 1 + c.below(6); if (n == 0 && (fl & CYAML_FLAG_STRICT) && type == CYAML_ENUM) n = 1;
		if (c.p(4)) n = 20 + c.below(45);
		g.S.strvals.emplace_back(); auto &sv = g.S.strvals.back();
		vector<string> used;
		for (int i = 0; i < n; i++) {
			cyaml_strval_t s; s.str = g.S.str(freshName(g, used, i, true));
			if (type == CYAML_ENUM) s.val = c.p(50) ? (i64)i : sext(genBits(c, out.data_size), out.data_size);
			else {
				u32 nb = out.data_size * 8;
				u64 v = 1ull << (c.p(60) ? (u64)i % nb : c.below(nb));
				if (o.overlapFlags && c.p(25)) v |= 1ull << c.below(nb);
				if (o.overlapFlags && c.p(8)) v = genBits(c, out.data_size);
				if (v == 0) v = 1;
				s.val = (i64)v;
			}
			sv.push_back(s);
		}
		out.enumeration.strings = sv.data(); out.enumeration.count = n;
		if (cb) { out.enumeration.validation_cb = cbInt; cbMeta(g, out); }
		break; }
	case CYAML_FLOAT:
		out.data_size = c.p(50) ? 4 : 8;
		if (c.p(o.strictPct)) fl |= CYAML_FLAG_STRICT;
		if (cb) { out.floating_point.validation_cb = cbFloat; cbMeta(g, out); }
		break;
	case CYAML_STRING: {
		u32 min = 0, max;
		if (fl & CYAML_FLAG_POINTER) {
			if (c.p(o.rangePct)) { min = c.below(6); max = min + c.below(20); if (c.p(30)) max = CYAML_UNLIMITED; }
			else max = CYAML_UNLIMITED;
			out.data_size = c.p(50) ? 1 : (u32)c.below(9);
		} else {
			max = c.below(c.p(10) ? 300 : 24);
			if (c.p(o.rangePct)) min = c.below((max < 6 ? max : 6) + 1);
			out.data_size = max + 1 + (c.p(50) ? 0 : c.below(5));
		}
		out.string.min = min; out.string.max = max;
		if (cb) { out.string.validation_cb = cbString; cbMeta(g, out); }
		break; }
	case CYAML_BITFIELD: {
		out.data_size = genSize(c, o);
		u32 nb = out.data_size * 8;
		g.S.bitdefs.emplace_back(); auto &bd = g.S.bitdefs.back();
		vector<string> used; int n = c.p(4) ? 0 : 1 + c.below(6); u32 at = 0;
		for (int i = 0; i < n; i++) {
			cyaml_bitdef_t b; b.name = g.S.str(freshName(g, used, i, false));
			u32 off = at, bits;
			if (o.overlapFlags && c.p(10)) off = c.below(nb);
			if (off >= nb) break;
			bits = 1 + c.below(c.p(20) ? nb - off : (nb - off < 8 ? nb - off : 8));
			if (c.p(5)) bits = nb - off;
			b.offset = off; b.bits = bits; at = off + bits + (c.p(30) ? c.below(3) : 0);
			bd.push_back(b);
		}
		out.bitfield.bitdefs = bd.data(); out.bitfield.count = bd.size();
		if (cb) { out.bitfield.validation_cb = cbUint; cbMeta(g, out); }
		break; }
	case CYAML_MAPPING:
		genMapping(g, out, depth - 1);
		if (cb) { out.mapping.validation_cb = cbMapping; cbMeta(g, out); }
		break;
	case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: {
		g.S.values.emplace_back(); auto &e = g.S.values.back();
		int et = pickType(g, depth - 1, true);
		if (c.p(o.chainPct) && depth > 1) et = CYAML_MAPPING;
		gv(g, e, et, depth - 1, true);
		out.sequence.entry = &e;
		if (slotWidth(e) == 0) e.sequence.min = e.sequence.max = 1;
		out.data_size = slotWidth(e);
		if (type == CYAML_SEQUENCE_FIXED) out.sequence.min = out.sequence.max = (out.data_size > 4000 ? 1 : c.below(6)) ;
		else if (fl & CYAML_FLAG_POINTER) {
			out.sequence.min = c.p(30) ? c.below(3) : 0;
			out.sequence.max = c.p(50) ? CYAML_UNLIMITED : out.sequence.min + (u32)c.below(8);
		} else {
			out.sequence.max = out.data_size > 4000 ? c.below(2) : c.below(7);
			out.sequence.min = c.p(30) ? c.below((out.sequence.max < 3 ? out.sequence.max : 3) + 1) : 0;
		}
		if (cb) { out.sequence.validation_cb = cbSequence; cbMeta(g, out); }
		break; }
	default: break;
	}
	if (c.p(o.casePct)) { u32 k = c.below(3); fl |= k == 0 ? CYAML_FLAG_CASE_INSENSITIVE : k == 1 ? CYAML_FLAG_CASE_SENSITIVE : (CYAML_FLAG_CASE_INSENSITIVE | CYAML_FLAG_CASE_SENSITIVE); }
	out.flags = (cyaml_flag)fl;
}
void genValue(Choices &c, Schema &S, cyaml_schema_value_t &out, int type, const GenOpt &o, int depth, bool inSeq) {
	G g{c, S, o, {}, {}};
	if (type < 0) type = pickType(g, depth, inSeq);
	gv(g, out, type, depth, inSeq);
}
// Does the value hold everything its schema requires, also where it was left zero?
bool complete(const cyaml_schema_value_t &s, const Val &v) {
	if (v.k == Val::NUL) {
		if (isPtr(s)) return true; // decided by the caller
		if (s.type == CYAML_MAPPING) { for (auto f = s.mapping.fields; f->key; f++) { if (f->value.type == CYAML_IGNORE) continue; if (isPtr(f->value) && !isSeq(f->value) && !nullable(f->value) && !(f->value.flags & CYAML_FLAG_OPTIONAL)) return false; if (isPtr(f->value) && f->value.type == CYAML_SEQUENCE_FIXED && f->value.sequence.max && !nullable(f->value) && !(f->value.flags & CYAML_FLAG_OPTIONAL)) return false; if (!complete(f->value, Val())) return false; } return true; }
		if (s.type == CYAML_SEQUENCE_FIXED && s.sequence.max) { auto &e = *s.sequence.entry; return isPtr(e) ? nullable(e) : complete(e, Val()); }
		return true;
	}
	if (v.k == Val::MAP) { size_t i = 0; for (auto f = s.mapping.fields; f->key; f++, i++) if (f->value.type != CYAML_IGNORE && !complete(f->value, v.kids[i])) return false; return true; }
	if (v.k == Val::SEQ) { for (auto &k : v.kids) if (!complete(*s.sequence.entry, k)) return false; return true; }
	return true;
}
static bool canDefault(const cyaml_schema_value_t &s) {
	if (s.type == CYAML_FLOAT && s.floating_point.validation_cb) return false;
	if (s.type == CYAML_STRING && s.string.validation_cb) return false;
	if (s.type == CYAML_SEQUENCE_FIXED && s.sequence.max == 0) return false;
	if (s.type == CYAML_SEQUENCE && s.sequence.max == 0) return false;
	return true;
}
static double fval(const cyaml_schema_value_t &s, u64 raw) { if (s.data_size == 4) { float f; u32 r = raw; memcpy(&f, &r, 4); return f; } double d; memcpy(&d, &raw, 8); return d; }
static thread_local int valBudget = 600; static thread_local long nodeBudget = 30000;
void caseStart() { valBudget = 600; nodeBudget = 30000; } // cases depend on their choices alone
static long valNodes(const Val &v) { long n = 1; for (auto &k : v.kids) n += valNodes(k); return n; }
static void longSchema(Choices &c, Schema &S, GenOpt o) {
	u64 n; switch (c.below(7)) { case 0: n = 254 + c.below(5); break; case 1: n = 65534 + c.below(5); break; case 2: n = 65540 + c.below(6000); break; case 3: n = 256 + c.below(1000); break; default: n = 150 + c.below(3000); }
	if (n > o.longMax) n = 150 + c.below(o.longMax - 149);
	bool heavy = o.longMax > 72000 && c.p(12); // a member with more than 65535 blocks
	if (heavy) n = 65536 + c.below(6000);
	S.values.emplace_back(); auto &e = S.values.back(); memset(&e, 0, sizeof e);
	o.recursePct = 0; o.widePct = o.longStrPct = 0; o.maxEntries = 2; o.depth = n > 10000 ? 1 : 1 + (int)c.below(2); o.maxFields = n > 10000 ? 2 : 3; if (n > 10000) o.cbPct = 0;
	int type = heavy ? (c.p(50) ? (int)CYAML_INT : (int)CYAML_STRING) : c.p(25) ? -1 : c.p(30) ? (int)CYAML_STRING : c.p(40) ? (int)CYAML_MAPPING : (int)c.below(CYAML_MAPPING);
	do { memset(&e, 0, sizeof e); genValue(c, S, e, type, o, o.depth, true); type = CYAML_INT; } while (e.type == CYAML_IGNORE || e.type == CYAML_SEQUENCE || !slotWidth(e) || slotWidth(e) * n > (16u << 20));
	if (heavy) { e.flags = (cyaml_flag_e)(e.flags & ~CYAML_FLAG_POINTER_NULL_STR); e.flags = (cyaml_flag_e)(e.flags | CYAML_FLAG_POINTER); }
	bool fixed = !heavy && c.p(30); cyaml_schema_value_t q; memset(&q, 0, sizeof q); q.type = fixed ? CYAML_SEQUENCE_FIXED : CYAML_SEQUENCE; q.data_size = slotWidth(e); q.sequence.entry = &e;
	bool top = !heavy && o.topTypes & 1u << CYAML_SEQUENCE && c.p(35), ptr = top || c.p(70); if (ptr) q.flags = CYAML_FLAG_POINTER; if (c.p(20)) q.flags = (cyaml_flag_e)(q.flags | (c.p(50) ? CYAML_FLAG_BLOCK : CYAML_FLAG_FLOW));
	q.sequence.min = fixed ? n : c.p(60) ? 0 : n - c.below(2); q.sequence.max = fixed ? n : ptr && c.p(50) ? CYAML_UNLIMITED : n + c.below(3);
	S.longLen = n; S.longSeed = c.below(0); S.longAt = -1; memset(&S.top, 0, sizeof S.top);
	if (top) { S.top = q; return; }
	S.fields.emplace_back(4); auto &f = S.fields.back(); memset(f.data(), 0, 4 * sizeof f[0]); u32 off = c.below(9); int at = c.below(3); S.longAt = at; if (c.p(30)) q.flags = (cyaml_flag_e)(q.flags | CYAML_FLAG_OPTIONAL);
	for (int i = 0; i < 3; i++) {
		f[i].key = S.str(i == at ? "many" : i == 0 ? "before" : i == 1 ? "between" : "after"); f[i].data_offset = off;
		if (i != at) { f[i].value.type = c.p(50) ? CYAML_UINT : CYAML_STRING; f[i].value.data_size = f[i].value.type == CYAML_UINT ? 1 + c.below(8) : 12; if (f[i].value.type == CYAML_STRING) f[i].value.string.max = 11; off += slotWidth(f[i].value); continue; }
		f[i].value = q; off += slotWidth(q); if (fixed) continue;
		vector<int> w; for (int b = 1; b <= 8; b++) if (b == 8 || n < 1ull << (8 * b)) w.push_back(b);
		f[i].count_size = c.p(50) ? w[0] : c.pick(w); f[i].count_offset = off; off += f[i].count_size;
	}
	S.top.type = CYAML_MAPPING; S.top.flags = CYAML_FLAG_POINTER; S.top.data_size = off + c.below(9); S.top.mapping.fields = f.data();
}
static Val longVal(Choices &c, const Schema &S, const cyaml_schema_value_t &q, const GenOpt &o) {
	auto &e = *q.sequence.entry; vector<Val> pool; for (int i = 0; i < 7; i++) { GenOpt p = o; p.maxEntries = 2; p.longStrPct = 0; p.longMax = 0; valBudget = 600; nodeBudget = 30000; pool.push_back(genVal(c, S, e, p, 1)); }
	Val v; v.k = Val::SEQ; u64 x = S.longSeed; v.kids.reserve(S.longLen);
	for (u64 i = 0; i < S.longLen; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; Val y = pool[(x >> 40) % pool.size()]; if (y.k == Val::STR && (x >> 20 & 7) == 0 && (e.string.validation_cb == nullptr) && y.str.size() && y.str.size() < 20) { string z = y.str; z[z.size() - 1] = (char)('a' + (x >> 24) % 26); if (utf8Valid(z) && !isNullText(e, z)) y.str = z; } v.kids.push_back(std::move(y)); }
	return v;
}
void genSchema(Choices &c, Schema &S, const GenOpt &o) {
	if (o.longMax) { longSchema(c, S, o); return; }
	valBudget = 600; nodeBudget = 30000;
	G g{c, S, o, {}, {}};
	int type;
	vector<int> t;
	for (int i = 0; i < CYAML__TYPE_COUNT; i++) if ((o.types & o.topTypes) >> i & 1 && i != CYAML_IGNORE) t.push_back(i);
	if (c.p(75) && (o.topTypes >> CYAML_MAPPING & 1)) type = CYAML_MAPPING; else if (t.empty()) type = CYAML_MAPPING; else type = c.pick(t);
	gv(g, S.top, type, o.depth, false);
	u32 f = S.top.flags;
	if (S.topPtr) { f |= CYAML_FLAG_POINTER; if (type == CYAML_STRING) { S.top.string.max = S.top.string.max < 6 ? CYAML_UNLIMITED : S.top.string.max; } }
	else { f &= ~(u32)(CYAML_FLAG_POINTER_NULL_STR); if (S.top.type == CYAML_SEQUENCE && S.top.sequence.max > 6) { S.top.sequence.max = 6; if (S.top.sequence.min > 6) S.top.sequence.min = 0; }
		if (S.top.type == CYAML_STRING && S.top.data_size <= S.top.string.max) { S.top.string.max = 20; S.top.string.min = 0; S.top.data_size = 21; } }
	S.top.flags = (cyaml_flag)f;
	// defaults, now that every size is known
	for (auto fp : g.defaults) {
		auto &s = fp->value;
		if (!canDefault(s)) continue;
		GenOpt od = o; od.optPct = 30;
		cyaml_schema_value_t tmp = s; tmp.flags = (cyaml_flag)(tmp.flags & ~(u32)(CYAML_FLAG_POINTER_NULL_STR & ~CYAML_FLAG_POINTER));
		// generate against the real address so that metadata is found
		Val d;
		switch (s.type) {
		case CYAML_INT: case CYAML_UINT: case CYAML_ENUM: case CYAML_FLAGS: case CYAML_BITFIELD: case CYAML_BOOL:
			d = Val::Num(s.type == CYAML_BOOL ? 1 : genBits(c, s.data_size)); break;
		case CYAML_FLOAT: { double v = c.p(50) ? (double)c.range(-1000, 1000) / 8 : (double)c.range(-100, 100); if (s.data_size == 4) { float x = (float)v; u32 r; memcpy(&r, &x, 4); d = Val::Num(r); } else { u64 r; memcpy(&r, &v, 8); d = Val::Num(r); } break; }
		default: {
			cyaml_flag keep = s.flags; s.flags = tmp.flags; // not NULL itself
			for (int t = 0; t < 3; t++) { d = genVal(c, S, s, od, 1); if (d.k != Val::NUL && !(d.k == Val::SEQ && d.kids.empty())) break; }
			s.flags = keep;
			if (d.k == Val::SEQ && d.kids.empty() && s.type == CYAML_SEQUENCE) { S.blobs.emplace_back(8, 0); s.sequence.missing = S.blobs.back().data(); s.sequence.missing_count = 0; } // no entries: like none
			if (d.k == Val::NUL || (d.k == Val::SEQ && d.kids.empty())) continue;
		}
		}
		nodeBudget = 30000;
		if (valNodes(d) > 300 || !complete(s, d)) continue;
		if (o.roundTrip && !expressible(S, s, d)) continue;
		auto &m = S.meta[&s]; m.hasDefault = true; m.def = d;
		auto alloc = [&](size_t n) { S.blobs.emplace_back(n ? n : 1, 0); return S.blobs.back().data(); };
		switch (s.type) {
		case CYAML_INT: s.integer.missing = sext(d.num, s.data_size); break;
		case CYAML_ENUM: s.enumeration.missing = sext(d.num, s.data_size); break;
		case CYAML_FLAGS: s.enumeration.missing = (i64)d.num; break;
		case CYAML_UINT: s.unsigned_integer.missing = d.num; break;
		case CYAML_BITFIELD: s.bitfield.missing = d.num; break;
		case CYAML_BOOL: s.boolean.missing = d.num != 0; break;
		case CYAML_FLOAT: s.floating_point.missing = fval(s, d.num); break;
		case CYAML_STRING: s.string.missing = S.str(d.str); break;
		default: {
			cyaml_schema_value_t n = s; n.flags = (cyaml_flag)0;
			u8 *b = alloc(isSeq(s) ? (size_t)s.data_size * d.kids.size() : s.data_size);
			if (isSeq(s)) { for (size_t i = 0; i < d.kids.size(); i++) storeVal(*s.sequence.entry, d.kids[i], b + i * s.data_size, alloc); s.sequence.missing = b; s.sequence.missing_count = d.kids.size(); }
			else { storeVal(n, d, b, alloc); s.mapping.missing = b; }
		}
		}
		// numeric zero and NULL defaults leave the slot zero
		if (d.k == Val::NUM && (s.type == CYAML_FLOAT ? fval(s, d.num) == 0 : d.num == 0)) { m.def = isPtr(s) ? Val() : Val::Num(0); }
	}
}
Val defaultVal(const Schema &S, const cyaml_schema_value_t &s) {
	auto m = S.metaOf(&s);
	if (m && m->hasDefault) return m->def;
	if (isPtr(s)) return Val();
	switch (s.type) {
	case CYAML_INT: case CYAML_UINT: case CYAML_BOOL: case CYAML_ENUM: case CYAML_FLAGS: case CYAML_FLOAT: case CYAML_BITFIELD: return Val::Num(0);
	default: return Val();
	}
}

// ------------------------------------------------------------ value generation
static u64 genFloatBits(Choices &c, const cyaml_schema_value_t &s) {
	bool strict = s.flags & CYAML_FLAG_STRICT;
	double d;
	switch (c.below(6)) {
	case 0: d = (double)c.range(-20, 20); break;
	case 1: d = (double)c.range(-100000, 100000) / 64; break;
	case 2: d = s.data_size == 4 ? FLT_MAX : DBL_MAX; break;
	case 3: d = s.data_size == 4 ? FLT_MIN : DBL_MIN; break;
	case 4: d = s.data_size == 4 ? (double)0.1f : 0.1; break;
	default: {
		u64 b = c.below(0);
		if (s.data_size == 4) b &= 0xffffffff;
		d = fval(s, b);
		bool den = d != 0 && std::fabs(d) < (s.data_size == 4 ? FLT_MIN : DBL_MIN);
		if (c.p(2) && !strict) d = INFINITY; else if (!std::isfinite(d) || (den && strict)) d = 1.5;
	}
	}
	if (c.p(30)) d = -d;
	u64 r = 0;
	if (s.data_size == 4) { float f = (float)d; memcpy(&r, &f, 4); } else memcpy(&r, &d, 8);
	return r;
}
static u64 cbDouble(const cyaml_schema_value_t &s, u64 raw) { double d = fval(s, raw); u64 r; memcpy(&r, &d, 8); return r; }
static Val gval1(Choices &c, const Schema &S, const cyaml_schema_value_t &s, const GenOpt &o, int depth) {
	switch (s.type) {
	case CYAML_INT: {
		i64 lo = sext(1ull << (s.data_size * 8 - 1), s.data_size), hi = (i64)(maskOf(s.data_size) >> 1);
		if (s.integer.min || s.integer.max) { if (s.integer.min > lo) lo = s.integer.min; if (s.integer.max < hi) hi = s.integer.max; }
		i64 v;
		switch (c.below(4)) { case 0: v = lo; break; case 1: v = hi; break; case 2: v = lo <= 0 && hi >= 0 ? 0 : lo; if (c.p(70)) { i64 a; if (!__builtin_add_overflow(v, c.range(-100, 100), &a) && a >= lo && a <= hi) v = a; } break;
		default: v = c.range(lo, hi); }
		return Val::Num((u64)v & maskOf(s.data_size)); }
	case CYAML_UINT: {
		u64 lo = 0, hi = maskOf(s.data_size);
		if (s.unsigned_integer.min || s.unsigned_integer.max) { lo = s.unsigned_integer.min; if (s.unsigned_integer.max < hi) hi = s.unsigned_integer.max; }
		u64 v;
		switch (c.below(4)) { case 0: v = lo; break; case 1: v = hi; break; case 2: { u64 r = hi - lo; v = lo + c.below(r < 100 ? r + 1 : 100); break; }
		default: v = lo + c.below(hi - lo + 1); }
		return Val::Num(v); }
	case CYAML_BOOL: return Val::Num(c.below(2));
	case CYAML_ENUM: {
		if (s.enumeration.count && ((s.flags & CYAML_FLAG_STRICT) || c.p(75))) return Val::Num((u64)s.enumeration.strings[c.below(s.enumeration.count)].val & maskOf(s.data_size));
		if (s.flags & CYAML_FLAG_STRICT) return Val::Num(0);
		return Val::Num(genBits(c, s.data_size)); }
	case CYAML_FLAGS: {
		u64 v = 0;
		for (u32 i = 0; i < s.enumeration.count; i++) if (c.p(s.enumeration.count > 10 ? 20 : 45)) v |= (u64)s.enumeration.strings[i].val;
		if (!(s.flags & CYAML_FLAG_STRICT) && c.p(25)) v |= genBits(c, s.data_size);
		return Val::Num(v & maskOf(s.data_size)); }
	case CYAML_BITFIELD: {
		u64 v = 0;
		for (u32 i = 0; i < s.bitfield.count; i++) {
			auto &b = s.bitfield.bitdefs[i]; u64 m = ~0ull >> (64 - b.bits);
			u64 x = c.p(30) ? 0 : c.p(30) ? m : c.below(0) & m;
			v |= x << b.offset;
		}
		return Val::Num(v); }
	case CYAML_FLOAT: return Val::Num(genFloatBits(c, s));
	case CYAML_STRING: {
		size_t max = s.string.max;
		if (!isPtr(s) && max > s.data_size - 1) max = s.data_size - 1;
		for (int t = 0; t < 5; t++) {
			string x = genString(c, o, s.string.min, max < 2000 ? max : 2000);
			if (!isNullText(s, x)) return Val::Str(x);
		}
		string x(s.string.min > 1 ? s.string.min : (max ? 1 : 0), 'x');
		return isNullText(s, x) ? Val() : Val::Str(x); }
	case CYAML_MAPPING: {
		Val v; v.k = Val::MAP;
		for (auto f = s.mapping.fields; f->key; f++) {
			auto &fs = f->value;
			if (fs.type == CYAML_IGNORE) { v.kids.push_back(Val()); continue; }
			auto m = S.metaOf(&fs);
			bool rec = (m && m->recursive) || (isSeq(fs) && S.metaOf(fs.sequence.entry) && S.metaOf(fs.sequence.entry)->recursive);
			bool opt = fs.flags & CYAML_FLAG_OPTIONAL;
			bool absent = false;
			if (opt) {
				absent = rec ? (depth > 6 || (o.widePct && depth > 1 && c.p(60)) || valBudget < 0 || c.p(45)) : c.p(35);
				if (o.roundTrip && absent) { // must survive being omitted
					Val d = defaultVal(S, fs);
					if (!isPtr(fs)) absent = false; else if (d.k == Val::NUL) {} else {}
					(void)d;
				}
			}
			if (absent) { v.kids.push_back(defaultVal(S, fs)); if ((nodeBudget -= valNodes(v.kids.back())) < 0) throw Discard{}; }
			else { Val x = genVal(c, S, fs, o, depth + 1);
				if (o.roundTrip && opt && isPtr(fs) && (x.k == Val::NUL || (x.k == Val::SEQ && x.kids.empty())) && defaultVal(S, fs).k != Val::NUL) x = defaultVal(S, fs);
				v.kids.push_back(x); }
		}
		return v; }
	case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: {
		Val v; v.k = Val::SEQ;
		u32 n = s.sequence.min; 
		if (s.type == CYAML_SEQUENCE) {
			u32 room = s.sequence.max - s.sequence.min; u32 ext = c.below((room < (u32)o.maxEntries ? room : (u32)o.maxEntries) + 1);
			auto m = S.metaOf(s.sequence.entry);
			if (m && m->recursive && depth > 4) ext = 0; else if (m && m->recursive && ext > 2) ext = 2;
			if (valBudget < 0) ext = 0;
			n += ext;
		}
		for (u32 i = 0; i < n; i++) v.kids.push_back(genVal(c, S, *s.sequence.entry, o, depth + 1));
		return v; }
	default: return Val();
	}
}
u64 mapKeyNum(const cyaml_schema_value_t &s, const Val &v);
static bool accepts(const Schema &S, const cyaml_schema_value_t &s, const Val &v) {
	switch (s.type) {
	case CYAML_INT: return !s.integer.validation_cb || cbAccepts(S, s, 0, (u64)sext(v.num, s.data_size), "");
	case CYAML_UINT: return !s.unsigned_integer.validation_cb || cbAccepts(S, s, 1, v.num, "");
	case CYAML_ENUM: return !s.enumeration.validation_cb || cbAccepts(S, s, 0, (u64)sext(v.num, s.data_size), "");
	case CYAML_FLAGS: return !s.enumeration.validation_cb || cbAccepts(S, s, 0, v.num, "");
	case CYAML_BITFIELD: return !s.bitfield.validation_cb || cbAccepts(S, s, 1, v.num, "");
	case CYAML_FLOAT: return !s.floating_point.validation_cb || cbAccepts(S, s, 2, cbDouble(s, v.num), "");
	case CYAML_STRING: return !s.string.validation_cb || cbAccepts(S, s, 3, 0, v.str);
	case CYAML_MAPPING: return !s.mapping.validation_cb || cbAccepts(S, s, 4, mapKeyNum(s, v), "");
	case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: return !s.sequence.validation_cb || cbAccepts(S, s, 5, v.kids.size(), "");
	default: return true;
	}
}
Val genVal(Choices &c, const Schema &S, const cyaml_schema_value_t &s, const GenOpt &o, int depth) {
	if (depth == 0) { valBudget = 600; nodeBudget = 30000; }
	if (S.longLen && o.longMax && S.longAt < 0 && &s == &S.top) return longVal(c, S, s, o);
	if (S.longLen && o.longMax && S.longAt >= 0 && s.type == CYAML_MAPPING && &s == &S.top) { Val m; m.k = Val::MAP; for (int i = 0; i < 3; i++) m.kids.push_back(i == S.longAt ? longVal(c, S, s.mapping.fields[i].value, o) : genVal(c, S, s.mapping.fields[i].value, o, 1)); return m; }
	if (--nodeBudget < 0) throw Discard{};
	if (s.type >= CYAML_MAPPING && --valBudget < -1000) throw Discard{};
	if (nullable(s) && c.p(25)) return Val();
	Val v;
	for (int t = 0; t < 6; t++) { v = gval1(c, S, s, o, depth); if (accepts(S, s, v)) break; }
	return v;
}

// Can the value be stated in a document? Defaults need not be.
bool expressible(const Schema &S, const cyaml_schema_value_t &s, const Val &v) {
	if (v.k == Val::NUL) return true;
	if (v.k == Val::STR && (isNullText(s, v.str) || !accepts(S, s, v))) return false;
	if (v.k == Val::MAP) {
		size_t i = 0;
		for (auto f = s.mapping.fields; f->key; f++, i++) {
			if (f->value.type == CYAML_IGNORE) continue;
			auto &k = v.kids[i];
			if (k == defaultVal(S, f->value) && (f->value.flags & CYAML_FLAG_OPTIONAL)) continue;
			if ((k.k == Val::NUL && !nullable(f->value)) || !expressible(S, f->value, k)) return false;
		}
		return true;
	}
	if (v.k == Val::SEQ) { for (auto &k : v.kids) if (!expressible(S, *s.sequence.entry, k)) return false; return true; }
	if (v.k != Val::NUM) return true;
	if (!accepts(S, s, v)) return false;
	switch (s.type) {
	case CYAML_INT: { i64 n = sext(v.num, s.data_size); return !(s.integer.min || s.integer.max) || (n >= s.integer.min && n <= s.integer.max); }
	case CYAML_UINT: return !(s.unsigned_integer.min || s.unsigned_integer.max) || (v.num >= s.unsigned_integer.min && v.num <= s.unsigned_integer.max);
	case CYAML_ENUM: if (!(s.flags & CYAML_FLAG_STRICT)) return true; for (u32 i = 0; i < s.enumeration.count; i++) if (s.enumeration.strings[i].val == sext(v.num, s.data_size) && !isNullText(s, s.enumeration.strings[i].str)) return true; return false;
	case CYAML_FLAGS: { if (!(s.flags & CYAML_FLAG_STRICT)) return true; u64 got = 0; for (u32 i = 0; i < s.enumeration.count; i++) { u64 f = (u64)s.enumeration.strings[i].val; if ((v.num & f) == f) got |= f; } return got == v.num; }
	case CYAML_BITFIELD: { u64 got = 0; for (u32 i = 0; i < s.bitfield.count; i++) { auto &b = s.bitfield.bitdefs[i]; got |= ((v.num >> b.offset) & (~0ull >> (64 - b.bits))) << b.offset; } return got == v.num; }
	default: return true;
	}
}

// ------------------------------------------------------------ memory
void storeCount(const cyaml_schema_field_t &f, const Val &v, u8 *base) {
	if (f.value.type != CYAML_SEQUENCE) return;
	u64 n = v.k == Val::SEQ ? v.kids.size() : 0; memcpy(base + f.count_offset, &n, f.count_size);
}
void storeVal(const cyaml_schema_value_t &s, const Val &v, u8 *slot, const Alloc &alloc) {
	if (isPtr(s)) {
		u8 *p = nullptr;
		if (v.k == Val::NUL || (v.k == Val::SEQ && v.kids.empty())) { memcpy(slot, &p, 8); return; }
		size_t n = v.k == Val::STR ? v.str.size() + 1 : v.k == Val::SEQ ? (size_t)s.data_size * v.kids.size() : s.data_size;
		p = alloc(n); memset(p, 0, n); memcpy(slot, &p, 8);
		slot = p;
	} else if (v.k == Val::NUL) { memset(slot, 0, slotSize(s)); return; }
	switch (v.k) {
	case Val::NUM: memcpy(slot, &v.num, s.data_size); break;
	case Val::STR: memcpy(slot, v.str.c_str(), v.str.size() + 1); break;
	case Val::MAP: { size_t i = 0; for (auto f = s.mapping.fields; f->key; f++, i++) { if (f->value.type == CYAML_IGNORE) continue; storeVal(f->value, v.kids[i], slot + f->data_offset, alloc); storeCount(*f, v.kids[i], slot); } break; }
	case Val::SEQ: for (size_t i = 0; i < v.kids.size(); i++) storeVal(*s.sequence.entry, v.kids[i], slot + i * s.data_size, alloc); break;
	default: break;
	}
}
void *buildTop(const Schema &S, const Val &v, const Alloc &alloc, unsigned *count) {
	u8 *p = nullptr; storeVal(S.top, v, (u8 *)&p, alloc);
	if (count) *count = S.top.type == CYAML_SEQUENCE ? v.kids.size() : 0;
	return p;
}
void coverage(const cyaml_schema_value_t &s, vector<u8> &cov) {
	cov.assign(s.data_size, 0);
	for (auto f = s.mapping.fields; f->key; f++) {
		if (f->value.type == CYAML_IGNORE) continue;
		size_t w = slotWidth(f->value); for (size_t i = 0; i < w && f->data_offset + i < cov.size(); i++) cov[f->data_offset + i] = 1;
		if (f->value.type == CYAML_SEQUENCE) for (size_t i = 0; i < f->count_size && f->count_offset + i < cov.size(); i++) cov[f->count_offset + i] = 1;
	}
}
static bool bad(MatchCtx &m, const string &s) { if (m.err.empty()) m.err = "at " + (m.path.empty() ? string("<top>") : m.path) + ": " + s; return false; }
static bool allZero(const u8 *p, size_t n) { for (size_t i = 0; i < n; i++) if (p[i]) return false; return true; }
bool matchMem(const cyaml_schema_value_t &s, const u8 *slot, const Val &v, MatchCtx &m) {
	if (isPtr(s)) {
		u8 *p; memcpy(&p, slot, 8);
		if (v.k == Val::NUL) { if (p) return bad(m, "pointer is not NULL"); return true; }
		if (v.k == Val::SEQ && v.kids.empty() && !p) return true;
		if (!p) return bad(m, "pointer is NULL, expected " + showVal(s, v));
		size_t n = v.k == Val::STR ? v.str.size() + 1 : v.k == Val::SEQ ? (size_t)s.data_size * v.kids.size() : s.data_size;
		if (m.ta) {
			if (!m.ta->owns(p, n)) return bad(m, sfmt("pointer is not to a live allocation of at least %zu bytes from the client's allocator", n));
			if (!m.reached.insert(p).second) return bad(m, "allocation is shared with another value");
		}
		return matchData(s, p, v, m, n);
	}
	return matchData(s, slot, v, m, slotSize(s));
}
bool matchData(const cyaml_schema_value_t &s, const u8 *p, const Val &v, MatchCtx &m, size_t room) {
	switch (v.k) {
	case Val::NUL: if (!allZero(p, room)) return bad(m, "absent value's memory is not zero"); return true;
	case Val::NUM: {
		u64 n = 0; memcpy(&n, p, s.data_size);
		if (n != (v.num & maskOf(s.data_size))) return bad(m, sfmt("number is 0x%llx, expected 0x%llx", (unsigned long long)n, (unsigned long long)v.num));
		return true; }
	case Val::STR: {
		size_t n = v.str.size();
		if (n + 1 > room) return bad(m, "harness: string does not fit");
		if (memcmp(p, v.str.c_str(), n + 1)) return bad(m, "string is " + quoted(string((const char *)p, strnlen((const char *)p, room)), 300) + ", expected " + quoted(v.str, 300));
		if (!isPtr(s) && m.checkGaps && !allZero(p + n + 1, room - n - 1)) return bad(m, "bytes after inline string are not zero");
		return true; }
	case Val::MAP: {
		size_t i = 0;
		for (auto f = s.mapping.fields; f->key; f++, i++) {
			if (f->value.type == CYAML_IGNORE) continue;
			size_t pl = m.path.size(); m.path += "." + string(f->key);
			bool ok = true;
			if (f->value.type == CYAML_SEQUENCE) {
				u64 n = 0, e = v.kids[i].k == Val::SEQ ? v.kids[i].kids.size() : 0; memcpy(&n, p + f->count_offset, f->count_size);
				if (n != e) ok = bad(m, sfmt("sequence count is %llu, expected %llu", (unsigned long long)n, (unsigned long long)e));
			}
			ok = ok && matchMem(f->value, p + f->data_offset, v.kids[i], m);
			if (!ok) return false;
			m.path.resize(pl);
		}
		if (m.checkGaps) { vector<u8> cov; coverage(s, cov); for (size_t j = 0; j < cov.size(); j++) if (!cov[j] && p[j]) return bad(m, sfmt("byte at offset %zu, which belongs to no field, is 0x%02x", j, p[j])); }
		return true; }
	case Val::SEQ: {
		for (size_t i = 0; i < v.kids.size(); i++) {
			size_t pl = m.path.size(); m.path += sfmt("[%zu]", i);
			if (!matchMem(*s.sequence.entry, p + i * s.data_size, v.kids[i], m)) return false;
			m.path.resize(pl);
		}
		if (!isPtr(s) && m.checkGaps) { size_t u = v.kids.size() * s.data_size; if (u < room && !allZero(p + u, room - u)) return bad(m, "unused sequence entries are not zero"); }
		return true; }
	}
	return true;
}
bool matchTop(const cyaml_schema_value_t &s, const void *data, const Val &v, MatchCtx &m, bool exactLive) {
	const void *d = data;
	if (!matchMem(s, (const u8 *)&d, v, m)) return false;
	if (exactLive && m.ta && m.reached.size() != m.ta->live.size()) {
		// a non-NULL pointer for an empty sequence is not followed; anything else is a leak
		return bad(m, sfmt("%zu allocations are live, but only %zu are reachable through the data", m.ta->live.size(), m.reached.size()));
	}
	return true;
}

// ------------------------------------------------------------ expressing values
string fltText(Choices &c, const cyaml_schema_value_t &s, u64 raw, bool canonical) {
	double d = fval(s, raw);
	int prec = s.data_size == 4 ? 9 : 17;
	if (canonical) return sfmt("%.*g", prec, d);
	switch (c.below(6)) {
	case 0: return sfmt("%.*e", prec - 1, d);
	case 1: return sfmt("%a", d);
	case 2: if (std::fabs(d) < 1e15 && std::fabs(d) > 1e-3) return sfmt("%.30f", d); return sfmt("%.*g", prec, d);
	case 3: return (d >= 0 && !std::signbit(d) ? "+" : "") + sfmt("%.*g", prec, d);
	case 4: if (d == std::floor(d) && std::fabs(d) < 1e9 && !(d == 0 && std::signbit(d))) return sfmt("%lld", (long long)d); return sfmt("%.*E", prec, d);
	default: return sfmt("%.*g", prec, d);
	}
}
static string uintText(Choices &c, u64 v, bool canonical) {
	typedef unsigned long long ull;
	if (canonical) return sfmt("%llu", (ull)v);
	switch (c.below(7)) {
	case 0: return sfmt("0x%llx", (ull)v);
	case 1: return sfmt("0X%llX", (ull)v);
	case 2: return sfmt("0%llo", (ull)v);
	case 3: return sfmt("+%llu", (ull)v);
	case 4: return sfmt("0x%06llx", (ull)v);
	default: return sfmt("%llu", (ull)v);
	}
}
static string intText(Choices &c, i64 v, bool canonical) {
	if (canonical) return sfmt("%lld", (long long)v);
	if (v >= 0) return uintText(c, (u64)v, false);
	u64 a = 0 - (u64)v;
	switch (c.below(5)) {
	case 0: return sfmt("-0x%llx", (unsigned long long)a);
	case 1: return sfmt("-0%llo", (unsigned long long)a);
	default: return sfmt("%lld", (long long)v);
	}
}
// a number's notation that is not also one of the names
static string apart(const cyaml_schema_value_t &s, u32 cfg, string t, bool neg, u64 mag) {
	for (int w = 1;; w++) {
		bool hit = isNullText(s, t);
		for (u32 i = 0; i < s.enumeration.count; i++) hit |= strEq(s, cfg, t, s.enumeration.strings[i].str);
		if (!hit) return t;
		t = sfmt("%s0x%0*llx", neg ? "-" : "", w, (unsigned long long)mag);
	}
}
static Node exprSeqOfNames(Choices &c, const cyaml_schema_value_t &s, u64 raw, const Expr &e) {
	Node n; n.k = Node::SEQ; u64 got = 0;
	for (u32 i = 0; i < s.enumeration.count; i++) {
		u64 f = (u64)s.enumeration.strings[i].val;
		if ((raw & f) != f) continue;
		if ((got & f) == f && !c.p(20)) continue; // adds nothing
		string t = s.enumeration.strings[i].str;
		if (insensitive(s, e.cfgFlags) && c.p(50)) t = recase(c, t);
		n.items.push_back(Node::S(t)); got |= f;
	}
	u64 rest = raw & ~got;
	if (rest) {
		if (c.p(30) && (rest & (rest - 1))) { u64 b = rest & (0 - rest); n.items.push_back(Node::S(apart(s, e.cfgFlags, uintText(c, b, e.plainOnly), false, b))); rest &= ~b; }
		n.items.push_back(Node::S(apart(s, e.cfgFlags, uintText(c, rest, e.plainOnly), false, rest)));
	}
	if (c.p(e.shufflePct)) for (size_t i = n.items.size(); i > 1; i--) std::swap(n.items[i - 1], n.items[c.below(i)]);
	if (!n.items.empty() && c.p(8)) n.items.push_back(n.items[c.below(n.items.size())]);
	return n;
}
Node express(Choices &c, const Schema &S, const cyaml_schema_value_t &s, const Val &v, const Expr &e) {
	if (v.k == Val::NUL && isPtr(s)) {
		if (isSeq(s) && !nullable(s)) { Node n; n.k = Node::SEQ; return n; }
		static const char *w[] = {"", "~", "null", "Null", "NULL"};
		return Node::S(nullableStr(s) ? w[c.below(5)] : "");
	}
	switch (s.type) {
	case CYAML_INT: return Node::S(intText(c, sext(v.num, s.data_size), e.plainOnly));
	case CYAML_UINT: return Node::S(uintText(c, v.num, e.plainOnly));
	case CYAML_BOOL: {
		static const char *t[] = {"true", "yes", "on", "enable", "1"}, *f[] = {"false", "no", "off", "disable", "0"};
		string x = (v.num ? t : f)[c.below(5)];
		return Node::S(e.plainOnly ? (v.num ? "true" : "false") : c.p(40) ? recase(c, x) : x); }
	case CYAML_ENUM: {
		i64 n = sext(v.num, s.data_size);
		vector<u32> m;
		for (u32 i = 0; i < s.enumeration.count; i++) if (s.enumeration.strings[i].val == n && !isNullText(s, s.enumeration.strings[i].str)) m.push_back(i);
		if (!m.empty() && ((s.flags & CYAML_FLAG_STRICT) || !e.numericEnum || c.p(80))) {
			string t = s.enumeration.strings[c.pick(m)].str;
			if (insensitive(s, e.cfgFlags) && c.p(50)) t = recase(c, t);
			if (!isNullText(s, t)) return Node::S(t);
		}
		return Node::S(apart(s, e.cfgFlags, intText(c, n, e.plainOnly), n < 0, n < 0 ? 0 - (u64)n : (u64)n)); }
	case CYAML_FLAGS: return exprSeqOfNames(c, s, v.num, e);
	case CYAML_BITFIELD: {
		Node n; n.k = Node::MAP; vector<Node> ps; u64 got = 0;
		for (u32 i = 0; i < s.bitfield.count; i++) {
			auto &b = s.bitfield.bitdefs[i]; u64 m = ~0ull >> (64 - b.bits);
			u64 x = (v.num >> b.offset) & m;
			if (((got >> b.offset) & m) == x && c.p(x == 0 ? 70 : 50)) continue;
			string t = b.name; if (insensitive(s, e.cfgFlags) && c.p(50)) t = recase(c, t);
			ps.push_back(Node::S(t)); ps.push_back(Node::S(uintText(c, x, e.plainOnly))); got |= x << b.offset;
		}
		if (c.p(e.shufflePct)) for (size_t i = ps.size() / 2; i > 1; i--) { size_t j = c.below(i); std::swap(ps[2 * i - 2], ps[2 * j]); std::swap(ps[2 * i - 1], ps[2 * j + 1]); }
		n.items = ps; return n; }
	case CYAML_FLOAT: return Node::S(fltText(c, s, v.num, e.plainOnly));
	case CYAML_STRING: return Node::S(v.str);
	case CYAML_MAPPING: {
		Node n; n.k = Node::MAP; size_t i = 0;
		for (auto f = s.mapping.fields; f->key; f++, i++) {
			string key = f->key; if (insensitive(s, e.cfgFlags) && c.p(50)) key = recase(c, key);
			if (f->value.type == CYAML_IGNORE) {
				if ((f->value.flags & CYAML_FLAG_OPTIONAL) && c.p(50)) continue;
				Node j; // arbitrary junk
				switch (c.below(4)) {
				case 0: j = Node::S("junk"); break;
				case 1: j.k = Node::SEQ; j.items = {Node::S("a"), Node::S("")}; break;
				case 2: { j.k = Node::MAP; Node in; in.k = Node::SEQ; Node in2; in2.k = Node::MAP; in.items = {in2, Node::S("z")}; j.items = {Node::S("k"), in, Node::S("k"), Node::S("v")}; break; }
				default: j = Node::S(""); }
				n.items.push_back(Node::S(key)); n.items.push_back(j); continue;
			}
			if (f->value.flags & CYAML_FLAG_OPTIONAL) {
				bool same = v.kids[i] == defaultVal(S, f->value);
				bool must = (v.kids[i].k == Val::NUL && !nullable(f->value)) || (same && !expressible(S, f->value, v.kids[i]));
				if (same && (must || c.p(e.absentPct))) continue;
				if (must) continue;
			}
			n.items.push_back(Node::S(key)); n.items.push_back(express(c, S, f->value, v.kids[i], e));
		}
		if (c.p(e.shufflePct)) for (size_t j = n.items.size() / 2; j > 1; j--) { size_t k = c.below(j); std::swap(n.items[2 * j - 2], n.items[2 * k]); std::swap(n.items[2 * j - 1], n.items[2 * k + 1]); }
		return n; }
	case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: {
		Node n; n.k = Node::SEQ;
		for (auto &x : v.kids) n.items.push_back(express(c, S, *s.sequence.entry, x, e));
		return n; }
	default: return Node::S("x");
	}
}

// ------------------------------------------------------------ printing
static const char *tname(int t) {
	static const char *n[] = {"INT", "UINT", "BOOL", "ENUM", "FLAGS", "FLOAT", "STRING", "MAPPING", "BITFIELD", "SEQUENCE", "SEQUENCE_FIXED", "IGNORE"};
	return t >= 0 && t < 12 ? n[t] : "BAD";
}
string showSchema(const Schema &S, const cyaml_schema_value_t &s, int depth) {
	string o = tname(s.type);
	u32 f = s.flags;
	if (nullableStr(s)) o += "*0s"; else if (nullable(s)) o += "*0"; else if (isPtr(s)) o += "*";
	if (f & CYAML_FLAG_OPTIONAL) o += "?";
	if (f & CYAML_FLAG_STRICT) o += "!";
	if (f & CYAML_FLAG_CASE_INSENSITIVE) o += "i";
	if (f & CYAML_FLAG_CASE_SENSITIVE) o += "c";
	if (f & ~31u & ~(u32)(CYAML_FLAG_CASE_INSENSITIVE | CYAML_FLAG_CASE_SENSITIVE)) o += sfmt("<style%x>", f >> 5);
	o += sfmt("/%u", s.data_size);
	auto m = S.metaOf(&s);
	if (m && m->hasDefault) o += " default=" + showVal(s, m->def);
	switch (s.type) {
	case CYAML_INT: if (s.integer.min || s.integer.max) o += sfmt(" %lld..%lld", (long long)s.integer.min, (long long)s.integer.max); if (s.integer.validation_cb) o += " cb"; break;
	case CYAML_UINT: if (s.unsigned_integer.min || s.unsigned_integer.max) o += sfmt(" %llu..%llu", (unsigned long long)s.unsigned_integer.min, (unsigned long long)s.unsigned_integer.max); if (s.unsigned_integer.validation_cb) o += " cb"; break;
	case CYAML_STRING: o += sfmt(" len %u..%u", s.string.min, s.string.max); if (s.string.validation_cb) o += " cb"; break;
	case CYAML_ENUM: case CYAML_FLAGS:
		o += "{";
		for (u32 i = 0; i < s.enumeration.count && i < 12; i++) o += (i ? "," : "") + quoted(s.enumeration.strings[i].str) + sfmt("=%lld", (long long)s.enumeration.strings[i].val);
		o += "}"; if (s.enumeration.validation_cb) o += " cb"; break;
	case CYAML_BITFIELD:
		o += "{";
		for (u32 i = 0; i < s.bitfield.count; i++) o += (i ? "," : "") + quoted(s.bitfield.bitdefs[i].name) + sfmt("@%u:%u", s.bitfield.bitdefs[i].offset, s.bitfield.bitdefs[i].bits);
		o += "}"; break;
	case CYAML_MAPPING:
		if (depth > 6 || (m && m->recursive)) { o += "{...}"; break; }
		o += "{";
		for (auto f = s.mapping.fields; f->key; f++) {
			o += " " + quoted(f->key) + sfmt("@%u", f->data_offset);
			if (f->value.type == CYAML_SEQUENCE) o += sfmt("(count@%u:%u)", f->count_offset, f->count_size);
			o += ":" + showSchema(S, f->value, depth + 1) + ";";
			if (o.size() > 6000) { o += "..."; break; }
		}
		o += "}"; if (s.mapping.validation_cb) o += " cb"; break;
	case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED:
		o += sfmt(" %u..%u of ", s.sequence.min, s.sequence.max) + (depth > 8 ? string("...") : showSchema(S, *s.sequence.entry, depth + 1)); if (s.sequence.validation_cb) o += " cb"; break;
	default: break;
	}
	return o;
}
string showVal(const cyaml_schema_value_t &s, const Val &v) {
	switch (v.k) {
	case Val::NUL: return isPtr(s) ? "NULL" : "unset";
	case Val::NUM: if (s.type == CYAML_FLOAT) return sfmt("%.17g", fval(s, v.num)); if (s.type == CYAML_INT || s.type == CYAML_ENUM) return sfmt("%lld", (long long)sext(v.num, s.data_size)); return sfmt("%llu", (unsigned long long)v.num);
	case Val::STR: return quoted(v.str, 200);
	case Val::MAP: { string o = "{"; size_t i = 0; for (auto f = s.mapping.fields; f->key; f++, i++) { if (f->value.type != CYAML_IGNORE) o += quoted(f->key) + ":" + showVal(f->value, v.kids[i]) + " "; if (o.size() > 3000) { o += "..."; break; } } return o + "}"; }
	case Val::SEQ: { string o = "["; for (auto &k : v.kids) { o += showVal(*s.sequence.entry, k) + " "; if (o.size() > 3000) { o += "..."; break; } } return o + "]"; }
	}
	return "";
}
string showNode(const Node &n) {
	string o; if (!n.anchor.empty()) o += "&" + n.anchor + " ";
	switch (n.k) {
	case Node::SCALAR: return o + quoted(n.text, 300);
	case Node::ALIAS: return "*" + n.text;
	case Node::SEQ: o += "["; for (auto &x : n.items) o += showNode(x) + " "; return o + "]";
	case Node::MAP: o += "{"; for (size_t i = 0; i + 1 < n.items.size(); i += 2) o += showNode(n.items[i]) + ":" + showNode(n.items[i + 1]) + " "; return o + "}";
	}
	return o;
}
