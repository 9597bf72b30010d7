#include "../gen.h"
#include "../inplace.h"
#include <unistd.h>
#include <unordered_map>
#include <sys/mman.h>
#include <sanitizer/asan_interface.h>

typedef cyaml_schema_value_t SV;
static SV plain24(cyaml_type_e t, u32 size, u32 flags = 0) { SV s; memset(&s, 0, sizeof s); s.type = t; s.flags = (cyaml_flag_e)flags; s.data_size = size; return s; }
static SV str24(u32 flags, u32 size, u32 max) { SV s = plain24(CYAML_STRING, size, flags); s.string.min = 0; s.string.max = max; return s; }
static SV map24(Schema &S, u32 flags, u32 size, vector<cyaml_schema_field_t> f) { SV s = plain24(CYAML_MAPPING, size, flags); f.push_back(cyaml_schema_field_t{}); S.fields.push_back(std::move(f)); s.mapping.fields = S.fields.back().data(); return s; }
static SV seq24(Schema &S, cyaml_type_e t, u32 flags, const SV &entry, u32 min, u32 max) { S.values.push_back(entry); SV s = plain24(t, (u32)slotWidth(entry), flags); s.sequence.entry = &S.values.back(); s.sequence.min = min; s.sequence.max = max; return s; }
static cyaml_schema_field_t field24(Schema &S, const string &key, u32 off, const SV &v, u32 coff = 0, u8 csize = 0) { cyaml_schema_field_t f; memset(&f, 0, sizeof f); f.key = S.str(key); f.value = v; f.data_offset = off; f.count_offset = coff; f.count_size = csize; return f; }
static Val seqVal(vector<Val> k) { Val v; v.k = Val::SEQ; v.kids = std::move(k); return v; }
static Val mapVal(vector<Val> k) { Val v; v.k = Val::MAP; v.kids = std::move(k); return v; }

// sizes around the steps at which buffers grow
static u64 size24(Choices &c, u64 max) {
	for (int i = 0; i < 20; i++) {
		u64 n; switch (c.below(4)) {
		case 0: n = c.below(130); break;
		case 1: n = (16ull << c.below(24)) + c.below(5) - 2; break;
		case 2: n = 16 * (1 + c.below(64)) + c.below(3) - 1; break;
		default: { u64 b = 1ull << c.below(26); n = b + c.below(b); } }
		if (n <= max) return n;
	}
	return c.below(max + 1);
}
// load, save, reload, copy and free one value and compare everything with the model
static void all24(Case &k, Schema &S, const Val &v, const Node *doc, u32 cfg, bool again = true) {
	Choices &c = k.c; Expr e; e.cfgFlags = cfg; e.absentPct = 100; e.plainOnly = c.p(70); if (c.p(50)) e.flowPct = c.p(50) ? 0 : 100;
	string text; { Node n; if (!doc) { n = express(c, S, S.top, v, e); doc = &n; } Writer w; w.kind = Writer::EMITTER; w.encodings = c.p(8); w.tags = w.comments = false; text = writeNode(c, *doc, w); }
	Model m = modelText(S, cfg, text); if (m.ambiguous || m.tooBig) throw Discard{};
	k.label(sfmt("text bytes 2^%d", 64 - __builtin_clzll(text.size() | 1))); k.label("load:" + errName(m.err));
	Rig r(cfg); r.log.keep = false; LoadRes res; checkAgainst(r, S, text, m, &res, false); k.evals = 1;
	if (res.err) return;
	if (v.k == Val::NUL || noData(S.top, m.val)) { doFree(r, S, res.data, res.count); return; }
	try { checkSave(r, S, m.val, res.data, res.count); k.evals++; } catch (Discard &) { k.label("save left out"); again = false; }
	unsigned cc = S.top.type == CYAML_SEQUENCE_FIXED ? S.top.sequence.max : res.count;
	{ size_t own = r.ta.live.size(); CopyRes x = doCopy(r, S, res.data, cc); k.evals++; CHECK(x.err == CYAML_OK, "copy returned %s", errName(x.err).c_str());
	  MatchCtx mc; mc.ta = &r.ta; mc.checkGaps = false; CHECK(matchTop(S.top, x.data, m.val, mc, false), "the copy differs: %s", mc.err.c_str());
	  CHECK(cyaml_free(&r.cfg, &S.top, (cyaml_data_t *)x.data, cc) == CYAML_OK && r.ta.err.empty(), "freeing the copy: %s", r.ta.err.c_str()); k.evals++;
	  CHECK(r.ta.live.size() == own, "freeing the copy left %zu blocks of %zu", r.ta.live.size(), own); }
	if (again) {
		SaveRes s = doSave(r, S, res.data, res.count); CHECK(!s.err, "saving again returned %s", errName(s.err).c_str());
		Model m2 = modelText(S, cfg, s.out); if (!m2.ambiguous && !m2.tooBig) { Rig r2(cfg); r2.log.keep = false; k.evals++; LoadRes b = doLoad(r2, S, s.out); CHECK(b.err == m2.err, "loading what was saved returned %s, expected %s (%s)", errName(b.err).c_str(), errName(m2.err).c_str(), m2.why.c_str());
			if (!b.err) { MatchCtx mc; mc.ta = &r2.ta; CHECK(matchTop(S.top, b.data, m2.val, mc, true), "loading what was saved gave other data: %s", mc.err.c_str()); CHECK(b.count == res.count, "loading what was saved gave %u entries, not %u", b.count, res.count); doFree(r2, S, b.data, b.count); } }
	}
	doFree(r, S, res.data, res.count); k.evals++;
}
static void say24(Case &k, const char *dim, u64 n, const string &more = "") { k.desc = sfmt("%s %llu%s%s", dim, (unsigned long long)n, more.empty() ? "" : ": ", more.c_str()) + "\n"; k.nontrivial = n >= 8; k.label(sfmt("%s 2^%d", dim, 64 - __builtin_clzll(n | 1))); }

// ---- nesting depth: a chain of containers of mixed kinds
static void depth24(Case &k, u64 d) {
	Choices &c = k.c; Schema S; string kinds; int mode = c.below(5); // mapping only, fixed only, mixed...
	SV cur = c.p(50) ? plain24(CYAML_INT, 1 + c.below(8)) : str24(CYAML_FLAG_POINTER, 0, 100); Val v = cur.type == CYAML_INT ? Val::Num(c.below(100)) : Val::Str("deep");
	if (c.p(20)) { cur.flags = (cyaml_flag_e)(cur.flags | CYAML_FLAG_POINTER); if (cur.type != CYAML_STRING) {} }
	bool rec = d > 300 || c.p(20); // recursive schema instead of a chain of its own
	if (rec) {
		// struct { T *n; (count) ; u8 v; }
		int shape = c.below(3);
		S.fields.emplace_back(); auto &f = S.fields.back(); f.reserve(4);
		SV self = plain24(CYAML_MAPPING, 24, CYAML_FLAG_POINTER_NULL | CYAML_FLAG_OPTIONAL);
		f.resize(3); self.mapping.fields = f.data();
		u32 first = c.below(2);
		SV link = self;
		if (shape == 1) { S.values.push_back(self); SV q = plain24(CYAML_SEQUENCE, c.p(50) ? 24 : 8, CYAML_FLAG_POINTER | CYAML_FLAG_OPTIONAL); if (q.data_size == 24) S.values.back().flags = CYAML_FLAG_DEFAULT; q.sequence.entry = &S.values.back(); q.sequence.min = 0; q.sequence.max = CYAML_UNLIMITED; link = q; }
		if (shape == 2) { S.values.push_back(self); SV q = plain24(CYAML_SEQUENCE_FIXED, 8, CYAML_FLAG_POINTER_NULL | CYAML_FLAG_OPTIONAL); q.sequence.entry = &S.values.back(); q.sequence.min = q.sequence.max = 2; link = q; }
		f[first] = field24(S, "n", 8, link, 0, shape == 1 ? 2 : 0); f[1 - first] = field24(S, "v", 16, plain24(CYAML_UINT, 1, 0));
		S.top = plain24(CYAML_MAPPING, 24, CYAML_FLAG_POINTER); S.top.mapping.fields = f.data();
		auto mk = [&](Val n, u64 i) { vector<Val> kk(2); kk[first] = std::move(n); kk[1 - first] = Val::Num(i & 255); return mapVal(std::move(kk)); };
		v = mk(shape == 1 ? seqVal({}) : Val(), d);
		for (u64 i = d; i-- > 1;) {
			if (shape == 0) v = mk(std::move(v), i);
			else if (shape == 1) { vector<Val> e; e.push_back(std::move(v)); v = mk(seqVal(std::move(e)), i); }
			else { vector<Val> e(2); e[c.below(2)] = std::move(v); v = mk(seqVal(std::move(e)), i); }
		}
		kinds = sfmt("recursive, shape %d", shape);
	} else {
		for (u64 i = 0; i < d; i++) {
			int kind = mode == 0 ? 0 : mode == 1 ? 2 : c.below(3); if (kind == 1 && i + 1 == d && c.p(50)) kind = 0;
			bool ptr = c.p(mode == 2 ? 100 : 50) || i + 1 == d || slotSize(cur) > 4000; u32 fl = ptr ? (u32)CYAML_FLAG_POINTER : 0;
			if (kind == 1 && cur.type == CYAML_SEQUENCE) kind = 0;
			if (kind == 0) {
				u32 w = slotWidth(cur); bool before = c.p(50); vector<cyaml_schema_field_t> f; vector<Val> kk;
				auto fa = field24(S, c.p(5) ? string(300, 'k') : "a", 4, cur, 0, cur.type == CYAML_SEQUENCE ? 4 : 0), fb = field24(S, "b", 4 + w, plain24(CYAML_INT, 1));
				if (before) { f = {fb, fa}; kk.push_back(Val::Num(i & 127)); kk.push_back(std::move(v)); } else { f = {fa, fb}; kk.push_back(std::move(v)); kk.push_back(Val::Num(i & 127)); }
				cur = map24(S, fl, 4 + w + 1, f); v = mapVal(std::move(kk)); kinds += ptr ? 'M' : 'm';
			} else if (kind == 1) {
				cur = seq24(S, CYAML_SEQUENCE, fl, cur, 0, ptr ? CYAML_UNLIMITED : 1 + c.below(2)); vector<Val> e; e.push_back(std::move(v)); v = seqVal(std::move(e)); kinds += ptr ? 'S' : 's';
			} else { cur = seq24(S, CYAML_SEQUENCE_FIXED, fl, cur, 1, 1); vector<Val> e; e.push_back(std::move(v)); v = seqVal(std::move(e)); kinds += ptr ? 'F' : 'f'; }
		}
		if (!d) { cur.flags = (cyaml_flag_e)(cur.flags | CYAML_FLAG_POINTER); }
		S.top = cur;
	}
	say24(k, "depth", d, kinds.substr(0, 400)); all24(k, S, v, nullptr, c.p(30) ? CYAML_CFG_STYLE_FLOW : 0);
}
PROP(C24, depth, 3000, 40000) { depth24(k, size24(k.c, 130)); }
PROP(C24, deeper, 24, 600) { depth24(k, 130 + size24(k.c, 1200)); }

// ---- members of a mapping
static void members24(Case &k, u64 n) {
	Choices &c = k.c; Schema S; vector<cyaml_schema_field_t> f; f.reserve(n + 1); vector<Val> kids; kids.reserve(n); bool lean = n > 600;
	int pre = c.below(3); u32 off = 0; Node doc; doc.k = Node::MAP; u64 req = 0;
	vector<u64> special; if (lean) { for (u64 x : {(u64)0, n - 1, n - 2, (u64)65533, (u64)65534, (u64)65535, (u64)65536, (u64)65537, (u64)255, (u64)256, (u64)32767, (u64)32768}) if (x < n) special.push_back(x); for (int i = 0; i < 12; i++) special.push_back(c.below(n)); }
	std::set<u64> sp(special.begin(), special.end());
	for (u64 i = 0; i < n; i++) {
		string key = pre == 0 ? sfmt("k%llu", (unsigned long long)i) : pre == 1 ? sfmt("%05llx", (unsigned long long)i) : string(1 + i % 40, 'x') + sfmt("%llu", (unsigned long long)i);
		SV s; bool opt = lean ? !sp.count(i) || c.p(50) : c.p(40); int t = c.below(5);
		if (lean) { s = t < 3 ? plain24(CYAML_INT, 4, CYAML_FLAG_POINTER) : str24(CYAML_FLAG_POINTER, 0, 99); }
		else s = t == 0 ? plain24(CYAML_UINT, 1 + c.below(8)) : t == 1 ? plain24(CYAML_BOOL, 1) : t == 2 ? str24(CYAML_FLAG_POINTER, 0, 99) : t == 3 ? plain24(CYAML_INT, 2, CYAML_FLAG_POINTER) : plain24(CYAML_INT, 4);
		if (opt) s.flags = (cyaml_flag_e)(s.flags | CYAML_FLAG_OPTIONAL);
		f.push_back(field24(S, key, off, s)); off += slotWidth(s);
		bool here = lean ? sp.count(i) : !opt || c.p(60);
		Val v; if (here) v = s.type == CYAML_STRING ? Val::Str(sfmt("s%llu", (unsigned long long)i)) : s.type == CYAML_BOOL ? Val::Num(c.below(2)) : Val::Num(c.below(128));
		if (here) { doc.items.push_back(Node::S(key)); doc.items.push_back(Node::S(s.type == CYAML_STRING ? v.str : s.type == CYAML_BOOL ? (v.num ? "true" : "false") : std::to_string(v.num))); req += !opt; }
		else if (!isPtr(s)) v = Val::Num(0);
		kids.push_back(v);
	}
	for (size_t i = doc.items.size() / 2; i > 1; i--) { size_t j = c.below(i); std::swap(doc.items[2 * i - 2], doc.items[2 * j]); std::swap(doc.items[2 * i - 1], doc.items[2 * j + 1]); }
	string dmg; if (doc.items.size() >= 2) { int q = c.below(10); size_t a = 2 * c.below(doc.items.size() / 2);
		if (q == 0) { doc.items.push_back(Node::S(doc.items[a].text)); doc.items.push_back(Node::S(doc.items[a + 1].text)); dmg = "repeated"; }
		if (q == 1) { doc.items.erase(doc.items.begin() + a, doc.items.begin() + a + 2); dmg = "left out"; }
		if (q == 2) { doc.items.insert(doc.items.begin() + a, {Node::S("unknown"), Node::S("1")}); dmg = "unknown"; } }
	S.top = map24(S, CYAML_FLAG_POINTER, off ? off : 1, f); say24(k, "members", n, dmg); k.label("damage:" + dmg);
	all24(k, S, mapVal(kids), &doc, c.p(20) ? CYAML_CFG_IGNORE_UNKNOWN_KEYS : 0);
}
PROP(C24, members, 2500, 30000) { u64 n = size24(k.c, 300); if (!n) throw Discard{}; members24(k, n); }
PROP(C24, manymembers, 30, 600) { u64 n = k.c.p(60) ? 65530 + k.c.below(12) : k.c.p(30) ? 131060 + k.c.below(40) : 600 + size24(k.c, 70000); members24(k, n); }

// ---- entries of a sequence, with every way of counting them
static void entries24(Case &k, u64 n, bool many) {
	Choices &c = k.c; Schema S; SV e; int t = many ? (int)c.below(3) : (int)c.below(6);
	e = t == 0 ? plain24(CYAML_UINT, 1) : t == 1 ? plain24(CYAML_UINT, 4) : t == 2 ? plain24(CYAML_BOOL, 1) : t == 3 ? str24(CYAML_FLAG_POINTER, 0, 99) : t == 4 ? plain24(CYAML_UINT, 2, CYAML_FLAG_POINTER) : map24(S, c.p(50) ? CYAML_FLAG_POINTER : 0, 3, {field24(S, "a", 1, plain24(CYAML_UINT, 1))});
	vector<Val> kk; kk.reserve(n); for (u64 i = 0; i < n; i++) { Val x = t == 3 ? Val::Str(sfmt("%llu", (unsigned long long)i)) : Val::Num(t == 2 ? i * 7 % 5 % 2 : t == 0 || t == 5 ? (i * 31) & 255 : i & 65535); if (t == 5) { vector<Val> y; y.push_back(x); x = mapVal(y); } kk.push_back(std::move(x)); }
	int kind = c.below(6); Val v; string what; u8 cs = 0;
	if (kind == 0) { S.top = seq24(S, CYAML_SEQUENCE, CYAML_FLAG_POINTER, e, 0, c.p(60) ? CYAML_UNLIMITED : (u32)(n + c.below(3))); v = seqVal(std::move(kk)); what = "top level"; }
	else if (kind == 1) { S.top = seq24(S, CYAML_SEQUENCE_FIXED, CYAML_FLAG_POINTER, e, n, n); v = seqVal(std::move(kk)); what = "fixed"; if (!n) throw Discard{}; }
	else {
		static const u8 css[] = {1, 2, 3, 4, 8, 2, 1}; cs = css[c.below(7)]; bool ptr = kind < 5; u32 max = c.p(60) ? CYAML_UNLIMITED : (u32)(n + c.below(3)); if (!ptr) max = (u32)(n + c.below(3));
		if (c.p(6) && n) max = n - 1;
		SV q = seq24(S, CYAML_SEQUENCE, ptr ? CYAML_FLAG_POINTER : 0, e, 0, max); u32 w = (u32)(ptr ? 8 : (u64)max * slotWidth(e));
		S.top = map24(S, CYAML_FLAG_POINTER, 12 + w, {field24(S, "q", 10, q, c.p(50) ? 1 : 10 + w - (cs > 2 ? 0 : 0), cs), }); 
		auto &f = S.fields.back()[0]; if (f.count_offset > 8) { f.count_offset = 10 + w; S.top.data_size = 10 + w + cs; }
		vector<Val> m1; m1.push_back(seqVal(std::move(kk))); v = mapVal(std::move(m1)); what = sfmt("%s member with a count of %d bytes, max %u", ptr ? "pointer" : "inline", cs, max);
	}
	say24(k, "entries", n, what + sfmt(", entry kind %d", t)); all24(k, S, v, nullptr, c.p(30) ? CYAML_CFG_STYLE_FLOW : 0, !many);
}
PROP(C24, entries, 4000, 50000) { entries24(k, size24(k.c, k.c.p(95) ? 300 : 3000), false); }
PROP(C24, manyentries, 24, 800) { u64 n = k.c.p(50) ? 65530 + k.c.below(12) : size24(k.c, 140000); entries24(k, n, true); }

// ---- lengths of strings and names
static string long24(Choices &c, u64 n, bool name) {
	string s; s.reserve(n); int m = c.below(name ? 3 : 5); static const char *u[] = {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80"};
	while (s.size() < n) { size_t room = n - s.size();
		if (m == 1 && room >= 4) s += u[c.below(3)]; else if (m == 3 && s.size() && room > 1 && c.p(10)) s += ' '; else if (m == 4 && s.size() && room > 1 && c.p(4)) s += '\n'; else s += "abcdefghijklmnopqrstuvwxyz0123456789"[m == 2 ? 0 : c.below(36)]; }
	return s;
}
static void strings24(Case &k, u64 n) {
	Choices &c = k.c; Schema S; string t = long24(c, n, false); int where = c.below(5); Val v; SV s; string what; u32 max = c.p(50) ? CYAML_UNLIMITED : (u32)(n + c.below(2)); if (c.p(6) && n) max = n - 1; bool inl = c.p(50) && n < 2000000; if (inl && max == CYAML_UNLIMITED) max = n + c.below(20);
	s = str24(inl ? 0 : CYAML_FLAG_POINTER, inl ? max + 1 : 0, max); v = Val::Str(t); what = inl ? "inline" : "pointer";
	if (where == 0) { if (inl) { s.flags = CYAML_FLAG_POINTER; s.data_size = 0; } S.top = s; what = "top level"; }
	else if (where == 1) { S.top = map24(S, CYAML_FLAG_POINTER, slotWidth(s) + 1, {field24(S, "s", 1, s)}); v = mapVal({v}); }
	else if (where == 2) { S.top = seq24(S, CYAML_SEQUENCE, CYAML_FLAG_POINTER, s, 0, CYAML_UNLIMITED); v = seqVal({v, Val::Str(t.substr(0, t.size() / 2 + 1 > t.size() ? t.size() : 0)), v}); what += " entry"; }
	else { // the name of a member, enum value or flag
		if (!n) throw Discard{}; string nm = long24(c, n, true); what = "name";
		if (where == 3) { S.top = map24(S, CYAML_FLAG_POINTER, 2, {field24(S, nm, 1, plain24(CYAML_INT, 1)), field24(S, nm + "x", 0, plain24(CYAML_INT, 1))}); v = mapVal({Val::Num(7), Val::Num(8)}); }
		else { S.strvals.push_back({{S.str(nm), 5}, {S.str(nm + "y"), 2}}); S.values.push_back(plain24(c.p(50) ? CYAML_ENUM : CYAML_FLAGS, 4, CYAML_FLAG_STRICT)); SV e = S.values.back(); e.enumeration.strings = S.strvals.back().data(); e.enumeration.count = 2; v = Val::Num(e.type == CYAML_FLAGS ? 7 : c.p(50) ? 2 : 5); S.top = map24(S, CYAML_FLAG_POINTER, 4, {field24(S, "e", 0, e)}); v = mapVal({v}); }
	}
	say24(k, "string length", n, what); all24(k, S, v, nullptr, c.p(20) ? CYAML_CFG_CASE_INSENSITIVE : 0);
}
PROP(C24, strings, 4000, 60000) { strings24(k, size24(k.c, k.c.p(90) ? 1100 : 20000)); }
PROP(C24, longstrings, 30, 1000) { strings24(k, size24(k.c, 3000000)); }

// ---- wide data: structures, entries and arrays that span more than 64 KiB
static SV wide24(Case &k, Schema &S, int depth, Val &v, string &what, bool inl) {
	Choices &c = k.c; int t = depth <= 0 ? (int)c.below(3) : (int)c.below(7); u32 fl = inl ? 0 : (u32)CYAML_FLAG_POINTER;
	auto span = [&](u64 cap) { return c.p(40) ? 65530 + c.below(14) : c.p(30) ? 1 + c.below(cap) : 1 + c.below(300); };
	if (t == 0) { v = Val::Num(c.below(128)); what += 'i'; return plain24(CYAML_INT, 1 + c.below(8), fl); }
	if (t == 1) { u32 n = (u32)span(150000); string x = long24(c, c.p(70) ? c.below(std::min<u32>(n, 20)) : c.below(n + 1), false); v = Val::Str(x); what += sfmt("s%u", n); return inl ? str24(0, n + 1 + c.below(3), n) : str24(CYAML_FLAG_POINTER, 0, CYAML_UNLIMITED); }
	if (t == 2) { u32 n = (u32)span(20000); SV e = plain24(CYAML_UINT, 1 + c.below(4)); vector<Val> kk; for (u32 i = 0; i < n; i++) kk.push_back(Val::Num(i & 255)); v = seqVal(std::move(kk)); what += sfmt("f%u", n); return seq24(S, CYAML_SEQUENCE_FIXED, fl, e, n, n); }
	if (t < 5) { // a structure with members at far offsets
		u32 off = c.below(3); vector<cyaml_schema_field_t> f; vector<Val> kk; int n = 1 + c.below(3); what += 'm';
		for (int i = 0; i < n; i++) { Val x; SV q = wide24(k, S, depth - 1, x, what, c.p(60)); u32 co = 0; if (q.type == CYAML_SEQUENCE) { co = off; off += 4; } if (c.p(50)) off += (u32)span(200000); f.push_back(field24(S, sfmt("k%d", i), off, q, co, q.type == CYAML_SEQUENCE ? 4 : 0)); off += slotWidth(q); kk.push_back(std::move(x)); if (off > 3000000) break; }
		v = mapVal(std::move(kk)); SV m = map24(S, fl, off + c.below(3), f); what += sfmt("(%u)", m.data_size); return m;
	}
	// few wide entries
	Val x; string inner; SV e = wide24(k, S, depth - 1, x, inner, c.p(70)); if (e.type == CYAML_SEQUENCE) { v = std::move(x); what += inner; return e.flags & CYAML_FLAG_POINTER || inl ? e : (e.flags = CYAML_FLAG_POINTER, e); }
	u32 n = slotWidth(e) > 400000 ? 1 : 1 + c.below(4); vector<Val> kk; for (u32 i = 0; i < n; i++) kk.push_back(x); v = seqVal(std::move(kk)); what += (t == 5 ? "F[" : "S[") + inner + "]";
	return seq24(S, t == 5 ? CYAML_SEQUENCE_FIXED : CYAML_SEQUENCE, fl, e, t == 5 ? n : 0, n);
}
PROP(C24, wide, 400, 12000) {
	Choices &c = k.c; Schema S; Val v; string what; bool place = c.p(40); SV top = wide24(k, S, 1 + c.below(2), v, what, place); u64 w = slotWidth(top); if (w > 6000000) throw Discard{};
	if (place && !isPtr(top)) { S.topPtr = false; S.top = top; inplaceCopy(k, S, v, what); say24(k, "in place", w, what); return; }
	if (!isPtr(top)) top.flags = (cyaml_flag_e)(top.flags | CYAML_FLAG_POINTER);
	S.top = top; u64 widest = top.type == CYAML_MAPPING || isSeq(top) ? top.data_size : 0; say24(k, "width", widest, what); all24(k, S, v, nullptr, 0);
}
// ---- numbers of names
PROP(C24, names, 800, 20000) {
	Choices &c = k.c; Schema S; u64 n = 1 + size24(c, c.p(90) ? 300 : 20000); if (c.p(1)) n = 65530 + c.below(10);
	bool fl = n < 3000 && c.p(40); vector<cyaml_strval_t> t; for (u64 i = 0; i < n; i++) t.push_back({S.str(sfmt("n%llu", (unsigned long long)i)), fl ? (i64)(1ull << (i & 63)) : (i64)i * 3 - 50}); S.strvals.push_back(t);
	SV e = plain24(fl ? CYAML_FLAGS : CYAML_ENUM, 8, CYAML_FLAG_STRICT); e.enumeration.strings = S.strvals.back().data(); e.enumeration.count = n;
	vector<Val> kk; for (int i = 0; i < 6; i++) { u64 x = c.p(40) ? n - 1 : c.p(30) ? std::min<u64>(n - 1, 255 + c.below(3)) : c.below(n); kk.push_back(Val::Num(fl ? (n >= 64 ? c.below(0) : c.below(1ull << n)) & (n >= 64 ? ~0ull : (1ull << n) - 1) : (u64)t[x].val)); }
	S.top = seq24(S, CYAML_SEQUENCE, CYAML_FLAG_POINTER, e, 0, CYAML_UNLIMITED); say24(k, fl ? "flags" : "enum names", n); all24(k, S, seqVal(kk), nullptr, c.p(20) ? CYAML_CFG_CASE_INSENSITIVE : 0);
}

// ---- anchors: how many, how deep, how long
PROP(C24, anchors, 1500, 30000) {
	Choices &c = k.c; Schema S; u64 n = 1 + size24(c, c.p(95) ? 150 : 1500); int kind = c.below(3); string t; Val v; string what;
	SV leaf = plain24(CYAML_UINT, 2);
	if (kind == 0) { // n anchored scalars or lists, then aliases to all of them in another order
		SV in = seq24(S, CYAML_SEQUENCE, CYAML_FLAG_POINTER, leaf, 0, CYAML_UNLIMITED); SV e = map24(S, c.p(50) ? CYAML_FLAG_POINTER : 0, 10, {field24(S, "q", 0, in, 8, 2)}); bool deep = c.p(50);
		S.top = seq24(S, CYAML_SEQUENCE, CYAML_FLAG_POINTER, e, 0, CYAML_UNLIMITED); bool same = c.p(15); u64 len = 1 + c.below(c.p(10) ? 40 : 3);
		for (u64 i = 0; i < n; i++) { string a = same ? "a" : sfmt("a%llu", (unsigned long long)i); t += deep ? "- &" + a + " {q: [" : "- {q: &" + a + " ["; for (u64 j = 0; j < len; j++) t += std::to_string((i + j) & 65535) + ", "; t += "]}\n"; }
		for (u64 i = 0; i < n; i++) { string a = same ? "a" : sfmt("a%llu", (unsigned long long)((i * 7 + 3) % n)); t += deep ? "- *" + a + "\n" : "- {q: *" + a + " }\n"; }
		what = deep ? "mappings" : "sequences";
	} else if (kind == 1) { // nested anchors, all in progress at once
		S.fields.emplace_back(); auto &f = S.fields.back(); f.resize(3); SV self = plain24(CYAML_MAPPING, 16, CYAML_FLAG_POINTER_NULL | CYAML_FLAG_OPTIONAL); self.mapping.fields = f.data(); f[0] = field24(S, "n", 8, self); f[1] = field24(S, "v", 0, plain24(CYAML_UINT, 2));
		SV e = self; e.flags = CYAML_FLAG_POINTER; S.top = seq24(S, CYAML_SEQUENCE, CYAML_FLAG_POINTER, e, 0, CYAML_UNLIMITED); if (n > 400) n = 400;
		t = "- "; for (u64 i = 0; i < n; i++) t += sfmt("&a%llu {v: %llu, n: ", (unsigned long long)i, (unsigned long long)i); for (u64 i = 0; i < n; i++) t += "}"; t += "\n";
		for (int i = 0; i < 12; i++) t += sfmt("- *a%llu\n", (unsigned long long)c.below(n)); what = "nested";
	} else { // scalars, as values and as names
		S.top = seq24(S, CYAML_SEQUENCE, CYAML_FLAG_POINTER, str24(CYAML_FLAG_POINTER, 0, CYAML_UNLIMITED), 0, CYAML_UNLIMITED);
		for (u64 i = 0; i < n; i++) { t += sfmt("- &%s%llu %s\n", c.p(5) ? string(c.below(300), 'n').c_str() : "s", (unsigned long long)i, c.p(3) ? string(1 + c.below(2000), 'x').c_str() : sfmt("t%llu", (unsigned long long)i).c_str()); if (c.p(30)) t += sfmt("- *s%llu\n", (unsigned long long)c.below(i + 2)); }
		what = "scalars";
	}
	say24(k, "anchors", n, what); Model m = modelText(S, 0, t); if (m.ambiguous || m.tooBig) throw Discard{}; k.label("load:" + errName(m.err)); k.label("aliases", m.aliasCount);
	Rig r(0); r.log.keep = false; LoadRes res; checkAgainst(r, S, t, m, &res, false); k.evals = 1; if (res.err) return;
	unsigned cc = res.count; CopyRes x = doCopy(r, S, res.data, cc); k.evals++; CHECK(!x.err, "copy returned %s", errName(x.err).c_str()); MatchCtx mc; mc.ta = &r.ta; mc.checkGaps = false; CHECK(matchTop(S.top, x.data, m.val, mc, false), "the copy differs: %s", mc.err.c_str());
	CHECK(cyaml_free(&r.cfg, &S.top, (cyaml_data_t *)x.data, cc) == CYAML_OK && r.ta.err.empty(), "freeing the copy: %s", r.ta.err.c_str()); doFree(r, S, res.data, res.count);
}
// ---- many recorded events: long anchored content, and anchors and aliases after it
PROP(C24, recorded, 40, 800) {
	Choices &c = k.c; Schema S; u64 n = c.p(50) ? 65500 + c.below(80) : c.p(50) ? 100 + size24(c, 3000) : 32700 + c.below(40000);
	SV in = seq24(S, CYAML_SEQUENCE, CYAML_FLAG_POINTER, plain24(CYAML_UINT, 2), 0, CYAML_UNLIMITED); SV e = map24(S, c.p(50) ? CYAML_FLAG_POINTER : 0, 16, {field24(S, "q", 0, in, 8, 4)}); S.top = seq24(S, CYAML_SEQUENCE, CYAML_FLAG_POINTER, e, 0, CYAML_UNLIMITED);
	bool outer = c.p(50), mid = c.p(50); int extra = 1 + c.below(6); string t = outer ? "- &big {q: [" : "- {q: &big ["; u64 m1 = c.below(n), m2 = c.below(n);
	for (u64 i = 0; i < n; i++) { if (mid && i == m1) t += "&m1 "; if (mid && i == m2 && m2 != m1) t += "&m2 "; t += std::to_string((i * 7) & 65535); t += i % 20 == 19 ? ",\n  " : ", "; } t += "]}\n";
	for (int i = 0; i < extra; i++) { switch (c.below(3)) { case 0: t += sfmt("- &x%d {q: [%d, 1, 2]}\n", i, i); break; case 1: t += sfmt("- {q: &y%d [%d, &z%d %d]}\n", i, i, i, 9 + i); break; default: t += sfmt("- {q: [&z%d %d, 5]}\n", i, 100 + i); } }
	static const char *pre[] = {"x", "y", "z"}; for (int i = 0; i < 6; i++) { int w = c.below(3); string name = sfmt("%s%d", pre[w], (int)c.below(extra)); if (t.find("&" + name + " ") == string::npos) continue; t += w == 0 ? "- *" + name + "\n" : w == 1 ? "- {q: *" + name + "}\n" : "- {q: [*" + name + ", 3]}\n"; }
	if (mid) t += "- {q: [*m1, 1" + string(m2 != m1 ? ", *m2" : "") + "]}\n"; if (c.p(50)) t += outer ? "- *big\n" : "- {q: *big}\n";
	say24(k, "recorded entries", n); Model m = modelText(S, 0, t); if (m.ambiguous || m.tooBig) throw Discard{}; k.label("load:" + errName(m.err)); k.label("aliases", m.aliasCount);
	Rig r(0); r.log.keep = false; LoadRes res; checkAgainst(r, S, t, m, &res, false); if (!res.err) doFree(r, S, res.data, res.count);
}
// ---- size of the document: padding that says nothing, ignored values, long output
PROP(C24, document, 500, 10000) {
	Choices &c = k.c; Schema S; u64 n = size24(c, c.p(90) ? 40000 : 2000000); int kind = c.below(4); string t;
	S.top = map24(S, CYAML_FLAG_POINTER, 4, {field24(S, "a", 0, plain24(CYAML_UINT, 2)), field24(S, "i", 0, plain24(CYAML_IGNORE, 0, CYAML_FLAG_OPTIONAL)), field24(S, "b", 2, plain24(CYAML_UINT, 2))}); u32 cfg = 0; string what;
	auto pad = [&](int q) -> string { switch (q) { case 0: { string p; while (p.size() < n) p += "# " + string(std::min<u64>(n - p.size(), 1 + c.below(200)), 'c') + "\n"; return p; } case 1: return string(n, '\n'); case 2: { string p; while (p.size() < n) p += string(c.below(60), ' ') + "\n"; return p; } default: return string(); } };
	if (kind == 0) { int q = c.below(3), at = c.below(4); string p = pad(q); t = (at == 0 ? p : "") + "a: 1\n" + (at == 1 ? p : "") + "b: 2\n" + (at == 2 ? p : ""); if (at == 3) t = "---\n" + p + "a: 1\nb: 2\n...\n"; what = sfmt("padding %d at %d", q, at); }
	else if (kind == 1) { bool unk = c.p(50); if (unk) cfg = CYAML_CFG_IGNORE_UNKNOWN_KEYS; u64 d = std::min<u64>(n, 2000); t = string("a: 1\n") + (unk ? "zz" : "i") + ": " + string(d, '[') + string(d, ']') + "\nb: 2\n"; what = "ignored nesting"; n = d; }
	else if (kind == 2) { bool unk = c.p(50); if (unk) cfg = CYAML_CFG_IGNORE_UNKNOWN_KEYS; if (n > 200000) n = 200000; t = string("a: 1\n") + (unk ? "zz" : "i") + ":\n"; string b; int q = c.below(3); if (q == 0) for (u64 i = 0; b.size() < n; i++) b += sfmt(" - &x%llu {u: %llu}\n", (unsigned long long)(i % 50), (unsigned long long)i); else if (q == 1) for (u64 i = 0; b.size() < n; i++) b += sfmt(" k%llu: [1, 'x', \"y\"]\n", (unsigned long long)i); else b = " \"" + string(n, 'q') + "\"\n"; t += b; if (!n) t += " x\n"; t += "b: 2\n"; what = "ignored content"; }
	else { // many unknown members
		cfg = CYAML_CFG_IGNORE_UNKNOWN_KEYS; if (n > 200000) n = 200000; t = "a: 1\n"; for (u64 i = 0; t.size() < n; i++) t += sfmt("u%llu: %llu\n", (unsigned long long)i, (unsigned long long)i); t += "b: 2\n"; what = "unknown members"; }
	if (c.p(20)) t = toUtf16(t, c.p(50), true);
	say24(k, "document bytes", n, what); Model m = modelText(S, cfg, t); if (m.ambiguous) throw Discard{}; k.label("load:" + errName(m.err));
	Rig r(cfg); r.log.keep = false; checkAgainst(r, S, t, m, nullptr, true);
}
// ---- defaults of any size
PROP(C24, defaults, 600, 12000) {
	Choices &c = k.c; Schema S; u64 n = size24(c, c.p(70) ? 300 : c.p(70) ? 2000 : 70000); SV e = c.p(50) ? plain24(CYAML_UINT, 1 + c.below(4)) : str24(CYAML_FLAG_POINTER, 0, 99); bool st = e.type == CYAML_STRING;
	vector<u8> blob; vector<Val> kk; S.blobs.emplace_back(); if (!n) throw Discard{};
	for (u64 i = 0; i < n; i++) { if (st) { const char *q = S.str(sfmt("d%llu", (unsigned long long)i)); size_t at = blob.size(); blob.resize(at + 8); memcpy(&blob[at], &q, 8); kk.push_back(Val::Str(q)); } else { u64 x = i & maskOf(e.data_size); size_t at = blob.size(); blob.resize(at + e.data_size); memcpy(&blob[at], &x, e.data_size); kk.push_back(Val::Num(x)); } }
	S.blobs.back() = blob; bool fixed = c.p(40), ptr = c.p(60); SV q = seq24(S, fixed ? CYAML_SEQUENCE_FIXED : CYAML_SEQUENCE, (ptr ? CYAML_FLAG_POINTER : 0) | CYAML_FLAG_OPTIONAL, e, fixed ? n : 0, fixed ? n : ptr && c.p(50) ? CYAML_UNLIMITED : n + c.below(2));
	q.sequence.missing = S.blobs.back().data(); q.sequence.missing_count = n; u32 w = ptr ? 8 : q.sequence.max * slotWidth(e);
	u8 cs = n < 256 && c.p(50) ? 1 : n < 65536 && c.p(50) ? 2 : 4; bool small = !fixed && n > 255 && c.p(50); if (small) cs = n > 65535 ? 1 + c.below(2) : 1; S.top = map24(S, CYAML_FLAG_POINTER, 8 + w, {field24(S, "q", 8, q, 0, fixed ? 0 : cs), field24(S, "a", 5, plain24(CYAML_UINT, 1))});
	auto &mt = S.meta[&S.fields.back()[0].value]; mt.hasDefault = true; mt.def = seqVal(kk); Node doc; doc.k = Node::MAP; doc.items = {Node::S("a"), Node::S("3")};
	say24(k, "default entries", n, fixed ? "fixed" : sfmt("count of %d bytes", cs));
	if (small && !fixed) { Model m = modelText(S, 0, "a: 3\n"); Rig r(0); r.log.keep = false; checkAgainst(r, S, "a: 3\n", m); k.nontrivial = true; k.label("load:" + errName(m.err)); return; }
	all24(k, S, mapVal({seqVal(kk), Val::Num(3)}), &doc, 0);
}

// ---- very deep: fixed sequences of one entry, each a pointer to the next
static void chain24(Case &k, u64 d) {
	Choices &c = k.c; Schema S; S.values.push_back(plain24(CYAML_SEQUENCE_FIXED, 8, CYAML_FLAG_POINTER_NULL)); SV &e = S.values.back(); e.sequence.entry = &e; e.sequence.min = e.sequence.max = 1; S.top = e;
	string t; t.reserve(2 * d + 8); for (u64 i = 0; i < d; i++) t += "- "; int bad = c.p(20); if (bad) t += "{}";
	say24(k, "chain", d, bad ? "refused at the end" : ""); Rig r(0); r.log.keep = false; LoadRes res = doLoad(r, S, t); k.evals = 1;
	CHECK(res.err == (bad ? CYAML_ERR_INVALID_VALUE : CYAML_OK), "load returned %s", errName(res.err).c_str()); if (bad) return;
	auto walk = [&](void *p) { u64 n = 0; while (p) { CHECK(r.ta.owns(p, 8), "block %llu of the chain is no allocation of 8 bytes", (unsigned long long)n); n++; p = *(void **)p; } return n; };
	CHECK(walk(res.data) == d, "the chain has %llu links, not %llu", (unsigned long long)walk(res.data), (unsigned long long)d);
	SaveRes s = doSave(r, S, res.data, 0); CHECK(!s.err, "save returned %s", errName(s.err).c_str()); { u64 n = 0; for (char x : s.out) n += x == '-' || x == '['; CHECK(n == d, "the saved text has %llu levels, not %llu", (unsigned long long)n, (unsigned long long)d); }
	CopyRes x = doCopy(r, S, res.data, 1); CHECK(!x.err, "copy returned %s", errName(x.err).c_str()); CHECK(walk(x.data) == d, "the copy has %llu links", (unsigned long long)walk(x.data)); CHECK(r.ta.live.size() == 2 * d, "%zu blocks for two chains of %llu", r.ta.live.size(), (unsigned long long)d);
	CHECK(cyaml_free(&r.cfg, &S.top, (cyaml_data_t *)x.data, 1) == CYAML_OK && r.ta.live.size() == d, "freeing the copy"); doFree(r, S, res.data, 0); k.evals = 5;
}
extern bool g_bigStack;
PROP(C24, chain, 40, 600) { chain24(k, 1 + size24(k.c, g_bigStack ? 30000 : 3000)); }
// the same beyond what 16 bits count: nothing here is released by the library,
// whose freeing goes as deep into the C stack as the data is deep
PROP(C24, verydeep, 8, 60) {
	Choices &c = k.c; Schema S; u64 d = c.p(70) ? 65520 + c.below(40) : 65536 + c.below(14000); bool map = c.p(50);
	if (map) { S.fields.emplace_back(); auto &f = S.fields.back(); f.resize(2); S.top = plain24(CYAML_MAPPING, 8, CYAML_FLAG_POINTER); S.top.mapping.fields = f.data(); SV m = S.top; m.flags = (cyaml_flag_e)(CYAML_FLAG_POINTER_NULL); f[0] = field24(S, "n", 0, m); }
	else { S.values.push_back(plain24(CYAML_SEQUENCE_FIXED, 8, CYAML_FLAG_POINTER_NULL)); SV &e = S.values.back(); e.sequence.entry = &e; e.sequence.min = e.sequence.max = 1; S.top = e; }
	Rig r(0); r.log.keep = false; say24(k, "very deep", d, map ? "mappings" : "sequences");
	struct Chain { static void drop(Rig &r, void *p) { while (p) { void *n = *(void **)p; TA::fn(&r.ta, p, 0); p = n; } } };
	auto walk = [&](void *p) { u64 n = 0; while (p) { CHECK(r.ta.owns(p, 8), "block %llu of the chain is no allocation of 8 bytes", (unsigned long long)n); n++; p = *(void **)p; } return n; };
	void *data = nullptr; bool load = !map && c.p(60);
	if (load) { string t; t.reserve(2 * d + 8); if (c.p(40)) { t = "&a\n"; k.desc += "anchored\n"; } for (u64 i = 0; i < d; i++) t += "- "; LoadRes res = doLoad(r, S, t); CHECK(!res.err, "load returned %s", errName(res.err).c_str()); data = res.data; k.evals++; }
	else for (u64 i = 0; i < d; i++) { void *b = r.ta.alloc(8); *(void **)b = data; data = b; }
	CHECK(walk(data) == d, "the chain has %llu links, not %llu", (unsigned long long)walk(data), (unsigned long long)d);
	if (!map) { SaveRes s = doSave(r, S, data, 0); k.evals++; CHECK(!s.err, "save returned %s", errName(s.err).c_str()); u64 n = 0; for (char x : s.out) n += x == '-' || x == '['; CHECK(n == d, "the saved text has %llu levels, not %llu", (unsigned long long)n, (unsigned long long)d); }
	CopyRes x = doCopy(r, S, data, map ? 0 : 1); k.evals++; CHECK(!x.err, "copy returned %s", errName(x.err).c_str()); CHECK(walk(x.data) == d, "the copy has %llu links", (unsigned long long)walk(x.data));
	CHECK(r.ta.live.size() == 2 * d && r.ta.err.empty(), "%zu blocks for two chains of %llu", r.ta.live.size(), (unsigned long long)d);
	Chain::drop(r, x.data); Chain::drop(r, data);
}
// ---- thousands of anchors, with an allocator that is quick at growing blocks
struct Quick24 {
	string err; std::unordered_map<void *, size_t> own; // the room each block has, of which the tail is poisoned
	static void *fn(void *ctx, void *p, size_t n) {
		Paused pz; Quick24 *q = (Quick24 *)ctx; size_t room = 0; if (p) { auto i = q->own.find(p); if (i == q->own.end()) { q->err = "a block that is not allocated"; return nullptr; } room = i->second; ASAN_UNPOISON_MEMORY_REGION(p, room); }
		if (!n) { q->own.erase(p); free(p); return nullptr; }
		if (n > room) { q->own.erase(p); room = n < 64 ? n : 2 * n; p = realloc(p, room); q->own[p] = room; }
		ASAN_POISON_MEMORY_REGION((char *)p + n, room - n); return p;
	}
};
PROP(C24, manyanchors, 28, 260) {
	Choices &c = k.c; Schema S; Quick24 q; Rig r(0); r.cfg.mem_fn = Quick24::fn; r.cfg.mem_ctx = &q; r.log.keep = false; bool nested = c.p(40), deep = nested && c.p(50); // nested: an anchor at every level; deep: one anchor with a long chain below it
	u64 n = deep ? (c.p(30) ? 65520 + c.below(15) : 65536 + c.below(6000)) : nested || c.p(45) ? (c.p(50) ? 4 : 2) * 1024 + c.below(60) - 20 : c.p(60) ? 65525 + c.below(20) : 5000 + c.below(60000); void *d = nullptr; unsigned cnt = 0; string t; say24(k, deep ? "levels below one anchor" : nested ? "nested anchors" : "anchors in a row", n); k.evals = 2;
	if (!nested) {
		S.top = seq24(S, CYAML_SEQUENCE, CYAML_FLAG_POINTER, plain24(CYAML_UINT, 4), 0, CYAML_UNLIMITED); bool longName = c.p(30); vector<u32> want; string pre = longName ? "anchor-with-a-name-" : "a";
		for (u64 i = 0; i < n; i++) { t += "- &" + pre + std::to_string(i) + " " + std::to_string(i * 3) + "\n"; want.push_back(i * 3); if (c.p(1) && c.p(3)) { u64 j = c.below(i + 1); t += "- *" + pre + std::to_string(j) + "\n"; want.push_back(j * 3); } }
		for (int i = 0; i < 20; i++) { u64 j = c.p(30) ? std::min<u64>(n - 1, 4090 + c.below(10)) : c.p(20) ? n - 1 : c.below(n); t += "- *" + pre + std::to_string(j) + "\n"; want.push_back(j * 3); }
		MallocWindow::clear(); cyaml_err_t e; { MallocWindow w; e = cyaml_load_data((const u8 *)t.data(), t.size(), &r.cfg, &S.top, &d, &cnt); } CHECK(!e, "load returned %s", errName(e).c_str()); CHECK(MallocWindow::outstanding() == 0, "load left %zu blocks outside the client's allocator", MallocWindow::outstanding());
		CHECK(cnt == want.size(), "%u entries, not %zu", cnt, want.size()); for (size_t i = 0; i < cnt; i++) CHECK(((u32 *)d)[i] == want[i], "entry %zu is %u, not %u", i, ((u32 *)d)[i], want[i]);
		e = cyaml_free(&r.cfg, &S.top, d, cnt); CHECK(!e, "free returned %s", errName(e).c_str());
	} else {
		S.values.push_back(plain24(CYAML_SEQUENCE_FIXED, 8, CYAML_FLAG_POINTER_NULL)); SV &e = S.values.back(); e.sequence.entry = &e; e.sequence.min = e.sequence.max = 1; e.flags = CYAML_FLAG_POINTER_NULL_STR; SV two = e; two.sequence.min = two.sequence.max = 2; S.top = two; S.top.flags = CYAML_FLAG_POINTER;
		u64 j = deep ? 0 : c.below(n); if (deep) { t = "- &a\n  "; for (u64 i = 0; i < n; i++) t += "- "; t += "null\n- *a\n"; } else { t = "["; for (u64 i = 0; i < n; i++) t += "&a" + std::to_string(i) + " ["; t += "null"; t += string(n, ']'); t += sfmt(", *a%llu ]\n", (unsigned long long)j); }
		MallocWindow::clear(); cyaml_err_t er; { MallocWindow w; er = cyaml_load_data((const u8 *)t.data(), t.size(), &r.cfg, &S.top, &d, nullptr); } CHECK(!er, "load returned %s", errName(er).c_str()); CHECK(MallocWindow::outstanding() == 0, "load left %zu blocks outside the client's allocator", MallocWindow::outstanding());
		void **top = (void **)d; for (int side = 0; side < 2; side++) { u64 m = 0; void *p = top[side]; while (p) { m++; void *x = *(void **)p; Quick24::fn(&q, p, 0); p = x; } CHECK(m == (side ? n - j : n), "entry %d is nested %llu deep", side, (unsigned long long)m); } Quick24::fn(&q, d, 0);
	}
	CHECK(q.err.empty() && q.own.empty(), "%zu blocks are left; %s", q.own.size(), q.err.c_str());
}
// ---- more than 4 GiB of entries
static u8 *g24base; static size_t g24cap; static void *g24top; 
static void *mem24(void *ctx, void *p, size_t n) { // the one huge block grows in place; the rest is ordinary
	TA *t = (TA *)ctx; if (n > (64u << 20) || p == g24base) {
		if (n == 0) { g24top = nullptr; return nullptr; } if (p && p != g24base) { if (n > g24cap) return nullptr; memcpy(g24base, p, 64u << 20); TA::fn(t, p, 0); g24top = g24base; return g24base; }
		if (n > g24cap) return nullptr; g24top = g24base; return g24base; }
	return TA::fn(t, p, n);
}
static u64 freeMem24() { FILE *f = fopen("/proc/meminfo", "r"); if (!f) return 0; char l[200]; u64 kb = 0; while (fgets(l, sizeof l, f)) if (sscanf(l, "MemAvailable: %llu", (unsigned long long *)&kb) == 1) break; fclose(f); return kb >> 10; }
PROP(C24, huge, 1, 4) {
	Choices &c = k.c; Schema S; if (freeMem24() < 14000) throw Discard{}; u32 each = (64u << 20) + 8 * (1 + c.below(1000)); u64 n = 66; g24cap = (size_t)each * n + 4096;
	g24base = (u8 *)mmap(nullptr, g24cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (g24base == MAP_FAILED) throw Discard{}; madvise(g24base, g24cap, MADV_HUGEPAGE);
	struct Un { ~Un() { munmap(g24base, g24cap); } } un; say24(k, "entries of 64 MiB", n); u32 at = each - 16;
	SV e = map24(S, 0, each, {field24(S, "a", at, plain24(CYAML_UINT, 4)), field24(S, "s", at + 8, str24(CYAML_FLAG_POINTER, 0, 99))}); S.top = seq24(S, CYAML_SEQUENCE, CYAML_FLAG_POINTER, e, 0, CYAML_UNLIMITED); S.top.data_size = each;
	string t; for (u64 i = 0; i < n; i++) t += sfmt("- {a: %llu, s: t%llu}\n", (unsigned long long)i * 3, (unsigned long long)i); Rig r(0); r.cfg.mem_fn = mem24; void *d = nullptr; unsigned cnt = 0;
	cyaml_err_t er = cyaml_load_data((const u8 *)t.data(), t.size(), &r.cfg, &S.top, (cyaml_data_t **)&d, &cnt); CHECK(!er && cnt == n, "load of %llu entries of %u bytes returned %s with %u entries", (unsigned long long)n, each, errName(er).c_str(), cnt);
	for (u64 i = 0; i < n; i++) { u8 *q = (u8 *)d + (size_t)each * i + at; CHECK(*(u32 *)q == i * 3, "entry %llu holds %u", (unsigned long long)i, *(u32 *)q); char *s = *(char **)(q + 8); CHECK(s && r.ta.owns(s, 1) && sfmt("t%llu", (unsigned long long)i) == s, "entry %llu has the wrong string", (unsigned long long)i); }
	SaveRes sv; char *o = nullptr; size_t ol = 0; er = cyaml_save_data(&o, &ol, &r.cfg, &S.top, (cyaml_data_t *)d, cnt); CHECK(!er, "save returned %s", errName(er).c_str());
	string w; for (u64 i = 0; i < n; i++) w += sfmt("- a: %llu\n  s: t%llu\n", (unsigned long long)i * 3, (unsigned long long)i); string got(o, ol); size_t b = got.rfind("---\n", 0) == 0 ? 4 : 0; if (got.size() >= 4 && got.compare(got.size() - 4, 4, "...\n") == 0) got.resize(got.size() - 4); CHECK(got.substr(b) == w, "saved text is wrong: %s", quoted(got, 300).c_str()); mem24(&r.ta, o, 0);
	er = cyaml_free(&r.cfg, &S.top, (cyaml_data_t *)d, cnt); CHECK(!er && r.ta.err.empty(), "free returned %s, %s", errName(er).c_str(), r.ta.err.c_str()); CHECK(r.ta.live.empty() && !g24top, "free left %zu blocks", r.ta.live.size()); k.evals = 3;
}
// the same sizes where only a few pages are ever touched: saving and freeing
PROP(C24, sparse, 60, 2000) {
	Choices &c = k.c; Schema S; u32 each = (1u << 20 << c.below(11)) + 8 * c.below(3); u64 n = 2 + c.below(12); bool fixed = c.p(50); u64 inner = fixed ? 1 + c.below(4) : 1; u64 total = (u64)each * inner * n; if (total > (64ull << 30)) throw Discard{};
	u8 *base = (u8 *)mmap(nullptr, total + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == MAP_FAILED) throw Discard{}; struct Un { u8 *b; u64 n; ~Un() { munmap(b, n); } } un{base, total + 4096};
	u32 at = each - 16; SV m = map24(S, 0, each, {field24(S, "a", at, plain24(CYAML_UINT, 4)), field24(S, "s", at + 8, str24(CYAML_FLAG_POINTER, 0, 99))}); SV e = m;
	if (fixed) { e = seq24(S, CYAML_SEQUENCE_FIXED, 0, m, inner, inner); e.data_size = each; }
	S.top = seq24(S, CYAML_SEQUENCE, CYAML_FLAG_POINTER, e, 0, CYAML_UNLIMITED); S.top.data_size = each; say24(k, "sparse MiB", total >> 20, sfmt("%llu entries of %llu times %u bytes", (unsigned long long)n, (unsigned long long)inner, each));
	Rig r(0); string w; int inl = 0; for (u64 i = 0; i < n * inner; i++) { u8 *q = base + (size_t)each * i + at; *(u32 *)q = i * 5; string s = sfmt("s%llu", (unsigned long long)i); char *z = (char *)r.ta.alloc(s.size() + 1); memcpy(z, s.c_str(), s.size() + 1); *(char **)(q + 8) = z; }
	(void)inl; void *d = base; char *o = nullptr; size_t ol = 0; cyaml_err_t er = cyaml_save_data(&o, &ol, &r.cfg, &S.top, (cyaml_data_t *)d, n); CHECK(!er, "save returned %s", errName(er).c_str()); string got(o, ol); TA::fn(&r.ta, o, 0);
	size_t pos = 0; for (u64 i = 0; i < n * inner; i++) { string x = sfmt("s: s%llu\n", (unsigned long long)i), y = sfmt("a: %llu\n", (unsigned long long)i * 5); size_t p1 = got.find(y, pos); CHECK(p1 != string::npos, "entry %llu is not saved rightly: %s", (unsigned long long)i, quoted(got, 400).c_str()); size_t p2 = got.find(x, p1); CHECK(p2 != string::npos, "the string of entry %llu is not saved rightly", (unsigned long long)i); pos = p2; }
	size_t had = r.ta.live.size(); struct Ctx { TA *t; u8 *base; bool freed; } cx{&r.ta, base, false};
	r.cfg.mem_fn = [](void *ctx, void *p, size_t z) -> void * { Ctx *x = (Ctx *)ctx; if (p == x->base && !z) { x->freed = true; return nullptr; } return TA::fn(x->t, p, z); }; r.cfg.mem_ctx = &cx;
	er = cyaml_free(&r.cfg, &S.top, (cyaml_data_t *)d, n); CHECK(!er && r.ta.err.empty(), "free returned %s: %s", errName(er).c_str(), r.ta.err.c_str()); CHECK(r.ta.live.empty() && cx.freed, "free left %zu of %zu blocks", r.ta.live.size(), had); k.evals = 2;
}
