#include "api.h"
#include <sanitizer/asan_interface.h>
#include <cmath>

void LogSink::fn(cyaml_log_t level, void *ctx, const char *fmt, va_list args) {
	Paused pz;
	LogSink *l = (LogSink *)ctx;
	if (!l) { fprintf(stderr, "log function called with NULL context\n"); abort(); }
	char *p = nullptr; int n = vasprintf(&p, fmt, args);
	string s(p ? p : "", n < 0 ? 0 : n); free(p);
	l->count++;
	if ((int)level < l->minLevel && l->err.empty()) l->err = sfmt("log message below the chosen level: %d < %d: %s", (int)level, l->minLevel, s.c_str());
	if (((int)level < CYAML_LOG_DEBUG || level > CYAML_LOG_ERROR) && l->err.empty()) l->err = sfmt("log message of unknown level %d", (int)level);
	if (level == CYAML_LOG_ERROR) l->errors++;
	if (l->keep && (l->msgs.size() < 100000 || (level == CYAML_LOG_ERROR && l->msgs.size() < 200000))) l->msgs.push_back({(int)level, s});
	clobberErrno(l->count);
}
string LogSink::errorText() const { string o; for (auto &m : msgs) if (m.level == CYAML_LOG_ERROR) o += m.text; return o; }

Rig::Rig(u32 flags, int level) {
	memset(&cfg, 0, sizeof cfg);
	cfg.log_fn = LogSink::fn; cfg.log_ctx = &log; cfg.mem_fn = TA::fn; cfg.mem_ctx = &ta;
	cfg.validation_ctx = &cb; cfg.log_level = (cyaml_log_t)level; cfg.flags = (cyaml_cfg_flags_t)flags;
	log.minLevel = level; cb.ctxExpect = &cb;
}
string cfgText(u32 f) {
	static const char *n[] = {"ignore-unknown", "style-block", "style-flow", "doc-delim", "case-insensitive", "no-alias", "ignored-warning"};
	string o; for (int i = 0; i < 7; i++) if (f >> i & 1) o += string(o.empty() ? "" : "|") + n[i];
	return o.empty() ? "default" : o;
}
string caseText(const Schema &S, u32 cfg, const string &doc) {
	return "schema: " + showSchema(S, S.top) + "\nconfig: " + cfgText(cfg) + "\ndocument: " + quoted(doc) + "\n";
}
u32 genCfg(Choices &c, int pct) {
	u32 f = 0;
	if (c.p(pct)) f |= CYAML_CFG_CASE_INSENSITIVE;
	if (c.p(pct)) f |= CYAML_CFG_IGNORE_UNKNOWN_KEYS;
	if (c.p(pct / 3)) f |= CYAML_CFG_IGNORED_KEY_WARNING;
	if (c.p(pct / 2)) f |= CYAML_CFG_STYLE_BLOCK;
	if (c.p(pct / 2)) f |= CYAML_CFG_STYLE_FLOW;
	if (c.p(pct / 2)) f |= CYAML_CFG_DOCUMENT_DELIM;
	return f;
}
static void common(Rig &r, const char *op) {
	CHECK(r.ta.err.empty(), "%s: allocator misuse: %s", op, r.ta.err.c_str());
	CHECK(r.log.err.empty(), "%s: %s", op, r.log.err.c_str());
	CHECK(r.cb.err.empty(), "%s: %s", op, r.cb.err.c_str());
	size_t o = MallocWindow::outstanding();
	MallocWindow::clear();
	CHECK(o == 0, "%s: %zu blocks allocated outside the client's allocator are still allocated (leak)", op, o);
}
LoadRes doLoad(Rig &r, const Schema &S, const string &text, const vector<CbCall> *expect) {
	LoadRes res;
	bool own = !r.input || r.input->size() < text.size() + 8;
	u8 *in = own ? (u8 *)malloc(text.size() ? text.size() : 1) : r.input->data(); // exact size: over-reads are caught
	memcpy(in, text.data(), text.size());
	if (!own) ASAN_POISON_MEMORY_REGION(in + text.size(), r.input->size() - text.size());
	void *sent = (void *)0x5e5e5e5e5e50, *data = sent; unsigned cnt = 0xdeadbeef;
	std::set<void *> before; for (auto &e : r.ta.live) before.insert(e.first);
	r.cb.calls.clear(); r.cb.S = &S; r.cb.expect = expect; r.cb.err.clear(); g_cb = &r.cb;
	MallocWindow::clear();
	{ MallocWindow w; clobberErrno(1); res.err = cyaml_load_data(in, text.size(), &r.cfg, &S.top, (cyaml_data_t **)&data, S.top.type == CYAML_SEQUENCE ? &cnt : nullptr); }
	g_cb = nullptr; r.cb.expect = nullptr;
	bool same = memcmp(in, text.data(), text.size()) == 0; if (own) free(in); else ASAN_UNPOISON_MEMORY_REGION(in, r.input->size());
	common(r, "load");
	CHECK(same, "load changed its input buffer");
	if (res.err != CYAML_OK) {
		CHECK(data == sent, "load failed (%s) but changed the output pointer", errName(res.err).c_str());
		CHECK(cnt == 0xdeadbeef, "load failed (%s) but changed the output count", errName(res.err).c_str());
		CHECK(r.ta.live.size() == before.size(), "load failed (%s) and left %zu allocations behind", errName(res.err).c_str(), r.ta.live.size() - before.size());
	} else {
		CHECK(data != sent, "load succeeded but did not set the output pointer");
		if (S.top.type == CYAML_SEQUENCE) { CHECK(cnt != 0xdeadbeef, "load succeeded but did not set the output count"); res.count = cnt; }
		res.data = data;
	}
	for (auto p : before) CHECK(r.ta.live.count(p), "load freed an allocation that was not its own");
	return res;
}
SaveRes doSave(Rig &r, const Schema &S, const void *data, unsigned count) {
	SaveRes res; char *out = (char *)0x5e5e5e5e5e50; size_t len = 0x1234567;
	size_t before = r.ta.live.size();
	MallocWindow::clear();
	{ MallocWindow w; clobberErrno(1); res.err = cyaml_save_data(&out, &len, &r.cfg, &S.top, (const cyaml_data_t *)data, count); }
	common(r, "save");
	if (res.err != CYAML_OK) {
		CHECK(out == (char *)0x5e5e5e5e5e50 && len == 0x1234567, "save failed (%s) but handed out output", errName(res.err).c_str());
		CHECK(r.ta.live.size() == before, "save failed (%s) and left %zu allocations behind", errName(res.err).c_str(), r.ta.live.size() - before);
	} else {
		CHECK(r.ta.owns(out, len), "save output is not a live allocation of at least %zu bytes from the client's allocator", len);
		res.out.assign(out, len);
		TA::fn(&r.ta, out, 0);
		CHECK(r.ta.live.size() == before, "save left %zu allocations behind besides its output", r.ta.live.size() - before);
	}
	return res;
}
CopyRes doCopy(Rig &r, const Schema &S, const void *data, unsigned count) {
	CopyRes res; void *out = nullptr;
	std::set<void *> before; for (auto &e : r.ta.live) before.insert(e.first);
	MallocWindow::clear();
	{ MallocWindow w; clobberErrno(1); res.err = cyaml_copy(&r.cfg, &S.top, (const cyaml_data_t *)data, count, (cyaml_data_t **)&out); }
	common(r, "copy");
	for (auto p : before) CHECK(r.ta.live.count(p), "copy freed an allocation that was not its own");
	if (res.err != CYAML_OK) {
		CHECK(out == nullptr, "copy failed (%s) but changed the output pointer", errName(res.err).c_str());
		CHECK(r.ta.live.size() == before.size(), "copy failed (%s) and left %zu allocations behind", errName(res.err).c_str(), r.ta.live.size() - before.size());
	}
	res.data = out;
	return res;
}
void doFree(Rig &r, const Schema &S, void *data, unsigned count) {
	cyaml_err_t e;
	MallocWindow::clear();
	{ MallocWindow w; clobberErrno(1); e = cyaml_free(&r.cfg, &S.top, (cyaml_data_t *)data, count); }
	common(r, "free");
	CHECK(e == CYAML_OK, "free returned %s", errName(e).c_str());
	CHECK(r.ta.live.empty(), "free left %zu allocations behind", r.ta.live.size());
}
string showCalls(const vector<CbCall> &c) {
	static const char *n[] = {"int", "uint", "float", "string", "mapping", "sequence"};
	string o; for (auto &x : c) { o += sfmt(" %s(%p", n[x.kind], (const void *)x.schema); if (x.kind == 3) o += "," + quoted(x.str, 40); else if (x.kind != 4) o += sfmt(",0x%llx", (unsigned long long)x.num); o += x.accepted ? ")" : ")=refused"; if (o.size() > 2000) { o += "..."; break; } }
	return o;
}
void checkCalls(const Rig &r, const Model &m) {
	auto &a = r.cb.calls; auto &b = m.cbs;
	for (size_t i = 0; i < a.size() && i < b.size(); i++) {
		CHECK(a[i].schema == b[i].schema && a[i].kind == b[i].kind, "validation callback %zu is for another value than expected; calls:%s; expected:%s", i + 1, showCalls(a).c_str(), showCalls(b).c_str());
		if (a[i].kind <= 2 || a[i].kind == 5) CHECK(a[i].num == b[i].num, "validation callback %zu got value 0x%llx, expected 0x%llx", i + 1, (unsigned long long)a[i].num, (unsigned long long)b[i].num);
		if (a[i].kind == 3) CHECK(!a[i].nullData && a[i].str == b[i].str, "validation callback %zu got string %s, expected %s", i + 1, quoted(a[i].str, 200).c_str(), quoted(b[i].str, 200).c_str());
		if (a[i].kind == 4) CHECK(!a[i].nullData, "mapping validation callback %zu got NULL data", i + 1);
	}
	CHECK(a.size() == b.size(), "%zu validation callbacks, expected %zu; calls:%s; expected:%s", a.size(), b.size(), showCalls(a).c_str(), showCalls(b).c_str());
}
void checkAgainst(Rig &r, const Schema &S, const string &text, const Model &m, LoadRes *out, bool freeIt) {
	LoadRes res = doLoad(r, S, text, m.ambiguous ? nullptr : &m.cbs);
	if (!m.ambiguous) {
		CHECK(res.err == m.err, "load returned %s, expected %s (%s)", errName(res.err).c_str(), errName(m.err).c_str(), m.why.c_str());
		checkCalls(r, m);
		if (res.err == CYAML_OK) {
			if (S.top.type == CYAML_SEQUENCE) CHECK(res.count == m.count, "sequence count is %u, expected %llu", res.count, (unsigned long long)m.count);
			MatchCtx mc; mc.ta = &r.ta;
			CHECK(matchTop(S.top, res.data, m.val, mc, true), "loaded data is wrong: %s", mc.err.c_str());
		}
	}
	if (res.err == CYAML_OK && freeIt) doFree(r, S, res.data, res.count);
	if (out) *out = res;
}
bool modelTooBig(const Model &m) { return m.tooBig; }

// ------------------------------------------------------------ saving
Val norm(const cyaml_schema_value_t &s, const Val &v) {
	if (v.k != Val::NUL || isPtr(s)) return v;
	Val o;
	switch (s.type) {
	case CYAML_STRING: return Val::Str("");
	case CYAML_MAPPING: o.k = Val::MAP; for (auto f = s.mapping.fields; f->key; f++) o.kids.push_back(norm(f->value, Val())); return o;
	case CYAML_SEQUENCE: o.k = Val::SEQ; return o;
	case CYAML_SEQUENCE_FIXED: o.k = Val::SEQ; for (u32 i = 0; i < s.sequence.max; i++) o.kids.push_back(norm(*s.sequence.entry, Val())); return o;
	case CYAML_IGNORE: return v;
	default: return Val::Num(0);
	}
}
bool sameVal(const cyaml_schema_value_t &s, const Val &a0, const Val &b0) {
	Val a = norm(s, a0), b = norm(s, b0);
	if (isPtr(s) && isSeq(s)) { if (a.k == Val::NUL) a.k = Val::SEQ; if (b.k == Val::NUL) b.k = Val::SEQ; }
	if (a.k != b.k) return false;
	if (a.k == Val::MAP) { size_t i = 0; for (auto f = s.mapping.fields; f->key; f++, i++) if (f->value.type != CYAML_IGNORE && !sameVal(f->value, a.kids[i], b.kids[i])) return false; return true; }
	if (a.k == Val::SEQ) { if (a.kids.size() != b.kids.size()) return false; for (size_t i = 0; i < a.kids.size(); i++) if (!sameVal(*s.sequence.entry, a.kids[i], b.kids[i])) return false; return true; }
	return a == b;
}
// Would the saved text of the value load as that value again?  (What is left out
// of the text loads as the default, and inline members left zero are written.)
bool roundTrips(const Schema &S, const cyaml_schema_value_t &s, const Val &v0) {
	Val v = norm(s, v0);
	if (v.k == Val::NUL) return nullable(s) || (isSeq(s) && s.sequence.min == 0);
	switch (v.k) {
	case Val::STR: return v.str.size() >= s.string.min && v.str.size() <= s.string.max && (isPtr(s) || v.str.size() < s.data_size) && expressible(S, s, v);
	case Val::MAP: { size_t i = 0;
		for (auto f = s.mapping.fields; f->key; f++, i++) {
			if (f->value.type == CYAML_IGNORE) continue;
			const Val &k = v.kids[i];
			if (isPtr(f->value) && (f->value.flags & CYAML_FLAG_OPTIONAL) && (k.k == Val::NUL || (k.k == Val::SEQ && k.kids.empty()))) {
				Val d = defaultVal(S, f->value);
				if (!(d.k == Val::NUL || (d.k == Val::SEQ && d.kids.empty()))) return false;
			} else if (!roundTrips(S, f->value, k)) return false;
		}
		return true; }
	case Val::SEQ: if (v.kids.size() < s.sequence.min || v.kids.size() > s.sequence.max) return false;
		if (v.kids.empty() && nullable(s)) return true;
		for (auto &k : v.kids) if (!roundTrips(S, *s.sequence.entry, k)) return false;
		return true;
	default: return expressible(S, s, v);
	}
}
bool okToSave(const Schema &S, const Val &v) { // what cyaml_save_data's parameter checks allow
	if (v.k == Val::NUL) return false;
	if (v.k == Val::SEQ && v.kids.empty()) return false;
	return true;
}
struct SP {
	const Schema &S; u32 cfg; SavePred r;
	struct E { cyaml_err_t e; string w; };
	void die(cyaml_err_t e, const string &w) { throw E{e, w}; }
	void text(const string &t) { if (!utf8Valid(t)) die(CYAML_ERR_LIBYAML_EVENT_INIT, "bad encoding"); }
	void size8(u32 n) { if (n == 0 || n > 8) die(CYAML_ERR_INVALID_DATA_SIZE, "data size"); }
	void value(const cyaml_schema_value_t &s, const Val &v0, u64 count) {
		Val v = norm(s, v0);
		if (isPtr(s) && v.k == Val::NUL || (v.k == Val::SEQ && v.kids.empty() && isPtr(s))) {
			bool emptySeq = isSeq(s) && count == 0 && !nullable(s);
			if (!emptySeq) { if (nullable(s)) return; die(CYAML_ERR_INVALID_VALUE, "NULL"); }
		}
		switch (s.type) {
		case CYAML_INT: case CYAML_UINT: case CYAML_BOOL: size8(s.data_size); break;
		case CYAML_ENUM: { size8(s.data_size); i64 n = sext(v.num, s.data_size);
			for (u32 i = 0; i < s.enumeration.count; i++) if (s.enumeration.strings[i].val == n) { text(s.enumeration.strings[i].str); return; }
			if (s.flags & CYAML_FLAG_STRICT) die(CYAML_ERR_INVALID_VALUE, "strict enum without a name");
			break; }
		case CYAML_FLAGS: { size8(s.data_size); u64 rem = v.num;
			for (u32 i = 0; i < s.enumeration.count; i++) { u64 f = (u64)s.enumeration.strings[i].val; if ((v.num & f) == f && (rem & f)) { text(s.enumeration.strings[i].str); rem &= ~f; } }
			if (rem && (s.flags & CYAML_FLAG_STRICT)) die(CYAML_ERR_INVALID_VALUE, "strict flags left over");
			break; }
		case CYAML_BITFIELD: size8(s.data_size);
			for (u32 i = 0; i < s.bitfield.count; i++) { auto &b = s.bitfield.bitdefs[i];
				if (b.bits == 0 || (u64)b.bits + b.offset > (u64)s.data_size * 8) die(CYAML_ERR_BAD_BITVAL_IN_SCHEMA, "bitdef");
				if ((v.num >> b.offset) & (~0ull >> (64 - b.bits))) text(b.name); }
			break;
		case CYAML_FLOAT: if (s.data_size != 4 && s.data_size != 8) die(CYAML_ERR_INVALID_DATA_SIZE, "float size"); break;
		case CYAML_STRING: text(v.str); break;
		case CYAML_MAPPING: {
			r.path.emplace_back(); size_t pi = r.path.size() - 1; size_t i = 0;
			for (auto f = s.mapping.fields; f->key; f++, i++) {
				if (f->value.type == CYAML_IGNORE) continue;
				const Val &k = v.kids[i];
				bool nul = isPtr(f->value) && (k.k == Val::NUL || (k.k == Val::SEQ && k.kids.empty()));
				if ((f->value.flags & CYAML_FLAG_OPTIONAL) && nul) continue;
				r.path[pi].name = f->key; r.path[pi].inValue = false;
				text(f->key);
				r.path[pi].inValue = true;
				u64 n = f->value.type == CYAML_SEQUENCE ? k.kids.size() : f->value.type == CYAML_SEQUENCE_FIXED ? f->value.sequence.min : 0;
				if (f->value.type == CYAML_SEQUENCE) size8(f->count_size);
				value(f->value, k, n);
			}
			r.path.pop_back(); break; }
		case CYAML_SEQUENCE_FIXED: if (s.sequence.min != s.sequence.max) die(CYAML_ERR_SEQUENCE_FIXED_COUNT, "fixed limits differ"); // fall through
		case CYAML_SEQUENCE: {
			r.path.emplace_back(); size_t pi = r.path.size() - 1; r.path[pi].seq = true;
			auto &e = *s.sequence.entry;
			for (size_t i = 0; i < v.kids.size(); i++) {
				if (e.type == CYAML_SEQUENCE) die(CYAML_ERR_SEQUENCE_IN_SEQUENCE, "sequence in sequence");
				r.path[pi].idx = i + 1; r.path[pi].inValue = true;
				value(e, v.kids[i], e.type == CYAML_SEQUENCE_FIXED ? e.sequence.max : 0);
			}
			r.path.pop_back(); break; }
		default: die(CYAML_ERR_BAD_TYPE_IN_SCHEMA, "type");
		}
	}
};
SavePred predictSave(const Schema &S, u32 cfg, const Val &v, unsigned count) {
	SP p{S, cfg, {}};
	try {
		if ((S.top.type == CYAML_SEQUENCE) != (count != 0)) p.die(CYAML_ERR_BAD_PARAM_SEQ_COUNT, "count");
		if (!isPtr(S.top)) p.die(CYAML_ERR_TOP_LEVEL_NON_PTR, "not a pointer");
		if (v.k == Val::NUL || (v.k == Val::SEQ && v.kids.empty())) p.die(CYAML_ERR_BAD_PARAM_NULL_DATA, "NULL data");
		p.value(S.top, v, count);
	} catch (SP::E &e) { p.r.err = e.e; p.r.why = e.w; }
	return p.r;
}
static double fl(const cyaml_schema_value_t &s, u64 raw) { if (s.data_size == 4) { float f; u32 r = raw; memcpy(&f, &r, 4); return f; } double d; memcpy(&d, &raw, 8); return d; }
static bool numText(const string &t, unsigned __int128 &mag, bool &neg) { return parseIntText(t, neg, mag, nullptr); }
string matchSaved(const Schema &S, u32 cfg, const cyaml_schema_value_t &s, const Val &v0, const Node &n, const string &path) {
	auto bad = [&](const string &w) { return "at " + (path.empty() ? string("<top>") : path) + ": " + w + "; written " + showNode(n).substr(0, 400) + " for " + showVal(s, v0).substr(0, 400); };
	Val v = norm(s, v0);
	if (isPtr(s) && (v.k == Val::NUL || (v.k == Val::SEQ && v.kids.empty())) && !(isSeq(s) && !nullable(s))) {
		if (n.k != Node::SCALAR) return bad("NULL is not a scalar");
		if (nullableStr(s)) { if (n.text != "null") return bad("NULL is not written as null"); }
		else if (!n.text.empty()) return bad("NULL is not written as an empty value");
		return "";
	}
	if (v.k == Val::NUL) v.k = Val::SEQ; // empty sequence behind a NULL pointer
	unsigned __int128 mag; bool neg;
	switch (s.type) {
	case CYAML_INT: case CYAML_UINT: case CYAML_ENUM: {
		if (n.k != Node::SCALAR) return bad("not a scalar");
		i64 x = sext(v.num, s.data_size); u64 u = v.num & maskOf(s.data_size);
		if (s.type == CYAML_ENUM) {
			bool any = false; for (u32 i = 0; i < s.enumeration.count; i++) if (s.enumeration.strings[i].val == x) { any = true; if (n.text == s.enumeration.strings[i].str) return ""; }
			if (any) return bad("enum value is not written by its name");
		}
		if (!numText(n.text, mag, neg)) return bad("not a number");
		bool sg = s.type != CYAML_UINT; unsigned __int128 want = sg && x < 0 ? (unsigned __int128)(0 - (u64)x) : (sg ? (u64)x : u);
		if (mag != want || (neg && !(sg && x < 0) && want) || (!neg && sg && x < 0)) return bad("wrong number");
		return ""; }
	case CYAML_BOOL: {
		if (n.k != Node::SCALAR) return bad("not a scalar");
		string f = foldCase(n.text);
		if (!(v.num ? f == "true" || f == "yes" || f == "on" || f == "enable" || f == "1" : f == "false" || f == "no" || f == "off" || f == "disable" || f == "0")) return bad("wrong boolean");
		return ""; }
	case CYAML_FLOAT: {
		if (n.k != Node::SCALAR) return bad("not a scalar");
		char *e; double d = strtod(n.text.c_str(), &e), w = fl(s, v.num); if (e == n.text.c_str() || *e) return bad("not a number");
		if (std::isnan(w)) return std::isnan(d) ? "" : bad("wrong float");
		if (s.data_size == 4) { float a = (float)d, b = (float)w; if (memcmp(&a, &b, 4)) return bad("wrong float"); }
		else if (memcmp(&d, &w, 8)) return bad("wrong float");
		return ""; }
	case CYAML_STRING: if (n.k != Node::SCALAR || n.text != v.str) return bad("wrong string"); return "";
	case CYAML_FLAGS: {
		if (n.k != Node::SEQ) return bad("not a sequence");
		u64 val = v.num & maskOf(s.data_size), named = 0, number = 0; int numbers = 0; std::set<string> seen;
		for (auto &e : n.items) {
			if (e.k != Node::SCALAR) return bad("flag is not a scalar");
			bool hit = false;
			for (u32 i = 0; i < s.enumeration.count; i++) if (e.text == s.enumeration.strings[i].str) {
				u64 f = (u64)s.enumeration.strings[i].val; hit = true;
				if ((val & f) != f) return bad("name listed although not all its bits are set: " + e.text);
				if (!seen.insert(e.text).second) return bad("name listed twice");
				named |= f; break;
			}
			if (hit) continue;
			if (!numText(e.text, mag, neg) || neg || mag >> 64) return bad("not a flag name nor a number: " + e.text);
			number |= (u64)mag; numbers++;
		}
		u64 nameable = 0; for (u32 i = 0; i < s.enumeration.count; i++) { u64 f = (u64)s.enumeration.strings[i].val; if ((val & f) == f) nameable |= f; }
		if (numbers > 1) return bad("more than one number");
		if (numbers && (s.flags & CYAML_FLAG_STRICT)) return bad("number in strict flags");
		if ((named | number) != val) return bad(sfmt("bits 0x%llx written, 0x%llx expected", (unsigned long long)(named | number), (unsigned long long)val));
		if (number & nameable) return bad("number covers bits that a name covers");
		if (numbers && !number) return bad("superfluous number");
		return ""; }
	case CYAML_BITFIELD: {
		if (n.k != Node::MAP) return bad("not a mapping");
		u64 val = v.num & maskOf(s.data_size); size_t at = 0;
		for (u32 i = 0; i < s.bitfield.count; i++) {
			auto &b = s.bitfield.bitdefs[i]; u64 x = (val >> b.offset) & (~0ull >> (64 - b.bits));
			if (!x) continue;
			if (at + 1 >= n.items.size()) return bad(string("bits not written: ") + b.name);
			if (n.items[at].text != b.name) return bad(string("expected bits ") + b.name);
			if (n.items[at + 1].k != Node::SCALAR || !numText(n.items[at + 1].text, mag, neg) || neg || mag != x) return bad(string("wrong bits value for ") + b.name);
			at += 2;
		}
		if (at != n.items.size()) return bad("superfluous bits");
		return ""; }
	case CYAML_MAPPING: {
		if (n.k != Node::MAP) return bad("not a mapping");
		size_t at = 0, i = 0;
		for (auto f = s.mapping.fields; f->key; f++, i++) {
			if (f->value.type == CYAML_IGNORE) continue;
			const Val &k = v.kids[i];
			bool nul = isPtr(f->value) && (k.k == Val::NUL || (k.k == Val::SEQ && k.kids.empty()));
			if ((f->value.flags & CYAML_FLAG_OPTIONAL) && nul) continue;
			if (at + 1 >= n.items.size()) return bad(string("member not written: ") + f->key);
			if (n.items[at].k != Node::SCALAR || n.items[at].text != f->key) return bad(string("expected member ") + f->key);
			string e = matchSaved(S, cfg, f->value, k, n.items[at + 1], path + "." + f->key); if (!e.empty()) return e;
			at += 2;
		}
		if (at != n.items.size()) return bad("superfluous members");
		return ""; }
	case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED:
		if (n.k != Node::SEQ) return bad("not a sequence");
		if (n.items.size() != v.kids.size()) return bad(sfmt("%zu entries written, %zu expected", n.items.size(), v.kids.size()));
		for (size_t i = 0; i < v.kids.size(); i++) { string e = matchSaved(S, cfg, *s.sequence.entry, v.kids[i], n.items[i], path + sfmt("[%zu]", i)); if (!e.empty()) return e; }
		return "";
	default: return bad("value of a type that cannot be written");
	}
}
static int scStyle(const cyaml_schema_value_t &s) {
	u32 f = s.flags;
	return f & CYAML_FLAG_SCALAR_QUOTE_DOUBLE ? YAML_DOUBLE_QUOTED_SCALAR_STYLE : f & CYAML_FLAG_SCALAR_QUOTE_SINGLE ? YAML_SINGLE_QUOTED_SCALAR_STYLE :
		f & CYAML_FLAG_SCALAR_LITERAL ? YAML_LITERAL_SCALAR_STYLE : f & CYAML_FLAG_SCALAR_FOLDED ? YAML_FOLDED_SCALAR_STYLE : f & CYAML_FLAG_SCALAR_PLAIN ? YAML_PLAIN_SCALAR_STYLE : YAML_ANY_SCALAR_STYLE;
}
static int coStyle(const cyaml_schema_value_t &s, u32 cfg) { // 0 any 1 block 2 flow
	if (s.flags & CYAML_FLAG_BLOCK) return 1;
	if (s.flags & CYAML_FLAG_FLOW) return 2;
	if (cfg & CYAML_CFG_STYLE_BLOCK) return 1;
	return cfg & CYAML_CFG_STYLE_FLOW ? 2 : 0;
}
Node saveNode(const Schema &S, u32 cfg, const cyaml_schema_value_t &s, const Val &v0) {
	Val v = norm(s, v0); Node n;
	auto sc = [&](const string &t) { Node x = Node::S(t); x.style = scStyle(s); return x; };
	if (isPtr(s) && (v.k == Val::NUL || (v.k == Val::SEQ && v.kids.empty())) && !(isSeq(s) && !nullable(s))) return sc(nullableStr(s) ? "null" : "");
	switch (s.type) {
	case CYAML_INT: return sc(sfmt("%lld", (long long)sext(v.num, s.data_size)));
	case CYAML_UINT: return sc(sfmt("%llu", (unsigned long long)v.num));
	case CYAML_BOOL: return sc(v.num ? "true" : "false");
	case CYAML_ENUM: { i64 x = sext(v.num, s.data_size); for (u32 i = 0; i < s.enumeration.count; i++) if (s.enumeration.strings[i].val == x) return sc(s.enumeration.strings[i].str); return sc(sfmt("%lld", (long long)x)); }
	case CYAML_FLOAT: return sc(s.data_size == 4 ? sfmt("%.9g", fl(s, v.num)) : sfmt("%.16e", fl(s, v.num)));
	case CYAML_STRING: return sc(v.str);
	case CYAML_FLAGS: { n.k = Node::SEQ; n.style = -1; u64 rem = v.num;
		for (u32 i = 0; i < s.enumeration.count; i++) { u64 f = (u64)s.enumeration.strings[i].val; if ((v.num & f) == f && (rem & f)) { n.items.push_back(sc(s.enumeration.strings[i].str)); rem &= ~f; } }
		if (rem) n.items.push_back(sc(sfmt("%llu", (unsigned long long)rem)));
		return n; }
	case CYAML_BITFIELD: n.k = Node::MAP; n.style = coStyle(s, cfg);
		for (u32 i = 0; i < s.bitfield.count; i++) { auto &b = s.bitfield.bitdefs[i]; u64 x = (v.num >> b.offset) & (~0ull >> (64 - b.bits)); if (x) { n.items.push_back(sc(b.name)); n.items.push_back(sc(sfmt("0x%llx", (unsigned long long)x))); } }
		return n;
	case CYAML_MAPPING: { n.k = Node::MAP; n.style = coStyle(s, cfg); size_t i = 0;
		for (auto f = s.mapping.fields; f->key; f++, i++) {
			if (f->value.type == CYAML_IGNORE) continue;
			const Val &k = v.kids[i];
			bool nul = isPtr(f->value) && (k.k == Val::NUL || (k.k == Val::SEQ && k.kids.empty()));
			if ((f->value.flags & CYAML_FLAG_OPTIONAL) && nul) continue;
			n.items.push_back(sc(f->key)); n.items.push_back(saveNode(S, cfg, f->value, k));
		}
		return n; }
	case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: n.k = Node::SEQ; n.style = coStyle(s, cfg);
		for (auto &k : v.kids) n.items.push_back(saveNode(S, cfg, *s.sequence.entry, k));
		return n;
	default: return n;
	}
}
static int wrs(void *x, unsigned char *b, size_t n) { ((string *)x)->append((char *)b, n); return 1; }
static bool refRec(yaml_emitter_t *em, const Node &n) {
	yaml_event_t e;
	if (n.k == Node::SCALAR) return yaml_scalar_event_initialize(&e, nullptr, nullptr, (yaml_char_t *)n.text.data(), n.text.size(), 1, 1, (yaml_scalar_style_t)(n.style < 0 ? 0 : n.style)) && yaml_emitter_emit(em, &e);
	int st = n.style < 0 ? 0 : n.style;
	if (n.k == Node::SEQ) { if (!yaml_sequence_start_event_initialize(&e, nullptr, nullptr, 1, (yaml_sequence_style_t)st) || !yaml_emitter_emit(em, &e)) return false; }
	else if (!yaml_mapping_start_event_initialize(&e, nullptr, nullptr, 1, (yaml_mapping_style_t)st) || !yaml_emitter_emit(em, &e)) return false;
	for (auto &k : n.items) if (!refRec(em, k)) return false;
	if (n.k == Node::SEQ) yaml_sequence_end_event_initialize(&e); else yaml_mapping_end_event_initialize(&e);
	return yaml_emitter_emit(em, &e);
}
string refEmit(const Node &n, bool delim, bool *ok) {
	Paused pz; string out; yaml_emitter_t em; yaml_event_t e;
	yaml_emitter_initialize(&em); yaml_emitter_set_output(&em, wrs, &out);
	bool g = true;
	yaml_stream_start_event_initialize(&e, YAML_UTF8_ENCODING); g = g && yaml_emitter_emit(&em, &e);
	if (g) { yaml_document_start_event_initialize(&e, nullptr, nullptr, nullptr, !delim); g = yaml_emitter_emit(&em, &e); }
	g = g && refRec(&em, n);
	if (g) { yaml_document_end_event_initialize(&e, !delim); g = yaml_emitter_emit(&em, &e); }
	if (g) { yaml_stream_end_event_initialize(&e); g = yaml_emitter_emit(&em, &e); }
	yaml_emitter_flush(&em); yaml_emitter_delete(&em);
	if (ok) *ok = g;
	return out;
}
SavedInfo checkSave(Rig &r, const Schema &S, const Val &v, const void *data, unsigned count) {
	SavedInfo s; u32 cfg = r.cfg.flags;
	s.pred = predictSave(S, cfg, v, count);
	bool refOk = true; string ref;
	if (s.pred.err == CYAML_OK) { ref = refEmit(saveNode(S, cfg, S.top, v), cfg & CYAML_CFG_DOCUMENT_DELIM, &refOk); if (!refOk) throw Discard{}; }
	r.log.clear();
	s.res = doSave(r, S, data, count);
	CHECK(s.res.err == s.pred.err, "save returned %s, expected %s (%s)", errName(s.res.err).c_str(), errName(s.pred.err).c_str(), s.pred.why.c_str());
	if (s.res.err) { CHECK(r.log.errors > 0 || s.res.err == CYAML_ERR_BAD_PARAM_SEQ_COUNT || s.res.err == CYAML_ERR_BAD_PARAM_NULL_DATA || s.res.err == CYAML_ERR_TOP_LEVEL_NON_PTR, "save failed with %s but logged no error", errName(s.res.err).c_str()); return s; }
	CHECK(r.log.errors == 0, "successful save logged an error: %s", r.log.errorText().c_str());
	int nd = 0; bool ok = parseDoc(s.res.out, s.node, &nd) && nd == 1;
	string why = ok ? matchSaved(S, cfg, S.top, v, s.node) : "output is not one valid YAML document";
	if (!why.empty()) {
		Node n2; int nd2; // does the YAML writer itself fail to carry this content?
		if (!(parseDoc(ref, n2, &nd2) && nd2 == 1 && matchSaved(S, cfg, S.top, v, n2).empty())) throw Discard{};
		fail("%s\noutput: %s", why.c_str(), quoted(s.res.out, 3000).c_str());
	}
	return s;
}
// ------------------------------------------------------------ copying
bool noData(const cyaml_schema_value_t &s, const Val &v) { return isPtr(s) && (v.k == Val::NUL || (v.k == Val::SEQ && v.kids.empty())); }
struct CP {
	SavePred r;
	struct E { cyaml_err_t e; string w; };
	void die(cyaml_err_t e, const string &w) { throw E{e, w}; }
	// n: number of entries for sequences
	void value(const cyaml_schema_value_t &s, const Val &v0, u64 n, bool inSeq) {
		Val v = norm(s, v0);
		if (s.type == CYAML_SEQUENCE_FIXED && s.sequence.min != s.sequence.max) die(CYAML_ERR_SEQUENCE_FIXED_COUNT, "fixed limits differ");
		if (s.type == CYAML_SEQUENCE && inSeq) die(CYAML_ERR_SEQUENCE_IN_SEQUENCE, "sequence in sequence");
		if (isPtr(s) && isSeq(s) && n == 0) return;
		if (noData(s, v)) { if (nullable(s)) return; die(CYAML_ERR_BAD_PARAM_NULL_DATA, "NULL"); }
		if ((unsigned)s.type >= CYAML__TYPE_COUNT || s.type == CYAML_IGNORE) die(CYAML_ERR_BAD_TYPE_IN_SCHEMA, "type");
		if (s.type == CYAML_MAPPING) {
			r.path.emplace_back(); size_t pi = r.path.size() - 1, i = 0;
			for (auto f = s.mapping.fields; f->key; f++, i++) {
				if (f->value.type == CYAML_IGNORE) continue;
				r.path[pi].name = f->key; r.path[pi].inValue = true;
				const Val &k = v.kids[i];
				if (f->value.type == CYAML_SEQUENCE && (f->count_size == 0 || f->count_size > 8)) die(CYAML_ERR_INVALID_DATA_SIZE, "count size");
				u64 n = f->value.type == CYAML_SEQUENCE ? k.kids.size() : f->value.type == CYAML_SEQUENCE_FIXED ? f->value.sequence.min : 0;
				// a NULL directly below a member is the member missing
				if (f->value.type != CYAML_SEQUENCE && noData(f->value, k) && !nullable(f->value) && !(isSeq(f->value) && n == 0) && !(f->value.type == CYAML_SEQUENCE_FIXED && f->value.sequence.min != f->value.sequence.max)) {
					if (f->value.flags & CYAML_FLAG_OPTIONAL) continue;
					die(CYAML_ERR_MAPPING_FIELD_MISSING, string("NULL in ") + f->key);
				}
				value(f->value, k, n, false);
			}
			r.path.pop_back();
		} else if (isSeq(s)) {
			r.path.emplace_back(); size_t pi = r.path.size() - 1; r.path[pi].seq = true;
			auto &e = *s.sequence.entry;
			for (size_t i = 0; i < v.kids.size(); i++) { r.path[pi].idx = i + 1; r.path[pi].inValue = true; value(e, v.kids[i], e.type == CYAML_SEQUENCE_FIXED ? e.sequence.max : 0, true); }
			r.path.pop_back();
		}
	}
};
SavePred predictCopy(const Schema &S, const Val &v, unsigned count) {
	CP p;
	try {
		if (isSeq(S.top) != (count != 0)) p.die(CYAML_ERR_BAD_PARAM_SEQ_COUNT, "count");
		bool none = v.k == Val::NUL && isPtr(S.top) && S.top.type == CYAML_MAPPING;
		if (none) for (auto f = S.top.mapping.fields; f->key; f++) if (!(f->value.flags & CYAML_FLAG_OPTIONAL)) none = false;
		if (!none) p.value(S.top, v, count, false);
	} catch (CP::E &e) { p.r.err = e.e; p.r.why = e.w; }
	return p.r;
}
CopiedInfo checkCopy(Rig &r, const Schema &S, const Val &v, const void *data, unsigned count) {
	CopiedInfo o; o.pred = predictCopy(S, v, count);
	r.log.clear();
	o.res = doCopy(r, S, data, count);
	CHECK(o.res.err == o.pred.err, "copy returned %s, expected %s (%s)", errName(o.res.err).c_str(), errName(o.pred.err).c_str(), o.pred.why.c_str());
	if (o.res.err) { CHECK(r.log.errors > 0 || o.pred.path.empty(), "copy failed with %s but logged no error", errName(o.res.err).c_str()); return o; }
	CHECK(r.log.errors == 0, "successful copy logged an error: %s", r.log.errorText().c_str());
	MatchCtx m; m.ta = &r.ta; m.checkGaps = false;
	CHECK(matchTop(S.top, o.res.data, v, m, true), "copy differs from the original: %s", m.err.c_str());
	return o;
}
int plantNulls(Choices &c, const cyaml_schema_value_t &s, Val &v, int pct) {
	if (v.k == Val::NUL) return 0;
	if (isPtr(s) && !(s.type == CYAML_SEQUENCE && !v.kids.empty()) && c.p(pct)) { v = Val(); return 1; }
	int n = 0;
	if (v.k == Val::MAP) { size_t i = 0; for (auto f = s.mapping.fields; f->key; f++, i++) if (f->value.type != CYAML_IGNORE) n += plantNulls(c, f->value, v.kids[i], pct); }
	if (v.k == Val::SEQ) for (auto &k : v.kids) n += plantNulls(c, *s.sequence.entry, k, pct);
	return n;
}
// ------------------------------------------------------------ styles
static void overlay(Node &a, const Node &st, bool &any) {
	a.style = st.style; a.anchor.clear();
	if (st.style == -1) any = true;
	for (size_t i = 0; i < a.items.size() && !st.items.empty(); i++) overlay(a.items[i], st.items[a.items.size() == st.items.size() ? i : 0], any);
}
static string cmpStyles(const Node &got, const Node &ref, const Node &want, const string &path) {
	static const char *sc[] = {"any", "plain", "single quoted", "double quoted", "literal", "folded"}, *co[] = {"any", "block", "flow"};
	if (got.k != ref.k || got.items.size() != ref.items.size()) return ""; // the reference does not carry this
	if (want.style != -1 && got.style != ref.style) return sfmt("at %s: written in %s style, expected %s", path.c_str(), got.k == Node::SCALAR ? sc[got.style] : co[got.style], got.k == Node::SCALAR ? sc[ref.style] : co[ref.style]);
	for (size_t i = 0; i < got.items.size(); i++) { string e = cmpStyles(got.items[i], ref.items[i], want.items[i], path + sfmt("/%zu", i)); if (!e.empty()) return e; }
	return "";
}
string checkStyles(const Schema &S, u32 cfg, const Val &v, const string &text, const Node &parsed) {
	Node want = parsed; bool any = false; overlay(want, saveNode(S, cfg, S.top, v), any);
	bool ok = true; string ref = refEmit(want, cfg & CYAML_CFG_DOCUMENT_DELIM, &ok); if (!ok) throw Discard{};
	Node rn; int nd; if (!parseDoc(ref, rn, &nd)) throw Discard{};
	string e = cmpStyles(parsed, rn, want, ""); if (!e.empty()) return e;
	vector<Ev> ge; parseEvents(text, ge); bool d = cfg & CYAML_CFG_DOCUMENT_DELIM;
	vector<Ev> re; parseEvents(ref, re);
	auto marks = [](vector<Ev> &v) { v.erase(std::remove_if(v.begin(), v.end(), [](const Ev &e) { return e.type != YAML_DOCUMENT_START_EVENT && e.type != YAML_DOCUMENT_END_EVENT; }), v.end()); };
	marks(ge); marks(re);
	for (auto &x : ge) for (auto &y : re) {
		if (x.type == YAML_DOCUMENT_START_EVENT && y.type == x.type && x.implicit != y.implicit) return d ? "no document start marker" : "document start marker not asked for";
		if (x.type == YAML_DOCUMENT_END_EVENT && y.type == x.type && x.implicit != y.implicit) return d ? "no document end marker" : "document end marker not asked for";
	}
	return "";
}
