#include "../gen.h"
#include <unistd.h>
#include <sys/mman.h>
#include <fcntl.h>

// ---------------------------------------------------------------- parameters
struct MemFile { int fd; string path; MemFile(const string &content) { fd = memfd_create("c18", 0); if (fd < 0 || (content.size() && write(fd, content.data(), content.size()) < 0)) abort(); path = sfmt("/proc/self/fd/%d", fd); } ~MemFile() { close(fd); } };
static int openFds() { int n = 0; for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }

PROP(C18, parameters, 30000, 1500000) {
	Choices &c = k.c; Schema S; GenOpt o; o.depth = 1 + c.below(3); S.topPtr = !c.p(35); if (c.p(60)) o.topTypes = c.p(50) ? 1 << CYAML_SEQUENCE : 1 << CYAML_SEQUENCE | 1 << CYAML_SEQUENCE_FIXED | 1 << CYAML_MAPPING;
	genSchema(c, S, o); auto &s = S.top;
	Val v = genVal(c, S, s, o); Expr e; Writer w; w.kind = Writer::EMITTER; w.encodings = false;
	string text = writeNode(c, express(c, S, s, v, e), w);
	bool noCfg = c.p(25), noMem = c.p(25), noSchema = c.p(25), noData = c.p(30), flipCount = c.p(35), noFile = c.p(20), noLog = c.p(30), tgtSet = c.p(20);
	Rig r(0, c.p(20) ? CYAML_LOG_DEBUG : CYAML_LOG_ERROR); if (noMem) r.cfg.mem_fn = nullptr; if (noLog) r.cfg.log_fn = nullptr;
	const cyaml_config_t *cfg = noCfg ? nullptr : &r.cfg; const cyaml_schema_value_t *sp = noSchema ? nullptr : &s;
	Arena a; unsigned cnt = 0; void *data = nullptr;
	if (isPtr(s)) data = buildTop(S, v, a.alloc(), &cnt);
	else { size_t n = slotSize(s); if (!n) throw Discard{}; u8 *p = a.alloc()(n); storeVal(s, v, p, a.alloc()); data = p; if (s.type == CYAML_SEQUENCE) cnt = v.kids.size(); }
	a.snapshot();
	int op = c.below(6); static const char *names[] = {"load_data", "load_file", "save_data", "save_file", "copy", "free"};
	k.desc = sfmt("cyaml_%s with%s%s%s%s%s%s%s\nschema: ", names[op], noCfg ? " no-config" : "", noMem ? " no-allocator" : "", noSchema ? " no-schema" : "", noData ? " no-data" : "", flipCount ? " wrong-count" : "", noFile ? " no-file" : "", noLog ? " no-log" : "") + showSchema(S, s) + "\nvalue: " + showVal(s, v) + "\ndocument: " + quoted(text) + "\n";
	k.label(names[op]);
	cyaml_err_t want = CYAML_OK, got;
	auto base = [&]() -> bool {
		if (noCfg) want = CYAML_ERR_BAD_PARAM_NULL_CONFIG; else if (noMem) want = CYAML_ERR_BAD_CONFIG_NULL_MEMFN; else if (noSchema) want = CYAML_ERR_BAD_PARAM_NULL_SCHEMA; else return false;
		return true; };
	auto quiet = [&](const char *what) {
		CHECK(got == want, "%s returned %s, expected %s", what, errName(got).c_str(), errName(want).c_str());
		CHECK(r.ta.err.empty(), "%s: %s", what, r.ta.err.c_str()); CHECK(r.log.err.empty(), "%s: %s", what, r.log.err.c_str());
		size_t out = MallocWindow::outstanding(); MallocWindow::clear(); CHECK(out == 0, "%s left %zu blocks of its own", what, out);
		if (want) CHECK(r.ta.live.empty(), "%s failed and left %zu blocks", what, r.ta.live.size()); };
	int fds = openFds(); MallocWindow::clear();
	if (op <= 1) {
		MemFile f(op == 1 ? text : ""); void *sent = (void *)0x5e5e5e5e5e50, *out = sent; unsigned n = 0xdeadbeef; bool isq = s.type == CYAML_SEQUENCE, giveCount = isq != flipCount;
		if (op == 1 && noFile) want = CYAML_ERR_FILE_OPEN;
		else if (base()) ; else if (giveCount != isq) want = CYAML_ERR_BAD_PARAM_SEQ_COUNT; else if (!isPtr(s)) want = CYAML_ERR_TOP_LEVEL_NON_PTR; else if (noData) want = CYAML_ERR_BAD_PARAM_NULL_DATA;
		Model m; if (!want) { m = modelText(S, 0, text); if (m.ambiguous) throw Discard{}; want = m.err; k.label("nothing wrong"); }
		string path = noFile ? f.path + "/none" : f.path;
		{ MallocWindow mw; auto dp = noData ? nullptr : (cyaml_data_t **)&out; auto cp = giveCount ? &n : nullptr; got = op == 0 ? cyaml_load_data((const u8 *)text.data(), text.size(), cfg, sp, dp, cp) : cyaml_load_file(path.c_str(), cfg, sp, dp, cp); }
		quiet(names[op]);
		if (want) CHECK(out == sent && n == 0xdeadbeef, "%s failed with %s but changed an output", names[op], errName(want).c_str());
		else { MatchCtx mc; mc.ta = &r.ta; CHECK(matchTop(s, out, m.val, mc, true), "%s", mc.err.c_str()); cyaml_free(&r.cfg, &s, out, isq ? n : 0); CHECK(r.ta.live.empty(), "not all freed"); }
	} else if (op <= 3) {
		MemFile f("old content\n"); char *sent = (char *)0x5e5e5e5e5e50, *out = sent; size_t len = 0x1234567; bool isq = s.type == CYAML_SEQUENCE; unsigned n = flipCount ? (isq ? 0 : 1 + c.below(3)) : cnt;
		string path = noFile ? f.path + "/none" : f.path; void *d = noData ? nullptr : data;
		if (op == 3 && noFile) want = CYAML_ERR_FILE_OPEN; else if (base()) ; else if (isq != (n != 0)) want = CYAML_ERR_BAD_PARAM_SEQ_COUNT; else if (!isPtr(s)) want = CYAML_ERR_TOP_LEVEL_NON_PTR; else if (!d) want = CYAML_ERR_BAD_PARAM_NULL_DATA;
		else { SavePred p = predictSave(S, 0, v, n); want = p.err; k.label("nothing wrong"); bool ok; refEmit(saveNode(S, 0, s, v), false, &ok); if (!ok) throw Discard{}; }
		{ MallocWindow mw; got = op == 2 ? cyaml_save_data(&out, &len, cfg, sp, d, n) : cyaml_save_file(path.c_str(), cfg, sp, d, n); }
		if (!want && op == 2) { CHECK(got == CYAML_OK, "save returned %s", errName(got).c_str()); CHECK(r.ta.owns(out, len), "output is not the client's"); TA::fn(&r.ta, out, 0); }
		quiet(names[op]);
		if (want) CHECK(out == sent && len == 0x1234567, "%s failed with %s but changed an output", names[op], errName(want).c_str());
	} else if (op == 4) {
		void *out = tgtSet ? (void *)0x5e5e5e5e5e50 : nullptr, *was = out; bool isq = isSeq(s); unsigned n = s.type == CYAML_SEQUENCE_FIXED ? s.sequence.max : cnt; if (flipCount) n = isq ? 0 : 1 + c.below(3);
		bool givePtr = !c.p(20), giveData = !noData; vector<u8> buf;
		if (!isPtr(s)) { buf.assign(slotSize(s), 0); out = tgtSet ? buf.data() : nullptr; was = out; }
		if (base()) ; else if (isq != (n != 0)) want = CYAML_ERR_BAD_PARAM_SEQ_COUNT; else if (!givePtr) want = CYAML_ERR_BAD_PARAM_NULL_DATA; else if (isPtr(s) && out) want = CYAML_ERR_DATA_TARGET_NON_NULL; else if (!isPtr(s) && (!giveData || !out)) want = CYAML_ERR_BAD_PARAM_NULL_DATA;
		else { SavePred p = predictCopy(S, giveData ? v : Val(), n); want = p.err; k.label("nothing wrong"); }
		if (!isPtr(s) && want && want == CYAML_ERR_BAD_PARAM_NULL_DATA && giveData && !out && givePtr) { SavePred p = predictCopy(S, v, n); if (p.err) want = p.err; } // a copy is made before it is put in place
		if (!giveData && isPtr(s) && !want && s.type != CYAML_MAPPING && v.k != Val::NUL) { /* absent top-level data that the schema allows */ }
		{ MallocWindow mw; got = cyaml_copy(cfg, sp, giveData ? (cyaml_data_t *)data : nullptr, n, givePtr ? (cyaml_data_t **)&out : nullptr); }
		quiet("copy"); CHECK(!want || out == was, "copy failed with %s but changed the output pointer", errName(want).c_str());
		if (!want) { if (isPtr(s)) { if (out) cyaml_free(&r.cfg, &s, out, n); } else cyaml_free(&r.cfg, &s, buf.data(), n); CHECK(r.ta.live.empty(), "not all of the copy was freed"); }
	} else {
		if (!base()) noData = true; // what would be freed is not the client's here
		{ MallocWindow mw; got = cyaml_free(cfg, sp, noData ? nullptr : (cyaml_data_t *)data, cnt); }
		quiet("free");
	}
	CHECK(a.same(), "%s changed its input", names[op]);
	CHECK(openFds() == fds, "%s left a file open", names[op]);
	k.nontrivial = want != CYAML_OK; k.label(errName(want));
}

// ---------------------------------------------------------------- malformed schemas
static void mutableValues(Schema &S, vector<std::pair<cyaml_schema_value_t *, cyaml_schema_field_t *>> &out) {
	out.push_back({&S.top, nullptr});
	for (auto &v : S.values) out.push_back({&v, nullptr});
	for (auto &fs : S.fields) for (auto &f : fs) if (f.key) out.push_back({&f.value, &f});
}
enum { M_TYPE = 1, M_SIZE = 2, M_BITS = 4, M_LIMITS = 8, M_FIXED = 16, M_NEST = 32, M_COUNT = 64, M_TOP = 128 };
// One malformation at a random place where it is possible; empty if none.
static string malform(Choices &c, Schema &S, u32 kinds) {
	vector<std::pair<cyaml_schema_value_t *, cyaml_schema_field_t *>> vs; mutableValues(S, vs);
	for (int t = 0; t < 40; t++) {
		auto p = vs[c.p(12) ? 0 : c.below(vs.size())]; auto &s = *p.first; u32 kind = 1u << c.below(8); if (!(kinds & kind)) continue;
		string at = p.second ? string("member ") + p.second->key : &s == &S.top ? "top level" : "an element";
		if (kind == M_TYPE && c.p(25)) { if (s.type == CYAML_IGNORE) s.flags = (cyaml_flag)(s.flags & ~CYAML_FLAG_POINTER_NULL_STR); /* it has no storage of its own */ s.type = (cyaml_type_e)(c.p(50) ? CYAML__TYPE_COUNT : c.p(50) ? 99 : ~0u); if (!s.data_size) s.data_size = 1; return at + ": unknown type"; }
		if (kind == M_SIZE) {
			if (s.type == CYAML_FLOAT) { s.data_size = c.pick<u32>({1, 2, 3, 5, 6, 7, 9, 16, 12}); return at + sfmt(": float of %u bytes", s.data_size); }
			if (s.type == CYAML_INT || s.type == CYAML_UINT || s.type == CYAML_BOOL || s.type == CYAML_ENUM || s.type == CYAML_FLAGS || s.type == CYAML_BITFIELD) { s.data_size = c.pick<u32>({9, 10, 16, 255, 256, 0}); if (isPtr(s) && !s.data_size) s.data_size = 9; return at + sfmt(": scalar of %u bytes", s.data_size); }
			continue;
		}
		if (kind == M_BITS && s.type == CYAML_BITFIELD && s.bitfield.count) {
			auto b = (cyaml_bitdef_t *)&s.bitfield.bitdefs[c.below(s.bitfield.count)]; u32 w = s.data_size * 8;
			switch (c.below(6)) { case 0: b->bits = 0; break; case 1: b->bits = 65; break; case 2: b->offset = 64; break; case 3: b->offset = 255; b->bits = 255; break; case 4: b->offset = w; b->bits = 1; break; default: b->bits = w; b->offset = 1; }
			return at + sfmt(": bits %u at %u of %u", b->bits, b->offset, w);
		}
		if (kind == M_LIMITS) {
			if (s.type == CYAML_STRING && s.string.max < ~0u) { s.string.min = s.string.max + 1 + c.below(3); return at + ": string limits exchanged"; }
			if (s.type == CYAML_STRING && s.string.min) { s.string.max = c.below(s.string.min); return at + ": string limits exchanged"; }
			if (s.type == CYAML_INT) { s.integer.min = 5; s.integer.max = c.p(50) ? -5 : 4; return at + ": integer limits exchanged"; }
			if (s.type == CYAML_UINT) { s.unsigned_integer.min = 5; s.unsigned_integer.max = c.below(5); return at + ": unsigned limits exchanged"; }
			continue;
		}
		if (kind == M_FIXED && s.type == CYAML_SEQUENCE_FIXED) { u32 m = s.sequence.min; s.sequence.min = c.p(50) && m ? (u32)c.below(m) : m + 1 + c.below(2); return at + sfmt(": fixed sequence of %u to %u", s.sequence.min, s.sequence.max); }
		if (kind == M_NEST && isSeq(s) && s.sequence.entry->type == CYAML_SEQUENCE_FIXED) { ((cyaml_schema_value_t *)s.sequence.entry)->type = CYAML_SEQUENCE; return at + ": variable sequence in a sequence"; }
		if (kind == M_COUNT && p.second && s.type == CYAML_SEQUENCE) { p.second->count_size = c.pick<int>({0, 9, 16, 200, 255}); return at + sfmt(": count of %u bytes", p.second->count_size); }
		if (kind == M_TOP && c.p(8)) { S.top.flags = (cyaml_flag_e)(S.top.flags & ~CYAML_FLAG_POINTER_NULL_STR); return "top level: not a pointer"; }
	}
	return "";
}
static bool schemaErr(cyaml_err_t e) { return e == CYAML_ERR_INVALID_DATA_SIZE || e == CYAML_ERR_TOP_LEVEL_NON_PTR || e == CYAML_ERR_BAD_TYPE_IN_SCHEMA || e == CYAML_ERR_BAD_MIN_MAX_SCHEMA || e == CYAML_ERR_BAD_BITVAL_IN_SCHEMA || e == CYAML_ERR_SEQUENCE_FIXED_COUNT || e == CYAML_ERR_SEQUENCE_IN_SEQUENCE; }
static GenOpt malOpt(Choices &c) {
	GenOpt o; o.depth = 1 + c.below(5); o.defPct = 0; o.optPct = 25; o.nullPct = 20; o.recursePct = 5; if (c.p(25)) { o.depth = 6 + c.below(10); o.chainPct = 80; o.maxFields = 3; o.maxEntries = 2; }
	return o;
}
PROP(C18, loads, 40000, 900000) {
	Choices &c = k.c; Schema S; GenOpt o = malOpt(c); if (c.p(30)) { o.optPct = 0; o.nullPct = 0; } genSchema(c, S, o); u32 cfg = genCfg(c, 10);
	Expr e; e.cfgFlags = cfg; e.absentPct = 25; Writer w; w.kind = Writer::EMITTER; w.encodings = w.tags = false; Doc d = genDoc(c, S, o, e, w);
	Rig r(cfg, c.p(10) ? CYAML_LOG_DEBUG : CYAML_LOG_ERROR); k.evals = 0;
	vector<cyaml_schema_value_t> keepV(S.values.begin(), S.values.end()); vector<vector<cyaml_schema_field_t>> keepF(S.fields.begin(), S.fields.end()); vector<vector<cyaml_bitdef_t>> keepB(S.bitdefs.begin(), S.bitdefs.end()); auto keepT = S.top;
	auto restore = [&] { // in place: the parts point at each other
		for (size_t i = 0; i < keepV.size(); i++) S.values[i] = keepV[i];
		for (size_t i = 0; i < keepF.size(); i++) std::copy(keepF[i].begin(), keepF[i].end(), S.fields[i].begin());
		for (size_t i = 0; i < keepB.size(); i++) std::copy(keepB[i].begin(), keepB[i].end(), S.bitdefs[i].begin());
		S.top = keepT; };
	string was = showSchema(S, S.top);
	for (int t = 0; t < 5; t++) {
		restore(); string how; int n = c.p(70) ? 1 : 2; for (int i = 0; i < n; i++) { string h = malform(c, S, ~0u); if (!h.empty()) how += "; " + h; }
		if (how.empty()) continue;
		k.desc = "well-formed schema: " + was + "\nmade malformed" + how + "\nconfig: " + cfgText(cfg) + "\ndocument: " + quoted(d.text) + "\n"; k.evals++;
		if (!isPtr(S.top)) { LoadRes x = doLoad(r, S, d.text); CHECK(x.err == CYAML_ERR_TOP_LEVEL_NON_PTR, "load returned %s", errName(x.err).c_str()); k.label("TOP_LEVEL_NON_PTR"); k.nontrivial = true; continue; }
		Model m = modelText(S, cfg, d.text); if (m.ambiguous) continue;
		r.log.clear(); if (m.err) checkAgainst(r, S, d.text, m); else { // the malformed part was not needed
			LoadRes x = doLoad(r, S, d.text, &m.cbs); CHECK(x.err == CYAML_OK, "load returned %s, expected success", errName(x.err).c_str()); checkCalls(r, m); doFree(r, S, x.data, x.count); }
		k.label(errName(m.err)); if (schemaErr(m.err)) k.nontrivial = true;
		if (m.err) CHECK(r.log.errors > 0, "load failed with %s but logged no error", errName(m.err).c_str());
	}
}
// defaults are part of the schema too: of types, limits, nesting and counts that are malformed
PROP(C18, defaults, 20000, 500000) {
	Choices &c = k.c; Schema S; GenOpt o = malOpt(c); o.defPct = 70; o.optPct = 80; o.ptrPct = 60; genSchema(c, S, o); u32 cfg = genCfg(c, 10); if (!isPtr(S.top)) throw Discard{};
	Expr e; e.cfgFlags = cfg; e.absentPct = 80; Writer w; w.kind = Writer::EMITTER; w.encodings = w.tags = false; Doc d = genDoc(c, S, o, e, w); string was = showSchema(S, S.top), how;
	bool exact = c.p(50); int n = c.p(70) ? 1 : 2; for (int i = 0; i < n; i++) { string h = malform(c, S, exact ? M_COUNT : M_TYPE | M_FIXED | M_NEST | M_COUNT | M_LIMITS); if (!h.empty()) how += "; " + h; }
	if (how.empty() || !isPtr(S.top)) throw Discard{};
	k.desc = "well-formed schema: " + was + "\nmade malformed" + how + "\nconfig: " + cfgText(cfg) + "\ndocument: " + quoted(d.text) + "\n";
	Model m = modelText(S, cfg, d.text); if (m.ambiguous) throw Discard{}; Rig r(cfg, c.p(10) ? CYAML_LOG_DEBUG : CYAML_LOG_ERROR); LoadRes x = doLoad(r, S, d.text); // also checks that nothing is leaked
	bool nested = S.fields.size() > 1; // counts within a default are read by copying it
	if (exact && !nested) CHECK(x.err == m.err, "load returned %s, expected %s", errName(x.err).c_str(), errName(m.err).c_str());
	CHECK(x.err == m.err || (x.err && (schemaErr(x.err) || x.err == CYAML_ERR_INVALID_VALUE || (!exact && (x.err == CYAML_ERR_BAD_PARAM_NULL_DATA || x.err == CYAML_ERR_MAPPING_FIELD_MISSING)))), "load returned %s, expected %s or an error for the schema", errName(x.err).c_str(), errName(m.err).c_str());
	k.nontrivial = schemaErr(x.err); k.label(errName(x.err)); if (!x.err) doFree(r, S, x.data, x.count);
}
static void saveCopy(Case &k, bool copy) {
	Choices &c = k.c; Schema S; GenOpt o = malOpt(c); genSchema(c, S, o); u32 cfg = genCfg(c, 10);
	Val v = genVal(c, S, S.top, o); Arena a; unsigned cnt = 0; void *p = buildTop(S, v, a.alloc(), &cnt); a.snapshot();
	string was = showSchema(S, S.top), how; int n = c.p(75) ? 1 : 2;
	for (int i = 0; i < n; i++) { string h = malform(c, S, copy ? M_TYPE | M_FIXED | M_NEST | M_COUNT : M_TYPE | M_SIZE | M_BITS | M_FIXED | M_NEST | M_COUNT | M_TOP); if (!h.empty()) how += "; " + h; }
	if (how.empty()) throw Discard{};
	k.desc = "well-formed schema: " + was + "\nmade malformed" + how + "\nconfig: " + cfgText(cfg) + "\n";
	Rig r(cfg, c.p(10) ? CYAML_LOG_DEBUG : CYAML_LOG_ERROR); cyaml_err_t e;
	unsigned cc = S.top.type == CYAML_SEQUENCE_FIXED ? S.top.sequence.max : cnt;
	if (copy) { auto x = checkCopy(r, S, v, p, cc); e = x.res.err; if (!e) doFree(r, S, x.res.data, cc); }
	else e = checkSave(r, S, v, p, cnt).res.err;
	CHECK(a.same(), "the data was changed"); k.nontrivial = schemaErr(e); k.label(errName(e));
}
PROP(C18, saves, 60000, 1200000) { saveCopy(k, false); }
PROP(C18, copies, 60000, 1200000) { saveCopy(k, true); }
// data loaded with a sound schema is still freed completely when scalars are misdescribed
PROP(C18, frees, 20000, 500000) {
	Choices &c = k.c; Schema S; GenOpt o = malOpt(c); o.ptrPct = 60; genSchema(c, S, o); Expr e; Writer w; w.kind = Writer::EMITTER; w.encodings = w.tags = false; Doc d = genDoc(c, S, o, e, w);
	Model m = modelText(S, 0, d.text); if (m.ambiguous || m.err) throw Discard{};
	Rig r(0); LoadRes res; checkAgainst(r, S, d.text, m, &res, false); string was = showSchema(S, S.top), how;
	for (int i = 0; i < 3; i++) { string h = malform(c, S, M_BITS | M_LIMITS); if (!h.empty()) how += "; " + h; }
	vector<std::pair<cyaml_schema_value_t *, cyaml_schema_field_t *>> vs; mutableValues(S, vs);
	for (auto &p : vs) if (p.first->type == CYAML_SEQUENCE_FIXED && c.p(30)) { p.first->sequence.min += 1; how += "; fixed sequence limits differ"; }
	k.desc = caseText(S, 0, d.text) + "freed with a schema made malformed" + how + "\n"; if (how.empty()) throw Discard{};
	k.nontrivial = r.ta.live.size() > 1; k.label("blocks", r.ta.live.size());
	doFree(r, S, res.data, S.top.type == CYAML_SEQUENCE_FIXED ? 0 : res.count);
}
PROP(C18, texts, 20000, 400000) {
	static const char *want[] = {"Success", "Memory allocation failed", "YAML alias unsupported", "Could not open file", "Invalid key", "Invalid value", "No anchor found for alias", "Internal error", "Unexpected event", "String length too short", "String length too long", "Data size must be 0 < X <= 8 bytes", "Top-level schema value must be pointer", "Schema contains invalid type", "Bad schema: min exceeds max", "Bad parameter: seq_count", "Bad parameter: NULL data", "Bit value beyond bitfield size", "Sequence with too few entries", "Sequence with too many entries", "Sequence fixed has unequal min max", "Non-fixed sequence in sequence", "Missing required mapping field", "Bad config: NULL mem function", "Bad parameter: NULL config", "Bad parameter: NULL schema", "Data target must be NULL pointer", "libyaml emitter init failed", "libyaml parser init failed", "libyaml event init failed", "libyaml emitter error", "libyaml parser error"};
	const int n = sizeof want / sizeof *want; Choices &c = k.c; k.evals = 0; k.desc = "cyaml_strerror of"; static_assert(n == CYAML_ERR__COUNT, "an error code was added");
	for (int i = 0; i < 20; i++) {
		int e = c.p(40) ? c.below(n) : c.p(40) ? n + (int)c.below(300) : c.p(50) ? -(int)c.below(300) - 1 : (int)(u32)c.below(1ull << 32);
		const char *t = cyaml_strerror((cyaml_err_t)e); k.evals++; k.desc += sfmt(" %d", e);
		CHECK(t, "cyaml_strerror(%d) is NULL", e); bool in = e >= 0 && e < n; const char *x = in ? want[e] : "Invalid error code";
		CHECK(!strcmp(t, x), "cyaml_strerror(%d) is \"%s\", expected \"%s\"", e, t, x);
		k.label(in ? "code" : "not a code"); if (!in) k.nontrivial = true;
	}
}
