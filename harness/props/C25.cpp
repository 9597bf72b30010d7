#include "../gen.h"

// Changes that keep the layout of the data: the same objects at the same
// places say something else afterwards.
static vector<cyaml_schema_value_t *> all25(Schema &S) {
	vector<cyaml_schema_value_t *> o{&S.top}; for (auto &v : S.values) o.push_back(&v);
	for (auto &f : S.fields) for (auto &x : f) if (x.key) o.push_back(&x.value);
	return o;
}
static bool optAny25(Schema &S) { for (auto &m : S.meta) if (m.second.hasDefault) return true; return false; }
static string edit25(Choices &c, Schema &S) {
	auto vs = all25(S);
	for (int t = 0; t < 12; t++) {
		auto &s = *c.pick(vs);
		switch (c.below(7)) {
		case 0: case 1: { // names of members change places
			if (S.fields.empty()) break; auto &f = S.fields[c.below(S.fields.size())]; size_t n = 0; while (n < f.size() && f[n].key) n++;
			if (n < 2) break; size_t i = c.below(n), j = c.below(n - 1); if (j >= i) j++;
			std::swap(*(const char **)&f[i].key, *(const char **)&f[j].key); return sfmt("keys '%s' and '%s' change places", f[j].key, f[i].key); }
		case 2: { if (S.strvals.empty()) break; auto &q = S.strvals[c.below(S.strvals.size())]; if (q.size() < 2) break;
			size_t i = c.below(q.size()), j = c.below(q.size() - 1); if (j >= i) j++; if (!q[i].str || !q[j].str) break;
			std::swap(*(const char **)&q[i].str, *(const char **)&q[j].str); return sfmt("names '%s' and '%s' change places", q[j].str, q[i].str); }
		case 3: { if (S.bitdefs.empty()) break; auto &q = S.bitdefs[c.below(S.bitdefs.size())]; if (q.size() < 2) break;
			size_t i = c.below(q.size()), j = c.below(q.size() - 1); if (j >= i) j++; if (!q[i].name || !q[j].name) break;
			std::swap(*(const char **)&q[i].name, *(const char **)&q[j].name); return sfmt("names '%s' and '%s' change places", q[j].name, q[i].name); }
		case 4: if (s.type == CYAML_ENUM || s.type == CYAML_FLAGS) { s.flags = (cyaml_flag)(s.flags ^ CYAML_FLAG_STRICT); return "strictness changes"; } break;
		case 5: if (s.type == CYAML_INT && (s.integer.min || s.integer.max) && s.integer.max > s.integer.min + 1) { if (c.p(50)) s.integer.max--; else s.integer.min++; if (!s.integer.min && !s.integer.max) s.integer.max = 1; return "integer range changes"; }
			if (s.type == CYAML_UINT && s.unsigned_integer.max > s.unsigned_integer.min + 1) { if (c.p(50)) s.unsigned_integer.max--; else s.unsigned_integer.min++; return "integer range changes"; }
			break;
		case 6: if ((s.type == CYAML_MAPPING || s.type == CYAML_ENUM || s.type == CYAML_FLAGS || s.type == CYAML_BITFIELD) && c.p(70)) { u32 f = s.flags & ~(u32)(CYAML_FLAG_CASE_INSENSITIVE | CYAML_FLAG_CASE_SENSITIVE); int q = c.below(3); s.flags = (cyaml_flag)(f | (q == 1 ? CYAML_FLAG_CASE_INSENSITIVE : q == 2 ? CYAML_FLAG_CASE_SENSITIVE : 0)); return "case rule changes"; } break;
		}
	}
	return "";
}
struct Kept25 { void *data; unsigned count; Val v; size_t blocks; };
static void history(Case &k, GenOpt o, bool faults) {
	Choices &c = k.c; Schema S; genSchema(c, S, o); if (c.p(60) && optAny25(S)) k.label("with defaults");
	u32 cfg = genCfg(c, 20); Rig r(cfg, c.p(15) ? (cyaml_log_t)c.below(5) : CYAML_LOG_ERROR); r.ta.reuse = c.p(75); vector<u8> room(1 << 16); if (c.p(75)) r.input = &room;
	k.desc = "schema: " + showSchema(S, S.top) + "\nconfig: " + cfgText(cfg) + "\n";
	struct Held { Arena a; Val v; void *p = nullptr; unsigned n = 0; }; std::deque<Held> held; vector<Kept25> kept; vector<string> texts; u32 edits = 0, ops = 0; bool fresh = false, acted = false;
	auto sizes = [&] { size_t n = 0; for (auto &q : kept) n += q.blocks; return n; };
	auto drop = [&](size_t i) { Kept25 q = kept[i]; kept.erase(kept.begin() + i); MatchCtx m; m.ta = &r.ta; m.checkGaps = false;
		CHECK(matchTop(S.top, q.data, q.v, m, false), "data loaded or copied earlier has changed: %s", m.err.c_str());
		CHECK(cyaml_free(&r.cfg, &S.top, (cyaml_data_t *)q.data, q.count) == CYAML_OK && r.ta.err.empty(), "free: %s", r.ta.err.c_str());
		CHECK(r.ta.live.size() == sizes(), "free released %zd blocks, expected %zu", (ssize_t)(q.blocks + sizes() - r.ta.live.size()), q.blocks); };
	auto keep = [&](void *d, unsigned n, const Val &v, size_t before) { kept.push_back({d, n, v, r.ta.live.size() - before}); if (kept.size() > 3 || c.p(60)) drop(kept.size() - 1 - (c.p(30) ? c.below(kept.size()) : 0)); };
	int steps = 4 + c.below(14);
	for (int i = 0; i < steps; i++) {
		if (acted && c.p(45)) { string e = edit25(c, S); if (!e.empty()) { k.desc += e + "\n"; edits++; fresh = true; } }
		if (acted && c.p(20)) { u32 f = genCfg(c, 30); if (f != r.cfg.flags) { r.cfg.flags = (cyaml_cfg_flags_t)f; k.desc += "config: " + cfgText(f) + "\n"; edits++; fresh = true; } }
		if (acted && c.p(8)) { r.cfg.log_level = (cyaml_log_t)c.below(5); r.log.minLevel = r.cfg.log_level; }
		int op = c.below(8); u32 fl = r.cfg.flags; u64 before = r.ta.live.size(); r.log.clear();
		r.ta.failAt = 0; r.ta.failFrom = r.ta.failed = false; bool fault = faults && c.p(35); if (fault) { r.ta.failAt = r.ta.allocs + 1 + c.below(c.p(60) ? 6 : 40); r.ta.failFrom = c.p(40); r.ta.failed = false; }
		auto faulted = [&](cyaml_err_t e) { bool hit = r.ta.failed; r.ta.failAt = 0; r.ta.failFrom = r.ta.failed = false; if (hit) { CHECK(e == CYAML_ERR_OOM, "an allocation failed, and the call returned %s", errName(e).c_str()); k.label("allocation failure"); k.desc += "  (an allocation failed)\n"; } return hit; };
		try {
		if (op <= 4) { // load: new text, damaged text, or an earlier one
			string t;
			if (texts.size() && c.p(40)) t = c.pick(texts);
			else { Val v = genVal(c, S, S.top, o); Expr e; e.cfgFlags = fl; Node d = express(c, S, S.top, v, e); if (c.p(30)) mutateNode(c, S, fl, d); if (c.p(15)) addAliases(c, d, 30, c.p(30)); Writer w; w.kind = Writer::EMITTER; w.encodings = c.p(5); t = writeNode(c, d, w); if (c.p(10)) t = mutateBytes(c, t); if (texts.size() < 4) texts.push_back(t); else texts[c.below(4)] = t; }
			Model m = modelText(S, fl, t); if (m.tooBig) continue; k.desc += "load " + quoted(t, 300) + "\n";
			LoadRes x = doLoad(r, S, t, m.ambiguous ? nullptr : &m.cbs); ops++;
			bool hit = fault && faulted(x.err);
			if (!hit && !m.ambiguous) {
				CHECK(x.err == m.err, "load %u returned %s, expected %s (%s)", ops, errName(x.err).c_str(), errName(m.err).c_str(), m.why.c_str());
				checkCalls(r, m); k.label("load:" + errName(x.err));
				if (!x.err) { if (S.top.type == CYAML_SEQUENCE) CHECK(x.count == m.count, "sequence count is %u, expected %llu", x.count, (unsigned long long)m.count); MatchCtx mc; mc.ta = &r.ta; CHECK(matchTop(S.top, x.data, m.val, mc, false), "loaded data is wrong: %s", mc.err.c_str());
					CHECK(mc.reached.size() == r.ta.live.size() - before, "the load made %zu allocations, of which %zu are reachable", (size_t)(r.ta.live.size() - before), mc.reached.size());
					keep(x.data, x.count, m.val, before); }
			} else if (!x.err) { cyaml_free(&r.cfg, &S.top, (cyaml_data_t *)x.data, x.count); CHECK(r.ta.live.size() == before, "free left blocks"); }
		} else if (op <= 6) { // save or copy: new data, or the same again
			Held *h; if (held.size() && c.p(50)) h = &held[c.below(held.size())];
			else { Val v = genVal(c, S, S.top, o); if (c.p(8)) plantNulls(c, S.top, v, 20); if (v.k == Val::NUL || noData(S.top, v)) continue; if (held.size() >= 3) held.pop_front(); held.emplace_back(); h = &held.back(); h->v = v; h->p = buildTop(S, v, h->a.alloc(), &h->n); h->a.snapshot(); }
			if (op == 5) {
				SavePred q = predictSave(S, fl, h->v, h->n); if (q.ambiguous) continue; k.desc += "save " + showVal(S.top, h->v).substr(0, 300) + "\n";
				if (fault) { SaveRes x = doSave(r, S, h->p, h->n); if (!faulted(x.err)) CHECK(x.err == q.err, "save returned %s, expected %s (%s)", errName(x.err).c_str(), errName(q.err).c_str(), q.why.c_str()); }
				else { SavedInfo x = checkSave(r, S, h->v, h->p, h->n); k.label("save:" + errName(x.res.err)); }
			} else {
				unsigned n = S.top.type == CYAML_SEQUENCE_FIXED ? S.top.sequence.max : h->n; SavePred q = predictCopy(S, h->v, n); if (q.ambiguous) continue; k.desc += "copy " + showVal(S.top, h->v).substr(0, 300) + "\n";
				CopyRes x = doCopy(r, S, h->p, n); bool hit = fault && faulted(x.err);
				if (!hit) { CHECK(x.err == q.err, "copy returned %s, expected %s (%s)", errName(x.err).c_str(), errName(q.err).c_str(), q.why.c_str()); k.label("copy:" + errName(x.err));
					if (!x.err) { MatchCtx mc; mc.ta = &r.ta; mc.checkGaps = false; CHECK(matchTop(S.top, x.data, h->v, mc, false), "the copy is wrong: %s", mc.err.c_str()); CHECK(mc.reached.size() == r.ta.live.size() - before, "the copy made %zu allocations, of which %zu are reachable", (size_t)(r.ta.live.size() - before), mc.reached.size()); keep(x.data, n, h->v, before); } }
			}
			ops++; CHECK(h->a.same(), "the data saved or copied was altered");
		} else { int q = (int)c.below(CYAML_ERR__COUNT + 4) - 2; const char *s = cyaml_strerror((cyaml_err_t)q); CHECK(s && *s, "no error text"); if (kept.size()) drop(c.below(kept.size())); }
		} catch (Discard &) { r.ta.failAt = 0; r.ta.failFrom = r.ta.failed = false; continue; }
		r.ta.failAt = 0; r.ta.failFrom = r.ta.failed = false; k.evals++;
		if (ops) acted = true; if (fresh && ops > 1) k.nontrivial = true;
	}
	while (kept.size()) drop(c.below(kept.size()));
	CHECK(r.ta.live.empty(), "%zu blocks left", r.ta.live.size());
	if (ops < 2) throw Discard{};
	k.label(sfmt("edits:%u", edits < 6 ? edits : 6));
}
PROP(C25, edits, 7000, 600000) { GenOpt o; o.depth = 1 + k.c.below(4); o.cbPct = 6; o.casePct = 15; o.strictPct = 40; history(k, o, false); }
PROP(C25, faults, 5000, 400000) { GenOpt o; o.depth = 1 + k.c.below(4); o.cbPct = 4; o.casePct = 10; o.ptrPct = 50; history(k, o, true); }
PROP(C25, names, 3500, 300000) { GenOpt o; o.depth = 1 + k.c.below(2); o.widePct = 40; o.wideMax = 40; o.casePct = 25; o.types = 1 << CYAML_MAPPING | 1 << CYAML_INT | 1 << CYAML_STRING | 1 << CYAML_ENUM | 1 << CYAML_FLAGS | 1 << CYAML_BITFIELD | 1 << CYAML_BOOL; history(k, o, false); }
