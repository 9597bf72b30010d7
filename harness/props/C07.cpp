#include "../gen.h"

static const char *texts[] = {"", "~", "null", "Null", "NULL", "nULL", "NUL", "nul", "nulll", "NULL ", " null", " ", "~ ", "~~", "n", "N", "none", "0", "\n", "nu\nll", "Nil", "\"\"", "[]", "{}", "NuLL", "\xef\xbd\x9e"};
// every value type x kind of pointer x position x text
PROP(C07, matrix, 14000, 600000) {
	Choices &c = k.c; GenOpt o; o.depth = 1 + c.below(2); o.ptrPct = 100; o.nullPct = 0; o.optPct = 70; o.cbPct = 10; o.casePct = 25; o.strictPct = 30;
	Schema S; cyaml_schema_value_t v; int t = c.below(CYAML_IGNORE); genValue(c, S, v, t, o, 1, false);
	int kind = c.below(4); // 3: not a pointer at all where that is possible
	u32 f = v.flags & ~(u32)CYAML_FLAG_POINTER_NULL_STR;
	if (kind == 0) f |= CYAML_FLAG_POINTER; else if (kind == 1) f |= CYAML_FLAG_POINTER_NULL; else if (kind == 2) f |= CYAML_FLAG_POINTER_NULL_STR;
	else { if (t == CYAML_STRING && v.data_size <= v.string.max) { v.string.min = 0; v.string.max = 20; v.data_size = 21; } if (isSeq(v) && v.sequence.max > 6) { v.sequence.max = 6; if (v.sequence.min > 6) v.sequence.min = 0; } }
	v.flags = (cyaml_flag)f;
	Wrap w = wrapSchema(c, S, v); u32 cfg = genCfg(c, 15); Rig r(cfg); k.evals = 0; int nulls = 0, not_ = 0; string shown;
	for (size_t i = 0; i < sizeof texts / sizeof *texts; i++) {
		string t2 = texts[i]; string text; int how = c.below(4);
		if (how == 0) text = (w.pos == 0 ? "" : w.pos == 1 ? "v: " : w.pos == 4 ? "- " : "v: [ ") + (t2 == "" && w.pos >= 2 && w.pos != 4 ? "''" : t2.find('\n') != string::npos || t2.find_first_of("\"[{") != string::npos ? "'x'" : t2) + (w.pos == 2 || w.pos == 3 ? " ]" : "") + "\n";
		else { Writer wr; wr.kind = how == 1 ? Writer::OWN : Writer::EMITTER; wr.encodings = false; wr.tags = how == 3; try { text = writeNode(c, wrapNode(w, Node::S(t2)), wr); } catch (Discard &) { continue; } }
		k.desc = caseText(S, cfg, text);
		vector<Ev> evs; string scalar; bool found = false; if (parseEvents(text, evs)) for (auto &e : evs) if (e.type == YAML_SCALAR_EVENT && e.text != "v") { scalar = e.text; found = true; }
		Model m = modelText(S, cfg, text); if (m.ambiguous) continue;
		LoadRes res; checkAgainst(r, S, text, m, &res, false); k.evals++;
		bool want = found && (scalar.empty() ? kind == 1 || kind == 2 : kind == 2 && (scalar == "~" || scalar == "null" || scalar == "Null" || scalar == "NULL"));
		if (w.pos == 0 && !found) want = kind == 1 || kind == 2; // no document at all
		if (res.err == CYAML_OK) {
			if (isPtr(*w.s) && (found || w.pos == 0)) {
				// read the slot directly
				u8 *p = (u8 *)res.data; bool isnull;
				if (w.pos == 0) isnull = !p; else {
					if (w.pos != 4) p += S.top.mapping.fields[1].data_offset;
					if (w.pos == 2) { u8 *q; memcpy(&q, p, 8); p = q; }
					u8 *q; memcpy(&q, p, 8); isnull = isPtr(*w.s) && !q; }
				if (want) CHECK(isnull, "%s should load as NULL", quoted(scalar).c_str());
				else if (found) CHECK(!isnull || !isPtr(*w.s), "%s should not load as NULL", quoted(scalar).c_str());
			}
			size_t live = r.ta.live.size(); if (want) CHECK(live == (w.pos == 0 ? 0u : w.pos == 1 || w.pos == 3 || w.pos == 4 ? 1u : 2u), "a NULL value was given an allocation (%zu live)", live);
			doFree(r, S, res.data, res.count);
		} else CHECK(!want, "%s refused (%s) where it means NULL", quoted(scalar).c_str(), errName(res.err).c_str());
		(want ? nulls : not_)++; k.label(want ? "null" : res.err ? "refused" : "value");
	}
	k.desc = "schema: " + showSchema(S, S.top) + "\nconfig: " + cfgText(cfg) + sfmt("\n%d texts read as NULL, %d not", nulls, not_);
	k.nontrivial = not_ > 0 && (nulls > 0 || kind == 0 || kind == 3); k.label(sfmt("type:%d kind:%d", t, kind)); k.label(sfmt("position:%d", w.pos));
}
static void roundTrip(Case &k, GenOpt o) {
	Choices &c = k.c; o.roundTrip = true; Schema S; genSchema(c, S, o);
	u32 cfg = genCfg(c, 20); Expr e; e.cfgFlags = cfg; Writer w; w.encodings = false;
	Doc d = genDoc(c, S, o, e, w); k.desc = caseText(S, cfg, d.text);
	Model m = modelText(S, cfg, d.text); if (m.ambiguous || m.err) throw Discard{};
	Rig r(cfg), r2(cfg); LoadRes res; checkAgainst(r, S, d.text, m, &res, false);
	MatchCtx mc; mc.ta = &r.ta; CHECK(matchTop(S.top, res.data, d.v, mc, true), "loaded data differs from the value: %s", mc.err.c_str());
	k.label("nulls", m.nulls); k.nontrivial = m.nulls > 0;
	CopiedInfo ci = checkCopy(r2, S, d.v, res.data, isSeq(S.top) ? (S.top.type == CYAML_SEQUENCE ? res.count : S.top.sequence.max) : 0); k.evals++;
	if (ci.res.err == CYAML_OK) { k.label("copied"); doFree(r2, S, ci.res.data, res.count); } else k.label("copy:" + errName(ci.res.err));
	if (okToSave(S, d.v)) {
		SavedInfo si = checkSave(r, S, d.v, res.data, res.count); k.evals++;
		k.label("save:" + errName(si.res.err));
	}
	doFree(r, S, res.data, res.count);
}
PROP(C07, trees, 24000, 1000000) { GenOpt o; o.depth = 2 + k.c.below(4); o.ptrPct = 80; o.nullPct = 80; o.optPct = 30; roundTrip(k, o); }
PROP(C07, sequences, 16000, 800000) { GenOpt o; o.depth = 4; o.ptrPct = 90; o.nullPct = 85; o.maxEntries = 14; o.maxFields = 3; o.types = ~(1u << CYAML_IGNORE); if (k.c.p(50)) o.topTypes = 1 << CYAML_SEQUENCE | 1 << CYAML_SEQUENCE_FIXED; roundTrip(k, o); }
// NULL in any pointer of data built by hand
PROP(C07, planted, 60000, 2500000) {
	Choices &c = k.c; GenOpt o; o.depth = 1 + c.below(4); o.ptrPct = 75; o.nullPct = 50; o.optPct = 35; o.maxFields = 4; o.roundTrip = true;
	Schema S; genSchema(c, S, o); u32 cfg = genCfg(c, 20);
	Val v = genVal(c, S, S.top, o); int n = plantNulls(c, S.top, v, 3 + c.below(30));
	Arena a; unsigned cnt = 0; void *p = buildTop(S, v, a.alloc(), &cnt); a.snapshot();
	k.desc = "schema: " + showSchema(S, S.top) + "\nconfig: " + cfgText(cfg) + "\nvalue: " + showVal(S.top, v) + "\n";
	Rig r(cfg); k.nontrivial = n > 0;
	SavedInfo si = checkSave(r, S, v, p, cnt); k.label("save:" + errName(si.res.err));
	Rig r2(cfg); unsigned cc = S.top.type == CYAML_SEQUENCE_FIXED ? S.top.sequence.max : cnt;
	CopiedInfo ci = checkCopy(r2, S, v, p, cc); k.evals++; k.label("copy:" + errName(ci.res.err));
	if (ci.res.err == CYAML_OK) doFree(r2, S, ci.res.data, cc);
	CHECK(a.same(), "saving or copying changed the data");
}
PROP(C07, long, 60, 3000) { GenOpt o; o.ptrPct = 85; o.nullPct = 85; o.longMax = 80000; roundTrip(k, o); }
