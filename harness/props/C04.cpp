#include "../gen.h"

static u64 covered(const cyaml_schema_value_t &s) {
	if (s.type != CYAML_BITFIELD) return maskOf(s.data_size);
	u64 m = 0; for (u32 i = 0; i < s.bitfield.count; i++) m |= (~0ull >> (64 - s.bitfield.bitdefs[i].bits)) << s.bitfield.bitdefs[i].offset;
	return m;
}
static cyaml_schema_value_t word(Choices &c, Schema &S, GenOpt &o, bool bits) {
	o.oddSizePct = 35; o.strictPct = 40; o.casePct = 15; o.nullPct = 10; o.roundTrip = true; o.stylePct = 5;
	cyaml_schema_value_t v; genValue(c, S, v, bits ? CYAML_BITFIELD : CYAML_FLAGS, o, 0, false);
	return v;
}
static void one(Case &k, bool bits) {
	Choices &c = k.c; Schema S; GenOpt o; cyaml_schema_value_t v = word(c, S, o, bits);
	Wrap w = wrapSchema(c, S, v);
	u32 cfg = c.p(15) ? CYAML_CFG_CASE_INSENSITIVE : 0; if (c.p(20)) cfg |= CYAML_CFG_STYLE_FLOW; if (c.p(20)) cfg |= CYAML_CFG_STYLE_BLOCK;
	Rig r(cfg); k.evals = 0; string shown; bool nz = false;
	for (int i = 0; i < 8; i++) { // load
		GenOpt g; Val x = genVal(c, S, *w.s, g, 0); Expr e; e.cfgFlags = cfg;
		Node n = express(c, S, *w.s, x, e); Writer wr; wr.kind = Writer::EMITTER; wr.encodings = wr.tags = false;
		string text = writeNode(c, wrapNode(w, n), wr);
		k.desc = caseText(S, cfg, text);
		Model m = modelText(S, cfg, text);
		if (m.ambiguous || m.err) throw Discard{};
		LoadRes res; checkAgainst(r, S, text, m, &res, false);
		MatchCtx mc; mc.ta = &r.ta;
		CHECK(matchTop(S.top, res.data, wrapVal(w, x), mc, true), "loaded word differs from what was written: %s", mc.err.c_str());
		k.evals++;
		// and back
		Val full = wrapVal(w, x);
		if (okToSave(S, full)) {
			SavedInfo si = checkSave(r, S, full, res.data, res.count); k.evals++;
			if (si.res.err == CYAML_OK) {
				LoadRes again = doLoad(r, S, si.res.out); k.evals++;
				CHECK(again.err == CYAML_OK, "re-reading the saved text gives %s: %s", errName(again.err).c_str(), quoted(si.res.out).c_str());
				MatchCtx m2; CHECK(matchTop(S.top, again.data, full, m2, false), "re-read word differs: %s; saved text %s", m2.err.c_str(), quoted(si.res.out).c_str());
				cyaml_err_t fe = cyaml_free(&r.cfg, &S.top, (cyaml_data_t *)again.data, again.count); CHECK(fe == CYAML_OK, "free failed");
			}
		}
		doFree(r, S, res.data, res.count);
		if (x.k == Val::NUM && x.num) nz = true;
		if (shown.size() < 500) shown += "  " + showNode(n).substr(0, 200) + " = " + showVal(*w.s, x) + "\n";
	}
	for (int i = 0; i < 8; i++) { // save any word at all
		u64 raw = c.below(4) == 0 ? c.below(0) : c.below(3) == 0 ? 1ull << c.below(64) : c.p(50) ? ~(1ull << c.below(64)) : c.below(0) & c.below(0);
		if (!bits && w.s->enumeration.count && c.p(40)) raw ^= (u64)w.s->enumeration.strings[c.below(w.s->enumeration.count)].val;
		Val x = Val::Num(raw & maskOf(v.data_size)), full = wrapVal(w, x), want = wrapVal(w, Val::Num(x.num & covered(v)));
		Arena a; unsigned cnt = 0; void *p = buildTop(S, full, a.alloc(), &cnt);
		k.desc = "schema: " + showSchema(S, S.top) + "\nconfig: " + cfgText(cfg) + "\nvalue: " + showVal(S.top, full) + "\n";
		SavedInfo si = checkSave(r, S, full, p, cnt); k.evals++;
		k.label("save:" + errName(si.res.err));
		if (si.res.err) continue;
		LoadRes again = doLoad(r, S, si.res.out); k.evals++;
		CHECK(again.err == CYAML_OK, "re-reading the saved text gives %s: %s", errName(again.err).c_str(), quoted(si.res.out).c_str());
		MatchCtx m2; CHECK(matchTop(S.top, again.data, want, m2, false), "re-read word differs: %s; saved text %s", m2.err.c_str(), quoted(si.res.out).c_str());
		doFree(r, S, again.data, again.count);
	}
	k.nontrivial = nz;
	k.desc = "schema: " + showSchema(S, S.top) + "\nconfig: " + cfgText(cfg) + "\nwritten:\n" + shown;
	k.label(sfmt("size:%u", v.data_size)); k.label(sfmt("position:%d", w.pos)); k.label(bits ? "bitfield" : v.flags & CYAML_FLAG_STRICT ? "flags strict" : "flags");
}
PROP(C04, flags, 9000, 500000) { one(k, false); }
PROP(C04, bitfield, 9000, 500000) { one(k, true); }
PROP(C04, refused, 9000, 500000) {
	Choices &c = k.c; Schema S; GenOpt o; bool bits = c.p(50); cyaml_schema_value_t v = word(c, S, o, bits);
	Wrap w = wrapSchema(c, S, v); u32 cfg = c.p(15) ? CYAML_CFG_CASE_INSENSITIVE : 0;
	Rig r(cfg); k.evals = 0; int bad = 0; string shown;
	for (int i = 0; i < 12; i++) {
		Node n = looseNode(c, S, v, cfg, 0); Writer wr; wr.kind = Writer::EMITTER; wr.encodings = wr.tags = false;
		if (n.k != Node::SCALAR && c.p(25)) { size_t at = n.k == Node::MAP ? c.below(n.items.size() / 2 + 1) * 2 : c.below(n.items.size() + 1); if (n.k == Node::MAP) n.items.insert(n.items.begin() + at, junkNode(c, 2)); n.items.insert(n.items.begin() + at, c.p(60) ? Node::S(c.p(50) ? "nothing" : scalarText(c, v)) : junkNode(c, 2)); }
		string text; try { text = writeNode(c, wrapNode(w, n), wr); } catch (Discard &) { continue; }
		k.desc = caseText(S, cfg, text);
		Model m = modelText(S, cfg, text);
		checkAgainst(r, S, text, m); k.evals++;
		if (!m.ambiguous) { k.label("outcome:" + errName(m.err)); if (m.err) bad++; if (shown.size() < 500) shown += "  " + showNode(n).substr(0, 200) + " -> " + errName(m.err) + "\n"; }
	}
	k.nontrivial = bad > 0; k.desc = "schema: " + showSchema(S, S.top) + "\nconfig: " + cfgText(cfg) + "\ndocuments:\n" + shown;
}
// words among other members, any number of them
PROP(C04, together, 20000, 1000000) {
	Choices &c = k.c; GenOpt o; o.types = 1 << CYAML_FLAGS | 1 << CYAML_BITFIELD | 1 << CYAML_MAPPING | 1 << CYAML_SEQUENCE | 1 << CYAML_SEQUENCE_FIXED | 1 << CYAML_UINT; o.roundTrip = true; o.casePct = 10; o.recursePct = 0; o.depth = 2;
	Schema S; genSchema(c, S, o); u32 cfg = genCfg(c, 20);
	Expr e; e.cfgFlags = cfg; Writer wr; Doc d = genDoc(c, S, o, e, wr);
	k.desc = caseText(S, cfg, d.text);
	Model m = modelText(S, cfg, d.text); if (m.ambiguous || m.err) throw Discard{};
	Rig r(cfg); LoadRes res; checkAgainst(r, S, d.text, m, &res, false);
	MatchCtx mc; CHECK(matchTop(S.top, res.data, d.v, mc, false), "%s", mc.err.c_str());
	if (okToSave(S, d.v)) checkSave(r, S, d.v, res.data, res.count);
	doFree(r, S, res.data, res.count);
	k.nontrivial = m.maxDepth > 0 && nodeCount(d.n) > 4;
}
