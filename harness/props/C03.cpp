#include "../gen.h"

static void batch(Case &k, u32 types, int n) {
	Choices &c = k.c;
	Schema S; GenOpt o; o.rangePct = 65; o.strictPct = 50; o.nullPct = 15; o.types = types; o.casePct = 10; o.oddSizePct = 35; o.roundTrip = false;
	vector<int> t; for (int i = 0; i < 12; i++) if (types >> i & 1) t.push_back(i);
	cyaml_schema_value_t v; genValue(c, S, v, t[c.below(t.size())], o, 0, false);
	Wrap w = wrapSchema(c, S, v);
	u32 cfg = c.p(10) ? CYAML_CFG_CASE_INSENSITIVE : 0;
	Rig r(cfg);
	string shown; int ok = 0, refused = 0; k.evals = 0;
	for (int i = 0; i < n; i++) {
		string t = c.p(12) && v.type != CYAML_STRING ? ({ GenOpt g; Expr e; e.cfgFlags = cfg; Val x = genVal(c, S, *w.s, g, 0); express(c, S, *w.s, x, e).text; }) : scalarText(c, v);
		Writer wr; wr.kind = Writer::EMITTER; wr.encodings = false; wr.tags = false;
		string text;
		try { text = writeNode(c, wrapNode(w, Node::S(t)), wr); } catch (Discard &) { continue; }
		Model m = modelText(S, cfg, text);
		string line = quoted(t, 60) + (m.ambiguous ? " (left open)" : m.err ? " refused " + errName(m.err) : " accepted");
		k.desc = caseText(S, cfg, text);
		checkAgainst(r, S, text, m);
		k.evals++; if (m.ambiguous) { k.label("left-open"); continue; }
		(m.err ? refused : ok)++;
		k.label("outcome:" + errName(m.err));
		if (shown.size() < 900) shown += "  " + line + "\n";
	}
	k.desc = "schema: " + showSchema(S, S.top) + "\nconfig: " + cfgText(cfg) + "\ntexts:\n" + shown;
	k.nontrivial = ok && refused;
	k.label(sfmt("type:%d", (int)v.type)); k.label(sfmt("size:%u", v.type == CYAML_STRING ? 0 : v.data_size)); k.label(sfmt("position:%d", w.pos));
}
PROP(C03, integers, 17000, 1200000) { batch(k, 1 << CYAML_INT | 1 << CYAML_UINT, 40); }
PROP(C03, floats, 7000, 500000) { batch(k, 1 << CYAML_FLOAT, 40); }
PROP(C03, names, 6000, 400000) { batch(k, 1 << CYAML_BOOL | 1 << CYAML_ENUM, 30); }
PROP(C03, strings, 4000, 200000) { batch(k, 1 << CYAML_STRING, 20); }
// every value next to every limit of every integer width, by enumeration
PROP(C03, edges, 1600, 32000) {
	Choices &c = k.c; Schema S; cyaml_schema_value_t v; memset(&v, 0, sizeof v);
	bool sg = c.p(50); u32 size = 1 + c.below(8);
	v.type = sg ? CYAML_INT : CYAML_UINT; v.data_size = size; if (c.p(40)) v.flags = CYAML_FLAG_POINTER;
	typedef __int128 I; I lo = sg ? -((I)1 << (size * 8 - 1)) : 0, hi = sg ? ((I)1 << (size * 8 - 1)) - 1 : ((I)1 << (size * 8)) - 1;
	int lim = c.below(4); I mn = lo, mx = hi;
	if (lim) {
		I a = lo + (I)(c.below(0) % (u64)((hi - lo) ? (unsigned __int128)(hi - lo) : 1)), b = lo + (I)(c.below(0) % (u64)(hi - lo));
		if (a > b) std::swap(a, b);
		if (lim == 2) { mn = lo; mx = b; } else if (lim == 3) { mn = a; mx = hi; } else { mn = a; mx = b; }
		if (c.p(25)) mx = mn;
		if (c.p(20)) mx = 0; 
		if (mx < mn) mn = mx;
		if (sg) { v.integer.min = (i64)mn; v.integer.max = (i64)mx; } else { v.unsigned_integer.min = (u64)mn; v.unsigned_integer.max = (u64)mx; }
		if (mn == 0 && mx == 0) { mn = lo; mx = hi; }
	}
	Wrap w = wrapSchema(c, S, v); Rig r(0);
	k.evals = 0; int ok = 0, no = 0;
	I base[] = {lo, hi, mn, mx, 0, lo * 2, hi * 2 + 1};
	auto dec = [](I x) { if (!x) return string("0"); bool n = x < 0; unsigned __int128 u = n ? -(unsigned __int128)x : x; string s; while (u) { s += (char)('0' + (int)(u % 10)); u /= 10; } if (n) s += '-'; return string(s.rbegin(), s.rend()); };
	for (I b : base) for (int d = -3; d <= 3; d++) {
		I x = b + d; string t = dec(x); if (x >= 0 && c.p(30)) { string h; I y = x; do { h += "0123456789abcdef"[(int)(y & 15)]; y >>= 4; } while (y); t = "0x" + string(h.rbegin(), h.rend()); }
		string text = w.pos == 0 ? t + "\n" : w.pos == 1 ? "v: " + t + "\n" : w.pos == 4 ? "- " + t + "\n" : "v: [ " + t + " ]\n";
		bool want = x >= mn && x <= mx;
		k.desc = caseText(S, 0, text) + "expected: " + (want ? "accepted" : "refused") + "\n";
		LoadRes res = doLoad(r, S, text); k.evals++;
		CHECK(res.err == (want ? CYAML_OK : CYAML_ERR_INVALID_VALUE), "load returned %s, expected %s for %s (limits %s..%s, size %u)", errName(res.err).c_str(), want ? "OK" : "INVALID_VALUE", t.c_str(), dec(mn).c_str(), dec(mx).c_str(), size);
		if (want) {
			MatchCtx mc; mc.ta = &r.ta; ok++;
			CHECK(matchTop(S.top, res.data, wrapVal(w, Val::Num((u64)x & maskOf(size))), mc, true), "%s", mc.err.c_str());
			doFree(r, S, res.data, res.count);
		} else no++;
	}
	k.nontrivial = ok && no; k.label(sfmt("edge-size:%u%s", size, sg ? "s" : "u"));
	k.desc = sfmt("%s of %u bytes, limits %s..%s, position %d: %d texts accepted, %d refused", sg ? "int" : "uint", size, dec(mn).c_str(), dec(mx).c_str(), w.pos, ok, no);
}
