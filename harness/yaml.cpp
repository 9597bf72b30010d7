#include "yaml.h"

// ------------------------------------------------------------ reading
bool parseEvents(const string &in, vector<Ev> &evs, size_t maxEvents) {
	Paused pz;
	yaml_parser_t p; if (!yaml_parser_initialize(&p)) return false;
	yaml_parser_set_input_string(&p, (const u8 *)in.data(), in.size());
	bool ok = true;
	for (;;) {
		yaml_event_t e;
		if (!yaml_parser_parse(&p, &e)) { ok = false; break; }
		Ev v; v.type = e.type; v.line = e.start_mark.line; v.col = e.start_mark.column;
		auto S = [](yaml_char_t *s) { return s ? string((char *)s) : string(); };
		switch (e.type) {
		case YAML_SCALAR_EVENT: v.text.assign((char *)e.data.scalar.value, e.data.scalar.length); v.anchor = S(e.data.scalar.anchor); v.tag = S(e.data.scalar.tag); v.style = e.data.scalar.style; break;
		case YAML_ALIAS_EVENT: v.text = S(e.data.alias.anchor); break;
		case YAML_SEQUENCE_START_EVENT: v.anchor = S(e.data.sequence_start.anchor); v.tag = S(e.data.sequence_start.tag); v.style = e.data.sequence_start.style; break;
		case YAML_MAPPING_START_EVENT: v.anchor = S(e.data.mapping_start.anchor); v.tag = S(e.data.mapping_start.tag); v.style = e.data.mapping_start.style; break;
		case YAML_DOCUMENT_START_EVENT: v.implicit = e.data.document_start.implicit; break;
		case YAML_DOCUMENT_END_EVENT: v.implicit = e.data.document_end.implicit; break;
		default: break;
		}
		yaml_event_delete(&e);
		evs.push_back(v);
		if (v.type == YAML_STREAM_END_EVENT || evs.size() >= maxEvents) break;
	}
	yaml_parser_delete(&p);
	return ok;
}
bool eventsToNode(const vector<Ev> &evs, size_t &i, Node &out) {
	if (i >= evs.size()) return false;
	const Ev &e = evs[i++];
	out.anchor = e.anchor; out.style = e.style; out.tag = e.tag;
	switch (e.type) {
	case YAML_SCALAR_EVENT: out.k = Node::SCALAR; out.text = e.text; return true;
	case YAML_ALIAS_EVENT: out.k = Node::ALIAS; out.text = e.text; return true;
	case YAML_SEQUENCE_START_EVENT: case YAML_MAPPING_START_EVENT: {
		int end = e.type == YAML_SEQUENCE_START_EVENT ? YAML_SEQUENCE_END_EVENT : YAML_MAPPING_END_EVENT;
		out.k = e.type == YAML_SEQUENCE_START_EVENT ? Node::SEQ : Node::MAP;
		while (i < evs.size() && evs[i].type != end) { out.items.emplace_back(); if (!eventsToNode(evs, i, out.items.back())) return false; }
		if (i >= evs.size()) return false;
		i++; return true; }
	default: return false;
	}
}
bool sameNode(const Node &a, const Node &b) {
	if (a.k != b.k || a.text != b.text || a.anchor != b.anchor || a.items.size() != b.items.size()) return false;
	for (size_t i = 0; i < a.items.size(); i++) if (!sameNode(a.items[i], b.items[i])) return false;
	return true;
}
bool parseDoc(const string &t, Node &out, int *ndocs) {
	vector<Ev> evs; if (!parseEvents(t, evs)) return false;
	int docs = 0; size_t at = 0;
	for (size_t i = 0; i < evs.size(); i++) if (evs[i].type == YAML_DOCUMENT_START_EVENT) { if (!docs) at = i + 1; docs++; }
	if (ndocs) *ndocs = docs;
	if (docs < 1 || (!ndocs && docs != 1)) return false;
	out = Node();
	return eventsToNode(evs, at, out);
}

// ------------------------------------------------------------ emitter
static int wr(void *x, unsigned char *b, size_t n) { ((string *)x)->append((char *)b, n); return 1; }
static bool emitRec(yaml_emitter_t *em, Choices &c, const Node &n, bool safe, bool tags, bool key) {
	yaml_event_t e;
	auto A = [&]() { return n.anchor.empty() ? nullptr : (yaml_char_t *)n.anchor.c_str(); };
	const char *tag = nullptr; bool imp = true;
	if (tags && !safe && c.p(6)) { static const char *t[] = {"!", "!foo", "tag:yaml.org,2002:str", "!e!x", "tag:example.com,2000:a"}; tag = t[c.below(5)]; if (!strcmp(tag, "!e!x")) tag = "tag:yaml.org,2002:int"; imp = false; }
	switch (n.k) {
	case Node::SCALAR: {
		int st = safe ? YAML_DOUBLE_QUOTED_SCALAR_STYLE : (int)c.below(6);
		if (!safe && n.style == -1) st = YAML_PLAIN_SCALAR_STYLE;
		if (!yaml_scalar_event_initialize(&e, A(), (yaml_char_t *)tag, (yaml_char_t *)n.text.data(), n.text.size(), imp, imp, (yaml_scalar_style_t)st)) return false;
		return yaml_emitter_emit(em, &e); }
	case Node::ALIAS:
		if (!yaml_alias_event_initialize(&e, (yaml_char_t *)n.text.c_str())) return false;
		return yaml_emitter_emit(em, &e);
	case Node::SEQ:
		if (!yaml_sequence_start_event_initialize(&e, A(), (yaml_char_t *)tag, imp, (yaml_sequence_style_t)c.below(3)) || !yaml_emitter_emit(em, &e)) return false;
		for (auto &k : n.items) if (!emitRec(em, c, k, safe, tags, false)) return false;
		yaml_sequence_end_event_initialize(&e); return yaml_emitter_emit(em, &e);
	case Node::MAP:
		if (!yaml_mapping_start_event_initialize(&e, A(), (yaml_char_t *)tag, imp, (yaml_mapping_style_t)c.below(3)) || !yaml_emitter_emit(em, &e)) return false;
		for (size_t i = 0; i < n.items.size(); i++) if (!emitRec(em, c, n.items[i], safe, tags, i % 2 == 0)) return false;
		yaml_mapping_end_event_initialize(&e); return yaml_emitter_emit(em, &e);
	}
	return false;
}
string emitNode(Choices &c, const Node &n, bool safe, bool directives, bool tags) {
	Paused pz;
	string out; yaml_emitter_t em; yaml_event_t e;
	yaml_emitter_initialize(&em);
	yaml_emitter_set_output(&em, wr, &out);
	if (!safe) {
		if (c.p(10)) yaml_emitter_set_canonical(&em, 1);
		yaml_emitter_set_indent(&em, 2 + (int)c.below(8));
		static const int w[] = {-1, 80, 20, 5, 200}; yaml_emitter_set_width(&em, w[c.below(5)]);
		yaml_emitter_set_unicode(&em, c.below(2));
		static const yaml_break_t b[] = {YAML_LN_BREAK, YAML_CRLN_BREAK, YAML_CR_BREAK}; yaml_emitter_set_break(&em, b[c.below(3)]);
	} else yaml_emitter_set_width(&em, -1);
	bool ok = true;
	yaml_stream_start_event_initialize(&e, YAML_UTF8_ENCODING); ok = ok && yaml_emitter_emit(&em, &e);
	bool expl = !safe && directives && c.p(30);
	yaml_version_directive_t vd = {1, 1};
	bool ver = expl && c.p(30);
	if (ok) { yaml_document_start_event_initialize(&e, ver ? &vd : nullptr, nullptr, nullptr, !expl); ok = yaml_emitter_emit(&em, &e); }
	ok = ok && emitRec(&em, c, n, safe, tags, false);
	bool expe = !safe && directives && c.p(20);
	if (ok) { yaml_document_end_event_initialize(&e, !expe); ok = yaml_emitter_emit(&em, &e); }
	if (ok) { yaml_stream_end_event_initialize(&e); ok = yaml_emitter_emit(&em, &e); }
	yaml_emitter_delete(&em);
	return ok ? out : string();
}

// ------------------------------------------------------------ own writer
static bool plainSafe(const string &s) {
	if (s.empty() || s.size() > 60) return false;
	for (char ch : s) if (!(isalnum((unsigned char)ch) || ch == '_' || ch == '.' || ch == '/' || ch == '+' || ch == '-')) return false;
	return isalnum((unsigned char)s[0]) || ((s[0] == '-' || s[0] == '+' || s[0] == '.') && s.size() > 1 && isalnum((unsigned char)s[1]));
}
static string dq(Choices &c, const string &s) {
	string o = "\""; size_t i = 0;
	while (i < s.size()) {
		unsigned char b = s[i]; size_t n = b < 0x80 ? 1 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : 4; if (i + n > s.size()) n = 1;
		unsigned cp = n == 1 ? b : b & ((1 << (7 - n)) - 1); for (size_t j = 1; j < n; j++) cp = cp << 6 | (s[i + j] & 63);
		i += n;
		bool need = cp < 0x20 || cp == 0x22 || cp == 0x5c || cp == 0x7f || (cp >= 0x80 && cp < 0xa0) || cp == 0x2028 || cp == 0x2029 || cp == 0xfeff || cp == 0xfffe || cp == 0xffff;
		if (cp == ' ' && (i == 1 || i == s.size())) need = c.p(30);
		if (need || c.p(6)) {
			if (cp == '\n' && c.p(50)) o += "\\n"; else if (cp == '\t' && c.p(50)) o += "\\t"; else if (cp == 0) o += "\\0";
			else if (cp == '"' || cp == '\\') o += string("\\") + (char)cp;
			else if (cp < 0x100 && c.p(60)) o += sfmt("\\x%02X", cp);
			else if (cp < 0x10000 && c.p(70)) o += sfmt("\\u%04x", cp);
			else o += sfmt("\\U%08X", cp);
		} else o += s.substr(i - n, n);
	}
	return o + "\"";
}
static bool sqOk(const string &s) { for (unsigned char ch : s) if (ch < 0x20 || ch >= 0x7f) return false; return s.empty() || (s[0] != ' ' && s.back() != ' '); }
static string sq(const string &s) { string o = "'"; for (char ch : s) { o += ch; if (ch == '\'') o += ch; } return o + "'"; }
struct Own {
	Choices &c; bool com;
	string ws() { // optional white space within flow
		switch (c.below(8)) { case 0: return "  "; case 1: return "\n " + string(c.below(9), ' '); case 2: return com ? " # c: [ } , \n " + string(c.below(12), ' ') : " "; case 3: case 4: return ""; default: return " "; }
	}
	string props(const Node &n) { return n.anchor.empty() ? "" : "&" + n.anchor + " "; }
	string scalar(const Node &n) {
		if (n.k == Node::ALIAS) return "*" + n.text;
		const string &s = n.text;
		if (plainSafe(s) && c.p(60)) return props(n) + s;
		if (sqOk(s) && c.p(50)) return props(n) + sq(s);
		return props(n) + dq(c, s);
	}
	string flow(const Node &n) {
		if (n.k == Node::SCALAR || n.k == Node::ALIAS) return scalar(n);
		string o = props(n);
		if (n.k == Node::SEQ) {
			o += "[" + ws();
			for (size_t i = 0; i < n.items.size(); i++) { o += flow(n.items[i]) + ws() + (n.items[i].k == Node::ALIAS ? " " : ""); if (i + 1 < n.items.size() || c.p(10)) o += "," + ws(); }
			return o + "]";
		}
		o += "{" + ws();
		for (size_t i = 0; i + 1 < n.items.size(); i += 2) {
			bool cx = n.items[i].k == Node::SEQ || n.items[i].k == Node::MAP || n.items[i].text.size() > 100 || c.p(8);
			o += (cx ? "? " : "") + flow(n.items[i]) + (cx ? ws() : "") + " : " + (c.p(20) ? ws() : "") + flow(n.items[i + 1]) + ws() + (n.items[i + 1].k == Node::ALIAS ? " " : "");
			if (i + 2 < n.items.size() || c.p(10)) o += "," + ws();
		}
		return o + "}";
	}
	string eol() { string o; if (com && c.p(12)) o += " # x: y - [ comment"; o += "\n"; if (c.p(6)) o += "\n"; if (com && c.p(6)) o += string(c.below(10), ' ') + "# comment\n"; return o; }
	// appended after "key:" or "-"; ind = indentation of the parent
	string child(const Node &n, int ind, bool inMap) {
		bool cont = n.k == Node::SEQ || n.k == Node::MAP;
		if (!cont) {
			if (n.text.empty() && n.k == Node::SCALAR && n.anchor.empty() && c.p(50)) return eol();
			if (n.k == Node::SCALAR && litOk(n.text) && c.p(40)) return lit(n, ind);
			return " " + scalar(n) + eol();
		}
		if (n.items.empty() || c.p(25)) return " " + flow(n) + eol();
		string o = n.anchor.empty() ? "" : " &" + n.anchor;
		int step = inMap && n.k == Node::SEQ && c.p(30) ? 0 : 1 + (int)c.below(5);
		return o + eol() + block(n, ind + step);
	}
	static bool litOk(const string &s) {
		if (s.empty() || s[0] == ' ' || s[0] == '\n' || s[0] == '\t' || s.size() > 300) return false;
		for (unsigned char ch : s) if ((ch < 0x20 && ch != '\n') || ch >= 0x7f) return false;
		return true;
	}
	string lit(const Node &n, int ind) {
		string s = n.text, o = " " + props(n) + "|";
		size_t nl = 0; while (nl < s.size() && s[s.size() - 1 - nl] == '\n') nl++;
		o += nl == 0 ? "-" : nl == 1 ? "" : "+"; o += "\n";
		string in((ind < 0 ? 0 : ind) + 1 + c.below(3), ' ');
		size_t i = 0;
		while (i < s.size()) { size_t e = s.find('\n', i); if (e == string::npos) e = s.size(); if (e > i) o += in + s.substr(i, e - i); o += "\n"; i = e + 1; }
		return o;
	}
	string block(const Node &n, int ind) {
		string o, in(ind, ' ');
		if (n.k == Node::SEQ) {
			for (auto &x : n.items) {
				o += in + "-";
				if ((x.k == Node::SEQ || x.k == Node::MAP) && x.anchor.empty() && !x.items.empty() && c.p(40)) { // compact
					int sp = 1 + (int)c.below(3);
					string b = block(x, ind + 1 + sp);
					o += b.substr(ind); // strip indentation up to after '-'
				} else o += child(x, ind, false);
			}
			return o;
		}
		for (size_t i = 0; i + 1 < n.items.size(); i += 2) {
			const Node &k = n.items[i];
			if (k.k == Node::SEQ || k.k == Node::MAP) { o += in + "? " + flow(k) + "\n" + in + ":" + child(n.items[i + 1], ind, true); continue; }
			if (k.text.size() > 100 || c.p(6)) o += in + "? " + scalar(k) + eol() + in + ":" + child(n.items[i + 1], ind, false);
			else o += in + scalar(k) + (k.k == Node::ALIAS || c.p(10) ? " " : "") + ":" + child(n.items[i + 1], ind, true);
		}
		return o;
	}
	string doc(const Node &n, bool dir) {
		string o; bool mark = false;
		if (com && c.p(15)) o += "# leading comment\n\n";
		if (dir && c.p(10)) { o += "%YAML 1.1\n"; mark = true; }
		if (dir && c.p(6)) { o += "%TAG !e! tag:example.com,2000:\n"; mark = true; }
		if (mark || (dir && c.p(20))) o += "---" + eol();
		if (n.k == Node::SCALAR || n.k == Node::ALIAS || n.items.empty() || c.p(30)) o += flow(n) + eol();
		else if (!n.anchor.empty()) { if (o.empty() || o.find("---") == string::npos) o += "---"; else o.erase(o.find_last_not_of("\n \t") + 1); o = o.substr(0, o.rfind("---")) + "--- &" + n.anchor + "\n" + block(n, c.below(3)); }
		else o += block(n, c.below(3));
		if (dir && c.p(10)) o += "...\n";
		return o;
	}
};
string toUtf16(const string &s, bool be, bool bom) {
	string o; auto put = [&](unsigned u) { char hi = u >> 8, lo = u & 255; if (be) { o += hi; o += lo; } else { o += lo; o += hi; } };
	if (bom) put(0xfeff);
	size_t i = 0;
	while (i < s.size()) {
		unsigned char b = s[i]; size_t n = b < 0x80 ? 1 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : 4; if (i + n > s.size()) break;
		unsigned cp = n == 1 ? b : b & ((1 << (7 - n)) - 1); for (size_t j = 1; j < n; j++) cp = cp << 6 | (s[i + j] & 63);
		i += n;
		if (cp >= 0x10000) { cp -= 0x10000; put(0xd800 | cp >> 10); put(0xdc00 | (cp & 0x3ff)); } else put(cp);
	}
	return o;
}
// one line, few choices: for very large or deep documents
static void oneLine(Choices &c, const Node &n, string &o) {
	if (n.k == Node::ALIAS) { o += "*" + n.text + " "; return; }
	if (!n.anchor.empty()) o += "&" + n.anchor + " ";
	if (n.k == Node::SCALAR) { if (plainSafe(n.text)) o += n.text; else o += dq(c, n.text); return; }
	bool map = n.k == Node::MAP; o += map ? "{" : "[";
	for (size_t i = 0; i < n.items.size(); i++) { bool key = map && i % 2 == 0; if (key && (n.items[i].text.size() > 100 || n.items[i].k == Node::SEQ || n.items[i].k == Node::MAP)) o += "? "; oneLine(c, n.items[i], o); o += key ? " : " : i + 1 < n.items.size() ? "," : ""; }
	o += map ? "}" : "]";
}
string writeNode(Choices &c, const Node &n, const Writer &w, string *how) {
	string t; Node back; const char *h = "emitter";
	for (int tries = 0; tries < 3; tries++) {
		int kind = w.kind == Writer::ANY ? (c.p(50) ? Writer::OWN : Writer::EMITTER) : w.kind;
		if (tries == 2) kind = Writer::PLAIN;
		if (kind == Writer::FLOW) { h = "one line"; oneLine(c, n, t); t += "\n"; }
		else if (kind == Writer::OWN) { h = "own"; Own o{c, w.comments}; t = o.doc(n, w.directives); }
		else { h = kind == Writer::PLAIN ? "plain" : "emitter"; t = emitNode(c, n, kind == Writer::PLAIN, w.directives, w.tags); }
		if (!t.empty() && parseDoc(t, back) && sameNode(n, back)) break;
		t.clear();
	}
	if (t.empty()) throw Discard{};
	if (w.tailPct && c.p(w.tailPct)) { // whatever follows the first document, well-formed or not
		static const char *tail[] = {"\n---\nfoo: bar\n", "\n---\n- x\n- [1, 2]\n", "\n...\n---\n", "\n---\n*undef\n", "\n---\n{a: b}\n---\nc\n", "\n---\n]\n", "\n---\n\"\\q\"\n", "\n---\n{a: [b\n", "\n---\nx\n%BAD\n\t- x: *y\n", "\n---\n- 'open", "\n---\n!u!t x\n", "\n---\n- &a &b c\n", "\n---\na\n---\n- }\n"};
		string t2 = t + tail[c.below(sizeof tail / sizeof *tail)]; vector<Ev> evs; parseEvents(t2, evs); int nd = 0; size_t at = 0;
		for (size_t i = 0; i < evs.size(); i++) if (evs[i].type == YAML_DOCUMENT_START_EVENT && !nd++) at = i + 1;
		back = Node(); if (nd > 1 && eventsToNode(evs, at, back) && sameNode(n, back)) { t = t2; h = "multi-doc"; }
	}
	if (w.encodings && c.p(14)) {
		string t2; int e = c.below(3);
		if (e == 0) t2 = "\xef\xbb\xbf" + t; else t2 = toUtf16(t, e == 1, true);
		int nd; if (parseDoc(t2, back, &nd) && sameNode(n, back)) { t = t2; h = e ? "utf16" : "utf8-bom"; }
	}
	if (how) *how = h;
	return t;
}
