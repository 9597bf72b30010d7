#include "model.h"
#include <cmath>
#include <cfloat>
#include <cerrno>
#include <locale.h>

struct Err { cyaml_err_t e; string why; };
struct Item { Ev ev; cyaml_err_t err = CYAML_OK; };

struct M {
	const Schema &S; u32 cfg; Model r;
	vector<Item> flat; size_t at = 0;
	u64 depth = 0;
	M(const Schema &s, u32 c) : S(s), cfg(c) {}
	[[noreturn]] void die(cyaml_err_t e, const string &w) { throw Err{e, w}; }

	// replace aliases by copies of what they name
	void flatten(const vector<Ev> &evs, bool parseOk) {
		struct P { string name; size_t start; size_t depth; };
		vector<P> prog; std::map<string, std::pair<size_t, size_t>> done; size_t depth = 0; int docs = 0;
		for (auto &e : evs) {
			if (e.type == YAML_DOCUMENT_START_EVENT) docs++;
			if (docs > 1 && e.type != YAML_DOCUMENT_START_EVENT) { continue; } // never reached
			if (e.type == YAML_ALIAS_EVENT) {
				r.aliasCount++;
				if (cfg & CYAML_CFG_NO_ALIAS) { flat.push_back({e, CYAML_ERR_ALIAS}); return; }
				for (auto &p : prog) if (p.name == e.text && done.count(e.text)) r.ambiguous = true;
				auto i = done.find(e.text);
				if (i == done.end()) { flat.push_back({e, CYAML_ERR_INVALID_ALIAS}); return; }
				r.aliased = true;
				size_t a = i->second.first, b = i->second.second;
				if (flat.size() + (b - a) > 60000 + evs.size()) { r.ambiguous = r.tooBig = true; flat.push_back({e, CYAML_ERR_INVALID_ALIAS}); return; }
				for (size_t k = a; k <= b; k++) { Item it = flat[k]; flat.push_back(it); }
				continue;
			}
			flat.push_back({e, CYAML_OK});
			size_t idx = flat.size() - 1;
			bool start = e.type == YAML_SEQUENCE_START_EVENT || e.type == YAML_MAPPING_START_EVENT;
			if (start) depth++;
			if (!e.anchor.empty() && (start || e.type == YAML_SCALAR_EVENT)) {
				for (auto &p : prog) if (p.name == e.anchor) r.ambiguous = true;
				if (start) prog.push_back({e.anchor, idx, depth}); else done[e.anchor] = {idx, idx};
			}
			if (e.type == YAML_SEQUENCE_END_EVENT || e.type == YAML_MAPPING_END_EVENT) {
				if (!prog.empty() && prog.back().depth == depth) { done[prog.back().name] = {prog.back().start, idx}; prog.pop_back(); }
				depth--;
			}
		}
		if (!parseOk) { Item it; it.err = CYAML_ERR_LIBYAML_PARSER; flat.push_back(it); }
	}
	const Ev &get() {
		if (at >= flat.size()) die(CYAML_ERR_INTERNAL_ERROR, "model ran out of events");
		Item &i = flat[at++];
		if (i.err) die(i.err, "event stream");
		return i.ev;
	}
	static std::pair<size_t, size_t> pos(const Ev &e) { return {e.line, e.col}; }
	void skip(const Ev &e) {
		if (e.type == YAML_SCALAR_EVENT) return;
		int d = 1;
		while (d) { const Ev &x = get(); if (x.type == YAML_SEQUENCE_START_EVENT || x.type == YAML_MAPPING_START_EVENT) d++; else if (x.type == YAML_SEQUENCE_END_EVENT || x.type == YAML_MAPPING_END_EVENT) d--; }
	}
	void inval(const string &w) { die(CYAML_ERR_INVALID_VALUE, w); }
	void call(const cyaml_schema_value_t &s, int kind, u64 num, const string &str, const Val &v, u64 hnum) {
		CbCall c; c.schema = &s; c.kind = kind; c.num = num; c.str = str; c.val = v;
		c.accepted = cbAccepts(S, s, kind, hnum, str);
		r.cbs.push_back(c);
		if (!c.accepted) inval("refused by validation callback");
	}
	void num(const string &t, bool sign, bool &neg, unsigned __int128 &mag) {
		bool amb = false;
		if (!parseIntText(t, neg, mag, &amb)) { if (amb) r.ambiguous = true; inval("not a number: " + t); }
		if (amb) r.ambiguous = true;
		if (!sign && t.find('-') != string::npos) inval("sign on unsigned: " + t);
		if (sign ? (neg ? mag > ((unsigned __int128)1 << 63) : mag >= ((unsigned __int128)1 << 63)) : mag >> 64) inval("number too big: " + t);
	}
	Val storeInt(const cyaml_schema_value_t &s, i64 v) {
		if (s.data_size == 0 || s.data_size > 8) die(CYAML_ERR_INVALID_DATA_SIZE, "data size");
		if (sext((u64)v, s.data_size) != v) inval("does not fit");
		if (s.type == CYAML_INT) {
			if ((s.integer.min || s.integer.max) && (v < s.integer.min || v > s.integer.max)) inval("out of schema range");
			if (s.integer.validation_cb) call(s, 0, (u64)v, "", Val(), (u64)v);
		} else if (s.enumeration.validation_cb) call(s, 0, (u64)v, "", Val(), (u64)v);
		return Val::Num((u64)v & maskOf(s.data_size));
	}
	Val storeUint(const cyaml_schema_value_t &s, u64 v) {
		if (s.data_size == 0 || s.data_size > 8) die(CYAML_ERR_INVALID_DATA_SIZE, "data size");
		if (v > maskOf(s.data_size)) inval("does not fit");
		if (s.type == CYAML_UINT) {
			if ((s.unsigned_integer.min || s.unsigned_integer.max) && (v < s.unsigned_integer.min || v > s.unsigned_integer.max)) inval("out of schema range");
			if (s.unsigned_integer.validation_cb) call(s, 1, v, "", Val(), v);
		} else if (s.type == CYAML_FLAGS) { if (s.enumeration.validation_cb) call(s, 0, v, "", Val(), v); }
		else if (s.bitfield.validation_cb) call(s, 1, v, "", Val(), v);
		return Val::Num(v);
	}
	bool eq(const cyaml_schema_value_t &s, const string &a, const char *b) { return strEq(s, cfg, a, b); }
	Val scalar(const cyaml_schema_value_t &s, const string &t) {
		bool neg; unsigned __int128 mag;
		r.scalars++;
		switch (s.type) {
		case CYAML_INT: num(t, true, neg, mag); return storeInt(s, neg ? (i64)(0 - (u64)mag) : (i64)(u64)mag);
		case CYAML_UINT: num(t, false, neg, mag); return storeUint(s, (u64)mag);
		case CYAML_BOOL: {
			string f = foldCase(t); bool b = !(f == "false" || f == "no" || f == "off" || f == "disable" || f == "0");
			if (s.data_size == 0 || s.data_size > 8) die(CYAML_ERR_INVALID_DATA_SIZE, "data size");
			return Val::Num(b); }
		case CYAML_ENUM:
			for (u32 i = 0; i < s.enumeration.count; i++) if (eq(s, t, s.enumeration.strings[i].str)) return storeInt(s, s.enumeration.strings[i].val);
			if (s.flags & CYAML_FLAG_STRICT) inval("not an enum name: " + t);
			try { num(t, true, neg, mag); return storeInt(s, neg ? (i64)(0 - (u64)mag) : (i64)(u64)mag); }
			catch (Err &) { inval("not an enum name or number: " + t); }
			break;
		case CYAML_FLOAT: {
			const char *p = t.c_str(); char *e; errno = 0; double d = strtod(p, &e); bool range = errno == ERANGE;
			if (e == p || *e) inval("not a float: " + t);
			bool strict = s.flags & CYAML_FLAG_STRICT;
			if (strict && range) inval("float range");
			if (strict && (!std::isfinite(d) || (d != 0 && std::fabs(d) < DBL_MIN))) r.ambiguous = true;
			u64 bits;
			if (s.data_size == 4) {
				if (strict && std::fabs((float)d) > FLT_MAX) inval("float overflow");
				if (strict && d != 0 && std::fabs((float)d) < FLT_MIN) inval("float underflow");
				float f = (float)d; double fd = f; memcpy(&bits, &fd, 8);
				if (s.floating_point.validation_cb) call(s, 2, bits, "", Val(), bits);
				u32 b4; memcpy(&b4, &f, 4); return Val::Num(b4);
			}
			if (s.data_size != 8) die(CYAML_ERR_INVALID_DATA_SIZE, "float size");
			memcpy(&bits, &d, 8);
			if (s.floating_point.validation_cb) call(s, 2, bits, "", Val(), bits);
			return Val::Num(bits); }
		case CYAML_STRING:
			if (s.string.min > s.string.max) die(CYAML_ERR_BAD_MIN_MAX_SCHEMA, "string limits");
			if (t.size() < s.string.min) die(CYAML_ERR_STRING_LENGTH_MIN, "short string");
			if (t.size() > s.string.max) die(CYAML_ERR_STRING_LENGTH_MAX, "long string");
			if (s.string.validation_cb) call(s, 3, 0, t, Val(), 0);
			return Val::Str(t);
		default: break;
		}
		die(CYAML_ERR_INTERNAL_ERROR, "scalar type");
	}
	Val flags(const cyaml_schema_value_t &s) {
		if (s.data_size == 0 || s.data_size > 8) die(CYAML_ERR_INVALID_DATA_SIZE, "data size");
		u64 v = 0;
		for (;;) {
			const Ev &e = get();
			if (e.type == YAML_SEQUENCE_END_EVENT) break;
			if (e.type != YAML_SCALAR_EVENT) die(CYAML_ERR_UNEXPECTED_EVENT, "flags: not a scalar");
			if (e.text.find('\0') != string::npos) inval("NUL");
			bool hit = false;
			for (u32 i = 0; i < s.enumeration.count && !hit; i++) if (eq(s, e.text, s.enumeration.strings[i].str)) { v |= (u64)s.enumeration.strings[i].val; hit = true; }
			if (hit) continue;
			if (s.flags & CYAML_FLAG_STRICT) inval("unknown flag " + e.text);
			bool neg; unsigned __int128 m; num(e.text, false, neg, m);
			if ((u64)m > maskOf(s.data_size)) inval("flag number too big");
			v |= (u64)m;
		}
		return storeUint(s, v);
	}
	Val bitfield(const cyaml_schema_value_t &s) {
		if (s.data_size > 8) die(CYAML_ERR_INVALID_DATA_SIZE, "data size");
		u64 v = 0;
		for (;;) {
			Ev e = get();
			if (e.type == YAML_MAPPING_END_EVENT) break;
			if (e.type != YAML_SCALAR_EVENT) die(CYAML_ERR_UNEXPECTED_EVENT, "bitfield: not a scalar");
			if (e.text.find('\0') != string::npos) inval("NUL");
			const cyaml_bitdef_t *b = nullptr;
			for (u32 i = 0; i < s.bitfield.count; i++) {
				auto &d = s.bitfield.bitdefs[i];
				if (d.bits == 0 || (u64)d.bits + d.offset > (u64)s.data_size * 8) die(CYAML_ERR_BAD_BITVAL_IN_SCHEMA, "bitdef");
				if (eq(s, e.text, d.name)) { b = &d; break; }
			}
			if (!b) inval("unknown bits " + e.text);
			const Ev &x = get();
			if (x.type != YAML_SCALAR_EVENT) die(CYAML_ERR_UNEXPECTED_EVENT, "bitfield: value not a scalar");
			if (x.text.find('\0') != string::npos) inval("NUL");
			bool neg; unsigned __int128 m; num(x.text, false, neg, m);
			if ((u64)m > (~0ull >> (64 - b->bits))) inval("too big for bits");
			v |= (u64)m << b->offset;
		}
		return storeUint(s, v);
	}
	enum Ctx { ROOT, INMAP, INSEQ };
	Val value(const cyaml_schema_value_t &s, const Ev e, Ctx ctx, const cyaml_schema_field_t *field) {
		r.leaf = true;
		bool sc = e.type == YAML_SCALAR_EVENT;
		if (sc && s.type != CYAML_IGNORE && e.text.find('\0') != string::npos) inval("NUL");
		if (sc && isNullText(s, e.text)) { r.nulls++; return Val(); }
		if ((unsigned)s.type >= CYAML__TYPE_COUNT) die(CYAML_ERR_BAD_TYPE_IN_SCHEMA, "type");
		if (s.type == CYAML_IGNORE) { r.ignoredFields++; skip(e); return Val(); }
		int want = s.type == CYAML_FLAGS || isSeq(s) ? YAML_SEQUENCE_START_EVENT : s.type == CYAML_MAPPING || s.type == CYAML_BITFIELD ? YAML_MAPPING_START_EVENT : YAML_SCALAR_EVENT;
		if (e.type != want) inval("wrong kind of node");
		switch (s.type) {
		case CYAML_FLAGS: return flags(s);
		case CYAML_BITFIELD: return bitfield(s);
		case CYAML_MAPPING: return mapping(s, e);
		case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: return sequence(s, e, ctx, field);
		default: return scalar(s, e.text);
		}
	}
	Val mapping(const cyaml_schema_value_t &s, const Ev &start) {
		size_t n = 0; while (s.mapping.fields[n].key) n++;
		Val v; v.k = Val::MAP; v.kids.resize(n);
		vector<bool> seen(n);
		r.path.emplace_back(); size_t pi = r.path.size() - 1; r.path[pi].pos.push_back(pos(start));
		if (r.path.size() > r.maxDepth) r.maxDepth = r.path.size();
		for (;;) {
			r.leaf = false;
			Ev k = get();
			if (k.type == YAML_MAPPING_END_EVENT) break;
			if (k.type != YAML_SCALAR_EVENT) die(CYAML_ERR_INTERNAL_ERROR, "mapping key is not a scalar");
			size_t i = n;
			if (k.text.find('\0') == string::npos) for (i = 0; i < n; i++) if (eq(s, k.text, s.mapping.fields[i].key)) break;
			r.path[pi].inValue = false;
			if (i == n) {
				r.path[pi].name = ""; r.path[pi].pos = {pos(start), pos(k)};
				if (!(cfg & CYAML_CFG_IGNORE_UNKNOWN_KEYS)) die(CYAML_ERR_INVALID_KEY, "unknown key " + k.text);
				r.ignoredKeys++; r.ignoredNames.push_back({k.text.c_str(), k.text.c_str()});
				skip(Ev(get())); continue;
			}
			auto &f = s.mapping.fields[i];
			r.path[pi].name = f.key; r.path[pi].pos = {pos(start), pos(k)};
			if (f.value.type != CYAML_IGNORE && seen[i]) die(CYAML_ERR_UNEXPECTED_EVENT, string("repeated key ") + f.key);
			seen[i] = true;
			if (f.value.type == CYAML_IGNORE) r.ignoredNames.push_back({k.text, f.key});
			Ev ve = get();
			r.path[pi].pos.push_back(pos(ve));
			r.path[pi].inValue = true;
			v.kids[i] = value(f.value, ve, INMAP, &f);
			r.path[pi].inValue = false;
		}
		r.leaf = false;
		for (size_t i = 0; i < n; i++) if (!seen[i]) {
			auto &f = s.mapping.fields[i];
			if (!(f.value.flags & CYAML_FLAG_OPTIONAL)) die(CYAML_ERR_MAPPING_FIELD_MISSING, string("missing ") + f.key);
			if ((unsigned)f.value.type >= CYAML__TYPE_COUNT) die(CYAML_ERR_BAD_TYPE_IN_SCHEMA, "type");
			auto m = S.metaOf(&f.value); if (m && m->hasDefault) r.defaults++;
			if (m && m->hasDefault && f.value.type == CYAML_SEQUENCE) { // its count has to be written
				if (f.count_size == 0 || f.count_size > 8) die(CYAML_ERR_INVALID_DATA_SIZE, "count size of a default");
				if (f.count_size < 8 && (u64)m->def.kids.size() >> (f.count_size * 8)) die(CYAML_ERR_SEQUENCE_ENTRIES_MAX, "count of a default too big");
			}
			v.kids[i] = defaultVal(S, f.value);
		}
		if (s.mapping.validation_cb) call(s, 4, 0, "", v, mapKeyNum(s, v));
		r.path.pop_back();
		return v;
	}
	Val sequence(const cyaml_schema_value_t &s, const Ev &start, Ctx ctx, const cyaml_schema_field_t *field) {
		if (s.type == CYAML_SEQUENCE_FIXED) { if (s.sequence.min != s.sequence.max) die(CYAML_ERR_SEQUENCE_FIXED_COUNT, "fixed limits differ"); }
		else if (ctx == INSEQ) die(CYAML_ERR_SEQUENCE_IN_SEQUENCE, "sequence in sequence");
		u64 cs = ctx == ROOT ? 4 : field ? field->count_size : 0;
		Val v; v.k = Val::SEQ;
		r.path.emplace_back(); size_t pi = r.path.size() - 1; r.path[pi].seq = true; r.path[pi].pos.push_back(pos(start));
		if (r.path.size() > r.maxDepth) r.maxDepth = r.path.size();
		for (;;) {
			r.leaf = false;
			Ev e = get();
			if (e.type == YAML_SEQUENCE_END_EVENT) break;
			r.path[pi].pos = {pos(start), pos(e)};
			u64 n = v.kids.size() + 1;
			if (n > s.sequence.max) die(CYAML_ERR_SEQUENCE_ENTRIES_MAX, "too many entries");
			if (s.type == CYAML_SEQUENCE) {
				if (cs > 0 && cs < 8 && n >> (cs * 8)) die(CYAML_ERR_SEQUENCE_ENTRIES_MAX, "count too big");
				if (cs == 0 || cs > 8) die(CYAML_ERR_INVALID_DATA_SIZE, "count size");
			}
			r.path[pi].idx = n;
			v.kids.emplace_back();
			Val x = value(*s.sequence.entry, e, INSEQ, nullptr);
			v.kids.back() = x;
		}
		r.leaf = false;
		if (v.kids.size() < s.sequence.min) die(CYAML_ERR_SEQUENCE_ENTRIES_MIN, "too few entries");
		if (s.sequence.validation_cb) call(s, 5, v.kids.size(), "", v, v.kids.size());
		r.path.pop_back();
		if (ctx == ROOT) r.count = v.kids.size();
		return v;
	}
	void run() {
		const Ev &a = get(); (void)a; // stream start
		Ev d = get();
		if (d.type == YAML_STREAM_END_EVENT) {
			auto &s = S.top;
			if (nullable(s)) return;
			if (s.type == CYAML_MAPPING) { for (auto f = s.mapping.fields; f->key; f++) if (!(f->value.flags & CYAML_FLAG_OPTIONAL)) die(CYAML_ERR_MAPPING_FIELD_MISSING, "no document"); }
			else if (isSeq(s)) { if (s.sequence.min > 0) die(CYAML_ERR_SEQUENCE_ENTRIES_MIN, "no document"); r.val.k = Val::SEQ; }
			else if (s.type != CYAML_IGNORE) inval("no document");
			return;
		}
		r.val = value(S.top, Ev(get()), ROOT, nullptr);
		get(); // document end
		const Ev &n = get();
		r.secondDoc = n.type == YAML_DOCUMENT_START_EVENT;
	}
};
Model modelLoad(const Schema &S, u32 cfg, const vector<Ev> &evs, bool parseOk) {
	M m(S, cfg);
	m.flatten(evs, parseOk);
	try { m.run(); } catch (Err &e) { m.r.err = e.e; m.r.why = e.why; }
	return std::move(m.r);
}
Model modelText(const Schema &S, u32 cfg, const string &t) {
	vector<Ev> evs; bool ok = parseEvents(t, evs);
	return modelLoad(S, cfg, evs, ok);
}
bool parseIntText(const string &t, bool &neg, unsigned __int128 &mag, bool *amb) {
	size_t i = 0; neg = false; mag = 0;
	while (i < t.size() && strchr(" \t\n\v\f\r", t[i])) i++;
	if (i < t.size() && (t[i] == '+' || t[i] == '-')) neg = t[i++] == '-';
	int base = 10;
	auto dig = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; };
	if (i + 1 < t.size() && t[i] == '0' && (t[i + 1] == 'b' || t[i + 1] == 'B') && amb) *amb = true;
	if (i + 2 < t.size() && t[i] == '0' && (t[i + 1] == 'x' || t[i + 1] == 'X') && dig(t[i + 2]) < 16) { base = 16; i += 2; }
	else if (i < t.size() && t[i] == '0') base = 8;
	size_t st = i; bool huge = false;
	for (; i < t.size() && dig(t[i]) < base; i++) { mag = mag * base + dig(t[i]); if (mag >> 80) { huge = true; mag = (unsigned __int128)1 << 70; } }
	(void)huge;
	return i > st && i == t.size();
}
string errName(cyaml_err_t e) {
	static const char *n[] = {"OK", "OOM", "ALIAS", "FILE_OPEN", "INVALID_KEY", "INVALID_VALUE", "INVALID_ALIAS", "INTERNAL_ERROR", "UNEXPECTED_EVENT", "STRING_LENGTH_MIN", "STRING_LENGTH_MAX", "INVALID_DATA_SIZE", "TOP_LEVEL_NON_PTR", "BAD_TYPE_IN_SCHEMA", "BAD_MIN_MAX_SCHEMA", "BAD_PARAM_SEQ_COUNT", "BAD_PARAM_NULL_DATA", "BAD_BITVAL_IN_SCHEMA", "SEQUENCE_ENTRIES_MIN", "SEQUENCE_ENTRIES_MAX", "SEQUENCE_FIXED_COUNT", "SEQUENCE_IN_SEQUENCE", "MAPPING_FIELD_MISSING", "BAD_CONFIG_NULL_MEMFN", "BAD_PARAM_NULL_CONFIG", "BAD_PARAM_NULL_SCHEMA", "DATA_TARGET_NON_NULL", "LIBYAML_EMITTER_INIT", "LIBYAML_PARSER_INIT", "LIBYAML_EVENT_INIT", "LIBYAML_EMITTER", "LIBYAML_PARSER"};
	return (unsigned)e < sizeof n / sizeof *n ? n[e] : sfmt("error %d", (int)e);
}
string diffVal(const cyaml_schema_value_t &s, const Val &a, const Val &b, const string &path) {
	if (a == b) return "";
	if (a.k == b.k && a.k == Val::MAP && a.kids.size() == b.kids.size()) {
		size_t i = 0;
		for (auto f = s.mapping.fields; f->key; f++, i++) { string d = diffVal(f->value, a.kids[i], b.kids[i], path + "." + f->key); if (!d.empty()) return d; }
	}
	if (a.k == b.k && a.k == Val::SEQ) {
		if (a.kids.size() != b.kids.size()) return sfmt("at %s: %zu entries vs %zu", path.c_str(), a.kids.size(), b.kids.size());
		for (size_t i = 0; i < a.kids.size(); i++) { string d = diffVal(*s.sequence.entry, a.kids[i], b.kids[i], path + sfmt("[%zu]", i)); if (!d.empty()) return d; }
	}
	return "at " + path + ": " + showVal(s, a).substr(0, 300) + " vs " + showVal(s, b).substr(0, 300);
}
