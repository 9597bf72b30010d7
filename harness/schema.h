// Schemas, values, nodes: generators, memory images, comparison.
#pragma once
#include "core.h"

// ---- value tree (what the memory should hold)
struct Val {
	enum K { NUL, NUM, STR, MAP, SEQ } k = NUL; // NUL: slot is all zero bytes
	u64 num = 0;         // NUM: raw bits, low data_size bytes (floats: bit pattern)
	string str;
	vector<Val> kids;    // MAP: one per schema field; SEQ: entries
	static Val Num(u64 n) { Val v; v.k = NUM; v.num = n; return v; }
	static Val Str(const string &s) { Val v; v.k = STR; v.str = s; return v; }
	bool operator==(const Val &o) const { return k == o.k && num == o.num && str == o.str && kids == o.kids; }
};
string showVal(const cyaml_schema_value_t &s, const Val &v);

// ---- YAML node tree (what the document says)
struct Node {
	enum K { SCALAR, SEQ, MAP, ALIAS } k = SCALAR;
	string text;               // scalar text, or alias name
	string anchor;
	int style = 0;             // libyaml style hint
	string tag;
	vector<Node> items;        // SEQ items; MAP: key, value, key, value...
	static Node S(const string &t) { Node n; n.text = t; return n; }
};
string showNode(const Node &n);

// ---- callback bookkeeping
struct CbCall {
	const cyaml_schema_value_t *schema;
	int kind;              // 0 int 1 uint 2 float 3 string 4 mapping 5 sequence
	u64 num = 0; string str; // value; for mapping/sequence: raw bytes
	bool nullData = false; const void *raw = nullptr;
	Val val;               // model side: deep value
	bool accepted = true;
};
struct SchemaMeta { // extra facts about a schema value, keyed by its address
	u64 rejMod = 0, rejRem = 0; // callback rejects h(value) % rejMod == rejRem
	bool hasDefault = false; Val def;
	int recursive = 0;
};

// ---- generated schema set
struct Schema {
	std::deque<cyaml_schema_value_t> values;
	std::deque<vector<cyaml_schema_field_t>> fields;
	std::deque<vector<cyaml_strval_t>> strvals;
	std::deque<vector<cyaml_bitdef_t>> bitdefs;
	std::deque<string> strings;
	std::deque<vector<u8>> blobs; // default data
	std::map<const cyaml_schema_value_t *, SchemaMeta> meta;
	cyaml_schema_value_t top;
	bool topPtr = true;
	u64 longLen = 0; int longAt = -1; u64 longSeed = 0; // one long sequence: entries, member (-1: top level)
	const char *str(const string &s) { strings.push_back(s); return strings.back().c_str(); }
	const SchemaMeta *metaOf(const cyaml_schema_value_t *s) const { auto i = meta.find(s); return i == meta.end() ? nullptr : &i->second; }
};
string showSchema(const Schema &S, const cyaml_schema_value_t &s, int depth = 0);

struct GenOpt {
	int depth = 3;             // container nesting
	u32 types = ~0u;           // allowed type mask (1 << cyaml_type)
	int ptrPct = 35, nullPct = 35 /* of pointers */, optPct = 40, defPct = 50 /* of optional */;
	int cbPct = 0, strictPct = 25, casePct = 0, stylePct = 0;
	int rangePct = 40;
	int maxFields = 6; int widePct = 0; int wideMax = 80;
	int maxEntries = 5;
	int recursePct = 10;
	int oddSizePct = 25;       // unusual integer widths 3,5,6,7
	int longStrPct = 3;
	bool asciiStr = false;
	bool allowIgnore = true;
	bool roundTrip = false;    // avoid constructs that inherently don't round trip
	bool overlapFlags = true;
	bool insensitiveCfg = false;
	bool unboundedIntStr = true;
	u32 topTypes = ~0u;
	int chainPct = 0;          // long single-field nesting chains
	u64 longMax = 0;           // a sequence of up to so many small entries at or near the top
};

// slot size of a value in its parent
size_t slotSize(const cyaml_schema_value_t &s);
inline size_t slotWidth(const cyaml_schema_value_t &s) { return (s.flags & CYAML_FLAG_POINTER) ? sizeof(void *) : slotSize(s); }
inline bool isSeq(const cyaml_schema_value_t &s) { return s.type == CYAML_SEQUENCE || s.type == CYAML_SEQUENCE_FIXED; }
inline bool allSet(unsigned f, unsigned m) { return (f & m) == m; }
inline bool isPtr(const cyaml_schema_value_t &s) { return s.flags & CYAML_FLAG_POINTER; }
inline bool nullable(const cyaml_schema_value_t &s) { return allSet(s.flags, CYAML_FLAG_POINTER_NULL); }
inline bool nullableStr(const cyaml_schema_value_t &s) { return allSet(s.flags, CYAML_FLAG_POINTER_NULL_STR); }
inline u64 maskOf(u32 size) { return size >= 8 ? ~0ull : ((1ull << (size * 8)) - 1); }
inline i64 sext(u64 v, u32 size) { if (size >= 8) return (i64)v; u64 m = 1ull << (size * 8 - 1); v &= maskOf(size); return (i64)((v ^ m) - m); }

// Generate a top-level schema (always a pointer unless topPtr false).
void genSchema(Choices &c, Schema &S, const GenOpt &o);
// Generate a single value schema of a given type into out.
void genValue(Choices &c, Schema &S, cyaml_schema_value_t &out, int type, const GenOpt &o, int depth, bool inSeq);

// Generate a conformant value. `absent` permitted for optional fields.
Val genVal(Choices &c, const Schema &S, const cyaml_schema_value_t &s, const GenOpt &o, int depth = 0);
// The value an optional, missing field takes.
Val defaultVal(const Schema &S, const cyaml_schema_value_t &s);
bool expressible(const Schema &S, const cyaml_schema_value_t &s, const Val &v);
bool complete(const cyaml_schema_value_t &s, const Val &v);
bool cbAccepts(const Schema &S, const cyaml_schema_value_t &s, int kind, u64 num, const string &str);
u64 cbHash(int kind, u64 num, const string &str);

// Which optional fields are absent from the document is carried in Presence:
// map from path-less traversal is avoided by writing absent fields directly
// when expressing; see express().
struct Expr { // how to write a value as YAML
	bool plainOnly = false;   // canonical notations only
	bool numericEnum = true;
	u32 cfgFlags = 0;
	int flowPct = 50;
	int shufflePct = 50;
	int absentPct = 60;       // leave out optional fields whose value equals the default
	bool noNullText = false;
};
Node express(Choices &c, const Schema &S, const cyaml_schema_value_t &s, const Val &v, const Expr &e);
string fltText(Choices &c, const cyaml_schema_value_t &s, u64 raw, bool canonical);

// ---- memory
// Write a value into memory (pointees through `alloc`).
typedef std::function<u8 *(size_t)> Alloc;
void storeVal(const cyaml_schema_value_t &s, const Val &v, u8 *slot, const Alloc &alloc);
void storeCount(const cyaml_schema_field_t &f, const Val &v, u8 *base);
// Build a top-level data pointer for v.
void *buildTop(const Schema &S, const Val &v, const Alloc &alloc, unsigned *count);
struct MatchCtx {
	const TA *ta = nullptr;              // when set, pointees must be live there
	std::set<const void *> reached;
	bool checkGaps = true;
	string err, path;
};
bool matchData(const cyaml_schema_value_t &s, const u8 *p, const Val &v, MatchCtx &m, size_t room);
bool matchMem(const cyaml_schema_value_t &s, const u8 *slot, const Val &v, MatchCtx &m);
// top-level: data pointer itself
bool matchTop(const cyaml_schema_value_t &s, const void *data, const Val &v, MatchCtx &m, bool exactLive);
// mark bytes of a mapping struct covered by fields
void coverage(const cyaml_schema_value_t &s, vector<u8> &cov);

// ---- strings / case folding
string foldCase(const string &s);
bool strEq(const cyaml_schema_value_t &s, u32 cfgFlags, const string &a, const string &b);
bool insensitive(const cyaml_schema_value_t &s, u32 cfgFlags);
string recase(Choices &c, const string &s);
string genString(Choices &c, const GenOpt &o, size_t min, size_t max);
string genKey(Choices &c, const GenOpt &o, int i);
bool utf8Valid(const string &s);
bool isNullText(const cyaml_schema_value_t &s, const string &t);

// ---- callbacks (C side)
struct CbLog { vector<CbCall> calls; const Schema *S = nullptr; void *ctxExpect = nullptr; string err; const vector<CbCall> *expect = nullptr; long refuseAt = -1; bool acceptAll = false; };
extern thread_local CbLog *g_cb;
bool cbInt(void *, const cyaml_schema_value_t *, i64);
bool cbUint(void *, const cyaml_schema_value_t *, u64);
bool cbFloat(void *, const cyaml_schema_value_t *, double);
bool cbString(void *, const cyaml_schema_value_t *, const char *);
bool cbMapping(void *, const cyaml_schema_value_t *, const cyaml_data_t *);
bool cbSequence(void *, const cyaml_schema_value_t *, const cyaml_data_t *, size_t);
