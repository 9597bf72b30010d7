// Checked wrappers around the public API, and the master oracles.
#pragma once
#include "model.h"

struct LogMsg { int level; string text; };
struct LogSink {
	vector<LogMsg> msgs; string err; int minLevel = 0; bool keep = true; u64 count = 0, errors = 0;
	static void fn(cyaml_log_t level, void *ctx, const char *fmt, va_list args);
	string errorText() const; // all ERROR level text, concatenated
	void clear() { msgs.clear(); err.clear(); count = errors = 0; }
};
// One client: allocator, log, configuration.
struct Rig {
	TA ta; LogSink log; CbLog cb; cyaml_config_t cfg;
	vector<u8> *input = nullptr; // when set, every document is put here
	explicit Rig(u32 flags = 0, int level = CYAML_LOG_ERROR);
	Rig(const Rig &) = delete;
};
struct LoadRes { cyaml_err_t err = CYAML_OK; void *data = nullptr; unsigned count = 0; };
struct SaveRes { cyaml_err_t err = CYAML_OK; string out; };
struct CopyRes { cyaml_err_t err = CYAML_OK; void *data = nullptr; };
// Every wrapper checks: outputs untouched on failure, allocator used soundly
// and balanced, nothing leaked outside of it, log level respected.
LoadRes doLoad(Rig &r, const Schema &S, const string &text, const vector<CbCall> *expect = nullptr);
SaveRes doSave(Rig &r, const Schema &S, const void *data, unsigned count);
CopyRes doCopy(Rig &r, const Schema &S, const void *data, unsigned count);
void doFree(Rig &r, const Schema &S, void *data, unsigned count); // also checks everything is released

// Load text and compare everything with the reference interpreter.
// Leaves loaded data in `res` unless freeIt.
void checkAgainst(Rig &r, const Schema &S, const string &text, const Model &m, LoadRes *res = nullptr, bool freeIt = true);
void checkCalls(const Rig &r, const Model &m);
string showCalls(const vector<CbCall> &c);
bool modelTooBig(const Model &m);

// ---- saving
struct SavePred { cyaml_err_t err = CYAML_OK; string why; vector<PathEl> path; bool ambiguous = false; };
SavePred predictSave(const Schema &S, u32 cfg, const Val &v, unsigned count);
// Does the node say exactly what the data says?  Empty if so.
string matchSaved(const Schema &S, u32 cfg, const cyaml_schema_value_t &s, const Val &v, const Node &n, const string &path = "");
// The node tree a writer produces, with libyaml styles in Node::style.
Node saveNode(const Schema &S, u32 cfg, const cyaml_schema_value_t &s, const Val &v);
string refEmit(const Node &n, bool delim, bool *ok = nullptr); // libyaml emitter, defaults
// Inline zero values as the tree a writer sees.
Val norm(const cyaml_schema_value_t &s, const Val &v);
// equal as far as saving and loading can tell
bool sameVal(const cyaml_schema_value_t &s, const Val &a, const Val &b);
bool roundTrips(const Schema &S, const cyaml_schema_value_t &s, const Val &v);
bool okToSave(const Schema &S, const Val &v); // top-level restrictions of save
string cfgText(u32 f);
string caseText(const Schema &S, u32 cfg, const string &doc);
u32 genCfg(Choices &c, int pct); // load-side flags
// Exact-size blocks for hand-built data.
struct Arena {
	vector<std::pair<void *, size_t>> blocks; vector<string> snap;
	~Arena() { for (auto &b : blocks) free(b.first); }
	Alloc alloc() { return [this](size_t n) { void *p = malloc(n ? n : 1); memset(p, 0, n); blocks.push_back({p, n}); return (u8 *)p; }; }
	void snapshot() { snap.clear(); for (auto &b : blocks) snap.push_back(string((char *)b.first, b.second)); }
	bool same() const { for (size_t i = 0; i < blocks.size(); i++) if (memcmp(blocks[i].first, snap[i].data(), snap[i].size())) return false; return true; }
	void scribble() { for (auto &b : blocks) memset(b.first, 0xEE, b.second); }
};
// Save data whose value is v and compare outcome and content with the oracle.
struct SavedInfo { SaveRes res; SavePred pred; Node node; };
SavedInfo checkSave(Rig &r, const Schema &S, const Val &v, const void *data, unsigned count);
// ---- copying
SavePred predictCopy(const Schema &S, const Val &v, unsigned count);
// Copy with r (whose allocator must hold nothing else), compare outcome and content.
struct CopiedInfo { CopyRes res; SavePred pred; };
CopiedInfo checkCopy(Rig &r, const Schema &S, const Val &v, const void *data, unsigned count);
bool noData(const cyaml_schema_value_t &s, const Val &v); // pointer slot that is NULL
// Set random pointers of v to NULL; returns how many.
int plantNulls(Choices &c, const cyaml_schema_value_t &s, Val &v, int pct);
// Do the styles of the text agree with the schema's and the configuration's?
string checkStyles(const Schema &S, u32 cfg, const Val &v, const string &text, const Node &parsed);
