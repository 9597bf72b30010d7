// Reference interpreter: what loading a stream of YAML events must give.
#pragma once
#include "yaml.h"

struct PathEl {
	bool seq = false; string name; bool inValue = false; u64 idx = 0; // idx: entries begun
	vector<std::pair<size_t, size_t>> pos; // acceptable positions (line, column), 0-based
};
struct Model {
	cyaml_err_t err = CYAML_OK;
	string why;
	Val val;
	u64 count = 0;
	vector<CbCall> cbs;
	vector<PathEl> path;      // outermost first, where the failure happened
	bool leaf = false;        // the failing value is below path.back(), not that container itself
	bool ambiguous = false;   // outcome left open; only safety is required
	bool aliased = false;     // an alias was replayed
	u64 aliasCount = 0, maxDepth = 0;
	u64 ignoredKeys = 0, ignoredFields = 0, nulls = 0, defaults = 0, scalars = 0, ranges = 0;
	vector<std::pair<string, string>> ignoredNames; // each ignored key in order: as written, as in the schema
	bool secondDoc = false, tooBig = false;
};
Model modelLoad(const Schema &S, u32 cfgFlags, const vector<Ev> &evs, bool parseOk);
Model modelText(const Schema &S, u32 cfgFlags, const string &text);
// exact integer texts: true if the whole text is an integer notation
bool parseIntText(const string &t, bool &neg, unsigned __int128 &mag, bool *ambiguous);
string errName(cyaml_err_t e);
string diffVal(const cyaml_schema_value_t &s, const Val &a, const Val &b, const string &path = "");
u64 mapKeyNum(const cyaml_schema_value_t &s, const Val &v);
