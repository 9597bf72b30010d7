// YAML text: events from libyaml, and writers from node trees.
#pragma once
#include "schema.h"
#include <yaml.h>

struct Ev {
	int type = 0; string text, anchor, tag; int style = 0; bool implicit = false;
	size_t line = 0, col = 0; // start mark
};
// Parse the whole stream; false if libyaml reports an error (evs holds what came before).
bool parseEvents(const string &in, vector<Ev> &evs, size_t maxEvents = 200000);
// Events of the single root node -> tree. Returns false if malformed.
bool eventsToNode(const vector<Ev> &evs, size_t &i, Node &out);
bool sameNode(const Node &a, const Node &b);
// The content of the (single) document of text; false if it isn't exactly one document.
bool parseDoc(const string &text, Node &out, int *ndocs = nullptr);

struct Writer {
	enum { ANY, EMITTER, OWN, PLAIN, FLOW } kind = ANY;
	bool encodings = true;     // allow UTF-16 and BOM
	bool directives = true;    // %YAML/%TAG, markers
	bool tags = true;
	bool comments = true;
	int tailPct = 0;           // content after the first document
};
// Text whose content is exactly n (verified by parsing it back).
string writeNode(Choices &c, const Node &n, const Writer &w, string *how = nullptr);
string emitNode(Choices &c, const Node &n, bool safe, bool directives, bool tags);
string toUtf16(const string &utf8, bool be, bool bom);
