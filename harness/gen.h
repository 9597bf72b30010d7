// Document generators shared by the properties.
#pragma once
#include "api.h"

struct Ref { Node *n; const cyaml_schema_value_t *s; };
// Positions of the tree with the schema that applies there (null: unknown key).
void collect(const cyaml_schema_value_t &s, u32 cfg, Node &n, vector<Ref> &out);
void collectAll(Node &n, vector<Node *> &out);
// A scalar text for s: valid, boundary, or invalid.
string scalarText(Choices &c, const cyaml_schema_value_t &s);
string intBoundaryText(Choices &c, const cyaml_schema_value_t &s);
string floatBoundaryText(Choices &c, const cyaml_schema_value_t &s);
// A node made for s without caring much for its limits.
Node looseNode(Choices &c, const Schema &S, const cyaml_schema_value_t &s, u32 cfg, int depth);
Node junkNode(Choices &c, int depth);
// One random change to a document; returns what it did.
string mutateNode(Choices &c, const Schema &S, u32 cfg, Node &doc);
// Byte-level damage.
string mutateBytes(Choices &c, string t);
// Conforming document for a fresh value.
struct Doc { Val v; Node n; string text, how; };
Doc genDoc(Choices &c, const Schema &S, const GenOpt &o, const Expr &e, const Writer &w);
// give nodes anchors and replace later nodes by aliases; returns number of aliases
int addAliases(Choices &c, Node &doc, int pct, bool keys);
struct Names { int family = 0; size_t len = 0; Names() {} Names(Choices &c); string name(int id) const; };
Node expandAliases(const Node &doc, bool *bad);
u64 nodeCount(const Node &n);
// Put a value schema somewhere: top level, member or entry; wrapNode writes a
// document with the node there, and wrapped() finds it in loaded memory.
struct Wrap { int pos; const cyaml_schema_value_t *s; };
Wrap wrapSchema(Choices &c, Schema &S, const cyaml_schema_value_t &v, int pos = -1);
Node wrapNode(const Wrap &w, const Node &n);
Val wrapVal(const Wrap &w, const Val &v);
