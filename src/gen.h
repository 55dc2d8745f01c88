// Exhaustive generators of JSON-like texts.
#pragma once
#include "ref.h"
#include <functional>
typedef std::function<void(const Str &)> Emit;
struct TextCtx { const char *pre, *post; };
extern const std::vector<TextCtx> CTX_VALUE;  // around a value
extern const std::vector<TextCtx> CTX_INNER;  // around the inside of a string or key
extern const std::vector<TextCtx> CTX_ALL;
extern const std::vector<Str> SEEDS;          // valid documents
extern const std::vector<Str> TOK_STRUCT, TOK_NUM, TOK_STR, TOK_WORD, TOK_DIALECT, TOK_UTF;
// all byte strings of length n between pre and post
void genBytes(int n, const TextCtx &x, const Emit &f);
// all token sequences up to len; a prefix that no continuation can make valid is
// followed for `extra` more tokens only
void genTokens(const std::vector<Str> &toks, int len, int extra, const TextCtx &x, const Emit &f);
// the same for the inside of a string (no quotes added)
void genBodies(const std::vector<Str> &toks, int len, int extra, const Str &prefix, const Emit &f);
// all single byte replacements, insertions, deletions, transpositions, truncations of a text
void genEdits(const Str &s, const Emit &f);
void genEdits2(const Str &s, const Str &alphabet, const Emit &f);
void genEscapes(bool pairs, const Emit &f); // string bodies built from \u escapes, valid and invalid
// sizes n to visit: every n up to dense, then around powers of two up to max
std::vector<size_t> sizes(size_t dense, size_t max);
struct SizeKind { const char *name; Str (*make)(size_t n); size_t maxn; };
extern const std::vector<SizeKind> SIZE_KINDS;
// all valid documents with at most n nodes over a small leaf alphabet
void genDocs(int nodes, const Emit &f);
Str rep(const Str &s, size_t n);
