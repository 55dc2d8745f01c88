// C01 acceptance, C02 fidelity, C03 serialisation of parsed documents,
// C04 failed parses, all over exhaustively generated texts.
#include "texts.h"
static Guard &G(int i) { static Guard *g[4] = {new Guard(1 << 16), new Guard(1 << 16), new Guard(1 << 16), new Guard(1 << 16)}; return *g[i]; }

// ---------------------------------------------------------------- C01
void accept(Ctx &c, const Api &A, const Str &t) {
  if (!c.take()) return;
  c.note("text (%zu bytes): %s", t.size(), show(t).c_str());
  SV cut = refCut(t);
  bool want = RefParser(cut).text(nullptr) == R_OK;
  c.state(hash64(t.data(), t.size()) ^ 0x1234);
  Scope s(c, (c.cases & 1) ? 0xA5 : 0x20);
  void *al = A.NewAllocator();
  // the targets rotate: a new value, a value with content (the one just parsed), an element of an array
  int rot = (int)(hash64(t.data(), t.size(), 77) >> 7) % 3;
  void *fresh = A.NewValue(al), *arr = A.NewValue(al), *tg[3];
  A.SetArray(arr);
  void *el = A.NewValue(al);
  A.SetNull(el);
  if (!A.ArrayAddFast(arr, el) || !(el = A.Begin(arr))) c.fail("setup");
  tg[0] = rot == 2 ? el : fresh;
  tg[1] = rot == 0 ? fresh : el;
  tg[2] = rot == 0 ? el : rot == 1 ? el : fresh;
  const char *p = G(0).cstr(cut);
  bool r1 = A.ParseFast(tg[0], p);
  if (r1 != want) c.fail("ParseFast returns %d, expected %d for text %s", r1, want, show(t).c_str());
  p = G(1).cstr(cut);
  bool r2 = A.Parse(tg[1], p);
  if (r2 != want) c.fail("Parse returns %d, expected %d for text %s", r2, want, show(t).c_str());
  p = G(2).raw(t);
  bool r3 = A.ParseLen(tg[2], p, t.size());
  if (r3 != want) c.fail("ParseLen(%zu) returns %d, expected %d for text %s", t.size(), r3, want, show(t).c_str());
  if (!G(0).intact(cut) || !G(1).intact(cut) || !G(2).intact(t)) c.fail("parsing modified its input %s", show(t).c_str());
  c.transitions += 3;
  A.ReleaseAllocator(al);
  s.end();
  if (c.wantSample()) c.sample(show(t, 120) + (want ? " -> accepted" : " -> rejected"));
}
#define ACC [&](const Str &t) { accept(c, A, t); }
#define MAINAPI const Api &A = *mainApi(); (void)A
FAMILY(C01, bytes2_ctx, "every byte string of length 0..2 in 23 contexts") {
  MAINAPI;
  for (auto &x : CTX_ALL) for (int n = 0; n <= 2; ++n) genBytes(n, x, ACC);
}
FAMILY(C01, bytes3_root, "every byte string of length 3 as a document (thorough: also as array element, object value and string body)") {
  MAINAPI;
  genBytes(3, CTX_ALL[0], ACC);
  if (c.thorough) { genBytes(3, {"[", "]"}, ACC); genBytes(3, {"{\"k\":", "}"}, ACC); genBytes(3, {"\"", "\""}, ACC); }
}
FAMILY(C01, tokens, "every sequence of up to 8 (thorough 10) structural tokens; dead prefixes followed for one more token") {
  MAINAPI;
  genTokens(TOK_STRUCT, c.thorough ? 10 : 8, 1, {"", ""}, ACC);
  genTokens(TOK_STRUCT, 5, 3, {"", ""}, ACC);
  for (auto &x : CTX_VALUE) genTokens(TOK_STRUCT, 4, 2, x, ACC);
}
FAMILY(C01, numbers, "every string of up to 6 (thorough 7) characters over 0 1 9 - + . e E in 14 contexts") {
  MAINAPI;
  for (auto &x : CTX_VALUE) genTokens(TOK_NUM, c.thorough ? 7 : 5, 9, x, ACC);
  genTokens(TOK_NUM, c.thorough ? 8 : 7, 9, {"", ""}, ACC);
  genTokens(TOK_NUM, 6, 9, {"[", "]"}, ACC);
  genTokens(TOK_NUM, 9, 1, {"[0,", "]"}, ACC);
}
FAMILY(C01, strings, "every string body of up to 5 characters over 23 characters in 7 contexts, dead prefixes followed for one more") {
  MAINAPI;
  for (auto &x : CTX_INNER) genTokens(TOK_STR, c.thorough ? 5 : 4, 1, x, ACC);
  genTokens({"\\", "u", "D", "8", "0", "c", "\""}, 7, 1, {"[\"", "\"]"}, ACC);
  genTokens({"\\u", "D8", "dc", "00", "DF", "E0", "ff", "\"", "a"}, 8, 1, {"\"", "\""}, ACC);
  genTokens({"\\u", "D8", "dc", "00", "DF", "\""}, 8, 1, {"{\"", "\":[]}"}, ACC);
}
FAMILY(C01, escapes, "every \\uXXXX escape in both hex cases, invalid digits at every position, surrogate pairs around all edges; as root, element and key") {
  MAINAPI;
  for (auto &x : {TextCtx{"\"", "\""}, TextCtx{"[\"", "\"]"}, TextCtx{"{\"", "\":0}"}}) {
    auto em = [&](const Str &b) { accept(c, A, x.pre + b + x.post); };
    genEscapes(false, em);
    genEscapes(true, em);
  }
}
FAMILY(C01, words, "every sequence of up to 5 characters over t r u e f a l s n T in 6 contexts, plus all one byte edits of the literals") {
  MAINAPI;
  for (auto &x : {TextCtx{"", ""}, TextCtx{"[", "]"}, TextCtx{"[1,", "]"}, TextCtx{"{\"k\":", "}"}, TextCtx{"{\"k\":", ",\"z\":0}"}, TextCtx{"[", ""}}) {
    genTokens(TOK_WORD, 4, 4, x, ACC);
    genTokens(TOK_WORD, 7, 1, x, ACC);
    for (const char *w : {"true", "false", "null"}) genEdits(w, [&](const Str &t) { accept(c, A, x.pre + t + x.post); });
  }
}
FAMILY(C01, edits, "every single byte replacement (256 values), insertion (256), short deletion, transposition, truncation of 46 seed documents") {
  MAINAPI;
  for (auto &s : SEEDS) genEdits(s, ACC);
  for (const char *s : {"[1,2]", "{\"a\":1}", "[\"a\"]", "[[],{}]", "-1.5e+2"}) genEdits2(s, "[]{},:\"1 a-.e\\", ACC);
  if (c.thorough) for (auto &s : SEEDS) if (s.size() < 22) genEdits2(s, "[]{},:\"10 at\\n.e-+u", ACC);
}
FAMILY(C01, sizes, "14 document shapes at every size up to 600 (thorough 5000) and around all powers of two up to 2^22, intact and damaged") {
  MAINAPI;
  for (auto &k : SIZE_KINDS)
    for (size_t n : sizes(c.thorough ? 5000 : 600, c.thorough ? k.maxn : std::min<size_t>(k.maxn, 300000))) {
      if (c.only < 0 && c.nshards > 1) { // avoid building texts of other shards
        bool mine = false;
        for (int j = 0; j < 4; ++j) mine |= (int)((c.n + j) % c.nshards) == c.shard;
        if (!mine) { c.n += 4; continue; }
      }
      Str t = k.make(n);
      accept(c, A, t);
      accept(c, A, t.substr(0, t.size() - 1));
      accept(c, A, t + "]");
      Str d = t;
      d[d.size() / 2] = '\x01';
      accept(c, A, d);
    }
}

// ---------------------------------------------------------------- C02 / C03 bodies
void fidelity(Ctx &c, const Api &A, const Str &t, bool deep) {
  RefNode r;
  if (c.only < 0 && c.nshards > 1 && (int)(c.n % c.nshards) != c.shard) { ++c.n; return; }
  if (!c.take()) return;
  if (!refParse(t, r)) return;
  c.note("text (%zu bytes): %s", t.size(), show(t).c_str());
  c.state(hash64(t.data(), t.size()));
  Scope s(c);
  Cmp m{c, A};
  void *al = A.NewAllocator();
  void *v[3] = {nullptr, nullptr, nullptr}, *up[3] = {nullptr, nullptr, nullptr};
  RefNode ur[3];
  for (int i = 0; i < 3; ++i) { // the targets rotate
    int k = (int)((hash64(t.data(), t.size(), 77) >> 7) + i) % 4;
    v[i] = A.NewValue(al);
    if (k == 1 && !A.Parse(v[i], "{\"p\":[1,2]}")) c.fail("setup");
    if (k < 2) continue;
    const char *d = k == 2 ? "[0,{\"p\":1},2]" : "{\"a\":0,\"kk\":\"p\",\"a\":2}";
    refParse(d, ur[i]);
    up[i] = v[i];
    if (!A.Parse(up[i], d) || !A.Begin(up[i]) || !(v[i] = A.Next(A.Begin(up[i])))) c.fail("setup");
  }
  SV cut = refCut(t);
  if (!A.ParseFast(v[0], G(0).cstr(cut))) c.fail("ParseFast rejects %s", show(t).c_str());
  if (!A.Parse(v[1], G(1).cstr(cut))) c.fail("Parse rejects %s", show(t).c_str());
  G(1).scribble();
  if (!A.ParseLen(v[2], G(2).raw(t), t.size())) c.fail("ParseLen rejects %s", show(t).c_str());
  G(2).scribble();
  c.transitions += 3;
  for (int i = 0; i < 3; ++i) {
    if (up[i]) { // the parent sees it, with its key and siblings as they were
      RefNode x = r;
      x.hasKey = ur[i].kids[1].hasKey;
      x.key = ur[i].kids[1].key;
      ur[i].kids[1] = x;
      if (deep) m.tree(up[i], ur[i]); else m.quick(up[i], ur[i]);
    } else if (deep) m.tree(v[i], r); else m.quick(v[i], r);
  }
  if (!G(0).intact(cut)) c.fail("input modified");
  A.ReleaseAllocator(al);
  s.end();
  if (c.wantSample()) c.sample(show(t, 150));
}
#define FID [&](const Str &t) { fidelity(c, A, t, true); }
static void c02docs(Ctx &c) {
  MAINAPI;
  genDocs(c.thorough ? 6 : 5, FID);
  for (auto &s : SEEDS) {
    fidelity(c, A, s, true);
    for (auto &x : CTX_VALUE) fidelity(c, A, x.pre + s + x.post, true);
  }
  for (auto &s : SEEDS) for (auto &s2 : SEEDS) { fidelity(c, A, "[" + s + "," + s2 + "]", true); fidelity(c, A, "{\"a\":" + s + ",\"\":" + s2 + ",\"a\":1}", true); }
}
ALIAS(C02, docs, "every document of up to 5 nodes (thorough 6) over 7 leaves and arrays/objects; seeds in 14 contexts and in pairs; read back with every getter", c02docs);
FAMILY(C02, tokens, "every valid number of up to 6 characters, string body of up to 4, whitespace variant and edited seed, read back with every getter") {
  MAINAPI;
  for (auto &x : CTX_VALUE) genTokens(TOK_NUM, c.thorough ? 6 : 5, 0, x, FID);
  for (auto &x : CTX_INNER) genTokens(TOK_STR, c.thorough ? 4 : 3, 0, x, FID);
  genTokens(TOK_STRUCT, c.thorough ? 9 : 8, 0, {"", ""}, FID);
  for (auto &s : SEEDS) genEdits(s, FID);
}
FAMILY(C02, escapes, "every \\uXXXX escape and surrogate pairs around all edges, in a value and in a key") {
  MAINAPI;
  for (auto &x : {TextCtx{"[\"", "\"]"}, TextCtx{"{\"", "\":0}"}}) {
    auto em = [&](const Str &b) { fidelity(c, A, x.pre + b + x.post, true); };
    genEscapes(false, em);
    genEscapes(true, em);
  }
}
FAMILY(C02, bytes, "every pair of bytes in a string value and in a key; every pair of bytes around array elements and members") {
  MAINAPI;
  for (auto &x : CTX_INNER) genBytes(2, x, FID);
  for (auto &x : CTX_VALUE) genBytes(2, x, FID);
}
static const std::vector<size_t> &ns(Ctx &c, size_t maxn) {
  static std::vector<size_t> v;
  v = sizes(c.thorough ? 5000 : 700, c.thorough ? maxn : std::min<size_t>(maxn, 140000));
  return v;
}
FAMILY(C02, sizes, "14 document shapes at every size up to 700 (thorough 5000) and around powers of two up to 2^17 (thorough 2^22)") {
  MAINAPI;
  for (auto &k : SIZE_KINDS)
    for (size_t n : ns(c, k.maxn)) {
      if (c.only < 0 && (int)(c.n % c.nshards) != c.shard) { ++c.n; continue; }
      fidelity(c, A, k.make(n), n < 300);
    }
}
// ---------------------------------------------------------------- C03
static void strWalk(Ctx &c, const Api &A, void *h, const RefNode &n, int &budget) {
  if (budget-- <= 0) return;
  Cmp m{c, A};
  m.stringify(h, n);
  size_t i = 0;
  if (n.type == T_ARR || n.type == T_OBJ)
    for (void *k = A.Begin(h); k && i < n.kids.size(); k = A.Next(k)) strWalk(c, A, k, n.kids[i++], budget);
}
void roundtrip(Ctx &c, const Api &A, const Str &t, bool reparse) {
  if (c.only < 0 && c.nshards > 1 && (int)(c.n % c.nshards) != c.shard) { ++c.n; return; }
  if (!c.take()) return;
  RefNode r;
  if (!refParse(t, r)) return;
  c.note("adapter %s text (%zu bytes): %s", A.name, t.size(), show(t).c_str());
  c.state(hash64(t.data(), t.size()));
  Scope s(c);
  Cmp m{c, A};
  void *al = A.NewAllocator();
  void *v = A.NewValue(al);
  if (!A.Parse(v, G(1).cstr(refCut(t)))) c.fail("Parse rejects %s", show(t).c_str());
  G(1).scribble();
  m.stringify(v, r);
  int budget = 40;
  strWalk(c, A, v, r, budget);
  if (reparse) {
    const char *out = A.Stringify(v);
    Str keep = out;
    if (!refValid(keep)) c.fail("Stringify gives invalid JSON: %s", show(keep).c_str());
    void *w = A.NewValue(al);
    if (!A.ParseFast(w, out)) c.fail("own output rejected: %s", show(keep).c_str());
    m.quick(w, r);
    m.stringify(w, r);
    void *cp = A.Copy(v);
    if (!cp) c.fail("Copy failed");
    m.stringify(cp, r);
    if (keep != out) c.fail("returned text changed later");
    m.stringify(v, r);
    c.transitions += 4;
  }
  A.ReleaseAllocator(al);
  s.end();
  if (c.wantSample()) c.sample(show(t, 150));
}
FAMILY(C03, docs, "every document of up to 5 nodes (thorough 6) and all combined seeds: Stringify of the root, every descendant and a copy; output parsed again") {
  for (const char *nm : {"main", "tiny"}) {
    const Api &A = *api(nm);
    genDocs(c.thorough ? 6 : 5, [&](const Str &t) { roundtrip(c, A, t, true); });
    for (auto &s : SEEDS) for (auto &x : CTX_VALUE) roundtrip(c, A, x.pre + s + x.post, true);
    for (auto &s : SEEDS) for (auto &s2 : SEEDS) { roundtrip(c, A, "[" + s + "," + s2 + "]", true); roundtrip(c, A, "{\"a\":" + s + ",\"\":" + s2 + "}", true); }
    for (auto &s : SEEDS) genEdits(s, [&](const Str &t) { roundtrip(c, A, t, false); });
    for (auto &x : CTX_VALUE) genTokens(TOK_NUM, 5, 0, x, [&](const Str &t) { roundtrip(c, A, t, false); });
    for (auto &x : CTX_INNER) genTokens(TOK_STR, 3, 0, x, [&](const Str &t) { roundtrip(c, A, t, false); });
    for (auto &x : CTX_INNER) genBytes(2, x, [&](const Str &t) { roundtrip(c, A, t, false); });
  }
}
FAMILY(C03, sizes, "14 document shapes at every size up to 2100 (thorough 6000) and around powers of two, so that every output-buffer boundary is hit at every offset") {
  MAINAPI;
  for (auto &k : SIZE_KINDS)
    for (size_t n : sizes(c.thorough ? 6000 : 2100, c.thorough ? k.maxn : std::min<size_t>(k.maxn, 140000))) {
      if (c.only < 0 && (int)(c.n % c.nshards) != c.shard) { ++c.n; continue; }
      roundtrip(c, A, k.make(n), n < 400);
    }
  const Api &B = *api("tiny");
  for (auto &k : SIZE_KINDS)
    for (size_t n : sizes(300, 5000)) {
      if (c.only < 0 && (int)(c.n % c.nshards) != c.shard) { ++c.n; continue; }
      roundtrip(c, B, k.make(std::min(n, k.maxn)), n < 400);
    }
}
// pairs of adjacent tokens around the buffer boundary: prefix of every length then each token kind
FAMILY(C03, boundary, "arrays whose first string has every length 980..1060 and 2000..2100, followed by each kind of value and nesting") {
  MAINAPI;
  for (size_t base : {980, 2000})
    for (size_t n = base; n < base + (base == 980 ? 80 : 100); ++n)
      for (auto &s : SEEDS) { roundtrip(c, A, "[\"" + Str(n, 'q') + "\"," + s + "]", false); roundtrip(c, A, "{\"" + Str(n, 'q') + "\":" + s + ",\"z\":[" + s + "]}", false); }
}
// ---------------------------------------------------------------- C04: failed parses
static const char *C04_DOCS[] = {"", "5", "\"s\"", "true", "[]", "{}", "[1,2,3]", "{\"a\":1,\"b\":[2,3],\"c\":{\"d\":4}}", "[[1],[2],[3]]"};
void failParse(Ctx &c, const Api &A, const Str &t, bool all) {
  if (c.only < 0 && c.nshards > 1 && (int)(c.n % c.nshards) != c.shard) { ++c.n; return; }
  if (!c.take()) return;
  SV cut = refCut(t);
  if (RefParser(cut).text(nullptr) == R_OK) return;
  c.note("invalid text (%zu bytes): %s", t.size(), show(t).c_str());
  c.state(hash64(t.data(), t.size()) ^ 77);
  Cmp m{c, A};
  int nd = 0;
  for (const char *d : C04_DOCS) {
    ++nd;
    if (!all && nd != 1 && nd != 8) continue;
    RefNode r;
    bool have = *d != 0;
    if (have) refParse(d, r);
    // targets: root and every child position
    size_t kids = r.kids.size();
    for (size_t tgt = 0; tgt <= kids; ++tgt) {
      Scope s(c);
      void *al = A.NewAllocator();
      void *v = A.NewValue(al);
      if (have && !A.Parse(v, d)) c.fail("setup");
      void *h = v;
      if (tgt) { h = A.Begin(v); for (size_t i = 1; i < tgt; ++i) h = A.Next(h); }
      if (A.ParseFast(h, G(0).cstr(cut))) c.fail("ParseFast accepts %s", show(t).c_str());
      m.stringify(v, r);
      if (A.Parse(h, G(1).cstr(cut))) c.fail("Parse accepts %s", show(t).c_str());
      if (A.ParseLen(h, G(2).raw(t), t.size())) c.fail("ParseLen accepts %s", show(t).c_str());
      c.transitions += 3;
      if (have) m.quick(v, r); else m.empty(v);
      // still fully usable: edit around and in the target, then parse into it
      if (tgt) {
        if (r.type == T_ARR) {
          void *x = A.NewValue(al); if (!A.SetNumStr(x, "9")) c.fail("SetNumStr");
          if (!A.ArrayAddFast(v, x)) c.fail("append after failed parse");
          RefNode e = r; RefNode k; k.type = T_NUM; k.tok = "9"; e.kids.push_back(k);
          m.quick(v, e);
          if (!A.Move(h)) c.fail("move after failed parse");
          e.kids.erase(e.kids.begin() + (tgt - 1));
          m.quick(v, e);
          m.quick(h, r.kids[tgt - 1]);
        } else {
          if (!A.ObjDel(v, r.kids[tgt - 1].key.c_str())) c.fail("delete after failed parse");
          RefNode e = r; e.kids.erase(e.kids.begin() + (tgt - 1));
          m.quick(v, e);
          m.quick(h, r.kids[tgt - 1]);
        }
      }
      if (!A.Parse(h, "[7,{\"x\":null}]")) c.fail("valid text rejected after failed parse");
      RefNode ok; refParse("[7,{\"x\":null}]", ok);
      if (tgt) { ok.hasKey = r.kids[tgt - 1].hasKey; ok.key = r.kids[tgt - 1].key; }
      m.quick(h, ok);
      A.ReleaseAllocator(al);
      s.end();
    }
  }
  if (c.wantSample()) c.sample(show(t, 150));
}
FAMILY(C04, parse_edits, "every invalid single byte edit of 46 seeds (all 256 bytes), parsed into an empty value and into every position of a document; document unchanged and editable afterwards") {
  MAINAPI;
  for (auto &s : SEEDS) genEdits(s, [&](const Str &t) { failParse(c, A, t, false); });
}
FAMILY(C04, parse_tokens, "every invalid token sequence of up to 5 tokens and every truncation of nested documents, parsed into every position of 9 documents") {
  MAINAPI;
  genTokens(TOK_STRUCT, c.thorough ? 6 : 4, 1, {"", ""}, [&](const Str &t) { failParse(c, A, t, true); });
  for (auto &x : CTX_VALUE) genTokens(TOK_NUM, c.thorough ? 5 : 3, 1, x, [&](const Str &t) { failParse(c, A, t, true); });
  for (auto &x : CTX_INNER) genTokens(TOK_STR, c.thorough ? 3 : 2, 1, x, [&](const Str &t) { failParse(c, A, t, true); });
  for (auto &s : SEEDS) for (auto &x : CTX_VALUE) { Str f = x.pre + s + x.post; for (size_t i = 0; i < f.size(); ++i) { failParse(c, A, f.substr(0, i), true); } failParse(c, A, f + "x", true); failParse(c, A, f + "]", true); failParse(c, A, f + ",", true); }
}
FAMILY(C04, parse_sizes, "14 document shapes at sizes around growth boundaries, cut off or damaged near the end") {
  MAINAPI;
  for (auto &k : SIZE_KINDS)
    for (size_t n : sizes(150, c.thorough ? 200000 : 9000)) {
      if (n > k.maxn) continue;
      if (c.only < 0 && (int)(c.n % c.nshards) != c.shard && (int)((c.n + 1) % c.nshards) != c.shard) { c.n += 2; continue; }
      Str t = k.make(n);
      failParse(c, A, t + "}", false);
      t[t.size() - 1] = '?';
      failParse(c, A, t, n < 40);
    }
}
