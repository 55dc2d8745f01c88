// Families that add size thresholds, positions, repetition and key/index
// histories to the properties decided elsewhere.
#include "lite.h"
#include <algorithm>
#define MAINAPI const Api &A = *mainApi(); (void)A
#define REQ(cond, ...) do { c.tick(); if (!(cond)) c.fail(__VA_ARGS__); } while (0)
static Guard &G(int i) { static Guard *g[6] = {new Guard(1 << 16), new Guard(1 << 16), new Guard(1 << 16), new Guard(1 << 16), new Guard(1 << 16), new Guard(1 << 16)}; return *g[i]; }
static bool mine(Ctx &c) {
  if (c.only < 0 && c.nshards > 1 && (int)(c.n % c.nshards) != c.shard) { ++c.n; return false; }
  return c.take();
}
static bool eq(const char *p, SV s) { return p && strlen(p) == s.size() && !memcmp(p, s.data(), s.size()); }
static bool isC(const RefNode &n) { return n.type == T_ARR || n.type == T_OBJ; }

// ---------------------------------------------------------------- positions in long tokens
// every length up to n, something special at every position
static const char SPECIAL[] = {0x00, 0x01, 0x09, 0x0a, 0x1f, '"', '\\', 0x7f, (char)0x80, (char)0xff, '/', ' '};
static void scanBodies(Ctx &c, int maxn, const std::function<void(const Str &)> &f) {
  for (int n = 1; n <= maxn; ++n)
    for (int p = 0; p < n; ++p) {
      for (char ch : SPECIAL) { if (c.only < 0 && c.nshards > 1 && (int)(c.n % c.nshards) != c.shard) { ++c.n; continue; } Str s(n, 'x'); s[p] = ch; f(s); }
      for (const char *u : {"\\n", "\\\"", "\\u00e9", "\\u", "\\u12", "\\ud83d\\ude00", "\\ud83d", "\\x", "\\\\"}) { if (c.only < 0 && c.nshards > 1 && (int)(c.n % c.nshards) != c.shard) { ++c.n; continue; } Str s(n, 'x'); s.replace(p, 1, u); f(s); }
    }
  for (int n : {16, 17, 24, 31, 33})
    for (int p = 0; p < n; ++p)
      for (int q = p + 1; q < n; ++q)
        for (int k = 0; k < 6; ++k) { if (c.only < 0 && c.nshards > 1 && (int)(c.n % c.nshards) != c.shard) { ++c.n; continue; } Str s(n, 'x'); static const char *A[] = {"\\n", "\\\\", "\\u0041"}, *B[] = {"\\t", "\\", "\x1f", "\"", "\\\"", "\\u00E9"}; s.replace(q, 1, B[k]); s.replace(p, 1, A[k % 3]); f(s); }
}
static void scanNums(Ctx &c, int maxn, const std::function<void(const Str &)> &f) {
  for (int n = 1; n <= maxn; ++n)
    for (int p = 0; p < n; ++p)
      for (const char *u : {".", "e", "E", "-", "+", "e+", "E-", "x", "0", " ", "..", ".5e", "e1.", "."})
        for (int neg = 0; neg < 2; ++neg) { if (c.only < 0 && c.nshards > 1 && (int)(c.n % c.nshards) != c.shard) { ++c.n; continue; } Str s(n, '7'); s.replace(p, 1, u); f((neg ? "-" : "") + s); }
  for (int n = 1; n <= maxn; ++n)
    for (int p = 0; p < n; ++p)
      for (int k = 0; k < 3; ++k) { if (c.only < 0 && c.nshards > 1 && (int)(c.n % c.nshards) != c.shard) { ++c.n; continue; } Str s = "3." + Str(n, '4'); if (k == 0) s.replace(2 + p, 1, "e"); else if (k == 1) s.replace(2 + p, 1, "E-"); else s[2 + p] = '.'; f(s); }
}
static void scanWs(Ctx &c, int maxn, const std::function<void(const Str &)> &f) {
  static const char W[] = {' ', '\t', '\r', '\n', '\x0b', '\x0c', '\0', (char)0xa0, 'x', ','};
  for (int n = 1; n <= maxn; ++n)
    for (int p = 0; p < n; ++p)
      for (char w : W)
        for (int k = 0; k < 8; ++k) {
          if (c.only < 0 && c.nshards > 1 && (int)(c.n % c.nshards) != c.shard) { ++c.n; continue; }
          Str s(n, k % 2 ? ' ' : '\n');
          s[p] = w;
          f(k == 0 ? s + "1" : k == 1 ? "[1" + s + "]" : k == 2 ? "[1," + s + "2]" : k == 3 ? "{\"a\"" + s + ":1}" : k == 4 ? "{\"a\":" + s + "1}" : k == 5 ? "{" + s + "\"a\":1}" : k == 6 ? "[" + s + "]" : "{\"a\":[]}" + s);
        }
}
static const std::vector<TextCtx> SCTX = {{"\"", "\""}, {"{\"", "\":1}"}, {"[0,\"", "\",2]"}, {"{\"a\":\"", "\"}"}};
static const std::vector<TextCtx> NCTX = {{"", ""}, {"[", ",1]"}, {"{\"a\":", "}"}, {"[0,", "]"}};
FAMILY(C01, positions, "string bodies, keys, numbers and whitespace runs of every length up to 36 (thorough 70) with each special byte or escape at every position, and two escapes at every pair of positions") {
  MAINAPI;
  int i = 0;
  scanBodies(c, c.thorough ? 70 : 36, [&](const Str &b) { const TextCtx &x = SCTX[i++ % 4]; accept(c, A, x.pre + b + x.post); });
  for (auto &x : SCTX) scanBodies(c, c.thorough ? 36 : 18, [&](const Str &b) { accept(c, A, x.pre + b + x.post); });
  for (auto &x : NCTX) scanNums(c, c.thorough ? 48 : 24, [&](const Str &b) { accept(c, A, x.pre + b + x.post); });
  scanWs(c, c.thorough ? 40 : 20, [&](const Str &b) { accept(c, A, b); });
}
FAMILY(C02, positions, "the same texts where valid, read back with every getter") {
  MAINAPI;
  for (auto &x : SCTX) scanBodies(c, c.thorough ? 70 : 36, [&](const Str &b) { fidelity(c, A, x.pre + b + x.post, true); });
  for (auto &x : NCTX) scanNums(c, c.thorough ? 48 : 30, [&](const Str &b) { fidelity(c, A, x.pre + b + x.post, true); });
  scanWs(c, c.thorough ? 40 : 20, [&](const Str &b) { fidelity(c, A, b, true); });
}
FAMILY(C03, positions, "the same texts where valid, serialised and parsed again") {
  MAINAPI;
  for (auto &x : SCTX) scanBodies(c, c.thorough ? 48 : 20, [&](const Str &b) { roundtrip(c, A, x.pre + b + x.post, true); });
  for (auto &x : NCTX) scanNums(c, c.thorough ? 36 : 16, [&](const Str &b) { roundtrip(c, A, x.pre + b + x.post, true); });
}
FAMILY(C08, positions, "byte strings of every length up to 40 (thorough 70) with each special byte at every position escaped; valid bodies with each escape at every position decoded") {
  MAINAPI;
  scanBodies(c, c.thorough ? 70 : 40, [&](const Str &b) { escapeCase(c, A, b); });
  scanBodies(c, c.thorough ? 70 : 40, [&](const Str &b) { decodeCase(c, A, b, true); });
  for (int n = 1; n <= (c.thorough ? 40 : 20); ++n)
    for (int p = 0; p < n; ++p)
      for (int ch = 0; ch < 256; ++ch) { if (c.only < 0 && c.nshards > 1 && (int)(c.n % c.nshards) != c.shard) { ++c.n; continue; } Str s(n, 'q'); s[p] = (char)ch; escapeCase(c, A, s); }
}
FAMILY(C09, positions, "bodies and literals of every length up to 36 (thorough 70) with each special byte, escape or number character at every position, through all setter forms") {
  MAINAPI;
  scanBodies(c, c.thorough ? 70 : 36, [&](const Str &b) { setterCase(c, A, b, F_STR, false); });
  scanNums(c, c.thorough ? 48 : 36, [&](const Str &b) { setterCase(c, A, b, F_NUM, false); });
}
// ---------------------------------------------------------------- dialects and encodings
static const std::vector<TextCtx> DCTX = {{"[", "]"}, {"{\"k\":", "}"}, {"[1,", "]"}, {"[1", "]"}, {"{\"k\":1", "}"}, {"{", ":1}"}, {"", "1"}, {"[1]", ""}};
FAMILY(C01, dialects, "every sequence of up to 3 (at the root; thorough 4) of 68 tokens of lenient JSON dialects in 9 contexts; in strings, every sequence of up to 3 of 39 multi-byte and markup sequences") {
  MAINAPI;
  auto f = [&](const Str &t) { accept(c, A, t); };
  genTokens(TOK_DIALECT, c.thorough ? 4 : 3, 9, {"", ""}, f);
  for (auto &x : DCTX) genTokens(TOK_DIALECT, c.thorough ? 3 : 2, 9, x, f);
  for (auto &x : SCTX) genTokens(TOK_UTF, c.thorough ? 4 : 2, 1, x, f);
  genTokens(TOK_UTF, 3, 1, {"[\"", "\"]"}, f);
  for (auto &s : SEEDS) // a dialect token inserted at every position, at both ends, twice
    for (auto &d : TOK_DIALECT) {
      for (size_t i = 0; i <= s.size(); ++i) { Str t = s; t.insert(i, d); accept(c, A, t); }
      accept(c, A, d + s + d);
      accept(c, A, s + d + s);
      accept(c, A, d + s + "*/"); accept(c, A, d + "x*/" + s); accept(c, A, d + "x\n" + s);
    }
}
FAMILY(C02, encodings, "every sequence of up to 3 of 39 multi-byte and markup sequences in values and keys, read back with every getter") {
  MAINAPI;
  for (auto &x : {SCTX[0], SCTX[1]}) genTokens(TOK_UTF, 3, 0, x, [&](const Str &t) { fidelity(c, A, t, true); });
}
FAMILY(C03, encodings, "every sequence of up to 2 (thorough 3) of 39 multi-byte and markup sequences in values and keys, serialised and parsed again") {
  MAINAPI;
  for (auto &x : {SCTX[2], SCTX[1]}) genTokens(TOK_UTF, c.thorough ? 3 : 2, 0, x, [&](const Str &t) { roundtrip(c, A, t, true); });
}
FAMILY(C04, dialects, "texts of lenient dialects parsed into every position of documents, which stay intact") {
  MAINAPI;
  for (auto &x : {TextCtx{"", ""}, TextCtx{"[", "]"}, TextCtx{"{\"k\":", "}"}, TextCtx{"{\"k\":[1,{\"z\":2}],", "}"}}) genTokens(TOK_DIALECT, 2, 9, x, [&](const Str &t) { failParse(c, A, t, false); });
}
FAMILY(C08, encodings, "every sequence of up to 3 of 39 multi-byte and markup sequences escaped, and decoded") {
  MAINAPI;
  std::function<void(int, const Str &)> r = [&](int n, const Str &t) { escapeCase(c, A, t); decodeCase(c, A, t, n == 3); if (n) for (auto &u : TOK_UTF) r(n - 1, t + u); };
  r(3, "");
}
FAMILY(C09, dialects, "every sequence of up to 2 (thorough 3) dialect tokens and multi-byte sequences through all 12 setter forms") {
  MAINAPI;
  auto f = [&](const Str &t) { setterCase(c, A, t, F_ALL, false); };
  genTokens(TOK_DIALECT, c.thorough ? 3 : 2, 9, {"", ""}, f);
  genTokens(TOK_DIALECT, 2, 9, {"1", ""}, f);
  genTokens(TOK_DIALECT, 2, 9, {"-", ""}, f);
  genBodies(TOK_UTF, c.thorough ? 3 : 2, 1, "", f);
}
FAMILY(C10, positions, "literals of every length up to 40 (thorough 60) with point, exponent and sign at every position") {
  MAINAPI;
  scanNums(c, c.thorough ? 60 : 40, [&](const Str &b) { literalCase(c, A, b); });
  for (int i = 1; i <= (c.thorough ? 40 : 26); ++i) // integer digits, fraction digits, leading digit, exponent
    for (int f = 0; f <= (c.thorough ? 30 : 24); ++f)
      for (int d = 0; d < 5; ++d) {
        if (c.only < 0 && c.nshards > 1 && (int)(c.n % c.nshards) != c.shard) { ++c.n; continue; }
        Str s(i, "12789"[d]);
        if (f) s += "." + Str(f, "90514"[d]);
        literalCase(c, A, (i + f) % 2 ? s : "-" + s);
      }
  for (int e = -420; e <= 420; e += c.thorough ? 1 : 3)
    for (const char *m : {"1", "9.99", "1.7976931348623157", "4.9", "0", "123456789012345678", "2.2250738585072014"})
      for (int k = 0; k < 3; ++k) { Str s = Str(m) + (k == 0 ? "e" : k == 1 ? "E" : "e0") + std::to_string(e); if (k == 2 && e < 0) s = Str(m) + "E-00" + std::to_string(-e); literalCase(c, A, s); }
}
FAMILY(C16, positions, "keys of every length up to 40 (thorough 80), queried with one byte changed at every position, every proper prefix and suffix; long keys around powers of two up to 2^17") {
  MAINAPI;
  for (int n = 1; n <= (c.thorough ? 80 : 40); ++n)
    for (int how = 0; how < 4; ++how) {
      if (!mine(c)) continue;
      Str k;
      for (int i = 0; i < n; ++i) k += (char)('a' + i * 7 % 26);
      std::vector<Str> q = {k, "", k + k, k + "a"};
      for (int p = 0; p < n; ++p) { for (char ch : {'#', (char)0xff, (char)(k[p] ^ 1), (char)(k[p] ^ 32)}) { Str t = k; t[p] = ch; q.push_back(t); } q.push_back(k.substr(0, p)); q.push_back(k.substr(p + 1)); }
      std::vector<Str> keys = {k.substr(0, n / 2), k.substr(0, n - 1), k + "z", k, k.substr(1), k};
      if (n > 2) { Str t = k; t[n / 2] = '#'; keys.push_back(t); }
      lookupCase(c, A, keys, q, how, n < 24);
    }
  for (size_t n : sizes(0, c.thorough ? 1 << 20 : 140000)) {
    if (n < 64 || !mine(c)) continue;
    Str k(n, 'k');
    for (size_t i = 0; i < n; i += 3) k[i] = (char)('a' + i % 23);
    std::vector<Str> q = {k, k + "k", k.substr(0, n - 1), k.substr(1), "k"};
    for (size_t p : {size_t(0), size_t(1), size_t(7), size_t(8), size_t(15), size_t(16), size_t(31), size_t(63), n / 4, n / 2, n / 2 + 1, n - 9, n - 8, n - 2, n - 1}) if (p < n) { Str t = k; t[p] = '#'; q.push_back(t); }
    std::vector<Str> keys = {q[5], k.substr(0, n - 1), k + "z", k, q.back(), k};
    lookupCase(c, A, keys, q, (int)(n % 4), n < 5000);
  }
}
// ---------------------------------------------------------------- edits at every position of documents of any size
namespace {
struct EdOpt { bool deep = false, noisy = false, retain = false; int origin = 0, locate = 0; };
struct Ed {
  Ctx &c;
  const Api &A;
  EdOpt o;
  void *al = nullptr, *root = nullptr, *other = nullptr;
  RefNode r, ro;
  std::vector<std::pair<const char *, Str>> kept;
  void check() {
    Cmp m{c, A};
    if (o.deep) { m.tree(root, r); m.tree(other, ro); } else { m.quick(root, r); m.quick(other, ro); }
    m.stringify(root, r);
    m.stringify(other, ro);
  }
  void keepAll() {
    const char *s = A.Stringify(root);
    kept.push_back({s, s});
    s = A.Stringify(other);
    kept.push_back({s, s});
  }
  RefNode &at(const std::vector<int> &p) { RefNode *n = &r; for (int i : p) n = &n->kids[i]; return *n; }
  void *find(const std::vector<int> &p) {
    void *h = root;
    RefNode *n = &r;
    for (int i : p) {
      if (o.locate && n->type == T_ARR) h = A.ArrayGet(h, (size_t)i);
      else if (o.locate && [&] { for (int j = 0; j < i; ++j) if (n->kids[j].key == n->kids[i].key) return false; return true; }()) h = o.locate == 1 ? A.ObjGet(h, n->kids[i].key.c_str()) : A.ObjGetLen(h, n->kids[i].key.data(), n->kids[i].key.size());
      else { h = A.Begin(h); for (int j = 0; j < i && h; ++j) h = A.Next(h); }
      if (!h) c.fail("child %d of %zu cannot be reached", i, n->kids.size());
      n = &n->kids[i];
    }
    return h;
  }
  void start(const Str &doc) {
    refParse(doc, r);
    al = A.NewAllocator();
    root = buildDoc(c, A, al, doc, o.origin);
    refParse("{\"o\":[1]}", ro);
    other = A.NewValue(al);
    REQ(A.Parse(other, "{\"o\":[1]}"), "setup");
  }
  static const int NE = 26;
  static const char *name(int e) {
    static const char *N[NE] = {"Move out", "delete by index or key", "SetNull", "SetBool", "SetStr", "SetNumStr", "SetArray", "SetObj", "Parse", "SetKey", "Set from another", "SetFast from another", "move to the end of its parent", "copy to the end of its parent", "Copy, then edit the copy", "append to it", "transfer to another document", "copy to another document", "failing Parse", "failing SetStr", "failing SetKey", "failing SetNumStr", "failing removals", "failing insertions", "Set from itself", "SetStrEscape and SetKeyEscape"};
    return N[e];
  }
  // returns false if the edit does not apply at this position
  bool edit(int e, const std::vector<int> &p) {
    Cmp m{c, A};
    RefNode &n = at(p);
    bool isRoot = p.empty();
    std::vector<int> pp = p;
    if (!isRoot) pp.pop_back();
    RefNode &par = at(pp);
    int i = isRoot ? 0 : p.back();
    auto val = [&](int type, const char *tok) { n.type = type; n.tok = tok; n.kids.clear(); };
    void *h = find(p);
    c.tick();
    switch (e) {
    case 0: {
      if (isRoot) { REQ(A.Move(h), "Move of a root"); return true; }
      RefNode x = n;
      REQ(A.Move(h), "Move of child %d of %zu fails", i, par.kids.size());
      par.kids.erase(par.kids.begin() + i);
      m.tree(h, x, true);
      return true;
    }
    case 1: {
      if (isRoot) return false;
      void *ph = find(pp);
      if (par.type == T_ARR) { REQ(A.ArrayDel(ph, (size_t)i), "ArrayDel(%d) of %zu fails", i, par.kids.size()); par.kids.erase(par.kids.begin() + i); }
      else {
        Str k = n.key;
        int f = 0;
        while (par.kids[f].key != k) ++f;
        REQ(A.ObjDel(ph, G(4).cstr(k)), "ObjDel(%s) fails", show(k, 60).c_str());
        par.kids.erase(par.kids.begin() + f);
      }
      return true;
    }
    case 2: A.SetNull(h); val(T_NULL, "null"); return true;
    case 3: A.SetBool(h, true); val(T_BOOL, "true"); return true;
    case 4: REQ(A.SetStr(h, "z\\tz"), "SetStr"); val(T_STR, "z\\tz"); return true;
    case 5: REQ(A.SetNumStr(h, "-0.25e1"), "SetNumStr"); val(T_NUM, "-0.25e1"); return true;
    case 6: A.SetArray(h); val(T_ARR, ""); return true;
    case 7: A.SetObj(h); val(T_OBJ, ""); return true;
    case 8: {
      RefNode x;
      refParse("[1,{\"q\":\"\"}]", x);
      REQ(A.Parse(h, "[1,{\"q\":\"\"}]"), "Parse");
      x.hasKey = n.hasKey; x.key = n.key;
      n = x;
      return true;
    }
    case 9: {
      bool ok = isRoot || par.type == T_OBJ;
      REQ(A.SetKeyLen(h, "nk", 2) == ok, "SetKeyLen does not return %d", ok);
      if (ok) { n.hasKey = true; n.key = "nk"; }
      return true;
    }
    case 10: case 11: {
      RefNode x = ro;
      void *cp = A.Copy(other);
      REQ(cp, "Copy");
      REQ(A.SetKey(cp, "ck"), "SetKey");
      REQ(e == 10 ? A.Set(h, cp) : A.SetFast(h, cp), "Set fails");
      if (e == 10) { RefNode y = ro; y.hasKey = true; y.key = "ck"; m.quick(cp, y); } else REQ(A.Type(cp) == 0, "source of SetFast is not empty");
      x.hasKey = n.hasKey; x.key = A.setTakesKey && n.hasKey ? "ck" : n.key;
      n = x;
      return true;
    }
    case 12: case 13: {
      if (isRoot) return false;
      void *ph = find(pp);
      RefNode x = n;
      bool ok = par.type == T_ARR ? (e == 12 ? A.ArrayAddFast(ph, h) : A.ArrayAdd(ph, h)) : (e == 12 ? A.ObjAddFast(ph, h) : A.ObjAdd(ph, h));
      REQ(ok, "re-appending child %d of %zu fails", i, par.kids.size());
      if (e == 12) { REQ(A.Type(h) == 0, "source is not empty"); par.kids.erase(par.kids.begin() + i); }
      par.kids.push_back(x);
      return true;
    }
    case 14: {
      void *cp = A.Copy(h);
      REQ(cp, "Copy fails");
      RefNode x = n;
      m.tree(cp, x, true);
      for (void *k = A.Begin(cp); k; k = A.Next(k)) A.SetBool(k, false);
      REQ(A.SetStr(cp, "changed"), "SetStr");
      return true;
    }
    case 15: {
      void *x = A.NewValue(al);
      REQ(A.SetStrLen(x, "new", 3) && A.SetKey(x, "app"), "setup");
      RefNode k;
      k.type = T_STR; k.tok = "new";
      if (n.type == T_ARR) REQ(A.ArrayAddFast(h, x), "ArrayAddFast fails");
      else if (n.type == T_OBJ) { REQ(A.ObjAddFast(h, x), "ObjAddFast fails"); k.hasKey = true; k.key = "app"; }
      else { REQ(!A.ArrayAddFast(h, x) && !A.ObjAddFast(h, x), "insertion into a scalar succeeds"); return true; }
      n.kids.push_back(k);
      return true;
    }
    case 16: case 17: {
      if (isRoot && e == 16) return false; // moving the observed root
      RefNode x = n;
      void *arr = A.Begin(other);
      bool toObj = n.hasKey;
      if (toObj) { REQ(e == 16 ? A.ObjAddFast(other, h) : A.ObjAdd(other, h), "transfer fails"); ro.kids.push_back(x); }
      else { REQ(arr && (e == 16 ? A.ArrayAddFast(arr, h) : A.ArrayAdd(arr, h)), "transfer fails"); if (ro.kids[0].type != T_ARR) c.fail("setup"); ro.kids[0].kids.push_back(x); }
      if (e == 16) par.kids.erase(par.kids.begin() + i);
      return true;
    }
    case 18: REQ(!A.Parse(h, "[1,{\"a\":[2,3") && !A.ParseFast(h, "{\"a\":1,}") && !A.ParseLen(h, "[1]x", 4), "invalid text accepted"); return true;
    case 19: REQ(!A.SetStr(h, "a\"") && !A.SetStrLen(h, "ab\\", 3) && !A.SetStrFast(h, "\\u12") && !A.SetStrLenFast(h, "\x01", 1), "invalid string accepted"); return true;
    case 20: REQ(!A.SetKey(h, "a\"") && !A.SetKeyLen(h, "ab\\", 3) && !A.SetKeyFast(h, "\\u12") && !A.SetKeyLenFast(h, "\x01", 1), "invalid key accepted"); return true;
    case 21: REQ(!A.SetNumStr(h, "01") && !A.SetNumStrLen(h, "1.", 2) && !A.SetNumStrFast(h, "") && !A.SetNumStrLenFast(h, "1e5", 2), "invalid number accepted"); return true;
    case 22:
      if (n.type == T_ARR) REQ(!A.ArrayDel(h, n.kids.size()) && !A.ArrayDel(h, n.kids.size() + 7) && !A.ObjDel(h, ""), "removal succeeds");
      else if (n.type == T_OBJ) REQ(!A.ObjDel(h, "no such key") && !A.ArrayDel(h, 0), "removal succeeds");
      else REQ(!A.ArrayDel(h, 0) && !A.ObjDel(h, "") && !A.ObjDel(h, "a"), "removal from a scalar succeeds");
      return true;
    case 23: {
      void *e0 = A.NewValue(al), *nokey = A.NewValue(al);
      A.SetNull(nokey);
      REQ(!A.ArrayAdd(h, e0) && !A.ArrayAddFast(h, e0) && !A.ObjAdd(h, e0) && !A.ObjAddFast(h, e0) && !A.Set(h, e0) && !A.SetFast(h, e0), "operation with an empty source succeeds");
      REQ(!A.ObjAdd(h, nokey) && !A.ObjAddFast(h, nokey), "ObjAdd of a value without a key succeeds");
      if (n.type != T_ARR) REQ(!A.ArrayAdd(h, nokey) && !A.ArrayAddFast(h, nokey), "ArrayAdd to something else succeeds");
      REQ(A.IsNull(nokey), "the refused value changed");
      return true;
    }
    case 24: REQ(A.Set(h, h), "Set from itself fails"); return true;
    default: {
      if (!A.SetStrEscape) return false;
      REQ(A.SetStrLenEscape(h, "\"\x01", 2), "SetStrLenEscape");
      const char *s = A.GetUnEscapeStr(h);
      REQ(eq(s, "\"\x01"), "escaped text reads back differently");
      size_t l = 0;
      const char *q = A.GetStrFast(h, &l);
      val(T_STR, "");
      n.tok.assign(q, l);
      Str why;
      if (!refEscapeOk(n.tok, "\"\x01", why)) c.fail("%s", why.c_str());
      return true;
    }
    }
  }
};
struct Step { int e; std::vector<int> p; };
bool valid(const RefNode &r, const std::vector<int> &p) { const RefNode *n = &r; for (int i : p) { if (i >= (int)n->kids.size()) return false; n = &n->kids[i]; } return true; }
} // namespace
static void edCase(Ctx &c, const Api &A, const Str &doc, const EdOpt &o, const std::vector<Step> &st) {
  if (c.describe) {
    c.note("adapter %s, document (%zu bytes) %s, built by %s", A.name, doc.size(), show(doc, 100).c_str(), ORIGIN[o.origin]);
    for (auto &s : st) { Str p; for (int i : s.p) p += "/" + std::to_string(i); c.note("  %s at root%s", Ed::name(s.e), p.c_str()); }
  }
  Scope sc(c);
  Ed d{c, A, o};
  d.start(doc);
  if (o.noisy) { d.check(); }
  if (o.retain) d.keepAll();
  for (auto &s : st) {
    if (!valid(d.r, s.p)) break;
    d.edit(s.e, s.p);
    if (o.noisy) d.check();
    if (o.retain) d.keepAll();
  }
  Str h = refDump(d.r);
  c.state(hash64(h.data(), h.size(), 51));
  d.check();
  for (auto &k : d.kept) if (memcmp(k.first, k.second.c_str(), k.second.size() + 1)) c.fail("a text returned earlier changed from %s to %s", show(k.second, 80).c_str(), show(k.first, 80).c_str());
  A.ReleaseAllocator(d.al);
  sc.end();
  if (c.wantSample()) c.sample(show(doc, 60) + ": " + (st.empty() ? "" : Ed::name(st[0].e)));
}
static void pathsAll(const RefNode &r, std::vector<int> &cur, std::vector<std::vector<int>> &out) {
  out.push_back(cur);
  for (size_t i = 0; i < r.kids.size(); ++i) { cur.push_back((int)i); pathsAll(r.kids[i], cur, out); cur.pop_back(); }
}
// small documents: every node, every edit; then every second edit of a subset
static void edSmall(Ctx &c, const Api &A, int nodes, bool pairs, const std::vector<int> &first, const std::vector<int> &second, EdOpt o) {
  genDocs(nodes, [&](const Str &doc) {
    if (!c.block()) return;
    RefNode r;
    refParse(doc, r);
    std::vector<std::vector<int>> ps;
    std::vector<int> cur;
    pathsAll(r, cur, ps);
    int k = 0;
    for (auto &p : ps)
      for (int e : first) {
        EdOpt q = o;
        q.origin = (int)((c.nb + k) % NORIGIN);
        q.locate = (int)((c.nb + k / 2) % 3);
        ++k;
        if (c.takeIn()) edCase(c, A, doc, q, {{e, p}});
        if (pairs) for (auto &p2 : ps) for (int e2 : second) if (c.takeIn()) { q.origin = (q.origin + 1) % NORIGIN; edCase(c, A, doc, q, {{e, p}, {e2, p2}}); }
      }
  });
}
static Str wideDoc(int kind, size_t n) {
  Str s(1, kind == 0 ? '[' : '{');
  if (kind >= 2) s = kind == 2 ? "[" : "{";
  for (size_t i = 0; i < n; ++i) {
    if (i) s += ',';
    if (kind == 1) s += "\"k" + std::to_string(i) + "\":";
    if (kind == 3) s += "\"d" + std::to_string(i % 5) + "\":";
    if (kind == 2 || kind == 3) { static const char *const L[] = {"[]", "{\"q\":[0]}", "\"s\"", "null", "true", "[[1],2]", "-1.5"}; s += L[i % 7]; }
    else s += std::to_string(i);
  }
  return s + ((kind == 0 || kind == 2) ? "]" : "}");
}
static void edWide(Ctx &c, const Api &A, const std::vector<size_t> &ns, const std::vector<int> &first, const std::vector<int> &second, EdOpt o, int npos = 7) {
  for (int kind = 0; kind < 4; ++kind)
    for (size_t n : ns) {
      std::vector<int> pos;
      for (long p : {0L, (long)n - 1, 1L, (long)n / 2, (long)n - 2, 2L, (long)n / 3}) if (p >= 0 && p < (long)n && (int)pos.size() < npos && std::find(pos.begin(), pos.end(), (int)p) == pos.end()) pos.push_back((int)p);
      Str doc;
      std::vector<std::vector<int>> ps = {{}};
      for (int p : pos) ps.push_back({p});
      for (auto &p : ps)
        for (int e : first) {
          if (!c.block()) continue;
          if (doc.empty()) doc = wideDoc(kind, n);
          EdOpt q = o;
          q.origin = n > 300 ? (int)(c.nb % 2) : (int)(c.nb % NORIGIN);
          q.locate = (int)(c.nb % 3);
          if (second.empty()) { if (c.takeIn()) edCase(c, A, doc, q, {{e, p}}); }
          else for (auto &p2 : ps) for (int e2 : second) if (c.takeIn()) edCase(c, A, doc, q, {{e, p}, {e2, p2}});
        }
    }
}
static std::vector<int> allEdits() { std::vector<int> r; for (int i = 0; i < Ed::NE; ++i) r.push_back(i); return r; }
static const std::vector<int> LINK = {0, 1, 9, 10, 11, 12, 13, 15, 16, 17}, UNLINK = {0, 1, 11, 12, 16}, COPYING = {10, 13, 14, 17, 24}, FAILING = {18, 19, 20, 21, 22, 23}, FEW = {0, 1, 12, 15}, TYPED = {2, 3, 4, 5, 6, 7, 8, 9, 10, 25};
static std::vector<size_t> range(size_t a, size_t b) { std::vector<size_t> r; for (size_t i = a; i <= b; ++i) r.push_back(i); return r; }
static std::vector<size_t> widths(bool th) { std::vector<size_t> r = range(3, th ? 70 : 20); for (size_t n : {31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257}) if (r.back() < n) r.push_back(n); return r; }
static std::vector<size_t> bigWidths(bool th) { std::vector<size_t> r = {511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000}; if (th) for (size_t n : {8192, 8193, 10001, 16384, 16385, 32769, 65535, 65536, 65537, 100001}) r.push_back(n); return r; }
FAMILY(C05, edits, "every document of up to 3 (thorough 4) nodes: every edit (26 kinds) at every node followed by every edit at every node; documents of 4 (thorough 5) nodes: every edit at every node; all origins, located three ways") {
  MAINAPI;
  EdOpt o;
  edSmall(c, A, c.thorough ? 4 : 3, true, allEdits(), allEdits(), o);
  edSmall(c, A, c.thorough ? 5 : 4, false, allEdits(), {}, o);
}
FAMILY(C05, wide, "arrays and objects (plain, mixed, repeated keys) with 3..20 (thorough 70) children and around powers of two to 256, pairs of linking edits at up to 7 positions; up to 5000 (thorough 100001) children single edits") {
  MAINAPI;
  EdOpt o;
  edWide(c, A, widths(c.thorough), LINK, c.thorough ? LINK : UNLINK, o, c.thorough ? 7 : 4);
  edWide(c, A, bigWidths(c.thorough), allEdits(), {}, o);
}
FAMILY(C07, edits, "every document of up to 4 nodes: every removal or insertion at every node, followed by every removal at every node; deep comparison") {
  MAINAPI;
  EdOpt o;
  o.deep = true;
  edSmall(c, A, c.thorough ? 4 : 3, true, LINK, LINK, o);
  edSmall(c, A, 4, true, UNLINK, {0, 1}, o);
}
FAMILY(C07, wide, "containers with 3..20 children and around powers of two to 256: pairs of removals and insertions at up to 7 positions; up to 5000 (thorough 100001) children: pairs from few positions") {
  MAINAPI;
  EdOpt o;
  edWide(c, A, widths(c.thorough), UNLINK, UNLINK, o, 7);
  edWide(c, A, bigWidths(c.thorough), UNLINK, FEW, o, 3);
}
FAMILY(C04, wide, "every kind of failing operation at every node of every document of up to 4 nodes and at up to 7 positions of containers with up to 257 (few positions: 5000) children, then a removal or insertion") {
  MAINAPI;
  EdOpt o;
  o.deep = true;
  edSmall(c, A, 3, true, FAILING, {0, 1, 4, 8, 9, 10, 11, 12, 15, 16}, o);
  edSmall(c, A, c.thorough ? 5 : 4, false, FAILING, {}, o);
  edWide(c, A, widths(c.thorough), FAILING, FEW, o, 4);
  edWide(c, A, bigWidths(c.thorough), FAILING, {12}, o, 2);
}
FAMILY(C06, edits, "every document of up to 4 nodes: every copying operation at every node, then every edit at every node; wide containers") {
  MAINAPI;
  EdOpt o;
  o.deep = true;
  edSmall(c, A, c.thorough ? 4 : 3, true, COPYING, allEdits(), o);
  edSmall(c, A, c.thorough ? 5 : 4, false, COPYING, {}, o);
  edWide(c, A, widths(c.thorough), COPYING, FEW, o, 4);
  edWide(c, A, bigWidths(c.thorough), COPYING, {}, o, 3);
}
FAMILY(C03, edits, "every document of up to 3 nodes and wide containers after every pair of edits: Stringify of the root and of another document that received values") {
  MAINAPI;
  EdOpt o;
  o.noisy = true;
  edSmall(c, A, 3, true, allEdits(), LINK, o);
  edSmall(c, A, c.thorough ? 5 : 4, false, allEdits(), {}, o);
  edWide(c, A, widths(c.thorough), LINK, {}, o);
  edWide(c, A, bigWidths(c.thorough), LINK, {}, o, 3);
}
FAMILY(C12, edits, "every document of up to 3 nodes and wide containers: all texts returned before, between and after every pair of edits stay unchanged") {
  for (const char *nm : {"main", "tiny"}) {
    const Api &A = *api(nm);
    EdOpt o;
    o.retain = true;
    edSmall(c, A, 3, true, allEdits(), TYPED, o);
    edWide(c, A, widths(c.thorough), allEdits(), {}, o);
    edWide(c, A, bigWidths(c.thorough), allEdits(), {}, o, 2);
  }
}
FAMILY(C20, wide, "every getter on every child of containers with up to 257 (few edits: 5000) children before, between and after edits; every document of up to 3 nodes with pairs of edits") {
  MAINAPI;
  EdOpt o;
  o.noisy = o.deep = true;
  edSmall(c, A, 3, true, LINK, TYPED, o);
  edWide(c, A, widths(c.thorough), allEdits(), {}, o, 5);
  edWide(c, A, bigWidths(c.thorough), LINK, {}, o, 2);
}
FAMILY(C16, wide, "containers with up to 257 (few edits: 5000) children, located by index or key; after each edit all indices and keys are looked up again") {
  MAINAPI;
  EdOpt o;
  o.noisy = o.deep = true;
  edWide(c, A, widths(c.thorough), LINK, c.thorough ? UNLINK : std::vector<int>{0, 12}, o, 4);
  edWide(c, A, bigWidths(c.thorough), LINK, {}, o, 4);
}
// ---------------------------------------------------------------- C16: lookups through edit histories
namespace {
struct KeySpace {
  Ctx &c;
  const Api &A;
  int origin;
  bool arr;
  std::vector<int> init;
  static const Str &K(int i) { static const Str k[] = {"a", "", "aa", "b", "a\\u0062"}; return k[i]; }
  struct O { int k, i, key; };
  static const char *N(int k) { static const char *n[] = {"append (Fast)", "append (copy)", "delete", "rename", "move out and append again", "set value of", "copy over with SetFast", "move to the end"}; return n[k]; }
  void ops(int n, std::vector<O> &r) const {
    int nk = arr ? 1 : 4;
    for (int q = 0; q < nk; ++q) { if (n < 5) { r.push_back({0, n, q}); if (q < 2) r.push_back({1, n, q}); } }
    if (!arr) for (int q = 0; q < 4; ++q) r.push_back({2, 0, q});
    else for (int i = 0; i <= n; ++i) r.push_back({2, i, 0});
    for (int i = 0; i < n; ++i) {
      if (!arr) for (int q = 0; q < 5; q += (i ? 2 : 1)) r.push_back({3, i, q});
      r.push_back({4, i, 0});
      r.push_back({5, i, 0});
      r.push_back({6, i, 0});
      r.push_back({7, i, 0});
    }
  }
  typedef std::vector<std::pair<int, int>> Li; // key, id
  static int first(const Li &l, int k) { for (size_t i = 0; i < l.size(); ++i) if (l[i].first == k) return (int)i; return -1; }
  void query(void *v, const Li &l, int round) {
    auto num = [&](void *h) { size_t n = 0; const char *p = h ? A.GetNumFast(h, &n) : nullptr; return p ? atoi(Str(p, n).c_str()) : -1; };
    if (A.SizeOf(v) != l.size()) c.fail("SizeOf is %zu, expected %zu", A.SizeOf(v), l.size());
    if (arr) {
      for (int q = 0; q <= (int)l.size() + 1; ++q) {
        int i = round % 2 ? (int)l.size() + 1 - q : q;
        int w = i < (int)l.size() ? l[i].second : -1, g = num((c.tick(), A.ArrayGet(v, (size_t)i)));
        if (g != w) c.fail("ArrayGet(%d) of %zu gives element %d, expected %d", i, l.size(), g, w);
      }
    } else
      for (int q = 0; q < 5; ++q) {
        int k = round % 2 ? 4 - q : q;
        int f = first(l, k), w = f < 0 ? -1 : l[f].second;
        int g = num((c.tick(), A.ObjGet(v, G(0).cstr(K(k)))));
        if (g != w) c.fail("ObjGet('%s') gives member %d, expected %d", K(k).c_str(), g, w);
        g = num((c.tick(), A.ObjGetLen(v, G(0).raw(K(k)), K(k).size())));
        if (g != w) c.fail("ObjGetLen('%s') gives member %d, expected %d", K(k).c_str(), g, w);
      }
    size_t i = 0;
    for (void *h = A.Begin(v); h; h = A.Next(h), ++i) if (i >= l.size() || num(h) != l[i].second) c.fail("child %zu is %d", i, num(h));
    if (i != l.size()) c.fail("enumeration yields %zu of %zu", i, l.size());
  }
  void run(const std::vector<O> &seq, bool noisy) {
    if (c.describe) { c.note("%s of %zu, built by %s, %s", arr ? "array" : "object", init.size(), ORIGIN[origin], noisy ? "looked up after every step" : "looked up at the end"); for (int k : init) c.note("  initial key '%s'", K(k).c_str()); for (auto &o : seq) c.note("  %s %d key '%s'", N(o.k), o.i, K(o.key).c_str()); }
    Scope sc(c);
    void *al = A.NewAllocator();
    Li l;
    Str t(1, arr ? '[' : '{');
    for (int k : init) { if (!l.empty()) t += ","; if (!arr) t += "\"" + K(k) + "\":"; t += std::to_string(l.size()); l.push_back({k, (int)l.size()}); }
    t += arr ? ']' : '}';
    void *v = buildDoc(c, A, al, t, origin);
    int next = (int)l.size();
    auto kid = [&](int i) { void *h = A.Begin(v); for (int j = 0; j < i && h; ++j) h = A.Next(h); if (!h) c.fail("child %d missing", i); return h; };
    if (noisy) query(v, l, 0);
    int round = 0;
    for (auto &o : seq) {
      c.tick();
      switch (o.k) {
      case 0: case 1: {
        void *x = A.NewValue(al);
        REQ(A.SetNumStr(x, std::to_string(next).c_str()), "SetNumStr");
        if (!arr) REQ(A.SetKey(x, K(o.key).c_str()), "SetKey");
        REQ(arr ? (o.k ? A.ArrayAdd(v, x) : A.ArrayAddFast(v, x)) : (o.k ? A.ObjAdd(v, x) : A.ObjAddFast(v, x)), "append fails");
        l.push_back({o.key, next++});
        break;
      }
      case 2: {
        int f = arr ? (o.i < (int)l.size() ? o.i : -1) : first(l, o.key);
        bool g = arr ? A.ArrayDel(v, (size_t)o.i) : A.ObjDel(v, G(0).cstr(K(o.key)));
        if (g != (f >= 0)) c.fail("deletion returns %d", g);
        if (f >= 0) l.erase(l.begin() + f);
        break;
      }
      case 3: REQ(A.SetKeyLen(kid(o.i), G(0).raw(K(o.key)), K(o.key).size()), "SetKeyLen fails"); l[o.i].first = o.key; break;
      case 4: {
        void *h = kid(o.i);
        REQ(A.Move(h), "Move fails");
        REQ(arr ? A.ArrayAdd(v, h) : A.ObjAdd(v, h), "append fails");
        auto x = l[o.i]; l.erase(l.begin() + o.i); l.push_back(x);
        break;
      }
      case 5: REQ(A.SetNumStr(kid(o.i), std::to_string(next).c_str()), "SetNumStr"); l[o.i].second = next++; break;
      case 6: {
        void *x = A.NewValue(al);
        REQ(A.SetNumStr(x, std::to_string(next).c_str()) && A.SetKey(x, "b"), "setup");
        REQ(A.SetFast(kid(o.i), x), "SetFast fails");
        l[o.i].second = next++;
        if (A.setTakesKey && !arr) l[o.i].first = 3;
        break;
      }
      default: {
        void *h = kid(o.i);
        REQ(arr ? A.ArrayAddFast(v, h) : A.ObjAddFast(v, h), "append fails");
        auto x = l[o.i]; l.erase(l.begin() + o.i); l.push_back(x);
      }
      }
      if (noisy) query(v, l, ++round);
    }
    Str hs;
    for (auto &x : l) { hs += (char)('0' + x.first); hs += (char)('0' + x.second); }
    c.state(hash64(hs.data(), hs.size(), 160 + arr));
    query(v, l, 0);
    query(v, l, 1);
    A.ReleaseAllocator(al);
    sc.end();
    if (c.wantSample()) { Str s; for (auto &o : seq) s += Str(N(o.k)) + " " + std::to_string(o.i) + "; "; c.sample(s); }
  }
  void rec(int n, std::vector<O> &seq, int depth, const Li &l) {
    std::vector<O> r;
    ops(n, r);
    for (auto &o : r) {
      if (seq.empty() && !c.block()) continue;
      int n2 = n;
      Li l2 = l;
      if (o.k < 2) { ++n2; l2.push_back({o.key, 0}); }
      if (o.k == 2) { if (arr) { if (o.i < n) { --n2; l2.pop_back(); } } else { int f = first(l2, o.key); if (f >= 0) { l2.erase(l2.begin() + f); --n2; } } }
      if (o.k == 3) l2[o.i].first = o.key;
      if (o.k == 6 && A.setTakesKey && !arr) l2[o.i].first = 3;
      if (o.k == 4 || o.k == 7) { auto x = l2[o.i]; l2.erase(l2.begin() + o.i); l2.push_back(x); }
      seq.push_back(o);
      if (c.takeIn()) run(seq, true);
      if (depth == 1 && c.takeIn()) run(seq, false);
      if (depth > 1) rec(n2, seq, depth - 1, l2);
      seq.pop_back();
    }
  }
};
} // namespace
FAMILY(C16, histories, "objects with every sequence of up to 2 (some of 3) of 4 keys and arrays of up to 4 elements: every sequence of up to 3 (thorough 4; arrays one more) appends, deletions, renames, moves and overwrites; every key or index looked up after every step, and only at the end") {
  MAINAPI;
  std::vector<std::vector<int>> in = {{}};
  for (int a = 0; a < 4; ++a) { in.push_back({a}); for (int b = 0; b < 4; ++b) in.push_back({a, b}); }
  in.push_back({0, 2, 0}); in.push_back({3, 0, 1}); in.push_back({1, 1, 0});
  int q = 0;
  for (auto &i : in)
    for (int org = 0; org < (c.thorough ? NORIGIN : 2); ++org) {
      KeySpace k{c, A, c.thorough ? org : org ? 1 + q++ % (NORIGIN - 1) : 0, false, i};
      KeySpace::Li l;
      for (int x : i) l.push_back({x, 0});
      std::vector<KeySpace::O> seq;
      k.rec((int)i.size(), seq, c.thorough ? 4 : i.size() > 2 ? 2 : 3, l);
    }
  for (int n = 0; n <= 4; ++n)
    for (int org = 0; org < NORIGIN; ++org) {
      KeySpace k{c, A, org, true, std::vector<int>(n, 0)};
      KeySpace::Li l(n, {0, 0});
      std::vector<KeySpace::O> seq;
      k.rec(n, seq, c.thorough ? 5 : org < 2 && n < 4 ? 4 : 3, l);
    }
}
// ---------------------------------------------------------------- C06: copies do not depend on caller memory of the source
static void fastSource(Ctx &c, const Api &A, const Str &t, int how) {
  if (!mine(c)) return;
  RefNode r;
  if (!refParse(t, r)) return;
  c.note("source %s built without copying (%s), copied, then the memory is overwritten", show(t, 100).c_str(), how ? "Fast setters" : "ParseFast");
  c.state(hash64(t.data(), t.size(), 60 + how));
  for (int rel = 0; rel < (A.setTakesKey ? 1 : 3); ++rel) { // same allocator; other allocator; other allocator, source released
    Scope sc(c);
    Cmp m{c, A};
    void *a1 = A.NewAllocator(), *a2 = rel ? A.NewAllocator() : a1;
    std::vector<std::pair<char *, size_t>> mem;
    auto hold = [&](const Str &s) { char *p = new char[s.size() + 1]; memcpy(p, s.c_str(), s.size() + 1); mem.push_back({p, s.size()}); return p; };
    std::function<void *(const RefNode &)> mk = [&](const RefNode &n) -> void * {
      void *v = A.NewValue(a1);
      bool ok = true;
      switch (n.type) {
      case T_STR: ok = mem.size() % 2 ? A.SetStrFast(v, hold(n.tok)) : A.SetStrLenFast(v, hold(n.tok), n.tok.size()); break;
      case T_NUM: ok = mem.size() % 2 ? A.SetNumStrFast(v, hold(n.tok)) : A.SetNumStrLenFast(v, hold(n.tok), n.tok.size()); break;
      case T_BOOL: A.SetBool(v, n.tok == "true"); break;
      case T_NULL: A.SetNull(v); break;
      case T_ARR: A.SetArray(v); for (auto &k : n.kids) ok &= A.ArrayAddFast(v, mk(k)); break;
      default: A.SetObj(v); for (auto &k : n.kids) { void *x = mk(k); ok &= mem.size() % 2 ? A.SetKeyFast(x, hold(k.key)) : A.SetKeyLenFast(x, hold(k.key), k.key.size()); ok &= A.ObjAddFast(v, x); }
      }
      if (!ok) c.fail("setup");
      return v;
    };
    void *s;
    if (how == 0) { s = A.NewValue(a1); REQ(A.ParseFast(s, hold(t)), "ParseFast refuses %s", show(t).c_str()); }
    else s = mk(r);
    r.hasKey = true; r.key = "kk";
    REQ(how & 1 ? A.SetKeyFast(s, hold("kk")) : A.SetKeyLenFast(s, hold("kk"), 2), "SetKeyFast");
    void *set = A.NewValue(a2), *over = A.NewValue(a2), *arr = A.NewValue(a2), *obj = A.NewValue(a2), *cp = A.Copy(s), *kid = A.NewValue(a2);
    A.SetBool(over, true);
    A.SetArray(arr);
    A.SetObj(obj);
    REQ(cp && A.Set(set, s) && A.Set(over, s) && A.ArrayAdd(arr, s) && A.ObjAdd(obj, s), "copying fails");
    REQ(A.Parse(kid, "[1,2]") && A.Set(A.Begin(kid), s), "Set into a child fails");
    m.quick(s, r);
    for (auto &p : mem) memset(p.first, '"', p.second);
    if (rel == 2) A.ReleaseAllocator(a1);
    RefNode nk = r, ra, ro;
    nk.hasKey = false; nk.key.clear();
    ra.type = T_ARR; ra.kids.push_back(nk);
    ro.type = T_OBJ; ro.kids.push_back(r);
    if (rel < 2) { m.tree(cp, r); m.stringify(cp, r); }
    m.tree(set, r);
    m.tree(over, nk);
    m.tree(arr, ra);
    m.tree(obj, ro);
    m.stringify(obj, ro);
    RefNode x; x.type = T_NUM; x.tok = "2"; ra.kids.push_back(x);
    m.tree(kid, ra);
    if (rel < 2) A.ReleaseAllocator(a1);
    if (rel) A.ReleaseAllocator(a2);
    for (auto &p : mem) delete[] p.first;
    sc.end();
    r.hasKey = false; r.key.clear();
  }
  if (c.wantSample()) c.sample(show(t, 100));
}
FAMILY(C06, fast_source, "every document of up to 4 (thorough 5) nodes, all seeds in contexts, and large shapes, built with the non-copying operations; copied by every copying operation into the same or another allocator; then the caller memory behind the source is overwritten and the source released") {
  MAINAPI;
  for (int how = 0; how < 2; ++how) {
    genDocs(c.thorough ? 5 : 4, [&](const Str &t) { fastSource(c, A, t, how); });
    for (auto &s : SEEDS) for (auto &x : CTX_VALUE) fastSource(c, A, x.pre + s + x.post, how);
    for (auto &k : SIZE_KINDS) for (size_t n : sizes(c.thorough ? 200 : 40, std::min<size_t>(k.maxn, 2100))) if (k.maxn > 4000 || n < 900) { if (c.only < 0 && c.nshards > 1 && (int)(c.n % c.nshards) != c.shard) { ++c.n; continue; } fastSource(c, A, k.make(n), how); }
  }
}
// ---------------------------------------------------------------- tokens of equal length: nothing is overwritten in place
static void tokHist(Ctx &c, const Api &A, int depth, const HistOpt &o, size_t nw) {
  Ops s = opsTok();
  exploreHist(c, A, pickWorlds(worldsTok(false), nw), std::vector<Ops>(depth, s), o);
}
#define TOKWHAT "every sequence of up to 2 (from some worlds 3) setters, copies and parses with texts of the same, smaller and larger length as those already stored, over 4 handles; documents parsed, parsed in place and copied; "
FAMILY(C05, tokens, TOKWHAT "everything observed and probed") { MAINAPI; HistOpt o; tokHist(c, A, 2, o, 1000); tokHist(c, A, 3, o, c.thorough ? 20 : 1); }
FAMILY(C06, tokens, TOKWHAT "everything observed and probed; also with source and copy in different allocators") {
  MAINAPI;
  HistOpt o;
  tokHist(c, A, 2, o, 1000);
  tokHist(c, A, 3, o, c.thorough ? 20 : 2);
  for (int rel = -1; rel <= 1; ++rel) { o.release = rel; Ops s = opsTok(); exploreHist(c, A, pickWorlds(worldsTok(true), 1000), {s, s}, o); }
}
FAMILY(C12, tokens, TOKWHAT "texts returned earlier and all caller buffers must stay intact") { HistOpt o; o.retain = true; tokHist(c, *mainApi(), 2, o, 1000); tokHist(c, *api("tiny"), 2, o, 1000); tokHist(c, *mainApi(), 3, o, c.thorough ? 20 : 1); }
FAMILY(C04, tokens, TOKWHAT "last operation fails") {
  MAINAPI;
  HistOpt o;
  o.deepObs = true;
  Ops s = opsTok();
  exploreHist(c, A, worldsTok(false), {s, s}, o, true, true);
  exploreHist(c, A, pickWorlds(worldsTok(false), c.thorough ? 20 : 2), {s, s, s}, o, true, true);
}
FAMILY(C09, tokens, TOKWHAT "everything read back") { MAINAPI; HistOpt o; o.deepObs = true; tokHist(c, A, 2, o, 1000); }
FAMILY(C20, tokens, TOKWHAT "every getter between the steps") { MAINAPI; HistOpt o; o.noisy = o.deepObs = true; tokHist(c, A, 2, o, c.thorough ? 1000 : 12); }
FAMILY(C03, tokens, TOKWHAT "Stringify of every value") { MAINAPI; HistOpt o; o.strings = true; tokHist(c, A, 2, o, 1000); }
// ---------------------------------------------------------------- every amount of room left in the current memory block
#define ROOMWHAT "every operation with every amount of room (0..149 bytes; thorough 0..219) left in the current memory block; "
static void room(Ctx &c, const HistOpt &o) { roomHist(c, *mainApi(), c.thorough ? 1 : 0, 0xFF, &o); roomHist(c, *api("tiny"), c.thorough ? 1 : 0, 0x22, &o); }
FAMILY(C05, room, ROOMWHAT "observed and probed") { HistOpt o; room(c, o); }
FAMILY(C12, room, ROOMWHAT "returned texts stay unchanged") { HistOpt o; o.retain = true; room(c, o); }
FAMILY(C03, room, ROOMWHAT "every value serialised") { HistOpt o; o.strings = true; room(c, o); }
FAMILY(C06, room, ROOMWHAT "copies are complete") { HistOpt o; o.deepObs = true; room(c, o); }
// ---------------------------------------------------------------- repetition
// ops that leave the document as it is (or the same after every repetition), many times
static void repeatHist(Ctx &c, const Api &A, int times, bool failing, bool retain, size_t nw) {
  Ops full = opsFull();
  for (auto &w : pickWorlds(worlds(1, false), nw)) {
    Model m0 = modelOf(w, A.setTakesKey);
    for (auto &q : full) {
      if (!c.block()) continue;
      if (!opAvailable(A, q) || !m0.allowed(q)) continue;
      Model m = m0;
      int r1 = m.apply(q);
      if (m.over || (failing && r1 != 0) || !m.allowed(q)) continue;
      uint64_t h1 = m.hash();
      Model m2 = m;
      int r2 = m2.apply(q);
      if (m2.over || r2 != r1 || m2.hash() != h1) continue;
      if (!c.takeIn()) continue;
      HistOpt o;
      o.mode = 2;
      o.retain = retain;
      o.deepObs = true;
      o.repeat = times;
      runHist(c, A, w, m0, {q}, o);
    }
  }
}
static int REPS(Ctx &c) { return c.thorough ? 300000 : 140000; }
FAMILY(C04, repeat, "every failing operation from 6 (thorough 30) worlds, repeated 140000 (thorough 300000) times; document unchanged and editable") { repeatHist(c, *mainApi(), REPS(c), true, false, c.thorough ? 30 : 6); }
FAMILY(C05, repeat, "every operation whose repetition leads to the same state, repeated 140000 (thorough 300000) times from 4 (thorough 20) worlds") { repeatHist(c, *mainApi(), REPS(c), false, false, c.thorough ? 20 : 4); }
FAMILY(C12, repeat, "texts returned before 140000 (thorough 300000) repetitions of an operation stay unchanged") { repeatHist(c, *mainApi(), REPS(c), false, true, c.thorough ? 12 : 2); }
FAMILY(C20, repeat, "every read 140000 (thorough 300000) times on one value of each type: always the same answer, then edits work") {
  MAINAPI;
  for (const char *t : {"\"a\\n\\u00e9\"", "-12.5", "true", "false", "null", "[1,2,3]", "{\"a\":1,\"b\":2}", "[]", "{}", ""})
    for (int part = 0; part < 8; ++part) {
      if (!mine(c)) continue;
      c.note("%d times reads %d of value %s", REPS(c), part, t);
      Scope sc(c, 0xA5, 2);
      void *al = A.NewAllocator();
      void *v = A.NewValue(al);
      RefNode r;
      if (*t) { refParse(t, r); REQ(A.Parse(v, t), "setup"); }
      Cmp m{c, A};
      Str d = refDump(r);
      bool str = r.type == T_STR, num = r.type == T_NUM;
      for (int i = 0; i < REPS(c); ++i) {
        size_t l = 0;
        switch (part) {
        case 0: if ((A.GetStr(v) != nullptr) != str || A.Type(v) != r.type) c.fail("GetStr or Type changed after %d reads", i); break;
        case 1: { const char *u = A.GetUnEscapeStr(v); if ((u != nullptr) != str || (str && strcmp(u, "a\n\xc3\xa9"))) c.fail("GetUnEscapeStr changed after %d reads", i); break; }
        case 2: { const double *p = A.GetNum(v); if ((p != nullptr) != num || (num && *p != -12.5)) c.fail("GetNum changed after %d reads", i); if (!A.GetInt) break; p = A.GetDouble(v); if ((p != nullptr) != num || (num && *p != -12.5)) c.fail("GetDouble changed after %d reads", i); const int *q = A.GetInt(v); if ((q != nullptr) != num || (num && *q != -12)) c.fail("GetInt changed after %d reads", i); break; }
        case 3: if (!eq(A.Stringify(v), d)) c.fail("Stringify changed after %d reads", i); break;
        case 4: { void *b = A.Begin(v); if ((b != nullptr) != !r.kids.empty()) c.fail("Begin changed after %d reads", i); if (b && (A.Next(b) == nullptr) != (r.kids.size() < 2)) c.fail("Next changed after %d reads", i); break; }
        case 5: { void *b = A.ObjGet(v, "b"); if ((b != nullptr) != (r.type == T_OBJ && r.kids.size() == 2)) c.fail("ObjGet changed after %d reads", i); b = A.ArrayGet(v, 1); if ((b != nullptr) != (r.type == T_ARR && r.kids.size() == 3)) c.fail("ArrayGet changed after %d reads", i); break; }
        case 6: if ((A.Copy(v) != nullptr) != (*t != 0)) c.fail("Copy changed after %d reads", i); break;
        default: if (A.GetBool(v) != (r.type == T_BOOL ? r.tok == "true" : -1) || A.IsNull(v) != (r.type == T_NULL) || A.SizeOf(v) != r.kids.size() || A.GetKey(v) || (A.GetNumFast(v, &l) != nullptr) != num || (num && l != 5) || (A.GetNumStr(v) != nullptr) != num) c.fail("a read changed after %d reads", i);
        }
      }
      c.transitions += 2 * REPS(c);
      if (*t) m.tree(v, r); else m.empty(v);
      A.ReleaseAllocator(al);
      sc.end();
    }
}
FAMILY(C07, repeat, "a container of 1..5 (and 300) children rotated 140000 (thorough 300000) times by re-appending the first, moving out and re-inserting, or transferring between two containers") {
  MAINAPI;
  for (int n : {1, 2, 3, 5, 300})
    for (int obj = 0; obj < 2; ++obj)
      for (int how = 0; how < 3; ++how) {
        if (!mine(c)) continue;
        c.note("%s of %d, rotation kind %d", obj ? "object" : "array", n, how);
        Scope sc(c, 0xA5, 2);
        void *al = A.NewAllocator();
        Str t = wideDoc(obj, n);
        RefNode r, e;
        refParse(t, r);
        e.type = r.type;
        void *v = A.NewValue(al), *w = A.NewValue(al);
        REQ(A.Parse(v, t.c_str()), "setup");
        if (obj) A.SetObj(w); else A.SetArray(w);
        auto add = [&](void *d, void *h) { return obj ? A.ObjAddFast(d, h) : A.ArrayAddFast(d, h); };
        const int K = REPS(c);
        for (int i = 0; i < K; ++i) {
          void *h = A.Begin(v);
          if (!h) c.fail("no first child after %d rotations", i);
          if (how == 1) { if (!A.Move(h)) c.fail("Move fails after %d rotations", i); }
          if (how == 2) { if (!add(w, h)) c.fail("insertion fails after %d rotations", i); h = A.Begin(w); }
          if (!add(v, h)) c.fail("insertion fails after %d rotations", i);
        }
        c.transitions += 3 * K;
        std::rotate(r.kids.begin(), r.kids.begin() + K % n, r.kids.end());
        Cmp m{c, A};
        m.tree(v, r);
        m.tree(w, e);
        m.stringify(v, r);
        A.ReleaseAllocator(al);
        sc.end();
      }
}
