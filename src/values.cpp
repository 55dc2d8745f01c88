// C08 escaping, C09 setter validation, C10 numbers, C16 lookup, C17 scale, C20 typed reads.
#include "values.h"
#include <cmath>
#include <sys/resource.h>
#define MAINAPI const Api &A = *mainApi(); (void)A
#define REQ(cond, ...) do { c.tick(); if (!(cond)) c.fail(__VA_ARGS__); } while (0)
static Guard &G(int i) { static Guard *g[4] = {new Guard(1 << 16), new Guard(1 << 16), new Guard(1 << 16), new Guard(1 << 16)}; return *g[i]; }
static bool mine(Ctx &c) { // true if the next case is ours; otherwise it is counted and skipped
  if (c.only < 0 && c.nshards > 1 && (int)(c.n % c.nshards) != c.shard) { ++c.n; return false; }
  return c.take();
}
static bool eq(const char *p, SV s) { return p && strlen(p) == s.size() && !memcmp(p, s.data(), s.size()); }

// ---------------------------------------------------------------- C08
// store bytes through each escaping setter and read them back in every way
void escapeCase(Ctx &c, const Api &A, const Str &b) {
  if (!A.SetStrEscape) return;
  if (!mine(c)) return;
  c.note("bytes (%zu): %s", b.size(), show(b).c_str());
  c.state(hash64(b.data(), b.size(), 8));
  Scope sc(c);
  void *al = A.NewAllocator();
  bool nul = b.find('\0') != Str::npos;
  Str why;
  for (int form = 0; form < 4; ++form) { // StrEscape StrLenEscape KeyEscape KeyLenEscape
    bool isKey = form >= 2, len = form & 1;
    if (nul && !len) continue;
    void *doc = A.NewValue(al);
    REQ(A.Parse(doc, "{\"a\":1,\"b\":[2],\"c\":3}"), "setup");
    for (int tgt = 0; tgt < 2; ++tgt) {
      void *v = tgt ? A.Next(A.Begin(doc)) : A.NewValue(al);
      const char *p = len ? G(0).raw(b) : G(0).cstr(b);
      bool ok = form == 0 ? A.SetStrEscape(v, p) : form == 1 ? A.SetStrLenEscape(v, p, b.size()) : form == 2 ? A.SetKeyEscape(v, p) : A.SetKeyLenEscape(v, p, b.size());
      REQ(ok, "escaping setter %d refuses %s", form, show(b).c_str());
      REQ(G(0).intact(b), "input modified");
      G(0).scribble();
      const char *e = isKey ? A.GetKey(v) : A.GetStr(v);
      REQ(e, "nothing stored");
      Str esc = e;
      if (!refEscapeOk(esc, b, why)) c.fail("bytes %s are stored as %s: %s", show(b).c_str(), show(esc).c_str(), why.c_str());
      const char *u = isKey ? A.GetUnEscapeKey(v) : A.GetUnEscapeStr(v);
      REQ(eq(u, cview(b)), "bytes %s come back as %s", show(b).c_str(), u ? show(u).c_str() : "(null)");
      if (!isKey) REQ(A.Type(v) == T_STR, "type after SetStrEscape");
      Str want = tgt ? (isKey ? "{\"a\":1,\"" + esc + "\":[2],\"c\":3}" : "{\"a\":1,\"b\":\"" + esc + "\",\"c\":3}") : (isKey ? Str("null") : "\"" + esc + "\"");
      REQ(eq(A.Stringify(tgt ? doc : v), want), "Stringify gives %s, expected %s", show(A.Stringify(tgt ? doc : v)).c_str(), show(want).c_str());
      if (tgt) {
        void *w = A.NewValue(al);
        REQ(A.Parse(w, want.c_str()), "stored form is not accepted by Parse: %s", show(want).c_str());
      }
    }
  }
  A.ReleaseAllocator(al);
  sc.end();
  if (c.wantSample()) c.sample(show(b, 100));
}
FAMILY(C08, escape_bytes, "every byte string of length 0..2 and every string of up to 4 of 14 special bytes, through the four escaping setters, into an empty value and an object member") {
  MAINAPI;
  for (int n = 0; n <= 2; ++n) genBytes(n, {"", ""}, [&](const Str &t) { escapeCase(c, A, t); });
  std::vector<Str> al = {Str(1, 0), "\x01", "\x08", "\t", "\n", "\x0c", "\r", "\x1f", "\"", "\\", "/", "a", "\x7f", "\xff"};
  for (int n = 3; n <= (c.thorough ? 5 : 4); ++n) {
    uint64_t tot = 1;
    for (int i = 0; i < n; ++i) tot *= al.size();
    for (uint64_t k = 0; k < tot; ++k) {
      if (c.only < 0 && (int)(c.n % c.nshards) != c.shard) { ++c.n; continue; }
      Str t;
      uint64_t q = k;
      for (int i = 0; i < n; ++i) { t += al[q % al.size()]; q /= al.size(); }
      escapeCase(c, A, t);
    }
  }
}
FAMILY(C08, escape_sizes, "all-special and mixed byte strings of every length up to 400 (thorough 3000) and around powers of two") {
  MAINAPI;
  for (size_t n : sizes(c.thorough ? 3000 : 400, c.thorough ? 1 << 20 : 20000))
    for (int k = 0; k < 6; ++k) {
      if (c.only < 0 && (int)(c.n % c.nshards) != c.shard) { ++c.n; continue; }
      Str t;
      switch (k) {
      case 0: t = Str(n, '\x01'); break;
      case 1: t = Str(n, '"'); break;
      case 2: t = Str(n, 'a') + "\n"; break;
      case 3: t = "\\" + Str(n, 'b'); break;
      case 4: t = Str(n, '\0'); break;
      default: for (size_t i = 0; i < n; ++i) t += (char)(i * 37 + 1);
      }
      escapeCase(c, A, t);
    }
}
// decode a valid string body, as value and as key, by every way it can get into a document
void decodeCase(Ctx &c, const Api &A, const Str &b, bool all) {
  if (!mine(c)) return;
  if (!refStrBody(b)) return;
  c.note("string body: %s", show(b).c_str());
  c.state(hash64(b.data(), b.size(), 9));
  Str d = refDecode(b);
  SV want = cview(d);
  Scope sc(c, (c.cases & 1) ? 0xA5 : 0xDC);
  void *al = A.NewAllocator();
  auto val = [&](void *v, const char *how) { const char *u = (c.tick(), A.GetUnEscapeStr(v)); if (!eq(u, want)) c.fail("%s: string body %s decodes to %s, expected %s", how, show(b).c_str(), u ? show(u).c_str() : "(null)", show(d).c_str()); };
  auto key = [&](void *v, const char *how) { const char *u = (c.tick(), A.GetUnEscapeKey(v)); if (!eq(u, want)) c.fail("%s: key %s decodes to %s, expected %s", how, show(b).c_str(), u ? show(u).c_str() : "(null)", show(d).c_str()); };
  void *v = A.NewValue(al);
  REQ(A.SetStrLenFast(v, G(0).raw(b), b.size()), "SetStrLenFast refuses %s", show(b).c_str());
  val(v, "SetStrLenFast");
  v = A.NewValue(al);
  Str t = "{\"" + b + "\":\"" + b + "\"}";
  REQ(A.ParseFast(v, G(1).cstr(t)), "ParseFast refuses %s", show(t).c_str());
  val(A.Begin(v), "parsed");
  key(A.Begin(v), "parsed");
  if (all) {
    v = A.NewValue(al);
    REQ(A.SetStr(v, b.c_str()), "SetStr refuses %s", show(b).c_str());
    val(v, "SetStr");
    REQ(A.SetKey(v, b.c_str()), "SetKey refuses %s", show(b).c_str());
    key(v, "SetKey");
    key(A.Copy(v), "Copy");
    val(A.Copy(v), "Copy");
    v = A.NewValue(al);
    REQ(A.SetKeyLenFast(v, G(0).raw(b), b.size()), "SetKeyLenFast refuses %s", show(b).c_str());
    key(v, "SetKeyLenFast");
    REQ(A.SetStrFast(v, G(2).cstr(b)), "SetStrFast refuses %s", show(b).c_str());
    val(v, "SetStrFast");
  }
  A.ReleaseAllocator(al);
  sc.end();
  if (c.wantSample()) c.sample(show(b, 100));
}
FAMILY(C08, decode_units, "every \\uXXXX escape in both hex cases, every short escape, every byte, surrogate pairs around all edges: decoded as value and key, by every way of entering the document") {
  MAINAPI;
  genEscapes(false, [&](const Str &t) { decodeCase(c, A, t, true); });
  genEscapes(true, [&](const Str &t) { decodeCase(c, A, t, false); });
}
FAMILY(C08, decode_pairs, "all 1048576 surrogate pairs") {
  MAINAPI;
  char b[16];
  for (unsigned h = 0xD800; h <= 0xDBFF; ++h)
    for (unsigned l = 0xDC00; l <= 0xDFFF; ++l) {
      if (c.only < 0 && (int)(c.n % c.nshards) != c.shard) { ++c.n; continue; }
      snprintf(b, sizeof b, (h ^ l) & 1 ? "\\u%04X\\u%04x" : "\\u%04x\\u%04X", h, l);
      decodeCase(c, A, b, false);
    }
}
FAMILY(C08, decode_seq, "every sequence of up to 4 (thorough 5) units from 14 escapes and characters; long bodies of every length") {
  MAINAPI;
  genBodies({"\\n", "\\u0041", "\\ud83d\\ude00", "a", "\xc3\xa9", "\\\\", "\\\"", "\\u0000", "\\/", "\\u00e9", "\\u20AC", "\\b", "\xff", "\\uFFFF"}, c.thorough ? 5 : 4, 0, "", [&](const Str &t) { decodeCase(c, A, t, false); });
  for (size_t n : sizes(c.thorough ? 2000 : 300, c.thorough ? 1 << 19 : 10000))
    for (const char *u : {"\\n", "\\u0041", "\\ud83d\\ude00", "a", "\\u20ac"}) {
      if (c.only < 0 && (int)(c.n % c.nshards) != c.shard) { ++c.n; continue; }
      decodeCase(c, A, rep(u, n) + "z", true);
    }
}
// ---------------------------------------------------------------- C09
static const char *const FORMN[12] = {"SetStr", "SetStrFast", "SetStrLen", "SetStrLenFast", "SetKey", "SetKeyFast", "SetKeyLen", "SetKeyLenFast", "SetNumStr", "SetNumStrFast", "SetNumStrLen", "SetNumStrLenFast"};
static bool setForm(const Api &A, void *v, int form, const char *p, size_t n) {
  switch (form) {
  case 0: return A.SetStr(v, p);
  case 1: return A.SetStrFast(v, p);
  case 2: return A.SetStrLen(v, p, n);
  case 3: return A.SetStrLenFast(v, p, n);
  case 4: return A.SetKey(v, p);
  case 5: return A.SetKeyFast(v, p);
  case 6: return A.SetKeyLen(v, p, n);
  case 7: return A.SetKeyLenFast(v, p, n);
  case 8: return A.SetNumStr(v, p);
  case 9: return A.SetNumStrFast(v, p);
  case 10: return A.SetNumStrLen(v, p, n);
  default: return A.SetNumStrLenFast(v, p, n);
  }
}
void setterCase(Ctx &c, const Api &A, const Str &t, unsigned forms, bool allTargets) {
  if (!mine(c)) return;
  c.note("text (%zu bytes): %s", t.size(), show(t).c_str());
  c.state(hash64(t.data(), t.size(), 10));
  bool nul = t.find('\0') != Str::npos;
  bool okS = refStrBody(t), okN = refNum(t);
  static const char tails[] = {'"', '5', 'e', '.', '\\', 'a', '\0', '}'};
  int variant = 0;
  for (int form = 0; form < 12; ++form) {
    if (!(forms >> form & 1)) continue;
    bool len = (form & 3) >= 2;
    if (nul && !len) continue;
    bool isKey = form >= 4 && form < 8;
    bool want = form < 8 ? okS : okN;
    for (int tgt = 0; tgt < 5; ++tgt) { // empty, root scalar, object member, array element, container in array
      if (!allTargets && tgt != (int)((c.n + form) % 5) && tgt != 0) continue;
      Scope sc(c);
      Cmp m{c, A};
      void *al = A.NewAllocator();
      void *doc = A.NewValue(al);
      RefNode r;
      const char *d = tgt == 1 ? "true" : tgt == 2 ? "{\"a\":1,\"b\":[2],\"c\":3}" : tgt == 3 ? "[1,[2],3]" : tgt == 4 ? "[1,{\"x\":[]},3]" : nullptr;
      if (d) { refParse(d, r); if (!A.Parse(doc, d)) c.fail("setup"); }
      void *v = tgt < 2 ? doc : A.Next(A.Begin(doc));
      const char *p;
      ++variant;
      Str ext;
      if (!len) p = G(0).cstr(t);
      else if (variant & 1) p = G(0).raw(t);
      else { ext = t + tails[variant / 2 % 8] + "0"; p = G(0).raw(ext); }
      bool got = (c.tick(), setForm(A, v, form, p, t.size()));
      bool w = want && !(isKey && tgt >= 3);
      if (got != w) c.fail("%s(%s) on target %d returns %d, expected %d", FORMN[form], show(t).c_str(), tgt, got, w);
      if (w) {
        RefNode &x = tgt < 2 ? r : r.kids[1];
        if (isKey) { if (!tgt) { x.type = T_NULL; x.tok = "null"; } x.hasKey = true; x.key = t; }
        else { x.type = form < 4 ? T_STR : T_NUM; x.tok = t; x.kids.clear(); }
      }
      if (!(form & 1)) G(0).scribble(); // copying form
      if (r.type == T_NONE) { if (A.Type(doc) != 0) c.fail("a refused %s changed an empty value", FORMN[form]); }
      else { m.quick(doc, r); m.stringify(doc, r); m.quick(v, tgt < 2 ? r : r.kids[1]); }
      if (form & 1) { if (memcmp(p, t.data(), t.size())) c.fail("%s modified its argument", FORMN[form]); }
      // further edits work
      if (tgt == 3 || tgt == 4) { void *x = A.NewValue(al); A.SetNull(x); if (!A.ArrayAddFast(doc, x)) c.fail("append after %s failed", FORMN[form]); RefNode k; k.type = T_NULL; k.tok = "null"; r.kids.push_back(k); m.quick(doc, r); }
      A.ReleaseAllocator(al);
      sc.end();
    }
  }
  if (c.wantSample()) c.sample(show(t, 100));
}
FAMILY(C09, bytes, "every byte string of length 0..2 through all 12 setter forms, 5 kinds of target; Len forms both at the end of readable memory and followed by hostile bytes") {
  MAINAPI;
  for (int n = 0; n <= 2; ++n) genBytes(n, {"", ""}, [&](const Str &t) { setterCase(c, A, t, F_ALL, n < 2); });
}
FAMILY(C09, strings, "every string body of up to 4 (thorough 5) characters over 23, and every escape and surrogate pair around the edges, through the 8 string and key forms") {
  MAINAPI;
  genBodies(TOK_STR, c.thorough ? 5 : 4, 1, "", [&](const Str &t) { setterCase(c, A, t, F_STR, false); });
  genBodies({"\\", "u", "D", "8", "0", "c", "\""}, 7, 1, "\\uD83", [&](const Str &t) { setterCase(c, A, t, F_STR, false); });
  genBodies({"\\u", "D8", "dc", "00", "DF", "E0", "ff", "a"}, 6, 1, "", [&](const Str &t) { setterCase(c, A, t, F_STR, false); });
}
FAMILY(C09, escapes, "every \\uXXXX escape in both hex cases, invalid digits, truncations and pairs, through the 8 string and key forms") {
  MAINAPI;
  genEscapes(false, [&](const Str &t) { setterCase(c, A, t, F_STR, false); });
  genEscapes(true, [&](const Str &t) { setterCase(c, A, t, (c.n & 1) ? 0x55 : 0xAA, false); });
}
FAMILY(C09, numbers, "every string of up to 6 (thorough 7) characters over 0 1 9 - + . e E through the 4 number forms") {
  MAINAPI;
  genTokens(TOK_NUM, c.thorough ? 7 : 6, 9, {"", ""}, [&](const Str &t) { setterCase(c, A, t, F_NUM, t.size() < 4); });
  for (const char *s : {"0", "-12.5e+30", "1E9", "0.001", "-0", "100"}) genEdits(s, [&](const Str &t) { setterCase(c, A, t, F_NUM, true); });
}
FAMILY(C09, sizes, "valid and damaged bodies and literals of every length up to 300 and around powers of two, damage at start, middle and end, NUL at every position of short ones") {
  MAINAPI;
  for (size_t n : sizes(c.thorough ? 2000 : 300, c.thorough ? 1 << 20 : 9000))
    for (int k = 0; k < 8; ++k) {
      if (c.only < 0 && (int)(c.n % c.nshards) != c.shard) { ++c.n; continue; }
      Str s(n, 'x'), d = "1" + Str(n, '3');
      switch (k) {
      case 0: setterCase(c, A, s, F_STR, false); break;
      case 1: setterCase(c, A, s + "\\", F_STR, false); break;
      case 2: setterCase(c, A, "\"" + s, F_STR, false); break;
      case 3: setterCase(c, A, s.substr(0, n / 2) + "\\u12" + s.substr(n / 2), F_STR, false); break;
      case 4: setterCase(c, A, d, F_NUM, false); break;
      case 5: setterCase(c, A, d + ".", F_NUM, false); break;
      case 6: setterCase(c, A, d + "." + d + "e-" + d, F_NUM, false); break;
      default: setterCase(c, A, "-" + d + "x", F_NUM, false);
      }
    }
  for (const Str &b : {Str("abc\\n\\u0041"), Str("-12.5e+3")})
    for (size_t i = 0; i <= b.size(); ++i) { Str t = b; t.insert(i, 1, '\0'); setterCase(c, A, t, F_ALL, true); t = b.substr(0, i) + Str(1, '\0'); setterCase(c, A, t, F_ALL, true); }
}
// ---------------------------------------------------------------- C10
static void numGet(Ctx &c, const Api &A, void *v, const Str &lit, const char *how) {
  RefNode r;
  r.type = T_NUM; r.tok = lit;
  Cmp m{c, A};
  size_t l = 0;
  const char *k = A.GetKeyFast(v, &l);
  if (k) { r.hasKey = true; r.key.assign(k, l); }
  try { m.node(v, r, false); } catch (Violation &) { if (c.describe) printf("  (literal entered by %s)\n", how); throw; }
}
void literalCase(Ctx &c, const Api &A, const Str &t) {
  if (!mine(c)) return;
  if (!refNum(t)) return;
  c.note("literal (%zu): %s", t.size(), show(t).c_str());
  c.state(hash64(t.data(), t.size(), 11));
  Scope sc(c, (c.cases & 1) ? '1' : 0xA5);
  void *al = A.NewAllocator();
  void *v = A.NewValue(al);
  REQ(A.Parse(v, G(0).cstr(t)), "Parse refuses %s", show(t).c_str());
  numGet(c, A, v, t, "Parse");
  REQ(eq(A.Stringify(v), t), "Stringify changes the literal");
  numGet(c, A, A.Copy(v), t, "Copy");
  Str d = "[" + t + ",9,{\"a\":" + t + "}," + t + " ]";
  v = A.NewValue(al);
  REQ(A.ParseFast(v, G(1).cstr(d)), "ParseFast refuses %s", show(d).c_str());
  numGet(c, A, A.Begin(v), t, "array element");
  numGet(c, A, A.ObjGet(A.ArrayGet(v, 2), "a"), t, "object member");
  numGet(c, A, A.ArrayGet(v, 3), t, "last element");
  // the literal followed in memory by characters that would continue it
  for (const char *tail : {"9", ".5", "e9", "x", "E-3", "00000000"}) {
    Str e = t + tail;
    v = A.NewValue(al);
    REQ(A.SetNumStrLenFast(v, G(2).raw(e), t.size()), "SetNumStrLenFast refuses %s", show(t).c_str());
    numGet(c, A, v, t, "SetNumStrLenFast followed by other digits");
    if (t.size() > 200) break;
  }
  v = A.NewValue(al);
  REQ(A.SetNumStrLen(v, G(2).raw(t), t.size()), "SetNumStrLen refuses %s", show(t).c_str());
  G(2).scribble();
  numGet(c, A, v, t, "SetNumStrLen");
  v = A.NewValue(al);
  REQ(A.SetNumStr(v, G(3).cstr(t)), "SetNumStr refuses %s", show(t).c_str());
  G(3).scribble();
  numGet(c, A, v, t, "SetNumStr");
  v = A.NewValue(al);
  REQ(A.SetNumStrFast(v, G(3).cstr(t)), "SetNumStrFast refuses %s", show(t).c_str());
  numGet(c, A, v, t, "SetNumStrFast");
  A.ReleaseAllocator(al);
  sc.end();
  if (c.wantSample()) c.sample(show(t, 100));
}
FAMILY(C10, literals, "every valid literal of up to 6 (thorough 7) characters over 0 1 9 - + . e E, entered 8 ways, with 6 different continuations in memory") {
  MAINAPI;
  genTokens(TOK_NUM, c.thorough ? 7 : 6, 0, {"", ""}, [&](const Str &t) { literalCase(c, A, t); });
  genTokens({"0", "3", "5", "7", "."}, 6, 0, {"", ""}, [&](const Str &t) { literalCase(c, A, t); });
}
FAMILY(C10, edges, "literals around every power of two and ten (integer limits of all types), halves between doubles, extreme exponents") {
  MAINAPI;
  std::vector<Str> base;
  for (int k = 0; k <= 70; ++k)
    for (int d = -3; d <= 3; ++d) {
      __int128 v = ((__int128)1 << k) + d;
      bool neg = v < 0;
      if (neg) v = -v;
      Str s;
      do { s = char('0' + (int)(v % 10)) + s; v /= 10; } while (v);
      base.push_back((neg ? "-" : "") + s);
      if (!neg) base.push_back("-" + s);
    }
  for (int k = 0; k <= 40; ++k) { base.push_back("1" + Str(k, '0')); base.push_back("-1" + Str(k, '0')); base.push_back(Str(k + 1, '9')); base.push_back("-" + Str(k + 1, '9')); }
  for (auto &b : base) for (const char *x : {"", ".0", ".5", ".999999999999999999999", "e0", "e5", "E-5", "e-400", "e400", ".000000000000000000000000000000000000000000000001e1"}) literalCase(c, A, b + x);
  for (int e = -345; e <= 345; ++e) for (const char *m : {"1", "4.9406564584124654", "2.2250738585072011", "2.2250738585072014", "1.7976931348623157", "1.7976931348623159", "9.007199254740993", "0.1", "5", "2.4703282292062327208"}) literalCase(c, A, m + Str("e") + std::to_string(e));
  // exact halfway decimal expansions of doubles near one
  for (const char *m : {"9007199254740993", "9007199254740991.5", "1.00000000000000011102230246251565404236316680908203125", "1.00000000000000011102230246251565404236316680908203124", "1.00000000000000011102230246251565404236316680908203126", "0.500000000000000166533453693773481063544750213623046875"}) literalCase(c, A, m);
}
FAMILY(C10, lengths, "integer, fraction and exponent literals of every length up to 700 (thorough 4000) and around powers of two") {
  MAINAPI;
  for (size_t n : sizes(c.thorough ? 4000 : 700, c.thorough ? 1 << 17 : 9000))
    for (int k = 0; k < 7; ++k) {
      if (c.only < 0 && (int)(c.n % c.nshards) != c.shard) { ++c.n; continue; }
      Str z(n, '0'), d;
      for (size_t i = 0; i < n; ++i) d += char('0' + (i * 7 + 3) % 10);
      switch (k) {
      case 0: literalCase(c, A, "1" + d); break;
      case 1: literalCase(c, A, "-12345." + d); break;
      case 2: literalCase(c, A, "0." + z + "1"); break;
      case 3: literalCase(c, A, "7e" + z + "5"); break;
      case 4: literalCase(c, A, "-2147483648." + z + "9"); break;
      case 5: literalCase(c, A, "9007199254740992." + z + "1"); break;
      default: literalCase(c, A, "0." + z + "1e" + std::to_string(n)); break;
      }
    }
}
static void putInt(Ctx &c, const Api &A, void *v, long long x, int kind, bool deep) {
  bool ok = kind == 0 ? A.SetInt(v, (int)x) : kind == 1 ? A.SetLong(v, (long)x) : A.SetLongLong(v, x);
  REQ(ok, "setting %lld fails", x);
  size_t l = 0;
  const char *p = A.GetNumFast(v, &l);
  REQ(p, "no number after setting %lld", x);
  Str t(p, l);
  long long y;
  if (!refNum(t) || !refInt(t, -9223372036854775807LL - 1, 9223372036854775807LL, y) || y != x) c.fail("%lld is stored as %s", x, show(t).c_str());
  if (kind == 0) { const int *q = A.GetInt(v); int z; REQ(q, "GetInt null"); memcpy(&z, q, sizeof z); if (z != x) c.fail("SetInt(%lld) reads back %d", x, z); }
  else if (kind == 1) { const long *q = A.GetLong(v); long z; REQ(q, "GetLong null"); memcpy(&z, q, sizeof z); if (z != x) c.fail("SetLong(%lld) reads back %ld", x, z); }
  else { const long long *q = A.GetLongLong(v); long long z; REQ(q, "GetLongLong null"); memcpy(&z, q, sizeof z); if (z != x) c.fail("SetLongLong(%lld) reads back %lld", x, z); }
  if (deep) { RefNode r; r.type = T_NUM; r.tok = t; Cmp m{c, A}; m.node(v, r, true); }
}
// one case = a run of consecutive integers
void intRange(Ctx &c, const Api &A, long long lo, long long hi, int kinds, bool deep) {
  if (!mine(c)) return;
  c.note("integers %lld .. %lld", lo, hi);
  Scope sc(c, 0xA5, 1);
  void *al = A.NewAllocator();
  void *v = A.NewValue(al);
  for (long long x = lo;; ++x) {
    for (int k = 0; k < 3; ++k) if (kinds >> k & 1) putInt(c, A, v, x, k, deep);
    if (x == hi) break;
  }
  c.state(hash64(&lo, 8, 12));
  A.ReleaseAllocator(al);
  sc.end();
  if (c.wantSample()) c.sample("integers " + std::to_string(lo) + " .. " + std::to_string(hi));
}
FAMILY(C10, integers, "SetInt/SetLong/SetLongLong over -70000..70000, around all powers of two and ten to the type limits, and every int (thorough; quick: every 1021st)") {
  MAINAPI;
  if (!A.SetInt || !A.GetInt) return;
  for (long long x = -70000; x < 70000; x += 100) intRange(c, A, x, x + 99, 7, x >= -300 && x < 300);
  auto around = [&](__int128 v) {
    for (int s = 0; s < 2; ++s, v = -v) {
      __int128 lo = v - 50, hi = v + 50, L = -((__int128)1 << 63), H = ((__int128)1 << 63) - 1;
      if (hi < L || lo > H) continue;
      if (lo < L) lo = L;
      if (hi > H) hi = H;
      intRange(c, A, (long long)lo, (long long)hi, 6, true);
      __int128 IL = -((__int128)1 << 31), IH = ((__int128)1 << 31) - 1;
      if (hi < IL || lo > IH) continue;
      if (lo < IL) lo = IL;
      if (hi > IH) hi = IH;
      intRange(c, A, (long long)lo, (long long)hi, 1, true);
    }
  };
  for (int k = 0; k <= 63; ++k) around((__int128)1 << k);
  __int128 t = 1;
  for (int k = 0; k <= 19; ++k, t *= 10) around(t);
  if (c.thorough) for (long long x = -2147483648LL; x < 2147483648LL; x += 4096) intRange(c, A, x, x + 4095, 1, false);
  else for (long long x = -2147483648LL; x < 2147483648LL - 1021; x += 1021 * 256) {
    if (!mine(c)) continue;
    c.note("every 1021st integer from %lld", x);
    Scope sc(c);
    void *al = A.NewAllocator();
    void *v = A.NewValue(al);
    for (int i = 0; i < 256 && x + i * 1021LL < 2147483648LL; ++i) putInt(c, A, v, x + i * 1021LL, 0, false);
    A.ReleaseAllocator(al);
    sc.end();
  }
  for (long long x = 1; x < (1LL << 61); x += x / 4 + 7) { intRange(c, A, x - 1, x + 1, 6, false); intRange(c, A, -x, -x + 2, 6, false); }
}
static void putDouble(Ctx &c, const Api &A, void *v, double x, bool num) {
  if (!A.SetDouble) num = true;
  bool ok = num ? A.SetNum(v, x) : A.SetDouble(v, x);
  REQ(ok, "setting %.17g fails", x);
  size_t l = 0;
  const char *p = A.GetNumFast(v, &l);
  REQ(p, "no number after setting %.17g", x);
  Str t(p, l);
  if (!refNum(t)) c.fail("%.17g is stored as %s, which is not JSON", x, show(t).c_str());
  double y = refDouble(t);
  if (memcmp(&x, &y, 8)) c.fail("%.17g (%a) is stored as %s", x, x, show(t).c_str());
  const double *q = num ? A.GetNum(v) : A.GetDouble(v);
  REQ(q, "GetDouble null");
  if (memcmp(q, &x, 8)) c.fail("%.17g reads back as %.17g", x, *q);
}
FAMILY(C10, doubles, "SetDouble and SetNum for every exponent and sign with 64 (thorough 1200) mantissa patterns, decimals k/10^j, integers; NaN and infinities of every payload pattern refused without change") {
  MAINAPI;
  std::vector<uint64_t> man = {0, 1, 2, 3, 0xFFFFFFFFFFFFFull, 0xFFFFFFFFFFFFEull, 0x5555555555555ull, 0xAAAAAAAAAAAAAull, 0x999999999999Aull, 0x3333333333333ull};
  for (int b = 0; b < 52; ++b) man.push_back(1ull << b);
  if (c.thorough) for (uint64_t k = 0; k < 1140; ++k) man.push_back((k * 0x9E3779B97F4A7C15ull) >> 12);
  for (unsigned e = 0; e < 2047; ++e)
    for (int s = 0; s < 2; ++s) {
      if (!mine(c)) continue;
      c.note("sign %d exponent %u", s, e);
      Scope sc(c);
      void *al = A.NewAllocator();
      void *v = A.NewValue(al);
      for (uint64_t m : man) {
        uint64_t bits = (uint64_t)s << 63 | (uint64_t)e << 52 | m;
        double x;
        memcpy(&x, &bits, 8);
        c.state(hash64(&bits, 8, 13));
        putDouble(c, A, v, x, m & 1);
      }
      REQ(refValid(A.Stringify(v)), "Stringify after SetDouble");
      A.ReleaseAllocator(al);
      sc.end();
      if (c.wantSample()) c.sample("64 mantissas with exponent " + std::to_string(e));
    }
  for (int j = 0; j <= 22; ++j)
    for (int blk = 0; blk < 20; ++blk) {
      if (!mine(c)) continue;
      Scope sc(c);
      void *al = A.NewAllocator();
      void *v = A.NewValue(al);
      for (int k = blk * 100; k < blk * 100 + 100; ++k) { putDouble(c, A, v, k / std::pow(10, j), false); putDouble(c, A, v, -k * std::pow(10, j), true); }
      A.ReleaseAllocator(al);
      sc.end();
    }
  for (int s = 0; s < 2; ++s)
    for (int b = -1; b < 52; ++b)
      for (int tgt = 0; tgt < 3; ++tgt) {
        if (!mine(c)) continue;
        uint64_t bits = (uint64_t)s << 63 | 0x7FFull << 52 | (b < 0 ? 0 : 1ull << b);
        double x;
        memcpy(&x, &bits, 8);
        c.note("non-finite %016llx target %d", (unsigned long long)bits, tgt);
        Scope sc(c);
        Cmp m{c, A};
        void *al = A.NewAllocator();
        void *d = A.NewValue(al);
        RefNode r;
        if (tgt) { const char *t = tgt == 1 ? "7" : "{\"a\":[1],\"b\":2}"; refParse(t, r); REQ(A.Parse(d, t), "setup"); }
        void *v = tgt == 2 ? A.Begin(d) : d;
        REQ(!A.SetDouble || !A.SetDouble(v, x), "SetDouble accepts %g", x);
        REQ(!A.SetNum(v, x), "SetNum accepts %g", x);
        if (tgt) m.tree(d, r); else m.empty(d);
        A.ReleaseAllocator(al);
        sc.end();
      }
}
// ---------------------------------------------------------------- C16
static const char *const QKEYS[] = {"", "a", "aa", "aaa", "ab", "b", "ba", "\\u0061", "A", "a\\n", "\xc3\xa9", "a b"};
static void *objOf(Ctx &c, const Api &A, void *al, const std::vector<Str> &keys, int how) {
  void *v = A.NewValue(al);
  if (how == 0 || how == 3) {
    Str t = "{";
    for (size_t i = 0; i < keys.size(); ++i) { if (i) t += ","; t += "\"" + keys[i] + "\":" + std::to_string(i); }
    t += "}";
    REQ(A.Parse(v, t.c_str()), "setup: %s", show(t).c_str());
    if (how == 3) { v = A.Copy(v); REQ(v, "Copy"); }
    return v;
  }
  A.SetObj(v);
  for (size_t i = 0; i < keys.size(); ++i) {
    void *x = A.NewValue(al);
    REQ(A.SetNumStr(x, std::to_string(i).c_str()), "setup");
    Str k = keys[i];
    if (how == 2 && i % 2) { // named differently first, renamed in place
      REQ(A.SetKey(x, "tmp"), "setup");
      REQ(A.ObjAddFast(v, x), "setup");
      void *y = A.Begin(v);
      for (size_t j = 0; j < i; ++j) y = A.Next(y);
      REQ(y && A.SetKeyLen(y, k.data(), k.size()), "renaming a member");
    } else { REQ(A.SetKey(x, k.c_str()), "setup"); REQ(how == 1 ? A.ObjAddFast(v, x) : A.ObjAdd(v, x), "setup"); }
  }
  return v;
}
void lookupCase(Ctx &c, const Api &A, const std::vector<Str> &keys, const std::vector<Str> &queries, int how, bool del) {
  Str all;
  for (auto &k : keys) { all += k; all += '\1'; }
  if (c.describe) { c.note("object built by method %d with keys:", how); for (auto &k : keys) c.note("  '%s'", show(k, 60).c_str()); }
  c.state(hash64(all.data(), all.size(), 16 + how));
  Scope sc(c);
  void *al = A.NewAllocator();
  void *v = objOf(c, A, al, keys, how);
  auto first = [&](const std::vector<Str> &ks, const Str &q) { for (size_t i = 0; i < ks.size(); ++i) if (ks[i] == q) return (int)i; return -1; };
  auto num = [&](void *h) { size_t l = 0; const char *p = h ? A.GetNumFast(h, &l) : nullptr; return p ? atoi(Str(p, l).c_str()) : -1; };
  for (auto &q : queries) {
    int w = first(keys, q);
    int g = num((c.tick(), A.ObjGet(v, G(0).cstr(q))));
    if (g != w) c.fail("ObjGet('%s') finds member %d, expected %d", show(q, 60).c_str(), g, w);
    g = num((c.tick(), A.ObjGetLen(v, G(0).raw(q), q.size())));
    if (g != w) c.fail("ObjGetLen('%s',%zu) finds member %d, expected %d", show(q, 60).c_str(), q.size(), g, w);
    Str x = q + "a";
    g = num((c.tick(), A.ObjGetLen(v, G(0).raw(x), q.size())));
    if (g != w) c.fail("ObjGetLen('%s',%zu) followed by more text finds member %d, expected %d", show(q, 60).c_str(), q.size(), g, w);
    Str z = q + Str(1, '\0');
    g = num((c.tick(), A.ObjGetLen(v, G(0).raw(z), z.size())));
    if (g != -1) c.fail("ObjGetLen of a key containing NUL finds member %d", g);
  }
  if (del) {
    std::vector<Str> ks = keys;
    std::vector<int> id;
    for (size_t i = 0; i < ks.size(); ++i) id.push_back((int)i);
    for (int round = 0; round < 3; ++round)
      for (auto &q : queries) {
        int w = first(ks, q);
        bool g = (c.tick(), A.ObjDel(v, G(0).cstr(q)));
        if (g != (w >= 0)) c.fail("ObjDel('%s') returns %d", show(q, 60).c_str(), g);
        if (w >= 0) { ks.erase(ks.begin() + w); id.erase(id.begin() + w); }
        else if (keys.size() > 6 && round) continue;
        if (A.SizeOf(v) != ks.size()) c.fail("size %zu after deletion, expected %zu", A.SizeOf(v), ks.size());
        size_t i = 0;
        if (w >= 0) for (void *h = A.Begin(v); h; h = A.Next(h), ++i) if (i >= id.size() || num(h) != id[i]) c.fail("wrong members left after ObjDel('%s')", show(q, 60).c_str());
      }
  }
  A.ReleaseAllocator(al);
  sc.end();
  if (c.wantSample()) { Str s; for (auto &k : keys) s += "'" + show(k, 20) + "' "; c.sample(s); }
}
FAMILY(C16, keysets, "every sequence of up to 4 (thorough 5) keys from 9, each queried and deleted with 12 keys through ObjGet, ObjGetLen and ObjDel; objects parsed, built, renamed and copied") {
  MAINAPI;
  std::vector<Str> Q(QKEYS, QKEYS + 12);
  for (int n = 0; n <= (c.thorough ? 5 : 4); ++n) {
    int tot = 1;
    for (int i = 0; i < n; ++i) tot *= 9;
    for (int k = 0; k < tot; ++k)
      for (int how = 0; how < 4; ++how) {
        if (!mine(c)) continue;
        std::vector<Str> keys;
        int q = k;
        for (int i = 0; i < n; ++i) { keys.push_back(QKEYS[q % 9]); q /= 9; }
        lookupCase(c, A, keys, Q, how, true);
      }
  }
}
FAMILY(C16, keylengths, "keys of every length up to 300 (thorough 3000), queried with one byte more, one less, and one byte different at the start, middle and end; every single byte key against every byte") {
  MAINAPI;
  for (size_t n : sizes(c.thorough ? 3000 : 300, c.thorough ? 100000 : 5000))
    for (int how = 0; how < 4; ++how) {
      if (!mine(c)) continue;
      Str k(n, 'k');
      std::vector<Str> q = {k, k + "k", k + "j", k + "\x01"};
      if (n) { q.push_back(k.substr(1)); for (size_t p : {size_t(0), n / 2, n - 1}) { Str t = k; t[p] = 'K'; q.push_back(t); } }
      std::vector<Str> keys = {k + "x", "z", k, k + "y", k};
      lookupCase(c, A, keys, q, how, true);
    }
  for (int b = 1; b < 256; ++b) {
    if (!mine(c)) continue;
    if (b < 0x20 || b == '"' || b == '\\') continue;
    std::vector<Str> q;
    for (int x = 1; x < 256; ++x) q.push_back(Str(1, (char)x));
    lookupCase(c, A, {Str("q") + (char)b, Str(1, (char)b), Str(1, (char)b)}, q, 0, false);
  }
}
FAMILY(C16, many, "objects with 1..600 (thorough 3000) members, unique and repeated keys: every member looked up; arrays of every size up to 600: every index, and indices at and beyond the end") {
  MAINAPI;
  for (size_t n : sizes(c.thorough ? 1000 : 250, c.thorough ? 3000 : 600))
    for (int rpt = 0; rpt < 2; ++rpt) {
      if (!mine(c)) continue;
      std::vector<Str> keys, q;
      for (size_t i = 0; i < n; ++i) keys.push_back("m" + std::to_string(rpt ? i % 7 : i));
      size_t stepq = n > 100 ? n / 50 : 1;
      for (size_t i = 0; i < n; i += stepq) q.push_back(keys[i]);
      if (n) q.push_back(keys[n - 1]);
      q.push_back("m"); q.push_back("m0x"); q.push_back("m" + std::to_string(n));
      lookupCase(c, A, keys, q, (int)(n % 4), n < 60);
    }
  for (size_t n : sizes(c.thorough ? 600 : 200, c.thorough ? 3000 : 600)) {
    if (!mine(c)) continue;
    c.note("array of %zu", n);
    Scope sc(c);
    void *al = A.NewAllocator();
    Str t = "[";
    for (size_t i = 0; i < n; ++i) { if (i) t += ","; t += std::to_string(i); }
    t += "]";
    void *v = A.NewValue(al);
    REQ(A.Parse(v, t.c_str()), "setup");
    auto num = [&](void *h) { size_t l = 0; const char *p = h ? A.GetNumFast(h, &l) : nullptr; return p ? atol(Str(p, l).c_str()) : -1; };
    for (size_t i = 0; i < n; ++i) REQ(num(A.ArrayGet(v, i)) == (long)i, "ArrayGet(%zu) gives element %ld", i, num(A.ArrayGet(v, i)));
    for (size_t i : {n, n + 1, n * 2 + 1, size_t(0x7fffffff), size_t(0x80000000u), size_t(0xffffffffu)}) {
      if (i < n) continue;
      REQ(!A.ArrayGet(v, i), "ArrayGet(%zu) of %zu elements gives a value", i, n);
      REQ(!A.ArrayDel(v, i), "ArrayDel(%zu) of %zu elements succeeds", i, n);
    }
    // delete at every third position, last, first; remaining order is exact
    std::vector<long> ids;
    for (size_t i = 0; i < n; ++i) ids.push_back((long)i);
    for (int k = 0; k < 5 && !ids.empty(); ++k) {
      size_t p = k == 0 ? ids.size() - 1 : k == 1 ? 0 : k == 2 ? ids.size() / 2 : k == 3 ? ids.size() / 3 : ids.size() - 1;
      REQ(A.ArrayDel(v, p), "ArrayDel(%zu) fails", p);
      ids.erase(ids.begin() + p);
      size_t i = 0;
      for (void *h = A.Begin(v); h; h = A.Next(h), ++i) if (i >= ids.size() || num(h) != ids[i]) c.fail("after ArrayDel(%zu) element %zu is %ld", p, i, num(h));
      REQ(i == ids.size() && A.SizeOf(v) == i, "after ArrayDel(%zu) there are %zu elements", p, i);
    }
    A.ReleaseAllocator(al);
    sc.end();
  }
}
// ---------------------------------------------------------------- C17
static void smallStack() { rlimit r; getrlimit(RLIMIT_STACK, &r); r.rlim_cur = 8 << 20; setrlimit(RLIMIT_STACK, &r); }
void deepCase(Ctx &c, const Api &A, size_t n, int kind) {
  if (!mine(c)) return;
  c.note("%zu levels, kind %d", n, kind);
  c.state(hash64(&n, 8, 170 + kind));
  smallStack();
  // kind 0 arrays, 1 objects, 2 alternating with siblings
  Str t, e;
  size_t unit = 0;
  auto open = [&](size_t i) { return kind == 0 ? Str("[") : kind == 1 ? Str("{\"a\":") : i % 2 ? Str("{\"k\":1,\"n\":") : Str("[0,"); };
  auto close = [&](size_t i) { return kind == 0 ? Str("]") : kind == 1 ? Str("}") : i % 2 ? Str("}") : Str(",9]"); };
  (void)unit;
  for (size_t i = 0; i < n; ++i) t += open(i);
  t += "7";
  for (size_t i = n; i-- > 0;) t += close(i);
  Scope sc(c, 0xA5, 2);
  void *al = A.NewAllocator();
  void *v = A.NewValue(al);
  REQ(A.Parse(v, t.c_str()), "Parse fails at depth %zu", n);
  auto descend = [&](void *h) { // bottom value
    for (size_t i = 0; i < n; ++i) {
      h = A.Begin(h);
      if (kind == 2 && h) h = A.Next(h);
      if (!h) c.fail("descending stops at level %zu of %zu", i, n);
    }
    c.transitions += n;
    return h;
  };
  void *b = descend(v);
  size_t l = 0;
  const char *p = A.GetNumFast(b, &l);
  REQ(p && Str(p, l) == "7", "bottom value is wrong");
  REQ(eq(A.Stringify(v), t), "Stringify is wrong at depth %zu", n);
  // cut-off and over-long texts are refused, whatever their depth
  void *w = A.NewValue(al);
  REQ(!A.Parse(w, t.substr(0, t.size() - 1).c_str()), "unterminated text of depth %zu accepted", n);
  REQ(!A.Parse(w, (t + (kind == 1 ? "}" : "]")).c_str()), "over-terminated text of depth %zu accepted", n);
  void *cp = A.Copy(v);
  REQ(cp && eq(A.Stringify(cp), t), "Copy is wrong at depth %zu", n);
  // edit the bottom, set it into another value, move it out
  A.SetBool(b, true);
  Str t2 = t;
  size_t at = 0;
  for (size_t i = 0; i < n; ++i) at += open(i).size();
  t2.replace(at, 1, "true");
  REQ(eq(A.Stringify(v), t2), "edit at depth %zu is lost", n);
  REQ(eq(A.Stringify(cp), t), "copy changed with its source");
  w = A.NewValue(al);
  REQ(A.Parse(w, "[1,2]"), "setup");
  REQ(A.Set(A.Begin(w), v), "Set fails");
  REQ(A.SetFast(A.ArrayGet(w, 1), v), "SetFast fails");
  REQ(eq(A.Stringify(w), "[" + t2 + "," + t2 + "]"), "Set at depth %zu is wrong", n);
  REQ(A.ArrayAdd(w, cp) && A.ArrayDel(w, 0), "ArrayAdd/ArrayDel fails");
  REQ(eq(A.Stringify(w), "[" + t2 + "," + t + "]"), "ArrayAdd at depth %zu is wrong", n);
  // the other ways of parsing, and of putting it somewhere
  void *pf = A.NewValue(al), *pl = A.NewValue(al), *o = A.NewValue(al);
  REQ(A.ParseFast(pf, t.c_str()) && A.ParseLen(pl, t.data(), t.size()), "ParseFast or ParseLen fails at depth %zu", n);
  REQ(!A.ParseLen(A.NewValue(al), t.data(), t.size() - 1), "ParseLen of a cut text of depth %zu succeeds", n);
  A.SetObj(o);
  REQ(A.SetKey(pf, "f") && A.SetKey(pl, "l") && A.ObjAdd(o, pf) && A.ObjAddFast(o, pl), "ObjAdd fails at depth %zu", n);
  A.SetNull(descend(pf));
  REQ(eq(A.Stringify(o), "{\"f\":" + t + ",\"l\":" + t + "}"), "ObjAdd at depth %zu is wrong", n);
  REQ(A.Set(pl, o) && A.ObjDel(o, "f") && A.SetFast(A.Begin(o), pf), "Set, ObjDel, SetFast at depth %zu", n);
  Str t3 = t;
  t3.replace(at, 1, "null");
  REQ(eq(A.Stringify(o), (A.setTakesKey ? "{\"f\":" : "{\"l\":") + t3 + "}") && eq(A.Stringify(pl), "{\"f\":" + t + ",\"l\":" + t + "}"), "editing at depth %zu is wrong", n);
  // replace what is below a level near the bottom
  if (n > 1) {
    void *q = A.Begin(o);
    for (size_t i = 0; i + 1 < n; ++i) { q = A.Begin(q); if (kind == 2 && q) q = A.Next(q); if (!q) c.fail("descending stops"); }
    REQ(A.Parse(q, "[]") , "Parse at depth %zu", n);
    void *qq = A.Copy(q);
    REQ(qq && A.Type(qq) == T_ARR && A.SizeOf(qq) == 0, "Copy near the bottom");
  }
  void *x = descend(A.ArrayGet(w, 1));
  if (n) { REQ(A.Move(x), "Move fails"); REQ(A.Next(x) == nullptr, "moved value has a sibling"); }
  A.ReleaseAllocator(al);
  sc.end();
  if (c.wantSample()) c.sample(std::to_string(n) + " levels, kind " + std::to_string(kind));
}
FAMILY(C17, depth, "nesting of every depth up to 300 (thorough 2000), around powers of two, 100000, 1000000 (thorough 3000000) levels of arrays, objects and mixed containers with an 8 MB stack: parse, walk, serialise, copy, set, move, edit, release") {
  MAINAPI;
  for (int kind = 0; kind < 3; ++kind) {
    for (size_t n : {size_t(1000000), size_t(100000), size_t(65535), size_t(65536), size_t(65537), size_t(262144), size_t(300001)}) deepCase(c, A, n, kind);
    if (c.thorough) deepCase(c, A, 3000000, kind);
    for (size_t n : sizes(c.thorough ? 2000 : 300, 40000)) deepCase(c, A, n, kind);
  }
}
void wideCase(Ctx &c, const Api &A, size_t n, int kind) {
  if (!mine(c)) return;
  c.note("%zu children, kind %d", n, kind);
  c.state(hash64(&n, 8, 180 + kind));
  bool obj = kind == 1;
  Str t(1, obj ? '{' : '[');
  for (size_t i = 0; i < n; ++i) { if (i) t += ','; if (obj) t += "\"" + std::to_string(i) + "\":"; t += kind == 2 ? (i % 2 ? "[]" : "{\"q\":\"\"}") : std::to_string(i); }
  t += obj ? '}' : ']';
  Scope sc(c, 0xA5, 2);
  void *al = A.NewAllocator();
  void *v = A.NewValue(al);
  REQ(A.Parse(v, t.c_str()), "Parse fails with %zu children", n);
  REQ(A.SizeOf(v) == n, "SizeOf is %zu, expected %zu", A.SizeOf(v), n);
  REQ(eq(A.Stringify(v), t), "Stringify is wrong with %zu children", n);
  // the same built by appending
  void *w = A.NewValue(al);
  if (obj) A.SetObj(w); else A.SetArray(w);
  size_t i = 0;
  for (void *h = A.Begin(v); h; h = A.Next(h), ++i) {
    bool ok;
    if (i % 2) { ok = obj ? A.ObjAdd(w, h) : A.ArrayAdd(w, h); }
    else { void *x = A.Copy(h); ok = x && (obj ? A.ObjAddFast(w, x) : A.ArrayAddFast(w, x)); }
    if (!ok) c.fail("append %zu fails", i);
  }
  c.transitions += 3 * n;
  REQ(i == n && A.SizeOf(w) == n, "enumeration yields %zu of %zu", i, n);
  REQ(eq(A.Stringify(w), t), "document built by %zu appends is wrong", n);
  if (n) {
    void *last = obj ? A.ObjGet(w, std::to_string(n - 1).c_str()) : A.ArrayGet(w, n - 1);
    REQ(last, "last child not found");
    REQ(!A.Next(last), "last child has a successor");
    REQ(A.Move(last) && A.SizeOf(w) == n - 1, "moving the last child");
    REQ(obj ? A.ObjAddFast(w, last) : A.ArrayAddFast(w, last), "re-appending");
    REQ(eq(A.Stringify(w), t), "after move and append");
    // drain from the front
    size_t left = n;
    while (left) { void *h = A.Begin(w); if (!h || !A.Move(h)) c.fail("draining stops with %zu left", left); --left; if (left % 1000 == 0 && A.SizeOf(w) != left) c.fail("SizeOf %zu, expected %zu", A.SizeOf(w), left); }
    REQ(!A.Begin(w) && eq(A.Stringify(w), obj ? "{}" : "[]"), "not empty after draining");
  }
  void *cp = A.Copy(v);
  REQ(cp && eq(A.Stringify(cp), t), "Copy with %zu children", n);
  void *pf = A.NewValue(al), *pl = A.NewValue(al);
  REQ(A.ParseFast(pf, t.c_str()) && A.ParseLen(pl, t.data(), t.size()), "ParseFast or ParseLen fails with %zu children", n);
  REQ(!A.ParseLen(A.NewValue(al), t.data(), t.size() - 1), "ParseLen of a cut text with %zu children succeeds", n);
  REQ(A.SizeOf(pf) == n && A.SizeOf(pl) == n && eq(A.Stringify(pf), t) && eq(A.Stringify(pl), t), "ParseFast or ParseLen with %zu children", n);
  void *st = A.NewValue(al);
  A.SetBool(st, true);
  REQ(A.Set(st, v) && A.SizeOf(st) == n && eq(A.Stringify(st), t), "Set with %zu children", n);
  REQ(A.SetFast(st, pl) && A.SizeOf(st) == n && eq(A.Stringify(st), t), "SetFast with %zu children", n);
  if (n > 4) { // middle, second to last, last and first, by index or key
    RefNode r;
    if (!refParse(t, r)) c.fail("setup");
    for (size_t q : {n / 2, n - 3, n - 3, size_t(0)}) {
      Str key = r.kids[q].key;
      void *h = obj ? A.ObjGetLen(pf, key.data(), key.size()) : A.ArrayGet(pf, q);
      REQ(h, "child %zu of %zu not found", q, n);
      if (r.kids[q].type == T_NUM) REQ(eq(A.GetNumStr(h), r.kids[q].tok), "child %zu of %zu is wrong", q, n);
      REQ(obj ? A.ObjDel(pf, key.c_str()) : A.ArrayDel(pf, q), "deleting child %zu of %zu", q, n);
      r.kids.erase(r.kids.begin() + q);
      REQ(A.SizeOf(pf) == r.kids.size(), "SizeOf after deletion is %zu, expected %zu", A.SizeOf(pf), r.kids.size());
    }
    void *last = obj ? A.ObjGet(pf, r.kids.back().key.c_str()) : A.ArrayGet(pf, r.kids.size() - 1);
    REQ(last && !A.Next(last), "last child after deletions");
    A.SetNull(last);
    r.kids.back().type = T_NULL; r.kids.back().tok = "null"; r.kids.back().kids.clear();
    if (obj) { REQ(A.SetKey(last, "renamed"), "SetKey"); r.kids.back().key = "renamed"; }
    void *x = A.NewValue(al);
    REQ(A.SetStr(x, "end") && A.SetKey(x, "e"), "setup");
    REQ(obj ? A.ObjAdd(pf, x) : A.ArrayAdd(pf, x), "append after deletions");
    RefNode e;
    e.type = T_STR; e.tok = "end"; e.hasKey = obj; e.key = obj ? "e" : "";
    r.kids.push_back(e);
    REQ(eq(A.Stringify(pf), refDump(r)), "wrong after deletions from %zu children", n);
    REQ(!(obj ? A.ObjDel(pf, "no such key") : A.ArrayDel(pf, r.kids.size())), "deleting a missing child succeeds");
    REQ(obj ? !A.ObjGet(pf, "no such key") : !A.ArrayGet(pf, r.kids.size()), "finding a missing child");
    // all children into another container, one after the other
    void *to = A.NewValue(al);
    if (obj) A.SetObj(to); else A.SetArray(to);
    size_t k = 0;
    while (void *f = A.Begin(pf)) { if (!(obj ? A.ObjAddFast(to, f) : A.ArrayAddFast(to, f))) c.fail("transfer %zu fails", k); if (++k > n) c.fail("transfer does not end"); }
    REQ(A.SizeOf(to) == r.kids.size() && A.SizeOf(pf) == 0 && eq(A.Stringify(to), refDump(r)), "wrong after transferring %zu children", k);
    c.transitions += 2 * n;
  }
  A.ReleaseAllocator(al);
  sc.end();
  if (c.wantSample()) c.sample(std::to_string(n) + " children, kind " + std::to_string(kind));
}
FAMILY(C17, width, "containers with every number of children up to 600 (thorough 3000), around powers of two to 2^18 (thorough 2^20): parsed, built by appending, drained, copied") {
  MAINAPI;
  for (int kind = 0; kind < 3; ++kind) {
    for (size_t n : {size_t(300000), size_t(65535), size_t(65536), size_t(65537), size_t(131072), size_t(262145)}) wideCase(c, A, n, kind);
    if (c.thorough) wideCase(c, A, 1 << 20, kind);
    for (size_t n : sizes(c.thorough ? 3000 : 600, 20000)) wideCase(c, A, n, kind);
  }
}
void longCase(Ctx &c, const Api &A, size_t n, int kind) {
  if (kind == 3 && !A.SetStrLenEscape) return;
  if (!mine(c)) return;
  c.note("token of %zu bytes, kind %d", n, kind);
  c.state(hash64(&n, 8, 190 + kind));
  Scope sc(c, 0xA5, 2);
  void *al = A.NewAllocator();
  void *v = A.NewValue(al);
  Str b;
  switch (kind) {
  case 0: case 1: case 4: b = Str(n, 'x'); break;
  case 2: b = n ? "1" + Str(n - 1, '5') : "0"; break;
  case 3: b = Str(n, '\x02'); break;
  }
  size_t l = 0;
  const char *p;
  if (kind == 0) { // string
    REQ(A.Parse(v, ("[\"" + b + "\"]").c_str()), "Parse");
    p = A.GetStrFast(A.Begin(v), &l);
    REQ(p && l == n && !memcmp(p, b.data(), n), "string of %zu bytes", n);
    REQ(eq(A.GetStr(A.Begin(v)), b) && eq(A.GetUnEscapeStr(A.Begin(v)), b), "string of %zu bytes", n);
    void *w = A.NewValue(al);
    REQ(A.SetStr(w, b.c_str()) && eq(A.Stringify(w), "\"" + b + "\""), "SetStr of %zu bytes", n);
    REQ(A.SetStrLen(w, b.data(), n) && eq(A.GetStr(w), b), "SetStrLen of %zu bytes", n);
    REQ(!A.SetStrLen(w, (b + "\n").c_str(), n + 1) && eq(A.GetStr(w), b), "bad SetStrLen of %zu bytes", n);
    void *cp = A.Copy(v);
    REQ(cp && eq(A.Stringify(cp), "[\"" + b + "\"]"), "Copy with a string of %zu bytes", n);
    REQ(A.SetStrFast(w, b.c_str()) && eq(A.GetStr(w), b), "SetStrFast of %zu bytes", n);
    REQ(A.SetStrLenFast(w, b.data(), n) && eq(A.Stringify(w), "\"" + b + "\""), "SetStrLenFast of %zu bytes", n);
    REQ(!A.SetStrEscape || A.SetStrEscape(w, b.c_str()) && eq(A.GetStr(w), b), "SetStrEscape of %zu bytes", n);
    REQ(A.Set(v, w) && A.SetArray && (A.SetArray(cp), A.ArrayAdd(cp, v)) && A.ArrayAddFast(cp, w) && eq(A.Stringify(cp), "[\"" + b + "\",\"" + b + "\"]"), "adding strings of %zu bytes", n);
    Str t = " [ \"" + b + "\" ,\n1 ] ", m = "[\"" + b + "\",1]";
    for (int f = 0; f < 2; ++f) {
      void *q = A.NewValue(al);
      REQ(f ? A.ParseFast(q, t.c_str()) : A.ParseLen(q, t.data(), t.size()), "parsing a string of %zu bytes, way %d", n, f);
      REQ(eq(A.Stringify(q), m) && eq(A.GetUnEscapeStr(A.Begin(q)), b), "string of %zu bytes, way %d", n, f);
    }
    Str bad = t;
    bad[4 + n / 2] = '\x1f';
    if (n) REQ(!A.Parse(w, bad.c_str()) && !A.ParseFast(w, bad.c_str()) && !A.ParseLen(w, t.data(), 4 + n), "bad string of %zu bytes accepted", n);
  } else if (kind == 1) { // key
    Str t = "{\"" + b + "\":1,\"z\":2}";
    REQ(A.Parse(v, t.c_str()), "Parse");
    void *h = A.ObjGet(v, b.c_str());
    REQ(h && eq(A.GetKey(h), b), "ObjGet with a key of %zu bytes", n);
    REQ(A.ObjGetLen(v, b.data(), n), "ObjGetLen with a key of %zu bytes", n);
    REQ(!A.ObjGet(v, (b + "y").c_str()), "longer key found");
    REQ(eq(A.Stringify(v), t), "Stringify with a key of %zu bytes", n);
    REQ(A.SetKey(A.ObjGet(v, "z"), (b + "w").c_str()) && A.ObjDel(v, b.c_str()), "SetKey/ObjDel");
    REQ(eq(A.Stringify(v), "{\"" + b + "w\":2}"), "after SetKey/ObjDel with %zu bytes", n);
    for (int f = 0; f < 8; ++f) {
      void *q = A.NewValue(al), *o = A.NewValue(al);
      bool ok = false;
      A.SetObj(o);
      A.SetNull(q);
      switch (f) {
      case 0: ok = A.SetKey(q, b.c_str()); break;
      case 1: ok = A.SetKeyFast(q, b.c_str()); break;
      case 2: ok = A.SetKeyLen(q, b.data(), n); break;
      case 3: ok = A.SetKeyLenFast(q, b.data(), n); break;
      case 4: ok = (A.SetKeyEscape ? A.SetKeyEscape : A.SetKey)(q, b.c_str()); break;
      case 5: ok = (A.SetKeyLenEscape ? A.SetKeyLenEscape : A.SetKeyLen)(q, b.data(), n); break;
      case 6: ok = A.ParseFast(o, t.c_str()) && (q = A.ObjGetLen(o, b.data(), n)) && A.Move(q); A.SetNull(q); A.SetObj(o); break;
      default: ok = A.ParseLen(o, t.data(), t.size()) && (q = A.ObjGet(o, b.c_str())) && (q = A.Copy(q)); A.SetNull(q); A.SetObj(o);
      }
      REQ(ok, "key of %zu bytes, way %d", n, f);
      size_t kl = 0;
      const char *kp = A.GetKeyFast(q, &kl);
      REQ(kp && kl == n && !memcmp(kp, b.data(), n) && eq(A.GetKey(q), b) && eq(A.GetUnEscapeKey(q), b), "key of %zu bytes reads back wrong, way %d", n, f);
      REQ(A.ObjAdd(o, q) && A.ObjAddFast(o, q) && A.Copy(o) && A.SizeOf(o) == 2, "adding with a key of %zu bytes", n);
      void *cc = A.Copy(o);
      REQ(eq(A.Stringify(cc), "{\"" + b + "\":null,\"" + b + "\":null}"), "Copy with a key of %zu bytes, way %d", n, f);
      REQ(A.ObjDel(cc, b.c_str()) && A.ObjDel(cc, b.c_str()) && !A.ObjDel(cc, b.c_str()), "ObjDel with a key of %zu bytes, way %d", n, f);
    }
  } else if (kind == 2) { // number
    REQ(A.Parse(v, ("[" + b + ",1]").c_str()), "Parse");
    REQ(eq(A.GetNumStr(A.Begin(v)), b), "number of %zu digits", n);
    const double *d = (A.GetDouble ? A.GetDouble : A.GetNum)(A.Begin(v));
    double want = refDouble(b);
    REQ(d && !memcmp(d, &want, 8), "GetDouble of %zu digits", n);
    void *w = A.NewValue(al);
    REQ(A.SetNumStrLen(w, b.data(), b.size()) && eq(A.Stringify(w), b), "SetNumStrLen of %zu digits", n);
    for (int f = 0; f < 5; ++f) {
      void *q = A.NewValue(al);
      Str x = f == 4 ? "-0." + b + "e-" + std::to_string(1 + n % 50) : b;
      REQ(f == 0 ? A.SetNumStr(q, x.c_str()) : f == 1 ? A.SetNumStrFast(q, x.c_str()) : f == 2 ? A.SetNumStrLenFast(q, x.data(), x.size()) : f == 3 ? A.ParseFast(q, x.c_str()) : A.ParseLen(q, x.data(), x.size()), "number of %zu digits, way %d", n, f);
      size_t ll = 0;
      const char *np = A.GetNumFast(q, &ll);
      REQ(np && ll == x.size() && !memcmp(np, x.data(), ll) && eq(A.Stringify(q), x), "number of %zu digits reads back wrong, way %d", n, f);
      const double *dd = (A.GetDouble ? A.GetDouble : A.GetNum)(q);
      double ww = refDouble(x);
      REQ(dd && !memcmp(dd, &ww, 8), "GetDouble of %zu digits, way %d", n, f);
      void *cc = A.Copy(q), *ar = A.NewValue(al);
      A.SetArray(ar);
      REQ(cc && eq(A.GetNumStr(cc), x) && A.ArrayAdd(ar, q) && A.Set(q, ar) && eq(A.Stringify(q), "[" + x + "]"), "copying a number of %zu digits, way %d", n, f);
    }
    Str z = n ? "12." + Str(n, '3') : "12.0"; // an integer part that fits, whatever the length
    REQ(!A.GetInt || A.SetNumStr(w, z.c_str()) && A.GetInt(w) && *A.GetInt(w) == 12 && *A.GetLongLong(w) == 12, "GetInt of a literal of %zu digits", n);
    REQ(!A.SetNumStr(w, (b + ".").c_str()) && !A.SetNumStrLen(w, (b + "x").c_str(), b.size() + 1), "bad number of %zu digits accepted", n);
  } else if (kind == 3) { // escaping
    Str e = rep("\\u0002", n);
    REQ(A.SetStrLenEscape(v, b.data(), n) && eq(A.GetStr(v), e) && eq(A.GetUnEscapeStr(v), b), "escaping %zu bytes", n);
    REQ(A.SetKeyEscape(v, b.c_str()) && eq(A.GetKey(v), e) && eq(A.GetUnEscapeKey(v), b), "escaping a key of %zu bytes", n);
    REQ(eq(A.Stringify(v), "\"" + e + "\""), "Stringify of an escaped string of %zu bytes", n);
  } else { // many arena blocks, one serialisation
    A.SetArray(v);
    for (int i = 0; i < 20; ++i) { void *x = A.NewValue(al); if (!A.SetStr(x, b.c_str()) || !A.ArrayAddFast(v, x)) c.fail("append of %zu bytes", n); }
    Str t = "[";
    for (int i = 0; i < 20; ++i) t += (i ? ",\"" : "\"") + b + "\"";
    REQ(eq(A.Stringify(v), t + "]"), "20 strings of %zu bytes", n);
  }
  c.transitions += 8;
  A.ReleaseAllocator(al);
  sc.end();
  if (c.wantSample()) c.sample(std::to_string(n) + " bytes, kind " + std::to_string(kind));
}
FAMILY(C17, length, "strings, keys, numbers, escapes and repeated strings of every length up to 400 (thorough 5000), around powers of two up to 2^20 and of 16 MiB (thorough 64 MiB)") {
  MAINAPI;
  for (int kind = 0; kind < 5; ++kind) {
    if (kind != 2) { longCase(c, A, (16 << 20) + 5, kind); if (c.thorough && kind < 2) longCase(c, A, (64 << 20) + 5, kind); }
    else longCase(c, A, 1 << 20, kind);
    for (size_t n : sizes(c.thorough ? 5000 : 400, kind == 2 ? 70000 : 1 << 20)) longCase(c, A, n, kind);
  }
}
// ---------------------------------------------------------------- C20
FAMILY(C20, types, "every document of up to 4 (thorough 5) nodes and all seeds in 14 contexts: every getter on every value twice, serialisation before and after, then edits at every value") {
  MAINAPI;
  auto one = [&](const Str &t) {
    if (!mine(c)) return;
    RefNode r;
    if (!refParse(t, r)) return;
    c.note("text: %s", show(t).c_str());
    c.state(hash64(t.data(), t.size(), 20));
    Scope sc(c);
    Cmp m{c, A};
    void *al = A.NewAllocator();
    void *e = A.NewValue(al), *v = A.NewValue(al);
    m.empty(e);
    REQ(A.Parse(v, t.c_str()), "Parse refuses %s", show(t).c_str());
    Str before = A.Stringify(v);
    m.tree(v, r);
    m.tree(v, r);
    m.empty(e);
    REQ(eq(A.Stringify(v), before), "reads changed the document");
    if (r.type == T_ARR || r.type == T_OBJ) {
      void *x = A.NewValue(al);
      A.SetNull(x);
      REQ(A.SetKey(x, "new"), "SetKey");
      REQ(r.type == T_ARR ? A.ArrayAddFast(v, x) : A.ObjAddFast(v, x), "append after reads");
      RefNode k;
      k.type = T_NULL; k.tok = "null"; k.hasKey = r.type == T_OBJ;
      if (k.hasKey) k.key = "new";
      r.kids.push_back(k);
      m.tree(v, r);
      while (!r.kids.empty()) { void *h = A.Begin(v); REQ(h && A.Move(h), "Move after reads"); m.tree(h, r.kids[0], true); r.kids.erase(r.kids.begin()); m.tree(v, r); }
    }
    A.ReleaseAllocator(al);
    sc.end();
    if (c.wantSample()) c.sample(show(t, 100));
  };
  genDocs(c.thorough ? 5 : 4, one);
  for (auto &s : SEEDS) for (auto &x : CTX_VALUE) one(x.pre + s + x.post);
}
// ---------------------------------------------------------------- C06 / C12 on large documents
FAMILY(C06, sizes, "14 document shapes at every size up to 300 (thorough 2000) and around powers of two: Copy, Set, ObjAdd, ArrayAdd from another allocator, source edited and released, copy read back and edited") {
  for (const char *nm : {"main", "tiny"}) {
    const Api &A = *api(nm);
    for (auto &k : SIZE_KINDS)
      for (size_t n : sizes(c.thorough ? 2000 : 300, std::min<size_t>(k.maxn, c.thorough ? 70000 : 5000))) {
        if (!mine(c)) continue;
        Str t = k.make(n);
        RefNode r;
        if (!refParse(t, r)) continue;
        c.note("adapter %s, %s of size %zu", nm, k.name, n);
        c.state(hash64(t.data(), t.size(), 6));
        Scope sc(c);
        Cmp m{c, A};
        void *a1 = A.NewAllocator(), *a2 = A.setTakesKey ? a1 : A.NewAllocator();
        void *src = A.NewValue(a1);
        Str box = "{\"kk\":" + t + "}";
        REQ(A.Parse(src, box.c_str()), "setup");
        void *s = A.Begin(src);
        r.hasKey = true; r.key = "kk";
        void *set = A.NewValue(a2), *setOver = A.NewValue(a2), *arr = A.NewValue(a2), *obj = A.NewValue(a2);
        REQ(A.SetNumStr(setOver, "1"), "SetNumStr");
        A.SetArray(arr);
        A.SetObj(obj);
        REQ(A.Set(set, s) && A.Set(setOver, s) && A.ArrayAdd(arr, s) && A.ObjAdd(obj, s), "copying operations fail");
        void *cp = A.Copy(s);
        REQ(cp, "Copy fails");
        m.quick(cp, r);
        m.quick(s, r);
        // damage the source in every way, then release it
        for (void *h = A.Begin(s); h && n < 400; h = A.Next(h)) A.SetNull(h);
        m.quick(cp, r);
        A.SetStr(s, "gone");
        if (a1 != a2) A.ReleaseAllocator(a1);
        m.quick(set, r);
        RefNode nk = r;
        nk.hasKey = false; nk.key.clear();
        m.quick(setOver, nk);
        RefNode ra, ro;
        ra.type = T_ARR; ra.kids.push_back(nk);
        ro.type = T_OBJ; ro.kids.push_back(r);
        m.quick(arr, ra);
        m.quick(obj, ro);
        REQ(eq(A.Stringify(obj), refDump(ro)), "copy reads differently after the source is gone");
        if (r.type == T_ARR || r.type == T_OBJ) {
          for (void *d : {set, setOver, A.Begin(arr), A.Begin(obj)}) {
            void *x = A.NewValue(a2);
            A.SetNull(x);
            REQ(A.SetKey(x, "zz"), "SetKey");
            REQ(r.type == T_ARR ? A.ArrayAddFast(d, x) : A.ObjAddFast(d, x), "append to the copy");
            REQ(A.SizeOf(d) == r.kids.size() + 1, "size of the copy after append");
            void *f = A.Begin(d);
            REQ(f && A.Move(f) && A.SizeOf(d) == r.kids.size(), "move out of the copy");
          }
          RefNode e = nk;
          RefNode z;
          z.type = T_NULL; z.tok = "null";
          if (r.type == T_OBJ) { z.hasKey = true; z.key = "zz"; }
          e.kids.push_back(z);
          e.kids.erase(e.kids.begin());
          m.quick(setOver, e);
        }
        A.ReleaseAllocator(a2);
        sc.end();
        if (c.wantSample()) c.sample(Str(k.name) + " of size " + std::to_string(n));
      }
  }
}
