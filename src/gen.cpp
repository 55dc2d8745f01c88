#include "gen.h"
const std::vector<TextCtx> CTX_VALUE = {
    {"", ""}, {"[", "]"}, {"[1,", "]"}, {"[", ",1]"}, {"{\"k\":", "}"}, {"{\"a\":1,\"k\":", "}"}, {"{\"k\":", ",\"z\":0}"},
    {"[[", "]]"}, {"{\"a\":[", "]}"}, {"[{\"a\":", "}]"}, {"[{},", "]"}, {"[[],", "]"}, {"{\"a\":{},\"b\":", "}"}, {"[{\"a\":{\"b\":", "}}]"}};
const std::vector<TextCtx> CTX_INNER = {{"\"", "\""}, {"[\"", "\"]"}, {"[1,\"", "\"]"}, {"{\"k\":\"", "\"}"}, {"{\"", "\":1}"}, {"{\"a\":1,\"", "\":1}"}, {"[{\"", "\":1}]"}};
const std::vector<TextCtx> CTX_ALL = {
    {"", ""}, {"[", "]"}, {"[1,", "]"}, {"{", "}"}, {"{\"a\":1,", "}"}, {"{\"k\":", "}"}, {"{\"k\"", "1}"}, {"[1", "]"}, {"[1", "2]"}, {"[\"a\"", "]"}, {"[[]", "]"}, {"{\"a\":1", "}"},
    {"\"", "\""}, {"{\"", "\":1}"}, {"[\"", "\"]"}, {"[{", "}]"}, {"[", ""}, {"{", ""}, {"1", ""}, {"[]", ""}, {"\"a\"", ""}, {"{}", ""}, {"true", ""}};
const std::vector<Str> SEEDS = {
    "0", "-1", "12", "-0.5", "1.25e+10", "3E-7", "10e2", "\"\"", "\"a\"", "\"ab\\n\\u00e9\\\"\"", "true", "false", "null", "[]", "{}", "[1]", "[1,2]", "[ 1 , 2 ]", "[[]]", "[{}]", "[[],[]]",
    "[1,[2,[3]]]", "[[[1],2],3]", "[true,false,null]", "[\"a\",\"b\"]", "[\"\",\"\"]", "[-1,0.5,1e3]", "{\"a\":1}", "{\"\":\"\"}", "{\"a\":1,\"b\":2}", "{ \"a\" : 1 , \"b\" : 2 }", "{\"a\":{}}", "{\"a\":[]}",
    "{\"a\":{\"b\":{\"c\":1}}}", "{\"a\":true,\"b\":false,\"c\":null}", "{\"a\":\"x\",\"b\":[1,2],\"c\":{\"d\":-3}}", "[{\"a\":1},{\"b\":2}]", "{\"a\":1,\"a\":2}", "{\"k\\u0041\":\"\\ud83d\\ude00\"}", "\t\r\n [\t1\r,\n2 ] \t",
    "[[1,2],[3,4],{\"x\":[5,{\"y\":6}]}]", "{\"a\":[{\"b\":[{}]}]}", "[\"\\\\\",\"\\/\",\"\\b\\f\\n\\r\\t\"]", "\"\xc3\xa9\xf0\x9f\x98\x80\"", "[0,-0,0.0,0e0,0E+0,-0.0e-0]", "[1.5,\"s\",true,[],{},null]"};
const std::vector<Str> TOK_STRUCT = {"[", "]", "{", "}", ",", ":", "\"a\"", "1", "null", " ", "\"\""};
const std::vector<Str> TOK_NUM = {"0", "1", "9", "-", "+", ".", "e", "E"};
const std::vector<Str> TOK_STR = {"a", "\\", "\"", "/", "b", "u", "0", "D", "8", "d", "C", "F", "n", Str(1, 0x1f), "\x7f", "\x80", "\xff", "\t", "f", "r", "t", "'", "x"};
const std::vector<Str> TOK_WORD = {"t", "r", "u", "e", "f", "a", "l", "s", "n", "T"};
// what lenient JSON dialects add: byte order marks, comments, trailing commas, other
// quotes, other number notations, other white space, separators of concatenated texts
const std::vector<Str> TOK_DIALECT = {
    "[", "]", "{", "}", ",", ":", "1", "\"a\"", "a", " ", "\n", "-", "\xEF\xBB\xBF", "\xFE\xFF", "\xFF\xFE", "/*", "*/", "//", "#", "'", "NaN", "Infinity", "inf", "nan", "undefined", "0x", "0x1F", "0b1", "0o7", "07", "1_0", ".5", "5.", "+",
    "1e", "True", "TRUE", "Null", "None", "nil", "\v", "\f", "\xC2\xA0", "\xE2\x80\xA8", "\xE3\x80\x80", "\x1A", "\x1E", ";", "(", ")", "`", "=", "$", "<!--", "--", "null", "true", "1.5", "e5", "\\u0020", "\\", "yes", "on", "%", "1f", "1L", "1n", "\"\"\""};
// multi-byte and other character sequences that tempt special treatment inside strings
const std::vector<Str> TOK_UTF = {
    "\xE2\x80\xA8", "\xE2\x80\xA9", "\xEF\xBB\xBF", "\xC2\x85", "\xC2\xA0", "\xC0\x80", "\xED\xA0\x80", "\xED\xB0\x80", "\xED\xA0\xBD\xED\xB8\x80", "\xEF\xBF\xBD", "\xEF\xBF\xBE", "\xEF\xBF\xBF", "\xF0\x9F\x98\x80", "\xF4\x8F\xBF\xBF",
    "\xF4\x90\x80\x80", "\xF8\x88\x80\x80\x80", "\xE0\x80\xAF", "\xC3\xA9", "\xC3", "\xE2\x80", "\xF0\x9F", "<", ">", "&", "'", "</script>", "<!--", "]]>", "/", "=", "+", "a", "\x7f", "\\u2028", "\\u003c", "\\ufeff", "\\/", "\\n", "\\u0000"};
Str rep(const Str &s, size_t n) {
  Str r;
  r.reserve(s.size() * n);
  for (size_t i = 0; i < n; ++i) r += s;
  return r;
}
void genBytes(int n, const TextCtx &x, const Emit &f) {
  Str pre = x.pre, post = x.post;
  Str t = pre + Str(n, 0) + post;
  size_t o = pre.size();
  uint64_t tot = 1;
  for (int i = 0; i < n; ++i) tot *= 256;
  for (uint64_t k = 0; k < tot; ++k) {
    uint64_t q = k;
    for (int i = n - 1; i >= 0; --i) { t[o + i] = (char)(q & 255); q >>= 8; }
    f(t);
  }
}
static void tokRec(const std::vector<Str> &toks, int left, int extra, const Str &cur, const Str &post, bool dead, const Emit &f) {
  f(cur + post);
  if (!post.empty()) f(cur);
  if (left == 0) return;
  if (!dead && refStatus(cur) == R_ERROR) dead = true;
  if (dead) { if (extra == 0) return; --extra; }
  for (auto &t : toks) tokRec(toks, left - 1, extra, cur + t, post, dead, f);
}
void genTokens(const std::vector<Str> &toks, int len, int extra, const TextCtx &x, const Emit &f) { tokRec(toks, len, extra, x.pre, x.post, false, f); }
void genBodies(const std::vector<Str> &toks, int len, int extra, const Str &prefix, const Emit &f) {
  tokRec(toks, len, extra, "\"" + prefix, "", false, [&](const Str &t) { f(t.substr(1)); });
}
void genEdits(const Str &s, const Emit &f) {
  for (size_t i = 0; i < s.size(); ++i)
    for (int b = 0; b < 256; ++b) { Str t = s; t[i] = (char)b; f(t); }
  for (size_t i = 0; i <= s.size(); ++i)
    for (int b = 0; b < 256; ++b) { Str t = s; t.insert(i, 1, (char)b); f(t); }
  for (size_t i = 0; i < s.size(); ++i)
    for (size_t n = 1; i + n <= s.size() && n <= 4; ++n) { Str t = s; t.erase(i, n); f(t); }
  for (size_t i = 0; i + 1 < s.size(); ++i) { Str t = s; std::swap(t[i], t[i + 1]); f(t); }
  for (size_t i = 0; i <= s.size(); ++i) { f(s.substr(0, i)); f(s.substr(i)); f(s.substr(0, i) + s.substr(0, i)); }
}
void genEdits2(const Str &s, const Str &al, const Emit &f) {
  for (size_t i = 0; i <= s.size(); ++i)
    for (size_t j = i; j <= s.size(); ++j)
      for (char a : al)
        for (char b : al)
          for (int m = 0; m < 4; ++m) {
            Str t = s;
            if (m & 1) { if (j >= t.size()) continue; t[j] = b; } else t.insert(j, 1, b);
            if (m & 2) { if (i >= t.size()) continue; t[i] = a; } else t.insert(i, 1, a);
            f(t);
          }
}
static Str hx(unsigned v, bool up) { char b[8]; snprintf(b, sizeof b, up ? "%04X" : "%04x", v); return b; }
void genEscapes(bool pairs, const Emit &f) {
  if (!pairs) {
    for (unsigned v = 0; v < 65536; ++v) { f("\\u" + hx(v, false)); f("\\u" + hx(v, true)); f("x\\u" + hx(v, v & 1) + "y"); }
    for (int pos = 0; pos < 4; ++pos)
      for (int b = 1; b < 256; ++b)
        for (const char *base : {"0000", "00e9", "20AC", "FFFF", "d800", "aAfF"}) { Str t = base; t[pos] = (char)b; f("\\u" + t); f("\\u" + t + "\\uDC00"); f("\\uD800\\u" + t); }
    for (int b = 1; b < 256; ++b) { f(Str("\\") + (char)b); f(Str("\\") + (char)b + "z"); f(Str(1, (char)b)); f(Str("a") + (char)b + "z"); f(Str("\\ud800\\") + (char)b + "dc00"); f(Str("\\ud800") + (char)b + "udc00"); }
    for (int n = 0; n <= 12; ++n) f(Str("\\ud83d\\ude00").substr(0, n));
  } else {
    unsigned edge[] = {0, 1, 0x41, 0xff, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xd801, 0xdbfe, 0xdbff, 0xdc00, 0xdc01, 0xdffe, 0xdfff, 0xe000, 0xe001, 0xfffe, 0xffff};
    for (unsigned e : edge)
      for (unsigned v = 0; v < 65536; v += (e >= 0xd800 && e <= 0xdbff) ? 1 : 7) f("\\u" + hx(e, v & 1) + "\\u" + hx(v, e & 1));
    for (unsigned v = 0xd780; v < 0xe080; ++v)
      for (unsigned e : edge) { f("\\u" + hx(v, e & 1) + "\\u" + hx(e, v & 1)); f("\\u" + hx(v, true) + "\\u" + hx(e, true) + "\\u" + hx(0xdc00, false)); }
  }
}
std::vector<size_t> sizes(size_t dense, size_t max) {
  std::vector<size_t> r;
  for (size_t n = 0; n <= dense && n <= max; ++n) r.push_back(n);
  for (size_t p = 1; p < max * 2; p <<= 1)
    for (long d = -40; d <= 40; ++d) {
      if (p > 65536 && (d < -3 || d > 3)) continue;
      if (d % 8 && (d > 3 || d < -3) && p > 8192) continue;
      long n = (long)p + d;
      if (n > (long)dense && n <= (long)max) r.push_back((size_t)n);
    }
  for (size_t n = 1000; n <= max; n = n * 13 / 7 + 17) if (n > dense) r.push_back(n);
  for (size_t p = 100; p <= max; p *= 10) // round decimal numbers
    for (size_t m : {10, 12, 15, 20, 25, 30, 40, 50, 60, 75, 80, 90})
      for (long d = -2; d <= 2; ++d) {
        size_t n = p / 10 * m + (size_t)d;
        if (n > dense && n <= max) r.push_back(n);
      }
  for (size_t k = 1; k <= 48; ++k) // multiples of 1 KiB, 3 * 2^k
    for (long d = -1; d <= 1; ++d) {
      size_t n = k * 1024 + (size_t)d;
      if (n > dense && n <= max) r.push_back(n);
    }
  for (size_t p = 3; p <= max; p <<= 1)
    for (long d = -1; d <= 1; ++d) if (p + (size_t)d > dense && p + (size_t)d <= max) r.push_back(p + (size_t)d);
  std::sort(r.begin(), r.end());
  r.erase(std::unique(r.begin(), r.end()), r.end());
  return r;
}
static Str mkStr(size_t n) { return "\"" + Str(n, 'x') + "\""; }
static Str mkStrIn(size_t n) { return "[\"" + Str(n, 'y') + "\",2]"; }
static Str mkStrEsc(size_t n) { return "[0,\"" + rep("\\u00e9", n / 6) + Str(n % 6, 'z') + "\"]"; }
static Str mkNum(size_t n) { return n ? "1" + Str(n - 1, '7') : Str("-1"); }
static Str mkNumIn(size_t n) { return "[-0." + Str(n + 1, '3') + ",4]"; }
static Str mkExp(size_t n) { return "{\"a\":1e" + Str(n, '0') + "5}"; }
static Str mkKey(size_t n) { return "{\"" + Str(n, 'k') + "\":1,\"b\":2}"; }
static Str mkArr(size_t n) { Str s = "["; for (size_t i = 0; i < n; ++i) { if (i) s += ','; s += std::to_string(i % 10); } return s + "]"; }
static Str mkObj(size_t n) { Str s = "{"; for (size_t i = 0; i < n; ++i) { if (i) s += ','; s += "\"k" + std::to_string(i) + "\":" + std::to_string(i % 7); } return s + "}"; }
static Str mkDeepA(size_t n) { return Str(n + 1, '[') + Str(n + 1, ']'); }
static Str mkDeepO(size_t n) { return rep("{\"a\":", n) + "1" + Str(n, '}'); }
static Str mkDeepM(size_t n) { Str a, b; for (size_t i = 0; i < n; ++i) a += i % 3 == 1 ? "{\"k\":" : "[1,"; for (size_t i = n; i-- > 0;) b += i % 3 == 1 ? "}" : ",2]"; return a + "true" + b; }
static Str mkWs(size_t n) { return Str(n, ' ') + "[" + Str(n, '\n') + "1" + Str(n, '\t') + "]" + Str(n, '\r'); }
static Str mkMany(size_t n) { Str s = "["; for (size_t i = 0; i < n; ++i) { if (i) s += ','; s += i % 4 == 0 ? "[]" : i % 4 == 1 ? "{}" : i % 4 == 2 ? "\"\"" : "null"; } return s + "]"; }
const std::vector<SizeKind> SIZE_KINDS = {
    {"string", mkStr, 1 << 22}, {"string_in_array", mkStrIn, 1 << 22}, {"escaped_string", mkStrEsc, 1 << 22}, {"number", mkNum, 1 << 20}, {"fraction", mkNumIn, 1 << 20}, {"exponent", mkExp, 1 << 18}, {"key", mkKey, 1 << 22}, {"array", mkArr, 1 << 20},
    {"object", mkObj, 1 << 17}, {"nested_arrays", mkDeepA, 8000}, {"nested_objects", mkDeepO, 8000}, {"nested_mixed", mkDeepM, 3000}, {"whitespace", mkWs, 1 << 20}, {"mixed_array", mkMany, 1 << 18}};

// all trees with at most n nodes
static void docRec(int n, const std::function<void(const Str &, int)> &k);
static void kidsRec(int n, bool obj, int idx, const Str &acc, const std::function<void(const Str &, int)> &k) {
  k(acc, n); // stop here
  if (n <= 0) return;
  docRec(n, [&](const Str &d, int left) {
    static const char *keys[] = {"a", "b", "", "a", "c"};
    Str s = acc;
    if (idx) s += ",";
    if (obj) s += Str("\"") + keys[idx % 5] + "\":";
    kidsRec(left, obj, idx + 1, s + d, k);
  });
}
static void docRec(int n, const std::function<void(const Str &, int)> &k) {
  if (n <= 0) return;
  static const char *leaf[] = {"1", "\"s\"", "true", "null", "-2.5e1", "false", "\"\""};
  for (auto l : leaf) k(l, n - 1);
  kidsRec(n - 1, false, 0, "", [&](const Str &s, int left) { k("[" + s + "]", left); });
  kidsRec(n - 1, true, 0, "", [&](const Str &s, int left) { k("{" + s + "}", left); });
}
void genDocs(int n, const Emit &f) { docRec(n, [&](const Str &s, int) { f(s); }); }
