// Reference semantics: RFC 8259 recogniser, ordered-tree document, escaping.
// Written from the RFC, independent of the library.
#pragma once
#include "vf.h"
#include <memory>

enum JT { T_NONE = 0, T_BOOL = 1, T_ARR = 2, T_OBJ = 3, T_STR = 4, T_NULL = 5, T_NUM = 6 };

struct RefNode {
  int type = T_NONE;
  bool hasKey = false;
  Str key; // raw, escaped form
  Str tok; // raw token characters: string body, number literal, true/false/null
  std::vector<RefNode> kids;
};

enum RefStatus { R_OK, R_INCOMPLETE, R_ERROR };

struct RefParser {
  const char *p, *e;
  const char *furthest = nullptr;
  explicit RefParser(SV s) : p(s.data()), e(s.data() + s.size()) {}
  static bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
  static bool dig(char c) { return c >= '0' && c <= '9'; }
  static int hex(char c) {
    if (dig(c)) return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
  }
  void skip() { while (p < e && ws(*p)) ++p; }
  RefStatus need(char c) {
    if (p == e) return R_INCOMPLETE;
    if (*p != c) return R_ERROR;
    ++p;
    return R_OK;
  }
  RefStatus word(const char *w) {
    for (; *w; ++w) { RefStatus r = need(*w); if (r) return r; }
    return R_OK;
  }
  RefStatus hex4(unsigned &v) {
    v = 0;
    for (int i = 0; i < 4; ++i) {
      if (p == e) return R_INCOMPLETE;
      int h = hex(*p);
      if (h < 0) return R_ERROR;
      v = v * 16 + (unsigned)h;
      ++p;
    }
    return R_OK;
  }
  // characters of a string up to (not including) the closing quote
  RefStatus body(bool untilQuote) {
    for (;;) {
      if (p == e) return untilQuote ? R_INCOMPLETE : R_OK;
      unsigned char c = (unsigned char)*p;
      if (c == '"') return untilQuote ? R_OK : R_ERROR;
      if (c < 0x20) return R_ERROR;
      ++p;
      if (c != '\\') continue;
      if (p == e) return R_INCOMPLETE;
      char x = *p++;
      if (strchr("\"\\/bfnrt", x) && x) continue;
      if (x != 'u') return R_ERROR;
      unsigned v;
      RefStatus r = hex4(v);
      if (r) return r;
      if (v >= 0xDC00 && v <= 0xDFFF) return R_ERROR;
      if (v >= 0xD800 && v <= 0xDBFF) {
        if ((r = need('\\')) || (r = need('u'))) return r;
        unsigned w;
        if ((r = hex4(w))) return r;
        if (w < 0xDC00 || w > 0xDFFF) return R_ERROR;
      }
    }
  }
  RefStatus str(Str *out) {
    RefStatus r = need('"');
    if (r) return r;
    const char *b = p;
    if ((r = body(true))) return r;
    if (out) out->assign(b, p);
    ++p;
    return R_OK;
  }
  RefStatus digits() {
    if (p == e) return R_INCOMPLETE;
    if (!dig(*p)) return R_ERROR;
    while (p < e && dig(*p)) ++p;
    return R_OK;
  }
  RefStatus num() {
    RefStatus r;
    if (p < e && *p == '-') ++p;
    if (p == e) return R_INCOMPLETE;
    if (*p == '0') ++p;
    else if ((r = digits())) return r;
    if (p < e && *p == '.') { ++p; if ((r = digits())) return r; }
    if (p < e && (*p == 'e' || *p == 'E')) {
      ++p;
      if (p < e && (*p == '+' || *p == '-')) ++p;
      if ((r = digits())) return r;
    }
    return R_OK;
  }
  RefStatus value(RefNode *n) {
    skip();
    if (p == e) return R_INCOMPLETE;
    RefStatus r;
    const char *b = p;
    switch (*p) {
    case '[':
      ++p;
      if (n) n->type = T_ARR;
      skip();
      if (p == e) return R_INCOMPLETE;
      if (*p == ']') { ++p; return R_OK; }
      for (;;) {
        RefNode *k = nullptr;
        if (n) { n->kids.emplace_back(); k = &n->kids.back(); }
        if ((r = value(k))) return r;
        skip();
        if (p == e) return R_INCOMPLETE;
        if (*p == ',') { ++p; continue; }
        if (*p == ']') { ++p; return R_OK; }
        return R_ERROR;
      }
    case '{':
      ++p;
      if (n) n->type = T_OBJ;
      skip();
      if (p == e) return R_INCOMPLETE;
      if (*p == '}') { ++p; return R_OK; }
      for (;;) {
        RefNode *k = nullptr;
        if (n) { n->kids.emplace_back(); k = &n->kids.back(); k->hasKey = true; }
        skip();
        if ((r = str(k ? &k->key : nullptr))) return r;
        skip();
        if ((r = need(':'))) return r;
        if ((r = value(k))) return r;
        skip();
        if (p == e) return R_INCOMPLETE;
        if (*p == ',') { ++p; continue; }
        if (*p == '}') { ++p; return R_OK; }
        return R_ERROR;
      }
    case '"':
      if (n) n->type = T_STR;
      return str(n ? &n->tok : nullptr);
    case 't': if (n) { n->type = T_BOOL; n->tok = "true"; } return word("true");
    case 'f': if (n) { n->type = T_BOOL; n->tok = "false"; } return word("false");
    case 'n': if (n) { n->type = T_NULL; n->tok = "null"; } return word("null");
    default:
      if (n) n->type = T_NUM;
      if ((r = num())) return r;
      if (n) n->tok.assign(b, p);
      return R_OK;
    }
  }
  RefStatus text(RefNode *n) {
    RefStatus r = value(n);
    if (r) return r;
    skip();
    return p == e ? R_OK : R_ERROR;
  }
};
// a text ends at its first NUL byte
inline SV refCut(SV s) { size_t k = s.find('\0'); return k == SV::npos ? s : s.substr(0, k); }
inline RefStatus refStatus(SV s) { return RefParser(refCut(s)).text(nullptr); }
inline bool refValid(SV s) { return refStatus(s) == R_OK; }
inline bool refParse(SV s, RefNode &n) { n = RefNode(); return RefParser(refCut(s)).text(&n) == R_OK; }
inline bool refStrBody(SV s) { // s contains the bytes considered, NUL is an ordinary (invalid) byte
  RefParser q(s);
  return q.body(false) == R_OK && q.p == q.e;
}
inline bool refNum(SV s) {
  if (s.empty() || !(s[0] == '-' || RefParser::dig(s[0]))) return false;
  RefParser q(s);
  return q.num() == R_OK && q.p == q.e;
}
inline void refDump(const RefNode &n, Str &o) {
  switch (n.type) {
  case T_ARR: case T_OBJ: {
    o += n.type == T_ARR ? '[' : '{';
    bool first = true;
    for (auto &k : n.kids) {
      if (!first) o += ',';
      first = false;
      if (n.type == T_OBJ) { o += '"'; o += k.key; o += "\":"; }
      refDump(k, o);
    }
    o += n.type == T_ARR ? ']' : '}';
    break;
  }
  case T_STR: o += '"'; o += n.tok; o += '"'; break;
  case T_NONE: break;
  default: o += n.tok;
  }
}
inline Str refDump(const RefNode &n) { Str s; refDump(n, s); return s; }
inline void utf8(unsigned cp, Str &o) {
  if (cp < 0x80) o += (char)cp;
  else if (cp < 0x800) { o += (char)(0xC0 | (cp >> 6)); o += (char)(0x80 | (cp & 63)); }
  else if (cp < 0x10000) { o += (char)(0xE0 | (cp >> 12)); o += (char)(0x80 | ((cp >> 6) & 63)); o += (char)(0x80 | (cp & 63)); }
  else { o += (char)(0xF0 | (cp >> 18)); o += (char)(0x80 | ((cp >> 12) & 63)); o += (char)(0x80 | ((cp >> 6) & 63)); o += (char)(0x80 | (cp & 63)); }
}
// decode a valid string body
inline Str refDecode(SV s) {
  Str o;
  for (size_t i = 0; i < s.size();) {
    if (s[i] != '\\') { o += s[i++]; continue; }
    char x = s[i + 1];
    i += 2;
    switch (x) {
    case 'b': o += '\b'; break;
    case 'f': o += '\f'; break;
    case 'n': o += '\n'; break;
    case 'r': o += '\r'; break;
    case 't': o += '\t'; break;
    case 'u': {
      auto h4 = [&](size_t k) { unsigned v = 0; for (int j = 0; j < 4; ++j) v = v * 16 + (unsigned)RefParser::hex(s[k + j]); return v; };
      unsigned v = h4(i);
      i += 4;
      if (v >= 0xD800 && v <= 0xDBFF) { unsigned w = h4(i + 2); i += 6; v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00); }
      utf8(v, o);
      break;
    }
    default: o += x;
    }
  }
  return o;
}
inline SV cview(const Str &s) { return SV(s.c_str(), strlen(s.c_str())); } // up to first NUL
// does an escaped form spell exactly `bytes`, escaping what must be escaped and nothing that need not be
inline bool refEscapeOk(SV esc, SV bytes, Str &why) {
  if (!refStrBody(esc)) { why = "not a valid string body"; return false; }
  if (refDecode(esc) != Str(bytes)) { why = "does not decode to the original bytes"; return false; }
  // every byte other than controls, quote and backslash stands for itself
  size_t i = 0;
  for (size_t k = 0; k < bytes.size(); ++k) {
    unsigned char b = bytes[k];
    if (b >= 0x20 && b != '"' && b != '\\') {
      if (i >= esc.size() || esc[i] != (char)b) { why = "a byte that needs no escape was changed"; return false; }
      ++i;
    } else {
      if (i >= esc.size() || esc[i] != '\\') { why = "missing escape"; return false; }
      i += (i + 1 < esc.size() && esc[i + 1] == 'u') ? 6 : 2;
    }
  }
  return true;
}
// integer part of a literal without exponent; false if it does not fit
bool refInt(SV lit, long long lo, long long hi, long long &v);
double refDouble(const Str &lit);

// ---- comparing an implementation value with a reference tree -------------------
struct Cmp {
  Ctx &c;
  const Api &A;
  // all getters on one value; deep: children too
  void node(void *h, const RefNode &n, bool isRoot);
  void tree(void *h, const RefNode &n, bool isRoot = true);
  void quick(void *h, const RefNode &n); // structure via Begin/Next and Fast getters only
  void empty(void *h);
  void stringify(void *h, const RefNode &n);
};
